//! Flat copy-on-write paged memory with optional per-byte symbolic expressions.
use crate::prog::{Prog, IMG};
use std::rc::Rc;

pub const PG: u64 = 512;
pub const HEAP: u64 = 0x4000_0000;
pub const STACK: u64 = 0x8000_0000;
pub const HEAP_MAX: u64 = 64 << 20;
pub const STACK_MAX: u64 = 16 << 20;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PG as usize],
    pub s: Option<Box<[u32; PG as usize]>>,
}

#[derive(Clone)]
pub struct Mem {
    pub img: Vec<Option<Rc<Page>>>,
    pub heap: Vec<Rc<Page>>,
    pub stack: Vec<Rc<Page>>,
    zero: Rc<Page>,
    pub img_end: u64,
    pub const_end: u64,
}

pub type MR<T> = Result<T, String>;

impl Mem {
    pub fn new(p: &Prog) -> Mem {
        let n = (p.image.len() as u64 + PG - 1) / PG;
        let zero = Rc::new(Page { d: [0; PG as usize], s: None });
        let mut img = vec![];
        for i in 0..n {
            let mut pg = Page { d: [0; PG as usize], s: None };
            let a = (i * PG) as usize;
            let e = (a + PG as usize).min(p.image.len());
            pg.d[..e - a].copy_from_slice(&p.image[a..e]);
            img.push(Some(Rc::new(pg)));
        }
        Mem { img, heap: vec![], stack: vec![], zero, img_end: IMG + p.image.len() as u64, const_end: p.const_end }
    }
    pub fn ensure_heap(&mut self, end: u64) {
        let n = ((end - HEAP) + PG - 1) / PG;
        while (self.heap.len() as u64) < n {
            self.heap.push(self.zero.clone());
        }
    }
    pub fn ensure_stack(&mut self, end: u64) {
        let n = ((end - STACK) + PG - 1) / PG;
        while (self.stack.len() as u64) < n {
            self.stack.push(self.zero.clone());
        }
    }
    #[inline]
    pub fn page(&self, a: u64) -> Option<&Page> {
        if a >= STACK {
            self.stack.get(((a - STACK) / PG) as usize).map(|x| &**x)
        } else if a >= HEAP {
            self.heap.get(((a - HEAP) / PG) as usize).map(|x| &**x)
        } else if a >= IMG {
            self.img.get(((a - IMG) / PG) as usize).and_then(|x| x.as_deref())
        } else {
            None
        }
    }
    #[inline]
    pub fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        if a >= STACK {
            self.stack.get_mut(((a - STACK) / PG) as usize).map(Rc::make_mut)
        } else if a >= HEAP {
            self.heap.get_mut(((a - HEAP) / PG) as usize).map(Rc::make_mut)
        } else if a >= self.const_end {
            self.img.get_mut(((a - IMG) / PG) as usize).and_then(|x| x.as_mut()).map(Rc::make_mut)
        } else {
            None
        }
    }
    #[inline]
    fn off(a: u64) -> usize {
        // all region bases are multiples of PG
        (a % PG) as usize
    }
    /// concrete fast path for n <= 8; None if any byte is symbolic / crosses / unmapped
    #[inline]
    pub fn load_fast(&self, a: u64, n: usize) -> Option<u64> {
        let o = Self::off(a);
        if o + n > PG as usize {
            return None;
        }
        let p = self.page(a)?;
        if p.s.is_some() {
            let s = p.s.as_ref().unwrap();
            if s[o..o + n].iter().any(|x| *x != 0) {
                return None;
            }
        }
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&p.d[o..o + n]);
        Some(u64::from_le_bytes(b))
    }
    pub fn byte(&self, a: u64) -> MR<(u8, u32)> {
        let p = self.page(a).ok_or_else(|| format!("read of unmapped address {:#x}", a))?;
        let o = Self::off(a);
        Ok((p.d[o], p.s.as_ref().map_or(0, |s| s[o])))
    }
    pub fn set_byte(&mut self, a: u64, v: u8, e: u32) -> MR<()> {
        let p = self.page_mut(a).ok_or_else(|| format!("write to unmapped address {:#x}", a))?;
        let o = Self::off(a);
        p.d[o] = v;
        if e != 0 {
            p.s.get_or_insert_with(|| Box::new([0; PG as usize]))[o] = e;
        } else if let Some(s) = &mut p.s {
            s[o] = 0;
        }
        Ok(())
    }
    #[inline]
    pub fn store(&mut self, a: u64, v: u128, n: usize) -> MR<()> {
        let o = Self::off(a);
        if o + n <= PG as usize {
            let p = self.page_mut(a).ok_or_else(|| format!("write to unmapped address {:#x}", a))?;
            p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut p.s {
                s[o..o + n].fill(0);
            }
            Ok(())
        } else {
            let b = v.to_le_bytes();
            for i in 0..n {
                self.set_byte(a + i as u64, b[i], 0)?;
            }
            Ok(())
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> MR<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        // gather then scatter (memmove semantics)
        let mut buf: Vec<u8> = Vec::with_capacity(n as usize);
        let mut sy: Vec<(usize, u32)> = vec![];
        let mut a = s;
        let e = s + n;
        while a < e {
            let o = Self::off(a);
            let k = (PG as usize - o).min((e - a) as usize);
            let p = self.page(a).ok_or_else(|| format!("memcpy from unmapped address {:#x}", a))?;
            if let Some(x) = &p.s {
                for i in 0..k {
                    if x[o + i] != 0 {
                        sy.push((buf.len() + i, x[o + i]));
                    }
                }
            }
            buf.extend_from_slice(&p.d[o..o + k]);
            a += k as u64;
        }
        let mut a = d;
        let e = d + n;
        let mut i = 0;
        while a < e {
            let o = Self::off(a);
            let k = (PG as usize - o).min((e - a) as usize);
            let p = self.page_mut(a).ok_or_else(|| format!("memcpy to unmapped address {:#x}", a))?;
            p.d[o..o + k].copy_from_slice(&buf[i..i + k]);
            if let Some(x) = &mut p.s {
                x[o..o + k].fill(0);
            }
            i += k;
            a += k as u64;
        }
        for (i, x) in sy {
            self.set_byte(d + i as u64, 0, x)?;
        }
        Ok(())
    }
    pub fn fill(&mut self, d: u64, v: u8, n: u64) -> MR<()> {
        let mut a = d;
        let e = d + n;
        while a < e {
            let o = Self::off(a);
            let k = (PG as usize - o).min((e - a) as usize);
            let p = self.page_mut(a).ok_or_else(|| format!("memset of unmapped address {:#x}", a))?;
            p.d[o..o + k].fill(v);
            if let Some(x) = &mut p.s {
                x[o..o + k].fill(0);
            }
            a += k as u64;
        }
        Ok(())
    }
}
