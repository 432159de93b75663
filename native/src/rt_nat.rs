use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct St {
    bytes: Vec<u8>,
    pos: usize,
    hash: u64,
    panic: Option<String>,
}
thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));

struct Stop(String);

fn next() -> u8 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let b = s.bytes.get(s.pos).copied().unwrap_or(0);
        s.pos += 1;
        b
    })
}
fn mix(x: u64) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for b in x.to_le_bytes() {
            s.hash = (s.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
    })
}
pub unsafe fn vp_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = next();
    }
}
pub unsafe fn vp_choose(n: u32) -> u32 {
    let b = next() as u32;
    if b >= n {
        std::panic::panic_any(Stop("badinput".into()));
    }
    b
}
pub unsafe fn vp_assume(b: bool) {
    if !b {
        std::panic::panic_any(Stop("assumed".into()));
    }
}
pub unsafe fn vp_assert(b: bool, id: u64) {
    if !b {
        std::panic::panic_any(Stop(format!("assert:{}", id)));
    }
}
pub unsafe fn vp_cover(_: u64) {}
pub unsafe fn vp_out(v: u64) {
    mix(v)
}
pub unsafe fn vp_out_bytes(p: *const u8, n: usize) {
    mix(n as u64);
    for i in 0..n {
        mix(*p.add(i) as u64);
    }
}
pub unsafe fn vp_conc(v: u64) -> u64 {
    v
}

pub fn main(hs: &[(&str, fn())]) {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Stop>() {
            return;
        }
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        ST.with(|s| s.borrow_mut().panic = Some(l));
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let h = it.next().unwrap_or("");
        let hx = it.next().unwrap_or("").trim_start_matches("x");
        let bytes: Vec<u8> = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect();
        let f = match hs.iter().find(|x| x.0 == h) {
            Some(f) => f.1,
            None => {
                println!("nohar 0");
                continue;
            }
        };
        ST.with(|s| *s.borrow_mut() = St { bytes, pos: 0, hash: 0xcbf29ce484222325, panic: None });
        let r = catch_unwind(AssertUnwindSafe(f));
        let out = match r {
            Ok(()) => "ok".to_string(),
            Err(e) => match e.downcast::<Stop>() {
                Ok(s) => s.0,
                Err(_) => format!("panic:{}", ST.with(|s| s.borrow().panic.clone()).unwrap_or_default()),
            },
        };
        let h = ST.with(|s| s.borrow().hash);
        println!("{} {:016x}", out.replace(' ', "_"), h);
        std::io::stdout().flush().unwrap();
    }
}
