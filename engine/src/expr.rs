//! Hash-consed bit-vector / floating-point expression DAG over symbolic input bytes.
use std::collections::HashMap;
use std::rc::Rc;

pub type Eid = u32; // 0 = invalid
pub type Set = [u64; 4];
pub const FULL: Set = [u64::MAX; 4];
pub const EMPTY: Set = [0; 4];

pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_or(a: &Set, b: &Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn set_not(a: &Set) -> Set {
    [!a[0], !a[1], !a[2], !a[3]]
}
pub fn set_has(a: &Set, v: u8) -> bool {
    a[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn set_first(a: &Set) -> Option<u8> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some((i * 64) as u8 + a[i].trailing_zeros() as u8);
        }
    }
    None
}
pub fn set_count(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var, // a = var index
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite, // a ? b : c
    ZExt,
    SExt,
    Extract, // b = low bit
    Concat,  // a high, b low
    InSet,   // a = var index, b = set index
    Table,   // a = index expr, b = table id
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FEq,
    FLt,
    FLe,
    FIsNan,
    UIToFP,
    SIToFP,
    FPToUI, // saturating
    FPToSI,
    FPCvt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128, // constant value
}

pub struct Table {
    pub w: u32,
    pub vals: Vec<u128>,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>, // variable mask per node
    memo: HashMap<Node, Eid>,
    pub sets: Vec<Set>,
    setmap: HashMap<Set, u32>,
    pub tables: Vec<Table>,
    tablemap: HashMap<(u32, Vec<u128>), u32>,
    tabs: HashMap<Eid, Rc<Vec<u128>>>,
    // eval scratch
    stamp: Vec<u32>,
    vals: Vec<u128>,
    gen: u32,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn fget(v: u128, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
pub fn fbin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            _ => x % y,
        };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op {
            Op::FAdd => x + y,
            Op::FSub => x - y,
            Op::FMul => x * y,
            Op::FDiv => x / y,
            _ => x % y,
        };
        r.to_bits() as u128
    }
}
pub fn fcmp(op: Op, w: u32, a: u128, b: u128) -> bool {
    let (x, y) = (fget(a, w), fget(b, w));
    match op {
        Op::FEq => x == y,
        Op::FLt => x < y,
        Op::FLe => x <= y,
        _ => x.is_nan(),
    }
}

/// Concrete semantics of one operator. `w` result width, `wa` operand width.
pub fn apply(op: Op, w: u32, wa: u32, wb: u32, lo: u32, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                if sext(a, w) < 0 {
                    1
                } else {
                    m
                }
            } else {
                sext(a, w).wrapping_div(sext(b, w)) as u128 & m
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                sext(a, w).wrapping_rem(sext(b, w)) as u128 & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
        Op::Sle => (sext(a, wa) <= sext(b, wa)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::ZExt => a,
        Op::SExt => sext(a, wa) as u128 & m,
        Op::Extract => (a >> lo) & m,
        Op::Concat => ((a << wb) | b) & m,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => fbin(op, w, a, b),
        Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => fcmp(op, wa, a, b) as u128,
        Op::UIToFP => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::SIToFP => {
            if w == 32 {
                (sext(a, wa) as f32).to_bits() as u128
            } else {
                (sext(a, wa) as f64).to_bits() as u128
            }
        }
        Op::FPToUI => {
            let f = fget(a, wa);
            let v = f as u128; // saturating
            if v > m {
                m
            } else {
                v
            }
        }
        Op::FPToSI => {
            let f = fget(a, wa);
            let v = f as i128;
            let hi = (m >> 1) as i128;
            let lo = -hi - 1;
            (v.clamp(lo, hi)) as u128 & m
        }
        Op::FPCvt => {
            if wa == 32 && w == 64 {
                (f32::from_bits(a as u32) as f64).to_bits() as u128
            } else if wa == 64 && w == 32 {
                (f64::from_bits(a as u64) as f32).to_bits() as u128
            } else {
                a
            }
        }
        Op::Const | Op::Var | Op::InSet | Op::Table => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Self {
        let n = Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 };
        Ctx {
            nodes: vec![n],
            vars: vec![0],
            memo: HashMap::new(),
            sets: vec![],
            setmap: HashMap::new(),
            tables: vec![],
            tablemap: HashMap::new(),
            tabs: HashMap::new(),
            stamp: vec![0],
            vals: vec![0],
            gen: 0,
        }
    }
    #[inline]
    pub fn n(&self, e: Eid) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: Eid) -> u32 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn cval(&self, e: Eid) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn raw(&mut self, n: Node) -> Eid {
        if let Some(e) = self.memo.get(&n) {
            return *e;
        }
        let vm = match n.op {
            Op::Const => 0,
            Op::Var | Op::InSet => {
                assert!(n.a < 128, "more than 128 symbolic bytes");
                1u128 << n.a
            }
            Op::Ite => self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
            Op::ZExt | Op::SExt | Op::Extract | Op::Table | Op::UIToFP | Op::SIToFP | Op::FPToSI | Op::FPToUI | Op::FPCvt => {
                self.vars[n.a as usize]
            }
            _ => self.vars[n.a as usize] | self.vars[n.b as usize],
        };
        let e = self.nodes.len() as Eid;
        self.nodes.push(n);
        self.vars.push(vm);
        self.stamp.push(0);
        self.vals.push(0);
        self.memo.insert(n, e);
        e
    }
    pub fn k(&mut self, w: u32, v: u128) -> Eid {
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var(&mut self, i: u32) -> Eid {
        self.raw(Node { op: Op::Var, w: 8, a: i, b: 0, c: 0, k: 0 })
    }
    pub fn set_id(&mut self, s: Set) -> u32 {
        if let Some(i) = self.setmap.get(&s) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(s);
        self.setmap.insert(s, i);
        i
    }
    pub fn inset(&mut self, v: u32, s: Set) -> Eid {
        if s == EMPTY {
            return self.k(1, 0);
        }
        if s == FULL {
            return self.k(1, 1);
        }
        let id = self.set_id(s);
        self.raw(Node { op: Op::InSet, w: 1, a: v, b: id, c: 0, k: 0 })
    }
    pub fn as_inset(&self, e: Eid) -> Option<(u32, Set)> {
        let n = self.n(e);
        if n.op == Op::InSet {
            Some((n.a, self.sets[n.b as usize]))
        } else {
            None
        }
    }
    pub fn table(&mut self, w: u32, vals: Vec<u128>, idx: Eid) -> Eid {
        if vals.iter().all(|v| *v == vals[0]) {
            return self.k(w, vals[0]);
        }
        let key = (w, vals);
        let id = match self.tablemap.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(Table { w, vals: key.1.clone() });
                self.tablemap.insert(key, i);
                i
            }
        };
        let n = Node { op: Op::Table, w, a: idx, b: id, c: 0, k: 0 };
        self.fin(n)
    }
    /// single-variable value table (256 entries)
    pub fn tab(&mut self, e: Eid) -> Rc<Vec<u128>> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        let n = *self.n(e);
        let r: Vec<u128> = match n.op {
            Op::Const => vec![n.k; 256],
            Op::Var => (0..256).map(|x| x as u128).collect(),
            Op::InSet => {
                let s = self.sets[n.b as usize];
                (0..256).map(|x| set_has(&s, x as u8) as u128).collect()
            }
            Op::Table => {
                let ta = self.tab(n.a);
                let t = &self.tables[n.b as usize].vals;
                ta.iter().map(|i| t.get(*i as usize).copied().unwrap_or(0)).collect()
            }
            Op::ZExt | Op::SExt | Op::Extract | Op::UIToFP | Op::SIToFP | Op::FPToSI | Op::FPToUI | Op::FPCvt => {
                let ta = self.tab(n.a);
                let wa = self.w(n.a);
                ta.iter().map(|a| apply(n.op, n.w, wa, 0, n.b, *a, 0, 0)).collect()
            }
            Op::Ite => {
                let (ta, tb, tc) = (self.tab(n.a), self.tab(n.b), self.tab(n.c));
                (0..256).map(|i| if ta[i] != 0 { tb[i] } else { tc[i] }).collect()
            }
            _ => {
                let (ta, tb) = (self.tab(n.a), self.tab(n.b));
                let (wa, wb) = (self.w(n.a), self.w(n.b));
                (0..256).map(|i| apply(n.op, n.w, wa, wb, 0, ta[i], tb[i], 0)).collect()
            }
        };
        if self.tabs.len() > 4000 {
            self.tabs.clear();
        }
        let r = Rc::new(r);
        self.tabs.insert(e, r.clone());
        r
    }
    /// finish construction: canonicalise single-variable booleans to InSet
    fn fin(&mut self, n: Node) -> Eid {
        if let Some(e) = self.memo.get(&n) {
            // may itself have been redirected
            let e = *e;
            return e;
        }
        let e = self.raw(n);
        let vm = self.vars[e as usize];
        if vm == 0 {
            // all-constant: fold
            let v = self.eval_closed(e);
            let c = self.k(n.w, v);
            self.memo.insert(n, c);
            return c;
        }
        if n.w == 1 && vm.count_ones() == 1 && n.op != Op::InSet {
            let t = self.tab(e);
            let mut s = EMPTY;
            for i in 0..256 {
                if t[i] != 0 {
                    s[i >> 6] |= 1 << (i & 63);
                }
            }
            let r = self.inset(vm.trailing_zeros(), s);
            self.memo.insert(n, r);
            return r;
        }
        e
    }
    fn eval_closed(&mut self, e: Eid) -> u128 {
        self.eval(e, &[])
    }
    pub fn not(&mut self, a: Eid) -> Eid {
        debug_assert_eq!(self.w(a), 1);
        if let Some(v) = self.cval(a) {
            return self.k(1, v ^ 1);
        }
        if let Some((v, s)) = self.as_inset(a) {
            return self.inset(v, set_not(&s));
        }
        let n = *self.n(a);
        if n.op == Op::Xor && n.w == 1 && self.cval(n.b) == Some(1) {
            return n.a;
        }
        let one = self.k(1, 1);
        self.fin(Node { op: Op::Xor, w: 1, a, b: one, c: 0, k: 0 })
    }
    pub fn bin(&mut self, op: Op, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan => 1,
            _ => w,
        };
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = apply(op, rw, w, w, 0, x, y, 0);
            return self.k(rw, v);
        }
        let (mut a, mut b, mut ca, mut cb) = (a, b, ca, cb);
        // commutative: constant to the right; otherwise order by id
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ca, &mut cb);
            }
        }
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Op::Add {
                        if let Some(x) = self.cval(n.b) {
                            let kk = self.k(w, x.wrapping_add(y));
                            return self.bin(Op::Add, n.a, kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.k(w, 0);
                }
                if let Some(y) = cb {
                    let kk = self.k(w, 0u128.wrapping_sub(y));
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
            }
            Op::UDiv | Op::SDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if w == 1 {
                    if let (Some((v1, s1)), Some((v2, s2))) = (self.as_inset(a), self.as_inset(b)) {
                        if v1 == v2 {
                            return self.inset(v1, set_and(&s1, &s2));
                        }
                    }
                } else if let Some(y) = cb {
                    // low mask -> zext(extract)
                    if (y & (y + 1)) == 0 {
                        let k = y.count_ones();
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    // mask on concat / zext: push down when it is byte structured
                    let n = *self.n(a);
                    if n.op == Op::ZExt {
                        let wi = self.w(n.a);
                        let kk = self.k(wi, y);
                        let x = self.bin(Op::And, n.a, kk);
                        return self.zext(x, w);
                    }
                    if n.op == Op::Concat {
                        let (wh, wl) = (self.w(n.a), self.w(n.b));
                        let kh = self.k(wh, y >> wl);
                        let kl = self.k(wl, y);
                        let h = self.bin(Op::And, n.a, kh);
                        let l = self.bin(Op::And, n.b, kl);
                        return self.concat(h, l);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    if let (Some((v1, s1)), Some((v2, s2))) = (self.as_inset(a), self.as_inset(b)) {
                        if v1 == v2 {
                            return self.inset(v1, set_or(&s1, &s2));
                        }
                    }
                } else {
                    // (x << k) | zext(y) with disjoint bits -> concat
                    if let Some(r) = self.or_concat(a, b) {
                        return r;
                    }
                    if let Some(r) = self.or_concat(b, a) {
                        return r;
                    }
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.k(w, 0);
                }
                if w == 1 {
                    if cb == Some(1) {
                        return self.not(a);
                    }
                }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Op::Concat {
                        let (wh, wl) = (self.w(n.a), self.w(n.b));
                        let kh = self.k(wh, y >> wl);
                        let kl = self.k(wl, y);
                        let h = self.bin(Op::Xor, n.a, kh);
                        let l = self.bin(Op::Xor, n.b, kl);
                        return self.concat(h, l);
                    }
                    if n.op == Op::Xor {
                        if let Some(x) = self.cval(n.b) {
                            let kk = self.k(w, x ^ y);
                            return self.bin(Op::Xor, n.a, kk);
                        }
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return self.k(w, 0);
                    }
                    let lo = self.extract(a, 0, w - y as u32);
                    let z = self.k(y as u32, 0);
                    return self.concat(lo, z);
                }
            }
            Op::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        return self.k(w, 0);
                    }
                    let hi = self.extract(a, y as u32, w - y as u32);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.k(1, 1);
                }
                if w == 1 {
                    if let Some(y) = cb {
                        return if y == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    match n.op {
                        Op::ZExt => {
                            let wi = self.w(n.a);
                            if y > mask(wi) {
                                return self.k(1, 0);
                            }
                            let kk = self.k(wi, y);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        Op::SExt => {
                            let wi = self.w(n.a);
                            if sext(y, w) != sext(y & mask(wi), wi) {
                                return self.k(1, 0);
                            }
                            let kk = self.k(wi, y);
                            return self.bin(Op::Eq, n.a, kk);
                        }
                        Op::Concat => {
                            let (wh, wl) = (self.w(n.a), self.w(n.b));
                            let kh = self.k(wh, y >> wl);
                            let kl = self.k(wl, y);
                            let h = self.bin(Op::Eq, n.a, kh);
                            if self.cval(h) == Some(0) {
                                return h;
                            }
                            let l = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Xor => {
                            if let Some(x) = self.cval(n.b) {
                                let kk = self.k(w, x ^ y);
                                return self.bin(Op::Eq, n.a, kk);
                            }
                            if y == 0 {
                                return self.bin(Op::Eq, n.a, n.b);
                            }
                        }
                        Op::Or => {
                            if y == 0 {
                                let z = self.k(w, 0);
                                let h = self.bin(Op::Eq, n.a, z);
                                let l = self.bin(Op::Eq, n.b, z);
                                return self.bin(Op::And, h, l);
                            }
                        }
                        Op::Add => {
                            if let Some(x) = self.cval(n.b) {
                                let kk = self.k(w, y.wrapping_sub(x));
                                return self.bin(Op::Eq, n.a, kk);
                            }
                        }
                        Op::Ite => {
                            let (x, z) = (self.cval(n.b), self.cval(n.c));
                            if let (Some(x), Some(z)) = (x, z) {
                                if x == z {
                                    return self.k(1, (x == y) as u128);
                                }
                                if x == y {
                                    return n.a;
                                }
                                if z == y {
                                    return self.not(n.a);
                                }
                                return self.k(1, 0);
                            }
                            if x.is_some() || z.is_some() {
                                let p = self.bin(Op::Eq, n.b, b);
                                let q = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let (na, nb) = (*self.n(a), *self.n(b));
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.a) == self.w(nb.a) {
                        let h = self.bin(Op::Eq, na.a, nb.a);
                        if self.cval(h) == Some(0) {
                            return h;
                        }
                        let l = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, h, l);
                    }
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                if a == b {
                    return self.k(1, matches!(op, Op::Ule | Op::Sle) as u128);
                }
                if op == Op::Ult && cb == Some(0) {
                    return self.k(1, 0);
                }
                if op == Op::Ult && cb == Some(1) {
                    let z = self.k(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if op == Op::Ule && cb == Some(m) {
                    return self.k(1, 1);
                }
                if op == Op::Ult && ca == Some(m) {
                    return self.k(1, 0);
                }
                if op == Op::Ule && ca == Some(0) {
                    return self.k(1, 1);
                }
                // compare of zext against constant / zext
                let (na, nb) = (*self.n(a), *self.n(b));
                let za = if na.op == Op::ZExt { Some(na.a) } else { None };
                let zb = if nb.op == Op::ZExt { Some(nb.a) } else { None };
                let uop = match op {
                    Op::Slt => Op::Ult,
                    Op::Sle => Op::Ule,
                    o => o,
                };
                if let (Some(x), Some(y)) = (za, zb) {
                    let wi = self.w(x).max(self.w(y));
                    if wi < w {
                        let x = self.zext(x, wi);
                        let y = self.zext(y, wi);
                        return self.bin(uop, x, y);
                    }
                }
                if let (Some(x), Some(y)) = (za, cb) {
                    let wi = self.w(x);
                    let signed = matches!(op, Op::Slt | Op::Sle);
                    if signed && sext(y, w) < 0 {
                        return self.k(1, 0);
                    }
                    if y > mask(wi) {
                        return self.k(1, 1);
                    }
                    let kk = self.k(wi, y);
                    return self.bin(uop, x, kk);
                }
                if let (Some(x), Some(y)) = (ca, zb) {
                    let wi = self.w(y);
                    let signed = matches!(op, Op::Slt | Op::Sle);
                    if signed && sext(x, w) < 0 {
                        return self.k(1, 1);
                    }
                    if x > mask(wi) {
                        return self.k(1, 0);
                    }
                    let kk = self.k(wi, x);
                    return self.bin(uop, kk, y);
                }
                // ite with constant leaves
                if cb.is_some() && na.op == Op::Ite && (self.cval(na.b).is_some() || self.cval(na.c).is_some()) {
                    let p = self.bin(op, na.b, b);
                    let q = self.bin(op, na.c, b);
                    return self.ite(na.a, p, q);
                }
                if ca.is_some() && nb.op == Op::Ite && (self.cval(nb.b).is_some() || self.cval(nb.c).is_some()) {
                    let p = self.bin(op, a, nb.b);
                    let q = self.bin(op, a, nb.c);
                    return self.ite(nb.a, p, q);
                }
            }
            Op::FIsNan if matches!(self.n(a).op, Op::SIToFP | Op::UIToFP) => return self.k(1, 0),
            Op::FEq | Op::FLe if a == b => {
                let nan = self.bin(Op::FIsNan, a, a);
                return self.not(nan);
            }
            Op::FLt if a == b => return self.k(1, 0),
            _ => {}
        }
        // push operations with constants through ite with constant leaves
        if cb.is_some() && !matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan) {
            let n = *self.n(a);
            if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
                let p = self.bin(op, n.b, b);
                let q = self.bin(op, n.c, b);
                return self.ite(n.a, p, q);
            }
        }
        self.fin(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    fn or_concat(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        // a = Concat(x, 0_k), b = ZExt(y) with w(y) <= k  or Concat(0..., y)
        let w = self.w(a);
        let na = *self.n(a);
        let nb = *self.n(b);
        if na.op == Op::Concat {
            let wl = self.w(na.b);
            if self.cval(na.b) == Some(0) {
                if nb.op == Op::ZExt && self.w(nb.a) <= wl {
                    let lo = self.zext(nb.a, wl);
                    return Some(self.concat(na.a, lo));
                }
                if let Some(c) = self.cval(b) {
                    if c <= mask(wl) {
                        let lo = self.k(wl, c);
                        return Some(self.concat(na.a, lo));
                    }
                }
            }
            // split generally: or of concat with anything whose split is cheap
            if nb.op == Op::Concat || nb.op == Op::ZExt || self.cval(b).is_some() {
                let wh = w - wl;
                let bh = self.extract(b, wl, wh);
                let bl = self.extract(b, 0, wl);
                let h = self.bin(Op::Or, na.a, bh);
                let l = self.bin(Op::Or, na.b, bl);
                return Some(self.concat(h, l));
            }
        }
        None
    }
    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if let Some(v) = self.cval(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        // ite(not c, a, b) -> ite(c, b, a)
        let n = *self.n(c);
        if n.op == Op::Xor && n.w == 1 && self.cval(n.b) == Some(1) {
            return self.ite(n.a, b, a);
        }
        self.fin(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        if let Some(v) = self.cval(a) {
            return self.k(w, v);
        }
        let n = *self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Concat {
            if self.cval(n.a) == Some(0) {
                return self.zext(n.b, w);
            }
        }
        self.fin(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.k(w, sext(v, wa) as u128);
        }
        let n = *self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if wa == 1 {
            let ones = self.k(w, u128::MAX);
            let z = self.k(w, 0);
            return self.ite(a, ones, z);
        }
        self.fin(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: Eid, lo: u32, w: u32) -> Eid {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo + w <= wa);
        if let Some(v) = self.cval(a) {
            return self.k(w, v >> lo);
        }
        let n = *self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.k(w, 0);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let (cb, cc) = (self.cval(n.b).is_some(), self.cval(n.c).is_some());
                if cb || cc {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.fin(Node { op: Op::Extract, w, a, b: lo, c: 0, k: 0 })
    }
    pub fn concat(&mut self, h: Eid, l: Eid) -> Eid {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        debug_assert!(w <= 128);
        let (ch, cl) = (self.cval(h), self.cval(l));
        if let (Some(x), Some(y)) = (ch, cl) {
            return self.k(w, (x << wl) | y);
        }
        if ch == Some(0) {
            return self.zext(l, w);
        }
        let (nh, nl) = (*self.n(h), *self.n(l));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + wl {
            return self.extract(nh.a, nl.b, w);
        }
        // l is the low part of the same expression that h continues
        if nh.op == Op::Extract && nh.a == l && nh.b == wl {
            return self.extract(nh.a, 0, w);
        }
        // right-assoc normal form: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == Op::Concat {
            let t = self.concat(nh.b, l);
            return self.concat(nh.a, t);
        }
        if nh.op == Op::Extract && nl.op == Op::Concat {
            let nlh = *self.n(nl.a);
            if nlh.op == Op::Extract && nlh.a == nh.a && nh.b == nlh.b + nlh.w {
                let t = self.extract(nh.a, nlh.b, nh.w + nlh.w);
                return self.concat(t, nl.b);
            }
        }
        if ch.is_some() && nl.op == Op::Concat {
            if let (Some(x), Some(y)) = (ch, self.cval(nl.a)) {
                let wy = self.w(nl.a);
                let kk = self.k(wh + wy, (x << wy) | y);
                return self.concat(kk, nl.b);
            }
        }
        self.fin(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn un(&mut self, op: Op, a: Eid, w: u32) -> Eid {
        if let Some(v) = self.cval(a) {
            let wa = self.w(a);
            return self.k(w, apply(op, w, wa, 0, 0, v, 0, 0));
        }
        self.fin(Node { op, w, a, b: 0, c: 0, k: 0 })
    }

    pub fn eval(&mut self, e: Eid, model: &[u8]) -> u128 {
        self.gen += 1;
        self.ev(e, model)
    }
    fn ev(&mut self, e: Eid, m: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m.get(n.a as usize).copied().unwrap_or(0) as u128,
            Op::InSet => return set_has(&self.sets[n.b as usize], m.get(n.a as usize).copied().unwrap_or(0)) as u128,
            _ => {}
        }
        if self.stamp[e as usize] == self.gen {
            return self.vals[e as usize];
        }
        let r = match n.op {
            Op::Ite => {
                if self.ev(n.a, m) != 0 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Table => {
                let i = self.ev(n.a, m) as usize;
                self.tables[n.b as usize].vals.get(i).copied().unwrap_or(0)
            }
            Op::ZExt | Op::SExt | Op::Extract | Op::UIToFP | Op::SIToFP | Op::FPToSI | Op::FPToUI | Op::FPCvt => {
                let a = self.ev(n.a, m);
                apply(n.op, n.w, self.w(n.a), 0, n.b, a, 0, 0)
            }
            _ => {
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                apply(n.op, n.w, self.w(n.a), self.w(n.b), 0, a, b, 0)
            }
        };
        self.stamp[e as usize] = self.gen;
        self.vals[e as usize] = r;
        r
    }
    pub fn reset_eval(&mut self) {
        self.gen += 1;
    }
}
