//! Lowering of LLVM IR functions to a compact register bytecode, plus the static memory image.
use crate::ll::*;
use std::collections::HashMap;
use std::sync::OnceLock;

pub type Opd = u32;
/// operand with this bit set indexes the constant pool of the function
pub const KB: u32 = 1 << 31;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cc {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cv {
    Trunc,
    ZExt,
    SExt,
    FpExt,
    FpTrunc,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    Nop,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Nop,
    RetZero,
    MemCpy,
    MemSet,
    MemCmp,
    StrLen,
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Fshl,
    Fshr,
    Bswap,
    BitRev,
    CtPop,
    Ctlz,
    Cttz,
    SCmp,
    UCmp,
    Ident,
    Trap,
    FpToUiSat,
    FpToSiSat,
    FAbs,
    CopySign,
    FpClass,
    RedOr,
    RedAnd,
    RedAdd,
    Assume,
    Malloc,
    Calloc,
    Realloc,
    Free,
    VpBytes,
    VpChoose,
    VpAssume,
    VpAssert,
    VpCover,
    VpOut,
    VpOutBytes,
    VpConc,
    VpAlloc,
    Panic,
    PanicNounwind,
}

#[derive(Debug)]
pub enum I {
    Bin(B, u32, u32, Opd, Opd),
    FNeg(u32, u32, Opd),
    /// 256-bit product of two concrete values given as 128-bit halves
    MulWide { lo: u32, hi: u32, a: Opd, ah: Opd, b: Opd, bh: Opd },
    ICmp(Cc, u32, u32, Opd, Opd),
    FCmp(u8, u32, u32, Opd, Opd),
    Cast(Cv, u32, u32, u32, Opd),
    Select { w: u32, fork: bool, d: u32, c: Opd, a: Opd, b: Opd },
    Load { w: u32, d: u32, p: Opd, off: u64 },
    Store { w: u32, v: Opd, p: Opd, off: u64 },
    Gep { d: u32, base: Opd, k: u64, terms: Box<[(Opd, u64, u32)]> },
    Alloca { d: u32, size: u64, n: Opd, align: u64 },
    Call { f: u32, args: Box<[Opd]>, rets: Box<[u32]> },
    CallInd { p: Opd, args: Box<[Opd]>, rets: Box<[u32]> },
    Intr { k: K, w: u32, w2: u32, args: Box<[Opd]>, rets: Box<[u32]> },
    Repack { ins: Box<[(Opd, u32)]>, outs: Box<[(u32, u32)]> },
    ExtractDyn { d: u32, w: u32, elts: Box<[Opd]>, idx: Opd },
    InsertDyn { w: u32, elts: Box<[Opd]>, v: Opd, idx: Opd, outs: Box<[u32]> },
    Mov(u32, Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, c: Opd, cases: Box<[(u128, u32)]>, def: u32 },
    Ret(Box<[Opd]>),
    Rmw { op: u8, w: u32, d: u32, p: Opd, v: Opd },
    CmpXchg { w: u32, d: u32, dok: u32, p: Opd, a: Opd, b: Opd },
    Unreachable,
    Unsup(Box<str>),
}

#[derive(Debug)]
pub struct Edge {
    pub copies: Box<[(u32, Opd)]>,
    pub pc: u32,
}

pub struct Func {
    pub nslots: u32,
    pub consts: Vec<u128>,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub nparams: u32,
}

pub struct Prog {
    pub m: Module,
    pub fidx: HashMap<String, u32>,
    pub gaddr: HashMap<String, u64>,
    pub funcs: Vec<OnceLock<Func>>,
    pub intercept: Vec<Option<K>>,
    pub image: Vec<u8>,
    pub const_end: u64, // image addresses below this are read-only
}

pub const IMG: u64 = 0x10_0000;
pub const CODE: u64 = 0x1000;

fn intr_kind(name: &str) -> Option<K> {
    let n = name;
    if n.contains("9panicking9panic_fmt") {
        return Some(K::Panic);
    }
    if n.contains("9panicking18panic_nounwind_fmt") || n.contains("9panicking14panic_nounwind") {
        return Some(K::PanicNounwind);
    }
    let k = match n {
        "vp_bytes" => K::VpBytes,
        "vp_choose" => K::VpChoose,
        "vp_assume" => K::VpAssume,
        "vp_assert" => K::VpAssert,
        "vp_cover" => K::VpCover,
        "vp_out" => K::VpOut,
        "vp_out_bytes" => K::VpOutBytes,
        "vp_conc" => K::VpConc,
        "vp_alloc" => K::VpAlloc,
        "memcpy" | "memmove" => K::MemCpy,
        "memset" => K::MemSet,
        "memcmp" | "bcmp" => K::MemCmp,
        "strlen" => K::StrLen,
        "malloc" => K::Malloc,
        "calloc" => K::Calloc,
        "realloc" => K::Realloc,
        "free" => K::Free,
        "abort" | "_exit" | "exit" => K::Trap,
        _ => {
            let r = n.strip_prefix("llvm.")?;
            let p = |s: &str| r.starts_with(s);
            if p("lifetime.") || p("assume") || p("experimental.noalias") || p("dbg.") || p("prefetch") || p("x86.sse2.pause") || p("invariant") || p("donothing") || p("sideeffect") {
                K::Nop
            } else if p("memcpy.") || p("memmove.") {
                K::MemCpy
            } else if p("memset.") {
                K::MemSet
            } else if p("umin.") {
                K::UMin
            } else if p("umax.") {
                K::UMax
            } else if p("smin.") {
                K::SMin
            } else if p("smax.") {
                K::SMax
            } else if p("abs.") {
                K::Abs
            } else if p("uadd.sat.") {
                K::UAddSat
            } else if p("usub.sat.") {
                K::USubSat
            } else if p("sadd.sat.") {
                K::SAddSat
            } else if p("ssub.sat.") {
                K::SSubSat
            } else if p("uadd.with.overflow") {
                K::UAddO
            } else if p("usub.with.overflow") {
                K::USubO
            } else if p("umul.with.overflow") {
                K::UMulO
            } else if p("sadd.with.overflow") {
                K::SAddO
            } else if p("ssub.with.overflow") {
                K::SSubO
            } else if p("smul.with.overflow") {
                K::SMulO
            } else if p("fshl.") {
                K::Fshl
            } else if p("fshr.") {
                K::Fshr
            } else if p("bswap.") {
                K::Bswap
            } else if p("bitreverse.") {
                K::BitRev
            } else if p("ctpop.") {
                K::CtPop
            } else if p("ctlz.") {
                K::Ctlz
            } else if p("cttz.") {
                K::Cttz
            } else if p("scmp.") {
                K::SCmp
            } else if p("ucmp.") {
                K::UCmp
            } else if p("threadlocal.address") || p("expect.") || p("ptr.annotation") || p("launder") || p("strip.invariant") {
                K::Ident
            } else if p("trap") || p("ubsantrap") || p("debugtrap") {
                K::Trap
            } else if p("fptoui.sat") {
                K::FpToUiSat
            } else if p("fptosi.sat") {
                K::FpToSiSat
            } else if p("fabs.") {
                K::FAbs
            } else if p("copysign.") {
                K::CopySign
            } else if p("is.fpclass.") {
                K::FpClass
            } else if p("vector.reduce.or.") {
                K::RedOr
            } else if p("vector.reduce.and.") {
                K::RedAnd
            } else if p("vector.reduce.add.") {
                K::RedAdd
            } else {
                return None;
            }
        }
    };
    Some(k)
}

impl Prog {
    pub fn new(text: Vec<u8>) -> Result<Prog, String> {
        let m = Module::parse(text)?;
        let mut fidx = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            fidx.insert(f.name.clone(), i as u32);
        }
        let intercept = m.funcs.iter().map(|f| {
            let k = intr_kind(&f.name);
            match k {
                Some(K::Panic) | Some(K::PanicNounwind) => k,
                _ if f.body.is_some() => None,
                _ => k,
            }
        }).collect::<Vec<_>>();
        let mut gaddr = HashMap::new();
        // constants first, page aligned, then mutable
        let mut a = IMG;
        let mut const_end = 0;
        for pass in 0..2 {
            for g in &m.globals {
                if g.constant == (pass == 0) {
                    a = align_to(a, g.align.max(1));
                    gaddr.insert(g.name.clone(), a);
                    a += g.ty.size().max(1);
                }
            }
            a = align_to(a, 4096);
            if pass == 0 {
                const_end = a;
            }
        }
        let mut p = Prog { funcs: (0..m.funcs.len()).map(|_| OnceLock::new()).collect(), fidx, gaddr, intercept, image: vec![0; (a - IMG) as usize], const_end, m };
        // aliases
        for _ in 0..3 {
            let mut add = vec![];
            for (n, c) in &p.m.aliases {
                if let Ok(v) = p.ceval(c, &Ty::Ptr) {
                    add.push((n.clone(), v[0] as u64));
                }
            }
            for (n, v) in add {
                p.gaddr.insert(n, v);
            }
        }
        let mut image = std::mem::take(&mut p.image);
        for g in &p.m.globals {
            if let Some(c) = &g.init {
                let at = (p.gaddr[&g.name] - IMG) as usize;
                p.write_const(c, &g.ty, &mut image, at)?;
            }
        }
        p.image = image;
        Ok(p)
    }
    fn write_const(&self, c: &Const, ty: &Ty, img: &mut [u8], at: usize) -> Result<(), String> {
        match (c, ty) {
            (Const::Zero, _) | (Const::Undef, _) => {}
            (Const::Bytes(b), _) => img[at..at + b.len()].copy_from_slice(b),
            (Const::Agg(v), _) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    self.write_const(x, t, img, at + ty.field_off(i) as usize)?;
                }
            }
            _ => {
                let vals = self.ceval(c, ty)?;
                let mut lv = vec![];
                ty.leaves(0, &mut lv);
                for ((w, off), v) in lv.iter().zip(vals) {
                    let n = ((*w + 7) / 8) as usize;
                    let at = at + *off as usize;
                    img[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
                }
            }
        }
        Ok(())
    }
    pub fn faddr(&self, i: u32) -> u64 {
        CODE + 16 * i as u64
    }
    pub fn addr_fn(&self, a: u64) -> Option<u32> {
        if a >= CODE && a < IMG && (a - CODE) % 16 == 0 {
            let i = ((a - CODE) / 16) as usize;
            if i < self.m.funcs.len() {
                return Some(i as u32);
            }
        }
        None
    }
    /// flattened constant value
    pub fn ceval(&self, c: &Const, ty: &Ty) -> Result<Vec<u128>, String> {
        Ok(match c {
            Const::Int(v) => vec![*v],
            Const::Zero | Const::Undef => vec![0; ty.nleaves()],
            Const::Agg(v) => {
                let mut o = vec![];
                for (t, x) in v {
                    o.extend(self.ceval(x, t)?);
                }
                o
            }
            Const::Splat(t, x) => {
                let n = match ty {
                    Ty::Vec(n, _) => *n,
                    _ => return Err("splat".into()),
                };
                let v = self.ceval(x, t)?;
                let mut o = vec![];
                for _ in 0..n {
                    o.extend(v.iter());
                }
                o
            }
            Const::Bytes(b) => b.iter().map(|x| *x as u128).collect(),
            Const::Global(n) => {
                if let Some(a) = self.gaddr.get(n) {
                    vec![*a as u128]
                } else if let Some(i) = self.fidx.get(n) {
                    vec![self.faddr(*i) as u128]
                } else {
                    return Err(format!("unknown global {}", n));
                }
            }
            Const::Gep(t, ops) => {
                let b = self.ceval(&ops[0].1, &Ty::Ptr)?[0] as u64;
                let mut a = b;
                let mut cur = t.clone();
                for (k, (it, x)) in ops[1..].iter().enumerate() {
                    let v = self.ceval(x, it)?[0];
                    let iv = crate::expr::sext(v, it.bits()) as i64;
                    if k == 0 {
                        a = a.wrapping_add((iv as u64).wrapping_mul(cur.size()));
                    } else {
                        a = a.wrapping_add(match &cur {
                            Ty::Struct(..) => cur.field_off(iv as usize),
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (iv as u64).wrapping_mul(e.size()),
                            _ => return Err("const gep".into()),
                        });
                        cur = match &cur {
                            Ty::Struct(f, _) => f[iv as usize].clone(),
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                            _ => unreachable!(),
                        };
                    }
                }
                vec![a as u128]
            }
            Const::Cast(_, f, x, t) => {
                let v = self.ceval(x, f)?[0];
                vec![v & crate::expr::mask(t.bits())]
            }
            Const::Bin(op, t, a, b) => {
                let x = self.ceval(a, t)?[0];
                let y = self.ceval(b, t)?[0];
                let m = crate::expr::mask(t.bits());
                vec![
                    match op.as_str() {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "mul" => x.wrapping_mul(y),
                        "xor" => x ^ y,
                        _ => x << y,
                    } & m,
                ]
            }
            Const::Fp(f) => vec![match ty {
                Ty::Float => (*f as f32).to_bits() as u128,
                _ => f.to_bits() as u128,
            }],
        })
    }
    pub fn func(&self, i: u32) -> &Func {
        self.funcs[i as usize].get_or_init(|| {
            let d = &self.m.funcs[i as usize];
            match Lower::new(self, d).and_then(|l| l.run()) {
                Ok(f) => f,
                Err(e) => Func { nslots: 64, consts: vec![], code: vec![I::Unsup(format!("{}: {}", d.name, e).into())], edges: vec![], nparams: 0 },
            }
        })
    }
}

struct Lower<'a> {
    p: &'a Prog,
    d: &'a FnDecl,
    body: FnBody,
    loc: HashMap<String, Vec<Opd>>,
    consts: Vec<u128>,
    cmap: HashMap<u128, u32>,
    nslots: u32,
    unsup: bool,
    code: Vec<I>,
    edges: Vec<Edge>,
    bidx: HashMap<String, usize>,
    // (edge index, from block, to block)
    pend: Vec<(u32, usize, usize)>,
    phis: Vec<Vec<(Vec<u32>, Ty, Vec<(Val, String)>)>>,
}

impl<'a> Lower<'a> {
    fn new(p: &'a Prog, d: &'a FnDecl) -> Result<Self, String> {
        let body = p.m.body(d)?;
        let bidx = body.blocks.iter().enumerate().map(|(i, b)| (b.name.clone(), i)).collect();
        let n = body.blocks.len();
        Ok(Lower { p, d, body, loc: HashMap::new(), consts: vec![], cmap: HashMap::new(), nslots: 0, unsup: false, code: vec![], edges: vec![], bidx, pend: vec![], phis: (0..n).map(|_| vec![]).collect() })
    }
    fn k(&mut self, v: u128) -> Opd {
        if let Some(i) = self.cmap.get(&v) {
            return *i;
        }
        let i = self.consts.len() as u32 | KB;
        self.consts.push(v);
        self.cmap.insert(v, i);
        i
    }
    fn slot(&mut self) -> u32 {
        self.nslots += 1;
        self.nslots - 1
    }
    fn def(&mut self, name: &Option<String>, n: usize) -> Vec<u32> {
        let v: Vec<u32> = (0..n).map(|_| self.slot()).collect();
        if let Some(s) = name {
            self.loc.insert(s.clone(), v.clone());
        }
        v
    }
    fn val(&mut self, v: &Val, ty: &Ty) -> Result<Vec<Opd>, String> {
        match v {
            Val::Local(n) => match self.loc.get(n) {
                Some(v) => Ok(v.clone()),
                // only reachable after an instruction this engine refuses to execute
                None if self.unsup => {
                    let z = self.k(0);
                    Ok(vec![z; ty.nleaves()])
                }
                None => Err(format!("undefined local {}", n)),
            },
            Val::Const(c) => {
                let vs = self.p.ceval(c, ty)?;
                Ok(vs.into_iter().map(|x| self.k(x)).collect())
            }
            Val::Asm | Val::Meta => Ok(vec![]),
        }
    }
    fn v1(&mut self, v: &Val, ty: &Ty) -> Result<Opd, String> {
        let r = self.val(v, ty)?;
        if r.len() != 1 {
            return Err("scalar expected".into());
        }
        Ok(r[0])
    }
    fn edge(&mut self, from: usize, to: &str) -> Result<u32, String> {
        let t = *self.bidx.get(to).ok_or("unknown label")?;
        let e = self.edges.len() as u32;
        self.edges.push(Edge { copies: Box::new([]), pc: 0 });
        self.pend.push((e, from, t));
        Ok(e)
    }
    fn elem(ty: &Ty) -> &Ty {
        match ty {
            Ty::Vec(_, t) => t,
            t => t,
        }
    }
    /// leaf index range of an extract/insertvalue path
    fn path(ty: &Ty, ix: &[usize]) -> (usize, usize, Ty) {
        let mut off = 0;
        let mut cur = ty.clone();
        for &i in ix {
            let (o, n) = match &cur {
                Ty::Struct(f, _) => (f[..i].iter().map(|t| t.nleaves()).sum::<usize>(), f[i].clone()),
                Ty::Arr(_, e) | Ty::Vec(_, e) => (i * e.nleaves(), (**e).clone()),
                _ => panic!("path"),
            };
            off += o;
            cur = n;
        }
        (off, cur.nleaves(), cur)
    }
    fn run(mut self) -> Result<Func, String> {
        for (t, n) in self.d.params.iter() {
            let k = t.nleaves();
            self.def(&Some(n.clone()), k);
        }
        let nparams = self.nslots;
        // reverse post order
        let nb = self.body.blocks.len();
        let mut succ: Vec<Vec<usize>> = vec![];
        for b in &self.body.blocks {
            let mut s = vec![];
            if let Some((_, i)) = b.insts.last() {
                match i {
                    Inst::Br(l) => s.push(self.bidx[l]),
                    Inst::CondBr(_, a, c) => {
                        s.push(self.bidx[a]);
                        s.push(self.bidx[c]);
                    }
                    Inst::Switch(_, _, d, cs) => {
                        s.push(self.bidx[d]);
                        for (_, l) in cs {
                            s.push(self.bidx[l]);
                        }
                    }
                    Inst::Call(_, _, _, Some(l)) => s.push(self.bidx[l]),
                    _ => {}
                }
            }
            succ.push(s);
        }
        let mut seen = vec![false; nb];
        let mut order = vec![];
        let mut st = vec![(0usize, 0usize)];
        seen[0] = true;
        while let Some((b, i)) = st.pop() {
            if i < succ[b].len() {
                st.push((b, i + 1));
                let s = succ[b][i];
                if !seen[s] {
                    seen[s] = true;
                    st.push((s, 0));
                }
            } else {
                order.push(b);
            }
        }
        order.reverse();
        let blocks = std::mem::take(&mut self.body.blocks);
        // define phis first
        for &b in &order {
            for (d, i) in &blocks[b].insts {
                if let Inst::Phi(t, ins) = i {
                    let s = self.def(d, t.nleaves());
                    self.phis[b].push((s, t.clone(), ins.clone()));
                }
            }
        }
        let mut start = vec![0u32; nb];
        for &b in &order {
            start[b] = self.code.len() as u32;
            for (d, i) in &blocks[b].insts {
                let mark = self.code.len();
                if let Err(e) = self.inst(b, d, i) {
                    if e.starts_with("undefined local") {
                        return Err(e);
                    }
                    self.code.truncate(mark);
                    self.unsup = true;
                    self.code.push(I::Unsup(format!("{:?}: {}", i, e).chars().take(300).collect::<String>().into()));
                    break;
                }
            }
        }
        let pend = std::mem::take(&mut self.pend);
        for (e, from, to) in pend {
            let mut cp = vec![];
            let phis = self.phis[to].clone();
            for (s, t, ins) in phis {
                let (v, _) = ins.iter().find(|(_, l)| self.bidx[l] == from).ok_or("phi edge")?;
                // an operand defined only in an unlowered tail is undef
                let src = match self.val(v, &t) {
                    Ok(x) => x,
                    Err(er) if er.starts_with("undefined local") => {
                        let z = self.k(0);
                        vec![z; s.len()]
                    }
                    Err(er) => return Err(er),
                };
                for (a, b) in s.iter().zip(src) {
                    if *a != b {
                        cp.push((*a, b));
                    }
                }
            }
            self.edges[e as usize] = Edge { copies: cp.into(), pc: start[to] };
        }
        Ok(Func { nslots: self.nslots, consts: self.consts, code: self.code, edges: self.edges, nparams })
    }
    fn alias(&mut self, d: &Option<String>, v: Vec<Opd>) {
        if let Some(n) = d {
            self.loc.insert(n.clone(), v);
        }
    }
    fn repack(&mut self, d: &Option<String>, ins: Vec<(Opd, u32)>, outw: Vec<u32>) {
        let outs = self.def(d, outw.len());
        self.code.push(I::Repack { ins: ins.into(), outs: outs.into_iter().zip(outw).collect::<Vec<_>>().into() });
    }
    fn leafw(ty: &Ty) -> Vec<u32> {
        let mut l = vec![];
        ty.leaves(0, &mut l);
        l.into_iter().map(|x| x.0).collect()
    }
    fn inst(&mut self, b: usize, d: &Option<String>, i: &Inst) -> Result<(), String> {
        match i {
            Inst::Phi(..) => {}
            Inst::Bin(op, t, x, y) => {
                let o = match op.as_str() {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    "fadd" => B::FAdd,
                    "fsub" => B::FSub,
                    "fmul" => B::FMul,
                    "fdiv" => B::FDiv,
                    _ => B::FRem,
                };
                let w = Self::elem(t).bits();
                if let Ty::Int(256) = t {
                    // a pair of 128-bit halves; only what the formatting of 128-bit integers needs
                    let z = self.k(0);
                    let a = self.val(x, t)?;
                    let c = self.val(y, t)?;
                    let (al, ah) = (a[0], *a.get(1).unwrap_or(&z));
                    match (o, y) {
                        (B::Mul, _) => {
                            let ds = self.def(d, 2);
                            self.code.push(I::MulWide { lo: ds[0], hi: ds[1], a: al, ah, b: c[0], bh: *c.get(1).unwrap_or(&z) });
                        }
                        (B::LShr, Val::Const(Const::Int(k))) if *k >= 128 && *k < 256 => {
                            let s = self.slot();
                            let k = self.k(*k - 128);
                            self.code.push(I::Bin(B::LShr, 128, s, ah, k));
                            self.alias(d, vec![s, z]);
                        }
                        _ => return Err("wide int".into()),
                    }
                    return Ok(());
                }
                if w > 128 {
                    return Err("wide int".into());
                }
                let a = self.val(x, t)?;
                let c = self.val(y, t)?;
                let ds = self.def(d, a.len());
                for k in 0..a.len() {
                    self.code.push(I::Bin(o, w, ds[k], a[k], c[k]));
                }
            }
            Inst::FNeg(t, x) => {
                let a = self.val(x, t)?;
                let w = Self::elem(t).bits();
                let ds = self.def(d, a.len());
                for k in 0..a.len() {
                    self.code.push(I::FNeg(w, ds[k], a[k]));
                }
            }
            Inst::ICmp(p, t, x, y) => {
                let c = match p.as_str() {
                    "eq" => Cc::Eq,
                    "ne" => Cc::Ne,
                    "ugt" => Cc::Ugt,
                    "uge" => Cc::Uge,
                    "ult" => Cc::Ult,
                    "ule" => Cc::Ule,
                    "sgt" => Cc::Sgt,
                    "sge" => Cc::Sge,
                    "slt" => Cc::Slt,
                    "sle" => Cc::Sle,
                    _ => return Err("icmp".into()),
                };
                let w = Self::elem(t).bits();
                if w > 128 {
                    return Err("wide int".into());
                }
                let a = self.val(x, t)?;
                let e = self.val(y, t)?;
                let ds = self.def(d, a.len());
                for k in 0..a.len() {
                    self.code.push(I::ICmp(c, w, ds[k], a[k], e[k]));
                }
            }
            Inst::FCmp(p, t, x, y) => {
                // bit0 eq, bit1 gt, bit2 lt, bit3 uno
                let c: u8 = match p.as_str() {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    _ => 15,
                };
                let w = Self::elem(t).bits();
                let a = self.val(x, t)?;
                let e = self.val(y, t)?;
                let ds = self.def(d, a.len());
                for k in 0..a.len() {
                    self.code.push(I::FCmp(c, w, ds[k], a[k], e[k]));
                }
            }
            Inst::Cast(op, t, x, t2) => {
                let a = self.val(x, t)?;
                match op.as_str() {
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" => {
                        let (wf, wt) = (t.bits(), t2.bits());
                        if wf == wt {
                            self.alias(d, a);
                        } else {
                            let ds = self.def(d, 1);
                            self.code.push(I::Cast(if wf > wt { Cv::Trunc } else { Cv::ZExt }, wf, wt, ds[0], a[0]));
                        }
                    }
                    "bitcast" | "addrspacecast" => {
                        let wi = Self::leafw(t);
                        let wo = Self::leafw(t2);
                        if wi == wo {
                            self.alias(d, a);
                        } else {
                            let ins = a.into_iter().zip(wi).collect();
                            self.repack(d, ins, wo);
                        }
                    }
                    o => {
                        let (f, g) = (Self::elem(t).bits(), Self::elem(t2).bits());
                        match (o, t, t2) {
                            ("zext", Ty::Int(f), Ty::Int(256)) if *f <= 128 => {
                                let mut x = a[0];
                                if *f < 128 {
                                    x = self.slot();
                                    self.code.push(I::Cast(Cv::ZExt, *f, 128, x, a[0]));
                                }
                                let z = self.k(0);
                                self.alias(d, vec![x, z]);
                                return Ok(());
                            }
                            ("trunc", Ty::Int(256), Ty::Int(g)) if *g <= 128 => {
                                if *g == 128 {
                                    self.alias(d, vec![a[0]]);
                                } else {
                                    let ds = self.def(d, 1);
                                    self.code.push(I::Cast(Cv::Trunc, 128, *g, ds[0], a[0]));
                                }
                                return Ok(());
                            }
                            _ => {}
                        }
                        if f > 128 || g > 128 {
                            return Err("wide".into());
                        }
                        let cv = match o {
                            "trunc" => Cv::Trunc,
                            "zext" => Cv::ZExt,
                            "sext" => Cv::SExt,
                            "fpext" => Cv::FpExt,
                            "fptrunc" => Cv::FpTrunc,
                            "fptoui" => Cv::FpToUi,
                            "fptosi" => Cv::FpToSi,
                            "uitofp" => Cv::UiToFp,
                            "sitofp" => Cv::SiToFp,
                            _ => return Err("cast".into()),
                        };
                        let ds = self.def(d, a.len());
                        for k in 0..a.len() {
                            self.code.push(I::Cast(cv, f, g, ds[k], a[k]));
                        }
                    }
                }
            }
            Inst::Select(ct, c, t, x, y) => {
                let cs = self.val(c, ct)?;
                let a = self.val(x, t)?;
                let e = self.val(y, t)?;
                let ws = Self::leafw(t);
                let ds = self.def(d, a.len());
                for k in 0..a.len() {
                    let cc = if cs.len() == 1 { cs[0] } else { cs[k] };
                    let fork = ws[k] == 64;
                    self.code.push(I::Select { w: ws[k], fork, d: ds[k], c: cc, a: a[k], b: e[k] });
                }
            }
            Inst::Load(t, p) => {
                let p = self.v1(p, &Ty::Ptr)?;
                if let Ty::Vec(n, e) = t {
                    if let Ty::Int(w) = **e {
                        if w % 8 != 0 {
                            let tot = *n as u32 * w;
                            let s = self.slot();
                            self.code.push(I::Load { w: tot, d: s, p, off: 0 });
                            self.repack(d, vec![(s, tot)], vec![w; *n as usize]);
                            return Ok(());
                        }
                    }
                }
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                let ds = self.def(d, lv.len());
                for (k, (w, off)) in lv.iter().enumerate() {
                    if *w > 128 {
                        return Err("wide".into());
                    }
                    self.code.push(I::Load { w: *w, d: ds[k], p, off: *off });
                }
            }
            Inst::Store(t, v, p) => {
                let p = self.v1(p, &Ty::Ptr)?;
                let vs = self.val(v, t)?;
                if let Ty::Vec(n, e) = t {
                    if let Ty::Int(w) = **e {
                        if w % 8 != 0 {
                            let tot = *n as u32 * w;
                            let s = self.slot();
                            self.code.push(I::Repack { ins: vs.into_iter().map(|x| (x, w)).collect::<Vec<_>>().into(), outs: Box::new([(s, tot)]) });
                            self.code.push(I::Store { w: tot, v: s, p, off: 0 });
                            return Ok(());
                        }
                    }
                }
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                for (k, (w, off)) in lv.iter().enumerate() {
                    if *w > 128 {
                        return Err("wide".into());
                    }
                    self.code.push(I::Store { w: *w, v: vs[k], p, off: *off });
                }
            }
            Inst::Gep(t, pt, p, idx) => {
                let base = self.val(p, pt)?;
                if base.len() != 1 {
                    return Err("vector gep".into());
                }
                let mut k = 0u64;
                let mut terms = vec![];
                let mut cur = t.clone();
                for (j, (it, x)) in idx.iter().enumerate() {
                    let o = self.v1(x, it)?;
                    let cv = if o & KB != 0 { Some(crate::expr::sext(self.consts[(o & !KB) as usize], it.bits()) as i64) } else { None };
                    let mut sc = 0;
                    if j == 0 {
                        sc = cur.size();
                    } else {
                        let nx = match &cur {
                            Ty::Struct(f, _) => {
                                let i = cv.ok_or("struct idx")? as usize;
                                k = k.wrapping_add(cur.field_off(i));
                                f[i].clone()
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                sc = e.size();
                                (**e).clone()
                            }
                            _ => return Err("gep".into()),
                        };
                        cur = nx;
                    }
                    if sc != 0 {
                        match cv {
                            Some(c) => k = k.wrapping_add((c as u64).wrapping_mul(sc)),
                            None => terms.push((o, sc, it.bits())),
                        }
                    }
                }
                if terms.is_empty() && k == 0 {
                    self.alias(d, base);
                } else {
                    let ds = self.def(d, 1);
                    self.code.push(I::Gep { d: ds[0], base: base[0], k, terms: terms.into() });
                }
            }
            Inst::Alloca(t, nt, n, al) => {
                let n = self.v1(n, nt)?;
                let (s, a) = t.size_align();
                let ds = self.def(d, 1);
                self.code.push(I::Alloca { d: ds[0], size: s, n, align: a.max(*al) });
            }
            Inst::Call(rt, f, args, norm) => {
                let nl = rt.nleaves();
                let mut ops = vec![];
                let mut aw = vec![];
                let mut nargs = vec![];
                for (t, v) in args {
                    if *t == Ty::Metadata {
                        continue;
                    }
                    let o = self.val(v, t)?;
                    nargs.push(o.len());
                    for w in Self::leafw(t) {
                        aw.push(w);
                    }
                    ops.extend(o);
                }
                match f {
                    Val::Asm => {
                        let ds = self.def(d, nl);
                        for s in ds {
                            let z = self.k(0);
                            self.code.push(I::Mov(s, z));
                        }
                    }
                    Val::Const(Const::Global(n)) if self.p.fidx.contains_key(n) => {
                        let fi = self.p.fidx[n];
                        if let Some(k) = self.p.intercept[fi as usize] {
                            self.intr(k, n, d, rt, nl, &nargs, &aw, ops)?;
                        } else if self.p.m.funcs[fi as usize].body.is_some() {
                            let ds = self.def(d, nl);
                            self.code.push(I::Call { f: fi, args: ops.into(), rets: ds.into() });
                        } else {
                            return Err(format!("external function {}", n));
                        }
                    }
                    v => {
                        let p = self.v1(v, &Ty::Ptr)?;
                        let ds = self.def(d, nl);
                        self.code.push(I::CallInd { p, args: ops.into(), rets: ds.into() });
                    }
                }
                if let Some(l) = norm {
                    let e = self.edge(b, l)?;
                    self.code.push(I::Br(e));
                }
            }
            Inst::ExtractValue(t, v, ix) => {
                let o = self.val(v, t)?;
                let (s, n, _) = Self::path(t, ix);
                self.alias(d, o[s..s + n].to_vec());
            }
            Inst::InsertValue(t, v, t2, v2, ix) => {
                let mut o = self.val(v, t)?;
                let x = self.val(v2, t2)?;
                let (s, n, _) = Self::path(t, ix);
                o[s..s + n].copy_from_slice(&x);
                self.alias(d, o);
            }
            Inst::ExtractElement(t, v, t2, v2) => {
                let o = self.val(v, t)?;
                let ix = self.v1(v2, t2)?;
                if ix & KB != 0 {
                    let i = self.consts[(ix & !KB) as usize] as usize;
                    self.alias(d, vec![*o.get(i).ok_or("index")?]);
                } else {
                    let ds = self.def(d, 1);
                    self.code.push(I::ExtractDyn { d: ds[0], w: Self::elem(t).bits(), elts: o.into(), idx: ix });
                }
            }
            Inst::InsertElement(t, v, t2, v2, t3, v3) => {
                let mut o = self.val(v, t)?;
                let x = self.v1(v2, t2)?;
                let ix = self.v1(v3, t3)?;
                if ix & KB != 0 {
                    let i = self.consts[(ix & !KB) as usize] as usize;
                    o[i] = x;
                    self.alias(d, o);
                } else {
                    let n = o.len();
                    let ds = self.def(d, n);
                    self.code.push(I::InsertDyn { w: Self::elem(t).bits(), elts: o.into(), v: x, idx: ix, outs: ds.into() });
                }
            }
            Inst::ShuffleVector(t, x, t2, y, t3, m) => {
                let mut a = self.val(x, t)?;
                a.extend(self.val(y, t2)?);
                let mk = match m {
                    Val::Const(c) => self.p.ceval(c, t3)?,
                    _ => return Err("mask".into()),
                };
                let o: Vec<Opd> = mk.iter().map(|i| a[*i as usize]).collect();
                self.alias(d, o);
            }
            Inst::Freeze(t, v) => {
                let o = self.val(v, t)?;
                self.alias(d, o);
            }
            Inst::AtomicRmw(op, p, t, v) => {
                let p = self.v1(p, &Ty::Ptr)?;
                let v = self.v1(v, t)?;
                let o = match op.as_str() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    _ => return Err("rmw".into()),
                };
                let ds = self.def(d, 1);
                self.code.push(I::Rmw { op: o, w: t.bits(), d: ds[0], p, v });
            }
            Inst::CmpXchg(p, t, x, y) => {
                let p = self.v1(p, &Ty::Ptr)?;
                let a = self.v1(x, t)?;
                let c = self.v1(y, t)?;
                let ds = self.def(d, 2);
                self.code.push(I::CmpXchg { w: t.bits(), d: ds[0], dok: ds[1], p, a, b: c });
            }
            Inst::Fence => {}
            Inst::Br(l) => {
                let e = self.edge(b, l)?;
                self.code.push(I::Br(e));
            }
            Inst::CondBr(c, x, y) => {
                let c = self.v1(c, &Ty::Int(1))?;
                let e1 = self.edge(b, x)?;
                let e2 = self.edge(b, y)?;
                self.code.push(I::CondBr(c, e1, e2));
            }
            Inst::Switch(t, v, df, cs) => {
                let c = self.v1(v, t)?;
                let def = self.edge(b, df)?;
                let mut byl: HashMap<String, u32> = HashMap::new();
                byl.insert(df.clone(), def);
                let mut cases = vec![];
                for (x, l) in cs {
                    let e = match byl.get(l) {
                        Some(e) => *e,
                        None => {
                            let e = self.edge(b, l)?;
                            byl.insert(l.clone(), e);
                            e
                        }
                    };
                    cases.push((*x, e));
                }
                self.code.push(I::Switch { w: t.bits(), c, cases: cases.into(), def });
            }
            Inst::Ret(t, v) => {
                let o = match v {
                    Some(v) => self.val(v, t)?,
                    None => vec![],
                };
                self.code.push(I::Ret(o.into()));
            }
            Inst::Unreachable => self.code.push(I::Unreachable),
            Inst::Landingpad => self.code.push(I::Unreachable),
        }
        Ok(())
    }
    fn intr(&mut self, k: K, name: &str, d: &Option<String>, rt: &Ty, nl: usize, nargs: &[usize], aw: &[u32], ops: Vec<Opd>) -> Result<(), String> {
        let w = if aw.is_empty() { 0 } else { aw[0] };
        if w > 128 {
            return Err("wide".into());
        }
        match k {
            K::Nop => {
                self.def(d, nl);
                return Ok(());
            }
            K::Ident => {
                self.alias(d, vec![ops[0]]);
                return Ok(());
            }
            _ => {}
        }
        let vecn = match rt {
            Ty::Vec(n, _) => *n as usize,
            _ => 1,
        };
        let _ = name;
        let elementwise = matches!(
            k,
            K::UMin | K::UMax | K::SMin | K::SMax | K::Abs | K::UAddSat | K::USubSat | K::SAddSat | K::SSubSat | K::Fshl | K::Fshr | K::Bswap | K::BitRev | K::CtPop | K::Ctlz | K::Cttz | K::FAbs | K::CopySign | K::FpToUiSat | K::FpToSiSat | K::SCmp | K::UCmp
        );
        let rw = Self::leafw(rt);
        if vecn > 1 {
            if !elementwise {
                return Err(format!("vector intrinsic {}", name));
            }
            let ds = self.def(d, nl);
            for i in 0..vecn {
                let mut a = vec![];
                let mut off = 0;
                for n in nargs {
                    a.push(if *n == 1 { ops[off] } else { ops[off + i] });
                    off += n;
                }
                self.code.push(I::Intr { k, w, w2: rw[0], args: a.into(), rets: Box::new([ds[i]]) });
            }
            return Ok(());
        }
        let ds = self.def(d, nl);
        let w2 = rw.get(0).copied().unwrap_or(0);
        self.code.push(I::Intr { k, w, w2, args: ops.into(), rets: ds.into() });
        Ok(())
    }
}
