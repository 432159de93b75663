//! Path-forking symbolic interpreter.
use crate::expr::*;
use crate::mem::*;
use crate::prog::*;
use crate::z3::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct V {
    pub lo: u64,
    pub hi: u64,
    pub e: Eid,
}
pub const Z: V = V { lo: 0, hi: 0, e: 0 };
impl V {
    #[inline]
    fn c(x: u64) -> V {
        V { lo: x, hi: 0, e: 0 }
    }
    #[inline]
    fn w(x: u128) -> V {
        V { lo: x as u64, hi: (x >> 64) as u64, e: 0 }
    }
    #[inline]
    fn u(&self) -> u128 {
        (self.hi as u128) << 64 | self.lo as u128
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub pc: u32,
    pub base: u32,
    pub sp: u64,
}

pub struct TNode {
    pub v: u64,
    pub prev: Option<Rc<TNode>>,
    pub n: u32,
}
impl Drop for TNode {
    fn drop(&mut self) {
        let mut p = self.prev.take();
        while let Some(r) = p {
            match Rc::try_unwrap(r) {
                Ok(mut n) => p = n.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone)]
pub struct State {
    pub regs: Vec<V>,
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub sp: u64,
    pub hp: u64,
    pub dom: Vec<Set>,
    pub init: Vec<u32>,
    pub cons: Vec<Eid>,
    pub known: Vec<(Eid, bool)>,
    pub multi: u128,
    pub model: Vec<u8>,
    pub outs: Vec<(V, u32)>,
    pub covers: u64,
    pub trace: Option<Rc<TNode>>,
    pub steps: u64,
    pub replay: Option<Rc<Vec<u64>>>,
    pub rpos: usize,
    pub rmodel: Option<Rc<Vec<u8>>>,
}

pub enum End {
    Done,
    Assumed,
    Assert(u64),
    Panic(String),
    Hang,
    Stack,
    Unreach(String),
    Err(String),
    /// infeasible branch reached (solver-forced contradiction); never reported
    Dead,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub assumed: u64,
    pub forks: u64,
    pub instrs: u64,
    pub cert: u64,
    pub cert_hits: u64,
    pub unknown: u64,
    pub cheap_models: u64,
    pub asserts: u64,
    pub sym_asserts: u64,
    pub measure: f64,
    pub nonbox: u64,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub solver_secs: f64,
    pub max_steps: u64,
    pub decisions: u64,
}

pub struct Worker<'p> {
    pub p: &'p Prog,
    pub cx: Ctx,
    pub z3: Z3,
    pub pending: Vec<State>,
    pub stats: Stats,
    pub side: Vec<(State, u64)>, // symbolic assertion failures: state (constrained to the failing side), assertion id
    certs: HashSet<(Set, Set)>,
    qcache: HashMap<(Vec<Eid>, Vec<(u32, Set)>), Option<Vec<(u32, u8)>>>,
    pub fseen: Vec<bool>,
    pub step_limit: u64,
    tmp: Vec<V>,
}

type X<T> = Result<T, End>;

fn ue<T>(r: MR<T>) -> X<T> {
    r.map_err(End::Err)
}

impl<'p> Worker<'p> {
    pub fn new(p: &'p Prog, step_limit: u64) -> Self {
        Worker {
            p,
            cx: Ctx::new(),
            z3: Z3::new(),
            pending: vec![],
            stats: Stats::default(),
            side: vec![],
            certs: HashSet::new(),
            qcache: HashMap::new(),
            fseen: vec![false; p.m.funcs.len()],
            step_limit,
            tmp: vec![],
        }
    }
    pub fn reset(&mut self) {
        self.flush_z3();
        self.cx = Ctx::new();
        self.z3 = Z3::new();
        self.qcache.clear();
    }
    pub fn flush_z3(&mut self) {
        self.stats.queries += self.z3.queries;
        self.stats.unsat += self.z3.unsat;
        self.stats.sat += self.z3.sat;
        self.stats.unknown += self.z3.unknown;
        self.stats.solver_secs += self.z3.secs;
        self.z3.queries = 0;
        self.z3.unsat = 0;
        self.z3.sat = 0;
        self.z3.unknown = 0;
        self.z3.secs = 0.0;
    }
    pub fn initial(&self, f: u32) -> State {
        let fun = self.p.func(f);
        let mut m = Mem::new(self.p);
        m.ensure_stack(STACK + 4096);
        State {
            regs: vec![Z; fun.nslots as usize],
            frames: vec![Frame { f, pc: 0, base: 0, sp: STACK + 64 }],
            mem: m,
            sp: STACK + 64,
            hp: HEAP + 64,
            dom: vec![],
            init: vec![],
            cons: vec![],
            known: vec![],
            multi: 0,
            model: vec![],
            outs: vec![],
            covers: 0,
            trace: None,
            steps: 0,
            replay: None,
            rpos: 0,
            rmodel: None,
        }
    }

    // ---------- constraints ----------
    fn cert(&mut self, d: Set, s: Set, v: u32) {
        // claim: no value of the domain d lies in s. Discharged by z3 once per distinct pair.
        if self.certs.contains(&(d, s)) {
            self.stats.cert_hits += 1;
            return;
        }
        self.stats.cert += 1;
        let e = self.cx.inset(v, s);
        let base = vec![0u8; v as usize + 1];
        match self.z3.check(&self.cx, &[e], &[(v, d)], &base) {
            Ans::Unsat => {}
            _ => panic!("solver disagrees with domain reasoning"),
        }
        self.certs.insert((d, s));
    }
    fn syn(&mut self, st: &State, e: Eid) -> Option<bool> {
        let n = *self.cx.n(e);
        match n.op {
            Op::Const => Some(n.k != 0),
            Op::InSet => {
                let s = self.cx.sets[n.b as usize];
                let d = st.dom[n.a as usize];
                if set_and(&d, &s) == EMPTY {
                    if st.replay.is_none() {
                        self.cert(d, s, n.a);
                    }
                    return Some(false);
                }
                let ns = set_not(&s);
                if set_and(&d, &ns) == EMPTY {
                    if st.replay.is_none() {
                        self.cert(d, ns, n.a);
                    }
                    return Some(true);
                }
                None
            }
            Op::And if n.w == 1 => {
                let a = self.syn(st, n.a);
                if a == Some(false) {
                    return a;
                }
                let b = self.syn(st, n.b);
                if b == Some(false) {
                    return b;
                }
                if a == Some(true) && b == Some(true) {
                    return Some(true);
                }
                self.look(st, e)
            }
            Op::Or if n.w == 1 => {
                let a = self.syn(st, n.a);
                if a == Some(true) {
                    return a;
                }
                let b = self.syn(st, n.b);
                if b == Some(true) {
                    return b;
                }
                if a == Some(false) && b == Some(false) {
                    return Some(false);
                }
                self.look(st, e)
            }
            Op::Xor if n.w == 1 && self.cx.cval(n.b) == Some(1) => self.syn(st, n.a).map(|x| !x),
            Op::Ite if n.w == 1 => match self.syn(st, n.a) {
                Some(true) => self.syn(st, n.b),
                Some(false) => self.syn(st, n.c),
                None => self.look(st, e),
            },
            _ => self.look(st, e),
        }
    }
    /// `e` rewritten under the domains of its variables: what depends on one variable and has a single
    /// value there becomes that value (certified like every domain step)
    fn simp(&mut self, st: &State, e: Eid, memo: &mut HashMap<Eid, Eid>) -> Eid {
        let vm = self.cx.vars[e as usize];
        if vm == 0 {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = *self.cx.n(e);
        let r = if vm.count_ones() == 1 {
            let x = vm.trailing_zeros();
            let d = st.dom[x as usize];
            if d == FULL {
                e
            } else {
                let tab = self.cx.tab(e);
                let val = tab[set_first(&d).unwrap() as usize];
                let mut s = EMPTY;
                for i in 0..256 {
                    if tab[i] != val {
                        s[i >> 6] |= 1 << (i & 63);
                    }
                }
                if set_and(&d, &s) == EMPTY {
                    if st.replay.is_none() && s != EMPTY {
                        self.cert(d, s, x);
                    }
                    self.cx.k(n.w, val)
                } else {
                    e
                }
            }
        } else {
            match n.op {
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.simp(st, n.a, memo);
                    let b = self.simp(st, n.b, memo);
                    if (a, b) == (n.a, n.b) {
                        e
                    } else {
                        self.cx.bin(n.op, a, b)
                    }
                }
                Op::Ite => {
                    let c = self.simp(st, n.a, memo);
                    match self.cx.cval(c) {
                        Some(0) => self.simp(st, n.c, memo),
                        Some(_) => self.simp(st, n.b, memo),
                        None => {
                            let a = self.simp(st, n.b, memo);
                            let b = self.simp(st, n.c, memo);
                            self.cx.ite(c, a, b)
                        }
                    }
                }
                Op::ZExt => {
                    let a = self.simp(st, n.a, memo);
                    self.cx.zext(a, n.w)
                }
                Op::SExt => {
                    let a = self.simp(st, n.a, memo);
                    self.cx.sext(a, n.w)
                }
                Op::Extract => {
                    let a = self.simp(st, n.a, memo);
                    self.cx.extract(a, n.b, n.w)
                }
                Op::Concat => {
                    let a = self.simp(st, n.a, memo);
                    let b = self.simp(st, n.b, memo);
                    self.cx.concat(a, b)
                }
                _ => e,
            }
        };
        memo.insert(e, r);
        r
    }
    fn look(&self, st: &State, e: Eid) -> Option<bool> {
        st.known.iter().rev().find(|(x, _)| *x == e).map(|x| x.1)
    }
    fn add(&mut self, st: &mut State, e: Eid, val: bool) {
        let n = *self.cx.n(e);
        match n.op {
            Op::Const => {}
            Op::InSet => {
                let s = self.cx.sets[n.b as usize];
                let s = if val { s } else { set_not(&s) };
                st.dom[n.a as usize] = set_and(&st.dom[n.a as usize], &s);
            }
            Op::Xor if n.w == 1 && self.cx.cval(n.b) == Some(1) => self.add(st, n.a, !val),
            Op::And if n.w == 1 && val => {
                self.add(st, n.a, true);
                self.add(st, n.b, true);
            }
            Op::Or if n.w == 1 && !val => {
                self.add(st, n.a, false);
                self.add(st, n.b, false);
            }
            Op::And if n.w == 1 => {
                if self.syn(st, n.a) == Some(true) {
                    return self.add(st, n.b, false);
                }
                if self.syn(st, n.b) == Some(true) {
                    return self.add(st, n.a, false);
                }
                if self.syn(st, n.a) == Some(false) || self.syn(st, n.b) == Some(false) {
                    return;
                }
                let c = self.cx.not(e);
                st.cons.push(c);
                st.multi |= self.cx.vars[c as usize];
            }
            Op::Or if n.w == 1 => {
                if self.syn(st, n.a) == Some(false) {
                    return self.add(st, n.b, true);
                }
                if self.syn(st, n.b) == Some(false) {
                    return self.add(st, n.a, true);
                }
                st.cons.push(e);
                st.multi |= self.cx.vars[e as usize];
            }
            _ => {
                let c = if val { e } else { self.cx.not(e) };
                st.cons.push(c);
                st.multi |= self.cx.vars[c as usize];
            }
        }
    }
    fn constrain(&mut self, st: &mut State, e: Eid, val: bool) {
        if self.cx.n(e).op != Op::InSet {
            st.known.push((e, val));
        }
        self.add(st, e, val);
    }
    fn slice(&self, st: &State, e: Eid) -> (Vec<Eid>, u128) {
        let mut vs = self.cx.vars[e as usize];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] && self.cx.vars[*c as usize] & vs != 0 {
                    used[i] = true;
                    vs |= self.cx.vars[*c as usize];
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let v = st.cons.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect();
        (v, vs)
    }
    fn conj(&mut self, e: Eid, val: bool, out: &mut Vec<(u32, Set)>) {
        let n = *self.cx.n(e);
        match n.op {
            Op::InSet => {
                let s = self.cx.sets[n.b as usize];
                out.push((n.a, if val { s } else { set_not(&s) }));
            }
            Op::And if n.w == 1 && val => {
                self.conj(n.a, true, out);
                self.conj(n.b, true, out);
            }
            Op::Or if n.w == 1 && !val => {
                self.conj(n.a, false, out);
                self.conj(n.b, false, out);
            }
            Op::Xor if n.w == 1 && self.cx.cval(n.b) == Some(1) => self.conj(n.a, !val, out),
            _ => {}
        }
    }
    /// Is path && (e == val) satisfiable? Some(model) / None
    fn find_model(&mut self, st: &State, e: Eid, val: bool) -> X<Option<Vec<u8>>> {
        let n = *self.cx.n(e);
        if n.op == Op::InSet && st.multi >> n.a & 1 == 0 {
            let s = self.cx.sets[n.b as usize];
            let s = if val { s } else { set_not(&s) };
            return Ok(set_first(&set_and(&st.dom[n.a as usize], &s)).map(|x| {
                let mut m = st.model.clone();
                m[n.a as usize] = x;
                m
            }));
        }
        let (cons, vs) = self.slice(st, e);
        // cheap attempt: set single-byte conjuncts, then evaluate everything
        let mut cj = vec![];
        self.conj(e, val, &mut cj);
        for attempt in 0..3 {
            let mut m = st.model.clone();
            let mut ok = true;
            let mut acc: HashMap<u32, Set> = HashMap::new();
            for (v, s) in &cj {
                let d = acc.entry(*v).or_insert(st.dom[*v as usize]);
                *d = set_and(d, s);
            }
            for (v, d) in &acc {
                if set_has(d, m[*v as usize]) {
                    continue;
                }
                let c = set_count(d);
                if c == 0 {
                    ok = false;
                    break;
                }
                let k = match attempt {
                    0 => 0,
                    1 => c / 2,
                    _ => c - 1,
                };
                let mut i = 0;
                for x in 0..256u32 {
                    if set_has(d, x as u8) {
                        if i == k {
                            m[*v as usize] = x as u8;
                            break;
                        }
                        i += 1;
                    }
                }
            }
            if ok {
                let x = self.cx.eval(e, &m) != 0;
                if x == val && cons.iter().all(|c| self.cx.eval(*c, &m) != 0) {
                    self.stats.cheap_models += 1;
                    return Ok(Some(m));
                }
            } else {
                break;
            }
        }
        let mut asserts = cons;
        asserts.push(if val { e } else { self.cx.not(e) });
        asserts.sort();
        asserts.dedup();
        let doms: Vec<(u32, Set)> = (0..st.dom.len() as u32).filter(|v| vs >> v & 1 == 1).map(|v| (v, st.dom[v as usize])).collect();
        let key = (asserts, doms);
        if let Some(r) = self.qcache.get(&key) {
            return Ok(r.as_ref().map(|ch| {
                let mut m = st.model.clone();
                for (v, x) in ch {
                    m[*v as usize] = *x;
                }
                m
            }));
        }
        let r = match self.z3.check(&self.cx, &key.0, &key.1, &st.model) {
            Ans::Sat(m) => {
                for c in &key.0 {
                    if self.cx.eval(*c, &m) == 0 {
                        // over-approximated operator (frem): model is not a witness
                        return Err(End::Err("solver model does not satisfy the path condition".into()));
                    }
                }
                Some(m)
            }
            Ans::Unsat => None,
            Ans::Unknown => return Err(End::Err("solver returned unknown".into())),
        };
        if self.qcache.len() > 200_000 {
            self.qcache.clear();
        }
        let ch = r.as_ref().map(|m| key.1.iter().map(|(v, _)| (*v, m[*v as usize])).collect());
        self.qcache.insert(key, ch);
        Ok(r)
    }
    fn rec(&mut self, st: &mut State, v: u64) {
        let n = st.trace.as_ref().map_or(0, |t| t.n) + 1;
        st.trace = Some(Rc::new(TNode { v, prev: st.trace.take(), n }));
        self.stats.decisions += 1;
    }
    fn replay_next(&mut self, st: &mut State) -> Option<u64> {
        let r = st.replay.clone()?;
        let v = r[st.rpos];
        st.rpos += 1;
        if st.rpos == r.len() {
            st.replay = None;
            if let Some(m) = st.rmodel.take() {
                for (i, x) in m.iter().enumerate() {
                    if i < st.model.len() {
                        st.model[i] = *x;
                    } else {
                        st.model.push(*x);
                    }
                }
                let k = st.dom.len();
                st.model.truncate(k);
            }
        }
        Some(v)
    }
    /// Decide a symbolic condition; forks when both outcomes are feasible.
    fn decide(&mut self, st: &mut State, e: Eid) -> X<bool> {
        if let Some(b) = self.syn(st, e) {
            return Ok(b);
        }
        if self.cx.vars[e as usize].count_ones() > 1 {
            let s = self.simp(st, e, &mut HashMap::new());
            if s != e {
                let first = self.pending.len();
                let b = self.decide_simple(st, s)?;
                for o in &mut self.pending[first..] {
                    o.known.push((e, !b));
                }
                st.known.push((e, b));
                return Ok(b);
            }
        }
        self.decide_simple(st, e)
    }
    fn decide_simple(&mut self, st: &mut State, e: Eid) -> X<bool> {
        if let Some(b) = self.syn(st, e) {
            return Ok(b);
        }
        if let Some(v) = self.replay_next(st) {
            self.rec(st, v);
            self.constrain(st, e, v != 0);
            return Ok(v != 0);
        }
        let mv = self.cx.eval(e, &st.model) != 0;
        match self.find_model(st, e, !mv)? {
            None => {
                self.rec(st, mv as u64);
                self.constrain(st, e, mv);
                Ok(mv)
            }
            Some(m) => {
                self.stats.forks += 1;
                let mut o = st.clone();
                o.model = m;
                self.rec(&mut o, !mv as u64);
                self.constrain(&mut o, e, !mv);
                self.pending.push(o);
                self.rec(st, mv as u64);
                self.constrain(st, e, mv);
                Ok(mv)
            }
        }
    }
    fn conc(&mut self, st: &mut State, v: V, w: u32) -> X<u128> {
        if v.e == 0 {
            return Ok(v.u());
        }
        let mut e = v.e;
        let mut vm = self.cx.vars[e as usize];
        if vm.count_ones() > 1 {
            e = self.simp(st, e, &mut HashMap::new());
            if let Some(k) = self.cx.cval(e) {
                return Ok(k);
            }
            vm = self.cx.vars[e as usize];
        }
        if vm.count_ones() == 1 {
            let x = vm.trailing_zeros();
            let tab = self.cx.tab(e);
            loop {
                let d = st.dom[x as usize];
                let f = set_first(&d).unwrap();
                let val = tab[f as usize];
                let mut s = EMPTY;
                for i in 0..256 {
                    if tab[i] == val {
                        s[i >> 6] |= 1 << (i & 63);
                    }
                }
                let c = self.cx.inset(x, s);
                if self.decide(st, c)? {
                    return Ok(val);
                }
            }
        }
        loop {
            for (k, b) in st.known.iter().rev() {
                if *b {
                    let n = self.cx.n(*k);
                    if n.op == Op::Eq && n.a == e {
                        if let Some(c) = self.cx.cval(n.b) {
                            return Ok(c);
                        }
                    }
                }
            }
            let val = match self.replay_next(st) {
                Some(lo) => {
                    self.rec(st, lo);
                    lo as u128
                }
                None => {
                    let v = self.cx.eval(e, &st.model);
                    self.rec(st, v as u64);
                    v
                }
            };
            let k = self.cx.k(w, val);
            let c = self.cx.bin(Op::Eq, e, k);
            if self.decide(st, c)? {
                return Ok(val);
            }
        }
    }

    // ---------- values ----------
    #[inline]
    fn ex(&mut self, v: V, w: u32) -> Eid {
        if v.e != 0 {
            v.e
        } else {
            self.cx.k(w, v.u())
        }
    }
    #[inline]
    fn vv(&self, e: Eid) -> V {
        match self.cx.cval(e) {
            Some(k) => V::w(k),
            None => V { lo: 0, hi: 0, e },
        }
    }
    fn bin_sym(&mut self, op: Op, w: u32, a: V, b: V) -> V {
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.cx.bin(op, x, y);
        self.vv(e)
    }
    fn not(&mut self, a: V) -> V {
        if a.e == 0 {
            V::c(a.lo ^ 1)
        } else {
            let e = self.cx.not(a.e);
            self.vv(e)
        }
    }
    fn ite(&mut self, c: V, a: V, b: V, w: u32) -> V {
        if c.e == 0 {
            return if c.lo & 1 != 0 { a } else { b };
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let e = self.cx.ite(c.e, x, y);
        self.vv(e)
    }
    fn bop(o: B) -> Op {
        match o {
            B::Add => Op::Add,
            B::Sub => Op::Sub,
            B::Mul => Op::Mul,
            B::UDiv => Op::UDiv,
            B::SDiv => Op::SDiv,
            B::URem => Op::URem,
            B::SRem => Op::SRem,
            B::And => Op::And,
            B::Or => Op::Or,
            B::Xor => Op::Xor,
            B::Shl => Op::Shl,
            B::LShr => Op::LShr,
            B::AShr => Op::AShr,
            B::FAdd => Op::FAdd,
            B::FSub => Op::FSub,
            B::FMul => Op::FMul,
            B::FDiv => Op::FDiv,
            B::FRem => Op::FRem,
        }
    }
    #[inline]
    fn bin(&mut self, o: B, w: u32, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 {
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let (x, y) = (a.lo, b.lo);
                let r = match o {
                    B::Add => x.wrapping_add(y) & m,
                    B::Sub => x.wrapping_sub(y) & m,
                    B::Mul => x.wrapping_mul(y) & m,
                    B::And => x & y,
                    B::Or => x | y,
                    B::Xor => x ^ y,
                    B::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    B::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    _ => return V::w(apply(Self::bop(o), w, w, w, 0, x as u128, y as u128, 0)),
                };
                return V::c(r);
            }
            return V::w(apply(Self::bop(o), w, w, w, 0, a.u(), b.u(), 0));
        }
        self.bin_sym(Self::bop(o), w, a, b)
    }
    #[inline]
    fn icmp(&mut self, c: Cc, w: u32, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 {
            let (x, y) = (a.u(), b.u());
            let r = match c {
                Cc::Eq => x == y,
                Cc::Ne => x != y,
                Cc::Ugt => x > y,
                Cc::Uge => x >= y,
                Cc::Ult => x < y,
                Cc::Ule => x <= y,
                Cc::Sgt => sext(x, w) > sext(y, w),
                Cc::Sge => sext(x, w) >= sext(y, w),
                Cc::Slt => sext(x, w) < sext(y, w),
                Cc::Sle => sext(x, w) <= sext(y, w),
            };
            return V::c(r as u64);
        }
        match c {
            Cc::Eq => self.bin_sym(Op::Eq, w, a, b),
            Cc::Ne => {
                let v = self.bin_sym(Op::Eq, w, a, b);
                self.not(v)
            }
            Cc::Ugt => self.bin_sym(Op::Ult, w, b, a),
            Cc::Uge => self.bin_sym(Op::Ule, w, b, a),
            Cc::Ult => self.bin_sym(Op::Ult, w, a, b),
            Cc::Ule => self.bin_sym(Op::Ule, w, a, b),
            Cc::Sgt => self.bin_sym(Op::Slt, w, b, a),
            Cc::Sge => self.bin_sym(Op::Sle, w, b, a),
            Cc::Slt => self.bin_sym(Op::Slt, w, a, b),
            Cc::Sle => self.bin_sym(Op::Sle, w, a, b),
        }
    }
    fn fcmp(&mut self, c: u8, w: u32, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 {
            let (x, y) = (a.u(), b.u());
            let un = fcmp(Op::FIsNan, w, x, x) || fcmp(Op::FIsNan, w, y, y);
            let r = if un {
                c & 8 != 0
            } else if fcmp(Op::FEq, w, x, y) {
                c & 1 != 0
            } else if fcmp(Op::FLt, w, x, y) {
                c & 4 != 0
            } else {
                c & 2 != 0
            };
            return V::c(r as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let mut r = self.cx.k(1, 0);
        for bit in [1u8, 2, 4, 8] {
            if c & bit != 0 {
                let t = match bit {
                    1 => self.cx.bin(Op::FEq, x, y),
                    2 => self.cx.bin(Op::FLt, y, x),
                    4 => self.cx.bin(Op::FLt, x, y),
                    _ => {
                        let p = self.cx.bin(Op::FIsNan, x, x);
                        let q = self.cx.bin(Op::FIsNan, y, y);
                        self.cx.bin(Op::Or, p, q)
                    }
                };
                r = self.cx.bin(Op::Or, r, t);
            }
        }
        self.vv(r)
    }
    fn cast(&mut self, c: Cv, f: u32, t: u32, a: V) -> V {
        if a.e == 0 {
            return match c {
                Cv::Trunc => V::w(a.u() & mask(t)),
                Cv::ZExt | Cv::Nop => a,
                Cv::SExt => V::w(sext(a.u(), f) as u128 & mask(t)),
                Cv::FpExt | Cv::FpTrunc => V::w(apply(Op::FPCvt, t, f, 0, 0, a.u(), 0, 0)),
                Cv::FpToUi => V::w(apply(Op::FPToUI, t, f, 0, 0, a.u(), 0, 0)),
                Cv::FpToSi => V::w(apply(Op::FPToSI, t, f, 0, 0, a.u(), 0, 0)),
                Cv::UiToFp => V::w(apply(Op::UIToFP, t, f, 0, 0, a.u(), 0, 0)),
                Cv::SiToFp => V::w(apply(Op::SIToFP, t, f, 0, 0, a.u(), 0, 0)),
            };
        }
        let e = match c {
            Cv::Trunc => self.cx.extract(a.e, 0, t),
            Cv::ZExt => self.cx.zext(a.e, t),
            Cv::Nop => a.e,
            Cv::SExt => self.cx.sext(a.e, t),
            Cv::FpExt | Cv::FpTrunc => self.cx.un(Op::FPCvt, a.e, t),
            Cv::FpToUi => self.cx.un(Op::FPToUI, a.e, t),
            Cv::FpToSi => self.cx.un(Op::FPToSI, a.e, t),
            Cv::UiToFp => self.cx.un(Op::UIToFP, a.e, t),
            Cv::SiToFp => self.cx.un(Op::SIToFP, a.e, t),
        };
        self.vv(e)
    }
    fn load_at(&mut self, st: &State, a: u64, w: u32) -> X<V> {
        let n = ((w + 7) / 8) as usize;
        if n <= 8 {
            if let Some(x) = st.mem.load_fast(a, n) {
                let x = if w < 64 { x & ((1u64 << w) - 1) } else { x };
                return Ok(V::c(x));
            }
        }
        let mut bs = [(0u8, 0u32); 16];
        let mut any = false;
        for i in 0..n {
            bs[i] = ue(st.mem.byte(a.wrapping_add(i as u64)))?;
            any |= bs[i].1 != 0;
        }
        if !any {
            let mut v = 0u128;
            for i in 0..n {
                v |= (bs[i].0 as u128) << (8 * i);
            }
            return Ok(V::w(v & mask(w)));
        }
        let mut e = 0;
        for i in 0..n {
            let b = if bs[i].1 != 0 { bs[i].1 } else { self.cx.k(8, bs[i].0 as u128) };
            e = if i == 0 { b } else { self.cx.concat(b, e) };
        }
        if (n as u32) * 8 > w {
            e = self.cx.extract(e, 0, w);
        }
        Ok(self.vv(e))
    }
    fn store_at(&mut self, st: &mut State, a: u64, w: u32, v: V) -> X<()> {
        let n = ((w + 7) / 8) as usize;
        if v.e == 0 {
            return ue(st.mem.store(a, v.u(), n));
        }
        let e = self.cx.zext(v.e, n as u32 * 8);
        for i in 0..n {
            let b = self.cx.extract(e, 8 * i as u32, 8);
            match self.cx.cval(b) {
                Some(k) => ue(st.mem.set_byte(a + i as u64, k as u8, 0))?,
                None => ue(st.mem.set_byte(a + i as u64, 0, b))?,
            }
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, p: V, off: u64, w: u32) -> X<V> {
        if p.e == 0 {
            return self.load_at(st, p.lo.wrapping_add(off), w);
        }
        let vm = self.cx.vars[p.e as usize];
        if w < 64 && vm.count_ones() == 1 {
            let x = vm.trailing_zeros();
            let tab = self.cx.tab(p.e);
            let d = st.dom[x as usize];
            let mut vals = vec![0u128; 256];
            let mut ok = true;
            for i in 0..256 {
                if set_has(&d, i as u8) {
                    match self.load_at(st, (tab[i] as u64).wrapping_add(off), w) {
                        Ok(v) if v.e == 0 => vals[i] = v.u(),
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
            }
            if ok {
                let xe = self.cx.var(x);
                let e = self.cx.table(w, vals, xe);
                return Ok(self.vv(e));
            }
        }
        let a = self.conc(st, p, 64)? as u64;
        self.load_at(st, a.wrapping_add(off), w)
    }
    fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> X<u64> {
        let a = (st.hp + al.max(16) - 1) & !(al.max(16) - 1);
        if n > HEAP_MAX || a + n - HEAP > HEAP_MAX {
            return Err(End::Hang);
        }
        st.hp = a + n;
        st.mem.ensure_heap(st.hp + 16);
        Ok(a)
    }

    pub fn run(&mut self, st: &mut State) -> End {
        match self.run0(st) {
            Ok(()) => End::Done,
            Err(e) => e,
        }
    }

    fn enter(&mut self, st: &mut State, f: u32, args: &[V]) -> X<()> {
        let fun = self.p.func(f);
        self.fseen[f as usize] = true;
        if st.frames.len() > 4000 {
            return Err(End::Stack);
        }
        let base = st.regs.len();
        st.regs.resize(base + fun.nslots as usize, Z);
        st.regs[base..base + args.len()].copy_from_slice(args);
        let sp = st.sp;
        st.frames.push(Frame { f, pc: 0, base: base as u32, sp });
        Ok(())
    }

    fn run0(&mut self, st: &mut State) -> X<()> {
        let p = self.p;
        'frame: loop {
            let fr = st.frames.last().unwrap();
            let fi = fr.f;
            let fun = p.func(fi);
            let mut pc = fr.pc as usize;
            let base = fr.base as usize;
            macro_rules! g {
                ($o:expr) => {{
                    let o = $o;
                    if o & KB != 0 {
                        V::w(fun.consts[(o & !KB) as usize])
                    } else {
                        st.regs[base + o as usize]
                    }
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.regs[base + $d as usize] = v;
                }};
            }
            macro_rules! sync {
                () => {
                    st.frames.last_mut().unwrap().pc = pc as u32
                };
            }
            macro_rules! jump {
                ($e:expr) => {{
                    let ed = &fun.edges[$e as usize];
                    match ed.copies.len() {
                        0 => {}
                        1 => {
                            let v = g!(ed.copies[0].1);
                            set!(ed.copies[0].0, v);
                        }
                        _ => {
                            self.tmp.clear();
                            for (_, s) in ed.copies.iter() {
                                let v = g!(*s);
                                self.tmp.push(v);
                            }
                            for (i, (d, _)) in ed.copies.iter().enumerate() {
                                st.regs[base + *d as usize] = self.tmp[i];
                            }
                        }
                    }
                    pc = ed.pc as usize;
                    continue;
                }};
            }
            loop {
                st.steps += 1;
                if st.steps > self.step_limit {
                    return Err(End::Hang);
                }
                match &fun.code[pc] {
                    I::Bin(o, w, d, a, b) => {
                        let (x, y) = (g!(*a), g!(*b));
                        let r = self.bin(*o, *w, x, y);
                        set!(*d, r);
                    }
                    I::ICmp(c, w, d, a, b) => {
                        let (x, y) = (g!(*a), g!(*b));
                        let r = self.icmp(*c, *w, x, y);
                        set!(*d, r);
                    }
                    I::Load { w, d, p, off } => {
                        let a = g!(*p);
                        if a.e != 0 {
                            sync!();
                        }
                        let r = self.load(st, a, *off, *w)?;
                        set!(*d, r);
                    }
                    I::Store { w, v, p, off } => {
                        let a = g!(*p);
                        let x = g!(*v);
                        let a = if a.e != 0 {
                            sync!();
                            self.conc(st, a, 64)? as u64
                        } else {
                            a.lo
                        };
                        self.store_at(st, a.wrapping_add(*off), *w, x)?;
                    }
                    I::Gep { d, base: b, k, terms } => {
                        let mut r = g!(*b);
                        if r.e == 0 {
                            r.lo = r.lo.wrapping_add(*k);
                        } else {
                            r = self.bin(B::Add, 64, r, V::c(*k));
                        }
                        for (o, sc, w) in terms.iter() {
                            let t = g!(*o);
                            if t.e == 0 && r.e == 0 {
                                let iv = if *w < 64 { sext(t.u(), *w) as u64 } else { t.lo };
                                r.lo = r.lo.wrapping_add(iv.wrapping_mul(*sc));
                            } else {
                                let t = if *w < 64 { self.cast(Cv::SExt, *w, 64, t) } else { t };
                                let m = self.bin(B::Mul, 64, t, V::c(*sc));
                                r = self.bin(B::Add, 64, r, m);
                            }
                        }
                        set!(*d, r);
                    }
                    I::Br(e) => jump!(*e),
                    I::CondBr(c, a, b) => {
                        let v = g!(*c);
                        let t = if v.e == 0 {
                            v.lo & 1 != 0
                        } else {
                            sync!();
                            self.decide(st, v.e)?
                        };
                        let e = if t { *a } else { *b };
                        jump!(e)
                    }
                    I::Switch { w, c, cases, def } => {
                        let v = g!(*c);
                        let mut tgt = *def;
                        if v.e == 0 {
                            let x = v.u();
                            for (k, e) in cases.iter() {
                                if *k == x {
                                    tgt = *e;
                                    break;
                                }
                            }
                        } else {
                            sync!();
                            let vm = self.cx.vars[v.e as usize];
                            if vm.count_ones() == 1 {
                                let x = vm.trailing_zeros();
                                let tab = self.cx.tab(v.e);
                                let mut groups: Vec<(u32, Set)> = vec![];
                                let map: HashMap<u128, u32> = cases.iter().cloned().collect();
                                for i in 0..256usize {
                                    if let Some(e) = map.get(&tab[i]) {
                                        let gi = match groups.iter().position(|g| g.0 == *e) {
                                            Some(g) => g,
                                            None => {
                                                groups.push((*e, EMPTY));
                                                groups.len() - 1
                                            }
                                        };
                                        groups[gi].1[i >> 6] |= 1 << (i & 63);
                                    }
                                }
                                for (e, s) in groups {
                                    if e == *def {
                                        continue;
                                    }
                                    let c = self.cx.inset(x, s);
                                    if self.decide(st, c)? {
                                        tgt = e;
                                        break;
                                    }
                                }
                            } else {
                                for (k, e) in cases.iter() {
                                    let kk = self.cx.k(*w, *k);
                                    let c = self.cx.bin(Op::Eq, v.e, kk);
                                    if self.decide(st, c)? {
                                        tgt = *e;
                                        break;
                                    }
                                }
                            }
                        }
                        jump!(tgt)
                    }
                    I::Mov(d, a) => {
                        let v = g!(*a);
                        set!(*d, v);
                    }
                    I::Cast(c, f, t, d, a) => {
                        let v = g!(*a);
                        let r = self.cast(*c, *f, *t, v);
                        set!(*d, r);
                    }
                    I::Select { w, fork, d, c, a, b } => {
                        let v = g!(*c);
                        let (x, y) = (g!(*a), g!(*b));
                        let r = if v.e == 0 {
                            if v.lo & 1 != 0 {
                                x
                            } else {
                                y
                            }
                        } else if x.e == 0 && y.e == 0 && x.u() == y.u() {
                            x
                        } else if *fork {
                            sync!();
                            if self.decide(st, v.e)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.ite(v, x, y, *w)
                        };
                        set!(*d, r);
                    }
                    I::Call { f, args, .. } => {
                        sync!();
                        self.tmp.clear();
                        for a in args.iter() {
                            let v = g!(*a);
                            self.tmp.push(v);
                        }
                        let t = std::mem::take(&mut self.tmp);
                        self.enter(st, *f, &t)?;
                        self.tmp = t;
                        continue 'frame;
                    }
                    I::CallInd { p: fp, args, rets } => {
                        sync!();
                        let a = g!(*fp);
                        let a = self.conc(st, a, 64)? as u64;
                        let f = p.addr_fn(a).ok_or_else(|| End::Err(format!("indirect call to {:#x}", a)))?;
                        if let Some(k) = p.intercept[f as usize] {
                            let vs: Vec<V> = args.iter().map(|x| g!(*x)).collect();
                            let r = self.intr(st, k, 64, 64, &vs)?;
                            for (d, v) in rets.iter().zip(r) {
                                set!(*d, v);
                            }
                        } else {
                            if p.m.funcs[f as usize].body.is_none() {
                                return Err(End::Err(format!("indirect call to external {}", p.m.funcs[f as usize].name)));
                            }
                            let t: Vec<V> = args.iter().map(|x| g!(*x)).collect();
                            self.enter(st, f, &t)?;
                            continue 'frame;
                        }
                    }
                    I::Ret(vs) => {
                        self.tmp.clear();
                        for a in vs.iter() {
                            let v = g!(*a);
                            self.tmp.push(v);
                        }
                        let fr = st.frames.pop().unwrap();
                        st.regs.truncate(fr.base as usize);
                        st.sp = fr.sp;
                        match st.frames.last_mut() {
                            None => return Ok(()),
                            Some(c) => {
                                let cf = p.func(c.f);
                                let rets = match &cf.code[c.pc as usize] {
                                    I::Call { rets, .. } => rets,
                                    I::CallInd { rets, .. } => rets,
                                    _ => return Err(End::Err("return to non-call".into())),
                                };
                                for (i, d) in rets.iter().enumerate() {
                                    st.regs[(c.base + *d) as usize] = self.tmp[i];
                                }
                                c.pc += 1;
                            }
                        }
                        continue 'frame;
                    }
                    I::Intr { k, w, w2, args, rets } => {
                        sync!();
                        let mut vs: [V; 8] = [Z; 8];
                        let n = args.len();
                        if n > 8 {
                            let v: Vec<V> = args.iter().map(|x| g!(*x)).collect();
                            let r = self.intr(st, *k, *w, *w2, &v)?;
                            for (d, v) in rets.iter().zip(r) {
                                set!(*d, v);
                            }
                        } else {
                            for i in 0..n {
                                vs[i] = g!(args[i]);
                            }
                            let r = self.intr(st, *k, *w, *w2, &vs[..n])?;
                            for (d, v) in rets.iter().zip(r) {
                                set!(*d, v);
                            }
                        }
                    }
                    I::Alloca { d, size, n, align } => {
                        let c = g!(*n);
                        sync!();
                        let c = self.conc(st, c, 64)? as u64;
                        let a = (st.sp + align - 1) & !(align - 1);
                        st.sp = a + size * c;
                        if st.sp - STACK > STACK_MAX {
                            return Err(End::Stack);
                        }
                        st.mem.ensure_stack(st.sp + 64);
                        set!(*d, V::c(a));
                    }
                    I::FNeg(w, d, a) => {
                        let v = g!(*a);
                        let r = self.bin(B::Xor, *w, v, V::w(1u128 << (w - 1)));
                        set!(*d, r);
                    }
                    I::MulWide { lo, hi, a, ah, b, bh } => {
                        let (a, ah, b, bh) = (g!(*a), g!(*ah), g!(*b), g!(*bh));
                        let f = |v: V| if v.e == 0 { Some(v.u()) } else { None };
                        match (f(a), f(ah), f(b), f(bh)) {
                            (Some(a), Some(0), Some(b), Some(0)) => {
                                let m = u64::MAX as u128;
                                let (a0, a1, b0, b1) = (a & m, a >> 64, b & m, b >> 64);
                                let (p00, p01, p10, p11) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
                                let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
                                set!(*lo, V::w(p00 & m | mid << 64));
                                set!(*hi, V::w(p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64)));
                            }
                            _ => return Err(End::Err("symbolic 256-bit product".into())),
                        }
                    }
                    I::FCmp(c, w, d, a, b) => {
                        let (x, y) = (g!(*a), g!(*b));
                        let r = self.fcmp(*c, *w, x, y);
                        set!(*d, r);
                    }
                    I::Repack { ins, outs } => {
                        // bit stream, little endian
                        let iv: Vec<(V, u32)> = ins.iter().map(|(o, w)| (g!(*o), *w)).collect();
                        let mut ii = 0;
                        let mut bit = 0u32;
                        for (d, w) in outs.iter() {
                            let mut acc: Option<V> = None;
                            let mut have = 0;
                            while have < *w {
                                let (v, iw) = iv[ii];
                                let take = (iw - bit).min(*w - have);
                                let part = if v.e == 0 {
                                    V::w((v.u() >> bit) & mask(take))
                                } else {
                                    let e = self.cx.extract(v.e, bit, take);
                                    self.vv(e)
                                };
                                acc = Some(match acc {
                                    None => part,
                                    Some(l) => {
                                        if l.e == 0 && part.e == 0 {
                                            V::w(part.u() << have | l.u())
                                        } else {
                                            let h = self.ex(part, take);
                                            let lo = self.ex(l, have);
                                            let e = self.cx.concat(h, lo);
                                            self.vv(e)
                                        }
                                    }
                                });
                                have += take;
                                bit += take;
                                if bit == iw {
                                    ii += 1;
                                    bit = 0;
                                }
                            }
                            set!(*d, acc.unwrap());
                        }
                    }
                    I::ExtractDyn { d, elts, idx, .. } => {
                        let i = g!(*idx);
                        sync!();
                        let i = self.conc(st, i, 64)? as usize;
                        let v = g!(elts[i]);
                        set!(*d, v);
                    }
                    I::InsertDyn { elts, v, idx, outs, .. } => {
                        let i = g!(*idx);
                        sync!();
                        let i = self.conc(st, i, 64)? as usize;
                        let x = g!(*v);
                        let vals: Vec<V> = elts.iter().map(|o| g!(*o)).collect();
                        for (k, d) in outs.iter().enumerate() {
                            set!(*d, if k == i { x } else { vals[k] });
                        }
                    }
                    I::Rmw { op, w, d, p, v } => {
                        let a = g!(*p);
                        sync!();
                        let a = V::c(self.conc(st, a, 64)? as u64);
                        let x = g!(*v);
                        let old = self.load(st, a, 0, *w)?;
                        let new = match op {
                            0 => x,
                            1 => self.bin(B::Add, *w, old, x),
                            2 => self.bin(B::Sub, *w, old, x),
                            3 => self.bin(B::And, *w, old, x),
                            4 => self.bin(B::Or, *w, old, x),
                            5 => self.bin(B::Xor, *w, old, x),
                            _ => {
                                let c = self.icmp(if *op == 6 { Cc::Ugt } else { Cc::Ult }, *w, old, x);
                                self.ite(c, old, x, *w)
                            }
                        };
                        self.store_at(st, a.lo, *w, new)?;
                        set!(*d, old);
                    }
                    I::CmpXchg { w, d, dok, p, a, b } => {
                        let ad = g!(*p);
                        sync!();
                        let ad = V::c(self.conc(st, ad, 64)? as u64);
                        let old = self.load(st, ad, 0, *w)?;
                        let c = g!(*a);
                        let eq = self.icmp(Cc::Eq, *w, old, c);
                        let t = if eq.e == 0 { eq.lo != 0 } else { self.decide(st, eq.e)? };
                        if t {
                            let n = g!(*b);
                            self.store_at(st, ad.lo, *w, n)?;
                        }
                        set!(*d, old);
                        set!(*dok, V::c(t as u64));
                    }
                    I::Unreachable => return Err(End::Unreach(format!("unreachable in {}", p.m.funcs[fi as usize].name))),
                    I::Unsup(s) => return Err(End::Err(format!("unsupported instruction: {}", s))),
                }
                pc += 1;
            }
        }
    }

    fn newvar(&mut self, st: &mut State, d: Set) -> (u32, Eid) {
        let i = st.dom.len() as u32;
        st.dom.push(d);
        st.init.push(set_count(&d));
        if st.model.len() <= i as usize {
            st.model.push(set_first(&d).unwrap());
        }
        (i, self.cx.var(i))
    }

    fn cstr(&self, st: &State, a: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n.min(300) {
            match st.mem.byte(a + i) {
                Ok((b, 0)) => v.push(b),
                _ => v.push(b'?'),
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    fn intr(&mut self, st: &mut State, k: K, w: u32, w2: u32, a: &[V]) -> X<Vec<V>> {
        let one = |v: V| Ok(vec![v]);
        match k {
            K::Nop | K::Free => Ok(vec![]),
            K::RetZero => one(Z),
            K::Ident => one(a[0]),
            K::MemCpy => {
                let n = self.conc(st, a[2], 64)? as u64;
                let d = self.conc(st, a[0], 64)? as u64;
                let s = self.conc(st, a[1], 64)? as u64;
                ue(st.mem.copy(d, s, n))?;
                one(a[0])
            }
            K::MemSet => {
                let n = self.conc(st, a[2], 64)? as u64;
                let d = self.conc(st, a[0], 64)? as u64;
                if a[1].e == 0 {
                    ue(st.mem.fill(d, a[1].lo as u8, n))?;
                } else {
                    let b = self.cx.extract(a[1].e, 0, 8);
                    for i in 0..n {
                        ue(st.mem.set_byte(d + i, 0, b))?;
                    }
                }
                one(a[0])
            }
            K::MemCmp => {
                let n = self.conc(st, a[2], 64)? as u64;
                let x = self.conc(st, a[0], 64)? as u64;
                let y = self.conc(st, a[1], 64)? as u64;
                let mut r = V::c(0);
                // build from the last byte backwards; a concrete difference cuts the tail
                let mut pairs = vec![];
                for i in 0..n {
                    let (b, be) = ue(st.mem.byte(x + i))?;
                    let (c, ce) = ue(st.mem.byte(y + i))?;
                    if be == 0 && ce == 0 {
                        if b == c {
                            continue;
                        }
                        r = V::c(if b < c { 0xffff_ffff } else { 1 });
                        break;
                    }
                    pairs.push((V { lo: b as u64, hi: 0, e: be }, V { lo: c as u64, hi: 0, e: ce }));
                }
                for (b, c) in pairs.into_iter().rev() {
                    let eq = self.icmp(Cc::Eq, 8, b, c);
                    let lt = self.icmp(Cc::Ult, 8, b, c);
                    let s = self.ite(lt, V::c(0xffff_ffff), V::c(1), 32);
                    r = self.ite(eq, r, s, 32);
                }
                one(r)
            }
            K::StrLen => {
                let x = self.conc(st, a[0], 64)? as u64;
                let mut n = 0;
                loop {
                    match ue(st.mem.byte(x + n))? {
                        (0, 0) => break,
                        (_, 0) => n += 1,
                        _ => return Err(End::Err("strlen of symbolic string".into())),
                    }
                }
                one(V::c(n))
            }
            K::UMin | K::UMax | K::SMin | K::SMax => {
                let c = match k {
                    K::UMin => self.icmp(Cc::Ult, w, a[0], a[1]),
                    K::UMax => self.icmp(Cc::Ugt, w, a[0], a[1]),
                    K::SMin => self.icmp(Cc::Slt, w, a[0], a[1]),
                    _ => self.icmp(Cc::Sgt, w, a[0], a[1]),
                };
                let r = self.ite(c, a[0], a[1], w);
                one(r)
            }
            K::Abs => {
                let c = self.icmp(Cc::Slt, w, a[0], Z);
                let n = self.bin(B::Sub, w, Z, a[0]);
                let r = self.ite(c, n, a[0], w);
                one(r)
            }
            K::UAddSat => {
                let s = self.bin(B::Add, w, a[0], a[1]);
                let c = self.icmp(Cc::Ult, w, s, a[0]);
                let r = self.ite(c, V::w(mask(w)), s, w);
                one(r)
            }
            K::USubSat => {
                let s = self.bin(B::Sub, w, a[0], a[1]);
                let c = self.icmp(Cc::Ult, w, a[0], a[1]);
                let r = self.ite(c, Z, s, w);
                one(r)
            }
            K::SAddSat | K::SSubSat => {
                let r = self.sovf(if k == K::SAddSat { K::SAddO } else { K::SSubO }, w, a)?;
                let neg = self.icmp(Cc::Slt, w, a[0], Z);
                let sat = self.ite(neg, V::w(1u128 << (w - 1)), V::w(mask(w) >> 1), w);
                let v = self.ite(r[1], sat, r[0], w);
                one(v)
            }
            K::UAddO => {
                let s = self.bin(B::Add, w, a[0], a[1]);
                let c = self.icmp(Cc::Ult, w, s, a[0]);
                Ok(vec![s, c])
            }
            K::USubO => {
                let s = self.bin(B::Sub, w, a[0], a[1]);
                let c = self.icmp(Cc::Ult, w, a[0], a[1]);
                Ok(vec![s, c])
            }
            K::UMulO => {
                let by_const = (a[0].e == 0) != (a[1].e == 0) && (a[0].e != 0 || a[0].u() != 0) && (a[1].e != 0 || a[1].u() != 0);
                if w > 64 || by_const {
                    if a[0].e == 0 && a[1].e == 0 {
                        let (r, o) = a[0].u().overflowing_mul(a[1].u());
                        return Ok(vec![V::w(r & mask(w)), V::c((o || r > mask(w)) as u64)]);
                    }
                    let (x, c) = if a[1].e == 0 { (a[0], a[1]) } else { (a[1], a[0]) };
                    if c.e != 0 || c.u() == 0 {
                        return Err(End::Err("symbolic wide unsigned product".into()));
                    }
                    let r = self.bin(B::Mul, w, x, c);
                    let o = self.icmp(Cc::Ugt, w, x, V::w(mask(w) / c.u()));
                    return Ok(vec![r, o]);
                }
                let x = self.cast(Cv::ZExt, w, 2 * w, a[0]);
                let y = self.cast(Cv::ZExt, w, 2 * w, a[1]);
                let r = self.bin(B::Mul, 2 * w, x, y);
                let lo = self.cast(Cv::Trunc, 2 * w, w, r);
                let o = self.icmp(Cc::Ugt, 2 * w, r, V::w(mask(w)));
                Ok(vec![lo, o])
            }
            K::SAddO | K::SSubO | K::SMulO => self.sovf(k, w, a),
            K::Fshl | K::Fshr => {
                // amounts are concrete in practice
                let s = (self.conc(st, a[2], w)? % w as u128) as u32;
                if w <= 64 {
                    let h = self.ex(a[0], w);
                    let l = self.ex(a[1], w);
                    let c = self.cx.concat(h, l);
                    let lo = if k == K::Fshl { w - s } else { s };
                    let e = self.cx.extract(c, lo, w);
                    let r = self.vv(e);
                    return one(r);
                }
                let (l, r) = if k == K::Fshl { (s, w - s) } else { (w - s, s) };
                let x = self.bin(B::Shl, w, a[0], V::c(l as u64));
                let y = self.bin(B::LShr, w, a[1], V::c(r as u64));
                let r = self.bin(B::Or, w, x, y);
                one(r)
            }
            K::Bswap => {
                if a[0].e == 0 {
                    return one(V::w(a[0].u().swap_bytes() >> (128 - w)));
                }
                let mut e = 0;
                for i in 0..w / 8 {
                    let b = self.cx.extract(a[0].e, 8 * i, 8);
                    e = if i == 0 { b } else { self.cx.concat(e, b) };
                }
                let r = self.vv(e);
                one(r)
            }
            K::BitRev => {
                let v = self.conc(st, a[0], w)?;
                one(V::w(v.reverse_bits() >> (128 - w)))
            }
            K::CtPop | K::Ctlz | K::Cttz => {
                let f = |v: u128| -> u128 {
                    (match k {
                        K::CtPop => v.count_ones(),
                        K::Ctlz => v.leading_zeros() - (128 - w),
                        _ => {
                            if v == 0 {
                                w
                            } else {
                                v.trailing_zeros()
                            }
                        }
                    }) as u128
                };
                if a[0].e == 0 {
                    return one(V::w(f(a[0].u())));
                }
                let mut r;
                match k {
                    K::CtPop => {
                        r = Z;
                        for i in 0..w {
                            let b = self.cx.extract(a[0].e, i, 1);
                            let b = self.cx.zext(b, w);
                            let b = self.vv(b);
                            r = self.bin(B::Add, w, r, b);
                        }
                    }
                    _ => {
                        r = V::c(w as u64);
                        for j in 0..w {
                            let i = if k == K::Ctlz { j } else { w - 1 - j };
                            let b = self.cx.extract(a[0].e, i, 1);
                            let b = self.vv(b);
                            let val = if k == K::Ctlz { w - 1 - i } else { i };
                            r = self.ite(b, V::c(val as u64), r, w);
                        }
                    }
                }
                one(r)
            }
            K::SCmp | K::UCmp => {
                let (l, g) = if k == K::SCmp { (Cc::Slt, Cc::Sgt) } else { (Cc::Ult, Cc::Ugt) };
                let lt = self.icmp(l, w, a[0], a[1]);
                let gt = self.icmp(g, w, a[0], a[1]);
                let x = self.ite(gt, V::c(1), Z, w2);
                let r = self.ite(lt, V::w(mask(w2)), x, w2);
                one(r)
            }
            K::Trap => Err(End::Unreach("trap/abort".into())),
            K::FpToUiSat => {
                let r = self.cast(Cv::FpToUi, w, w2, a[0]);
                one(r)
            }
            K::FpToSiSat => {
                let r = self.cast(Cv::FpToSi, w, w2, a[0]);
                one(r)
            }
            K::FAbs => {
                let r = self.bin(B::And, w, a[0], V::w(mask(w) >> 1));
                one(r)
            }
            K::CopySign => {
                let x = self.bin(B::And, w, a[0], V::w(mask(w) >> 1));
                let y = self.bin(B::And, w, a[1], V::w(1u128 << (w - 1)));
                let r = self.bin(B::Or, w, x, y);
                one(r)
            }
            K::FpClass => {
                let t = a[1].lo as u32;
                // sNaN 1 qNaN 2 -inf 4 -norm 8 -sub 16 -0 32 +0 64 +sub 128 +norm 256 +inf 512
                let (eb, mb) = if w == 32 { (8, 23) } else { (11, 52) };
                let e = V::w(1u128 << (w - 1));
                let sgn = self.bin(B::And, w, a[0], e);
                let neg = self.icmp(Cc::Ne, w, sgn, Z);
                let ex = self.bin(B::LShr, w, a[0], V::c(mb));
                let ex = self.bin(B::And, w, ex, V::w(mask(eb)));
                let ma = self.bin(B::And, w, a[0], V::w(mask(mb as u32)));
                let exmax = self.icmp(Cc::Eq, w, ex, V::w(mask(eb)));
                let ex0 = self.icmp(Cc::Eq, w, ex, Z);
                let ma0 = self.icmp(Cc::Eq, w, ma, Z);
                let quiet = self.icmp(Cc::Uge, w, ma, V::w(1u128 << (mb - 1)));
                let cl = |s: &mut Self, p: u32, n: u32| -> V {
                    let x = V::c((t & n != 0) as u64);
                    let y = V::c((t & p != 0) as u64);
                    s.ite(neg, x, y, 1)
                };
                let inf = cl(self, 512, 4);
                let nrm = cl(self, 256, 8);
                let sub = cl(self, 128, 16);
                let zer = cl(self, 64, 32);
                let nan = self.ite(quiet, V::c((t & 2 != 0) as u64), V::c((t & 1 != 0) as u64), 1);
                let x = self.ite(ma0, inf, nan, 1);
                let y = self.ite(ma0, zer, sub, 1);
                let z = self.ite(ex0, y, nrm, 1);
                let r = self.ite(exmax, x, z, 1);
                one(r)
            }
            K::RedOr | K::RedAnd | K::RedAdd => {
                let o = match k {
                    K::RedOr => B::Or,
                    K::RedAnd => B::And,
                    _ => B::Add,
                };
                let mut r = a[0];
                for x in &a[1..] {
                    r = self.bin(o, w, r, *x);
                }
                one(r)
            }
            K::Assume => Ok(vec![]),
            K::Malloc => {
                let n = self.conc(st, a[0], 64)? as u64;
                let r = self.alloc(st, n, 16)?;
                one(V::c(r))
            }
            K::Calloc | K::Realloc => Err(End::Err("calloc/realloc".into())),
            K::VpAlloc => {
                let n = self.conc(st, a[0], 64)? as u64;
                let al = self.conc(st, a[1], 64)? as u64;
                let r = self.alloc(st, n, al)?;
                one(V::c(r))
            }
            K::VpBytes => {
                let p = self.conc(st, a[0], 64)? as u64;
                let n = self.conc(st, a[1], 64)? as u64;
                for i in 0..n {
                    let (_, e) = self.newvar(st, FULL);
                    ue(st.mem.set_byte(p + i, 0, e))?;
                }
                Ok(vec![])
            }
            K::VpChoose => {
                let n = self.conc(st, a[0], 32)? as u32;
                if n == 0 || n > 256 {
                    return Err(End::Err("vp_choose range".into()));
                }
                let mut d = EMPTY;
                for i in 0..n as usize {
                    d[i >> 6] |= 1 << (i & 63);
                }
                let rp = self.replay_next_choose(st);
                let (v, _) = self.newvar(st, d);
                let only = |x: u32| -> Set {
                    let mut s = EMPTY;
                    s[(x >> 6) as usize] |= 1 << (x & 63);
                    s
                };
                let x = match rp {
                    Some(x) => x as u32,
                    None => {
                        let f = st.frames.last().unwrap();
                        let dst = match &self.p.func(f.f).code[f.pc as usize] {
                            I::Intr { rets, .. } => rets[0],
                            _ => return Err(End::Err("vp_choose indirect".into())),
                        };
                        let reg = (f.base + dst) as usize;
                        for i in (1..n).rev() {
                            let mut o = st.clone();
                            o.frames.last_mut().unwrap().pc += 1;
                            o.regs[reg] = V::c(i as u64);
                            o.dom[v as usize] = only(i);
                            o.model[v as usize] = i as u8;
                            self.rec(&mut o, i as u64);
                            self.pending.push(o);
                            self.stats.forks += 1;
                        }
                        0
                    }
                };
                st.dom[v as usize] = only(x);
                st.model[v as usize] = x as u8;
                self.rec(st, x as u64);
                one(V::c(x as u64))
            }
            K::VpConc => {
                let v = self.conc(st, a[0], w)?;
                one(V::w(v))
            }
            K::VpAssume => {
                let c = self.tob(a[0], w);
                let t = if c.e == 0 {
                    c.lo & 1 != 0
                } else if let Some(b) = self.syn(st, c.e) {
                    b
                } else {
                    self.assume(st, c.e)?
                };
                if t {
                    Ok(vec![])
                } else {
                    Err(End::Assumed)
                }
            }
            K::VpAssert => {
                self.stats.asserts += 1;
                let c = self.tob(a[0], w);
                let id = a[1].lo;
                if c.e == 0 {
                    return if c.lo & 1 != 0 { Ok(vec![]) } else { Err(End::Assert(id)) };
                }
                self.stats.sym_asserts += 1;
                if self.decide(st, c.e)? {
                    Ok(vec![])
                } else {
                    Err(End::Assert(id))
                }
            }
            K::VpCover => {
                st.covers |= 1 << (a[0].lo & 63);
                Ok(vec![])
            }
            K::VpOut => {
                st.outs.push((a[0], 64));
                Ok(vec![])
            }
            K::VpOutBytes => {
                let p = self.conc(st, a[0], 64)? as u64;
                let n = self.conc(st, a[1], 64)? as u64;
                st.outs.push((V::c(n), 64));
                for i in 0..n {
                    let (b, e) = ue(st.mem.byte(p + i))?;
                    st.outs.push((V { lo: b as u64, hi: 0, e }, 8));
                }
                Ok(vec![])
            }
            K::Panic | K::PanicNounwind => {
                let mut loc = "unknown".to_string();
                if let Some(l) = a.last() {
                    if l.e == 0 && k == K::Panic {
                        let rd = |s: &State, o: u64, n: usize| s.mem.load_fast(l.lo + o, n);
                        if let (Some(fp), Some(fl), Some(ln), Some(cl)) = (rd(st, 0, 8), rd(st, 8, 8), rd(st, 16, 4), rd(st, 20, 4)) {
                            if fl < 400 {
                                loc = format!("{}:{}:{}", self.cstr(st, fp, fl), ln, cl);
                            }
                        }
                    }
                }
                Err(End::Panic(loc))
            }
        }
    }
    fn replay_next_choose(&mut self, st: &mut State) -> Option<u64> {
        self.replay_next(st)
    }
    fn tob(&mut self, v: V, w: u32) -> V {
        if v.e == 0 || w == 1 {
            return v;
        }
        let e = self.cx.extract(v.e, 0, 1);
        self.vv(e)
    }
    /// assume a condition: keep only the satisfying side (the rest is counted as assumed away)
    fn assume(&mut self, st: &mut State, e: Eid) -> X<bool> {
        if let Some(v) = self.replay_next(st) {
            self.rec(st, v);
            self.constrain(st, e, true);
            return Ok(true);
        }
        let mv = self.cx.eval(e, &st.model) != 0;
        if !mv {
            match self.find_model(st, e, true)? {
                None => {
                    return Ok(false);
                }
                Some(m) => st.model = m,
            }
        }
        self.rec(st, 1);
        // account for the discarded side
        let before = self.measure(st);
        self.constrain(st, e, true);
        let after = self.measure(st);
        if let (Some(b), Some(a)) = (before, after) {
            self.stats.measure += b - a;
        }
        Ok(true)
    }
    pub fn measure(&self, st: &State) -> Option<f64> {
        if !st.cons.is_empty() {
            return None;
        }
        let mut m = 1.0;
        for i in 0..st.dom.len() {
            m *= set_count(&st.dom[i]) as f64 / st.init[i] as f64;
        }
        Some(m)
    }
    fn sovf(&mut self, k: K, w: u32, a: &[V]) -> X<Vec<V>> {
        let by_const = k == K::SMulO && ((a[0].e == 0 && sext(a[0].u(), w) > 0) || (a[1].e == 0 && sext(a[1].u(), w) > 0));
        if w > 64 || by_const {
            if a[0].e == 0 && a[1].e == 0 && w == 128 {
                let (x, y) = (a[0].u() as i128, a[1].u() as i128);
                let (r, o) = match k {
                    K::SAddO => x.overflowing_add(y),
                    K::SSubO => x.overflowing_sub(y),
                    _ => x.overflowing_mul(y),
                };
                return Ok(vec![V::w(r as u128), V::c(o as u64)]);
            }
            // the result in w bits, the overflow from its signs (or from the bounds of a constant factor)
            let neg = |s: &mut Self, v: V| s.icmp(Cc::Slt, w, v, Z);
            match k {
                K::SAddO | K::SSubO => {
                    let r = self.bin(if k == K::SAddO { B::Add } else { B::Sub }, w, a[0], a[1]);
                    let p = self.bin(B::Xor, w, a[0], r);
                    let q = if k == K::SAddO { self.bin(B::Xor, w, a[1], r) } else { self.bin(B::Xor, w, a[0], a[1]) };
                    let m = self.bin(B::And, w, p, q);
                    let o = neg(self, m);
                    return Ok(vec![r, o]);
                }
                _ => {
                    let (x, c) = if a[1].e == 0 { (a[0], a[1]) } else { (a[1], a[0]) };
                    let cv = sext(c.u(), w);
                    if c.e != 0 || cv <= 0 || w > 128 {
                        return Err(End::Err("symbolic wide overflow product".into()));
                    }
                    let r = self.bin(B::Mul, w, x, c);
                    let max = (mask(w) >> 1) as i128;
                    let min = -max - 1;
                    let hi = self.icmp(Cc::Sgt, w, x, V::w((max / cv) as u128 & mask(w)));
                    let lo = self.icmp(Cc::Slt, w, x, V::w((min / cv) as u128 & mask(w)));
                    let o = self.bin(B::Or, 1, hi, lo);
                    return Ok(vec![r, o]);
                }
            }
        }
        let w2 = if k == K::SMulO { 2 * w } else { w + 1 };
        let x = self.cast(Cv::SExt, w, w2, a[0]);
        let y = self.cast(Cv::SExt, w, w2, a[1]);
        let o = match k {
            K::SAddO => B::Add,
            K::SSubO => B::Sub,
            _ => B::Mul,
        };
        let r = self.bin(o, w2, x, y);
        let lo = self.cast(Cv::Trunc, w2, w, r);
        let back = self.cast(Cv::SExt, w, w2, lo);
        let ov = self.icmp(Cc::Ne, w2, r, back);
        Ok(vec![lo, ov])
    }
    /// 64-bit FNV hash of the observable outputs under the state's model
    pub fn out_hash(&mut self, st: &State) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for (v, _) in &st.outs {
            let x = if v.e == 0 { v.lo } else { self.cx.eval(v.e, &st.model) as u64 };
            for b in x.to_le_bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        }
        h
    }
}
