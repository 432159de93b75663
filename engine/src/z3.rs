//! Minimal FFI to libz3 and the translation of the expression DAG to QF_BV(+FP) terms.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint(c: P, v: P, u: *mut c_uint) -> bool;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, n: c_uint) -> P;
}

pub enum Ans {
    Sat(Vec<u8>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    cache: Vec<P>,
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub secs: f64,
    vars: Vec<P>,
    fresh: u32,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            Z3_set_param_value(cfg, cs("rlimit").as_ptr(), cs("60000000").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, cache: vec![], queries: 0, unsat: 0, sat: 0, unknown: 0, secs: 0.0, vars: vec![], fresh: 0 }
        }
    }
    fn num(&self, w: u32, v: u128) -> P {
        unsafe { Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), Z3_mk_bv_sort(self.c, w)) }
    }
    fn var(&mut self, i: u32) -> P {
        while self.vars.len() <= i as usize {
            let n = self.vars.len();
            let v = unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, cs(&format!("b{}", n)).as_ptr()), Z3_mk_bv_sort(self.c, 8)) };
            self.vars.push(v);
        }
        self.vars[i as usize]
    }
    fn inset(&mut self, v: u32, s: &Set) -> P {
        let x = self.var(v);
        // union of ranges
        let mut parts = vec![];
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if set_has(s, i as u8) {
                    let mut j = i;
                    while j + 1 < 256 && set_has(s, (j + 1) as u8) {
                        j += 1;
                    }
                    if i == j {
                        parts.push(Z3_mk_eq(self.c, x, self.num(8, i as u128)));
                    } else {
                        let a = Z3_mk_bvule(self.c, self.num(8, i as u128), x);
                        let b = Z3_mk_bvule(self.c, x, self.num(8, j as u128));
                        parts.push(Z3_mk_and(self.c, 2, [a, b].as_ptr()));
                    }
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            match parts.len() {
                0 => Z3_mk_false(self.c),
                1 => parts[0],
                n => Z3_mk_or(self.c, n as u32, parts.as_ptr()),
            }
        }
    }
    /// width-1 expressions are Bool terms, everything else BitVec
    fn tr(&mut self, cx: &Ctx, e: Eid) -> P {
        if self.cache.len() <= e as usize {
            self.cache.resize(cx.nodes.len().max(e as usize + 1), std::ptr::null_mut());
        }
        let r = self.cache[e as usize];
        if !r.is_null() {
            return r;
        }
        let n = *cx.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(n.w, n.k)
                    }
                }
                Op::Var => self.var(n.a),
                Op::InSet => {
                    let s = cx.sets[n.b as usize];
                    self.inset(n.a, &s)
                }
                Op::Ite => {
                    let (a, b, d) = (self.tr(cx, n.a), self.tr(cx, n.b), self.tr(cx, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::ZExt | Op::SExt => {
                    let wa = cx.w(n.a);
                    let a = self.trbv(cx, n.a);
                    if n.op == Op::ZExt {
                        Z3_mk_zero_ext(c, n.w - wa, a)
                    } else {
                        Z3_mk_sign_ext(c, n.w - wa, a)
                    }
                }
                Op::Extract => {
                    let a = self.trbv(cx, n.a);
                    let x = Z3_mk_extract(c, n.b + n.w - 1, n.b, a);
                    if n.w == 1 {
                        Z3_mk_eq(c, x, self.num(1, 1))
                    } else {
                        x
                    }
                }
                Op::Concat => {
                    let (a, b) = (self.trbv(cx, n.a), self.trbv(cx, n.b));
                    Z3_mk_concat(c, a, b)
                }
                Op::Table => {
                    let w = cx.w(n.a);
                    let i = self.trbv(cx, n.a);
                    let t = &cx.tables[n.b as usize].vals;
                    // run-length compressed ite chain; out of range -> 0
                    let mut r = self.tnum(n.w, 0);
                    let mut j = t.len();
                    while j > 0 {
                        let v = t[j - 1];
                        let mut k = j - 1;
                        while k > 0 && t[k - 1] == v {
                            k -= 1;
                        }
                        if (j as u128) <= mask(w) {
                            let cond = Z3_mk_bvult(c, i, self.num(w, j as u128));
                            r = Z3_mk_ite(c, cond, self.tnum(n.w, v), r);
                        } else {
                            r = self.tnum(n.w, v);
                        }
                        j = k;
                    }
                    r
                }
                Op::Eq => {
                    let (a, b) = (self.tr(cx, n.a), self.tr(cx, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.trbv(cx, n.a), self.trbv(cx, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let (a, b) = (self.tr(cx, n.a), self.tr(cx, n.b));
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        _ => Z3_mk_xor(c, a, b),
                    }
                }
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr => {
                    let (a, b) = (self.trbv(cx, n.a), self.trbv(cx, n.b));
                    let f = match n.op {
                        Op::Add => Z3_mk_bvadd,
                        Op::Sub => Z3_mk_bvsub,
                        Op::Mul => Z3_mk_bvmul,
                        Op::UDiv => Z3_mk_bvudiv,
                        Op::SDiv => Z3_mk_bvsdiv,
                        Op::URem => Z3_mk_bvurem,
                        Op::SRem => Z3_mk_bvsrem,
                        Op::And => Z3_mk_bvand,
                        Op::Or => Z3_mk_bvor,
                        Op::Xor => Z3_mk_bvxor,
                        Op::Shl => Z3_mk_bvshl,
                        Op::LShr => Z3_mk_bvlshr,
                        _ => Z3_mk_bvashr,
                    };
                    let x = f(c, a, b);
                    if n.w == 1 {
                        Z3_mk_eq(c, x, self.num(1, 1))
                    } else {
                        x
                    }
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(cx, n.a), self.fp(cx, n.b));
                    let rm = Z3_mk_fpa_rne(c);
                    let f = match n.op {
                        Op::FAdd => Z3_mk_fpa_add,
                        Op::FSub => Z3_mk_fpa_sub,
                        Op::FMul => Z3_mk_fpa_mul,
                        _ => Z3_mk_fpa_div,
                    };
                    Z3_mk_fpa_to_ieee_bv(c, f(c, rm, a, b))
                }
                Op::FRem => self.free(n.w),
                Op::FEq | Op::FLt | Op::FLe => {
                    let (a, b) = (self.fp(cx, n.a), self.fp(cx, n.b));
                    match n.op {
                        Op::FEq => Z3_mk_fpa_eq(c, a, b),
                        Op::FLt => Z3_mk_fpa_lt(c, a, b),
                        _ => Z3_mk_fpa_leq(c, a, b),
                    }
                }
                Op::FIsNan => {
                    let a = self.fp(cx, n.a);
                    Z3_mk_fpa_is_nan(c, a)
                }
                Op::UIToFP => {
                    let a = self.trbv(cx, n.a);
                    let s = self.fsort(n.w);
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, s))
                }
                Op::SIToFP => {
                    let a = self.trbv(cx, n.a);
                    let s = self.fsort(n.w);
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, s))
                }
                Op::FPCvt => {
                    let a = self.fp(cx, n.a);
                    let s = self.fsort(n.w);
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, s))
                }
                Op::FPToUI | Op::FPToSI => {
                    // saturating conversion
                    let wa = cx.w(n.a);
                    let a = self.fp(cx, n.a);
                    let signed = n.op == Op::FPToSI;
                    let f = |x: f64| -> u128 {
                        if wa == 32 {
                            (x as f32).to_bits() as u128
                        } else {
                            x.to_bits() as u128
                        }
                    };
                    let s = self.fsort(wa);
                    let (lo, hi, lov, hiv) = if signed {
                        let p = 2f64.powi(n.w as i32 - 1);
                        (-p, p, 1u128 << (n.w - 1), mask(n.w) >> 1)
                    } else {
                        (-1.0, 2f64.powi(n.w as i32), 0, mask(n.w))
                    };
                    let lof = Z3_mk_fpa_to_fp_bv(c, self.num(wa, f(lo)), s);
                    let hif = Z3_mk_fpa_to_fp_bv(c, self.num(wa, f(hi)), s);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let v = if signed { Z3_mk_fpa_to_sbv(c, rtz, a, n.w) } else { Z3_mk_fpa_to_ubv(c, rtz, a, n.w) };
                    let r = Z3_mk_ite(c, Z3_mk_fpa_lt(c, a, hif), v, self.num(n.w, hiv));
                    let under = if signed { Z3_mk_fpa_lt(c, a, lof) } else { Z3_mk_fpa_leq(c, a, lof) };
                    let r = Z3_mk_ite(c, under, self.num(n.w, lov), r);
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, a), self.num(n.w, 0), r)
                }
            }
        };
        self.cache[e as usize] = r;
        r
    }
    /// an unconstrained term: over-approximates operators without a theory (only `frem`)
    fn free(&mut self, w: u32) -> P {
        self.fresh += 1;
        unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, cs(&format!("free{}", self.fresh)).as_ptr()), Z3_mk_bv_sort(self.c, w)) }
    }
    fn tnum(&self, w: u32, v: u128) -> P {
        unsafe {
            if w == 1 {
                if v != 0 {
                    Z3_mk_true(self.c)
                } else {
                    Z3_mk_false(self.c)
                }
            } else {
                self.num(w, v)
            }
        }
    }
    fn fsort(&self, w: u32) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort(self.c, 8, 24)
            } else {
                Z3_mk_fpa_sort(self.c, 11, 53)
            }
        }
    }
    fn fp(&mut self, cx: &Ctx, e: Eid) -> P {
        let a = self.trbv(cx, e);
        let s = self.fsort(cx.w(e));
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, a, s) }
    }
    fn trbv(&mut self, cx: &Ctx, e: Eid) -> P {
        let a = self.tr(cx, e);
        if cx.w(e) == 1 {
            unsafe { Z3_mk_ite(self.c, a, self.num(1, 1), self.num(1, 0)) }
        } else {
            a
        }
    }
    pub fn check(&mut self, cx: &Ctx, asserts: &[Eid], doms: &[(u32, Set)], base: &[u8]) -> Ans {
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for (v, s) in doms {
                let a = self.inset(*v, s);
                Z3_solver_assert(self.c, self.s, a);
            }
            for e in asserts {
                let a = self.tr(cx, *e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut b = base.to_vec();
                    for (v, _) in doms {
                        let x = self.var(*v);
                        let mut o: P = std::ptr::null_mut();
                        let mut u: c_uint = 0;
                        if Z3_model_eval(self.c, m, x, true, &mut o) && Z3_get_numeral_uint(self.c, o, &mut u) {
                            b[*v as usize] = u as u8;
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Ans::Sat(b)
                }
                -1 => {
                    self.unsat += 1;
                    Ans::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Ans::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        self.secs += t0.elapsed().as_secs_f64();
        r
    }
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}
