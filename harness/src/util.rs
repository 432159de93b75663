//! Safe wrappers over the engine primitives.
use crate::rt::*;

/// Declares harness entry points: `no_mangle` symbols for the engine, a table for the native replay.
#[macro_export]
macro_rules! harness {
    ($($n:ident => $e:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $n() { $e })*
        pub const LIST: &[(&str, fn())] = &[$((stringify!($n), || $n())),*];
    };
}

pub fn sym<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { vp_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn symv(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { vp_bytes(b.as_mut_ptr(), n) };
    b
}
pub fn choose(n: u32) -> u32 {
    unsafe { vp_choose(n) }
}
pub fn assume(b: bool) {
    unsafe { vp_assume(b) }
}
pub fn check(b: bool, id: u64) {
    unsafe { vp_assert(b, id) }
}
pub fn cover(id: u64) {
    unsafe { vp_cover(id) }
}
pub fn out(v: u64) {
    unsafe { vp_out(v) }
}
pub fn out_str(s: &str) {
    unsafe { vp_out_bytes(s.as_ptr(), s.len()) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { vp_conc(v) }
}
pub fn forget<T>(t: T) {
    core::mem::forget(t)
}

use yaml_peg::repr::*;
use yaml_peg::*;

/// Structural observation of a node (kind, text, order), independent of the crate's own `Eq`.
pub fn obs<R: Repr>(n: &Node<R>) {
    match n.yaml() {
        Yaml::Null => out(1),
        Yaml::Bool(b) => {
            out(2);
            out(*b as u64)
        }
        Yaml::Int(s) => {
            out(3);
            out_str(s)
        }
        Yaml::Float(s) => {
            out(4);
            out_str(s)
        }
        Yaml::Str(s) => {
            out(5);
            out_str(s)
        }
        Yaml::Seq(v) => {
            out(6);
            out(v.len() as u64);
            for x in v {
                obs(x)
            }
        }
        Yaml::Map(m) => {
            out(7);
            out(m.len() as u64);
            for (k, v) in m {
                obs(k);
                obs(v)
            }
        }
        Yaml::Alias(a) => {
            out(8);
            out_str(a)
        }
    }
}

/// Membership as a 256-entry bitmap test, so that a symbolic byte is constrained without forking.
pub fn in_set(c: u8, set: &[u8]) -> bool {
    let mut t = [false; 256];
    for &x in set {
        t[x as usize] = true;
    }
    t[c as usize]
}

/// A character outside ASCII: any of two bytes, any of three, or a certain one.
pub const WIDE: u32 = 9;
pub fn wide(k: u32) -> Vec<u8> {
    let tail = |c: u8| (c as i8) < -64;
    match k {
        0 => {
            let b = sym::<2>();
            assume((b[0] >= 0xc2) & (b[0] < 0xe0) & tail(b[1]));
            b.to_vec()
        }
        1 => {
            let b = sym::<3>();
            assume((b[0] >= 0xe0) & (b[0] < 0xf0) & tail(b[1]) & tail(b[2]));
            assume(((b[0] != 0xe0) | (b[1] >= 0xa0)) & ((b[0] != 0xed) | (b[1] < 0xa0)));
            b.to_vec()
        }
        k => ["\u{a0}", "\u{3000}", "\u{feff}", "\u{1f600}", "\u{85}", "\u{2028}", "\u{2003}"][k as usize - 2].as_bytes().to_vec(),
    }
}

/// Same structure, order, texts and tags; independent of the crate's own `Eq`.
pub fn same<R: Repr, S: Repr>(a: &Node<R>, b: &Node<S>) -> bool {
    a.tag() == b.tag()
        && match (a.yaml(), b.yaml()) {
            (Yaml::Null, Yaml::Null) => true,
            (Yaml::Bool(x), Yaml::Bool(y)) => x == y,
            (Yaml::Int(x), Yaml::Int(y)) | (Yaml::Float(x), Yaml::Float(y)) | (Yaml::Str(x), Yaml::Str(y)) | (Yaml::Alias(x), Yaml::Alias(y)) => x == y,
            (Yaml::Seq(x), Yaml::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
            (Yaml::Map(x), Yaml::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, v), (l, w))| same(k, l) && same(v, w)),
            _ => false,
        }
}
