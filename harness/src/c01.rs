use super::util::*;
use yaml_peg::parser::Loader;
use yaml_peg::repr::*;

#[path = "bulk.rs"]
mod bulk;
/// Parse `b` with a fresh loader; the only obligations are the engine's own: no panic, no endless
/// loop, no runaway recursion or allocation.
fn total(b: &[u8], cyclic: bool) {
    let mut l: Loader<RcRepr> = Loader::new(b).cyclic_mode(cyclic);
    match l.parse() {
        Ok(v) => {
            cover(1);
            out(v.len() as u64);
            for n in &v {
                obs(n)
            }
            forget(v);
        }
        Err(e) => {
            cover(2);
            out(99);
            forget(e);
        }
    }
    forget(l);
}
fn raw<const N: usize>() {
    total(&sym::<N>(), false)
}
fn ascii<const N: usize>() {
    let b = sym::<N>();
    for c in b {
        assume(c < 128);
    }
    total(&b, choose(2) == 1)
}
fn alpha<const N: usize>(set: &[u8]) {
    let b = sym::<N>();
    for c in b {
        assume(in_set(c, set));
    }
    total(&b, false)
}
const S1: &[u8] = b"\n -:a#[]{},'";
const S2: &[u8] = b"\n ?:-a&|>";
fn big<const L: usize>(set: &[u8], sizes: &[usize]) {
    total(&bulk::doc::<L>(set, sizes), choose(2) == 1)
}
/// Arbitrary bytes amid the others of a document.
fn amid<const N: usize>() {
    let (a, b) = [
        ("\"", "\"\n"),
        ("- '", "b'"),
        ("k: |\n  ", "\n  a\n"),
        (">\n ", "a\n\n "),
        ("# ", "\na"),
        ("a #", ""),
        ("!", " a"),
        ("!<", "> a"),
        ("!!", "a"),
        ("&", " a"),
        ("*", "\n"),
        ("[", ", a]"),
        ("{a", ": b}"),
        ("a", "\n"),
        ("a\n ", "\n"),
        ("k: a", "\nl: b"),
        ("- a\n", "- b"),
        ("? ", "\n: a"),
        ("%", "\n---\na"),
        ("%YAML 1.2", "\n---\na"),
        ("%TAG !e! ", "\n---\n!e!a b"),
        ("---", "a\n..."),
        ("a\n...", "\n---\nb"),
        ("\"\\", "\""),
        ("1", "2"),
    ][choose(25) as usize];
    total(&[a.as_bytes(), &sym::<N>(), b.as_bytes()].concat(), choose(2) == 1)
}
harness! {
    c01_m1 => amid::<1>();
    c01_m2 => amid::<2>();
    c01_m3 => amid::<3>();
    c01_l1 => big::<1>(b"\n -:a#[]{},'\"\\&*!|>?%\t\r.1", &[20, 64]);
    c01_l2 => big::<2>(b"\n -:a#[", &[17]);
    c01_l3 => big::<1>(b"\n :a]", &[130]);
    c01_b1 => raw::<1>();
    c01_b2 => raw::<2>();
    c01_b3 => raw::<3>();
    c01_b4 => raw::<4>();
    c01_a5 => ascii::<5>();
    c01_s6 => alpha::<6>(S1);
    c01_s7b => alpha::<7>(S1);
    c01_s7 => alpha::<7>(S2);
    c01_s8b => alpha::<8>(S2);
    c01_s8 => alpha::<8>(b"\n -:a");
    c01_s9 => alpha::<9>(b"\n -:a");
    
    c01_s11 => alpha::<11>(b"\n -a");
}
