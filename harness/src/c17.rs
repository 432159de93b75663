use super::util::*;
use yaml_peg::{repr::*, *};
#[path = "gen.rs"]
mod gen;
use gen::*;

fn r(c: Cfg) {
    run(c, |n, t| is(n, t))
}
/// Collections in collections, as text and as what it says. The kinds are the ones of a map and
/// of a sequence whose item is the first, the last or the only one.
fn chain(depth: u32, nk: u32, any: bool) {
    chain_of(choose(depth) as usize + 1, nk, any)
}
fn chain_of(d: usize, nk: u32, any: bool) {
    let (a, b) = if any { (0, 0) } else { (choose(nk), choose(nk)) };
    let step = [2, 1, 4][choose(3) as usize];
    let own = choose(2) == 1;
    let c = sym::<1>()[0];
    assume(in_set(c, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!$%&()*+-./;<=>?@^_`|~"));
    let mut g = vec![];
    let mut kinds = vec![];
    for i in 0..d {
        kinds.push(if any { choose(nk) } else if i % 2 == 0 { a } else { b })
    }
    let ind = |g: &mut Vec<u8>, i: usize| g.resize(g.len() + i * step, b' ');
    // From the outside to the inside
    let mut here = true;
    for (i, k) in kinds.iter().enumerate() {
        if !here {
            ind(&mut g, i);
        }
        let (map, first) = (k % 2 == 0, k / 2 == 1);
        if first {
            g.extend_from_slice(if map { b"j: m\n" } else { b"- i\n" });
            ind(&mut g, i);
        }
        g.extend_from_slice(if map { b"k:" } else { b"-" });
        // Items in the line of their dash, if their column is the one of the others
        here = !own && !map && step == 2 && i + 1 < d;
        if here {
            g.push(b' ')
        } else if i + 1 < d {
            g.push(b'\n')
        } else {
            g.extend_from_slice(&[b' ', b'v', c, b'\n'])
        }
    }
    for (i, k) in kinds.iter().enumerate().rev() {
        let map = k % 2 == 0;
        if k / 2 == 0 {
            ind(&mut g, i);
            g.extend_from_slice(if map { b"l: m\n" } else { b"- i\n" })
        }
    }
    let s = unsafe { String::from_utf8_unchecked(g) };
    match parse::<RcRepr>(&s) {
        Ok(v) => {
            cover(2);
            check(v.len() == 1, 20);
            let mut n = &v[0];
            let is = |n: &NodeRc, s: &str| matches!(n.yaml(), Yaml::Str(t) if t == s);
            for k in &kinds {
                let one = k / 2 == 2;
                let first = k / 2 == 1;
                n = match n.yaml() {
                    Yaml::Seq(v) if k % 2 == 1 => {
                        check(v.len() == if one { 1 } else { 2 }, 21);
                        check(one || is(&v[if first { 0 } else { 1 }], "i"), 22);
                        &v[first as usize]
                    }
                    Yaml::Map(m) if k % 2 == 0 => {
                        check(m.len() == if one { 1 } else { 2 }, 23);
                        let (a, b) = (m.iter().next().unwrap(), m.iter().last().unwrap());
                        let (x, y) = if first { (b, a) } else { (a, b) };
                        check(is(x.0, "k"), 24);
                        check(one || is(y.0, if first { "j" } else { "l" }) && is(y.1, "m"), 25);
                        x.1
                    }
                    _ => return check(false, 26),
                }
            }
            check(matches!(n.yaml(), Yaml::Str(t) if t.as_bytes() == [b'v', c]), 27);
            out_str(&s);
            forget(v)
        }
        Err(e) => {
            check(false, 28);
            forget(e)
        }
    }
    forget((s, kinds))
}
harness! {
    c17_b3 => r(Cfg { left: 3, ind: 4, root: 5, ..CFG });
    c17_b4 => r(Cfg { left: 4, ..CFG });
    c17_b5 => r(Cfg { left: 5, entries: 1, ind: 2, own: true, ..CFG });
    c17_o3 => r(Cfg { left: 3, own: true, ind: 3, ..CFG });
    c17_o4 => r(Cfg { left: 4, own: true, ind: 0, ..CFG });
    c17_l1 => r(Cfg { left: 1, leaf: 6, empty: 2, own: true, ..CFG });
    c17_r1 => r(Cfg { left: 1, leaf: 3, empty: 1, root: 5, ..CFG });
    c17_l2 => r(Cfg { left: 2, leaf: 3, empty: 2, ..CFG });
    c17_u1 => r(Cfg { left: 1, leaf: 6, empty: 1, own: true, entries: 1, uni: 7, ..CFG });
    c17_u2 => r(Cfg { left: 2, flow: true, complex: true, wrap: true, entries: 1, uni: 7, ..CFG });
    c17_k2 => r(Cfg { left: 2, empty: 2, ind: 2, entries: 3, ..CFG });
    c17_n3 => r(Cfg { left: 3, empty: 1, ..CFG });
    c17_e2 => r(Cfg { left: 2, entries: 4, ..CFG });
    c17_c1 => r(Cfg { left: 1, complex: true, empty: 2, own: true, ..CFG });
    c17_c2 => r(Cfg { left: 2, complex: true, ind: 2, empty: 1, ..CFG });
    c17_c3 => r(Cfg { left: 3, complex: true, ind: 0, ..CFG });
    c17_c4 => r(Cfg { left: 4, complex: true, entries: 1, ..CFG });
    c17_c5 => r(Cfg { left: 1, complex: true, empty: 1, entries: 3, ..CFG });
    c17_fo => r(Cfg { left: 2, flow: true, block: false, complex: true, empty: 1, ..CFG });
    c17_fp => r(Cfg { left: 2, flow: true, complex: true, empty: 1, entries: 1, ..CFG });
    c17_f3 => r(Cfg { left: 3, flow: true, block: false, complex: true, ..CFG });
    c17_f4 => r(Cfg { left: 4, flow: true, block: false, ..CFG });
    c17_w2 => r(Cfg { left: 2, flow: true, block: false, wide: 1, complex: true, ..CFG });
    c17_m3 => r(Cfg { left: 3, flow: true, ind: 2, ..CFG });
    c17_m4 => r(Cfg { left: 4, flow: true, ind: 0, entries: 1, complex: true, ..CFG });
    c17_mw => r(Cfg { left: 3, flow: true, wide: 1, ind: 0, ..CFG });
    c17_s2 => r(Cfg { left: 2, ind: 0, flow: true, complex: true, ..CFG });
    c17_h1 => chain(5, 4, true);
    c17_h2 => chain(10, 6, false);
    c17_h3 => chain_of([17, 33][choose(2) as usize], 6, false);
    c17_g1 => r(Cfg { left: 2, leaf: 2, fill: 9, entries: 1, ind: 2, ..CFG });
    c17_g2 => r(Cfg { left: 2, flow: true, block: false, fill: 34, entries: 1, ..CFG });
    c17_g3 => r(Cfg { left: 1, leaf: 6, empty: 2, own: true, fill: 34, entries: 1, pad: 70, ..CFG });
    c17_g4 => r(Cfg { left: 2, leaf: 2, entries: 1, wrap: true, complex: true, flow: true, pad: 140, ..CFG });
    c17_v1 => r(Cfg { left: 1, leaf: 5, wrap: true, own: true, root: 4, ..CFG });
    c17_v2 => r(Cfg { left: 2, wrap: true, complex: true, ..CFG });
    c17_v3 => r(Cfg { left: 2, wrap: true, own: true, ..CFG });
}
