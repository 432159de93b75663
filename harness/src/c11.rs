use super::util::*;
use yaml_peg::repr::*;
#[path = "anchors.rs"]
mod anchors;
use anchors::*;
/// Scalars have symbolic content.
const CONTENT: bool = true;

fn go(b: B) {
    direct::<RcRepr>(&b);
    forget(b)
}
/// Names: an alias is bound by its whole name.
fn names<const L: usize, const M: usize>() {
    let (x, y) = (sym::<L>(), sym::<M>());
    for n in [&x[..], &y[..]] {
        for (i, c) in n.iter().enumerate() {
            assume(in_set(*c, if i == 0 { b"abB0" } else { b"abB0-" }))
        }
    }
    let mut d = b"[&".to_vec();
    d.extend_from_slice(&x);
    d.extend_from_slice(b" v, *");
    d.extend_from_slice(&y);
    d.extend_from_slice(b"]");
    let mut e = x.len() == y.len();
    if e {
        for i in 0..L {
            e &= x[i] == y[i]
        }
    }
    match yaml_peg::parse::<RcRepr>(unsafe { core::str::from_utf8_unchecked(&d) }) {
        Ok(v) => {
            cover(1);
            check(e && is(&v[0], &T::L(vec![T::S(b"v".to_vec()), T::S(b"v".to_vec())])), 30);
            forget(v)
        }
        Err(f) => {
            cover(2);
            check(!e, 31);
            forget(f)
        }
    }
    forget(d)
}
/// Tag and anchor in either order.
fn tags() {
    let d = ["[&a !t v, *a]", "[!t &a v, *a]", "[&a !!str v, *a]", "- &a !t\n  k: v\n- *a\n", "- !t &a\n  k: v\n- *a\n", "- &a !<x> \"v\"\n- *a\n", "&a !t v", "!t &a v", "[&a !t v, &a w]", "[!t &a v, !t &a w]", "&a &b v"];
    let k = choose(11) as usize;
    match yaml_peg::parse::<RcRepr>(d[k]) {
        Ok(v) => {
            cover(1);
            let n = &v[0];
            let m = |x| T::M(vec![(T::S(b"k".to_vec()), x)]);
            let s = T::S(b"v".to_vec());
            check(
                match k {
                    0 | 1 | 2 | 5 => is(n, &T::L(vec![s.clone(), s])),
                    3 | 4 => is(n, &T::L(vec![m(s.clone()), m(s)])),
                    6 | 7 => is(n, &s),
                    _ => false,
                },
                40,
            );
            forget(v)
        }
        Err(e) => {
            cover(2);
            check(k >= 8, 41);
            forget(e)
        }
    }
}
harness! {
    c11_fs => go(build(0, 5, false));
    c11_fs6 => go(build(0, 6, false));
    c11_bs => go(build(1, 5, false));
    c11_bs6 => go(build(1, 6, false));
    c11_bm => go(build(2, 5, false));
    c11_as => go(build(3, 5, false));
    c11_am => go(build(4, 5, false));
    c11_k => go(build(5, 6, false));
    c11_kl => go(build(11, 6, false));
    c11_q => go(build(6, 6, false));
    c11_qs => go(build(6, 5, true));
    c11_qa => go(build(7, 6, false));
    c11_r => go(build(8, 6, false));
    c11_fm => go(build(9, 6, false));
    c11_fms => go(build(9, 5, true));
    c11_rs => go(build(8, 5, true));
    c11_d2 => go(stream(4, 2));
    c11_d3 => go(stream(3, 3));
    c11_n11 => names::<1, 1>();
    c11_n12 => names::<1, 2>();
    c11_n21 => names::<2, 1>();
    c11_n22 => names::<2, 2>();
    c11_t => tags();
    c11_mn => many::<RcRepr>(false);
}
