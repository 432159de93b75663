use super::util::*;
use yaml_peg::repr::*;
use yaml_peg::*;

#[path = "bulk.rs"]
mod bulk;
/// Parse, dump, parse: the same documents, and the same text when dumped again.
fn go(b: &[u8]) {
    let mut l: parser::Loader<RcRepr> = parser::Loader::new(b);
    match l.parse() {
        Ok(v) => {
            cover(1);
            let d = dump(&v, &[]);
            match parse::<RcRepr>(&d) {
                Ok(w) => {
                    check(v.len() == w.len(), 1);
                    for i in 0..v.len() {
                        check(same(&v[i], &w[i]), 2)
                    }
                    let e = dump(&w, &[]);
                    check(d == e, 3);
                    out_str(&d);
                    forget((w, e))
                }
                Err(e) => {
                    check(false, 4);
                    forget(e)
                }
            }
            forget((v, d))
        }
        Err(e) => {
            cover(2);
            out(7);
            forget(e)
        }
    }
    forget(l)
}
fn alpha<const L: usize>(set: &[u8]) {
    let b = sym::<L>();
    for c in b {
        assume(in_set(c, set));
    }
    go(&b)
}
fn within<const L: usize>(set: &[u8], pre: &str, post: &str) {
    let b = sym::<L>();
    for c in b {
        assume(in_set(c, set));
    }
    let mut d = pre.as_bytes().to_vec();
    d.extend_from_slice(&b);
    d.extend_from_slice(post.as_bytes());
    go(&d);
    forget(d)
}
fn ascii<const L: usize>() {
    let b = sym::<L>();
    for c in b {
        assume(c < 128);
    }
    go(&b)
}
harness! {
    c07_l1 => go(&bulk::doc::<1>(b"\n -:a#[]{},'\"\\&*!|>?%\t\r.1", &[20, 64]));
    c07_l2 => go(&bulk::doc::<2>(b"\n -:a#[", &[17]));
    c07_l3 => go(&bulk::doc::<1>(b"\n :a]", &[130]));
    c07_a3 => ascii::<3>();
    c07_a4 => ascii::<4>();
    c07_b7 => alpha::<7>(b"\n -:a");
    c07_b8 => alpha::<8>(b"\n -:a");
    c07_f6 => alpha::<6>(b" a,:[]{}");
    c07_f7 => alpha::<7>(b"a,:[]{}");
    c07_q6 => alpha::<6>(b"a '\"\\\n");
    c07_q7 => alpha::<7>(b"a '\"\\\n");
    c07_l6 => within::<6>(b"a \n-", "k: |", "\nl: m");
    c07_l7 => within::<7>(b"a \n", "- >", "\n- b");
    c07_l8 => within::<8>(b"a \n", "|", "");
    c07_c7 => alpha::<7>(b"\n a?:-");
    c07_c8 => within::<8>(b"\n a?:", "? ", "");
    c07_t6 => within::<6>(b"a! :\n", "!", "");
    c07_t7 => within::<6>(b"a!<>:/ \n", "- !", "\n- b");
    c07_n6 => alpha::<6>(b"01-.eox: ");
    c07_d7 => within::<5>(b"-.\n a:", "a\n---", "");
    c07_d8 => alpha::<7>(b"-\n a.");
}
