use super::util::*;
use ::serde::de::DeserializeOwned;
use ::serde::{Deserialize, Serialize};
use yaml_peg::serde::{to_arc_node, to_node, SerdeError};
#[path = "serdes.rs"]
mod serdes;
use serdes::*;
use yaml_peg::parser::{Anchors, Loader, PError};
use yaml_peg::repr::*;
use yaml_peg::*;

#[path = "bulk.rs"]
mod bulk;
fn all<R: Repr, S: Repr>(a: &Node<R>, b: &Node<S>) -> bool {
    a.pos() == b.pos()
        && a.tag() == b.tag()
        && match (a.yaml(), b.yaml()) {
            (Yaml::Seq(x), Yaml::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| all(x, y)),
            (Yaml::Map(x), Yaml::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, v), (l, w))| all(k, l) && all(v, w)),
            _ => same(a, b),
        }
}
fn anchors<R: Repr, S: Repr>(a: &[Anchors<R>], b: &[Anchors<S>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| k == l && all(v, w)))
}
fn res<T: PartialEq, U: PartialEq>(a: Result<T, U>, b: Result<T, U>) -> bool {
    let r = a == b;
    forget((a, b));
    r
}
fn failed(a: &SerdeError, b: &SerdeError) -> bool {
    a.msg == b.msg && a.pos == b.pos
}
/// The same reading of a node of either kind.
fn into<T: DeserializeOwned + PartialEq, R: Repr, S: Repr>(a: &Node<R>, b: &Node<S>) -> bool {
    let (a, b) = (T::deserialize(a.clone()), T::deserialize(b.clone()));
    let r = match (&a, &b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => failed(a, b),
        _ => false,
    };
    forget((a, b));
    r
}
/// The accessors have the same results on nodes of either kind.
fn access<R: Repr, S: Repr>(a: &Node<R>, b: &Node<S>) -> bool {
    a.is_null() == b.is_null()
        && res(a.as_int(), b.as_int())
        && res(a.as_float().map(f64::to_bits), b.as_float().map(f64::to_bits))
        && res(a.as_number().map(f64::to_bits), b.as_number().map(f64::to_bits))
        && res(a.as_bool(), b.as_bool())
        && res(a.as_str(), b.as_str())
        && res(a.as_value(), b.as_value())
        && res(a.as_seq().map(|s| s.len()), b.as_seq().map(|s| s.len()))
        && res(a.as_map().map(|m| m.len()), b.as_map().map(|m| m.len()))
        && res(a.get_ind(Ind(0)).map(Node::pos), b.get_ind(Ind(0)).map(Node::pos))
        && res(a.get("a").map(Node::pos), b.get("a").map(Node::pos))
        && res(a.get(1).map(Node::pos), b.get(1).map(Node::pos))
        && into::<bool, R, S>(a, b)
        && into::<Option<i8>, R, S>(a, b)
        && match (f32::deserialize(a.clone()), f32::deserialize(b.clone())) {
            (Ok(a), Ok(b)) => a.to_bits() == b.to_bits(),
            (Err(a), Err(b)) => failed(&a, &b),
            _ => false,
        }
        && into::<String, R, S>(a, b)
        && into::<(), R, S>(a, b)
        && into::<Vec<String>, R, S>(a, b)
        && into::<std::collections::BTreeMap<String, Vec<u8>>, R, S>(a, b)
        && into::<En, R, S>(a, b)
        && into::<Flat, R, S>(a, b)
        && match (a.yaml(), b.yaml()) {
            (Yaml::Seq(x), Yaml::Seq(y)) => x.iter().zip(y).all(|(x, y)| access(x, y)),
            (Yaml::Map(x), Yaml::Map(y)) => x.iter().zip(y).all(|((k, v), (l, w))| access(k, l) && access(v, w)),
            _ => true,
        }
}
/// The values of either kind of node, written alike, read alike.
struct Both;
impl Go for Both {
    fn go<T: Serialize + DeserializeOwned>(&self, v: T, same: fn(&T, &T) -> bool) {
        match (to_node(&v), to_arc_node(&v)) {
            (Ok(a), Ok(b)) => {
                cover(1);
                obs(&a);
                check(all(&a, &b), 6);
                check(access(&a, &b), 7);
                let (s, t) = (dump(&[a.clone()], &[]), dump(&[b.clone()], &[]));
                out_str(&s);
                check(s == t, 8);
                // A node of the other kind, and the same kind again
                let (c, d) = (NodeArc::deserialize(a.clone()), NodeRc::deserialize(b.clone()));
                check(matches!((&c, &d), (Ok(c), Ok(d)) if all(c, d)), 9);
                let (x, y) = (T::deserialize(a), T::deserialize(b));
                match (&x, &y) {
                    (Ok(x), Ok(y)) => check(same(x, y), 10),
                    (Err(x), Err(y)) => check(failed(x, y), 10),
                    _ => check(false, 10),
                }
                forget((s, t, c, d));
                forget((x, y))
            }
            (Err(a), Err(b)) => {
                check(failed(&a, &b), 11);
                forget((a, b))
            }
            (a, b) => {
                check(false, 12);
                forget((a, b))
            }
        }
        forget(v)
    }
}
fn read(d: &[u8]) {
    let s = unsafe { core::str::from_utf8_unchecked(d) };
    match (parse::<RcRepr>(s), parse::<ArcRepr>(s)) {
        (Ok(a), Ok(b)) => {
            cover(1);
            check(a.len() == b.len() && a.iter().zip(&b).all(|(a, b)| all(a, b) && access(a, b)), 13);
            let (s, t) = (dump(&a, &[]), dump(&b, &[]));
            out_str(&s);
            check(s == t, 14);
            forget((s, t, a, b))
        }
        (Err(a), Err(b)) => {
            cover(2);
            check(
                match (&a, &b) {
                    (PError::Mismatch, PError::Mismatch) => true,
                    (PError::Terminate { name, msg }, PError::Terminate { name: n, msg: g }) => name == n && msg == g,
                    _ => false,
                },
                15,
            );
            forget((a, b))
        }
        (a, b) => {
            check(false, 16);
            forget((a, b))
        }
    }
}
fn texts() {
    const PRE: [&str; 8] = ["", "a: ", "- ", "[a, ", "!t ", "? ", "? - c\n: ", "Stru: {a: 1, b: "];
    const POST: [&str; 8] = ["", "\nb: ~\nc: no", "\n- 1", ", 1]", "", "", "", "}"];
    let b = sym::<3>();
    for c in b {
        assume(in_set(c, b"1a.-~t&*"))
    }
    let k = choose(8) as usize;
    let mut d = PRE[k].as_bytes().to_vec();
    d.extend_from_slice(&b);
    d.extend_from_slice(POST[k].as_bytes());
    read(&d);
    forget(d)
}
fn load<R: Repr, S: Repr>(d: &[u8], cyclic: bool) {
    let mut l: Loader<R> = Loader::new(d).cyclic_mode(cyclic);
    let mut m: Loader<S> = Loader::new(d).cyclic_mode(cyclic);
    match (l.parse(), m.parse()) {
        (Ok(v), Ok(w)) => {
            cover(1);
            check(v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| all(a, b)), 1);
            for n in &v {
                obs(n)
            }
            forget((v, w))
        }
        (Err(e), Err(f)) => {
            cover(2);
            match (&e, &f) {
                (PError::Mismatch, PError::Mismatch) => out(7),
                (PError::Terminate { name, msg }, PError::Terminate { name: n, msg: g }) => {
                    out_str(name);
                    check(name == n && msg == g, 2)
                }
                _ => check(false, 3),
            }
            forget((e, f))
        }
        (a, b) => {
            check(false, 4);
            forget((a, b))
        }
    }
    let (a, b) = (l.get_anchors(), m.get_anchors());
    check(anchors(&a, &b), 5);
    forget((a, b))
}
fn doc(d: &[u8]) {
    let c = choose(2) == 1;
    if choose(2) == 1 {
        load::<RcRepr, ArcRepr>(d, c)
    } else {
        load::<RcRepr, RcRepr>(d, c)
    }
}
fn alpha<const L: usize>(set: &[u8], pre: &str, post: &str) {
    let b = sym::<L>();
    for c in b {
        assume(in_set(c, set))
    }
    let mut d = pre.as_bytes().to_vec();
    d.extend_from_slice(&b);
    d.extend_from_slice(post.as_bytes());
    doc(&d);
    forget(d)
}
harness! {
    c22_l1 => doc(&bulk::doc::<1>(b"\n -:a#[]{},'\"\\&*!|>?%\t\r.1", &[20, 64]));
    c22_l2 => doc(&bulk::doc::<2>(b"\n -:a*[", &[17]));
    c22_l3 => doc(&bulk::doc::<1>(b"\n :a]*", &[130]));
    c22_si => ints(&Both);
    c22_sf => floats(&Both);
    c22_sc => chars(&Both, true);
    c22_ss => strings::<2>(&Both, &[], 8);
    c22_se => enums(&Both);
    c22_sk => containers(&Both);
    c22_so => options(&Both);
    c22_st => tagged(&Both);
    c22_sg => big(&Both);
    c22_sd => deep(&Both);
    c22_r => texts();
    c22_b5 => alpha::<5>(b"\n -:a", "", "");
    c22_b6 => alpha::<6>(b"\n -:a", "", "");
    c22_f4 => alpha::<4>(b" a,:[]{}", "", "");
    c22_f5 => alpha::<5>(b" a,:[]{}", "", "");
    c22_q4 => alpha::<4>(b"a '\"\\\n", "", "");
    c22_l5 => alpha::<5>(b"a \n-", "k: |", "\nl: m");
    c22_n4 => alpha::<4>(b"01-.eox: ", "", "");
    c22_a5 => alpha::<5>(b"a&* ,!", "[&a a, ", "]");
    c22_a6 => alpha::<6>(b"a&* ,!", "[&a a, ", "]");
    c22_m4 => alpha::<4>(b"a&* \n", "b: &a c\nd: ", "\ne: *a");
    c22_m5 => alpha::<5>(b"a&* \n", "b: &a c\nd: ", "\ne: *a");
    c22_d5 => alpha::<5>(b"-.\n &*a", "", "");
    c22_d6 => alpha::<6>(b"-.\n &*a", "", "");
}
