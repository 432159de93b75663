use super::util::*;
use core::hash::{Hash, Hasher};
use yaml_peg::repr::*;
use yaml_peg::*;

type N = Node<RcRepr>;
fn text(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
/// An integer text in one of its spellings, with `n` symbolic digits.
fn int(n: usize) -> String {
    let mut t = vec![];
    let k = choose(8);
    t.extend_from_slice(["", "-", "0", "0x", "-0x0", "0o", "-00", "0x00"][k as usize].as_bytes());
    for c in symv(n) {
        assume(match k {
            3 | 4 | 7 => in_set(c, b"0123456789abcdefABCDEF"),
            5 => c >= b'0' && c <= b'7',
            _ => c >= b'0' && c <= b'9',
        });
        t.push(c)
    }
    text(t)
}
/// Around the ends of the range: the last digit is symbolic.
fn big() -> String {
    let mut t = ["922337203685477580", "-922337203685477580", "0922337203685477580", "0x7fffffffffffffff", "0xffffffffffffffff", "-0x800000000000000", "1844674407370955161", "99999999999999999999999999999999999999999999"][choose(8) as usize].as_bytes().to_vec();
    let c = sym::<1>()[0];
    assume(c >= b'0' && c <= b'9');
    t.push(c);
    text(t)
}
fn float() -> String {
    let v = ["0.0", "-0.0", "0", "-0e5", "NaN", "nan", "-nan", "+NaN", "inf", "Infinity", "-inf", "1.0", "1.", "10e-1", "1", "1e400", "2e999", "1e-400", "0.1", "0.10000000000000000555", "x", "X", " 1", "1.x", "1.X", "", "y", "9007199254740993", "9007199254740992"];
    v[choose(v.len() as u32) as usize].into()
}
fn st() -> String {
    let b = sym::<2>();
    assume(b[0] < 128 && b[1] < 128);
    text(b[..choose(3) as usize].to_vec())
}
fn at(y: Yaml<RcRepr>) -> N {
    let p = u64::from_le_bytes(sym::<8>());
    Node::new(y, p, ["", "!", "tag:yaml.org,2002:str"][choose(3) as usize])
}
fn plain(y: Yaml<RcRepr>) -> N {
    Node::new(y, 0, "")
}
/// Small leaves: one of each kind and two spellings each.
fn leaf() -> Yaml<RcRepr> {
    match choose(7) {
        0 => Yaml::Null,
        1 => Yaml::Bool(choose(2) == 1),
        2 => {
            let c = sym::<1>()[0];
            assume(c >= b'0' && c <= b'9');
            Yaml::Int(text(vec![c]))
        }
        3 => Yaml::Int(["0x1", "01", "99999999999999999999"][choose(3) as usize].into()),
        4 => Yaml::Float(["1.0", "1e0", "nan", "NaN", "-0", "0", "?"][choose(7) as usize].into()),
        5 => {
            let c = sym::<1>()[0];
            assume(c < 128);
            Yaml::Str(text(vec![c]))
        }
        _ => Yaml::Alias("1".into()),
    }
}
fn tiny() -> Yaml<RcRepr> {
    match choose(5) {
        0 => Yaml::Null,
        1 => Yaml::Int(["1", "0x1"][choose(2) as usize].into()),
        2 => Yaml::Float(["1", "1.0"][choose(2) as usize].into()),
        3 => Yaml::Str("1".into()),
        _ => Yaml::Str("2".into()),
    }
}
/// Leaf or collection of up to two of them.
fn node() -> Yaml<RcRepr> {
    match choose(6) {
        0 => leaf(),
        1 => Yaml::Seq(vec![]),
        2 => Yaml::Map(Map::new()),
        3 => Yaml::Seq((0..choose(2) + 1).map(|_| plain(tiny())).collect()),
        4 => Yaml::Map((0..choose(2) + 1).map(|_| (plain(tiny()), plain(Yaml::Null))).collect()),
        _ => Yaml::Map(core::iter::once((plain(Yaml::Str("1".into())), plain(tiny()))).collect()),
    }
}
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn fed(n: &N) -> Vec<u8> {
    let mut h = Rec::default();
    n.hash(&mut h);
    h.0
}
fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && {
        let mut d = 0;
        for i in 0..a.len() {
            d |= a[i] ^ b[i]
        }
        d == 0
    }
}
/// The laws for a pair.
fn pair(a: N, b: N) -> bool {
    check(a == a && b == b, 1);
    let e = a == b;
    check((b == a) == e, 2);
    check((a != b) != e, 3);
    if e {
        cover(1);
        check(bytes_eq(&fed(&a), &fed(&b)), 4);
        check(a.is_null() == b.is_null(), 5)
    } else {
        cover(2)
    }
    forget((a, b));
    e
}
/// Value of an integer text: sign and magnitude as 128 bits.
fn value(t: &str) -> i128 {
    let t = t.as_bytes();
    let (neg, t) = match t {
        [b'-', r @ ..] => (true, r),
        _ => (false, t),
    };
    let (r, t): (i128, &[u8]) = match t {
        [b'0', b'x', r @ ..] => (16, r),
        [b'0', b'o', r @ ..] => (8, r),
        _ => (10, t),
    };
    let mut v: i128 = 0;
    for c in t {
        let c = *c as u32;
        let d = if c <= b'9' as u32 { c.wrapping_sub(48) } else { (c | 32).wrapping_sub(87) };
        v = v.wrapping_mul(r).wrapping_add(d as i128);
    }
    if neg {
        v.wrapping_neg()
    } else {
        v
    }
}
/// Integers are equal exactly when their values are.
fn ints(n: usize, m: usize) {
    let (s, t) = (int(n), int(m));
    let w = value(&s) == value(&t);
    check(pair(plain(Yaml::Int(s)), plain(Yaml::Int(t))) == w, 10)
}
fn bigs() {
    let (s, t) = (big(), big());
    let (v, w) = (value(&s), value(&t));
    let r = |v: i128| s.len() < 40 && v >= i64::MIN as i128 && v <= i64::MAX as i128;
    let (a, b) = (r(v), r(w));
    let e = pair(plain(Yaml::Int(s)), plain(Yaml::Int(t)));
    if a && b {
        check(e == (v == w), 10)
    }
    if a != b {
        check(!e, 11)
    }
}
fn floats() {
    let (s, t) = (float(), float());
    let w = match (s.parse::<f64>(), t.parse::<f64>()) {
        (Ok(a), Ok(b)) => a == b || a != a && b != b,
        (Err(_), Err(_)) => s == t,
        _ => false,
    };
    check(pair(plain(Yaml::Float(s)), plain(Yaml::Float(t))) == w, 10)
}
/// Number texts with a symbolic byte, mostly malformed: those are compared as texts.
fn odd() -> String {
    let mut t = ["", "-", "1.", "1e", "0x", "0o"][choose(6) as usize].as_bytes().to_vec();
    let c = sym::<1>()[0];
    assume(c < 128 && !(c >= b'0' && c <= b'9') && !in_set(c, b"abcdefABCDEF"));
    t.push(c);
    text(t)
}
fn odds() {
    let (s, t) = (odd(), odd());
    let w = bytes_eq(s.as_bytes(), t.as_bytes());
    let float = choose(2) == 1;
    if float {
        assume(s.parse::<f64>().is_err() && t.parse::<f64>().is_err());
        check(pair(plain(Yaml::Float(s)), plain(Yaml::Float(t))) == w, 12)
    } else {
        check(pair(plain(Yaml::Int(s)), plain(Yaml::Int(t))) == w, 12)
    }
}
fn strings() {
    let (s, t) = (st(), st());
    let w = bytes_eq(s.as_bytes(), t.as_bytes());
    let k = choose(4);
    let e = match k {
        0 => pair(plain(Yaml::Str(s)), plain(Yaml::Str(t))),
        1 => pair(plain(Yaml::Alias(s)), plain(Yaml::Alias(t))),
        2 => pair(plain(Yaml::Seq(vec![plain(Yaml::Str(s))])), plain(Yaml::Seq(vec![plain(Yaml::Str(t))]))),
        _ => pair(plain(Yaml::Str(s)), plain(Yaml::Alias(t))),
    };
    check(e == (w && k < 3), 10)
}
/// Position and tag are not compared and not hashed; cloned and rebuilt nodes are equal.
fn meta() {
    let y = node();
    let (a, b) = (at(y.clone()), at(y));
    check(a == b && a == a.clone(), 20);
    check(bytes_eq(&fed(&a), &fed(&a.clone())), 21);
    pair(a, b);
}
fn pairs() {
    let (a, b) = (plain(node()), plain(node()));
    let w = eqv(&a, &b);
    check(pair(a, b) == w, 10)
}
/// What equality means: same kind and same content in the same order, numbers by value.
fn eqv(a: &N, b: &N) -> bool {
    match (a.yaml(), b.yaml()) {
        (Yaml::Null, Yaml::Null) => true,
        (Yaml::Bool(x), Yaml::Bool(y)) => x == y,
        (Yaml::Int(x), Yaml::Int(y)) => {
            if x.len() > 9 || y.len() > 9 {
                x == y
            } else {
                value(x) == value(y)
            }
        }
        (Yaml::Float(x), Yaml::Float(y)) => match (x.parse::<f64>(), y.parse::<f64>()) {
            (Ok(a), Ok(b)) => a == b || a != a && b != b,
            (Err(_), Err(_)) => x == y,
            _ => false,
        },
        (Yaml::Str(x), Yaml::Str(y)) | (Yaml::Alias(x), Yaml::Alias(y)) => bytes_eq(x.as_bytes(), y.as_bytes()),
        (Yaml::Seq(x), Yaml::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| eqv(x, y)),
        (Yaml::Map(x), Yaml::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, v), (l, w))| eqv(k, l) && eqv(v, w)),
        _ => false,
    }
}
fn triple(f: fn() -> Yaml<RcRepr>) {
    let (a, b, c) = (plain(f()), plain(f()), plain(f()));
    if a == b && b == c {
        cover(1);
        check(a == c, 30)
    }
    forget((a, b, c))
}
/// A lookup finds every equal key and nothing else.
fn lookup(f: fn() -> Yaml<RcRepr>, g: fn() -> Yaml<RcRepr>) {
    let (a, b, c) = (plain(f()), plain(g()), plain(f()));
    let two = choose(2) == 1;
    let (x, y) = (plain(Yaml::Int("1".into())), plain(Yaml::Int("2".into())));
    let mut m: Map<RcRepr> = Map::new();
    m.insert(a.clone(), x.clone());
    if two {
        m.insert(b.clone(), y.clone());
    }
    let n = plain(Yaml::Map(m));
    let want = if two && c == b {
        Some(2)
    } else if c == a {
        Some(1)
    } else {
        None
    };
    match (n.get(c.clone()), want) {
        (Ok(v), Some(w)) => {
            cover(1);
            check(v.as_int() == Ok(w), 40)
        }
        (Err(_), None) => cover(2),
        _ => check(false, 41),
    }
    if let Yaml::Map(m) = n.yaml() {
        check(m.len() == 1 + (two && !(a == b)) as usize, 42);
        check(m.contains_key(&c) == want.is_some(), 43)
    }
    forget((a, b, c, n, x, y))
}
/// Long texts, many entries and deep nodes which differ in at most one place, or in the order.
fn large() {
    let n = [9usize, 33][choose(2) as usize];
    let at = [0, n / 2, n - 1][choose(3) as usize];
    let b = sym::<2>();
    assume(b[0] < 128 && b[1] < 128);
    let k = choose(11);
    let mk = |c: u8, swap: bool, short: bool| -> N {
        let l = if short { n - 1 } else { n };
        let s = |i: usize| {
            let i = if swap && i < 2 { 1 - i } else { i };
            plain(Yaml::Str(text(vec![if i == at { c } else { b'x' }, i as u8])))
        };
        let t = |zeros: &str| {
            let mut v = zeros.as_bytes().to_vec();
            for i in 0..l {
                v.push(if i == at { c } else { b'0' })
            }
            text(v)
        };
        plain(match k {
            0 => Yaml::Str(t("")),
            1 => Yaml::Alias(t("a")),
            2 => Yaml::Seq((0..l).map(s).collect()),
            3 => Yaml::Map((0..l).map(|i| (s(i), plain(Yaml::Null))).collect()),
            4 => Yaml::Map((0..l).map(|i| (plain(Yaml::Int(i.to_string())), s(i))).collect()),
            5 => Yaml::Int(t("-")),
            6 => Yaml::Int(t("0x")),
            7 => Yaml::Float(t("1.")),
            8 | 9 | 10 => {
                let mut x = s(at);
                for i in 0..l {
                    x = plain(match k {
                        8 => Yaml::Seq(vec![x]),
                        9 => Yaml::Map([(x, plain(Yaml::Null))].into_iter().collect()),
                        _ if i % 2 == 0 => Yaml::Map([(plain(Yaml::Null), x)].into_iter().collect()),
                        _ => Yaml::Seq(vec![plain(Yaml::Null), x]),
                    })
                }
                x.yaml().clone()
            }
            _ => unreachable!(),
        })
    };
    // numbers in digits; a digit of a single place decides the value
    if (5..8).contains(&k) {
        for c in b {
            assume(c >= b'0' && c <= b'9')
        }
    }
    let b = if k == 7 { [conc(b[0] as u64) as u8, conc(b[1] as u64) as u8] } else { b };
    let (swap, short) = [(false, false), (true, false), (false, true)][choose(if k < 5 { 3 } else { 2 }) as usize * if k < 5 { 1 } else { 2 }];
    let (x, y) = (mk(b[0], false, false), mk(b[1], swap, short));
    let same = b[0] == b[1];
    let want = match k {
        0 | 1 => same && !short,
        2 | 3 => same && !short && !swap,
        4 => same && !short && !swap,
        // beyond the range the texts decide; within it zeros in front do not count
        5 | 6 => {
            let z = |s: &N| match s.yaml() {
                Yaml::Int(s) => s.clone(),
                _ => unreachable!(),
            };
            let (p, q) = (z(&x), z(&y));
            let fits = |t: &str| {
                let d = t[if k == 5 { 1 } else { 2 }..].trim_start_matches('0');
                d.len() <= 15
            };
            if p == q {
                true
            } else if fits(&p) && fits(&q) {
                value(&p) == value(&q)
            } else {
                false
            }
        }
        7 => {
            let z = |s: &N| match s.yaml() {
                Yaml::Float(s) => s.parse::<f64>().unwrap(),
                _ => unreachable!(),
            };
            z(&x) == z(&y)
        }
        _ => same && !short,
    };
    check(pair(x.clone(), y.clone()) == want, 50);
    check(x == x.clone() && (x == y.clone()) == want, 51);
    // a lookup
    let m: Map<RcRepr> = [(x, plain(Yaml::Null))].into_iter().collect();
    check(m.contains_key(&y) == want, 52);
    forget((m, y))
}
harness! {
    c04_lg => large();
    c04_i11 => ints(1, 1);
    c04_i12 => ints(1, 2);
    c04_i22 => ints(2, 2);
    c04_b => bigs();
    c04_f => floats();
    c04_o => odds();
    c04_s => strings();
    c04_m => meta();
    c04_p => pairs();
    c04_t => triple(leaf);
    c04_tn => triple(tiny);
    c04_l => lookup(leaf, leaf);
    c04_ln => lookup(node, tiny);
}
