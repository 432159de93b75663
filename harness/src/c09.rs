use super::util::{assume, check, choose, cover, forget, in_set, sym, symv};
use serde::de::{DeserializeOwned, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer};
use std::collections::BTreeMap;
use yaml_peg::repr::*;
use yaml_peg::serde::SerdeError;
use yaml_peg::{parse, Map, Node, Yaml};

type N = Node<RcRepr>;
fn pos() -> u64 {
    let p = u64::from_le_bytes(sym::<8>());
    assume(p > 0);
    p
}
fn at(y: Yaml<RcRepr>, p: u64) -> N {
    Node::new(y, p, "")
}
fn st(s: &str) -> Yaml<RcRepr> {
    Yaml::Str(s.into())
}
fn digits(n: usize, t: &mut Vec<u8>) {
    for c in symv(n) {
        assume(c >= b'0' && c <= b'9');
        t.push(c)
    }
}
fn hex(n: usize, t: &mut Vec<u8>) {
    for c in symv(n) {
        assume(in_set(c, b"0123456789abcdefABCDEF"));
        t.push(c)
    }
}
fn text(t: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(t) }
}
/// Value of an integer text modulo 2^128, and its sign and digits for the comparison with a bound.
fn value(t: &[u8]) -> u128 {
    let (neg, t) = match t {
        [b'-', r @ ..] => (true, r),
        _ => (false, t),
    };
    let (r, t): (u128, &[u8]) = match t {
        [b'0', b'x', r @ ..] => (16, r),
        [b'0', b'o', r @ ..] => (8, r),
        _ => (10, t),
    };
    let mut v: u128 = 0;
    for c in t {
        let c = *c as u32;
        let d = if c <= b'9' as u32 { c.wrapping_sub(48) } else { (c | 32).wrapping_sub(87) };
        v = v.wrapping_mul(r).wrapping_add(d as u128);
    }
    if neg {
        v.wrapping_neg()
    } else {
        v
    }
}
/// The digits are not above the bound (longer is larger, then from the first digit on).
fn below(t: &[u8], max: &[u8]) -> bool {
    let z = t.iter().take_while(|c| **c == b'0').count();
    let t = &t[z..];
    if t.len() != max.len() {
        return t.len() < max.len();
    }
    let mut less = true;
    for i in (0..t.len()).rev() {
        let c = if t[i] >= b'a' { t[i] - 32 } else { t[i] };
        less = c < max[i] || (c == max[i] && less);
    }
    less
}
fn fits(t: &[u8], bits: u32, signed: bool) -> bool {
    let b = bits - signed as u32;
    let max = if b == 128 { u128::MAX } else { (1u128 << b) - 1 };
    match t {
        [b'-', r @ ..] => {
            if signed {
                below(r, (max + 1).to_string().as_bytes())
            } else {
                below(r, b"")
            }
        }
        [b'0', b'x', r @ ..] => below(r, format!("{max:X}").as_bytes()),
        [b'0', b'o', r @ ..] => below(r, format!("{max:o}").as_bytes()),
        t => below(t, max.to_string().as_bytes()),
    }
}
trait Low {
    fn low(&self) -> u128;
}
macro_rules! low { ($($t:ty)*) => { $(impl Low for $t { fn low(&self) -> u128 { *self as u128 } })* } }
low! { i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 }
fn int_to<T: DeserializeOwned + Low>(t: Vec<u8>, bits: u32, signed: bool) {
    let want = value(&t);
    let ok = fits(&t, bits, signed);
    let p = pos();
    let n = at(Yaml::Int(text(t)), p);
    match T::deserialize(n) {
        Ok(v) => {
            cover(1);
            check(ok && v.low() == want, 1)
        }
        Err(e) => {
            cover(2);
            check(!ok, 2);
            check(e.pos == p, 3);
            forget(e)
        }
    }
}
fn ints(head: &str, n: usize) {
    let mut t = vec![];
    if choose(2) == 1 {
        t.push(b'-')
    }
    t.extend_from_slice(head.as_bytes());
    digits(n, &mut t);
    by_type(t)
}
fn by_type(t: Vec<u8>) {
    match choose(10) {
        0 => int_to::<i8>(t, 8, true),
        1 => int_to::<u8>(t, 8, false),
        2 => int_to::<i16>(t, 16, true),
        3 => int_to::<u16>(t, 16, false),
        4 => int_to::<i32>(t, 32, true),
        5 => int_to::<u32>(t, 32, false),
        6 => int_to::<i64>(t, 64, true),
        7 => int_to::<u64>(t, 64, false),
        8 => int_to::<i128>(t, 128, true),
        _ => int_to::<u128>(t, 128, false),
    }
}
/// Both ends of every type: the head of the largest value, two symbolic digits.
fn ends(n: usize) {
    let mut t = vec![];
    let k = choose(10);
    let neg = choose(2) == 1;
    if neg {
        t.push(b'-')
    }
    let m = ["127", "255", "32767", "65535", "2147483647", "4294967295", "9223372036854775807", "18446744073709551615", "170141183460469231731687303715884105727", "340282366920938463463374607431768211455"][k as usize];
    t.extend_from_slice(&m.as_bytes()[..m.len() - n]);
    digits(n, &mut t);
    match k {
        0 => int_to::<i8>(t, 8, true),
        1 => int_to::<u8>(t, 8, false),
        2 => int_to::<i16>(t, 16, true),
        3 => int_to::<u16>(t, 16, false),
        4 => int_to::<i32>(t, 32, true),
        5 => int_to::<u32>(t, 32, false),
        6 => int_to::<i64>(t, 64, true),
        7 => int_to::<u64>(t, 64, false),
        8 => int_to::<i128>(t, 128, true),
        _ => int_to::<u128>(t, 128, false),
    }
}
fn radix() {
    let mut t = vec![];
    let k = choose(8);
    let h = ["0x", "0x7", "0xff", "0x7fffffff", "0xffffffffffffff", "0x7fffffffffffffffffffffffffffff", "0o", "0o7777"][k as usize];
    t.extend_from_slice(h.as_bytes());
    if k < 6 {
        hex(2, &mut t);
        if k == 5 {
            t.push(b'f')
        }
    } else {
        for c in sym::<2>() {
            assume(c >= b'0' && c <= b'7');
            t.push(c)
        }
    }
    by_type(t)
}
/// A node of any kind; the text of the scalars is concrete here.
fn any(k: u32, p: u64) -> N {
    at(
        match k {
            0 => Yaml::Null,
            1 => Yaml::Bool(true),
            2 => Yaml::Bool(false),
            3 => Yaml::Int("7".into()),
            4 => Yaml::Int("-42".into()),
            5 => Yaml::Float("1.5".into()),
            6 => Yaml::Str("a".into()),
            7 => Yaml::Str("ab".into()),
            8 => Yaml::Str(String::new()),
            9 => Yaml::Str("7".into()),
            10 => Yaml::Str("true".into()),
            11 => Yaml::Str("null".into()),
            12 => Yaml::Seq(vec![]),
            13 => Yaml::Seq(vec![at(Yaml::Int("7".into()), p)]),
            14 => Yaml::Map(Map::new()),
            15 => Yaml::Map(vec![(at(st("a"), p), at(Yaml::Int("7".into()), p))].into_iter().collect()),
            16 => Yaml::Int("99999999999999999999999999999999999999999".into()),
            17 => Yaml::Int("x".into()),
            18 => Yaml::Float("x".into()),
            19 => Yaml::Float("inf".into()),
            20 => Yaml::Str("\u{e9}".into()),
            _ => Yaml::Alias("a".into()),
        },
        p,
    )
}
const KINDS: u32 = 22;
fn is<T: DeserializeOwned + PartialEq>(n: N, p: u64, want: Option<T>, id: u64) {
    match (T::deserialize(n), want) {
        (Ok(v), Some(w)) => {
            cover(1);
            check(v == w, id);
            forget((v, w))
        }
        (Err(e), None) => {
            cover(2);
            check(e.pos == p, id + 1);
            forget(e)
        }
        (Ok(v), None) => {
            check(false, id + 2);
            forget(v)
        }
        (Err(e), Some(_)) => {
            check(false, id + 3);
            forget(e)
        }
    }
}
/// Every kind of node into every kind of target.
fn kinds() {
    let p = pos();
    let k = choose(KINDS);
    let n = any(k, p);
    let mut no = |j: u32, d: u64| if k == j { Some(d) } else { None };
    match choose(28) {
        0 => is::<bool>(n, p, no(1, 1).map(|_| true).or(no(2, 0).map(|_| false)), 10),
        1 => is::<u8>(n, p, no(3, 7).map(|x| x as u8), 20),
        2 => is::<i64>(n, p, if k == 4 { Some(-42) } else { no(3, 7).map(|x| x as i64) }, 30),
        3 => is::<f64>(
            n,
            p,
            match k {
                3 => Some(7.),
                4 => Some(-42.),
                5 => Some(1.5),
                19 => Some(f64::INFINITY),
                _ => None,
            },
            40,
        ),
        4 => is::<f32>(
            n,
            p,
            match k {
                3 => Some(7.),
                4 => Some(-42.),
                5 => Some(1.5),
                19 => Some(f32::INFINITY),
                _ => None,
            },
            50,
        ),
        5 => is::<char>(
            n,
            p,
            match k {
                3 | 9 => Some('7'),
                6 => Some('a'),
                17 => Some('x'),
                20 => Some('\u{e9}'),
                _ => None,
            },
            60,
        ),
        6 => {
            let w = match k {
                0 | 11 => Some("null"),
                1 | 10 => Some("true"),
                2 => Some("false"),
                3 | 9 => Some("7"),
                4 => Some("-42"),
                5 => Some("1.5"),
                6 => Some("a"),
                7 => Some("ab"),
                8 => Some(""),
                16 => Some("99999999999999999999999999999999999999999"),
                17 | 18 => Some("x"),
                19 => Some("inf"),
                20 => Some("\u{e9}"),
                _ => None,
            }
            .map(String::from);
            if choose(2) == 0 {
                is::<String>(n, p, w, 70)
            } else {
                is::<Txt>(n, p, w.map(Txt), 74)
            }
        }
        25 => is::<Raw>(
            n,
            p,
            match k {
                6 => Some(Raw(b"a".to_vec())),
                7 => Some(Raw(b"ab".to_vec())),
                8 => Some(Raw(vec![])),
                9 => Some(Raw(b"7".to_vec())),
                10 => Some(Raw(b"true".to_vec())),
                11 => Some(Raw(b"null".to_vec())),
                20 => Some(Raw("\u{e9}".into())),
                12 => Some(Raw(vec![])),
                13 => Some(Raw(vec![7])),
                _ => None,
            },
            270,
        ),
        26 => {
            // whatever is not wanted
            let y = IgnoredAny::deserialize(n);
            cover(1);
            check(y.is_ok(), 280);
            forget(y)
        }
        7 => is::<()>(n, p, no(0, 0).map(|_| ()), 80),
        8 => is::<Option<u8>>(n, p, if k == 0 { Some(None) } else { no(3, 7).map(|_| Some(7)) }, 90),
        9 => is::<Vec<u8>>(n, p, if k == 12 { Some(vec![]) } else { no(13, 7).map(|_| vec![7]) }, 100),
        10 => is::<BTreeMap<String, u8>>(n, p, if k == 14 { Some(BTreeMap::new()) } else { no(15, 7).map(|_| BTreeMap::from([("a".to_string(), 7)])) }, 110),
        11 => is::<(u8,)>(n, p, no(13, 7).map(|_| (7,)), 120),
        12 => is::<Sa>(n, p, if k == 13 { Some(Sa { a: 7 }) } else { no(15, 7).map(|_| Sa { a: 7 }) }, 130),
        13 => is::<Unit>(n, p, no(0, 0).map(|_| Unit), 140),
        14 => is::<New>(n, p, no(3, 7).map(|_| New(7)), 150),
        15 => is::<En>(n, p, if k == 6 { Some(En::A) } else { None }, 160),
        16 => is::<Eb>(n, p, if k == 15 { Some(Eb::A(7)) } else { None }, 170),
        17 => is::<Option<Vec<u8>>>(n, p, if k == 12 { Some(Some(vec![])) } else if k == 0 { Some(None) } else { no(13, 7).map(|_| Some(vec![7])) }, 180),
        18 => is::<Option<BTreeMap<String, u8>>>(n, p, if k == 14 { Some(Some(BTreeMap::new())) } else if k == 0 { Some(None) } else { no(15, 7).map(|_| Some(BTreeMap::from([("a".to_string(), 7)]))) }, 190),
        19 => is::<Option<bool>>(n, p, if k == 0 { Some(None) } else { no(1, 1).map(|_| Some(true)).or(no(2, 0).map(|_| Some(false))) }, 200),
        20 => is::<Empty>(n, p, if k == 12 || k == 14 { Some(Empty {}) } else { no(15, 7).map(|_| Empty {}) }, 210),
        21 => is::<Deny>(n, p, if k == 13 { Some(Deny { a: 7 }) } else { no(15, 7).map(|_| Deny { a: 7 }) }, 220),
        22 => is::<[u8; 0]>(n, p, no(12, 0).map(|_| []), 230),
        23 => is::<Box<[bool]>>(n, p, no(12, 0).map(|_| [].into()), 240),
        24 => is::<Any>(n, p, any_of(k), 250),
        // The position is unknown to the code derived by serde
        _ if k == 14 => check(Un::deserialize(n).is_err(), 255),
        _ => is::<Un>(
            n,
            p,
            match k {
                0 => Some(Un::U),
                1 => Some(Un::B(true)),
                2 => Some(Un::B(false)),
                3 => Some(Un::N(7)),
                5 => Some(Un::F(1.5)),
                4 => Some(Un::F(-42.)),
                16 | 17 | 18 | 21 => None,
                20 => Some(Un::S("\u{e9}".into())),
                19 => Some(Un::F(f64::INFINITY)),
                12 => Some(Un::L(vec![])),
                13 => Some(Un::L(vec![7])),
                15 => Some(Un::M { a: 7 }),
                k => Some(Un::S(["a", "ab", "", "7", "true", "null"][k as usize - 6].into())),
            },
            260,
        ),
    }
}
/// A text, as most types ask for it which are written as one.
#[derive(PartialEq)]
struct Txt(String);
/// Bytes, of a text or numbers.
#[derive(PartialEq)]
struct Raw(Vec<u8>);
struct TV;
impl<'a> Visitor<'a> for TV {
    type Value = Txt;
    fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("text")
    }
    fn visit_str<E>(self, s: &str) -> Result<Txt, E> {
        Ok(Txt(s.into()))
    }
}
impl<'a> Deserialize<'a> for Txt {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_str(TV)
    }
}
struct RV;
impl<'a> Visitor<'a> for RV {
    type Value = Raw;
    fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("bytes")
    }
    fn visit_str<E>(self, s: &str) -> Result<Raw, E> {
        Ok(Raw(s.into()))
    }
    fn visit_seq<A: SeqAccess<'a>>(self, mut a: A) -> Result<Raw, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? {
            v.push(x)
        }
        Ok(Raw(v))
    }
}
impl<'a> Deserialize<'a> for Raw {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        if choose(2) == 0 {
            d.deserialize_bytes(RV)
        } else {
            d.deserialize_byte_buf(RV)
        }
    }
}
/// What a visitor of any type is given.
#[derive(PartialEq)]
enum Any {
    U,
    B(bool),
    I(i128),
    F(f64),
    S(String),
    L(Vec<Any>),
    M(Vec<(Any, Any)>),
}
fn any_of(k: u32) -> Option<Any> {
    Some(match k {
        0 => Any::U,
        1 => Any::B(true),
        2 => Any::B(false),
        3 => Any::I(7),
        4 => Any::I(-42),
        5 => Any::F(1.5),
        12 => Any::L(vec![]),
        13 => Any::L(vec![Any::I(7)]),
        14 => Any::M(vec![]),
        15 => Any::M(vec![(Any::S("a".into()), Any::I(7))]),
        16 | 17 | 18 | 21 => return None,
        19 => Any::F(f64::INFINITY),
        20 => Any::S("\u{e9}".into()),
        k => Any::S(["a", "ab", "", "7", "true", "null"][k as usize - 6].into()),
    })
}
struct AnyV;
impl<'a> Visitor<'a> for AnyV {
    type Value = Any;
    fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("any")
    }
    fn visit_unit<E>(self) -> Result<Any, E> {
        Ok(Any::U)
    }
    fn visit_bool<E>(self, b: bool) -> Result<Any, E> {
        Ok(Any::B(b))
    }
    fn visit_i64<E>(self, i: i64) -> Result<Any, E> {
        Ok(Any::I(i as i128))
    }
    fn visit_u64<E>(self, i: u64) -> Result<Any, E> {
        Ok(Any::I(i as i128))
    }
    fn visit_i128<E>(self, i: i128) -> Result<Any, E> {
        Ok(Any::I(i))
    }
    fn visit_f64<E>(self, x: f64) -> Result<Any, E> {
        Ok(Any::F(x))
    }
    fn visit_str<E>(self, s: &str) -> Result<Any, E> {
        Ok(Any::S(s.into()))
    }
    fn visit_seq<A: SeqAccess<'a>>(self, mut s: A) -> Result<Any, A::Error> {
        let mut v = vec![];
        while let Some(x) = s.next_element()? {
            v.push(x)
        }
        Ok(Any::L(v))
    }
    fn visit_map<A: MapAccess<'a>>(self, mut s: A) -> Result<Any, A::Error> {
        let mut v = vec![];
        while let Some(x) = s.next_entry()? {
            v.push(x)
        }
        Ok(Any::M(v))
    }
}
impl<'a> Deserialize<'a> for Any {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(AnyV)
    }
}
#[derive(Deserialize, PartialEq)]
#[serde(untagged)]
enum Un {
    U,
    B(bool),
    N(u8),
    F(f64),
    S(String),
    L(Vec<u8>),
    M { a: u8 },
}
#[derive(Deserialize, PartialEq)]
struct Empty {}
#[derive(Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
struct Deny {
    a: u8,
}
#[derive(Deserialize, PartialEq)]
struct Sa {
    a: u8,
}
#[derive(Deserialize, PartialEq)]
struct Unit;
#[derive(Deserialize, PartialEq)]
struct New(u8);
#[derive(Deserialize, PartialEq)]
enum En {
    #[serde(rename = "a")]
    A,
}
#[derive(Deserialize, PartialEq)]
enum Eb {
    #[serde(rename = "a")]
    A(u8),
}
#[derive(Deserialize, PartialEq)]
enum All {
    U,
    N(u8),
    T(u8, u8),
    S { a: u8, b: u8 },
}
fn int(p: u64) -> N {
    at(Yaml::Int("7".into()), p)
}
fn seq(v: Vec<N>, p: u64) -> N {
    at(v.into_iter().collect(), p)
}
fn map(v: Vec<(N, N)>, p: u64) -> N {
    at(v.into_iter().collect(), p)
}
/// Enum variants in every form, well formed or not.
fn enums() {
    let (p, q, r) = (pos(), pos(), pos());
    assume(p <= q && q <= r);
    let v = choose(5);
    let name = ["U", "N", "T", "S", "X"][v as usize];
    let good = |v: u32| match v {
        0 => All::U,
        1 => All::N(7),
        2 => All::T(7, 7),
        _ => All::S { a: 7, b: 7 },
    };
    let form = choose(12);
    let inner = match form {
        10 => Some(int(r)),
        11 => Some(at(Yaml::Null, r)),
        0 | 1 => None,
        2 => Some(at(Yaml::Null, r)),
        3 => Some(int(r)),
        4 => Some(seq(vec![int(r), int(r)], r)),
        5 => Some(seq(vec![int(r)], r)),
        6 => Some(seq(vec![int(r), int(r), int(r)], r)),
        7 => Some(map(vec![(at(st("a"), r), int(r)), (at(st("b"), r), int(r))], r)),
        8 => Some(map(vec![(at(st("a"), r), int(r))], r)),
        _ => Some(at(st("x"), r)),
    };
    let ok = match (v, form) {
        (0, 0) | (0, 2) => true,
        (1, 3) => true,
        (2, 4) => true,
        // a struct can be given as a sequence, but a struct variant only as a map
        (3, 7) => true,
        _ => false,
    };
    let n = match inner {
        None if form == 1 => map(vec![], p),
        None => at(st(name), p),
        // Two variants are none
        Some(i) if form > 9 => map(vec![(at(st(name), q), i.clone()), (at(st(["N", "U", "Y"][choose(3) as usize]), q), i)], p),
        Some(i) => map(vec![(at(st(name), q), i)], p),
    };
    let one = n.as_map().is_ok_and(|m| m.len() == 1);
    let ok = ok || (form == 10 && v == 1 || form == 11 && v == 0) && one;
    match All::deserialize(n) {
        Ok(x) => {
            cover(1);
            check(ok && v < 4 && x == good(v), 1)
        }
        Err(e) => {
            cover(2);
            check(!ok, 2);
            // the position is the one of the enum, its variant or its content
            check(e.pos == p || (form > 1 && (e.pos == q || e.pos == r)), 3);
            if form > 2 && form < 10 && v == 1 {
                check(e.pos == r, 4)
            }
            if v == 4 && form > 1 && form < 10 {
                check(e.pos == q, 5)
            }
            forget(e)
        }
    }
}
/// The position of an error deep inside of a value.
fn nested() {
    let (p, q, r) = (pos(), pos(), pos());
    assume(p < q && q < r);
    let bad = choose(2) == 1;
    let leaf = if bad {
        match choose(4) {
            0 => at(st("x"), r),
            1 => at(Yaml::Int("256".into()), r),
            2 => at(Yaml::Seq(vec![]), r),
            _ => at(Yaml::Null, r),
        }
    } else {
        int(r)
    };
    let ok = |b: bool, e: Option<&SerdeError>| {
        check(b != bad, 1);
        if let Some(e) = e {
            cover(2);
            check(e.pos == r, 2)
        } else {
            cover(1)
        }
    };
    macro_rules! go {
        ($t:ty, $n:expr, $w:expr) => {
            match <$t>::deserialize($n) {
                Ok(x) => {
                    ok(true, None);
                    check(x == $w, 3);
                    forget(x)
                }
                Err(e) => {
                    ok(false, Some(&e));
                    forget(e)
                }
            }
        };
    }
    let a = |p| at(st("a"), p);
    match choose(8) {
        0 => go!(Vec<u8>, seq(vec![int(q), leaf], p), vec![7, 7]),
        1 => go!(BTreeMap<String, u8>, map(vec![(a(q), leaf)], p), BTreeMap::from([("a".to_string(), 7)])),
        2 => go!(Sa, map(vec![(a(q), leaf)], p), Sa { a: 7 }),
        3 => go!((u8, u8), seq(vec![int(q), leaf], p), (7, 7)),
        4 => go!(Eb, map(vec![(a(q), leaf)], p), Eb::A(7)),
        5 => go!(Vec<Sa>, seq(vec![map(vec![(a(q), leaf)], q)], p), vec![Sa { a: 7 }]),
        6 => go!(BTreeMap<u8, u8>, map(vec![(leaf, int(q))], p), BTreeMap::from([(7, 7)])),
        _ => go!(Vec<New>, seq(vec![leaf], p), vec![New(7)]),
    }
}
#[derive(Deserialize, PartialEq, Debug)]
struct Deep {
    v: u8,
    #[serde(default)]
    n: Vec<Deep>,
}
/// Many entries and deep nesting with one leaf which may be of the wrong type: its position.
fn large() {
    let n = [9usize, 34][choose(2) as usize];
    let k = [0, n / 2, n - 1][choose(3) as usize];
    let r = pos();
    assume(r > 100);
    let c = sym::<1>()[0];
    assume(in_set(c, b"0159ax-"));
    let leaf = match choose(3) {
        0 => at(Yaml::Int(text(vec![b'2', b'5', c])), r),
        1 => at(Yaml::Str(text(vec![c])), r),
        _ => at(Yaml::Null, r),
    };
    let want = match leaf.yaml() {
        Yaml::Int(_) if c == b'0' || c == b'1' || c == b'5' => Some(250 + (c - b'0')),
        _ => None,
    };
    let one = |i: usize| if i == k { leaf.clone() } else { int(i as u64) };
    let w = |i: usize| if i == k { want.unwrap_or(0) } else { 7 };
    let key = |i: usize| at(st(&("k".to_string() + &i.to_string())), i as u64);
    match choose(5) {
        0 => is::<Vec<u8>>(seq((0..n).map(one).collect(), 90), r, want.map(|_| (0..n).map(w).collect()), 1),
        1 => is::<BTreeMap<String, u8>>(map((0..n).map(|i| (key(i), one(i))).collect(), 90), r, want.map(|_| (0..n).map(|i| ("k".to_string() + &i.to_string(), w(i))).collect()), 5),
        2 => is::<Vec<(u8, u8)>>(seq((0..n).map(|i| seq(vec![int(1), one(i)], 80)).collect(), 90), r, want.map(|_| (0..n).map(|i| (7, w(i))).collect()), 9),
        3 => {
            // one inside of the other
            let v = |x| (at(st("v"), 1), x);
            let mut x = map(vec![v(leaf)], 80);
            let mut y = want.map(|v| Deep { v, n: vec![] });
            for _ in 0..k {
                x = map(vec![v(int(2)), (at(st("n"), 3), seq(vec![x], 4))], 5);
                y = y.map(|y| Deep { v: 7, n: vec![y] })
            }
            is::<Deep>(x, r, y, 13)
        }
        _ => {
            // too long for the target
            let p = pos();
            is::<(u8, u8)>(seq((0..n).map(|i| int(i as u64)).collect(), p), p, None, 17);
            forget(leaf)
        }
    }
}
/// Tuples of the wrong length, structs with missing fields.
fn lengths() {
    let (p, q) = (pos(), pos());
    assume(p < q);
    let n = choose(5);
    let mut i = 0;
    let s = seq((0..n).map(|_| int(q)).collect(), p);
    let at_p = |e: SerdeError| {
        cover(2);
        check(e.pos == p, 2);
        forget(e)
    };
    macro_rules! len {
        ($t:ty, $l:expr, $n:expr, $w:expr) => {
            match <$t>::deserialize($n) {
                Ok(x) => {
                    cover(1);
                    check(n == $l && x == $w, 1)
                }
                Err(e) => {
                    check(n != $l, 3);
                    at_p(e)
                }
            }
        };
    }
    match choose(6) {
        0 => len!((u8, u8), 2, s, (7, 7)),
        1 => len!((u8, u8, u8), 3, s, (7, 7, 7)),
        2 => len!([u8; 2], 2, s, [7, 7]),
        3 => len!(Tw, 2, s, Tw(7, 7)),
        4 => len!(Sb, 2, s, Sb { a: 7, b: 7 }),
        _ => {
            // fields a, b, c, d: two are wanted, unknown ones are ignored
            let m = map(
                (0..n)
                    .map(|_| {
                        i += 1;
                        (at(st(["a", "b", "c", "d"][i - 1]), q), int(q))
                    })
                    .collect(),
                p,
            );
            match Sb::deserialize(m) {
                Ok(x) => {
                    cover(1);
                    check(n >= 2 && x == Sb { a: 7, b: 7 }, 4)
                }
                Err(e) => {
                    check(n < 2, 5);
                    at_p(e)
                }
            }
        }
    }
}
#[derive(Deserialize, PartialEq)]
struct Tw(u8, u8);
#[derive(Deserialize, PartialEq)]
struct Sb {
    a: u8,
    b: u8,
}
/// Characters and texts with any content.
fn strings() {
    let b = sym::<2>();
    let l = choose(3) as usize;
    for c in b {
        assume(c < 128)
    }
    let s = text(b[..l].to_vec());
    let p = pos();
    let kind = choose(2);
    let n = at(if kind == 0 { Yaml::Str(s.clone()) } else { Yaml::Int(s.clone()) }, p);
    match choose(4) {
        0 => is::<char>(n, p, if l == 1 { Some(b[0] as char) } else { None }, 10),
        1 => is::<String>(n, p, Some(s), 20),
        2 if kind == 0 => is::<u8>(n, p, None, 30),
        3 if kind == 0 => is::<bool>(n, p, None, 40),
        _ => {}
    }
}
/// A number text that means nothing is an error.
fn garbage<const L: usize>() {
    let b = sym::<L>();
    for c in b {
        assume(c >= 32 && c < 127)
    }
    assume(!in_set(b[0], b"0123456789+-") || !in_set(b[L - 1], b"0123456789"));
    let p = pos();
    let n = at(Yaml::Int(text(b.to_vec())), p);
    match choose(3) {
        0 => is::<i8>(n, p, None, 10),
        1 => is::<u64>(n, p, None, 20),
        _ => is::<i128>(n, p, None, 30),
    }
}
/// Floats: the nearest value of the target, infinities only for infinities.
fn floats() {
    let p = pos();
    let v = ["0.1", "1e38", "3.4028235e38", "3.4028236e38", "1e39", "-1e39", "1e308", "1e309", "inf", "-inf", "16777217", "1e-50", "-0", "1.17549429e-38"];
    let k = choose(v.len() as u32) as usize;
    let n = at(Yaml::Float(v[k].into()), p);
    if choose(2) == 0 {
        let w: [Option<f32>; 14] = [
            Some(0.1),
            Some(1e38),
            Some(f32::MAX),
            None,
            None,
            None,
            None,
            Some(f32::INFINITY),
            Some(f32::INFINITY),
            Some(f32::NEG_INFINITY),
            Some(16777216.),
            Some(0.),
            Some(-0.),
            Some(1.17549429e-38),
        ];
        if k != 3 {
            is::<f32>(n, p, w[k], 10)
        }
    } else {
        let w = [0.1, 1e38, 3.4028235e38, 3.4028236e38, 1e39, -1e39, 1e308, f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, 16777217., 1e-50, -0., 1.17549429e-38];
        is::<f64>(n, p, Some(w[k]), 20)
    }
}
/// From text: the position is the one in the document.
fn docs() {
    let b = sym::<2>();
    for c in b {
        assume(in_set(c, b"012 9a-~\"[]"))
    }
    let pre = ["", "- 1\n- ", "- 1\n-   ", "[1, "][choose(4) as usize];
    let post = if pre.starts_with('[') { "]" } else { "\n" };
    let mut d = pre.as_bytes().to_vec();
    d.extend_from_slice(&b);
    d.extend_from_slice(post.as_bytes());
    let d = text(d);
    if pre.is_empty() {
        if let (Ok(v), r) = (parse::<RcRepr>(&d), yaml_peg::serde::from_str::<u8>(&d)) {
            one(&v[0], r.map(|x| x[0]))
        }
    } else if let (Ok(v), r) = (parse::<RcRepr>(&d), yaml_peg::serde::from_str::<(u8, u8)>(&d)) {
        if let Yaml::Seq(s) = v[0].yaml() {
            if s.len() == 2 {
                one(&s[1], r.map(|x| x[0].1))
            }
        }
    }
}
fn one(n: &N, r: Result<u8, SerdeError>) {
    match r {
        Ok(x) => {
            cover(1);
            check(n.as_int() == Ok(x as i64), 1)
        }
        Err(e) => {
            cover(2);
            check(!n.as_int().is_ok_and(|i| i >= 0 && i < 256), 2);
            check(e.pos == n.pos(), 3);
            forget(e)
        }
    }
}
harness! {
    c09_i1 => ints("", 1);
    c09_i2 => ints("", 2);
    c09_i3 => ints("", 3);
    c09_e1 => ends(1);
    c09_e2 => ends(2);
    c09_r => radix();
    c09_k => kinds();
    c09_en => enums();
    c09_ne => nested();
    c09_lg => large();
    c09_le => lengths();
    c09_s => strings();
    c09_g1 => garbage::<1>();
    c09_g2 => garbage::<2>();
    c09_f => floats();
    c09_d => docs();
}
