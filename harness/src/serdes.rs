//! Rust values of every serde kind, with symbolic content, handed to `go`.
use super::super::util::*;
use serde::de::{DeserializeOwned, MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;

pub trait Go {
    fn go<T: Serialize + DeserializeOwned>(&self, v: T, same: fn(&T, &T) -> bool);
    fn eq<T: Serialize + DeserializeOwned + PartialEq>(&self, v: T) {
        self.go(v, |a, b| a == b)
    }
}

pub fn word<const L: usize>(set: &[u8]) -> String {
    let b = sym::<L>();
    for c in b {
        if set.is_empty() {
            assume(c >= 32 && c < 127 || c == b'\n' || c == b'\t' || c == b'\r');
        } else {
            assume(in_set(c, set));
        }
    }
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}

/// Integers: the narrow types in full, the wide ones around zero and both extremes.
pub fn ints(g: &impl Go) {
    let o = |n: u32| choose(n);
    match o(10) {
        0 => g.eq(sym::<1>()[0]),
        1 => g.eq(sym::<1>()[0] as i8),
        2 => {
            let x = u16::from_le_bytes(sym::<2>());
            assume(x < 12 || x > 94 && x < 106 || x > 995 && x < 1004 || x > 9995 && x < 10003 || x > 65529);
            g.eq(x)
        }
        3 => {
            let x = i16::from_le_bytes(sym::<2>());
            assume(x < -32760 || x > 32760 || x > -12 && x < 2 || x < -96 && x > -102);
            g.eq(x)
        }
        4 => g.eq([i32::MIN, i32::MIN + 1, -1, 0, 1, 9, 10, i32::MAX - 1, i32::MAX][o(9) as usize]),
        5 => g.eq([u32::MAX, u32::MAX - 1, 0, 1, i32::MAX as u32 + 1][o(5) as usize]),
        6 => g.eq([i64::MIN, i64::MIN + 1, -1, 0, i64::MAX - 1, i64::MAX][o(6) as usize]),
        7 => g.eq([u64::MAX, u64::MAX - 1, 0, i64::MAX as u64, i64::MAX as u64 + 1][o(5) as usize]),
        8 => g.eq([i128::MIN, i128::MIN + 1, -1, 0, i128::MAX, u64::MAX as i128 + 1, i64::MIN as i128 - 1][o(7) as usize]),
        _ => g.eq([u128::MAX, u128::MAX - 1, 0, i128::MAX as u128, i128::MAX as u128 + 1][o(5) as usize]),
    }
}
/// Floats of all magnitudes, infinities, zeros of either sign, NaN; truth values.
pub fn floats(g: &impl Go) {
    match choose(3) {
        0 => {
            let v = [0f32, -0., 1., -1.5, 0.1, 1e-7, 1e10, 16777216., 16777217e3, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 3.4028233e38, 100.];
            g.go(v[choose(18) as usize], |a, b| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan())
        }
        1 => {
            let v = [0f64, -0., 1., -1.5, 0.1, 1e-7, 1e10, 9007199254740993., 123456789012345680., f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e21, 1e16, 10.];
            g.go(v[choose(19) as usize], |a, b| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan())
        }
        _ => g.eq(choose(2) == 1),
    }
}
/// Every kind of character by encoded length.
pub fn chars(g: &impl Go, ascii: bool) {
    if ascii {
        let c = sym::<1>()[0];
        assume(c < 128);
        g.eq(c as char)
    } else {
        let k = choose(3);
        let x = u32::from_le_bytes(sym::<4>());
        assume(match k {
            0 => x >= 0x80 && x < 0x800,
            1 => x >= 0x800 && x < 0xd800,
            _ => x > 0xffff && x <= 0x10ffff,
        });
        if let Some(c) = char::from_u32(x) {
            g.eq(c)
        }
    }
}
pub fn strings<const L: usize>(g: &impl Go, set: &[u8], kinds: u32) {
    let s = word::<L>(set);
    match choose(kinds) {
        0 => g.eq(s),
        1 => g.eq(vec![s, "z".into()]),
        2 => g.eq(BTreeMap::from([(s, 1u8)])),
        3 => g.eq(Flat { a: 1, b: s, c: Some(false) }),
        4 => g.eq(En::New(s)),
        5 => g.eq(Some(s)),
        6 => g.eq(vec![vec![s]]),
        _ => g.eq(BTreeMap::from([("k".to_string(), BTreeMap::from([("l".to_string(), vec![s])]))])),
    }
}

#[derive(Serialize, Deserialize, PartialEq)]
pub struct Flat {
    a: u8,
    b: String,
    c: Option<bool>,
}
#[derive(Serialize, Deserialize, PartialEq)]
pub struct Deep {
    x: Vec<Flat>,
    #[serde(rename = "a key: #1")]
    y: BTreeMap<String, Flat>,
    z: (i8, Vec<i8>, Un),
}
#[derive(Serialize, Deserialize, PartialEq)]
pub struct Un;
#[derive(Serialize, Deserialize, PartialEq)]
pub struct Nt(i8);
#[derive(Serialize, Deserialize, PartialEq)]
pub struct Tu(i8, String);
#[derive(Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Key {
    One,
    #[serde(rename = "true")]
    Two,
    #[serde(rename = "1")]
    Three,
    #[serde(rename = "null")]
    Four,
    #[serde(rename = "- a: b")]
    Five,
}
#[derive(Serialize, Deserialize, PartialEq)]
pub enum En {
    Unit,
    #[serde(rename = "false")]
    Unit2,
    New(String),
    New2(Vec<i8>),
    NewU(()),
    NewE(Box<En>),
    Tup(i8, String),
    Tup2(Vec<u8>, Option<i8>),
    Stru { a: i8, b: String },
    Emp {},
}
#[derive(PartialEq)]
pub struct Bytes(Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
struct BV;
impl<'a> Visitor<'a> for BV {
    type Value = Bytes;
    fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("bytes")
    }
    fn visit_seq<A: SeqAccess<'a>>(self, mut s: A) -> Result<Bytes, A::Error> {
        let mut v = vec![];
        while let Some(x) = s.next_element()? {
            v.push(x)
        }
        Ok(Bytes(v))
    }
}
impl<'a> Deserialize<'a> for Bytes {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        if choose(2) == 0 {
            d.deserialize_bytes(BV)
        } else {
            d.deserialize_byte_buf(BV)
        }
    }
}
fn i() -> i8 {
    let x = sym::<1>()[0] as i8;
    assume(x >= -10 && x < 100);
    x
}
fn st() -> String {
    word::<1>(b"a1- ~")
}
fn en(k: u32) -> En {
    match k {
        0 => En::Unit,
        1 => En::Unit2,
        2 => En::New(st()),
        3 => En::New2((0..choose(3)).map(|_| i()).collect()),
        4 => En::NewU(()),
        5 => En::NewE(Box::new(en(choose(5)))),
        6 => En::Tup(i(), st()),
        7 => En::Tup2((0..choose(3)).map(|x| x as u8).collect(), if choose(2) == 0 { None } else { Some(i()) }),
        8 => En::Stru { a: i(), b: st() },
        _ => En::Emp {},
    }
}
fn key(k: u32) -> Key {
    [Key::One, Key::Two, Key::Three, Key::Four, Key::Five].into_iter().nth(k as usize).unwrap()
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if choose(2) == 0 {
        None
    } else {
        Some(f())
    }
}
fn flat() -> Flat {
    Flat { a: 7, b: st(), c: opt(|| true) }
}
pub fn enums(g: &impl Go) {
    match choose(6) {
        0 => g.eq(en(choose(10))),
        1 => g.eq(vec![En::Unit, en(choose(10)), En::Unit2]),
        2 => g.eq(BTreeMap::from([("k".to_string(), en(choose(10)))])),
        3 => g.eq(BTreeMap::from([(key(choose(5)), i())])),
        4 => g.eq(vec![vec![en(choose(10))], vec![]]),
        _ => g.eq((En::NewE(Box::new(en(choose(10)))), key(choose(5)))),
    }
}
pub fn containers(g: &impl Go) {
    match choose(16) {
        0 => g.eq(()),
        1 => g.eq(Un),
        2 => g.eq(Nt(i())),
        3 => g.eq(Tu(i(), st())),
        4 => g.eq(opt(i)),
        5 => g.eq(opt(st)),
        6 => g.eq((i(), st(), true, ())),
        7 => g.eq((0..choose(4)).map(|_| i()).collect::<Vec<_>>()),
        8 => g.eq((0..choose(3)).map(|_| (0..choose(3)).map(|_| st()).collect::<Vec<_>>()).collect::<Vec<_>>()),
        9 => g.eq(BTreeMap::from([(i(), st()), (100, "x".into())])),
        10 => g.eq(BTreeMap::from([(true, i()), (false, 1)])),
        11 => g.eq(BTreeMap::from([((1u8, st()), vec![i()]), ((2, "b".into()), vec![])])),
        12 => g.eq(Bytes((0..choose(3)).map(|_| sym::<1>()[0]).collect())),
        13 => g.eq(flat()),
        14 => g.eq(vec![opt(i), opt(i)]),
        _ => g.eq(BTreeMap::<String, Vec<BTreeMap<String, i8>>>::from([("a".into(), vec![]), ("b".into(), vec![BTreeMap::new(), BTreeMap::from([("c".into(), i())])])])),
    }
}
pub fn deep(g: &impl Go) {
    let fl = |b: bool| Flat { a: 7, b: if b { st() } else { "x".into() }, c: opt(|| true) };
    let x = (0..choose(3)).map(|k| fl(k == 1)).collect();
    let mut y = BTreeMap::new();
    for k in ["k", "- l"].iter().take(choose(3) as usize) {
        y.insert(k.to_string(), fl(false));
    }
    let z = (3, (0..choose(3)).map(|x| x as i8).collect(), Un);
    g.eq(Deep { x, y, z })
}
/// What is there but empty is not what is not there.
pub fn options(g: &impl Go) {
    match choose(14) {
        0 => g.eq(opt(String::new)),
        1 => g.eq(opt(|| (0..choose(3)).map(|_| i()).collect::<Vec<_>>())),
        2 => g.eq(opt(|| BTreeMap::from_iter((0..choose(3) as u8).map(|k| (k, st()))))),
        3 => g.eq(opt(|| Emp {})),
        4 => g.eq(opt(|| All { a: opt(String::new), b: opt(Vec::new), c: opt(BTreeMap::new), d: opt(|| false) })),
        5 => g.eq(All { a: opt(st), b: opt(|| vec![opt(i)]), c: opt(|| BTreeMap::from([(st(), opt(|| 0))])), d: opt(|| choose(2) == 1) }),
        6 => g.eq(opt(|| 0u8)),
        7 => g.eq(opt(|| false)),
        8 => g.eq(opt(|| '~')),
        9 => g.eq(opt(|| "null".to_string())),
        10 => g.eq(vec![opt(|| vec![opt(|| Vec::<u8>::new())])]),
        11 => g.eq(opt(|| en(choose(10)))),
        12 => g.eq(BTreeMap::from([("".to_string(), opt(String::new)), ("k".into(), opt(|| "~".into()))])),
        _ => g.eq((opt(String::new), opt(|| [0u8; 0]), opt(|| (1u8,)))),
    }
}
#[derive(Serialize, Deserialize, PartialEq)]
pub struct Emp {}
#[derive(Serialize, Deserialize, PartialEq)]
pub struct All {
    a: Option<String>,
    b: Option<Vec<Option<i8>>>,
    c: Option<BTreeMap<String, Option<u8>>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    d: Option<bool>,
}
#[derive(Serialize, Deserialize, PartialEq)]
pub struct Whole {
    a: i8,
    #[serde(flatten)]
    r: Rest,
    z: u8,
}
#[derive(Serialize, Deserialize, PartialEq)]
pub struct Rest {
    b: Option<String>,
    c: Vec<i8>,
    d: f32,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(tag = "t")]
pub enum Inter {
    A { x: i8 },
    B,
    C(Flat),
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(tag = "t", content = "c")]
pub enum Adja {
    A(i8),
    B,
    C { x: String },
    D(u8, String),
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(untagged)]
pub enum Untag {
    U,
    B(bool),
    N(i8),
    F(f64),
    S(String),
    L(Vec<i8>),
    M { a: i8, b: String },
}
/// Enums in all their representations, flattened structs.
pub fn tagged(g: &impl Go) {
    match choose(15) {
        0 => g.eq(Whole { a: i(), r: Rest { b: opt(st), c: (0..choose(3)).map(|_| i()).collect(), d: [0., -1.5][choose(2) as usize] }, z: 3 }),
        1 => g.eq(Inter::A { x: i() }),
        2 => g.eq(vec![Inter::B, Inter::C(flat())]),
        3 => g.eq(Adja::A(i())),
        4 => g.eq(Adja::B),
        5 => g.eq(BTreeMap::from([(st(), Adja::C { x: st() })])),
        6 => g.eq(vec![Adja::D(4, st()), Adja::B]),
        7 => g.eq(Untag::U),
        8 => g.eq(vec![Untag::B(choose(2) == 1), Untag::U]),
        9 => g.eq(Untag::N(i())),
        10 => g.eq(Untag::F([0.5, -1e300, f64::INFINITY][choose(3) as usize])),
        11 => g.eq(vec![Untag::S(st()), Untag::N(1)]),
        12 => g.eq(BTreeMap::from([(1u8, Untag::L((0..choose(3)).map(|_| i()).collect()))])),
        13 => g.eq(Untag::M { a: i(), b: st() }),
        _ => {
            let r: Result<i8, String> = if choose(2) == 0 { Ok(i()) } else { Err(st()) };
            g.eq(r)
        }
    }
}
#[derive(Serialize, Deserialize, PartialEq)]
pub struct Many {
    f0: i8,
    f1: String,
    f2: Vec<u8>,
    f3: Option<String>,
    f4: bool,
    f5: (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
    f6: u64,
    f7: char,
    f8: f64,
    f9: BTreeMap<u8, u8>,
    f10: String,
    f11: Vec<String>,
    f12: (),
    a_rather_long_name_of_a_field_which_does_not_fit_in_a_line_of_eighty_columns_with_its_value: String,
}
/// Long strings, many entries, deep nesting.
pub fn big(g: &impl Go) {
    let size = || [9usize, 33, 70][choose(3) as usize];
    match choose(14) {
        0 | 1 => {
            // A character somewhere in a long text of words or lines
            let (n, unit) = (size(), ["a", "ab cd ", "ab\n", "  a\n\n", "\u{e9}", "1", "'", "- "][choose(8) as usize]);
            let at = choose(3);
            let w = word::<1>(&[]);
            let s = match at {
                0 => w + &unit.repeat(n),
                1 => unit.repeat(n / 2) + &w + &unit.repeat(n - n / 2),
                _ => unit.repeat(n) + &w,
            };
            match choose(5) {
                0 => g.eq(s),
                1 => g.eq(vec![s, "z".into()]),
                2 => g.eq(BTreeMap::from([(s, 1u8)])),
                3 => g.eq(BTreeMap::from([(1u8, vec![En::New(s)])])),
                _ => g.eq(Flat { a: 1, b: s, c: Some(false) }),
            }
        }
        2 => {
            let n = size();
            let x = i();
            g.eq((0..n).map(|k| if k == n / 2 { x } else { k as i8 }).collect::<Vec<_>>())
        }
        3 => {
            let n = size();
            let s = st();
            g.eq((0..n).map(|k| if k + 1 == n { s.clone() } else { k.to_string() }).collect::<Vec<_>>())
        }
        4 => {
            let n = size();
            let s = st();
            g.eq(BTreeMap::from_iter((0..n as u8).map(|k| (k, if k == 7 { s.clone() } else { String::new() }))))
        }
        5 => {
            let n = size();
            let s = st();
            g.eq(BTreeMap::from_iter((0..n).map(|k| (format!("key {k}"), vec![s.clone()]))))
        }
        6 => {
            let v = vec![st()];
            g.eq(vec![vec![vec![vec![vec![vec![vec![vec![vec![v, vec![]]]]]]]]]])
        }
        7 => {
            let mut e = en(choose(10));
            for _ in 0..size().min(33) {
                e = En::NewE(Box::new(e))
            }
            g.eq(e)
        }
        8 => {
            let mut t = Tree { v: st(), n: vec![] };
            for k in 0..size().min(33) {
                let side = Tree { v: String::new(), n: vec![] };
                t = Tree { v: k.to_string(), n: if k % 3 == 0 { vec![side, t] } else { vec![t] } }
            }
            g.eq(t)
        }
        9 => g.eq(Bytes((0..=255).collect())),
        10 => {
            let s = st();
            g.eq((0..size()).map(|k| if k % 2 == 0 { En::Unit } else { En::Stru { a: 1, b: s.clone() } }).collect::<Vec<_>>())
        }
        11 => g.eq((0..size()).map(|_| flat0()).collect::<Vec<_>>()),
        12 => g.eq(BTreeMap::from_iter((0..size() as u32).map(|k| ((k, vec![k; 2]), k)))),
        _ => g.eq(Many {
            f0: i(),
            f1: st(),
            f2: (0..40).collect(),
            f3: opt(st),
            f4: choose(2) == 1,
            f5: (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12),
            f6: u64::MAX,
            f7: 'x',
            f8: 0.1,
            f9: BTreeMap::from_iter((0..12).map(|k| (k, k))),
            f10: "a".repeat(100),
            f11: vec!["b c".repeat(30); 3],
            f12: (),
            a_rather_long_name_of_a_field_which_does_not_fit_in_a_line_of_eighty_columns_with_its_value: st(),
        }),
    }
}
fn flat0() -> Flat {
    Flat { a: 7, b: "x".into(), c: None }
}
#[derive(Serialize, Deserialize, PartialEq)]
pub struct Tree {
    v: String,
    n: Vec<Tree>,
}

/// Pairs and items which are written and read one by one, keys apart from values, without a length.
pub struct Pairs(Vec<(String, i8)>);
impl Serialize for Pairs {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        for (k, v) in &self.0 {
            m.serialize_key(k)?;
            m.serialize_value(v)?
        }
        m.end()
    }
}
struct PV;
impl<'a> Visitor<'a> for PV {
    type Value = Pairs;
    fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("pairs")
    }
    fn visit_map<A: MapAccess<'a>>(self, mut a: A) -> Result<Pairs, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key()? {
            v.push((k, a.next_value()?))
        }
        Ok(Pairs(v))
    }
}
impl<'a> Deserialize<'a> for Pairs {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_map(PV)
    }
}
/// Anything, as the format says what it is.
#[derive(PartialEq)]
pub enum Any {
    U,
    B(bool),
    I(i64),
    F(f64),
    S(String),
    L(Vec<Any>),
    M(Vec<(Any, Any)>),
}
impl Serialize for Any {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Any::U => s.serialize_unit(),
            Any::B(b) => s.serialize_bool(*b),
            Any::I(i) => s.serialize_i64(*i),
            Any::F(f) => s.serialize_f64(*f),
            Any::S(t) => s.collect_str(t),
            Any::L(v) => {
                let mut q = s.serialize_seq(None)?;
                for x in v {
                    q.serialize_element(x)?
                }
                q.end()
            }
            Any::M(v) => s.collect_map(v.iter().map(|(k, v)| (k, v))),
        }
    }
}
struct AV;
impl<'a> Visitor<'a> for AV {
    type Value = Any;
    fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("anything")
    }
    fn visit_unit<E>(self) -> Result<Any, E> {
        Ok(Any::U)
    }
    fn visit_bool<E>(self, b: bool) -> Result<Any, E> {
        Ok(Any::B(b))
    }
    fn visit_i64<E>(self, i: i64) -> Result<Any, E> {
        Ok(Any::I(i))
    }
    fn visit_u64<E>(self, i: u64) -> Result<Any, E> {
        Ok(Any::I(i as i64))
    }
    fn visit_f64<E>(self, f: f64) -> Result<Any, E> {
        Ok(Any::F(f))
    }
    fn visit_str<E>(self, s: &str) -> Result<Any, E> {
        Ok(Any::S(s.into()))
    }
    fn visit_seq<A: SeqAccess<'a>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? {
            v.push(x)
        }
        Ok(Any::L(v))
    }
    fn visit_map<A: MapAccess<'a>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_entry()? {
            v.push(x)
        }
        Ok(Any::M(v))
    }
}
impl<'a> Deserialize<'a> for Any {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(AV)
    }
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "kebab-case")]
pub struct Attrs {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    may_be: Option<i8>,
    #[serde(rename = "b: #c")]
    b: String,
    #[serde(default)]
    c_d: u8,
    #[serde(skip)]
    e: u8,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    list: Vec<String>,
}
/// Hand-written and attributed implementations.
pub fn manual(g: &impl Go) {
    match choose(9) {
        0 => {
            let n = choose(4);
            let mut v: Vec<(String, i8)> = (0..n).map(|k| (k.to_string(), k as i8)).collect();
            if n > 1 {
                v[1] = (st() + "x", i())
            }
            g.go(Pairs(v), |a, b| a.0 == b.0)
        }
        1 => g.go(vec![Pairs(vec![]), Pairs(vec![("".into(), i()), (st() + "y", 2)])], |a, b| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0)),
        2 => g.eq(Any::L(vec![Any::U, Any::B(choose(2) == 1), Any::I(i() as i64), Any::F([0.5, -1e300, f64::INFINITY, 0.][choose(4) as usize]), Any::S(st())])),
        3 => g.eq(Any::M(vec![(Any::S(st()), Any::L(vec![])), (Any::I(i() as i64), Any::M(vec![])), (Any::U, Any::U), (Any::L(vec![Any::U]), Any::B(true))])),
        4 => g.eq(Any::I([i64::MIN, i64::MAX, i64::MIN + 1, 1 << 53, 0, -1][choose(6) as usize])),
        5 => g.eq(Any::M(vec![(Any::M(vec![(Any::S(st()), Any::U)]), Any::M(vec![(Any::U, Any::S(st()))]))])),
        6 => g.eq(Attrs { may_be: opt(i), b: st(), c_d: 3, e: 0, list: (0..choose(3)).map(|_| st()).collect() }),
        7 => g.eq(BTreeMap::from([(st(), vec![Attrs { may_be: opt(i), b: st(), c_d: 0, e: 0, list: vec![] }])])),
        _ => g.eq(Any::S(st() + "\n- '" + &st())),
    }
}
