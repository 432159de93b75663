use super::util::*;
use serde::{Deserialize, Serialize};
use yaml_peg::repr::*;
use yaml_peg::serde::{from_str, to_node, InlineList, Optional, Stringify};
use yaml_peg::{Node, NodeArc, NodeRc};

/// A value of a field.
#[derive(Clone, PartialEq)]
enum V {
    Null,
    Bool(bool),
    Int(i64),
    /// A float, its text in the document and its text as a string.
    Float(&'static str, &'static str),
    Str(String),
    List(Vec<V>),
    /// A map with the key `a`.
    Map(Box<V>),
}
const FLOATS: [(&str, &str); 12] = [
    ("1.5", "1.5"),
    ("0.1", "0.1"),
    ("-2.25", "-2.25"),
    ("3.141592653589793", "3.141592653589793"),
    ("16777217.5", "16777217.5"),
    (".inf", "inf"),
    ("-.inf", "-inf"),
    (".nan", "NaN"),
    ("0.30000000000000004", "0.30000000000000004"),
    ("100.25", "100.25"),
    ("123456789.0", "123456789"),
    ("-0.001", "-0.001"),
];
const INTS: [i64; 14] = [0, -1, 7, 2147483647, 2147483648, -2147483648, -2147483649, 4294967296, 16777217, 9007199254740993, i64::MAX, i64::MIN, 10000000000, -5];
fn word() -> String {
    let b = sym::<2>();
    for c in b {
        assume(in_set(c, b"bcdghjkmpqrtuvwxyzBCDGHJKMPQRTUVWXYZ$%/()_"))
    }
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// Any value; the text of it, in one line.
fn any(text: &mut String, deep: u32) -> V {
    value(text, deep, true)
}
fn value(text: &mut String, deep: u32, rich: bool) -> V {
    match choose(if deep > 0 { 8 } else { 6 }) {
        0 => {
            let i = if rich { choose(15) as usize } else { [13, 7][choose(2) as usize] };
            let n = if i < 14 {
                INTS[i]
            } else {
                let c = sym::<2>();
                assume(c[0] >= b'1' && c[0] <= b'9' && c[1] >= b'0' && c[1] <= b'9');
                text.push(c[0] as char);
                text.push(c[1] as char);
                return V::Int((c[0] - b'0') as i64 * 10 + (c[1] - b'0') as i64);
            };
            text.push_str(&n.to_string());
            V::Int(n)
        }
        1 => {
            let q = rich && choose(2) == 1;
            let w = word();
            if q {
                text.push('"')
            }
            text.push_str(&w);
            if q {
                text.push('"')
            }
            V::Str(w)
        }
        2 => {
            let b = choose(2) == 1;
            text.push_str(if b { "true" } else { "false" });
            V::Bool(b)
        }
        3 => {
            text.push_str("null");
            V::Null
        }
        4 => {
            let f = FLOATS[if rich { choose(12) as usize } else { 0 }];
            text.push_str(f.0);
            V::Float(f.0, f.1)
        }
        5 => {
            let s = ["12", "true", "null", "1.5", "", "[a]", "~"][if rich { choose(7) as usize } else { 0 }];
            text.push('\'');
            text.push_str(s);
            text.push('\'');
            V::Str(s.into())
        }
        6 => {
            let n = choose(if rich { 3 } else { 2 });
            let mut v = vec![];
            text.push('[');
            for _ in 0..n {
                v.push(value(text, deep - 1, false));
                text.push_str(", ");
            }
            text.push(']');
            V::List(v)
        }
        _ => {
            text.push_str("{a: ");
            let v = value(text, deep - 1, false);
            text.push('}');
            V::Map(Box::new(v))
        }
    }
}
/// A list which may be taken for the fields of a struct.
fn fields(v: &V) -> bool {
    match v {
        V::List(l) => l.len() == 1 && matches!(l[0], V::Int(_)) || l.iter().any(fields),
        V::Map(v) => fields(v),
        _ => false,
    }
}
/// Types of items.
trait Item: Sized + Serialize + for<'a> Deserialize<'a> {
    const FIELDS: bool = false;
    fn of(v: &V) -> Option<Self>;
    fn is(&self, v: &V) -> bool;
    fn other() -> V {
        V::Int(123)
    }
}
impl Item for i64 {
    fn of(v: &V) -> Option<Self> {
        match v {
            V::Int(n) => Some(*n),
            _ => None,
        }
    }
    fn is(&self, v: &V) -> bool {
        *v == V::Int(*self)
    }
}
impl Item for u8 {
    fn of(v: &V) -> Option<Self> {
        match v {
            V::Int(n) if *n >= 0 && *n < 256 => Some(*n as u8),
            _ => None,
        }
    }
    fn is(&self, v: &V) -> bool {
        *v == V::Int(*self as i64)
    }
}
impl Item for String {
    fn of(v: &V) -> Option<Self> {
        match v {
            V::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    fn is(&self, v: &V) -> bool {
        matches!(v, V::Str(s) if s == self)
    }
    fn other() -> V {
        V::Str("other".into())
    }
}
#[derive(Serialize, Deserialize, PartialEq)]
struct S {
    a: i64,
}
impl Default for S {
    fn default() -> Self {
        S { a: -77 }
    }
}
impl Item for S {
    const FIELDS: bool = true;
    fn of(v: &V) -> Option<Self> {
        match v {
            V::Map(v) => Some(S { a: i64::of(v)? }),
            _ => None,
        }
    }
    fn is(&self, v: &V) -> bool {
        matches!(v, V::Map(v) if self.a.is(v))
    }
    fn other() -> V {
        V::Map(Box::new(V::Int(123)))
    }
}
impl Item for Option<String> {
    fn of(v: &V) -> Option<Self> {
        match v {
            V::Null => Some(None),
            V::Str(s) => Some(Some(s.clone())),
            _ => None,
        }
    }
    fn is(&self, v: &V) -> bool {
        match (self, v) {
            (None, V::Null) => true,
            (Some(s), V::Str(t)) => s == t,
            _ => false,
        }
    }
}
#[derive(Serialize, Deserialize)]
struct F<T> {
    f: T,
}
fn read<T: for<'a> Deserialize<'a>>(text: &str) -> Option<T> {
    // Through a document, or a node of either kind
    match choose(3) {
        0 => from_str::<F<T>>(text).ok()?.into_iter().next().map(|f| f.f),
        1 => {
            let n: Vec<NodeRc> = yaml_peg::parse(text).ok()?;
            F::<T>::deserialize(n[0].clone()).ok().map(|f| f.f)
        }
        _ => {
            let n: Vec<NodeArc> = yaml_peg::parse(text).ok()?;
            F::<T>::deserialize(n[0].clone()).ok().map(|f| f.f)
        }
    }
}
fn node<R: Repr>(n: &Node<R>, v: &V) -> bool {
    use yaml_peg::Yaml;
    match (n.yaml(), v) {
        (Yaml::Null, V::Null) => true,
        (Yaml::Bool(a), V::Bool(b)) => a == b,
        (Yaml::Int(s), V::Int(n)) => *s == n.to_string(),
        (Yaml::Str(s), V::Str(t)) => s == t,
        (Yaml::Seq(s), V::List(t)) => s.len() == t.len() && s.iter().zip(t).all(|(n, t)| node(n, t)),
        (Yaml::Map(m), V::Map(v)) => m.len() == 1 && m.iter().all(|(k, w)| matches!(k.yaml(), Yaml::Str(s) if s == "a") && node(w, v)),
        _ => false,
    }
}
fn list<T: Item>(deep: u32) {
    let mut text = String::from("f: ");
    let v = any(&mut text, deep);
    assume(!T::FIELDS || !fields(&v));
    let want: Option<Vec<T>> = match &v {
        V::List(l) => l.iter().map(T::of).collect(),
        v => T::of(v).map(|t| vec![t]),
    };
    let r = read::<InlineList<T>>(&text);
    check(r.is_some() == want.is_some(), 1);
    if let (Some(l), Some(w)) = (r, want) {
        let single = [v.clone()];
        let items: &[V] = match &v {
            V::List(l) => l,
            _ => &single,
        };
        check(l.len() == w.len() && l.is_empty() == (w.len() == 0) && l.is_single() == (w.len() == 1), 2);
        check(matches!(l, InlineList::List(_)) == matches!(v, V::List(_)), 3);
        check(l.iter().count() == w.len() && l.iter().zip(items).all(|(t, v)| t.is(v)), 4);
        // Written in the form it was read in
        check(to_node(&l).is_ok_and(|n| node(&n, &v)), 5);
        let l: Vec<T> = l.into_iter().collect();
        check(l.len() == items.len() && l.iter().zip(items).all(|(t, v)| t.is(v)), 6);
        cover(1)
    } else {
        cover(2)
    }
}
fn opt<T: Item + Default + PartialEq>(deep: u32) {
    let mut text = String::from("f: ");
    let v = any(&mut text, deep);
    assume(!T::FIELDS || !fields(&v));
    let r = read::<Optional<T>>(&text);
    let on = match &v {
        V::Bool(b) => Some(*b),
        _ => None,
    };
    let some = T::of(&v);
    check(r.is_some() == (on.is_some() || some.is_some()), 7);
    let o = match r {
        Some(o) => o,
        None => return cover(2),
    };
    check(to_node(&o).is_ok_and(|n| node(&n, &v)), 8);
    let own = some.unwrap_or_default();
    let d = T::of(&T::other()).unwrap();
    let (mut n, mut m) = (0, 0);
    o.ok(|t| {
        n += 1;
        check(*t == own, 9)
    });
    check(n == (on != Some(false)) as u32, 10);
    let want = if on.is_some() { &d } else { &own };
    o.ok_instead(
        |t| {
            m += 1;
            check(t == want, 11)
        },
        &d,
    );
    check(m == n, 12);
    // Either callback is called once at most, and only one of them
    let (mut k, mut l) = (0, 0);
    let r = o.ok_or(
        |t| {
            k += 1;
            if *t == own {
                1
            } else {
                2
            }
        },
        || {
            l += 1;
            0
        },
    );
    check(r == n && k == n && l == 1 - n, 13);
    let (mut k, mut l) = (0, 0);
    let r = o.ok_or_instead(
        |t| {
            k += 1;
            if t == want {
                1
            } else {
                2
            }
        },
        &d,
        || {
            l += 1;
            0
        },
    );
    check(r == n && k == n && l == 1 - n, 14);
    cover(1)
}
fn text(deep: u32) {
    let mut text = String::from("f: ");
    let v = any(&mut text, deep);
    let want = match &v {
        V::Bool(b) => Some(if *b { "true".into() } else { "false".into() }),
        V::Int(n) => Some(n.to_string()),
        V::Float(_, t) => Some(t.to_string()),
        V::Str(s) => Some(s.clone()),
        _ => None,
    };
    let r = read::<Stringify>(&text);
    check(r.is_some() == want.is_some(), 15);
    if let (Some(r), Some(w)) = (r, want) {
        check(r.to_string() == w, 16);
        cover(1)
    } else {
        cover(2)
    }
}
/// Many items, long strings.
fn large() {
    let n = [9usize, 40][choose(2) as usize];
    let at = [0, n / 2, n - 1][choose(3) as usize];
    let c = sym::<2>();
    match choose(5) {
        k @ 0..=2 => {
            assume(c[0] >= b'1' && c[0] <= b'9' && c[1] >= b'0' && c[1] <= b'9');
            let own = (c[0] - b'0') as i64 * 10 + (c[1] - b'0') as i64;
            let mut text = String::from(if k == 2 { "f:" } else { "f: [" });
            for i in 0..n {
                if k == 2 {
                    text.push_str("\n- ")
                }
                if i == at && k == 1 {
                    text.push('x')
                }
                if i == at {
                    text.push(c[0] as char);
                    text.push(c[1] as char)
                } else {
                    text.push_str(&i.to_string())
                }
                if k < 2 {
                    text.push_str(", ")
                }
            }
            text.push_str(if k == 2 { "\n" } else { "]" });
            let want = |i: usize| if i == at { own } else { i as i64 };
            match read::<InlineList<i64>>(&text) {
                Some(l) => {
                    cover(1);
                    check(k != 1, 21);
                    check(l.len() == n && !l.is_single() && !l.is_empty(), 22);
                    check(l.iter().enumerate().all(|(i, x)| *x == want(i)), 23);
                    let v: Vec<i64> = to_node(&l).unwrap().as_seq().unwrap().iter().map(|n| n.as_int().unwrap()).collect();
                    check(v.len() == n && v.iter().enumerate().all(|(i, x)| *x == want(i)), 24);
                    check(l.into_iter().enumerate().all(|(i, x)| x == want(i)), 25)
                }
                None => check(k == 1, 26),
            }
        }
        k => {
            for c in c {
                assume(in_set(c, b"bcdghjkmpqrtuvwxyzBCDGHJKMPQRTUVWXYZ$%/()_0123456789"))
            }
            let mut s = "word ".repeat(n);
            s.insert(at * 5, c[0] as char);
            s.push('z');
            s.push(c[1] as char);
            assume(s.as_bytes()[0] != b'%');
            let text = format!("f: {s}\n");
            let want = &s;
            if k == 3 {
                match read::<Stringify>(&text) {
                    Some(r) => check(r.to_string() == *want, 27),
                    None => check(false, 28),
                }
            } else {
                match read::<Optional<String>>(&text) {
                    Some(o) => {
                        let mut n = 0;
                        o.ok_instead(
                            |t| {
                                n += 1;
                                check(t == want, 29)
                            },
                            &String::new(),
                        );
                        check(n == 1, 30)
                    }
                    None => check(false, 31),
                }
            }
            cover(1)
        }
    }
}
/// A missing field has the default.
#[derive(Deserialize)]
struct D {
    #[serde(default)]
    l: InlineList<i64>,
    #[serde(default)]
    o: Optional<S>,
    #[serde(default)]
    s: Stringify,
}
fn missing() {
    let d = from_str::<D>(["{}", "x: 1", "x: {l: 1, o: false, s: a}\n"][choose(3) as usize]).unwrap().remove(0);
    check(d.l.is_empty() && d.l.iter().count() == 0, 17);
    let mut n = 0;
    d.o.ok(|s| {
        n += 1;
        check(s.a == -77, 18)
    });
    check(n == 1, 19);
    check(d.s.to_string().is_empty(), 20);
    cover(1)
}
harness! {
    c23_li => list::<i64>(2);
    c23_lb => list::<u8>(1);
    c23_ls => list::<String>(2);
    c23_lm => list::<S>(2);
    c23_lo => list::<Option<String>>(1);
    c23_oi => opt::<i64>(1);
    c23_os => opt::<String>(1);
    c23_om => opt::<S>(2);
    c23_t => text(2);
    c23_lg => large();
    c23_d => missing();
}
