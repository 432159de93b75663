use super::util::*;
use yaml_peg::parser::Anchors;
use yaml_peg::repr::*;
use yaml_peg::*;

type N = Node<RcRepr>;
fn pos() -> u64 {
    u64::from_le_bytes(sym::<8>())
}
fn st<const L: usize>() -> String {
    let b = sym::<L>();
    for c in b {
        assume(c < 128)
    }
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
fn at(y: Yaml<RcRepr>, p: u64) -> N {
    Node::new(y, p, "")
}
/// A node of kind `k` (0 null, 1 bool, 2 int, 3 float, 4 str, 5 seq, 6 map, 7 alias) with the text `s`.
fn kind(k: u32, b: bool, s: &str, p: u64) -> N {
    at(
        match k {
            0 => Yaml::Null,
            1 => Yaml::Bool(b),
            2 => Yaml::Int(s.into()),
            3 => Yaml::Float(s.into()),
            4 => Yaml::Str(s.into()),
            5 => Yaml::Seq((0..choose(3)).map(|i| Node::from(i)).collect()),
            6 => Yaml::Map((0..choose(3)).map(|i| (Node::from(i), Node::from(s))).collect()),
            _ => Yaml::Alias(s.into()),
        },
        p,
    )
}
fn is<T: PartialEq>(r: Result<T, u64>, want: Option<T>, p: u64, id: u64) {
    match (r, want) {
        (Ok(a), Some(b)) => {
            cover(1);
            check(a == b, id)
        }
        (Err(q), None) => {
            cover(2);
            check(p == q, id + 1)
        }
        _ => check(false, id + 2),
    }
}
/// Every accessor on every kind.
fn table() {
    let (k, b, s, p) = (choose(8), choose(2) == 1, st::<1>(), pos());
    let n = kind(k, b, &s, p);
    check(n.pos() == p, 1);
    check(n.is_null() == (k == 0), 2);
    let when = |c: bool, s: &'static str| if c { Some(s) } else { None };
    match choose(9) {
        0 => is(n.as_bool(), if k == 1 { Some(b) } else { None }, p, 10),
        1 => is(n.as_str(), if k == 4 { Some(&s[..]) } else { when(k == 0, "") }, p, 20),
        2 => is(
            n.as_value(),
            match k {
                0 => Some(""),
                1 => Some(if b { "true" } else { "false" }),
                2..=4 => Some(&s[..]),
                _ => None,
            },
            p,
            30,
        ),
        3 => match n.as_seq() {
            Ok(v) => {
                cover(1);
                let Yaml::Seq(w) = n.yaml() else { return check(false, 40) };
                check(k == 5 && v.len() == w.len() && v.iter().zip(w).all(|(a, b)| core::ptr::eq(a.yaml(), b.yaml())), 41)
            }
            Err(q) => {
                cover(2);
                check(k != 5 && p == q, 42)
            }
        },
        4 => match n.as_map() {
            Ok(v) => {
                cover(1);
                let Yaml::Map(w) = n.yaml() else { return check(false, 50) };
                check(k == 6 && v.len() == w.len() && v.iter().zip(w).all(|((a, x), (b, y))| core::ptr::eq(a.yaml(), b.yaml()) && core::ptr::eq(x.yaml(), y.yaml())), 51)
            }
            Err(q) => {
                cover(2);
                check(k != 6 && p == q, 52)
            }
        },
        5 => is(n.as_int(), if k == 2 && s.as_bytes()[0].is_ascii_digit() { Some(s.as_bytes()[0] as i64 - 48) } else { None }, p, 60),
        6 => is(n.as_float(), if k == 3 && s.as_bytes()[0].is_ascii_digit() { Some((s.as_bytes()[0] as i64 - 48) as f64) } else { None }, p, 70),
        7 => is(n.as_number(), if (k == 2 || k == 3) && s.as_bytes()[0].is_ascii_digit() { Some((s.as_bytes()[0] as i64 - 48) as f64) } else { None }, p, 80),
        _ => {
            let t = st::<1>();
            let mut a: Anchors<RcRepr> = Anchors::new();
            let target = at(Yaml::Null, 5);
            a.insert(t.clone(), target.clone());
            match n.as_anchor(&a) {
                Ok(m) => {
                    cover(1);
                    if k == 7 {
                        check(s == t && core::ptr::eq(m.yaml(), target.yaml()), 90)
                    } else {
                        check(core::ptr::eq(m, &n), 91)
                    }
                }
                Err(q) => {
                    cover(2);
                    check(k == 7 && s != t && p == q, 92)
                }
            }
            forget((a, target))
        }
    }
    forget((n, s))
}
/// Access by position: exactly the items.
fn index() {
    let p = pos();
    let n = choose(4) as usize;
    let q = [pos(), pos(), pos()];
    let v = at(Yaml::Seq((0..n).map(|i| at(Yaml::Null, q[i])).collect()), p);
    let i = usize::from_le_bytes(sym::<8>());
    match v.get_ind(Ind(i)) {
        Ok(x) => {
            cover(1);
            check(i < n, 1);
            let j = conc(i as u64) as usize;
            check(x.pos() == q[j], 2);
            check(v[Ind(j)].pos() == q[j], 3)
        }
        Err(e) => {
            cover(2);
            check(i >= n && e == p, 4)
        }
    }
    forget(v)
}
/// Access by position on anything else.
fn index_other() {
    let (k, p) = (choose(8), pos());
    assume(k != 5);
    let n = kind(k, true, "a", p);
    let i = usize::from_le_bytes(sym::<8>());
    check(matches!(n.get_ind(Ind(i)), Err(e) if e == p), 1);
    check(matches!(n.get_default(0, p, |x| Ok(x.pos())), Ok(_)) == (k == 6), 2);
    if k != 6 {
        check(matches!(n.get(1), Err(e) if e == p), 3);
        check(matches!(n.get("a"), Err(e) if e == p), 4);
        check(matches!(n.get_default("a", 1, |_| Ok(2)), Err(e) if e == p), 5)
    }
    forget(n)
}
/// A map with two symbolic string keys, a number and null.
fn keys() {
    let p = pos();
    let (a, b, c) = (st::<1>(), st::<1>(), st::<1>());
    let (q, r) = (pos(), pos());
    let mut m: Map<RcRepr> = Map::new();
    m.insert(at(Yaml::Int("1".into()), 3), at(Yaml::Null, 4));
    m.insert(at(Yaml::Str(a.clone()), 5), at(Yaml::Str("x".into()), q));
    m.insert(at(Yaml::Str(b.clone()), 6), at(Yaml::Int("7".into()), r));
    m.insert(at(Yaml::Bool(true), 7), at(Yaml::Null, 8));
    let n = at(Yaml::Map(m), p);
    let (xa, xb) = (a == c, b == c);
    let found = xa || xb;
    let w = if xb { r } else { q };
    match choose(6) {
        0 => is(n.get(&c[..]).map(|x| x.pos()), if found { Some(w) } else { None }, p, 10),
        1 => is(n.get(c.clone()).map(|x| x.pos()), if found { Some(w) } else { None }, p, 20),
        2 => {
            if found {
                check(n[&c[..]].pos() == w, 30);
                check(n[c.clone()].pos() == w, 31)
            }
        }
        3 => {
            // a missing key gives the default, the wrong type gives the position of the value
            let r2 = n.get_default(c.clone(), "d", Node::as_str);
            match r2 {
                Ok(s) => {
                    cover(1);
                    check(!xb && s == if xa { "x" } else { "d" }, 40)
                }
                Err(e) => {
                    cover(2);
                    check(xb && e == r, 41)
                }
            }
        }
        4 => {
            let r2 = n.get_default(&c[..], 9, Node::as_int);
            match r2 {
                Ok(i) => {
                    cover(1);
                    check(if xb { i == 7 } else { !xa && i == 9 }, 50)
                }
                Err(e) => {
                    cover(2);
                    check(xa && !xb && e == q, 51)
                }
            }
        }
        _ => {
            // keys of other types
            check(n.get(1).map(|x| x.pos()) == Ok(4), 60);
            check(n.get(true).map(|x| x.pos()) == Ok(8), 61);
            check(n.get(()).map(|x| x.pos()) == Err(p), 62);
            check(n.get(1.5).map(|x| x.pos()) == Err(p), 63);
            check(n.get(2).map(|x| x.pos()) == Err(p), 64);
            check(n[1].pos() == 4 && n[true].pos() == 8, 65);
            check(n.get_default(2, 5, Node::as_int) == Ok(5), 66);
            check(n.get_default(1, 5, Node::as_int) == Err(4), 67)
        }
    }
    if let Ok(m) = n.as_map() {
        check(m.len() == 4 - (a == b) as usize, 70);
        forget(m)
    }
    forget((a, b, c, n))
}
/// Keys that are collections.
fn complex() {
    let s = st::<1>();
    let t = st::<1>();
    let p = pos();
    let k: N = vec![Node::from(s.clone()), Node::from(1)].into_iter().collect();
    let l: N = vec![Node::from(t.clone()), Node::from(1)].into_iter().collect();
    let n: N = at(Yaml::Map(core::iter::once((k, at(Yaml::Null, 9))).collect()), p);
    is(n.get(l).map(|x| x.pos()), if s == t { Some(9) } else { None }, p, 10);
    forget((n, s, t))
}
/// Many items and many keys: the one asked for, no matter where, or none.
fn many() {
    let n = [0usize, 9, 33][choose(3) as usize];
    let p = pos();
    match choose(4) {
        0 => {
            let v = at(Yaml::Seq((0..n).map(|i| at(Yaml::Int(i.to_string()), i as u64)).collect()), p);
            let i = usize::from_le_bytes(sym::<8>());
            match v.get_ind(Ind(i)) {
                Ok(x) => {
                    cover(1);
                    let j = conc(i as u64) as usize;
                    check(j < n && x.pos() == j as u64 && x.as_int() == Ok(j as i64), 1);
                    check(v[Ind(j)].pos() == j as u64, 2)
                }
                Err(e) => {
                    cover(2);
                    check(i >= n && e == p, 3)
                }
            }
            forget(v)
        }
        1 => {
            // keys `a0`.. with a key of its own at one place
            let w = st::<1>();
            let q = st::<1>();
            let a = choose(3) as usize * n / 3;
            let m = at(Yaml::Map((0..n).map(|i| (at(Yaml::Str(if i == a { w.clone() } else { "k".to_string() + &i.to_string() }), 1), at(Yaml::Null, i as u64))).collect()), p);
            is(m.get(&q[..]).map(|x| x.pos()), if n > 0 && q == w { Some(a as u64) } else { None }, p, 10);
            is(m.get_default(q.clone(), 99, |x| Ok(x.pos())), Some(if n > 0 && q == w { a as u64 } else { 99 }), p, 13);
            is(m.get("k8").map(|x| x.pos()), if n > 8 && a != 8 { Some(8) } else { None }, p, 16);
            forget((m, w, q))
        }
        2 => {
            let i = i32::from_le_bytes(sym::<4>());
            assume(i < 40 && i > -40);
            let i = conc(i as u64) as i32;
            let m = at(Yaml::Map((0..n).map(|i| (Node::from(i as i32 - 3), at(Yaml::Null, i as u64))).collect()), p);
            is(m.get(i).map(|x| x.pos()), if i >= -3 && i + 3 < n as i32 { Some((i + 3) as u64) } else { None }, p, 20);
            forget(m)
        }
        _ => {
            // a path of indices
            let mut v = at(Yaml::Str("end".into()), 7);
            for k in 0..n {
                v = if k % 2 == 0 { at(Yaml::Seq(vec![at(Yaml::Null, 1), v]), 8) } else { at(Yaml::Map([(Node::from("n"), v)].into_iter().collect()), 9) }
            }
            let mut x = &v;
            for k in (0..n).rev() {
                x = if k % 2 == 0 { &x[Ind(1)] } else { &x["n"] }
            }
            check(x.as_str() == Ok("end") && x.pos() == 7, 30);
            let s = st::<1>();
            if n > 1 {
                let w = &v[Ind(1)];
                is(w.get(&s[..]).map(|x| x.pos()), if s == "n" { Some(if n > 2 { 8 } else { 7 }) } else { None }, 9, 40)
            }
            forget((v, s))
        }
    }
}
fn same_str<R: Repr>(n: &Node<R>, s: &str) -> bool {
    matches!(n.yaml(), Yaml::Str(t) if t == s)
}
/// Nodes built in memory contain what they were built from.
fn build<R: Repr>() {
    let (s, t, p, q) = (st::<1>(), st::<2>(), pos(), pos());
    match choose(7) {
        0 => {
            // another content, the same place and tag
            let tag = choose(2) == 1;
            let name = if tag { &t[..] } else { "" };
            let was = choose(4);
            let mut n: Node<R> = Node::new(
                match was {
                    0 => Yaml::Null,
                    1 => Yaml::Str(s.clone()),
                    2 => Yaml::Seq(vec![Node::from(1)]),
                    _ => Yaml::Alias("b".into()),
                },
                p,
                name,
            );
            let old = n.clone();
            let other: Node<R> = Node::new(s.clone(), q, "y");
            if choose(2) == 1 {
                n.set_yaml(&t)
            } else {
                n.set_repr(Node::<R>::new(&t, q, "z").clone_yaml())
            }
            check(same_str(&n, &t) && n.pos() == p, 1);
            check(n.tag() == if tag { &t } else { "tag:yaml.org,2002:str" }, 2);
            check(
                match was {
                    0 => old.is_null(),
                    1 => same_str(&old, &s),
                    2 => matches!(old.yaml(), Yaml::Seq(v) if v.len() == 1),
                    _ => matches!(old.yaml(), Yaml::Alias(a) if a == "b"),
                } && old.pos() == p,
                3,
            );
            n.set_repr(other.clone_yaml());
            check(core::ptr::eq(n.yaml(), other.yaml()) && n.pos() == p && core::ptr::eq(&**n.rc_ref(), other.yaml()), 4);
            // an equal one is a new one as well
            let k = choose(3) as usize;
            let list = |p: u64, tag: &str| -> Yaml<R> { (0..k).map(|_| Node::new(Yaml::Int(if p == q { "0x1".into() } else { "1".into() }), p, tag)).collect() };
            assume(p != q);
            n.set_yaml(list(p, "y"));
            if choose(2) == 1 {
                n.set_yaml(list(q, &t))
            } else {
                n.set_repr(Node::<R>::new(list(q, &t), p, "").clone_yaml())
            }
            check(matches!(n.yaml(), Yaml::Seq(v) if v.len() == k && v.iter().all(|n| n.pos() == q && n.tag() == t && n.as_value() == Ok("0x1"))), 5);
            cover(1);
            forget((n, old, other))
        }
        1 => {
            // sequences
            let k = choose(5) as usize;
            let items = || (0..k).map(|i| if i == 1 { Node::new(s.clone(), p, &t[..]) } else { Node::<R>::from(i) });
            let ok = |y: &Yaml<R>| match y {
                Yaml::Seq(v) => v.len() == k && v.iter().enumerate().all(|(i, n)| if i == 1 { same_str(n, &s) && n.pos() == p && n.tag() == t } else { n.as_int() == Ok(i as i64) }),
                _ => false,
            };
            let a: Node<R> = items().collect();
            let b: Yaml<R> = items().collect();
            let c: Yaml<R> = items().collect::<Vec<_>>().into();
            let d: Node<R> = Node::new(items().collect::<Vec<_>>(), q, "");
            check(ok(a.yaml()) && a.pos() == 0 && a.tag() == "tag:yaml.org,2002:seq", 10);
            check(ok(&b) && ok(&c) && ok(d.yaml()) && d.pos() == q, 11);
            cover(1);
            forget((a, b, c, d))
        }
        2 => {
            // maps, in the order of the pairs
            let k = choose(5) as usize;
            assume(s != t);
            let items = || (0..k).map(|i| if i == 1 { (Node::new(s.clone(), p, ""), Node::<R>::from(t.clone())) } else { (Node::from(i), Node::from(i + 10)) });
            let ok = |y: &Yaml<R>| match y {
                Yaml::Map(v) => v.len() == k && v.iter().enumerate().all(|(i, (n, m))| if i == 1 { same_str(n, &s) && n.pos() == p && same_str(m, &t) } else { n.as_int() == Ok(i as i64) && m.as_int() == Ok(i as i64 + 10) }),
                _ => false,
            };
            let a: Node<R> = items().collect();
            let b: Yaml<R> = items().collect();
            let c: Yaml<R> = items().collect::<Map<R>>().into();
            check(ok(a.yaml()) && a.pos() == 0 && a.tag() == "tag:yaml.org,2002:map" && ok(&b) && ok(&c), 20);
            cover(1);
            forget((a, b, c))
        }
        3 => {
            // texts of every kind
            let c = s.as_bytes()[0] as char;
            let w = wide(choose(7));
            let w = unsafe { String::from_utf8_unchecked(w.to_vec()) };
            let x = w.chars().next().unwrap();
            let v: [Node<R>; 7] = [Node::from(c), Node::from(&s[..]), Node::from(s.clone()), Node::from(&s), Yaml::from(c).into(), Yaml::from(&s).into(), Node::new(c, p, "")];
            check(v.iter().all(|n| same_str(n, &s)), 30);
            let (n, m): (Node<R>, Node<R>) = (Node::from(x), Node::from(&w));
            check(same_str(&n, &w) && n == m && n.as_str() == Ok(&w) && n.as_value() == Ok(&w), 31);
            cover(1);
            forget((v, n, m, w))
        }
        4 => {
            // default tags
            let k = choose(8);
            let f = st::<1>();
            let y: Yaml<R> = match k {
                0 => ().into(),
                1 => (choose(2) == 1).into(),
                2 => Yaml::Int(f.clone()),
                3 => Yaml::Float(f.clone()),
                4 => (&f).into(),
                5 => vec![].into(),
                6 => Map::new().into(),
                _ => Yaml::Alias(f.clone()),
            };
            let want = ["tag:yaml.org,2002:null", "tag:yaml.org,2002:bool", "tag:yaml.org,2002:int", "tag:yaml.org,2002:float", "tag:yaml.org,2002:str", "tag:yaml.org,2002:seq", "tag:yaml.org,2002:map", ""][k as usize];
            let z = y.clone();
            let (n, m): (Node<R>, Node<R>) = (Node::new(y, p, ""), Node::new(z, q, &t[..]));
            check(n.tag() == want && m.tag() == t && m.pos() == q, 40);
            let o: Node<R> = Node::new_repr(n.clone_yaml(), q, m.tag());
            check(o.tag() == t && core::ptr::eq(o.yaml(), n.yaml()) && o.pos() == q, 41);
            cover(1);
            forget((n, m, o, f))
        }
        5 => {
            let i = conc(choose(3) as u64) as i64;
            let n = node!([&s[..], node!([i, ()]), node!({&t[..] => node!([true]), i => node!(*"x"),}), node!(*"y"), node!([7; 3]), node!([]), node!({})]);
            check(same_str(&n[Ind(0)], &s) && n[Ind(1)][Ind(0)].as_int() == Ok(i) && n[Ind(1)][Ind(1)].is_null(), 50);
            check(n[Ind(2)][&t[..]][Ind(0)].as_bool() == Ok(true) && matches!(n[Ind(2)][i].yaml(), Yaml::Alias(a) if a == "x"), 51);
            check(matches!(n[Ind(3)].yaml(), Yaml::Alias(a) if a == "y"), 52);
            check(n[Ind(4)].as_seq().map(|v| v.len() == 3 && v.iter().all(|n| n.as_int() == Ok(7))) == Ok(true), 53);
            check(n[Ind(5)].as_seq().map(|v| v.len()) == Ok(0) && n[Ind(6)].as_map().map(|v| v.len()) == Ok(0), 54);
            check(n.as_seq().map(|v| v.len()) == Ok(7) && n.pos() == 0 && n[Ind(2)].as_map().map(|v| v.len()) == Ok(2), 55);
            let m = node!(arc {&s[..] => node!(arc [&t[..]])});
            check(same_str(&m[&s[..]][Ind(0)], &t), 56);
            cover(1);
            forget((n, m))
        }
        _ => {
            // numbers and their texts
            let b = sym::<1>()[0];
            let b = conc(b as u64) as u8;
            let v: [Node<R>; 6] = [Node::from(b), Node::from(b as u16), Node::from(b as i64), Node::from(b as u128), Node::from(b as usize), Node::from(b as i128)];
            check(v.iter().all(|n| n.as_int() == Ok(b as i64) && n.as_number() == Ok(b as f64) && n.as_float() == Err(0)), 60);
            let i: Node<R> = Node::from(b as i8);
            check(i.as_int() == Ok(b as i8 as i64) && matches!(i.yaml(), Yaml::Int(_)), 61);
            let f: Node<R> = Node::from(b as f32 / 4.);
            let g: Node<R> = Node::from(b as f64 / 4.);
            check(f.as_float() == Ok(b as f64 / 4.) && g.as_float() == Ok(b as f64 / 4.) && f.as_int() == Err(0) && g.as_number() == Ok(b as f64 / 4.), 62);
            cover(1);
            forget((v, i, f, g))
        }
    }
    forget((s, t))
}
harness! {
    c05_b => build::<RcRepr>();
    c05_ba => build::<ArcRepr>();
    c05_m => many();
    c05_t => table();
    c05_i => index();
    c05_o => index_other();
    c05_k => keys();
    c05_c => complex();
}
