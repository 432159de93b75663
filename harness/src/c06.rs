use super::util::*;
use yaml_peg::repr::*;
use yaml_peg::*;

type N = Node<RcRepr>;
fn n(y: Yaml<RcRepr>) -> N {
    Node::new(y, 0, "")
}
fn st(s: &str) -> N {
    n(Yaml::Str(s.into()))
}
fn seq(v: Vec<N>) -> N {
    n(v.into_iter().collect())
}
fn map(v: Vec<(N, N)>) -> N {
    n(v.into_iter().collect())
}
/// Dump, parse, compare.
fn round(v: Vec<N>) {
    let d = dump(&v, &[]);
    match parse::<RcRepr>(&d) {
        Ok(w) => {
            cover(1);
            check(v.len() == w.len(), 1);
            for i in 0..v.len() {
                check(same(&v[i], &w[i]), 2)
            }
            out_str(&d);
            forget(w)
        }
        Err(e) => {
            check(false, 3);
            forget(e)
        }
    }
    forget((v, d))
}
/// A node in a context.
fn ctx(c: u32, x: N) -> Vec<N> {
    let k = || st("k");
    match c {
        0 => vec![x],
        1 => vec![map(vec![(k(), x)])],
        2 => vec![map(vec![(x, k())])],
        3 => vec![seq(vec![x, k()])],
        4 => vec![map(vec![(k(), map(vec![(k(), x), (st("l"), k())])), (st("m"), k())])],
        5 => vec![seq(vec![seq(vec![k(), x]), k()])],
        6 => vec![k(), x, k()],
        7 => vec![map(vec![(k(), seq(vec![x, k()])), (st("l"), k())])],
        8 => vec![seq(vec![map(vec![(k(), seq(vec![x, k()])), (st("l"), k())]), k()])],
        9 => vec![seq(vec![map(vec![(k(), k()), (x, seq(vec![k()]))])])],
        10 => vec![map(vec![(seq(vec![x, k()]), k()), (map(vec![(k(), x2(&k)), (st("o"), k())]), k())])],
        _ => vec![map(vec![(map(vec![(k(), k())]), map(vec![(k(), x)]))]), k()],
    }
}
fn x2(k: &dyn Fn() -> N) -> N {
    k()
}
fn text<const L: usize>(set: &[u8], nc: u32) {
    let b = sym::<L>();
    for c in b {
        assume(in_set(c, set));
    }
    let s = unsafe { String::from_utf8_unchecked(b.to_vec()) };
    round(ctx(choose(nc), n(Yaml::Str(s))))
}
fn print<const L: usize>(nc: u32) {
    let b = sym::<L>();
    for c in b {
        assume(c >= 32 && c < 127 || c == b'\n' || c == b'\t' || c == b'\r');
    }
    let s = unsafe { String::from_utf8_unchecked(b.to_vec()) };
    round(ctx(choose(nc), n(Yaml::Str(s))))
}
/// Two-byte characters between ASCII ones.
fn uni(nc: u32) {
    let b = sym::<4>();
    assume(b[0] >= 0xc2 && b[0] <= 0xdf && b[1] >= 0x80 && b[1] <= 0xbf);
    assume(in_set(b[2], b" a\n:") && in_set(b[3], b"a# ") );
    let v = match choose(3) {
        0 => vec![b[0], b[1], b[2], b[3]],
        1 => vec![b[2], b[0], b[1], b[3]],
        _ => vec![b[2], b[3], b[0], b[1]],
    };
    let s = unsafe { String::from_utf8_unchecked(v) };
    round(ctx(choose(nc), n(Yaml::Str(s))))
}
fn leaf(k: u32, id: &mut u8) -> N {
    *id += 1;
    n(match k {
        0 => Yaml::Str(String::from_utf8(vec![b'a' + *id]).unwrap()),
        1 => Yaml::Seq(vec![]),
        2 => Yaml::Map(Map::new()),
        3 => Yaml::Null,
        4 => Yaml::Str("p\nq".into()),
        5 => Yaml::Float("1".into()),
        6 => Yaml::Bool(false),
        7 => Yaml::Str(String::new()),
        _ => Yaml::Int("-7".into()),
    })
}
/// Any tree of at most `left` collections over `nl` kinds of leaves.
fn tree(depth: u32, left: &mut u32, nl: u32, ck: bool, id: &mut u8) -> N {
    let can = depth > 0 && *left > 0;
    let k = choose(nl + if can { 4 } else { 0 });
    if k < nl {
        return leaf(k, id);
    }
    *left -= 1;
    let c = k - nl;
    let len = 1 + c % 2;
    if c < 2 {
        let mut v = vec![];
        for _ in 0..len {
            v.push(tree(depth - 1, left, nl, ck, id))
        }
        seq(v)
    } else {
        let mut v = vec![];
        for _ in 0..len {
            let key = if ck { tree(depth - 1, left, nl, ck, id) } else { leaf(0, id) };
            let val = tree(depth - 1, left, nl, ck, id);
            v.push((key, val))
        }
        let l = v.len();
        let m = map(v);
        if let Yaml::Map(m) = m.yaml() {
            assume(m.len() == l)
        }
        m
    }
}
fn shape(depth: u32, left: u32, nl: u32, ck: bool) {
    let mut left = left;
    let mut id = 0;
    let t = tree(depth, &mut left, nl, ck, &mut id);
    round(vec![t])
}
fn shapes2(depth: u32, left: u32, nl: u32) {
    let mut left = left;
    let mut id = 0;
    let t = tree(depth, &mut left, nl, false, &mut id);
    let u = tree(depth, &mut left, nl, false, &mut id);
    round(vec![t, u])
}
/// A collection around a node, which is its first, its last or its only item.
fn wrap(k: u32, x: N) -> N {
    match k {
        0 => map(vec![(st("k"), x), (st("l"), st("m"))]),
        1 => seq(vec![x, st("i")]),
        2 => map(vec![(st("k"), st("m")), (st("l"), x)]),
        3 => seq(vec![st("i"), x]),
        4 => map(vec![(st("k"), x)]),
        _ => seq(vec![x]),
    }
}
/// Deep trees: any collections of `nk` kinds, or two kinds which alternate.
fn chain(depth: u32, nk: u32, any: bool) {
    let c = sym::<1>()[0];
    assume(c >= 0x21 && c < 0x7f && c != b':');
    let mut x = n(Yaml::Str(unsafe { String::from_utf8_unchecked(vec![b'v', c]) }));
    let (a, b) = if any { (0, 0) } else { (choose(nk), choose(nk)) };
    let d = choose(depth) + 1;
    for i in 0..d {
        x = wrap(if any { choose(nk) } else if i % 2 == 0 { a } else { b }, x)
    }
    round(vec![x])
}
/// Tags on every kind of node in every context.
fn tag<const L: usize>(set: &[u8], nc: u32) {
    let b = sym::<L>();
    for c in b {
        assume(in_set(c, set));
    }
    let mut t = match choose(2) {
        0 => String::new(),
        _ => String::from("tag:yaml.org,2002:"),
    };
    t.push_str(unsafe { core::str::from_utf8_unchecked(&b) });
    let y: Yaml<RcRepr> = match choose(8) {
        0 => Yaml::Str("a".into()),
        1 => Yaml::Null,
        2 => Yaml::Int("1".into()),
        3 => seq(vec![st("a"), st("b")]).yaml().clone(),
        4 => map(vec![(st("a"), st("b")), (st("c"), st("d"))]).yaml().clone(),
        5 => Yaml::Str("a\nb".into()),
        6 => Yaml::Seq(vec![]),
        _ => Yaml::Map(vec![(seq(vec![st("a")]), st("b"))].into_iter().collect()),
    };
    round(ctx(choose(nc), Node::new(y, 0, t)))
}
/// Numbers made from Rust values.
fn num() {
    let f = [0.0, -0.0, 1.0, -1.5, 1e300, 1e-7, 0.1, 1e21, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 123456789.0, 1e15][choose(13) as usize];
    let x: N = match choose(3) {
        0 => f.into(),
        1 => {
            let i = [0i64, 1, -1, i64::MIN, i64::MAX, 10, 255][choose(7) as usize];
            i.into()
        }
        _ => (u64::MAX - choose(3) as u64).into(),
    };
    round(ctx(choose(12), x))
}
fn any() -> String {
    let c = sym::<1>()[0];
    assume(c >= 32 && c < 127 || c == b'\n' || c == b'\t' || c == b'\r');
    unsafe { String::from_utf8_unchecked(vec![c]) }
}
/// A character at one of three places of a long text.
fn long(nc: u32) {
    let n = [20, 130][choose(2) as usize];
    let u = ["a", "ab cd ", "ab\n", "  a\n\n", "\u{e9}", "\u{20ac} ", "1", "'", "- ", "\"", "\\", "a: ", "\t", "#"][choose(14) as usize];
    let c = any();
    let s = match choose(3) {
        0 => c + &u.repeat(n),
        1 => u.repeat(n / 2) + &c + &u.repeat(n - n / 2),
        _ => u.repeat(n) + &c,
    };
    round(ctx(choose(nc), n2(s)))
}
fn n2(s: String) -> N {
    n(Yaml::Str(s))
}
/// Many entries of several kinds, one with a character of its own.
fn many() {
    let l = [20usize, 40][choose(2) as usize];
    let at = [0, l / 2, l - 1][choose(3) as usize];
    let kind = choose(6);
    let c = sym::<1>()[0];
    assume(in_set(c, b"a -:#\n1"));
    let s = unsafe { String::from_utf8_unchecked(vec![c, b'x']) };
    let one = |i: usize| {
        if i == at {
            return n2(s.clone());
        }
        match kind {
            0 => n(Yaml::Int(i.to_string())),
            1 => st("w"),
            2 => seq(vec![st("p")]),
            3 => map(vec![(st("p"), st("q")), (st("r"), st("s"))]),
            4 => [seq(vec![]), n(Yaml::Null), n(Yaml::Str("o\np".into())), map(vec![(st("k"), seq(vec![st("i")]))])][i % 4].clone(),
            _ => Node::new(Yaml::Str("t".into()), 0, "u"),
        }
    };
    let x = match choose(4) {
        0 => seq((0..l).map(one).collect()),
        1 => map((0..l).map(|i| (st(&("k".to_string() + &i.to_string())), one(i))).collect()),
        2 => map((0..l.min(26)).map(|i| (seq(vec![n(Yaml::Int(i.to_string())), one(i)]), st("v"))).collect()),
        _ => return round((0..l).map(one).collect()),
    };
    round(ctx([0, 1, 3, 2][choose(4) as usize], x))
}
/// Deep trees of one or two kinds.
fn pit() {
    let mut x = n2("v".to_string() + &any());
    let (a, b, d) = (choose(6), choose(6), 24);
    for i in 0..d {
        x = wrap(if i % 2 == 0 { a } else { b }, x)
    }
    round(vec![x])
}
harness! {
    c06_ll => long(6);
    c06_lm => many();
    c06_lp => pit();
    c06_p1 => print::<1>(12);
    c06_p2 => print::<2>(12);
    c06_p3 => print::<3>(7);
    c06_m5 => text::<5>(b"a \n", 12);
    c06_m6 => text::<6>(b"a \n\"\\", 4);
    c06_i4 => text::<4>(b"a -:#?", 12);
    c06_i4b => text::<4>(b"a,[]{}&*!", 6);
    c06_q4 => text::<4>(b"a\"'\\n\n", 6);
    c06_n4 => text::<4>(b"01x.-e~", 4);
    c06_k4 => text::<4>(b"nulNULtre", 4);
    c06_d4 => text::<4>(b"-. a%\n", 8);
    c06_d5 => text::<5>(b"-. a", 7);
    c06_t1 => shape(3, 3, 3, false);
    c06_t2 => shape(2, 3, 9, false);
    c06_t3 => shape(3, 3, 1, true);
    c06_t4 => shape(4, 4, 1, false);
    c06_t5 => shapes2(2, 3, 2);
    c06_h1 => chain(5, 4, true);
    c06_h2 => chain(10, 6, false);
    c06_g1 => tag::<1>(b"at-!:/,x", 12);
    c06_g2 => tag::<2>(b"at-!:/,x", 12);
    c06_g3 => tag::<3>(b"a1-!:/.#", 4);
    c06_f => num();
    c06_u => uni(8);
}
