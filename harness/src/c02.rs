use super::util::*;
use yaml_peg::parser::Loader;
use yaml_peg::repr::*;
use yaml_peg::*;

/// What a plain scalar text denotes, written from the documented spellings.
#[derive(PartialEq, Clone, Copy)]
enum K {
    Null,
    Bool(bool),
    Int,
    Float,
    Inf(bool),
    Nan,
    Str,
    /// a float of the core schema in a spelling the crate does not list: string or float, but the same text
    Either,
}
fn digits(t: &[u8]) -> usize {
    t.iter().take_while(|c| **c >= b'0' && **c <= b'9').count()
}
fn kind(t: &[u8]) -> K {
    match t {
        b"~" | b"null" | b"Null" | b"NULL" => return K::Null,
        b"true" | b"True" | b"TRUE" => return K::Bool(true),
        b"false" | b"False" | b"FALSE" => return K::Bool(false),
        b".nan" | b".NaN" | b".NAN" => return K::Nan,
        b".inf" | b".Inf" | b".INF" => return K::Inf(false),
        b"-.inf" | b"-.Inf" | b"-.INF" => return K::Inf(true),
        b"+.inf" | b"+.Inf" | b"+.INF" => return K::Either,
        _ => {}
    }
    if t.len() > 2 && t[0] == b'0' && t[1] == b'o' && t[2..].iter().all(|c| *c >= b'0' && *c <= b'7') {
        return K::Int;
    }
    if t.len() > 2 && t[0] == b'0' && t[1] == b'x' && t[2..].iter().all(|c| c.is_ascii_hexdigit()) {
        return K::Int;
    }
    let plus = t[0] == b'+';
    let u = if t[0] == b'-' || plus { &t[1..] } else { t };
    let n = digits(u);
    let r = &u[n..];
    if n > 0 && r.is_empty() {
        return if plus { K::Either } else { K::Int };
    }
    let (frac, r) = match r {
        [b'.', x @ ..] => {
            let k = digits(x);
            (Some(k), &x[k..])
        }
        _ => (None, r),
    };
    if n == 0 && !matches!(frac, Some(k) if k > 0) {
        return K::Str;
    }
    match r {
        [] => {
            if plus || n == 0 {
                K::Either
            } else {
                K::Float
            }
        }
        [b'e' | b'E', x @ ..] => {
            let x = match x {
                [b'+' | b'-', y @ ..] => y,
                _ => x,
            };
            if !x.is_empty() && digits(x) == x.len() {
                if plus || n == 0 || frac.is_some() {
                    K::Either
                } else {
                    K::Float
                }
            } else {
                K::Str
            }
        }
        _ => K::Str,
    }
}
/// Text of a float up to a zero fraction.
fn norm(s: &str) -> &str {
    s.strip_suffix(".0").unwrap_or(s)
}
fn agrees(n: &Node<RcRepr>, t: &[u8]) -> bool {
    let s = match core::str::from_utf8(t) {
        Ok(s) => s,
        Err(_) => return true,
    };
    let k = kind(t);
    let o = match k {
        K::Null => 1,
        K::Bool(_) => 2,
        K::Int => 3,
        K::Float => 4,
        K::Str => 5,
        _ => 6,
    };
    out(o);
    cover(o);
    match (k, n.yaml()) {
        (K::Null, Yaml::Null) => true,
        (K::Bool(b), Yaml::Bool(c)) => b == *c,
        (K::Int, Yaml::Int(x)) => x == s,
        (K::Float, Yaml::Float(x)) => norm(x) == norm(s),
        (K::Inf(neg), Yaml::Float(x)) => x == if neg { "-inf" } else { "inf" },
        (K::Nan, Yaml::Float(x)) => x == "NaN",
        (K::Str, Yaml::Str(x)) => x == s,
        (K::Either, Yaml::Str(x)) => x == s,
        (K::Either, Yaml::Float(_)) => true,
        (K::Either, Yaml::Int(_)) => true,
        _ => false,
    }
}
/// Documents around one scalar, and the way to it: item, value or key of the first entry, last item.
const CTX: &[(&str, &str, &str)] = &[
    ("", "", ""),
    ("", "\n", ""),
    ("- ", "\n", "i"),
    ("k: ", "\n", "v"),
    ("[", "]", "i"),
    ("{k: ", "}\n", "v"),
    ("", ": v\n", "k"),
    ("- - ", "\n- x\n", "ii"),
    ("- k: ", "\n  l: m\n", "iv"),
    ("[a, ", " , b]\n", "l"),
    ("{", ": v}", "k"),
    ("--- ", "\n...\n", ""),
    ("k:\n  - ", "  # c\n", "vi"),
    ("k: ", " # c", "v"),
    ("? ", "\n: v\n", "k"),
    ("[[", "]]", "ii"),
];
fn at<'a>(n: &'a Node<RcRepr>, way: &str) -> Option<&'a Node<RcRepr>> {
    let mut n = n;
    for w in way.bytes() {
        n = match (w, n.yaml()) {
            (b'i', Yaml::Seq(v)) => v.first()?,
            (b'l', Yaml::Seq(v)) => v.get(1)?,
            (b'v', Yaml::Map(m)) => m.iter().next()?.1,
            (b'k', Yaml::Map(m)) => m.iter().next()?.0,
            _ => return None,
        }
    }
    Some(n)
}
fn run(t: &[u8], c: u32) {
    let (pre, post, way) = CTX[c as usize];
    let mut d = pre.as_bytes().to_vec();
    d.extend_from_slice(t);
    d.extend_from_slice(post.as_bytes());
    let mut l: Loader<RcRepr> = Loader::new(&d);
    match l.parse() {
        Ok(v) => {
            check(v.len() == 1, 1);
            match at(&v[0], way) {
                Some(n) => check(agrees(n, t), 2),
                None => check(false, 3),
            }
            forget(v)
        }
        Err(e) => {
            check(false, 4);
            forget(e)
        }
    }
    forget(l);
    forget(d)
}
fn alpha<const N: usize>(set: &[u8], c: u32) {
    let b = sym::<N>();
    for x in b {
        assume(in_set(x, set));
    }
    assume(b[0] != b'-' || N > 1);
    // markers of documents
    assume(N < 3 || !(b[0] == b'.' && b[1] == b'.' && b[2] == b'.') && !(b[0] == b'-' && b[1] == b'-' && b[2] == b'-'));
    run(&b, c)
}
/// Any printable text without indicators and spaces.
fn word<const N: usize>(c: u32) {
    let b = sym::<N>();
    let mut any: Vec<u8> = Vec::new();
    for x in b'!'..=b'~' {
        if !b"[]{},:".contains(&x) {
            any.push(x)
        }
    }
    for x in b {
        assume(in_set(x, &any));
    }
    assume(!in_set(b[0], b"&*!|>'\"%@`#?-"));
    assume(N < 3 || !(b[0] == b'.' && b[1] == b'.' && b[2] == b'.'));
    run(&b, c)
}
/// Text with inner spaces and colons: kept as it is in block context.
fn text<const N: usize>(set: &[u8], c: u32) {
    let b = sym::<N>();
    for x in b {
        assume(in_set(x, set));
    }
    assume(!in_set(b[0], b" #:,[]{}-?&*!|>'\"%"));
    assume(b[N - 1] != b' ' && b[N - 1] != b':');
    for i in 1..N {
        assume(!(b[i - 1] == b':' && b[i] == b' ') && !(b[i - 1] == b' ' && b[i] == b'#'));
    }
    run(&b, c)
}
const NUM: &[u8] = b"0178.-+eExoaf_";
const KEY: &[u8] = b"nulNULtreTRE~-.i";
/// Plain text over several lines: a line break folds to a space, blank lines are kept as breaks.
const MCTX: &[(&str, &str, &str, &str)] = &[
    ("k: ", "  ", "\nl: m\n", "v"),
    ("- ", "  ", "\n- x\n", "i"),
    ("k: ", "    ", "\n", "v"),
    ("", "", "\n", ""),
    ("k:\n  ", "    ", "\n", "v"),
    ("- - ", "    ", "\n  - y\n", "ii"),
    ("k:\n  - ", "    ", "  # c\n", "vi"),
    ("", "  ", "", ""),
];
fn multi<const N: usize>(set: &[u8], c: u32) {
    let b = sym::<N>();
    for x in b {
        assume(in_set(x, set));
    }
    assume(b[0] == b'a' && (b[N - 1] == b'a' || b[N - 1] == b'b'));
    let (pre, ind, post, way) = MCTX[c as usize];
    let mut d = pre.as_bytes().to_vec();
    let mut want: Vec<u8> = Vec::new();
    let (mut sp, mut nl) = (0, 0);
    for i in 0..N {
        if b[i] == b'\n' {
            nl += 1;
            d.push(b'\n');
            continue;
        }
        if i > 0 && b[i - 1] == b'\n' {
            d.extend_from_slice(ind.as_bytes());
        }
        d.push(b[i]);
        if b[i] == b' ' {
            sp += 1;
            continue;
        }
        match nl {
            0 => {
                for _ in 0..sp {
                    want.push(b' ')
                }
            }
            1 => want.push(b' '),
            _ => {
                for _ in 1..nl {
                    want.push(b'\n')
                }
            }
        }
        if nl > 0 {
            cover(7)
        }
        sp = 0;
        nl = 0;
        want.push(b[i]);
    }
    d.extend_from_slice(post.as_bytes());
    let mut l: Loader<RcRepr> = Loader::new(&d);
    match l.parse() {
        Ok(v) => {
            check(v.len() == 1, 11);
            match at(&v[0], way).map(|n| n.yaml()) {
                Some(Yaml::Str(s)) => check(s.as_bytes() == &want[..], 12),
                _ => check(false, 13),
            }
            forget(v)
        }
        Err(e) => {
            check(false, 14);
            forget(e)
        }
    }
    forget(l);
    forget(d)
}
/// Long scalars: a repeated unit, with a character of `set` before, in or after it.
fn long<const N: usize>(set: &[u8], c: u32) {
    let b = sym::<N>();
    for x in b {
        assume(in_set(x, set));
    }
    let (pre, unit, post) = [
        ("", "1", ""),
        ("-", "0", ""),
        ("1.", "0", ""),
        ("1e", "0", ""),
        ("2E-", "7", ""),
        ("0x", "f", ""),
        ("0o", "7", ""),
        ("3", "0", ".5"),
        ("", "a", ""),
        ("t", "rue", ""),
        ("~", "~", "a"),
        ("null", "null", ""),
        ("a", "-", "b"),
        ("a", ":b", ""),
        ("a", "#", ""),
        ("a", "'\"", "a"),
        ("a", " b", ""),
        ("a", " 1", ""),
        ("a", "  -", "a"),
        ("", "\u{e9}", "z"),
        ("\u{1f600}", "\u{20ac}1", "z"),
    ][choose(21) as usize];
    let n = [19, 64, 300][choose(3) as usize] / unit.len();
    let at = choose(3);
    let mut t = pre.as_bytes().to_vec();
    if at == 0 {
        t.extend_from_slice(&b)
    }
    for i in 0..n {
        if at == 1 && i == n / 2 {
            t.extend_from_slice(&b)
        }
        t.extend_from_slice(unit.as_bytes())
    }
    if at == 2 {
        t.extend_from_slice(&b)
    }
    t.extend_from_slice(post.as_bytes());
    assume(!in_set(t[0], b"&|#'\""));
    assume(!(t[0] == b'-' && t[1] == b'-' && t[2] == b'-') && !(t[0] == b'.' && t[1] == b'.' && t[2] == b'.'));
    run(&t, c)
}
/// Many lines of one plain string, with some characters in the middle.
fn lines(c: u32) {
    let (pre, ind, post, way) = MCTX[c as usize];
    let b = sym::<2>();
    for x in b {
        assume(in_set(x, b"a1 \n"));
    }
    let n = [9, 40][choose(2) as usize];
    let blank = choose(3) as usize;
    let mut d = pre.as_bytes().to_vec();
    let mut want = b"w0".to_vec();
    d.extend_from_slice(&want);
    for i in 1..n {
        for _ in 0..=blank {
            d.push(b'\n')
        }
        if blank == 0 {
            want.push(b' ')
        }
        for _ in 0..blank {
            want.push(b'\n')
        }
        d.extend_from_slice(ind.as_bytes());
        d.extend_from_slice(b"w");
        want.extend_from_slice(b"w");
        if i == n / 2 {
            // two characters between words of a line
            d.push(b'x');
            want.push(b'x');
            let nl = (b[0] == b'\n') as usize + (b[1] == b'\n') as usize;
            let inner = b[0] == b'\n' && b[1] != b'\n';
            d.push(b[0]);
            if inner {
                d.extend_from_slice(ind.as_bytes())
            }
            d.push(b[1]);
            if b[1] == b'\n' {
                d.extend_from_slice(ind.as_bytes())
            }
            d.extend_from_slice(b"x");
            match nl {
                0 => want.extend_from_slice(&b),
                1 => {
                    if b[0] != b'\n' && b[0] != b' ' {
                        want.push(b[0])
                    }
                    want.push(b' ');
                    if b[1] != b'\n' && b[1] != b' ' {
                        want.push(b[1])
                    }
                }
                _ => want.push(b'\n'),
            }
            want.push(b'x')
        }
        cover(7)
    }
    d.extend_from_slice(post.as_bytes());
    let mut l: Loader<RcRepr> = Loader::new(&d);
    match l.parse() {
        Ok(v) => {
            check(v.len() == 1, 11);
            match at(&v[0], way).map(|n| n.yaml()) {
                Some(Yaml::Str(s)) => check(s.as_bytes() == &want[..], 12),
                _ => check(false, 13),
            }
            forget(v)
        }
        Err(e) => {
            check(false, 14);
            forget(e)
        }
    }
    forget(l);
    forget(d)
}
/// Characters outside ASCII, at the begin, in the middle and at the end: kept like any other.
fn wides(set: &[u8], k: u32, c: u32) {
    let x = wide(choose(k));
    let a = sym::<1>();
    assume(in_set(a[0], set));
    let t = match choose(6) {
        0 => [&a[..], &x].concat(),
        1 => [&x[..], &a].concat(),
        2 => [b"a", &x[..], &a, b"b"].concat(),
        3 => [&x[..], b" ", &a, b"b"].concat(),
        4 => [b"a", &a[..], b" ", &x].concat(),
        _ => [&x[..], &a, &x].concat(),
    };
    run(&t, c)
}
/// A plain string over lines is one, whatever its words would be alone.
fn firsts(c: u32) {
    const FIRST: &[&str] = &["true", "False", "~", "null", "NULL", ".inf", "-.Inf", ".nan", "?a", "-a", ":a", "<<", "1a", "1.2.3", "0x", "+1", "a:b", "a#b", "=", "..", "--", "a'", "a\"b", "?-", "-:a", "?:a", "?:-"];
    const NEXT: &[&str] = &["b", "1", "true", "~", "-b", "?b", ":b", "'b", "\"b", "&b", "*b", "!b", "|b", ">b", "[b", "{b", "%b", "b:c", "b#"];
    let (pre, ind, post, way) = MCTX[c as usize];
    let b = sym::<1>();
    assume(in_set(b[0], b"azAZ09.-_/"));
    let (f, n) = match choose(2) {
        0 => (FIRST[choose(FIRST.len() as u32) as usize], NEXT[choose(2) as usize]),
        _ => (FIRST[choose(3) as usize], NEXT[choose(NEXT.len() as u32) as usize]),
    };
    let gap = choose(3);
    let mut d = pre.as_bytes().to_vec();
    d.extend_from_slice(f.as_bytes());
    let mut want = f.as_bytes().to_vec();
    if gap == 1 {
        d.push(b' ')
    }
    d.push(b'\n');
    if gap == 2 {
        d.push(b'\n')
    }
    want.push(if gap == 2 { b'\n' } else { b' ' });
    d.extend_from_slice(ind.as_bytes());
    for x in [&mut d, &mut want] {
        x.extend_from_slice(n.as_bytes());
        x.extend_from_slice(&b);
    }
    d.extend_from_slice(post.as_bytes());
    let mut l: Loader<RcRepr> = Loader::new(&d);
    match l.parse() {
        Ok(v) => {
            cover(1);
            check(v.len() == 1, 11);
            match at(&v[0], way).map(|n| n.yaml()) {
                Some(Yaml::Str(s)) => check(s.as_bytes() == &want[..], 12),
                _ => check(false, 13),
            }
            forget(v)
        }
        Err(e) => {
            check(false, 14);
            forget(e)
        }
    }
    forget(l);
    forget(d)
}
harness! {
    c02_f1 => firsts(choose(8));
    c02_t6 => text::<5>(b"a1.-e{}[],", choose(4));
    c02_u1 => wides(b"a1", WIDE, choose(16));
    c02_u2 => wides(b"a1.-~", 2, choose(4));
    c02_l1 => long::<1>(b"019.-+eExoaf_\"'#|&", choose(16));
    c02_l2 => long::<2>(b"17.-+eEoa", choose(6));
    c02_ln => lines(choose(8));
    c02_m6 => multi::<6>(b"ab \n", choose(8));
    c02_m8 => multi::<8>(b"ab \n", choose(8));
    c02_n1 => alpha::<1>(b"0123456789~aA.", choose(16));
    c02_n2 => alpha::<2>(NUM, choose(16));
    c02_n3 => alpha::<3>(NUM, choose(16));
    c02_n4 => alpha::<4>(NUM, choose(16));
    c02_n5 => alpha::<5>(NUM, choose(6));
    c02_n6 => alpha::<6>(NUM, choose(6));
    c02_n7 => alpha::<7>(NUM, choose(2));
    c02_n8 => alpha::<8>(b"018.-+ex", choose(6));
    c02_k4 => alpha::<4>(KEY, choose(16));
    c02_k5 => alpha::<5>(b"falseFALSE.-infINF", choose(16));
    c02_w2 => word::<2>(choose(16));
    c02_w3 => word::<3>(choose(16));
    c02_w4 => word::<4>(choose(6));
    c02_w5 => word::<5>(choose(6));
    c02_w6 => word::<6>(choose(4));
    c02_t5 => text::<5>(b"a1 :#-,[", choose(4));
    c02_t7 => text::<7>(b"a1 :#-?,]{", choose(4));
    c02_t8 => text::<8>(b"a1 :#-", choose(4));
    c02_p6 => text::<6>(b"a1 .-'\"&*!|", choose(16));
}
