use super::util::*;
use yaml_peg::parser::Loader;
use yaml_peg::repr::*;
use yaml_peg::*;

const HEAD: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
const TAIL: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-";
/// Characters of prefixes and of verbatim tags.
const URI: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~:/?@!$&'()*+,;=%";

/// Kinds of nodes: in the line (below `LINE`), block strings, block collections.
const KIND: [(&str, &str); 16] = [
    ("w", "str"),
    ("12", "int"),
    ("'w'", "str"),
    ("true", "bool"),
    ("1.5", "float"),
    ("\"12\"", "str"),
    ("~", "null"),
    ("[a, c]", "seq"),
    ("{a: c}", "map"),
    ("[]", "seq"),
    ("{}", "map"),
    ("", "null"),
    ("|\nIw", "str"),
    (">-\nIw\nIv", "str"),
    ("\nI- a\nI- c", "seq"),
    ("\nIa: c\nId: e", "map"),
];
const LINE: u32 = 12;
const BLOCK: u32 = 14;
struct At {
    before: &'static str,
    after: &'static str,
    /// Place of the node in preorder.
    node: usize,
    /// Kinds allowed: up to, and the indentation of block content.
    kinds: u32,
    ind: &'static str,
}
const fn at(before: &'static str, after: &'static str, node: usize, kinds: u32, ind: &'static str) -> At {
    At { before, after, node, kinds, ind }
}
const AT: [At; 17] = [
    at("k: ", "\nl: b\n", 2, 16, "  "),
    at("- ", "\n- b", 1, 16, "  "),
    at("--- ", "\n", 0, 16, "  "),
    at("", "", 0, LINE, ""),
    at("[", ", b]", 1, LINE, ""),
    at("{k: ", ", l: b}", 2, LINE, ""),
    at("a: b\n", ": b\n", 3, 11, ""),
    at("{", ": b}", 1, 11, ""),
    at("? ", "\n: b\n", 1, 16, "  "),
    at("? a\n: ", "\nl: b", 2, 16, "  "),
    at("k:\n  ", ": b\n", 3, 11, ""),
    at("k:\n- a\n- ", "\nl: b", 4, 16, "  "),
    at("k:\n  ", "\nl: b", 2, 11, ""),
    at("- - ", "\n  - b", 2, LINE, ""),
    at("- k: ", "\n  l: b\n", 3, 16, "    "),
    at("[a, {k: ", "}]", 4, LINE, ""),
    at("a: b\n? ", "\n: b\n", 3, 16, "   "),
];
fn tags<R: Repr>(n: &Node<R>, v: &mut Vec<Vec<u8>>) {
    v.push(n.tag().as_bytes().to_vec());
    match n.yaml() {
        Yaml::Seq(s) => s.iter().for_each(|n| tags(n, v)),
        Yaml::Map(m) => {
            for (k, w) in m {
                tags(k, v);
                tags(w, v)
            }
        }
        _ => {}
    }
}
/// Default tags by kind.
fn defaults<R: Repr>(n: &Node<R>) -> bool {
    let t = match n.yaml() {
        Yaml::Null => "tag:yaml.org,2002:null",
        Yaml::Bool(_) => "tag:yaml.org,2002:bool",
        Yaml::Int(_) => "tag:yaml.org,2002:int",
        Yaml::Float(_) => "tag:yaml.org,2002:float",
        Yaml::Str(_) => "tag:yaml.org,2002:str",
        Yaml::Seq(_) => "tag:yaml.org,2002:seq",
        Yaml::Map(_) => "tag:yaml.org,2002:map",
        Yaml::Alias(_) => "",
    };
    n.tag() == t
        && match n.yaml() {
            Yaml::Seq(s) => s.iter().all(defaults),
            Yaml::Map(m) => m.iter().all(|(k, v)| defaults(k) && defaults(v)),
            _ => true,
        }
}
fn equal<R: Repr>(a: &Node<R>, b: &Node<R>) -> bool {
    match (a.yaml(), b.yaml()) {
        (Yaml::Null, Yaml::Null) => true,
        (Yaml::Bool(x), Yaml::Bool(y)) => x == y,
        (Yaml::Int(x), Yaml::Int(y)) | (Yaml::Float(x), Yaml::Float(y)) | (Yaml::Str(x), Yaml::Str(y)) => x == y,
        (Yaml::Seq(x), Yaml::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| equal(x, y)),
        (Yaml::Map(x), Yaml::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, v), (l, w))| equal(k, l) && equal(v, w)),
        _ => false,
    }
}
fn name(text: &mut Vec<u8>, n: usize) -> Vec<u8> {
    let b = symv(n);
    for (i, c) in b.iter().enumerate() {
        assume(in_set(*c, if i == 0 { HEAD } else { TAIL }))
    }
    text.extend_from_slice(&b);
    b
}
fn uri(text: &mut Vec<u8>, n: usize) -> Vec<u8> {
    let b = symv(n);
    for c in &b {
        assume(in_set(*c, URI))
    }
    text.extend_from_slice(&b);
    b
}
struct Decl {
    local: Vec<u8>,
    sub: Vec<u8>,
    handles: Vec<(Vec<u8>, Vec<u8>)>,
}
/// The directives of a document.
fn directives(text: &mut Vec<u8>, kind: u32) -> Decl {
    let mut d = Decl { local: vec![], sub: b"tag:yaml.org,2002:".to_vec(), handles: vec![] };
    let t = |text: &mut Vec<u8>, s: &str| text.extend_from_slice(s.as_bytes());
    if kind & 1 > 0 {
        t(text, "%TAG !! ");
        d.sub = uri(text, 3);
        t(text, "\n");
    }
    if kind & 2 > 0 {
        t(text, "%YAML 1.2\n%TAG ! ");
        d.local = uri(text, 2);
        t(text, " # c\n");
    }
    if kind & 4 > 0 {
        t(text, "%TAG !e! ");
        let p = uri(text, 3);
        t(text, "\n%TAG  !e-2!  ");
        let q = uri(text, 1);
        t(text, "\n");
        d.handles = vec![(b"e".to_vec(), p), (b"e-2".to_vec(), q)];
    }
    d
}
/// `notes`: from, number of notations.
fn tag(places: &[u32], kinds: &[u32], decls: u32, notes: (u32, u32), props: u32, len: usize) {
    let p = match places.len() {
        0 => choose(AT.len() as u32),
        n => places[choose(n as u32) as usize],
    };
    let a = &AT[p as usize];
    let k = match kinds.len() {
        0 => choose(a.kinds),
        n => {
            let k = kinds[choose(n as u32) as usize];
            assume(k < a.kinds);
            k
        }
    };
    let mut text = vec![];
    let dk = choose(decls);
    let d = directives(&mut text, dk);
    if dk > 0 && p != 2 {
        text.extend_from_slice(b"---\n");
    }
    let start = text.len();
    text.extend_from_slice(a.before.as_bytes());
    let prop = choose(props);
    if prop == 1 {
        text.extend_from_slice(b"&x ")
    }
    let mut bad = false;
    let mut noted = false;
    let want = match notes.0 + choose(notes.1) {
        0 => None,
        1 => {
            text.push(b'!');
            let n = name(&mut text, len);
            Some([d.local, n].concat())
        }
        2 => {
            text.extend_from_slice(b"!!");
            let n = name(&mut text, len);
            Some([d.sub, n].concat())
        }
        3 => {
            text.extend_from_slice(b"!<");
            let n = uri(&mut text, len);
            text.push(b'>');
            Some(n)
        }
        4 => {
            assume(d.handles.len() > 0);
            let h = &d.handles[choose(2) as usize];
            text.push(b'!');
            text.extend_from_slice(&h.0);
            text.push(b'!');
            let n = name(&mut text, len);
            Some([h.1.clone(), n].concat())
        }
        5 => {
            text.push(b'!');
            noted = true;
            Some(d.local).filter(|p| p.len() > 0)
        }
        6 => {
            text.extend_from_slice(b"!!");
            Some(d.sub)
        }
        _ => {
            text.push(b'!');
            let l = 1 + choose(2) as usize;
            let h = name(&mut text, l);
            assume(d.handles.iter().all(|x| x.0 != h));
            text.push(b'!');
            name(&mut text, len);
            bad = true;
            None
        }
    };
    let noted = noted || want.is_some() || bad;
    if noted && prop == 2 {
        text.extend_from_slice(b" &x")
    }
    if noted && k < BLOCK {
        text.push(b' ')
    }
    let content = KIND[k as usize].0.replace('I', a.ind);
    text.extend_from_slice(content.as_bytes());
    text.extend_from_slice(a.after.as_bytes());
    let plain = [a.before, &content, a.after].concat();
    forget(start);
    let r = Loader::<RcRepr>::new(&text).parse();
    if bad {
        check(r.is_err(), 1);
        cover(2);
        return forget((r, text));
    }
    let q = Loader::<RcRepr>::new(plain.as_bytes()).parse().unwrap();
    match &r {
        Err(_) => check(false, 2),
        Ok(v) => {
            check(v.len() == 1 && q.len() == 1, 3);
            check(equal(&v[0], &q[0]), 4);
            check(defaults(&q[0]), 5);
            let (mut s, mut t) = (vec![], vec![]);
            tags(&v[0], &mut s);
            tags(&q[0], &mut t);
            check(t[a.node] == [b"tag:yaml.org,2002:", KIND[k as usize].1.as_bytes()].concat(), 6);
            if let Some(w) = want {
                t[a.node] = w
            }
            for i in 0..t.len() {
                check(s[i] == t[i], 7 + (i == a.node) as u64)
            }
            cover(1)
        }
    }
    forget((r, q, text))
}
/// Long names, many tagged nodes, many handles.
fn large() {
    let n = [20usize, 130][choose(2) as usize];
    let t = |d: &mut Vec<u8>, s: &[u8]| d.extend_from_slice(s);
    let two = |i: usize| [b'0' + (i / 10) as u8, b'0' + (i % 10) as u8];
    let x = sym::<2>();
    assume(in_set(x[0], TAIL) && in_set(x[1], TAIL));
    let mut d = vec![];
    let mut want: Vec<Vec<u8>> = vec![];
    let str_tag = b"tag:yaml.org,2002:str".to_vec();
    let mut bad = false;
    match choose(6) {
        k @ 0..=2 => {
            // a long name with two characters of its own
            let l = "a/b".repeat(n / 3);
            let name = [l.replace('/', "-").as_bytes(), &x, b"z"].concat();
            let uri = [l.as_bytes(), &x, l.as_bytes()].concat();
            match k {
                0 => {
                    t(&mut d, b"- !");
                    t(&mut d, &name);
                    want.push(name)
                }
                1 => {
                    t(&mut d, b"- !!");
                    t(&mut d, &name);
                    want.push([b"tag:yaml.org,2002:", &name[..]].concat())
                }
                _ => {
                    t(&mut d, b"- !<");
                    t(&mut d, &uri);
                    t(&mut d, b">");
                    want.push(uri)
                }
            }
            t(&mut d, b" w\n- v");
            want.push(str_tag)
        }
        k @ 3..=4 => {
            // many tagged items
            let n = n.min(40);
            for i in 0..n {
                t(&mut d, if k == 3 { b"- !t" } else { b"- !<u:" });
                let y = if i == n / 2 { x } else { two(i) };
                t(&mut d, &y);
                t(&mut d, if k == 3 { b" w\n" } else { b"> 'w'\n" });
                want.push([if k == 3 { &b"t"[..] } else { b"u:" }, &y].concat());
                if i % 3 == 0 {
                    t(&mut d, b"- v\n");
                    want.push(str_tag.clone())
                }
            }
        }
        _ => {
            // many handles
            let n = n.min(40);
            for i in 0..n {
                t(&mut d, b"%TAG !h");
                t(&mut d, &two(i));
                t(&mut d, b"! p:");
                t(&mut d, &two(i));
                t(&mut d, b"/\n");
            }
            t(&mut d, b"---\n- !h00!a v\n- !h");
            t(&mut d, &x);
            t(&mut d, b"!b w");
            want.push(b"p:00/a".to_vec());
            want.push([b"p:", &x[..], b"/b"].concat());
            let digit = |c: u8| c >= b'0' && c <= b'9';
            bad = !(digit(x[0]) && digit(x[1]) && ((x[0] - b'0') as usize * 10 + (x[1] - b'0') as usize) < n)
        }
    }
    let r = Loader::<RcRepr>::new(&d).parse();
    match &r {
        Ok(v) => {
            cover(1);
            check(!bad && v.len() == 1, 21);
            let Yaml::Seq(s) = v[0].yaml() else { return check(false, 22) };
            check(s.len() == want.len() && s.iter().zip(&want).all(|(n, w)| n.tag().as_bytes() == &w[..] && matches!(n.yaml(), Yaml::Str(_))), 23)
        }
        Err(_) => {
            cover(2);
            check(bad, 24)
        }
    }
    forget((r, d, want))
}
/// Verbatim tags and prefixes with characters outside ASCII.
fn wides(k: u32) {
    let x = wide(choose(k));
    let mut d = vec![];
    let a = uri(&mut vec![], 1);
    let u = match choose(3) {
        0 => [&x[..], &a].concat(),
        1 => [&a[..], &x].concat(),
        _ => x,
    };
    let node = ["v", "'v'", "|\n  v"][choose(3) as usize].as_bytes();
    let want = match choose(4) {
        0 => {
            d.extend_from_slice(b"- !<");
            d.extend_from_slice(&u);
            d.extend_from_slice(b"> ");
            u
        }
        k => {
            let (h, n) = [("!", "!"), ("!!", "!!"), ("!e!", "!e!")][k as usize - 1];
            d.extend_from_slice([b"%TAG ", h.as_bytes(), b" "].concat().as_slice());
            d.extend_from_slice(&u);
            d.extend_from_slice([&b"\n---\n- "[..], n.as_bytes(), b"t "].concat().as_slice());
            [&u[..], b"t"].concat()
        }
    };
    d.extend_from_slice(node);
    d.extend_from_slice(b"\n- w");
    let r = Loader::<RcRepr>::new(&d).parse();
    match &r {
        Ok(v) => {
            cover(1);
            let Yaml::Seq(s) = v[0].yaml() else { return check(false, 25) };
            check(v.len() == 1 && s.len() == 2, 26);
            check(s[0].tag().as_bytes() == &want[..] && s[1].tag() == "tag:yaml.org,2002:str", 27)
        }
        Err(_) => check(false, 28),
    }
    forget((r, d, want))
}
harness! {
    c19_u1 => wides(WIDE);
    c19_lg => large();
    c19_all => tag(&[], &[], 1, (0, 4), 3, 1);
    c19_non => tag(&[], &[], 1, (5, 2), 3, 1);
    c19_len => tag(&[0, 1, 6], &[0, 14], 1, (0, 4), 1, 4);
    c19_d => tag(&[0, 4, 8], &[0, 2, 14], 8, (0, 8), 1, 2);
    c19_dd => tag(&[], &[0, 7], 8, (1, 6), 1, 1);
    c19_bad => tag(&[], &[], 1, (7, 1), 3, 1);
    c19_badd => tag(&[0, 3, 7, 9], &[0, 12, 15], 8, (7, 1), 1, 2);
}
