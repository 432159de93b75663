//! Documents with anchors and aliases at chosen places, with the trees both loading modes must give.
use super::super::util::*;
use super::CONTENT;
use yaml_peg::parser::{Anchors, Loader, PError};
use yaml_peg::repr::*;
use yaml_peg::*;

#[derive(Clone)]
pub enum T {
    S(Vec<u8>),
    L(Vec<T>),
    M(Vec<(T, T)>),
    /// A kept alias.
    A(u8),
}
pub fn is<R: Repr>(n: &Node<R>, t: &T) -> bool {
    match (n.yaml(), t) {
        (Yaml::Str(s), T::S(t)) => s.as_bytes() == &t[..],
        (Yaml::Seq(v), T::L(t)) => v.len() == t.len() && v.iter().zip(t).all(|(n, t)| is(n, t)),
        (Yaml::Map(m), T::M(t)) => m.len() == t.len() && m.iter().zip(t).all(|((k, v), (l, w))| is(k, l) && is(v, w)),
        (Yaml::Alias(s), T::A(c)) => s.len() == 1 && s.as_bytes()[0] == *c,
        _ => false,
    }
}
/// The tree of direct loading and the one with kept aliases.
pub type P = (T, T);
#[derive(Default)]
pub struct B {
    pub text: Vec<u8>,
    /// Definitions of every document in order.
    pub env: Vec<Vec<(u8, P)>>,
    pub docs: Vec<P>,
    pub dup: bool,
    pub undef: bool,
    /// Names are symbolic characters, not choices.
    pub symbolic: bool,
    n: u8,
}
impl B {
    pub fn t(&mut self, s: &str) {
        self.text.extend_from_slice(s.as_bytes())
    }
    fn name(&mut self, sigil: u8) -> u8 {
        let c = if self.symbolic {
            let c = sym::<1>()[0];
            assume(c == b'a' || c == b'b');
            c
        } else {
            b'a' + choose(2) as u8
        };
        self.text.push(sigil);
        self.text.push(c);
        c
    }
    fn plain(&mut self) -> P {
        self.n += 1;
        let mut c = b'v';
        if CONTENT {
            c = sym::<1>()[0];
            assume(c >= b'A' && c <= b'z' && c != b'[' && c != b']')
        }
        let s = vec![c, b'0' + self.n];
        self.text.extend_from_slice(&s);
        (T::S(s.clone()), T::S(s))
    }
    fn define(&mut self, x: u8, p: P) -> P {
        let e = self.env.last_mut().unwrap();
        if e.iter().any(|(y, _)| x == *y) {
            self.dup = true
        } else {
            e.push((x, p.clone()))
        }
        p
    }
    fn alias(&mut self) -> P {
        let x = self.name(b'*');
        let d = match self.env.last().unwrap().iter().find(|(y, _)| x == *y) {
            Some((_, p)) => p.0.clone(),
            None => {
                self.undef = true;
                T::S(vec![])
            }
        };
        (d, T::A(x))
    }
    fn list(v: Vec<P>) -> P {
        let (a, b) = v.into_iter().unzip();
        (T::L(a), T::L(b))
    }
    fn dict(v: Vec<(P, P)>) -> P {
        let (a, b) = v.into_iter().map(|((k, l), (v, w))| ((k, v), (l, w))).unzip();
        (T::M(a), T::M(b))
    }
    fn key(s: &str) -> P {
        (T::S(s.into()), T::S(s.into()))
    }
    fn simple(&mut self) -> P {
        match choose(3) {
            0 => self.plain(),
            1 => {
                let x = self.name(b'&');
                self.t(" ");
                let p = self.plain();
                self.define(x, p)
            }
            _ => self.alias(),
        }
    }
    /// A value: plain, anchored, an alias, or a flow collection of such.
    pub fn slot(&mut self, kinds: u32) -> P {
        match choose(kinds) {
            0 => self.plain(),
            1 => {
                let x = self.name(b'&');
                self.t(" ");
                let p = self.plain();
                self.define(x, p)
            }
            2 => self.alias(),
            3 => {
                let x = self.name(b'&');
                self.t(" [");
                let p = self.alias();
                self.t("]");
                self.define(x, Self::list(vec![p]))
            }
            4 => {
                let x = self.name(b'&');
                self.t(" {k: ");
                let p = self.simple();
                self.t("}");
                self.define(x, Self::dict(vec![(Self::key("k"), p)]))
            }
            _ => {
                self.t("[");
                let p = self.simple();
                self.t(", ");
                let q = self.simple();
                self.t("]");
                Self::list(vec![p, q])
            }
        }
    }
    /// One document of form `k`.
    pub fn doc(&mut self, k: u32, kinds: u32) {
        self.env.push(vec![]);
        let p = match k {
            0 => {
                self.t("[");
                let mut v = vec![];
                for i in 0..3 {
                    if i > 0 {
                        self.t(", ")
                    }
                    v.push(self.slot(kinds))
                }
                self.t("]\n");
                Self::list(v)
            }
            1 => {
                let mut v = vec![];
                for _ in 0..3 {
                    self.t("- ");
                    v.push(self.slot(kinds));
                    self.t("\n")
                }
                Self::list(v)
            }
            2 => {
                let mut v = vec![];
                for k in ["k", "l", "m"] {
                    self.t(k);
                    self.t(": ");
                    v.push((Self::key(k), self.slot(kinds)));
                    self.t("\n")
                }
                Self::dict(v)
            }
            3 => {
                // the anchor of a block collection, defined behind its content
                self.t("k: ");
                let x = self.name(b'&');
                let mut v = vec![];
                for _ in 0..2 {
                    self.t("\n  - ");
                    v.push(self.slot(kinds))
                }
                let p = self.define(x, Self::list(v));
                self.t("\nl: ");
                let q = self.slot(kinds);
                self.t("\n");
                Self::dict(vec![(Self::key("k"), p), (Self::key("l"), q)])
            }
            4 => {
                self.t("- ");
                let x = self.name(b'&');
                self.t("\n  k: ");
                let v = self.slot(kinds);
                self.t("\n  l: ");
                let w = self.slot(kinds);
                let p = self.define(x, Self::dict(vec![(Self::key("k"), v), (Self::key("l"), w)]));
                self.t("\n- ");
                let q = self.slot(kinds);
                self.t("\n");
                Self::list(vec![p, q])
            }
            5 => {
                // in front of a map and its first key: the map
                let x = self.name(b'&');
                self.t(" k: ");
                let v = self.slot(kinds);
                self.t("\nl: ");
                let w = self.slot(kinds);
                self.t("\n");
                self.define(x, Self::dict(vec![(Self::key("k"), v), (Self::key("l"), w)]))
            }
            11 => {
                // in front of the first key on a line of its own: the key
                self.t("z:\n  ");
                let x = self.name(b'&');
                self.t(" k: ");
                let k = self.define(x, Self::key("k"));
                let v = self.slot(kinds);
                self.t("\n  ");
                let y = self.name(b'&');
                self.t(" l: ");
                let l = self.define(y, Self::key("l"));
                let w = self.slot(kinds);
                self.t("\n");
                Self::dict(vec![(Self::key("z"), Self::dict(vec![(k, v), (l, w)]))])
            }
            6 => {
                self.t("? ");
                let k = self.slot(kinds);
                self.t("\n: ");
                let v = self.slot(kinds);
                self.t("\n");
                Self::dict(vec![(k, v)])
            }
            7 => {
                self.t("? ");
                let x = self.name(b'&');
                self.t("\n  - ");
                let k = self.slot(kinds);
                let k = self.define(x, Self::list(vec![k]));
                self.t("\n: ");
                let v = self.slot(kinds);
                self.t("\n");
                Self::dict(vec![(k, v)])
            }
            8 => {
                // the anchor of the whole document
                let x = self.name(b'&');
                let mut v = vec![];
                for _ in 0..2 {
                    self.t("\n- ");
                    v.push(self.slot(kinds))
                }
                self.t("\n");
                self.define(x, Self::list(v))
            }
            9 => {
                self.t("{k: ");
                let p = self.slot(kinds);
                self.t(", l: ");
                let q = self.slot(kinds);
                self.t("}\n");
                Self::dict(vec![(Self::key("k"), p), (Self::key("l"), q)])
            }
            _ => {
                let p = self.slot(kinds);
                self.t("\n");
                p
            }
        };
        self.docs.push(p)
    }
}
/// Direct loading: the tree, or an error.
pub fn direct<R: Repr>(b: &B) {
    let mut l: Loader<R> = Loader::new(&b.text);
    match l.parse() {
        Ok(v) => {
            cover(1);
            check(!b.dup, 1);
            check(!b.undef, 2);
            check(v.len() == b.docs.len(), 3);
            for (n, d) in v.iter().zip(&b.docs) {
                obs(n);
                check(is(n, &d.0), 4)
            }
            let a = l.get_anchors();
            check(defined(&a, b, |p| &p.0), 5);
            forget((v, a))
        }
        Err(e) => {
            cover(2);
            check(b.dup || b.undef, 6);
            check(matches!(e, PError::Terminate { .. }), 7);
            forget((e, l))
        }
    }
}
fn defined<R: Repr>(a: &[Anchors<R>], b: &B, f: fn(&P) -> &T) -> bool {
    a.len() == b.env.len()
        && a.iter().zip(&b.env).all(|(a, e)| {
            a.len() == e.len()
                && e.iter().all(|(x, p)| {
                    let s = unsafe { String::from_utf8_unchecked(vec![*x]) };
                    a.get(&s).is_some_and(|n| is(n, f(p)))
                })
        })
}
fn resolve<R: Repr>(n: &Node<R>, a: &Anchors<R>) -> Node<R> {
    let m = match n.as_anchor(a) {
        Ok(m) => m,
        Err(_) => return n.clone(),
    };
    match m.yaml() {
        Yaml::Seq(v) => v.iter().map(|x| resolve(x, a)).collect(),
        Yaml::Map(w) => w.iter().map(|(k, v)| (resolve(k, a), resolve(v, a))).collect(),
        _ => m.clone(),
    }
}
fn aliases<R: Repr>(n: &Node<R>, a: &Anchors<R>, e: &[(u8, P)]) {
    match n.yaml() {
        Yaml::Alias(s) => {
            let c = s.as_bytes()[0];
            match (n.as_anchor(a), e.iter().find(|(x, _)| *x == c)) {
                (Ok(m), Some((_, p))) => check(is(m, &p.1), 20),
                (Err(p), None) => check(p == n.pos(), 21),
                _ => check(false, 22),
            }
        }
        Yaml::Seq(v) => v.iter().for_each(|x| aliases(x, a, e)),
        Yaml::Map(m) => m.iter().for_each(|(k, v)| {
            aliases(k, a, e);
            aliases(v, a, e)
        }),
        _ => check(core::ptr::eq(n.as_anchor(a).unwrap_or(n), n), 23),
    }
}
fn kept<R: Repr>(d: &[u8]) -> Option<(Vec<Node<R>>, Vec<Anchors<R>>)> {
    let mut l: Loader<R> = Loader::new(d).cyclic_mode(true);
    match l.parse() {
        Ok(v) => Some((v, l.get_anchors())),
        Err(e) => {
            forget((e, l));
            None
        }
    }
}
/// Loading with kept aliases; dumping with the anchors and loading again.
pub fn cyclic<R: Repr>(b: &B, again: bool) {
    match kept::<R>(&b.text) {
        Some((v, a)) => {
            cover(1);
            check(!b.dup, 1);
            check(v.len() == b.docs.len(), 2);
            for (n, d) in v.iter().zip(&b.docs) {
                obs(n);
                check(is(n, &d.1), 3)
            }
            check(defined(&a, b, |p| &p.1), 4);
            for i in 0..v.len() {
                aliases(&v[i], &a[i], &b.env[i]);
                if !b.undef {
                    cover(3);
                    let r = resolve(&v[i], &a[i]);
                    check(is(&r, &b.docs[i].0), 5);
                    forget(r)
                }
            }
            if again {
                let d = dump(&v, &a);
                match kept::<R>(d.as_bytes()) {
                    Some((w, c)) => {
                        check(w.len() == v.len() && w.iter().zip(&b.docs).all(|(n, d)| is(n, &d.1)), 6);
                        check(defined(&c, b, |p| &p.1), 7);
                        forget((w, c))
                    }
                    None => check(false, 8),
                }
                forget(d)
            }
            forget((v, a))
        }
        None => {
            cover(2);
            check(b.dup, 9)
        }
    }
}
pub fn build(form: u32, kinds: u32, symbolic: bool) -> B {
    let mut b = B { symbolic, ..Default::default() };
    b.doc(form, kinds);
    b
}
/// Several documents: anchors belong to their own.
pub fn stream(kinds: u32, n: u32) -> B {
    let mut b = B::default();
    for i in 0..n {
        if i > 0 {
            b.t("---\n")
        }
        b.doc(if choose(2) == 0 { 10 } else { 9 }, kinds);
        if i + 1 < n && choose(2) == 0 {
            b.t("...\n")
        }
    }
    b
}

/// Any document: whatever direct loading accepts, both modes agree on.
pub fn both<R: Repr>(d: &[u8]) {
    let mut l: Loader<R> = Loader::new(d);
    match (l.parse(), kept::<R>(d)) {
        (Ok(v), Some((w, a))) => {
            cover(1);
            check(v.len() == w.len() && a.len() == w.len(), 1);
            for i in 0..v.len() {
                if plain(&w[i]) {
                    check(data(&w[i], &v[i]), 2)
                } else {
                    cover(3);
                    let r = resolve(&w[i], &a[i]);
                    check(data(&r, &v[i]), 2);
                    forget(r)
                }
            }
            // the anchors of direct loading are the resolved ones
            let b = l.get_anchors();
            check(a.len() == b.len(), 3);
            for (a, b) in a.iter().zip(&b) {
                check(a.len() == b.len(), 4);
                for ((k, v), (l, w)) in a.iter().zip(b) {
                    let r = resolve(v, a);
                    check(k == l && data(&r, w), 5);
                    forget(r)
                }
            }
            forget((v, w, a, b))
        }
        (Ok(v), None) => {
            check(false, 6);
            forget(v)
        }
        (Err(e), Some((w, a))) => {
            // an undefined alias, which is kept
            cover(2);
            check(w.iter().any(|n| !plain(n)), 7);
            forget((e, w, a))
        }
        (Err(e), None) => {
            out(7);
            forget(e)
        }
    }
}
fn plain<R: Repr>(n: &Node<R>) -> bool {
    match n.yaml() {
        Yaml::Alias(_) => false,
        Yaml::Seq(v) => v.iter().all(plain),
        Yaml::Map(m) => m.iter().all(|(k, v)| plain(k) && plain(v)),
        _ => true,
    }
}
/// The same data whatever the tags.
fn data<R: Repr>(a: &Node<R>, b: &Node<R>) -> bool {
    match (a.yaml(), b.yaml()) {
        (Yaml::Null, Yaml::Null) => true,
        (Yaml::Bool(x), Yaml::Bool(y)) => x == y,
        (Yaml::Int(x), Yaml::Int(y)) | (Yaml::Float(x), Yaml::Float(y)) | (Yaml::Str(x), Yaml::Str(y)) => x == y,
        (Yaml::Seq(x), Yaml::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| data(x, y)),
        (Yaml::Map(x), Yaml::Map(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, v), (l, w))| data(k, l) && data(v, w)),
        _ => false,
    }
}
/// Many anchors, chains of them, many documents, long names: an alias is the node of its whole name.
pub fn many<R: Repr>(cyclic: bool) {
    let n = [9usize, 34][choose(2) as usize];
    let form = choose(7);
    let x = sym::<2>();
    for c in x {
        assume(c >= b'0' && c <= b'9')
    }
    let i = (x[0] - b'0') as usize * 10 + (x[1] - b'0') as usize;
    let two = |i: usize| [b'0' + (i / 10) as u8, b'0' + (i % 10) as u8];
    let mut d: Vec<u8> = vec![];
    let t = |d: &mut Vec<u8>, s: &str| d.extend_from_slice(s.as_bytes());
    match form {
        0 | 1 => {
            for k in 0..n {
                t(&mut d, "- &n");
                d.extend_from_slice(&two(k));
                t(&mut d, " v");
                d.extend_from_slice(&two(k));
                d.push(b'\n')
            }
            t(&mut d, ["- *n", "- &n"][form as usize]);
            d.extend_from_slice(&x);
            t(&mut d, [" \n", " v\n"][form as usize])
        }
        2 => {
            t(&mut d, "- &n00 v\n");
            for k in 1..n {
                t(&mut d, "- &n");
                d.extend_from_slice(&two(k));
                t(&mut d, " [*n");
                d.extend_from_slice(&two(k - 1));
                t(&mut d, "]\n")
            }
            t(&mut d, "- *n");
            d.extend_from_slice(&x);
            d.push(b'\n')
        }
        3 => {
            for k in 0..n {
                t(&mut d, "---\n- &a v");
                d.extend_from_slice(&two(k));
                t(&mut d, "\n- &n");
                d.extend_from_slice(&two(k));
                t(&mut d, " w\n- *a\n");
                if k + 1 == n {
                    t(&mut d, "- *n");
                    d.extend_from_slice(&x);
                    d.push(b'\n')
                }
            }
        }
        4 => {
            t(&mut d, "y: x\n");
            for k in 0..n {
                t(&mut d, "&n");
                d.extend_from_slice(&two(k));
                t(&mut d, " k");
                d.extend_from_slice(&two(k));
                t(&mut d, ": {l: *n");
                d.extend_from_slice(&two(k));
                t(&mut d, "}\n")
            }
            t(&mut d, "z: *n");
            d.extend_from_slice(&x);
            d.push(b'\n')
        }
        _ => {
            // a long name with two digits of its own
            let l = "b".repeat(n);
            let name = |d: &mut Vec<u8>, y: &[u8]| {
                t(d, &l);
                d.extend_from_slice(y);
                if form == 6 {
                    t(d, &l)
                }
            };
            t(&mut d, "{k: &");
            name(&mut d, b"07");
            t(&mut d, " [1], l: *");
            name(&mut d, &x);
            t(&mut d, " }")
        }
    }
    let good = match form {
        0 | 2 | 4 => i < n,
        1 => i >= n,
        3 => i + 1 == n,
        _ => x[0] == b'0' && x[1] == b'7',
    };
    // kept aliases need no definition, but two definitions of a name are an error in either mode
    let ok = good || cyclic && form != 1;
    let mut l: Loader<R> = Loader::new(&d).cyclic_mode(cyclic);
    let v = match l.parse() {
        Ok(v) => v,
        Err(e) => {
            cover(2);
            check(!ok, 60);
            check(matches!(e, PError::Terminate { .. }), 61);
            return forget((e, l));
        }
    };
    cover(1);
    check(ok, 62);
    let a = l.get_anchors();
    let docs = if form == 3 { n } else { 1 };
    check(v.len() == docs && a.len() == docs, 63);
    let text = |y: &Node<R>, s: &[u8]| matches!(y.yaml(), Yaml::Str(t) if t.as_bytes() == s);
    let two_of = |p: u8, k: usize| [p, two(k)[0], two(k)[1]];
    let alias = |y: &Node<R>, s: &[u8]| matches!(y.yaml(), Yaml::Alias(t) if t.as_bytes() == s);
    let last = v.last().unwrap();
    let named = |p: &[u8], y: &[u8], q: &[u8]| [p, y, q].concat();
    match form {
        0 | 1 | 2 => {
            let Yaml::Seq(s) = last.yaml() else { return check(false, 64) };
            check(s.len() == n + 1, 65);
            check(a[0].len() == n + (form == 1) as usize, 66);
            for k in 0..n {
                let y = &s[k];
                let z = a[0].get(unsafe { core::str::from_utf8_unchecked(&two_of(b'n', k)) });
                check(z.is_some_and(|z| same(z, y)), 67);
                if form < 2 || k == 0 {
                    check(if form < 2 { text(y, &two_of(b'v', k)) } else { text(y, b"v") }, 68)
                } else {
                    let Yaml::Seq(w) = y.yaml() else { return check(false, 69) };
                    check(w.len() == 1, 70);
                    check(if cyclic { alias(&w[0], &two_of(b'n', k - 1)) } else { same(&w[0], &s[k - 1]) }, 71)
                }
            }
            match form {
                1 => check(text(&s[n], b"v"), 72),
                _ if cyclic => {
                    check(alias(&s[n], &named(b"n", &x, b"")), 73);
                    match s[n].as_anchor(&a[0]) {
                        Ok(m) => check(good && same(m, &s[conc(i as u64) as usize]), 74),
                        Err(p) => check(!good && p == s[n].pos(), 75),
                    }
                }
                _ => check(same(&s[n], &s[conc(i as u64) as usize]), 76),
            }
        }
        3 => {
            for k in 0..n {
                let Yaml::Seq(s) = v[k].yaml() else { return check(false, 77) };
                check(a[k].len() == 2, 78);
                check(text(&s[0], &two_of(b'v', k)), 79);
                check(if cyclic { alias(&s[2], b"a") && s[2].as_anchor(&a[k]).is_ok_and(|m| same(m, &s[0])) } else { same(&s[2], &s[0]) }, 80);
                if k + 1 == n {
                    check(s.len() == 4, 81);
                    check(if cyclic { s[3].as_anchor(&a[k]).is_ok() == good } else { text(&s[3], b"w") }, 82)
                }
            }
        }
        4 => {
            let Yaml::Map(m) = last.yaml() else { return check(false, 83) };
            check(m.len() == n + 2 && a[0].len() == n, 84);
            for (k, (y, z)) in m.iter().skip(1).enumerate() {
                if k < n {
                    check(text(y, &two_of(b'k', k)), 85);
                    let Yaml::Map(z) = z.yaml() else { return check(false, 86) };
                    let z = z.iter().next().unwrap().1;
                    check(if cyclic { alias(z, &two_of(b'n', k)) } else { text(z, &two_of(b'k', k)) }, 87)
                } else {
                    check(if cyclic { alias(z, &named(b"n", &x, b"")) } else { text(z, &named(b"k", &x, b"")) }, 88)
                }
            }
        }
        _ => {
            let Yaml::Map(m) = last.yaml() else { return check(false, 89) };
            let z: Vec<_> = m.iter().map(|x| x.1).collect();
            let l = "b".repeat(n);
            let q = if form == 6 { l.as_bytes() } else { b"" };
            check(z.len() == 2 && a[0].len() == 1, 90);
            check(if cyclic { alias(z[1], &named(l.as_bytes(), &x, q)) && z[1].as_anchor(&a[0]).is_ok() == good } else { same(z[0], z[1]) }, 91)
        }
    }
    if cyclic {
        let e = dump(&v, &a);
        match kept::<R>(e.as_bytes()) {
            Some((w, c)) => {
                check(w.len() == v.len() && w.iter().zip(&v).all(|(n, d)| same(n, d)), 92);
                check(c.iter().zip(&a).all(|(c, a)| c.len() == a.len() && a.iter().all(|(k, v)| c.get(k).is_some_and(|n| same(n, v)))), 93);
                forget((w, c))
            }
            None => check(false, 94),
        }
        forget(e)
    }
    forget((v, a, d))
}
