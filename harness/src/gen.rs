//! Trees written as text in chosen styles, with the position of every node.
use super::super::util::*;
use yaml_peg::parser::Loader;
use yaml_peg::repr::*;
use yaml_peg::*;

pub enum K {
    N,
    I(Vec<u8>),
    S(Vec<u8>),
    L(Vec<T>),
    M(Vec<(T, T)>),
}
/// A node and the position of its content (none: not specified).
pub struct T {
    pub k: K,
    pub pos: Option<usize>,
}
pub fn is<R: Repr>(n: &Node<R>, t: &T) -> bool {
    match (n.yaml(), &t.k) {
        (Yaml::Null, K::N) => true,
        (Yaml::Int(s), K::I(t)) => s.as_bytes() == &t[..],
        (Yaml::Str(s), K::S(t)) => s.as_bytes() == &t[..],
        (Yaml::Seq(v), K::L(t)) => v.len() == t.len() && v.iter().zip(t).all(|(n, t)| is(n, t)),
        (Yaml::Map(m), K::M(t)) => m.len() == t.len() && m.iter().zip(t).all(|((k, v), (l, w))| is(k, l) && is(v, w)),
        _ => false,
    }
}
pub fn at<R: Repr>(n: &Node<R>, t: &T) -> bool {
    if let Some(p) = t.pos {
        if n.pos() != p as u64 {
            return false;
        }
    }
    match (n.yaml(), &t.k) {
        (Yaml::Seq(v), K::L(t)) => v.iter().zip(t).all(|(n, t)| at(n, t)),
        (Yaml::Map(m), K::M(t)) => m.iter().zip(t).all(|((k, v), (l, w))| at(k, l) && at(v, w)),
        _ => true,
    }
}

fn eq(a: &T, b: &T) -> bool {
    match (&a.k, &b.k) {
        (K::N, K::N) => true,
        (K::I(x), K::I(y)) | (K::S(x), K::S(y)) => x == y,
        (K::L(x), K::L(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| eq(x, y)),
        (K::M(x), K::M(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, v), (l, w))| eq(k, l) && eq(v, w)),
        _ => false,
    }
}

/// What a document is made of.
#[derive(Clone, Copy)]
pub struct Cfg {
    /// Collections left, entries per collection.
    pub left: u32,
    pub entries: u32,
    /// Kinds of leaves in a line, other kinds (none, literal block).
    pub leaf: u32,
    pub empty: u32,
    /// Styles: block, flow, complex keys.
    pub block: bool,
    pub flow: bool,
    pub complex: bool,
    /// Indents of collections in maps: how many of `IND` (0 means the one of the dumper).
    pub ind: u32,
    /// Block collections of items on a line of their own as well.
    pub own: bool,
    /// Anchors and tags in front of nodes.
    pub props: bool,
    /// Properties on a line of their own as well.
    pub lone: bool,
    /// Plain strings in two lines as well.
    pub wrap: bool,
    /// So many spaces and line breaks inside flow collections.
    pub wide: u32,
    /// Every word has a symbolic character.
    pub sym: bool,
    /// Places at the root.
    pub root: u32,
    /// So many entries before or after the chosen ones, in every collection; so long words.
    pub fill: u32,
    pub pad: u32,
    /// Every word has one of so many characters outside ASCII (as `wide` has them; certain ones unless `sym`).
    pub uni: u32,
}
pub const CFG: Cfg = Cfg { left: 3, entries: 2, leaf: 1, empty: 0, block: true, flow: false, complex: false, ind: 1, own: false, props: false, lone: false, wrap: false, wide: 0, sym: true, root: 1, fill: 0, pad: 0, uni: 0 };
const IND: [usize; 4] = [2, 4, 1, 3];

pub struct G {
    pub text: Vec<u8>,
    pub c: Cfg,
    uni: Option<(u32, bool)>,
    n: u8,
    a: u8,
    /// Column of the content behind a line of properties, where there may be one.
    col: Option<usize>,
    /// Line breaks inside plain strings.
    pub mid: Vec<usize>,
}
/// Where a value is written.
#[derive(Clone, Copy, PartialEq)]
enum At {
    Root,
    /// Behind `-` in the column.
    Item,
    /// Behind `:` of a map in the column.
    Value,
    /// Behind `?`, or `:` of a complex entry, of a map in the column.
    Complex,
}
impl G {
    pub fn new(c: Cfg) -> Self {
        let uni = if c.uni > 0 { Some((choose(c.uni), choose(2) == 1)) } else { None };
        G { text: vec![], c, uni, n: 0, a: 0, col: None, mid: vec![] }
    }
    fn t(&mut self, s: &str) {
        self.text.extend_from_slice(s.as_bytes())
    }
    fn sp(&mut self, n: usize) {
        for _ in 0..n {
            self.text.push(b' ')
        }
    }
    fn here(&self) -> Option<usize> {
        Some(self.text.len())
    }
    fn word(&mut self) -> Vec<u8> {
        self.n += 1;
        if let Some((k, first)) = self.uni {
            let x = wide(if self.c.sym { k } else { k + 2 });
            let c = [b'a' + self.n];
            return if first { [&x[..], &c[..]].concat() } else { [&c[..], &x[..]].concat() };
        }
        let mut c = b'v';
        if self.c.sym {
            c = sym::<1>()[0];
            assume(in_set(c, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!$%&()*+-./;<=>?@^_`|~"));
        }
        let mut w = vec![b'a' + self.n, c];
        w.resize(2 + self.c.pad as usize, b'x');
        w
    }
    /// Entry number `i` of those which are in any collection: the word of it.
    fn fixed(&mut self, p: u8, i: u32) -> T {
        let pos = self.here();
        let w = vec![p, b'0' + (i / 10) as u8, b'0' + (i % 10) as u8];
        self.text.extend_from_slice(&w);
        T { k: K::S(w), pos }
    }
    fn props(&mut self) {
        if self.c.props {
            match choose(4) {
                0 => {}
                1 => {
                    self.a += 1;
                    self.text.extend_from_slice(&[b'&', b'a' + self.a, b' '])
                }
                2 => self.t("!x "),
                _ => {
                    self.a += 1;
                    self.t("!!x &");
                    self.text.extend_from_slice(&[b'a' + self.a, b' '])
                }
            }
            if let Some(col) = self.col.take() {
                if self.c.lone && self.text.last() == Some(&b' ') && choose(2) == 1 {
                    self.text.pop();
                    self.t("\n");
                    self.sp(col)
                }
            }
        }
    }
    /// A scalar in the current line.
    fn leaf(&mut self, flow: bool, key: bool) -> T {
        if !key {
            if flow {
                self.col = Some(1)
            }
            self.props();
            self.col = None
        }
        let pos = self.here();
        let kinds = if key { self.c.leaf.min(3) } else { self.c.leaf };
        let k = match choose(kinds) {
            0 => {
                let w = self.word();
                self.text.extend_from_slice(&w);
                K::S(w)
            }
            1 => {
                let w = self.word();
                self.t("\"");
                self.text.extend_from_slice(&w);
                self.t("\"");
                K::S(w)
            }
            2 => {
                self.n += 1;
                let w = vec![b'1', b'0' + self.n];
                self.text.extend_from_slice(&w);
                K::I(w)
            }
            3 => {
                self.t("~");
                K::N
            }
            4 => {
                let w = self.word();
                let x = self.word();
                let s = [&w[..], b" ", &x[..]].concat();
                self.text.extend_from_slice(&s);
                K::S(s)
            }
            _ => {
                let w = self.word();
                self.t(if flow { "'''" } else { "'- ''" });
                self.text.extend_from_slice(&w);
                self.t("'");
                K::S([if flow { &b"'"[..] } else { &b"- '"[..] }, &w[..]].concat())
            }
        };
        T { k, pos }
    }
    fn gap(&mut self, min: &str) {
        let n = if self.c.wide > 0 { choose(3) } else { 0 };
        if n > 0 {
            self.c.wide -= 1
        }
        match n {
            0 => self.t(min),
            1 => self.t("  "),
            _ => self.t("\n "),
        }
    }
    fn take(&mut self) -> bool {
        if self.c.left == 0 {
            return false;
        }
        let b = choose(2) == 1;
        if b {
            self.c.left -= 1
        }
        b
    }
    fn flow_any(&mut self) -> T {
        if !self.take() {
            return self.leaf(true, false);
        }
        self.flow()
    }
    fn flow(&mut self) -> T {
        self.col = if self.text.last() == Some(&b' ') { None } else { Some(1) };
        self.props();
        self.col = None;
        let pos = self.here();
        let map = choose(2) == 1;
        self.t(if map { "{" } else { "[" });
        self.gap("");
        let n = choose(self.c.entries + 1);
        let (mut v, mut m) = (vec![], vec![]);
        let f = self.c.fill;
        let first = if f > 0 && choose(2) == 1 { 0 } else { n };
        for i in 0..n + f {
            if i > 0 {
                self.t(",");
                self.gap(" ")
            }
            if i >= first && i < first + f {
                let k = self.fixed(b'y', i);
                if map {
                    self.t(": ");
                    let x = self.fixed(b'z', i);
                    m.push((k, x))
                } else {
                    v.push(k)
                }
            } else if map {
                let k = match if self.c.complex { choose(3) } else { 0 } {
                    0 => self.leaf(true, true),
                    1 => self.flow_any(),
                    _ => {
                        self.t("?");
                        self.gap(" ");
                        self.flow_any()
                    }
                };
                self.t(":");
                self.gap(" ");
                let x = self.flow_any();
                // a later entry replaces one with an equal key
                assume(!m.iter().any(|(l, _)| eq(l, &k)));
                m.push((k, x))
            } else if self.c.complex && self.c.empty > 0 && choose(2) == 1 {
                // a key alone
                self.t("?");
                self.gap(" ");
                let k = self.flow_any();
                v.push(T { k: K::M(vec![(k, T { k: K::N, pos: None })]), pos: None })
            } else {
                let x = self.flow_any();
                v.push(x)
            }
            self.gap("")
        }
        if n + f > 0 && self.c.wide > 0 && choose(2) == 1 {
            self.c.wide -= 1;
            self.t(",");
            self.gap("")
        }
        self.t(if map { "}" } else { "]" });
        T { k: if map { K::M(m) } else { K::L(v) }, pos }
    }
    /// A value behind an indicator in the column `col`; writes its line ends.
    fn value(&mut self, col: usize, at: At) -> T {
        if !self.take() {
            // leaf
            if at != At::Root {
                match if self.c.empty > 0 { choose(1 + self.c.empty) } else { 0 } {
                    1 => {
                        let pos = self.here();
                        self.t("\n");
                        return T { k: K::N, pos };
                    }
                    // a literal block, always two deeper
                    2 if at != At::Complex => {
                        self.t(" |\n");
                        let pos = self.here().map(|p| p - 2);
                        self.sp(col + 2);
                        let mut w = self.word();
                        self.text.extend_from_slice(&w);
                        self.t("\n");
                        w.push(b'\n');
                        return T { k: K::S(w), pos };
                    }
                    _ => {}
                }
            }
            if at != At::Root {
                if self.c.own && choose(2) == 0 {
                    self.t("\n");
                    self.sp(col + 2);
                    self.col = Some(col + 2)
                } else {
                    self.t(" ")
                }
            }
            if at == At::Root {
                self.col = Some(col)
            }
            let mut k = self.leaf(false, false);
            if self.c.wrap && k.pos.map_or(false, |p| !b"'\"".contains(&self.text[p])) && choose(2) == 1 {
                if let K::S(s) = &mut k.k {
                    self.mid.push(self.text.len());
                    self.t("\n");
                    self.sp(if at == At::Root { col } else { col + 2 });
                    s.push(b' ');
                    let w = self.word();
                    s.extend_from_slice(&w);
                    self.text.extend_from_slice(&w)
                }
            }
            self.t("\n");
            return k;
        }
        if self.c.flow && (!self.c.block || choose(2) == 1) {
            if at != At::Root {
                self.t(" ")
            }
            let k = self.flow();
            self.t("\n");
            return k;
        }
        let map = choose(2) == 1;
        match at {
            At::Root => {
                if self.c.lone {
                    let n = self.text.len();
                    self.props();
                    if self.text.len() > n {
                        self.text.pop();
                        self.t("\n")
                    }
                }
                self.block(col, map, false)
            }
            At::Item if !self.c.own || choose(2) == 0 => {
                self.t(" ");
                self.block(col + 2, map, true)
            }
            At::Complex if !map && choose(2) == 0 => {
                self.t(" ");
                self.block(col + 2, map, true)
            }
            _ => {
                if self.c.lone && choose(2) == 1 {
                    self.t("\n");
                    self.sp(col + 2);
                    let n = self.text.len();
                    self.props();
                    assume(self.text.len() > n);
                } else if self.c.props {
                    self.t(" ");
                    self.props();
                }
                self.t("\n");
                let mut d = if self.c.ind > 1 { IND[choose(self.c.ind) as usize] } else { 2 };
                if !map && at != At::Item && self.c.ind > 0 && choose(2) == 1 {
                    d = 0
                }
                self.block(col + d, map, false)
            }
        }
    }
    /// A block collection in the column; the first line may have begun.
    fn block(&mut self, col: usize, map: bool, begun: bool) -> T {
        let mut pos = None;
        let n = 1 + choose(self.c.entries);
        let (mut v, mut m) = (vec![], Vec::<(T, T)>::new());
        let f = self.c.fill;
        let first = if f > 0 && choose(2) == 1 { 0 } else { n };
        for i in 0..n + f {
            if i > 0 || !begun {
                self.sp(col)
            }
            if i == 0 {
                pos = self.here()
            }
            if i >= first && i < first + f {
                self.t(if map { "" } else { "- " });
                let k = self.fixed(b'y', i);
                if map {
                    self.t(": ");
                    let x = self.fixed(b'z', i);
                    m.push((k, x))
                } else {
                    v.push(k)
                }
                self.t("\n")
            } else if map {
                let c = self.c.complex && choose(2) == 1;
                let k = if c {
                    self.t("?");
                    let k = self.value(col, At::Complex);
                    // The value may be omitted
                    if self.c.empty > 0 && choose(2) == 1 {
                        assume(!m.iter().any(|(l, _)| eq(l, &k)));
                        m.push((k, T { k: K::N, pos: None }));
                        continue;
                    }
                    self.sp(col);
                    k
                } else if self.c.complex && self.c.flow && self.take() {
                    self.c.props = false;
                    self.flow()
                } else {
                    self.leaf(false, true)
                };
                self.t(":");
                let x = self.value(col, if c { At::Complex } else { At::Value });
                // a later entry replaces one with an equal key
                assume(!m.iter().any(|(l, _)| eq(l, &k)));
                m.push((k, x))
            } else {
                self.t("-");
                let x = self.value(col, At::Item);
                v.push(x)
            }
        }
        T { k: if map { K::M(m) } else { K::L(v) }, pos }
    }
    /// A document.
    pub fn doc(&mut self) -> T {
        let mut col = 0;
        match if self.c.root > 1 { choose(self.c.root) } else { 0 } {
            0 => {}
            1 => self.t("---\n"),
            2 => self.t("\n"),
            3 => {
                self.t("---\n");
                col = 1
            }
            _ => self.t("--- # c\n"),
        }
        self.value(col, At::Root)
    }
}
/// Generate a document and judge its parse.
/// The node of the same data has the same position.
fn same_pos(a: &NodeRc, n: &NodeRc) -> Option<bool> {
    if std::rc::Rc::ptr_eq(a.rc_ref(), n.rc_ref()) {
        return Some(a.pos() == n.pos());
    }
    match n.yaml() {
        Yaml::Seq(v) => v.iter().find_map(|n| same_pos(a, n)),
        Yaml::Map(m) => m.iter().find_map(|(k, v)| same_pos(a, k).or_else(|| same_pos(a, v))),
        _ => None,
    }
}
pub fn run(c: Cfg, ok: impl Fn(&NodeRc, &T) -> bool) {
    let mut g = G::new(c);
    let t = g.doc();
    let mut l = Loader::<RcRepr>::new(&g.text);
    let r = l.parse();
    match &r {
        Ok(v) => {
            check(v.len() == 1, 1);
            check(ok(&v[0], &t), 2);
            if g.a > 0 {
                let a = l.get_anchors();
                check(a.len() == 1 && a[0].len() == g.a as usize, 4);
                // The recorded anchors are the nodes of the tree
                for n in a[0].values() {
                    check(same_pos(n, &v[0]) == Some(true), 5)
                }
                forget(a)
            }
            cover(match t.k {
                K::L(_) => 1,
                K::M(_) => 2,
                _ => 3,
            });
            obs(&v[0])
        }
        Err(_) => check(false, 3),
    }
    forget(r);
    forget(t);
    forget(g)
}
