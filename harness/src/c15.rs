use super::util::*;
use yaml_peg::parser::Loader;
use yaml_peg::repr::*;
use yaml_peg::*;

#[derive(Clone, Copy)]
struct Cfg {
    /// Kinds of units in the content, see `unit`.
    kinds: u32,
    len: u32,
    /// Line breaks inside.
    fold: bool,
    /// Contexts: from, number of them.
    at: (u32, u32),
    double: u32,
}
/// Raw characters of a content: everything but white space, quotes and backslashes.
const RAW: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&()*+,-./:;<=>?@[]^_`{|}~";
struct Q {
    text: Vec<u8>,
    want: Vec<u8>,
    double: bool,
    eol: &'static [u8],
    ind: usize,
    /// Raw white space at the end of the content so far.
    ws: usize,
    /// The content so far ends with a line break written as an escape.
    esc: bool,
    fold: bool,
}
impl Q {
    fn raw(&mut self, s: &[u8]) {
        self.text.extend_from_slice(s);
        self.want.extend_from_slice(s);
        self.ws = 0;
        self.esc = false;
        self.fold = false;
    }
    fn pair(&mut self, s: &[u8], c: u8) {
        self.text.extend_from_slice(s);
        self.want.push(c);
        self.ws = 0;
        self.esc = c == b'\n';
        self.fold = false;
    }
    fn unit(&mut self, kind: u32) {
        match kind {
            // Any character
            0 => {
                let c = sym::<1>()[0];
                assume(in_set(c, RAW));
                self.raw(&[c])
            }
            // The own quote
            1 => {
                if self.double {
                    self.pair(b"\\\"", b'"')
                } else {
                    self.pair(b"''", b'\'')
                }
            }
            // A space
            2 => {
                self.text.push(b' ');
                if !self.fold {
                    self.want.push(b' ');
                    self.ws += 1;
                }
            }
            // A backslash
            3 => {
                if self.double {
                    self.pair(b"\\\\", b'\\')
                } else {
                    self.raw(b"\\")
                }
            }
            // The other quote
            4 => self.raw(if self.double { b"'" } else { b"\"" }),
            // A line break as an escape
            5 => {
                if self.double {
                    self.pair(b"\\n", b'\n')
                } else {
                    self.raw(b"\\n")
                }
            }
            // Other escapes
            6 => {
                assume(self.double);
                match choose(4) {
                    0 => self.pair(b"\\t", b'\t'),
                    1 => self.pair(b"\\r", b'\r'),
                    2 => self.pair(b"\\b", 8),
                    _ => self.pair(b"\\f", 12),
                }
            }
            // Characters of several bytes, white space of other kinds among them
            7 => match choose(6) {
                0 => self.raw("\u{a0}".as_bytes()),
                1 => self.raw("\u{3000}".as_bytes()),
                2 => self.raw("\u{e9}".as_bytes()),
                3 => self.raw("\u{2028}".as_bytes()),
                4 => self.raw("\u{1f600}".as_bytes()),
                _ => self.raw("\u{85}".as_bytes()),
            },
            // A tabulator
            8 => {
                self.text.push(b'\t');
                if !self.fold {
                    self.want.push(b'\t');
                    self.ws += 1;
                }
            }
            // Line breaks, the lines between with white space
            9 => {
                assume(!self.fold && !self.esc);
                let n = 1 + choose(3);
                let blank = choose(2) == 1;
                let k = self.want.len() - self.ws;
                self.want.truncate(k);
                self.ws = 0;
                for i in 0..n {
                    self.text.extend_from_slice(self.eol);
                    if blank && i + 1 < n {
                        self.text.extend_from_slice(b" ");
                    }
                }
                for _ in 0..self.ind {
                    self.text.push(b' ')
                }
                if n == 1 {
                    self.want.push(b' ')
                } else {
                    for _ in 1..n {
                        self.want.push(b'\n')
                    }
                }
                self.fold = true
            }
            // An escaped line break
            _ => {
                assume(self.double && !self.fold);
                self.text.push(b'\\');
                let n = choose(3);
                self.text.extend_from_slice(self.eol);
                for i in 0..n {
                    if i == 1 {
                        self.text.push(b' ')
                    }
                    self.text.extend_from_slice(self.eol);
                    self.want.push(b'\n')
                }
                for _ in 0..self.ind {
                    self.text.push(b' ')
                }
                self.ws = 0;
                self.esc = false;
                self.fold = true
            }
        }
    }
}
/// Text before, text behind; the content is the one string which is not a word of them.
fn around(at: u32) -> (&'static [u8], &'static [u8], bool) {
    match at {
        0 => (b"", b"", true),
        1 => (b"k: ", b"", true),
        2 => (b"k: ", b"\nl: b\n", true),
        3 => (b"- ", b"\n- b\n", true),
        4 => (b"[", b"]", true),
        5 => (b"[", b", b]\n", true),
        6 => (b"{k: ", b", l: b}\n", true),
        7 => (b"k: ", b"  # c\nl: b\n", true),
        8 => (b"- &a ", b"\n- b\n", true),
        9 => (b"k:\n  l: ", b" \n  m: b", true),
        10 => (b"k:\n  - - ", b"\n    - b", true),
        11 => (b"--- ", b"\n...\n--- b\n", true),
        12 => (b"k: !!x ", b"\nl: b", true),
        13 => (b"k:\n  ", b"\nl: b", true),
        14 => (b"- k: ", b"\n  l: b\n", true),
        15 => (b"? ", b"\n: b", true),
        16 => (b"", b": b", false),
        17 => (b"{", b": b}", false),
        18 => (b"k:\n  ", b": b\n  'long key': b", false),
        19 => (b"{long key: a, ", b" : b}", false),
        20 => (b"- ", b": b\n", false),
        _ => (b"&a ", b": b\n", false),
    }
}
/// The strings of the nodes in order.
fn words<R: Repr>(n: &Node<R>, v: &mut Vec<Vec<u8>>) -> bool {
    match n.yaml() {
        Yaml::Str(s) => {
            v.push(s.as_bytes().to_vec());
            true
        }
        Yaml::Seq(s) => s.iter().all(|n| words(n, v)),
        Yaml::Map(m) => m.iter().all(|(k, w)| words(k, v) && words(w, v)),
        _ => false,
    }
}
fn shape<R: Repr>(n: &Node<R>, v: &mut Vec<u8>) {
    match n.yaml() {
        Yaml::Str(_) => v.push(b's'),
        Yaml::Seq(s) => {
            v.push(b'[');
            s.iter().for_each(|n| shape(n, v));
            v.push(b']');
        }
        Yaml::Map(m) => {
            v.push(b'{');
            for (k, w) in m {
                shape(k, v);
                shape(w, v);
            }
            v.push(b'}');
        }
        _ => v.push(b'?'),
    }
}
fn docs(text: &[u8]) -> Option<(Vec<Vec<u8>>, Vec<u8>)> {
    let v = Loader::<RcRepr>::new(text).parse().ok()?;
    let (mut w, mut s) = (vec![], vec![]);
    for n in &v {
        if !words(n, &mut w) {
            return None;
        }
        shape(n, &mut s);
        s.push(b'.');
    }
    forget(v);
    Some((w, s))
}
fn q(c: Cfg) {
    let at = c.at.0 + choose(c.at.1);
    let (before, after, value) = around(at);
    let double = if c.double == 2 { choose(2) == 1 } else { c.double == 1 };
    let (eol, ind): (&[u8], usize) = if c.fold {
        assume(value);
        match choose(4) {
            0 => (b"\n", 3),
            1 => (b"\r\n", 6),
            2 => (b"\n", if at == 0 { 0 } else { 5 }),
            _ => (b"\r", 4),
        }
    } else {
        (b"\n", 3)
    };
    let mut q = Q { text: before.to_vec(), want: vec![], double, eol, ind, ws: 0, esc: false, fold: false };
    let quote = if double { b'"' } else { b'\'' };
    q.text.push(quote);
    let n = choose(c.len + 1);
    let mut folds = 0;
    for _ in 0..n {
        let k = choose(c.kinds + if c.fold { 2 } else { 0 });
        let k = if k >= c.kinds { 9 + k - c.kinds } else { k };
        folds += (k >= 9) as u32;
        q.unit(k);
    }
    assume(!c.fold || folds > 0);
    q.text.push(quote);
    q.text.extend_from_slice(after);
    // The same document with a word instead tells the shape and the place
    let mut plain = before.to_vec();
    plain.extend_from_slice(b"'q'");
    plain.extend_from_slice(after);
    let (w, s) = docs(&plain).unwrap();
    let i = w.iter().position(|w| w == b"q").unwrap();
    match docs(&q.text) {
        None => check(false, 1),
        Some((v, t)) => {
            check(t == s, 2);
            check(v.len() == w.len(), 3);
            check(v[i] == q.want, 4);
            for j in 0..w.len() {
                check(j == i || v[j] == w[j], 5);
            }
        }
    }
    cover(1);
}
/// Long contents: a unit many times, with units of any kind before, amid or after it.
fn long(kinds: u32, at: (u32, u32)) {
    let at = at.0 + choose(at.1);
    let (before, after, value) = around(at);
    let double = choose(2) == 1;
    let mut q = Q { text: before.to_vec(), want: vec![], double, eol: b"\n", ind: 3, ws: 0, esc: false, fold: false };
    let quote = if double { b'"' } else { b'\'' };
    q.text.push(quote);
    let n = 40;
    let u = choose(8);
    let place = choose(3);
    let k = choose(kinds);
    assume(value || u < 5 && k < 9);
    let mut rep = |q: &mut Q, n: u32| {
        for i in 0..n {
            match u {
                0 => q.raw(b"a"),
                1 => q.unit(1),
                2 => q.unit(3),
                3 => {
                    q.raw(b"ab");
                    q.unit(2)
                }
                4 => q.raw("\u{20ac}".as_bytes()),
                5 | 6 => {
                    // lines of words, or with blank lines between them
                    q.raw(b"w");
                    q.ws = 0;
                    if u == 5 {
                        q.text.extend_from_slice(b"\n   ");
                        q.want.push(b' ')
                    } else {
                        q.text.extend_from_slice(b"\n\n\n   ");
                        q.want.extend_from_slice(b"\n\n")
                    }
                    q.raw(b"v");
                    if i + 1 < n {
                        q.unit(2)
                    }
                }
                _ => {
                    assume(q.double);
                    q.unit(5)
                }
            }
        }
    };
    match place {
        0 => {
            q.unit(k);
            rep(&mut q, n)
        }
        1 => {
            rep(&mut q, n / 2);
            q.unit(k);
            rep(&mut q, n - n / 2)
        }
        _ => {
            rep(&mut q, n);
            q.unit(k)
        }
    }
    q.text.push(quote);
    q.text.extend_from_slice(after);
    let mut plain = before.to_vec();
    plain.extend_from_slice(b"'q'");
    plain.extend_from_slice(after);
    let (w, s) = docs(&plain).unwrap();
    let i = w.iter().position(|w| w == b"q").unwrap();
    match docs(&q.text) {
        None => check(false, 1),
        Some((v, t)) => {
            check(t == s, 2);
            check(v.len() == w.len(), 3);
            check(v[i] == q.want, 4);
            for j in 0..w.len() {
                check(j == i || v[j] == w[j], 5);
            }
        }
    }
    cover(1);
}
const Z: Cfg = Cfg { kinds: 4, len: 3, fold: false, at: (1, 1), double: 2 };
harness! {
    c15_lg => long(10, (0, 22));
    c15_lf => long(11, (2, 3));
    c15_all3 => q(Cfg { kinds: 9, len: 3, at: (2, 1), ..Z });
    c15_all2 => q(Cfg { kinds: 9, len: 2, at: (0, 22), ..Z });
    c15_raw4 => q(Cfg { kinds: 1, len: 4, at: (0, 22), ..Z });
    c15_raw6 => q(Cfg { kinds: 1, len: 6, at: (0, 3), ..Z });
    c15_esc5 => q(Cfg { kinds: 4, len: 5, at: (2, 1), double: 1, ..Z });
    c15_quo5 => q(Cfg { kinds: 4, len: 5, at: (2, 1), double: 0, ..Z });
    c15_fold3 => q(Cfg { kinds: 9, len: 3, fold: true, at: (2, 1), ..Z });
    c15_fold2 => q(Cfg { kinds: 9, len: 2, fold: true, at: (0, 16), ..Z });
    c15_fold4 => q(Cfg { kinds: 3, len: 4, fold: true, at: (6, 1), ..Z });
    c15_fold5 => q(Cfg { kinds: 3, len: 5, fold: true, at: (2, 1), ..Z });
}
