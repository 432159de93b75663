use super::util::*;
#[path = "gen.rs"]
mod gen;
use gen::{is, K, T};
use yaml_peg::parser::Loader;
use yaml_peg::repr::*;

const WORD: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!$%&()*+-./;<=>?@^_`|~";
struct S {
    text: Vec<u8>,
    n: u8,
}
fn t(k: K) -> T {
    T { k, pos: None }
}
fn s(b: &[u8]) -> T {
    t(K::S(b.to_vec()))
}
impl S {
    fn word(&mut self) -> T {
        self.n += 1;
        let c = sym::<1>()[0];
        assume(in_set(c, WORD));
        let w = [b'a' + self.n, c];
        self.text.extend_from_slice(&w);
        s(&w)
    }
    fn t(&mut self, s: &str) {
        self.text.extend_from_slice(s.as_bytes())
    }
    fn join(a: T, sep: u8, b: T, end: &[u8]) -> T {
        match (a.k, b.k) {
            (K::S(mut a), K::S(b)) => {
                a.push(sep);
                a.extend_from_slice(&b);
                a.extend_from_slice(end);
                t(K::S(a))
            }
            _ => unreachable!(),
        }
    }
    /// A document: kinds below `LINE` may begin in the line of the marker.
    fn doc(&mut self, kind: u32) -> T {
        match kind {
            0 => self.word(),
            1 => {
                self.t("'");
                let w = self.word();
                self.t("'");
                w
            }
            2 => {
                self.t("[");
                let a = self.word();
                self.t(", ");
                let b = self.word();
                self.t("]");
                t(K::L(vec![a, b]))
            }
            3 => {
                self.t("|\n  ");
                let a = self.word();
                self.t("\n  ");
                let b = self.word();
                S::join(a, b'\n', b, b"\n")
            }
            4 => {
                let a = self.word();
                self.t("\n ");
                let b = self.word();
                S::join(a, b' ', b, b"")
            }
            5 => {
                self.t("\"");
                let a = self.word();
                self.t("\n\n  ");
                let b = self.word();
                self.t("\"");
                S::join(a, b'\n', b, b"")
            }
            6 => {
                self.t("{k: ");
                let a = self.word();
                self.t("}");
                t(K::M(vec![(s(b"k"), a)]))
            }
            7 => {
                self.t("&a ");
                self.word()
            }
            8 => {
                self.t("!x 'b'");
                s(b"b")
            }
            9 => {
                self.t("a --- b");
                s(b"a --- b")
            }
            10 => {
                self.t("a\n ---");
                s(b"a ---")
            }
            11 => {
                self.t("|\n  ---\n  ...");
                s(b"---\n...\n")
            }
            12 => {
                self.t("a\n---b\n...c");
                s(b"a ---b ...c")
            }
            // Lines of their own
            13 => {
                self.t("k: ");
                let a = self.word();
                self.t("\nl: ");
                let b = self.word();
                t(K::M(vec![(s(b"k"), a), (s(b"l"), b)]))
            }
            14 => {
                self.t("- ");
                let a = self.word();
                self.t("\n- ");
                let b = self.word();
                t(K::L(vec![a, b]))
            }
            15 => {
                self.t("k:\n  - ");
                let a = self.word();
                t(K::M(vec![(s(b"k"), t(K::L(vec![a])))]))
            }
            16 => {
                self.t("k:");
                t(K::M(vec![(s(b"k"), t(K::N))]))
            }
            17 => {
                self.t("- ");
                let a = self.word();
                self.t("\n-");
                t(K::L(vec![a, t(K::N)]))
            }
            18 => {
                self.t("k: ---\nl: ...");
                t(K::M(vec![(s(b"k"), s(b"---")), (s(b"l"), s(b"..."))]))
            }
            19 => {
                self.t("---a: ...\n....: b");
                t(K::M(vec![(s(b"---a"), s(b"...")), (s(b"...."), s(b"b"))]))
            }
            20 => {
                self.t("k:\n  ---: b");
                t(K::M(vec![(s(b"k"), t(K::M(vec![(s(b"---"), s(b"b"))])))]))
            }
            21 => {
                self.t("- k: |\n    a\n  l:\n  - b");
                t(K::L(vec![t(K::M(vec![(s(b"k"), s(b"a\n")), (s(b"l"), t(K::L(vec![s(b"b")])))]))]))
            }
            _ => t(K::N),
        }
    }
}
const LINE: u32 = 13;
const EMPTY: u32 = 22;
const KINDS: u32 = 23;
const SEP: [&str; 6] = ["\n", "\n...\n", "\n# c\n", "\n\n", "\n... # c\n", "\n...\n\n# c\n"];
const AFTER: [&str; 5] = [" ", "\n", " # c\n", "\n\n", "  "];
const BEFORE: [&str; 4] = ["", "\n", "# c\n", "\n# c\n\n"];
const DIR: [&str; 10] = [
    "%YAML 1.2\n",
    "%YAML 1.1\n",
    "%X y\n",
    "# c\n%YAML 1.2 # c\n",
    "%YAMLX 1.3\n",
    "%X\n%YAML 1.2\n\n%TAGS ! x\n",
    "%TAG !e! x:\n%YAML  1.1\n",
    "%TAG !e! x:\n# c\n%TAG !f! y\n",
    "\n%Y\n%T 1 2 # 3\n",
    "%yaml 1.3\n%YAM 1\n%YAML 1.2\n",
];
const END: [&str; 6] = ["", "\n", "\n...", "\n...\n", "\n# c", "\n... # c\n\n"];
/// Streams of up to `n` documents.
fn stream(n: u32, kinds: &[u32], seps: u32, after: u32, before: u32, dirs: u32, ends: u32) {
    let n = 1 + choose(n);
    let mut x = S { text: vec![], n: 0 };
    let mut want = vec![];
    // Nothing, directives
    let dir = choose(1 + dirs);
    if dir > 0 {
        x.t(DIR[dir as usize - 1])
    }
    let front = choose(before);
    x.t(BEFORE[front as usize]);
    for i in 0..n {
        let kind = match kinds.len() {
            0 => choose(KINDS),
            k => kinds[choose(k as u32) as usize],
        };
        let mut mark = true;
        if i > 0 {
            x.t(SEP[choose(seps) as usize])
        } else if dir == 0 {
            mark = choose(2) == 1;
            assume(mark || kind != EMPTY);
        }
        if mark {
            x.t("---");
            let a = AFTER[choose(after) as usize];
            assume(kind < LINE || kind == EMPTY || a.as_bytes()[a.len() - 1] == b'\n');
            // A block string begins in the line of the marker
            assume(!matches!(kind, 3 | 11) || a.as_bytes()[0] == b' ' && !a.contains('\n'));
            x.t(a)
        } else {
            assume(!matches!(kind, 3 | 11) || front == 0)
        }
        let d = x.doc(kind);
        want.push(d)
    }
    x.t(END[choose(ends) as usize]);
    let r = Loader::<RcRepr>::new(&x.text).parse();
    match &r {
        Ok(v) => {
            v.iter().for_each(obs);
            check(v.len() == want.len(), 1);
            check(v.iter().zip(&want).all(|(n, t)| is(n, t)), 2);
            cover(1)
        }
        Err(_) => check(false, 3),
    }
    forget((r, x, want))
}
/// Lines of symbolic bytes.
fn lines<const N: usize>(set: &[u8]) {
    let b = sym::<N>();
    for c in b {
        assume(in_set(c, set))
    }
    let mut want: Vec<Option<Vec<u8>>> = vec![];
    // 0: nothing yet, 1: in a document, 2: behind an end
    let mut st = 0;
    let mut brk = 0;
    for l in b.split(|c| *c == b'\n') {
        if l.is_empty() {
            brk += 1;
        } else if l == b"---" {
            want.push(None);
            st = 1;
            brk = 0
        } else if l == b"..." {
            assume(st == 1);
            st = 2;
        } else {
            assume(st < 2 && l != b"-");
            if st == 0 {
                want.push(None);
                st = 1
            }
            match want.last_mut().unwrap() {
                Some(s) => {
                    if brk == 0 {
                        s.push(b' ')
                    }
                    for _ in 0..brk {
                        s.push(b'\n')
                    }
                    s.extend_from_slice(l)
                }
                o => *o = Some(l.to_vec()),
            }
            brk = 0
        }
    }
    if st == 0 {
        want.push(None)
    }
    let r = Loader::<RcRepr>::new(&b).parse();
    match &r {
        Ok(v) => {
            v.iter().for_each(obs);
            check(v.len() == want.len(), 4);
            for (n, w) in v.iter().zip(&want) {
                check(
                    is(
                        n,
                        &match w {
                            None => t(K::N),
                            Some(w) => s(w),
                        },
                    ),
                    5,
                )
            }
            cover(2)
        }
        Err(_) => check(false, 6),
    }
    forget((r, want))
}
/// Many documents, one of another kind.
fn many() {
    let n = [11usize, 40][choose(2) as usize];
    let at = [0, n / 2, n - 1][choose(3) as usize];
    let base = choose(7);
    let sep = SEP[choose(6) as usize];
    let kind = choose(KINDS);
    let mut x = S { text: vec![], n: 0 };
    let mut want = vec![];
    for i in 0..n {
        if i > 0 {
            x.t(sep)
        }
        x.t("---");
        let d = if i == at {
            x.t(if kind == 3 || kind == 11 { " " } else { "\n" });
            x.doc(kind)
        } else {
            match base {
                0 => {
                    x.t(" w");
                    s(b"w")
                }
                1 => {
                    x.t("\nk: v");
                    t(K::M(vec![(s(b"k"), s(b"v"))]))
                }
                2 => {
                    x.t(" ");
                    t(K::N)
                }
                3 => {
                    x.t(" |\n  a");
                    s(b"a\n")
                }
                4 => {
                    x.t("\n- [a]");
                    t(K::L(vec![t(K::L(vec![s(b"a")]))]))
                }
                5 => {
                    x.t(" 'a\n  b'");
                    s(b"a b")
                }
                _ => {
                    x.t(" # c\na\n b");
                    s(b"a b")
                }
            }
        };
        want.push(d)
    }
    let r = Loader::<RcRepr>::new(&x.text).parse();
    match &r {
        Ok(v) => {
            check(v.len() == want.len(), 1);
            check(v.iter().zip(&want).all(|(n, t)| is(n, t)), 2);
            cover(1)
        }
        Err(_) => check(false, 3),
    }
    forget((r, x, want))
}
/// Every version other than the two is an error.
fn version(n: usize) {
    let head = ["%YAML ", "%YAML\t", "# c\n%X\n%YAML  "][choose(3) as usize];
    let mut text = head.as_bytes().to_vec();
    let v = symv(n);
    for c in &v {
        assume(in_set(*c, b"0123456789.-+abcdefghijklmnopqrstuvwxyz#:!,"))
    }
    assume(v != b"1.1" && v != b"1.2");
    text.extend_from_slice(&v);
    text.extend_from_slice([&b"\n---\na"[..], b" # c\n---\na\n", b"\n%X\n--- a"][choose(3) as usize]);
    let r = Loader::<RcRepr>::new(&text).parse();
    check(r.is_err(), 7);
    cover(3);
    forget((r, text, v))
}
/// A second version, or a directive behind a document, is an error.
fn late() {
    let d = DIR[choose(10) as usize];
    let yaml = d.starts_with("%YAML ") || d.contains("\n%YAML ");
    let mut text = vec![];
    if choose(2) == 0 {
        assume(yaml);
        text.extend_from_slice(d.as_bytes());
        text.extend_from_slice(["%YAML 1.2\n---\na", "# c\n%YAML 1.1\n--- a\n", "%X\n%YAML 1.2\n---\n"][choose(3) as usize].as_bytes());
    } else {
        let head = ["a\n...\n", "---\na: b\n...\n", "--- 'a'\n...\n", "%YAML 1.2\n---\n- a\n...\n", "%X\n---\n|\n  a\n...\n", "--- [a]\n... # c\n", "---\n...\n"];
        text.extend_from_slice(head[choose(7) as usize].as_bytes());
        text.extend_from_slice(d.as_bytes());
        text.extend_from_slice(b"---\nb\n");
    }
    let r = Loader::<RcRepr>::new(&text).parse();
    check(r.is_err(), 8);
    cover(3);
    forget((r, text))
}
/// Directives and documents with characters outside ASCII.
fn wides(k: u32) {
    let x = wide(choose(k));
    let a = sym::<1>()[0];
    assume(in_set(a, WORD));
    let mut text = vec![];
    let mut put = |p: &[&[u8]]| p.iter().for_each(|p| text.extend_from_slice(p));
    let w = match choose(3) {
        0 => [b"a", &x[..]].concat(),
        1 => [&x[..], &[a]].concat(),
        _ => [b"a", &[a], &x[..], b"b"].concat(),
    };
    match choose(7) {
        0 => {}
        1 => put(&[b"%X ", &w, b"\n---\n"]),
        2 => put(&[b"%X", &w, b" y\n---\n"]),
        3 => put(&[b"%YAML 1.2 # ", &w, b"\n---\n"]),
        4 => put(&[b"# ", &w, b"\n---\n"]),
        5 => put(&[b"--- # ", &w, b"\n"]),
        _ => {
            assume(in_set(a, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789$&*+-./;=?@_~"));
            put(&[b"%TAG !e! ", &w, b"\n---\n"])
        }
    }
    put(&[&w]);
    put(&[[&b"\n---\n"[..], b"\n...\n---\n", b"\n... # \xc3\xa9\n---\n"][choose(3) as usize], b"k"]);
    put(&[&w, b": ", &w, [&b""[..], b"\n", b"\n...", b"\n# \xe2\x82\xac"][choose(4) as usize]]);
    let r = Loader::<RcRepr>::new(&text).parse();
    match &r {
        Ok(v) => {
            check(v.len() == 2 && is(&v[0], &s(&w)), 9);
            check(is(&v[1], &t(K::M(vec![(s(&[b"k", &w[..]].concat()), s(&w))]))), 10);
            cover(1)
        }
        Err(_) => check(false, 11),
    }
    forget((r, text, w))
}
harness! {
    c18_u1 => wides(WIDE);
    c18_k2 => stream(2, &[], 2, 2, 1, 0, 2);
    c18_k1 => stream(1, &[], 1, 5, 4, 0, 6);
    c18_s2 => stream(2, &[0, 2, 3, 5, 10, 13, 14, 21, 22], 6, 5, 1, 0, 1);
    c18_d1 => stream(1, &[], 1, 2, 2, 10, 1);
    c18_d2 => stream(2, &[0, 8, 11, 13, 14, 22], 2, 2, 1, 10, 2);
    c18_n3 => stream(3, &[0, 1, 3, 13, 15, 20, 22], 2, 2, 1, 0, 2);
    c18_n4 => stream(4, &[0, 13, 14, 22], 2, 2, 1, 0, 1);
    c18_n6 => stream(6, &[4, 22], 2, 1, 1, 0, 1);
    c18_y7 => lines::<7>(b"-.\na");
    c18_y8 => lines::<8>(b"-.\na");
    c18_y9 => lines::<9>(b"-\na");
    c18_y10 => lines::<10>(b".-\n");
    c18_mn => many();
    c18_v3 => version(3);
    c18_v4 => version(4);
    c18_v2 => version(2);
    c18_late => late();
}
