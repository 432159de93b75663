//! C20: layout that means nothing changes nothing. Pairs of documents, one an edit of the other,
//! must have the same outcome.
use super::util::*;
#[path = "gen.rs"]
mod gen;
use gen::{Cfg, CFG, G};
use yaml_peg::parser::Loader;
use yaml_peg::repr::*;

/// Both parse to the same documents, or both are refused. (Positions are where the text is.)
fn alike(a: &[u8], b: &[u8]) {
    let x = Loader::<RcRepr>::new(a).parse();
    let y = Loader::<RcRepr>::new(b).parse();
    match (&x, &y) {
        (Ok(v), Ok(w)) => {
            check(v.len() == w.len(), 1);
            for (v, w) in v.iter().zip(w) {
                check(same(v, w), 2)
            }
            cover(1)
        }
        (Err(_), Err(_)) => cover(2),
        _ => check(false, 3),
    }
    forget(x);
    forget(y)
}

/// Text of a comment: anything but a line break.
fn note(t: &mut Vec<u8>, n: usize) {
    t.push(b'#');
    for _ in 0..n {
        let c = sym::<1>()[0];
        assume(c == b'\t' || (c >= b' ' && c < 127));
        t.push(c)
    }
}
fn put(t: &mut Vec<u8>, s: &str) {
    t.extend_from_slice(s.as_bytes())
}

/// Comments with a character outside ASCII.
fn foreign(k: u32) {
    let (a, b) = [
        ("k: v@\n@l: w@\n@", ""),
        ("- a@\n@- - b@\n@  - c", "@"),
        ("[a,@\n@ b@\n@]", "@"),
        ("{a: b,@\n@ c: d}@\n@", ""),
        ("k: 'a'@\n@l: |@\n  a\n@m: \"b\"@\n", "@"),
        ("@---@\n@a@\n@---@\n@- b", "@\n"),
        ("@? a@\n@: b@\n", "@"),
        ("k:@\n@  - a@\n@  - b@\n@", "l: m\n"),
        ("k: &a@\n@  l: m@\n@n: !t o@\n", ""),
    ][choose(9) as usize];
    let t = [a, b].concat().into_bytes();
    let places = t.iter().filter(|c| **c == b'@').count();
    let at = choose(places as u32) as usize;
    let (mut p, mut q, mut n) = (vec![], vec![], 0);
    for &c in &t {
        if c != b'@' {
            p.push(c);
            q.push(c);
            continue;
        }
        if n == at {
            let begin = q.is_empty() || q[q.len() - 1] == b'\n';
            put(&mut q, if begin { "#" } else { " #" });
            let (x, y) = (wide(choose(k)), sym::<1>());
            assume(y[0] != b'\n' && y[0] != b'\r' && y[0] < 128 && y[0] > 0);
            match choose(3) {
                0 => q.extend_from_slice(&x),
                1 => q.extend_from_slice(&[&x[..], &y].concat()),
                _ => q.extend_from_slice(&[&y[..], b" ", &x].concat()),
            }
            if begin {
                q.push(b'\n')
            }
        }
        n += 1
    }
    alike(&p, &q);
    forget((t, p, q))
}

/// What a line break of a generated document ends.
#[derive(PartialEq, Clone, Copy)]
enum Line {
    Plain,
    Header,
    Literal,
}
fn kind(t: &[u8], i: usize, last: Option<Line>) -> Line {
    if last == Some(Line::Header) {
        Line::Literal
    } else if i >= 2 && t[i - 2] == b' ' && t[i - 1] == b'|' {
        Line::Header
    } else {
        Line::Plain
    }
}

/// Generated documents, `n` of whose line ends are edited.
fn lines(c: Cfg, n: u32) {
    let mut g = G::new(c);
    let tree = g.doc();
    let mut t = vec![];
    let (mut last, mut left, mut edits) = (None, n, 0);
    for (i, &b) in g.text.iter().enumerate() {
        // The second character of a word is no line break
        if b != b'\n' {
            t.push(b);
            continue;
        }
        let k = kind(&g.text, i, last);
        last = Some(k);
        if left == 0 || choose(2) == 0 {
            t.push(b);
            continue;
        }
        left -= 1;
        edits += 1;
        match if g.mid.contains(&i) {
            // A comment ends a plain string, a blank line is part of it
            choose(2) * 3
        } else if k == Line::Plain { choose(9) } else if k == Line::Header { choose(4) } else { 3 + choose(6) } {
            0 => put(&mut t, " "),
            1 => put(&mut t, "   "),
            2 => {
                put(&mut t, " ");
                note(&mut t, 2)
            }
            3 => put(&mut t, "\r"),
            4 => put(&mut t, "\n"),
            5 => put(&mut t, "\n  \n "),
            6 => {
                put(&mut t, "\n");
                note(&mut t, 1)
            }
            7 => {
                put(&mut t, "\n");
                if k == Line::Plain {
                    put(&mut t, "     ")
                } else {
                    put(&mut t, "\n")
                }
                note(&mut t, 1)
            }
            _ => {
                put(&mut t, "\n ");
                note(&mut t, 0);
                put(&mut t, "\n\n");
                note(&mut t, 1)
            }
        }
        t.push(b)
    }
    assume(edits > 0);
    alike(&g.text, &t);
    forget(tree);
    forget((g, t))
}

/// Generated documents in another newline style, with another begin and end.
fn ends(c: Cfg) {
    let mut g = G::new(c);
    let tree = g.doc();
    let mut t = vec![];
    let mut style = 0;
    match choose(10) {
        0 => style = 1,
        1 => style = 2,
        2 => put(&mut t, "---\n"),
        3 => put(&mut t, "\n"),
        4 => put(&mut t, " \n\n"),
        5 => {
            note(&mut t, 2);
            put(&mut t, "\n")
        }
        6 => {
            put(&mut t, "\n  ");
            note(&mut t, 1);
            put(&mut t, "\n---\n")
        }
        7 => {
            put(&mut t, "--- ");
            note(&mut t, 1);
            put(&mut t, "\n\n")
        }
        8 => {
            put(&mut t, "---\n");
            note(&mut t, 1);
            put(&mut t, "\n")
        }
        _ => {}
    }
    for &b in &g.text {
        if b == b'\n' && style == 1 {
            put(&mut t, "\r\n")
        } else if b == b'\n' && style == 2 {
            put(&mut t, "\r")
        } else {
            t.push(b)
        }
    }
    match if style == 0 { choose(7) } else { 0 } {
        0 => {}
        1 => put(&mut t, "\n"),
        2 => put(&mut t, "\n\n\n"),
        3 => note(&mut t, 1),
        4 => {
            put(&mut t, "\n");
            note(&mut t, 1);
            put(&mut t, "\n\n")
        }
        5 => put(&mut t, "\r\n"),
        _ => {
            t.pop();
        }
    }
    alike(&g.text, &t);
    forget(tree);
    forget((g, t))
}

/// Arbitrary text over an alphabet.
fn text(n: usize, set: &[u8]) -> Vec<u8> {
    let d = symv(n);
    // A node has one tag and one anchor
    let (mut tag, mut anchor) = (0u8, 0u8);
    for &c in &d {
        assume(in_set(c, set));
        tag += (c == b'!') as u8;
        anchor += (c == b'&') as u8
    }
    assume((tag <= 1) & (anchor <= 1));
    d
}
/// Every line break in another style.
fn style(pre: &str, n: usize, set: &[u8]) {
    let mut a = vec![];
    put(&mut a, pre);
    a.extend_from_slice(&text(n, set));
    let cr = choose(2) == 1;
    let mut b = vec![];
    for &c in &a {
        if c == b'\n' {
            put(&mut b, if cr { "\r" } else { "\r\n" })
        } else {
            b.push(c)
        }
    }
    alike(&a, &b);
    forget((a, b))
}
/// Directives of every kind, known or not, valid or not.
fn directives() {
    let b = sym::<2>();
    for c in b {
        assume(in_set(c, b"a! %"))
    }
    let d = ["%YAML 1.2", "%TAG !e! tag:e,1:", "%TAG !e!", "%TAG ! <a>", "%foo", "%foo bar baz", "%TAG", "%YAMLX 1"][choose(8) as usize];
    let x = match choose(3) {
        0 => [d.as_bytes(), b"\n"].concat(),
        1 => [d.as_bytes(), b" # c\n%b c\n"].concat(),
        _ => [b"# c\n%a\n", d.as_bytes(), b"\n\n"].concat(),
    };
    let mut y = [&x[..], &b, b"\n--- !e!t a\n"].concat();
    if b[0] == b'a' {
        y = [&x[..], b"---\n- ", &b, b"\n- b\n...\n---\nc\n"].concat()
    }
    let cr = choose(3);
    let mut z = vec![];
    for &c in &y {
        if c == b'\n' {
            put(&mut z, ["\r", "\r\n", " \n"][cr as usize])
        } else {
            z.push(c)
        }
    }
    alike(&y, &z);
    forget((x, y, z))
}
/// Spaces at the end of every line.
fn trail(pre: &str, n: usize, set: &[u8]) {
    let mut a = vec![];
    put(&mut a, pre);
    a.extend_from_slice(&text(n, set));
    let mut b = vec![];
    for &c in &a {
        if c == b'\n' {
            put(&mut b, " ")
        }
        b.push(c)
    }
    alike(&a, &b);
    forget((a, b))
}
/// Line breaks and comments at the end of the text.
fn tail(pre: &str, n: usize, set: &[u8]) {
    let mut a = vec![];
    put(&mut a, pre);
    a.extend_from_slice(&text(n, set));
    let mut b = a.clone();
    match choose(4) {
        0 => put(&mut b, "\n"),
        1 => put(&mut b, "\n\n"),
        2 => put(&mut b, "\n\n# c"),
        _ => put(&mut b, "\n# c\n"),
    }
    alike(&a, &b);
    forget((a, b))
}
/// A marker, blank lines and comments in front of the text.
fn head(pre: &str, n: usize, set: &[u8]) {
    let mut a = vec![];
    put(&mut a, pre);
    a.extend_from_slice(&text(n, set));
    // Not empty, which is no document without a marker
    assume(a[0] != b' ' && a[0] != b'\n' && a[0] != b'#');
    // Nor one with a marker
    assume(a[0] != b'-' || a[1] != b'-');
    let mut b = vec![];
    put(&mut b, ["---\n", "\n", "# c\n\n", "\n# c\n---\n", "---\n# c\n"][choose(5) as usize]);
    b.extend_from_slice(&a);
    alike(&a, &b);
    forget((a, b))
}

const B: Cfg = Cfg { sym: false, ..CFG };
const F: Cfg = Cfg { sym: false, block: false, flow: true, ..CFG };
harness! {
    c20_b1 => lines(Cfg { left: 2, empty: 2, ..B }, 1);
    c20_o1 => lines(Cfg { left: 2, entries: 1, empty: 2, own: true, leaf: 2, ..B }, 1);
    c20_o2 => lines(Cfg { left: 1, own: true, empty: 2, ..B }, 2);
    c20_b2 => lines(Cfg { left: 2, empty: 1, ..B }, 2);
    c20_b3 => lines(Cfg { left: 3, entries: 1, empty: 2, ..B }, 2);
    c20_f1 => lines(Cfg { left: 2, wide: 1, ..F }, 1);
    c20_f2 => lines(Cfg { left: 2, wide: 2, ..F }, 1);
    c20_x1 => lines(Cfg { left: 2, flow: true, complex: true, ..B }, 1);
    c20_x2 => lines(Cfg { left: 2, entries: 1, flow: true, complex: true, ..B }, 2);
    c20_p1 => lines(Cfg { left: 1, props: true, ..B }, 2);
    c20_p2 => lines(Cfg { left: 2, entries: 1, props: true, empty: 1, ..B }, 1);
    c20_r1 => lines(Cfg { left: 1, root: 5, leaf: 6, ..B }, 1);
    c20_s1 => lines(Cfg { left: 1, leaf: 2, ..CFG }, 1);
    c20_u1 => foreign(WIDE);
    c20_u2 => lines(Cfg { left: 1, leaf: 6, empty: 1, own: true, entries: 1, uni: 2, ..B }, 1);
    c20_u3 => ends(Cfg { left: 1, leaf: 6, entries: 1, uni: 3, ..B });
    c20_u4 => lines(Cfg { left: 1, entries: 1, wide: 1, uni: 2, ..F }, 1);
    c20_all => lines(Cfg { left: 2, leaf: 2, empty: 2, own: true, ..B }, 1);
    c20_e1 => ends(Cfg { left: 2, empty: 2, ..B });
    c20_eo => ends(Cfg { left: 2, entries: 1, empty: 2, own: true, ..B });
    c20_ef => ends(Cfg { left: 2, entries: 1, wide: 1, ..F });
    c20_e2 => ends(Cfg { left: 2, wide: 1, ..F });
    c20_ex => ends(Cfg { left: 2, entries: 1, flow: true, complex: true, empty: 1, ..B });
    c20_e3 => ends(Cfg { left: 2, flow: true, complex: true, ..B });
    c20_e4 => ends(Cfg { left: 1, entries: 1, props: true, lone: true, wrap: true, own: true, ..B });
    c20_e6 => ends(Cfg { left: 1, leaf: 6, props: true, ..B });
    c20_p3 => lines(Cfg { left: 1, entries: 1, props: true, lone: true, wrap: true, own: true, ..B }, 1);
    c20_g1 => lines(Cfg { left: 1, entries: 1, fill: 12, empty: 1, leaf: 2, ..B }, 1);
    c20_g2 => lines(Cfg { left: 1, entries: 1, fill: 12, wide: 1, pad: 70, ..F }, 1);
    c20_g3 => ends(Cfg { left: 1, entries: 1, fill: 12, empty: 1, flow: true, pad: 70, ..B });
    c20_e5 => ends(Cfg { left: 2, leaf: 2, empty: 2, own: true, ..B });
    c20_n5 => style("", 5, b"\n :-a'\"#");
    c20_n6 => style("", 6, b"\n :-a");
    c20_n7 => style("", 7, b"\n :-a?");
    c20_nf => style("", 5, b"\n a[]{},:#");
    c20_nl => style("k: |", 6, b"\n a+-");
    c20_ng => style("k: >\n", 6, b"\n a");
    c20_nq => style("\"", 6, b"\n a\"\\");
    c20_ns => style("- '", 6, b"\n a'");
    c20_nc => style("? ", 5, b"\n :-a?");
    c20_na => style("a: &b", 5, b"\n a&!*:");
    c20_t6 => trail("", 6, b"\n :-a");
    c20_t7 => trail("", 7, b"\n :-a?");
    c20_t5 => trail("", 5, b"\n :-a'\"#&!*");
    c20_tf => trail("", 4, b"\n []{},:a#");
    c20_tq => trail("k: '", 6, b"\n a'");
    c20_td => trail("- \"", 6, b"\n a\"");
    c20_l6 => tail("", 6, b"\n :-a");
    c20_l7 => tail("", 7, b"\n :-a?");
    c20_l5 => tail("", 5, b"\n :-a'\"#&!*");
    c20_lf => tail("", 4, b"\n []{},:a#");
    c20_ll => tail("k: |", 6, b"\n a-");
    c20_lg => tail("- >", 6, b"\n a-");
    c20_h6 => head("", 6, b"\n :-a");
    c20_h7 => head("", 7, b"\n :-a?");
    c20_h5 => head("", 5, b"\n :-a'\"#*");
    c20_ht => head("!t\n", 4, b"\n :-a'\"#*");
    c20_ha => head("&b\n", 5, b"\n :-a?");
    c20_hs => head("! ", 4, b"\n a'\"[]");
    c20_hf => head("", 4, b"\n []{},:a#");
    c20_d => directives();
    c20_nf6 => style("", 6, b"\n a[]{},:#");
    c20_tf6 => trail("", 6, b"\n []{},:a#");
}
