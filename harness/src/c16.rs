use super::util::*;
use yaml_peg::parser::Loader;
use yaml_peg::repr::*;
use yaml_peg::*;

/// The content of a block whose lines are given without their indentation (`None`: blank).
fn value(lines: &[Option<Vec<u8>>], literal: bool, chomp: u32) -> Vec<u8> {
    let n = lines.iter().rposition(|l| l.is_some()).map_or(0, |i| i + 1);
    let mut v = vec![];
    let mut brk = 0;
    let mut begun = false;
    for l in &lines[..n] {
        match l {
            None => brk += 1,
            Some(t) => {
                if begun {
                    if literal {
                        v.push(b'\n')
                    } else if brk == 0 {
                        v.push(b' ')
                    }
                }
                for _ in 0..brk {
                    v.push(b'\n')
                }
                v.extend_from_slice(t);
                brk = 0;
                begun = true
            }
        }
    }
    match chomp {
        0 if begun => v.push(b'\n'),
        2 => {
            if begun {
                v.push(b'\n')
            }
            for _ in n..lines.len() {
                v.push(b'\n')
            }
        }
        _ => {}
    }
    v
}
#[derive(Clone, Copy)]
enum In {
    Value,
    Item,
    Map,
    Seq,
    Zero,
    Key,
    Complex,
    Root,
    Wide,
}
use In::*;
const ALL: &[In] = &[Value, Item, Map, Seq, Zero, Key, Complex, Root, Wide];
/// The text before the indicator and the column of the parent.
fn head(i: In) -> (&'static str, isize) {
    match i {
        Value => ("k: ", 0),
        Item => ("- ", 0),
        Map => ("- j: i\n  k: ", 2),
        Seq => ("k:\n  - ", 2),
        Zero => ("k:\n- ", 0),
        Key => ("? ", 0),
        Complex => ("? a\n: ", 0),
        Root => ("--- ", -1),
        Wide => ("j:\n    k: ", 4),
    }
}
/// The next entry and what the block is found by.
fn tail(i: In) -> &'static str {
    match i {
        Value | Complex => "l: b",
        Item => "- b",
        Map => "  l: b",
        Seq => "  - b",
        Zero => "- b",
        Key => ": b",
        Root => "--- b",
        Wide => "    l: b",
    }
}
/// The block, when the documents have exactly the shape of the text.
fn found(i: In, v: &[NodeRc], more: bool) -> Option<NodeRc> {
    fn b(n: &NodeRc) -> bool {
        matches!(n.yaml(), Yaml::Str(s) if s == "b")
    }
    fn map(n: &NodeRc, key: &str, more: bool) -> Option<NodeRc> {
        match n.yaml() {
            Yaml::Map(m) => {
                let k = m.iter().position(|(k, _)| matches!(k.yaml(), Yaml::Str(s) if s == key))?;
                let x = m.iter().nth(k)?.1.clone();
                let rest = m.iter().skip(k + 1).collect::<Vec<_>>();
                match (more, rest.len()) {
                    (true, 1) if matches!(rest[0].0.yaml(), Yaml::Str(s) if s == "l") && b(rest[0].1) => Some(x),
                    (false, 0) => Some(x),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn seq(n: &NodeRc, more: bool) -> Option<NodeRc> {
        match n.yaml() {
            Yaml::Seq(v) if v.len() == 1 + more as usize && (!more || b(&v[1])) => Some(v[0].clone()),
            _ => None,
        }
    }
    if let Root = i {
        return if v.len() == 1 + more as usize && (!more || b(&v[1])) { Some(v[0].clone()) } else { None };
    }
    if v.len() != 1 {
        return None;
    }
    match i {
        Value => map(&v[0], "k", more),
        Complex => map(&v[0], "a", more),
        Item => seq(&v[0], more),
        Map => map(&seq(&v[0], false)?, "k", more),
        Wide => map(&map(&v[0], "j", false)?, "k", more),
        Seq | Zero => seq(&map(&v[0], "k", false)?, more),
        Key => match v[0].yaml() {
            Yaml::Map(m) if m.len() == 1 => {
                let (k, x) = m.iter().next()?;
                if b(x) {
                    Some(k.clone())
                } else {
                    None
                }
            }
            _ => None,
        },
        Root => None,
    }
}
fn judge(i: In, text: &[u8], want: &[u8], more: bool) {
    let r = Loader::<RcRepr>::new(text).parse();
    match &r {
        Ok(v) => match found(i, v, more) {
            Some(n) => {
                obs(&n);
                match n.yaml() {
                    Yaml::Str(s) => check(s.as_bytes() == want, 1),
                    _ => check(false, 2),
                }
                cover(1)
            }
            None => check(false, 3),
        },
        Err(_) => check(false, 4),
    }
    forget(r)
}
const TEXT: &[u8] = b"!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
/// A block of `n` lines, each one of `kinds`.
fn block(ins: &[In], literal: bool, n: u32, kinds: u32, wide: u32, ends: u32, heads: u32) {
    let i = ins[choose(ins.len() as u32) as usize];
    let (h, col) = head(i);
    let mut text = h.as_bytes().to_vec();
    text.push(if literal { b'|' } else { b'>' });
    let chomp = choose(3);
    match chomp {
        1 => text.push(b'-'),
        2 => text.push(b'+'),
        _ => {}
    }
    match choose(heads) {
        0 => text.push(b'\n'),
        1 => text.extend_from_slice(b" \n"),
        2 => text.extend_from_slice(b" # c\n"),
        _ => text.extend_from_slice(b"\r\n"),
    }
    // the indentation of the content
    let d = match i {
        Root => [0, 2][choose(2) as usize],
        _ => (col + 1 + [1, 0, 3, 2][choose(wide) as usize]) as usize,
    };
    let mut lines = vec![];
    let n = choose(n + 1);
    for _ in 0..n {
        let sp = |text: &mut Vec<u8>, n: usize| {
            for _ in 0..n {
                text.push(b' ')
            }
        };
        match choose(kinds) {
            0 => {
                sp(&mut text, d);
                let w = sym::<2>();
                assume(in_set(w[0], TEXT));
                assume(in_set(w[1], TEXT));
                text.extend_from_slice(&w);
                lines.push(Some(w.to_vec()))
            }
            1 => lines.push(None),
            2 => {
                // spaces only
                let k = choose(2) as usize;
                sp(&mut text, [d, 1][k]);
                assume(k == 0 || d > 1);
                lines.push(None)
            }
            3 => {
                // further indented, behind the first line; spaces at the end
                assume(literal && lines.iter().any(|l: &Option<Vec<u8>>| l.is_some()));
                sp(&mut text, d);
                let w: &[u8] = [&b"  a"[..], b" ", b" #"][choose(3) as usize];
                text.extend_from_slice(w);
                lines.push(Some(w.to_vec()))
            }
            _ => {
                assume(literal);
                sp(&mut text, d);
                let w: &[u8] = [&b"a "[..], b"a\t", b"\ta"][choose(3) as usize];
                text.extend_from_slice(w);
                lines.push(Some(w.to_vec()))
            }
        }
        text.push(b'\n')
    }
    let want = value(&lines, literal, chomp);
    let end = choose(ends);
    let more = match end {
        0 => {
            text.extend_from_slice(tail(i).as_bytes());
            text.push(b'\n');
            true
        }
        1 => {
            assume(!matches!(i, Key));
            false
        }
        2 => {
            // no line break at the end of input
            assume(!matches!(i, Key) && lines.last().is_some_and(|l| l.is_some()));
            text.pop();
            false
        }
        3 => {
            assume(!matches!(i, Key | Root));
            text.extend_from_slice(b"# c\n");
            text.extend_from_slice(tail(i).as_bytes());
            true
        }
        _ => {
            assume(!matches!(i, Key));
            text.extend_from_slice(b"...\n");
            false
        }
    };
    judge(i, &text, &want, more);
    forget(text);
    forget(want);
    forget(lines)
}
/// Many lines, long lines, many blank ones, with a line of its own at one place.
fn long(ins: &[In]) {
    let i = ins[choose(ins.len() as u32) as usize];
    let literal = choose(2) == 1;
    let (h, col) = head(i);
    let mut text = h.as_bytes().to_vec();
    text.push(if literal { b'|' } else { b'>' });
    let chomp = choose(3);
    text.extend_from_slice([&b"\n"[..], b"-\n", b"+\n"][chomp as usize]);
    let d = match i {
        Root => 2,
        _ => (col + 2) as usize + 30 * choose(2) as usize,
    };
    let n = 34;
    let at = [0, n / 2, n - 1][choose(3) as usize];
    let kind = choose(4);
    let own = choose(4);
    let w = sym::<2>();
    assume(in_set(w[0], TEXT) && in_set(w[1], TEXT));
    let mut lines = vec![];
    for k in 0..n {
        let mut l: Option<Vec<u8>> = match kind {
            0 => Some(b"ab".to_vec()),
            1 if k % 3 != 0 => None,
            1 => Some(b"w x".to_vec()),
            2 => Some(b"long line ".repeat(9).iter().chain(b"end").copied().collect()),
            _ if k > 1 && k + 2 < n => None,
            _ => Some("\u{e9}: \u{20ac}".as_bytes().to_vec()),
        };
        if k == at {
            l = match own {
                0 => Some(w.to_vec()),
                1 => None,
                2 => Some([&w[..], b" - ", &w[..]].concat()),
                _ if literal && k > 0 => Some([b"  ", &w[..], b" "].concat()),
                _ => Some(w.repeat(40)),
            }
        }
        if let Some(t) = &l {
            text.extend_from_slice(&b" ".repeat(d));
            text.extend_from_slice(t)
        }
        text.push(b'\n');
        lines.push(l)
    }
    let want = value(&lines, literal, chomp);
    text.extend_from_slice(tail(i).as_bytes());
    text.push(b'\n');
    judge(i, &text, &want, true);
    forget((text, want, lines))
}
/// Lines with a character outside ASCII at the begin or at the end.
fn wides(ins: &[In], k: u32) {
    let i = ins[choose(ins.len() as u32) as usize];
    let literal = choose(2) == 1;
    let (h, col) = head(i);
    let mut text = h.as_bytes().to_vec();
    text.push(if literal { b'|' } else { b'>' });
    let chomp = choose(3);
    text.extend_from_slice([&b"\n"[..], b"-\n", b"+\n"][chomp as usize]);
    let x = wide(choose(k));
    let a = sym::<1>();
    assume(in_set(a[0], TEXT));
    let l = match choose(5) {
        0 => x,
        1 => [&x[..], &a].concat(),
        2 => [&a[..], &x].concat(),
        3 => [&x[..], b" ", &a].concat(),
        _ => [&a[..], b" ", &x].concat(),
    };
    let l = match choose(3) {
        0 => vec![Some(l)],
        1 => vec![Some(l), None, Some(b"z".to_vec())],
        _ => vec![Some(b"z".to_vec()), Some(l), None],
    };
    for l in &l {
        if let Some(l) = l {
            text.extend_from_slice(&b" ".repeat((col + 2) as usize));
            text.extend_from_slice(l)
        }
        text.push(b'\n')
    }
    text.extend_from_slice(tail(i).as_bytes());
    text.push(b'\n');
    let want = value(&l, literal, chomp);
    judge(i, &text, &want, true);
    forget((text, want, l))
}
/// A literal block of symbolic bytes, against a line-by-line reference.
fn bytes<const N: usize>(ins: &[In], set: &[u8]) {
    let b = sym::<N>();
    for c in b {
        assume(in_set(c, set))
    }
    let i = ins[choose(ins.len() as u32) as usize];
    let (h, col) = head(i);
    let text = [h.as_bytes(), b"|\n", &b, b"\n", tail(i).as_bytes(), b"\n"].concat();
    let mut col_of = None;
    let mut lines = vec![];
    let mut it = b.split(|c| *c == b'\n');
    while let Some(l) = it.next() {
        let sp = l.iter().take_while(|c| **c == b' ').count();
        if sp == l.len() && col_of.map_or(true, |d| sp <= d) {
            lines.push(None);
            continue;
        }
        let d = *col_of.get_or_insert(sp);
        assume(d as isize > col);
        assume(sp >= d);
        lines.push(Some(l[d..].to_vec()))
    }
    cover(if col_of.is_some() { 2 } else { 3 });
    let want = value(&lines, true, 0);
    judge(i, &text, &want, true);
    forget(text);
    forget(want);
    forget(lines)
}
/// A block which ends with its header.
fn header() {
    let i = ALL[choose(ALL.len() as u32) as usize];
    assume(!matches!(i, Key));
    let mut text = head(i).0.as_bytes().to_vec();
    text.push([b'|', b'>'][choose(2) as usize]);
    text.extend_from_slice([&b""[..], b"-", b"+"][choose(3) as usize]);
    text.extend_from_slice([&b""[..], b"\n", b" # c", b" ", b" #\n\n"][choose(5) as usize]);
    assume(text[text.len() - 2..] != b"\n\n"[..]);
    judge(i, &text, b"", false);
    forget(text)
}
harness! {
    c16_u1 => wides(ALL, WIDE);
    c16_lg => long(ALL);
    c16_l2 => block(ALL, true, 2, 5, 1, 2, 1);
    c16_l3 => block(&[Value, Item, Zero, Root], true, 3, 5, 2, 1, 1);
    c16_l4 => block(&[Map, Seq, Key], true, 4, 5, 1, 1, 1);
    c16_w2 => block(ALL, true, 2, 2, 4, 1, 4);
    c16_e2 => block(ALL, true, 2, 3, 1, 4, 4);
    c16_d2 => block(&[Root], true, 3, 5, 1, 5, 1);
    c16_f2 => block(ALL, false, 2, 3, 1, 2, 1);
    c16_f4 => block(&[Value, Item, Map, Root], false, 4, 3, 1, 1, 1);
    c16_f5 => block(&[Seq, Complex], false, 5, 3, 1, 1, 1);
    c16_g2 => block(ALL, false, 2, 2, 4, 1, 4);
    c16_h2 => block(ALL, false, 2, 3, 1, 4, 4);
    c16_hd => header();
    c16_y6 => bytes::<6>(ALL, b"\n a#");
    c16_y7 => bytes::<7>(&[Item, Map, Zero], b"\n a");
    c16_y8 => bytes::<8>(&[Map], b"\n -:");
    c16_y9 => bytes::<9>(&[Value, Seq], b"\n a");
    c16_y10 => bytes::<10>(&[Item], b"\n a");
}
