use super::util::*;
use yaml_peg::parser::Loader;
use yaml_peg::repr::*;
use yaml_peg::*;

/// A map that has a key without letters: another entry may share that key, and a later entry replaces an earlier one.
fn bare(n: &Node<RcRepr>) -> bool {
    match n.yaml() {
        Yaml::Seq(v) => v.iter().any(bare),
        Yaml::Map(m) => m.iter().any(|(k, v)| {
            let mut s = [false; 32];
            text(k, &mut s);
            s == [false; 32] || bare(k) || bare(v)
        }),
        _ => false,
    }
}

fn text(n: &Node<RcRepr>, seen: &mut [bool; 32]) {
    let mut s = |t: &str| {
        for c in t.bytes() {
            if c >= b'a' && c <= b'z' {
                seen[(c - b'a') as usize] = true
            }
        }
    };
    match n.yaml() {
        Yaml::Str(t) | Yaml::Int(t) | Yaml::Float(t) => s(t),
        Yaml::Seq(v) => v.iter().for_each(|x| text(x, seen)),
        Yaml::Map(m) => m.iter().for_each(|(k, v)| {
            text(k, seen);
            text(v, seen)
        }),
        _ => {}
    }
}

/// Every letter of an accepted document occurs in the result.
fn conserve<const N: usize>(set: &[u8]) {
    let mut b = sym::<N>();
    let mut k = 0;
    for i in 0..N {
        assume(in_set(b[i], set));
        // the class `a` becomes a letter of its own at every place, so that no two keys are equal
        if b[i] == b'a' {
            b[i] = b'a' + i as u8;
            k += 1
        }
    }
    let mut l: Loader<RcRepr> = Loader::new(&b);
    match l.parse() {
        Ok(v) => {
            let mut seen = [false; 32];
            for n in &v {
                text(n, &mut seen)
            }
            if k > 1 {
                cover(1)
            }
            let mut lost = false;
            // names and comments are not part of the result
            let mut not = 0;
            let (mut start, mut last) = (true, 0);
            // the line of the last marker, directives are before one
            for i in 0..N {
                if start && b[i] == b'-' && i + 2 < N && b[i + 1] == b'-' && b[i + 2] == b'-' {
                    last = i
                }
                start = b[i] == b'\n'
            }
            let mut directive = false;
            start = true;
            for i in 0..N {
                let c = b[i];
                if start {
                    directive = c == b'%' && i < last
                }
                start = c == b'\n';
                if directive {
                    continue;
                }
                not = match c {
                    b'#' => b'#',
                    b'\n' => 0,
                    _ if not == b'#' => not,
                    b'&' | b'*' | b'!' => b'&',
                    b'-' | b'a'..=b'z' => not,
                    _ => 0,
                };
                if not == 0 && b[i] == b'a' + i as u8 && !seen[i] {
                    lost = true
                }
            }
            if lost {
                check(v.iter().any(bare), 1)
            }
            forget(v)
        }
        Err(e) => {
            cover(2);
            forget(e)
        }
    }
    forget(l)
}
/// Characters of the words in a tree.
fn letters(n: &Node<RcRepr>) -> usize {
    match n.yaml() {
        Yaml::Str(t) | Yaml::Int(t) | Yaml::Float(t) => t.bytes().filter(|c| c.is_ascii_lowercase()).count(),
        Yaml::Seq(v) => v.iter().map(letters).sum(),
        Yaml::Map(m) => m.iter().map(|(k, v)| letters(k) + letters(v)).sum(),
        _ => 0,
    }
}
/// Long documents of words, with characters of `set` put in: none of the letters is lost or doubled.
fn long<const L: usize>(set: &[u8], n: usize) {
    let b = sym::<L>();
    for c in b {
        assume(in_set(c, set))
    }
    // what is before all, around each word, behind all; `W` is a new word
    let (pre, unit, post) = [
        ("", "- W\n", ""),
        ("", "W: W\n", ""),
        ("", "- W: W\n  W: W\n", ""),
        ("W:\n", "- W\n", "W: W\n"),
        ("", "W:\n  W: W\n  W: W\n", ""),
        ("[", "W, ", "W]"),
        ("{", "W: W, ", "}"),
        ("- [", "W, ", "W]\n- {W: [W], W: W}\n"),
        ("", "W ", "W"),
        ("k: ", "W\n  ", "W\nW: W"),
        ("- '", "W ", "W'\n- W"),
        ("k: \"", "W\n  W ", "W\"\nW: W"),
        ("- |\n  ", "W W\n  ", "W\n- W"),
        ("k: >\n  ", "W\n  ", "W\nW: W"),
        ("", "--- W\n", ""),
        ("W\n", "...\n---\nW: W\n", ""),
        ("", "? W\n: W\n", ""),
        ("", "? - W\n: - W\n  - W\n", "W: W\n"),
    ][choose(18) as usize];
    let mut w = 0u32;
    let mut d = vec![];
    let word = |d: &mut Vec<u8>, s: &str| {
        for c in s.bytes() {
            if c == b'W' {
                d.extend_from_slice(&[b'b' + (w / 20) as u8, b'b' + (w % 20) as u8, b'w']);
                w += 1
            } else {
                d.push(c)
            }
        }
    };
    let mut word = word;
    word(&mut d, pre);
    for _ in 0..n {
        word(&mut d, unit)
    }
    word(&mut d, post);
    // anywhere from a place on
    let at = [0, d.len() / 2, d.len() - 4][choose(3) as usize] + choose(4) as usize;
    let e = [&d[..at], &b, &d[at..]].concat();
    let total = e.iter().filter(|c| c.is_ascii_lowercase()).count();
    let mut l: Loader<RcRepr> = Loader::new(&e);
    match l.parse() {
        Ok(v) => {
            cover(1);
            let k: usize = v.iter().map(letters).sum();
            if k != total {
                check(v.iter().any(bare), 2)
            }
            forget(v)
        }
        Err(e) => {
            cover(2);
            forget(e)
        }
    }
    forget((l, d))
}
harness! {
    c24_g1 => long::<1>(b"\n :-,[]{}?'\"\\|>.", 30);
    c24_g2 => long::<2>(b"\n :-,]?'.", 12);
    c24_g3 => long::<3>(b"\n :-.", 9);
    c24_r7 => conserve::<7>(b"\n a%:-");
    c24_r8 => conserve::<8>(b"\n a%-");
    c24_d8 => conserve::<8>(b"\n a.-");
    c24_p7 => conserve::<7>(b"\n a&!:-");
    c24_c7 => conserve::<7>(b"\n a#:'");
    c24_c6 => conserve::<6>(b"\n a#:'");
    c24_p6 => conserve::<6>(b"\n a&!:-");
    c24_d7 => conserve::<7>(b"\n a.-");
    c24_f7 => conserve::<7>(b"\n a:[],");
    c24_f7m => conserve::<7>(b"\n a:{},");
    c24_b8 => conserve::<8>(b"\n a:-");
    c24_q7 => conserve::<7>(b"\n a:?-");
    c24_s7 => conserve::<7>(b"\n a'\":");
    c24_l7 => conserve::<7>(b"\n a|>-:");
}
