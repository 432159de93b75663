//! Long and deep documents with symbolic characters in them.
use super::super::util::*;

/// Head, unit, tail; what the units are repeated into.
const UNITS: [(&str, &str, &str); 44] = [
    ("", "1", ""),
    ("a: -0", "0", ".5"),
    ("- 0x", "f", ""),
    ("[1e", "9", "]"),
    ("", "x", ""),
    ("a: b", " b", "\nc: d"),
    ("a: b", "   ", "\nc: d"),
    ("a:", " ", "b\nc: d"),
    ("a:", "\n", "  b\nc: d"),
    ("a: b", "\n  b", "\nc: d"),
    ("a: b", "\n\n  b", "\nc: d"),
    ("- a # ", "# ", "\n- b"),
    ("- a", "\n# c", "\n- b"),
    ("'", "a", "'"),
    ("a: '", "''", "'"),
    ("- \"", "\\n\\\\\\\"", "\""),
    ("\"a", "\n", "b\""),
    ("- \"a", " \\\n b", "\"\n- c"),
    ("- |\n  a", "\n  a", "\n- b"),
    ("- |+\n  a", "\n", "\n- b"),
    ("- >\n  a", "\n  a", "\n- b"),
    ("- >-\n  a", "\n", "  b\n- b"),
    ("- |\n  ", "a ", "\n- b"),
    ("[", "a, ", "]"),
    ("{a: b", ", c: d", "}"),
    ("[a", "\n", "]"),
    ("[", "[", "a"),
    ("", "- ", "a"),
    ("", "? ", "a"),
    ("- ", "[a, ", "b"),
    ("- ", "{a: ", "b"),
    ("", "- a\n", ""),
    ("- a\n", "- [b]\n", "- c"),
    ("a: b\n", "c:\n- d\n", "e: f"),
    ("", "--- a\n", ""),
    ("a\n", "...\n---\n", "b"),
    ("!", "a", " b"),
    ("- !<", "a/", "> b\n- c"),
    ("- &", "a", " b\n- c"),
    ("%TAG !e! ", "a:", "\n--- !e!b c"),
    ("", "%U v\n", "--- a"),
    ("- &a b\n", "- *a\n", "- c"),
    ("", "\u{e9}\u{20ac}", ""),
    ("a: b\n\u{20ac}", "\u{1f600}", ": c"),
];
/// Steps of two columns.
fn stairs(d: &mut Vec<u8>, kind: u32, n: usize) {
    for i in 0..n {
        for _ in 0..i {
            d.extend_from_slice(b"  ")
        }
        d.extend_from_slice(match kind {
            0 => b"-\n",
            1 => b"k:\n",
            2 => [&b"k:\n"[..], b"-\n"][i % 2],
            _ => b"?\n",
        })
    }
    for _ in 0..n {
        d.extend_from_slice(b"  ")
    }
    d.extend_from_slice(b"e\n");
    if kind == 1 {
        for i in (0..n).rev() {
            for _ in 0..i {
                d.extend_from_slice(b"  ")
            }
            d.extend_from_slice(b"l: m\n")
        }
    }
}
/// `L` characters out of `set` at one of three places.
pub fn doc<const L: usize>(set: &[u8], sizes: &[usize]) -> Vec<u8> {
    let b = sym::<L>();
    for c in b {
        assume(in_set(c, set))
    }
    let at = choose(3);
    let n = sizes[choose(sizes.len() as u32) as usize];
    let k = choose(UNITS.len() as u32 + 4) as usize;
    let mut d = vec![];
    if k >= UNITS.len() {
        stairs(&mut d, (k - UNITS.len()) as u32, n.min(20));
        let p = [0, d.len() / 2, d.len() - 1][at as usize];
        let mut e = d[..p].to_vec();
        e.extend_from_slice(&b);
        e.extend_from_slice(&d[p..]);
        return e;
    }
    let (pre, unit, post) = UNITS[k];
    d.extend_from_slice(pre.as_bytes());
    for i in 0..n {
        if at == 0 && i == 0 || at == 1 && i == n / 2 {
            d.extend_from_slice(&b)
        }
        d.extend_from_slice(unit.as_bytes())
    }
    if at == 2 {
        d.extend_from_slice(&b)
    }
    d.extend_from_slice(post.as_bytes());
    d
}
