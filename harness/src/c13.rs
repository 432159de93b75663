use super::util::*;
use yaml_peg::repr::*;
use yaml_peg::*;

#[path = "bulk.rs"]
mod bulk;
/// One piece of a document: a character of any encoded length or a line break; the first is any ASCII character.
fn piece(d: &mut Vec<u8>, k: u32) -> usize {
    match k {
        0 => d.push(b'\n'),
        1 if d.is_empty() => {
            let c = sym::<1>()[0];
            assume(c < 128 && c != b'\n' && c != b'\r');
            d.push(c)
        }
        1 => d.push(b'a'),
        2 => d.extend_from_slice("\u{e9}".as_bytes()),
        3 => d.extend_from_slice("\u{20ac}".as_bytes()),
        4 => d.extend_from_slice("\u{1f600}".as_bytes()),
        _ => {
            d.extend_from_slice(b"\r\n");
            return 2;
        }
    }
    1
}
fn dec(mut n: usize, v: &mut Vec<u8>) {
    let mut t = vec![];
    loop {
        t.push(b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    t.reverse();
    v.extend_from_slice(&t)
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && {
        let mut d = 0;
        for i in 0..a.len() {
            d |= a[i] ^ b[i]
        }
        d == 0
    }
}
/// What the message says: line, column, the line, the caret.
fn want(line: usize, col: usize, text: &[u8]) -> Vec<u8> {
    let mut w = vec![];
    dec(line, &mut w);
    w.push(b':');
    dec(col, &mut w);
    w.push(b'\n');
    w.extend_from_slice(text);
    w.push(b'\n');
    for _ in 1..col {
        w.push(b' ')
    }
    w.push(b'^');
    w
}
/// Documents of `n` pieces, every position between two of them.
fn message(n: usize, kinds: u32, at: usize) {
    let mut d = vec![];
    let mut pos = 0;
    let (mut line, mut col, mut start) = (1, 1, 0);
    let mut end = None;
    for i in 0..n {
        if i == at {
            pos = d.len()
        }
        let k = choose(kinds);
        let from = d.len();
        let l = piece(&mut d, k);
        if k == 0 || k == 5 {
            if i >= at {
                if end.is_none() {
                    end = Some(from)
                }
            } else {
                line += 1;
                col = 1;
                start = d.len()
            }
        } else if i < at {
            col += l
        }
    }
    if at == n {
        pos = d.len()
    }
    let end = end.unwrap_or(d.len());
    if line > 1 && col > 1 {
        cover(1)
    }
    let m = indicated_msg(&d, pos as u64);
    out_str(&m);
    // the carriage return of a line break may be shown as well
    let w = want(line, col, &d[start..end]);
    let mut full = end;
    if full < d.len() && d[full] == b'\r' {
        full += 1
    }
    let w2 = want(line, col, &d[start..full]);
    check(same_bytes(m.as_bytes(), &w) || same_bytes(m.as_bytes(), &w2), 1);
    let f = indicated_msg_file("a/b.yaml", &d, pos as u64);
    let mut wf = b"a/b.yaml:".to_vec();
    wf.extend_from_slice(m.as_bytes());
    check(same_bytes(f.as_bytes(), &wf), 2);
    forget((d, m, w, w2, f, wf))
}
/// Many lines and long lines: numbers of two digits.
fn long() {
    let n = |k| if k < 3 { k as usize + 8 } else { [98, 99, 100, 255, 256][k as usize - 3] };
    let (l, c) = (n(choose(8)), n(choose(8)));
    let mut d = vec![b'\n'; l];
    for _ in 0..c {
        d.push(b'a')
    }
    d.push(sym::<1>()[0]);
    assume(d[l + c] < 128 && d[l + c] != b'\n' && d[l + c] != b'\r');
    let x = choose(3) as usize;
    let m = indicated_msg(&d, (l + c + x - 1) as u64);
    check(same_bytes(m.as_bytes(), &want(l + 1, c + x, &d[l..])), 1);
    forget((d, m))
}
/// The message of a failed parse shows a line of the input, and a column in it.
fn failed<const L: usize>(set: &[u8], eu: bool) {
    let b = sym::<L>();
    for c in b {
        assume(in_set(c, set))
    }
    let mut d = b.to_vec();
    if eu {
        d.extend_from_slice("\u{e9}\n]: a".as_bytes())
    }
    error(d)
}
fn error(d: Vec<u8>) {
    let mut l: parser::Loader<RcRepr> = parser::Loader::new(&d);
    match l.parse() {
        Ok(v) => {
            cover(2);
            forget(v)
        }
        Err(e) => {
            cover(1);
            if let parser::PError::Terminate { msg, .. } = &e {
                let m = msg.as_bytes();
                out_str(msg);
                let mut i = 0;
                let mut num = || {
                    let mut v = 0;
                    while i < m.len() && m[i] >= b'0' && m[i] <= b'9' {
                        v = v * 10 + (m[i] - b'0') as usize;
                        i += 1
                    }
                    i += 1;
                    v
                };
                let (line, col) = (num(), num());
                let mut n = 1;
                let mut s = 0;
                for j in 0..d.len() {
                    if n < line && d[j] == b'\n' {
                        n += 1;
                        s = j + 1
                    }
                }
                check(n == line && col > 0, 1);
                let mut t = s;
                while t < d.len() && d[t] != b'\n' {
                    t += 1
                }
                let chars = d[s..t].iter().filter(|c| (**c as i8) >= -64).count();
                check(col <= chars + 1, 2);
                check(same_bytes(m, &want(line, col, &d[s..t])), 3);
            }
            forget(e)
        }
    }
    forget(l)
}
/// Any character of any encoded length in the line, in front of the position or behind it.
fn wide() {
    let b = sym::<4>();
    let n = choose(4) as usize + 1;
    let more = |k: usize| (b[k] as i8) < -64;
    let v = b[1];
    assume(match n {
        1 => b[0] < 128 && b[0] != b'\n' && b[0] != b'\r',
        2 => b[0] >= 0xc2 && b[0] < 0xe0 && more(1),
        3 => {
            b[0] >= 0xe0
                && b[0] < 0xf0
                && more(1)
                && more(2)
                && (b[0] != 0xe0 || v >= 0xa0)
                && (b[0] != 0xed || v < 0xa0)
        }
        _ => {
            b[0] >= 0xf0
                && b[0] < 0xf5
                && more(1)
                && more(2)
                && more(3)
                && (b[0] != 0xf0 || v >= 0x90)
                && (b[0] != 0xf4 || v < 0x90)
        }
    });
    let lead = choose(2) as usize;
    let mut d = b"\n".repeat(lead);
    let pad = choose(3) as usize;
    for _ in 0..pad {
        d.push(b'-')
    }
    d.extend_from_slice(&b[..n]);
    d.extend_from_slice(b"xy");
    let end = d.len();
    if choose(2) == 1 {
        d.extend_from_slice(b"\nz")
    }
    let behind = choose(4) as usize;
    let pos = lead + pad + if behind == 0 { 0 } else { n + behind - 1 };
    let m = indicated_msg(&d, pos as u64);
    out_str(&m);
    check(same_bytes(m.as_bytes(), &want(lead + 1, pad + behind + 1, &d[lead..end])), 1);
    cover(n as u64);
    forget((d, m))
}
macro_rules! at {
    ($n:expr, $k:expr) => {
        message($n, $k, choose($n + 1) as usize)
    };
}
harness! {
    c13_l1 => error(bulk::doc::<1>(b"\n -:a#[]{},'\"\\&*!|>?%\t.1", &[20, 64]));
    c13_l2 => error(bulk::doc::<2>(b"\n -:[*", &[17]));
    c13_l3 => error(bulk::doc::<1>(b"\n :[!*", &[130]));
    c13_m2 => at!(2, 6);
    c13_m3 => at!(3, 6);
    c13_m4 => at!(4, 6);
    c13_m6 => at!(6, 2);
    c13_n => long();
    c13_w => wide();
    c13_f4 => failed::<4>(b"a:[]{\n\"", false);
    c13_f5 => failed::<5>(b"a:[\n", false);
    c13_f6 => failed::<6>(b"\n a:", false);
    c13_f7 => failed::<6>(b"\n a:-", false);
    c13_u3 => failed::<3>(b"a:[]{}\n \"!", true);
}
