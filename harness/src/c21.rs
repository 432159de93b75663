use super::util::*;
use yaml_peg::parser::{PError, Parser, TakeOpt};

fn run(d: &[u8], f: impl Fn(u8) -> bool) -> usize {
    d.iter().take_while(|c| f(**c)).count()
}
fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == 12
}
fn alnum(c: u8) -> bool {
    c.is_ascii_digit() || c.is_ascii_uppercase() || c.is_ascii_lowercase()
}
fn nl(d: &[u8]) -> Option<usize> {
    match d {
        [b'\r', b'\n', ..] | [b'\n', b'\r', ..] => Some(2),
        [b'\n', ..] | [b'\r', ..] => Some(1),
        _ => None,
    }
}
fn least(n: usize, min: usize) -> Option<usize> {
    if n >= min {
        Some(n)
    } else {
        None
    }
}
fn ident(d: &[u8]) -> Option<usize> {
    if d.len() > 0 && alnum(d[0]) {
        Some(1 + run(&d[1..], |c| alnum(c) || c == b'-'))
    } else {
        None
    }
}
fn comment(d: &[u8]) -> Option<usize> {
    let n = run(d, blank);
    if d[n..].starts_with(b"#") {
        Some(n + run(&d[n..], |c| c != b'\n' && c != b'\r'))
    } else {
        None
    }
}
fn bound(d: &[u8]) -> Option<usize> {
    if d.is_empty() || in_set(d[0], b":{}[] ,\n\r") {
        Some(run(d, blank))
    } else {
        None
    }
}
/// The length and the number of line breaks.
fn gap(d: &[u8], cmt: bool) -> Option<(usize, usize)> {
    let (mut n, mut t) = (0, 0);
    loop {
        let mut k = n;
        if cmt || t > 0 {
            k += run(&d[k..], blank)
        }
        if cmt {
            k += comment(&d[k..]).unwrap_or(0)
        }
        match nl(&d[k..]) {
            Some(l) => {
                n = k + l;
                t += 1
            }
            None => {
                // Spaces and a comment at the end of input belong to it
                if cmt && k == d.len() {
                    n = k;
                    assume(t > 0 || k == 0)
                }
                return if t > 0 { Some((n, t)) } else { None };
            }
        }
    }
}
fn seq(a: Option<usize>, d: &[u8], f: impl Fn(&[u8]) -> Option<usize>) -> Option<usize> {
    let a = a?;
    Some(a + f(&d[a..])?)
}
fn one(d: &[u8], c: u8) -> Option<usize> {
    if d.len() > 0 && d[0] == c {
        Some(1)
    } else {
        None
    }
}
/// The cursor behind a sub-parser which began at `from`: the matched length, if it is known.
fn judge<T>(p: &mut Parser, doc: &[u8], from: usize, r: &Result<T, PError>, want: Option<Option<usize>>) {
    let (pos, eaten) = (p.pos, p.eaten);
    check(eaten == from, 1);
    check(pos >= from && pos <= doc.len(), 2);
    match r {
        Ok(_) => {
            check(p.text().as_bytes() == &doc[from..pos], 3);
            cover(1)
        }
        Err(PError::Mismatch) => {
            check(pos == from, 4);
            cover(2)
        }
        Err(_) => cover(3),
    }
    if let Some(w) = want {
        check(r.is_ok() == w.is_some(), 5);
        if let Some(n) = w {
            check(pos == from + n, 6)
        }
    }
    check(p.food() == &doc[p.pos..] && p.indicator() == p.pos as u64, 7);
}
const PRIMS: u32 = 16;
fn prim(p: &mut Parser, doc: &[u8], k: u32) {
    let f = p.pos;
    let d = &doc[f..];
    match k {
        0 => {
            let c = sym::<1>()[0];
            let r = p.sym(c);
            judge(p, doc, f, &r, Some(one(d, c)))
        }
        1 => {
            let s = sym::<2>();
            let r = p.sym_set(&s);
            judge(p, doc, f, &r, Some(one(d, s[0]).or(one(d, s[1]))))
        }
        2 => {
            let s = sym::<2>();
            let r = p.sym_seq(&s);
            judge(p, doc, f, &r, Some(seq(one(d, s[0]), d, |d| one(d, s[1]))))
        }
        3 => {
            let r = p.take_while(|c| *c == b'a', TakeOpt::One);
            judge(p, doc, f, &r, Some(one(d, b'a')))
        }
        4 => {
            let n = choose(4) as usize;
            let r = p.take_while(|c| *c == b'a' || *c == b' ', TakeOpt::More(n));
            judge(p, doc, f, &r, Some(least(run(d, |c| c == b'a' || c == b' '), n)))
        }
        5 => {
            let (a, b) = (choose(4) as usize, choose(4) as usize);
            assume(a <= b);
            let r = p.take_while(|c| *c == b'a' || *c == b' ', TakeOpt::Range(a, b));
            judge(p, doc, f, &r, Some(least(run(d, |c| c == b'a' || c == b' ').min(b), a)))
        }
        6 => {
            let n = choose(3) as usize;
            let r = p.ws(TakeOpt::More(n));
            judge(p, doc, f, &r, Some(least(run(d, blank), n)))
        }
        7 => {
            let n = choose(3) as usize;
            let r = p.inv(TakeOpt::More(n));
            judge(p, doc, f, &r, Some(least(run(d, |c| blank(c) || c == b'\n' || c == b'\r'), n)))
        }
        8 => {
            let r = p.nl();
            judge(p, doc, f, &r, Some(nl(d)))
        }
        9 => {
            let r = p.identifier();
            judge(p, doc, f, &r, Some(ident(d)))
        }
        10 => {
            let r = p.anchor();
            let w = seq(one(d, b'&'), d, ident);
            judge(p, doc, f, &r, Some(w));
            if let Ok(s) = r {
                check(s.as_bytes() == &d[1..w.unwrap()], 8)
            }
        }
        11 => {
            let r = p.anchor_use();
            let w = seq(one(d, b'*'), d, ident);
            judge(p, doc, f, &r, Some(w));
            if let Ok(s) = r {
                check(s.as_bytes() == &d[1..w.unwrap()], 8)
            }
        }
        12 => {
            let r = p.comment();
            judge(p, doc, f, &r, Some(comment(d)))
        }
        13 => {
            let cmt = choose(2) == 1;
            let r = p.gap(cmt);
            let w = gap(d, cmt);
            judge(p, doc, f, &r, Some(w.map(|w| w.0)));
            if let Ok(t) = r {
                check(t == w.unwrap().1, 9)
            }
        }
        14 => {
            let r = p.bound();
            judge(p, doc, f, &r, Some(bound(d)))
        }
        _ => {
            let r = p.complex_mapping();
            // `?:` begins a plain string
            judge(p, doc, f, &r, Some(if d.starts_with(b"?:") { None } else { seq(one(d, b'?'), d, bound) }))
        }
    }
}
/// The larger sub-parsers; what they match is the subject of other properties.
fn large(p: &mut Parser, doc: &[u8], k: u32) {
    let f = p.pos;
    match k {
        0 => {
            let r = p.int();
            judge(p, doc, f, &r, None)
        }
        1 => {
            let r = p.float();
            judge(p, doc, f, &r, None)
        }
        2 => {
            let r = p.sci_float();
            judge(p, doc, f, &r, None)
        }
        3 => {
            let r = p.string_quoted(b'\'', b"''");
            judge(p, doc, f, &r, None)
        }
        4 => {
            let r = p.string_quoted(b'"', b"\\\"");
            judge(p, doc, f, &r, None)
        }
        5 => {
            let r = p.tag();
            judge(p, doc, f, &r, None)
        }
        6 => {
            let inner = choose(2) == 1;
            let r = p.string_plain(0, inner);
            judge(p, doc, f, &r, None)
        }
        7 => {
            let r = p.count(|p| p.ws(TakeOpt::More(0)));
            let n = run(&doc[f..], blank);
            judge(p, doc, f, &r, Some(Some(n)));
            check(r.unwrap() == n, 10)
        }
        _ => {
            // A scope which matches nothing, then one which matches a part
            let b = p.context(|p| {
                let b = p.sym(b'a').is_ok();
                p.forward();
                let c = p.sym(b':').is_ok();
                (b, c)
            });
            let d = &doc[f..];
            let w = match b {
                (true, true) => 2,
                (true, false) | (false, true) => 1,
                _ => 0,
            };
            check(b.0 == (one(d, b'a').is_some()), 11);
            judge(p, doc, f, &Ok(()), Some(Some(w)));
            p.backward();
            check(p.pos == f, 12)
        }
    }
}
fn prims<const N: usize>(set: &[u8], ks: &[u32], times: u32) {
    let b = sym::<N>();
    for c in b {
        assume(in_set(c, set))
    }
    let from = choose(2) as usize;
    let mut p = Parser::new(&b).pos(from);
    check(p.pos == from && p.eaten == from, 13);
    for _ in 0..times {
        let k = match ks.len() {
            0 => choose(PRIMS),
            n => ks[choose(n as u32) as usize],
        };
        prim(&mut p, &b, k);
        p.forward();
    }
    forget(p)
}
fn larges<const N: usize>(set: &[u8], ks: &[u32]) {
    let b = sym::<N>();
    for c in b {
        assume(in_set(c, set))
    }
    let from = choose(2) as usize;
    let mut p = Parser::new(&b).pos(from);
    large(&mut p, &b, ks[choose(ks.len() as u32) as usize]);
    forget(p)
}
/// Long inputs: a unit many times, with a character of its own at one of three places.
fn long(set: &[u8], ks: &[u32]) {
    let c = sym::<2>();
    assume(in_set(c[0], set) && in_set(c[1], set));
    let u = [&b"a"[..], b" ", b"\n", b"\r\n", b" \n", b"# a\n", b"a-", b"1"][choose(8) as usize];
    let n = [20usize, 260][choose(2) as usize];
    let at = [0, n / 2, n][choose(3) as usize];
    let b = [&c[..1], &u.repeat(at), &c[1..], &u.repeat(n - at), b"a"].concat();
    let from = choose(2) as usize;
    let mut p = Parser::new(&b).pos(from);
    let d = &b[from..];
    match choose(ks.len() as u32 + 3) as usize {
        k @ 0..=2 => {
            let f = |c: &u8| *c == b'a' || *c == b' ';
            let l = [n / 2, n, n + 2][choose(3) as usize];
            let (a, z) = [(l, usize::MAX), (0, l), (l / 2, l)][k];
            let r = p.take_while(f, if k == 0 { TakeOpt::More(l) } else { TakeOpt::Range(a, z) });
            judge(&mut p, &b, from, &r, Some(least(run(d, |c| f(&c)).min(z), a)))
        }
        k => prim(&mut p, &b, ks[k - 3]),
    }
    p.forward();
    let f = p.pos;
    let r = p.take_while(|c| *c != b'a', TakeOpt::More(0));
    judge(&mut p, &b, f, &r, Some(Some(run(&b[f..], |c| c != b'a'))));
    cover(4);
    forget(p)
}
/// Indentation: defined in the first line, the same in the other ones.
fn ind<const N: usize>() {
    let b = sym::<N>();
    for c in b {
        assume(in_set(c, b" a\n"))
    }
    let a = run(&b, |c| c == b' ');
    assume(a < N && b[a] == b'a');
    let mut p = Parser::new(&b);
    let deep = choose(2) as usize;
    let r = p.ind_define(0);
    judge(&mut p, &b, 0, &r, Some(Some(a)));
    p.forward();
    let mut width = a;
    let mut level = 0;
    let mut from = a + 1;
    if deep == 1 {
        assume(from < N && b[from] == b'\n');
        let c = run(&b[from + 1..], |c| c == b' ');
        assume(from + 1 + c < N && b[from + 1 + c] == b'a');
        p = p.pos(from + 1);
        let r = if choose(2) == 0 { p.ind_define(1) } else { p.ind_deeper(1) };
        match &r {
            Ok(()) => check(c >= a, 14),
            Err(_) => {
                check(c <= a, 15);
                return forget(p);
            }
        }
        judge(&mut p, &b, from + 1, &r, None);
        check(p.pos == from + 1 + c, 16);
        width = c;
        level = 1;
        from += 1 + c + 1;
    }
    // The next line
    assume(from < N && b[from] == b'\n');
    from += 1;
    let c = run(&b[from..], |c| c == b' ');
    p = p.pos(from);
    let up = choose(1 + level as u32) as usize;
    let w = if up == 1 { a } else { width };
    let r = p.ind(level - up);
    judge(&mut p, &b, from, &r, Some(if c >= w { Some(w) } else { None }));
    cover(4);
    forget(p)
}
fn sets() {
    let c = sym::<1>()[0];
    let s = sym::<3>();
    let w = c == s[0] || c == s[1] || c == s[2];
    check(Parser::is_in(&s)(&c) == w, 17);
    check(Parser::not_in(&s)(&c) != w, 18);
    cover(4)
}
/// A document in parts: what was consumed counts in the position.
fn parts() {
    let b = sym::<6>();
    for c in b {
        assume(in_set(c, b"a #\n"))
    }
    let mut p = Parser::new(&b);
    let (mut from, mut total) = (0, 0);
    for i in 0..3 {
        let n = run(&b[from..], |c| c == b'a');
        let r = p.take_while(|c| *c == b'a', TakeOpt::More(0));
        check(r.is_ok() && p.pos == n && p.eaten == 0, 19);
        check(p.indicator() == (total + n) as u64, 20);
        check(p.food_str().as_bytes() == &b[from + n..], 21);
        // Only what is matched is given up
        let back = choose(2) as usize;
        assume(back <= n);
        p.back(back);
        check(p.indicator() == (total + n - back) as u64, 22);
        p.consume();
        check(p.pos == 0 && p.eaten == 0, 23);
        total += n - back;
        from += n - back;
        check(p.indicator() == total as u64, 24);
        p = p.with_doc(&b[from..]);
        if i < 2 {
            // The separator
            if p.sym(b' ').is_ok() {
                check(b[from] == b' ' && p.pos == 1, 25);
                p.consume();
                from += 1;
                total += 1;
                p = p.with_doc(&b[from..]);
                cover(1)
            } else {
                check(p.pos == 0, 26)
            }
        }
    }
    if total == 6 {
        cover(4)
    }
    forget(p)
}
harness! {
    c21_con => parts();
    c21_all5 => prims::<5>(b"\n\r \t\x0ca0#:-?&*_!,[]", &[], 1);
    c21_take => prims::<8>(b"a #", &[3, 4, 5, 6, 7], 1);
    c21_line => prims::<7>(b"\n\r #a", &[8, 12, 13], 1);
    c21_word => prims::<8>(b"a-&*_", &[9, 10, 11], 1);
    c21_edge => prims::<6>(b"? :\n,a", &[14, 15], 1);
    c21_two => prims::<6>(b"\na #&", &[3, 4, 6, 8, 9, 10, 12, 13, 14], 2);
    c21_three => prims::<5>(b"\na ?#", &[3, 6, 8, 9, 13, 14, 15], 3);
    c21_num => larges::<8>(b"0.-xe: a", &[0, 1, 2]);
    c21_quo => larges::<8>(b"'\"\\\na ", &[3, 4]);
    c21_tag => larges::<8>(b"!<>a -", &[5]);
    c21_pla => larges::<7>(b"a: #\n[,", &[6]);
    c21_ctx => larges::<6>(b"a: #\n", &[7, 8]);
    c21_ind => ind::<11>();
    c21_lg => long(b"\na #&*-?", &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]);
    c21_set => sets();
}
