use super::util::*;
use yaml_peg::parser::Loader;
use yaml_peg::repr::*;
use yaml_peg::*;

fn pos8() -> u64 {
    u64::from_le_bytes(sym::<8>())
}
fn dec(n: usize, d: &mut Vec<u8>) {
    let b = symv(n);
    for x in b {
        assume(x >= b'0' && x <= b'9');
        d.push(x)
    }
}
fn radix(n: usize, r: u32, d: &mut Vec<u8>) {
    let b = symv(n);
    for x in b {
        if r == 8 {
            assume(x >= b'0' && x <= b'7');
        } else {
            assume(in_set(x, b"0123456789abcdefABCDEF"));
        }
        d.push(x)
    }
}
/// Value of an integer text modulo 2^64, digit by digit, and whether the text is within the range of i64.
fn value(t: &[u8]) -> (i64, bool) {
    let (neg, t) = match t {
        [b'-', r @ ..] => (true, r),
        _ => (false, t),
    };
    let (r, t, max): (i64, &[u8], &[u8]) = match t {
        [b'0', b'x', r @ ..] => (16, r, b"7FFFFFFFFFFFFFFF"),
        [b'0', b'o', r @ ..] => (8, r, b"777777777777777777777"),
        _ => (10, t, if neg { b"9223372036854775808" } else { b"9223372036854775807" }),
    };
    let mut v: i64 = 0;
    for c in t {
        let c = *c as u32;
        let d = if c <= b'9' as u32 {
            c.wrapping_sub(48)
        } else {
            (c | 32).wrapping_sub(97).wrapping_add(10)
        };
        v = v.wrapping_mul(r);
        v = if neg { v.wrapping_sub(d as i64) } else { v.wrapping_add(d as i64) };
    }
    // the texts compare like the numbers: longer is larger, then from the first digit on
    let z = t.iter().take_while(|c| **c == b'0').count();
    let t = &t[z..];
    let fits = match t.len() == max.len() {
        false => t.len() < max.len(),
        true => {
            let mut less = true;
            for i in (0..t.len()).rev() {
                let c = if t[i] >= b'a' { t[i] - 32 } else { t[i] };
                less = c < max[i] || (c == max[i] && less);
            }
            less
        }
    };
    (v, fits)
}
fn int_text(t: Vec<u8>) {
    let (v, fits) = value(&t);
    let s = unsafe { String::from_utf8_unchecked(t) };
    let pos = pos8();
    let n: Node<RcRepr> = Node::new(Yaml::Int(s), pos, "");
    match n.as_int() {
        Ok(x) => {
            cover(1);
            check(fits && x == v, 1)
        }
        Err(p) => {
            cover(2);
            check(!fits, 2);
            check(p == pos, 3)
        }
    }
    match (n.as_number(), n.as_int()) {
        (Ok(x), Ok(i)) => check(x == i as f64, 4),
        (Err(p), Err(_)) => check(!fits && p == pos, 5),
        _ => check(false, 7),
    }
    check(n.as_float().is_err() && n.as_bool().is_err() && n.as_seq().is_err() && n.as_map().is_err() && n.as_str().is_err(), 6);
    forget(n)
}
/// Decimal text: sign, a fixed head, symbolic digits.
fn dec_tail(n: usize) {
    let mut t: Vec<u8> = Vec::new();
    let head = ["", "9223372036854775", "-", "-9223372036854775", "92233720368547758", "1844674407370955"][choose(6) as usize];
    t.extend_from_slice(head.as_bytes());
    dec(n, &mut t);
    int_text(t)
}
fn rad_tail(n: usize) {
    let c = choose(6);
    let (head, r, tail) = [
        ("0x", 16, ""),
        ("0x7fffffffffffff", 16, ""),
        ("0x", 16, "00000000000000"),
        ("0o", 8, ""),
        ("0o7777777777777777777", 8, ""),
        ("0o", 8, "0000000000000000000"),
    ][c as usize];
    let mut t: Vec<u8> = head.as_bytes().to_vec();
    radix(n, r, &mut t);
    t.extend_from_slice(tail.as_bytes());
    int_text(t)
}
/// A number written in a document: the accessors agree with the text.
fn parsed(ctx: u32, f: u32, n: usize) {
    let (pre, post) = [("", ""), ("k: ", "\nl: m\n"), ("- a\n- ", "\n"), ("[", "]"), ("{k: ", "}")][ctx as usize];
    let mut t: Vec<u8> = Vec::new();
    match f {
        0 => {}
        1 => t.push(b'-'),
        2 => t.extend_from_slice(b"0x"),
        _ => t.extend_from_slice(b"0o"),
    }
    match f {
        0 | 1 => dec(n, &mut t),
        2 => radix(n, 16, &mut t),
        _ => radix(n, 8, &mut t),
    }
    let mut d = pre.as_bytes().to_vec();
    let at = d.len() as u64;
    d.extend_from_slice(&t);
    d.extend_from_slice(post.as_bytes());
    let (v, fits) = value(&t);
    let mut l: Loader<RcRepr> = Loader::new(&d);
    let r = l.parse();
    if let Ok(w) = &r {
        let x = match w[0].yaml() {
            Yaml::Map(m) => m.iter().next().map(|x| x.1),
            Yaml::Seq(s) => s.last(),
            _ => Some(&w[0]),
        };
        match x {
            Some(x) => {
                cover(3);
                check(fits && x.as_int() == Ok(v), 11);
                check(x.as_number() == x.as_int().map(|i| i as f64), 12);
                check(x.as_float() == Err(at), 13);
                check(x.as_bool() == Err(at), 14)
            }
            None => check(false, 15),
        }
    } else {
        check(false, 16)
    }
    forget((r, l));
    forget((d, t))
}
const P10: [f64; 6] = [1., 10., 100., 1000., 10000., 100000.];
/// Decimal floats with few digits: the correctly rounded quotient (both operands are exact).
fn float_text(a: usize, b: usize) {
    let neg = choose(2) == 1;
    let mut t: Vec<u8> = Vec::new();
    if neg {
        t.push(b'-')
    }
    let s0 = t.len();
    dec(a, &mut t);
    if b > 0 {
        t.push(b'.');
        dec(b, &mut t);
    }
    let mut m: u64 = 0;
    for c in &mut t[s0..] {
        if *c != b'.' {
            *c = conc(*c as u64) as u8;
            m = m * 10 + (*c - b'0') as u64
        }
    }
    let want = m as f64 / P10[b];
    let want = if neg { -want } else { want };
    let s = unsafe { String::from_utf8_unchecked(t) };
    let pos = pos8();
    let n: Node<RcRepr> = Node::new(Yaml::Float(s), pos, "");
    let same = |x: Result<f64, u64>| matches!(x, Ok(x) if x.to_bits() == want.to_bits());
    check(same(n.as_float()), 21);
    check(same(n.as_number()), 22);
    check(n.as_int() == Err(pos), 23);
    cover(4);
    forget(n)
}
/// Long texts of floats: zeros around one or two digits, whose value is known.
fn float_long(inner: u32) {
    let neg = choose(2) == 1;
    let mut t: Vec<u8> = if neg { vec![b'-'] } else { vec![] };
    let b = sym::<1>();
    assume(b[0] >= b'0' && b[0] <= b'9');
    let b0 = conc(b[0] as u64) as u8;
    let m = (b0 - b'0') as f64;
    let n = [1usize, 8, 17, 18, 19, 20, 21, 22][choose(8) as usize];
    let zeros = |t: &mut Vec<u8>, n| {
        for _ in 0..n {
            t.push(b'0')
        }
    };
    let p10 = [1e1, 1e8, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22][match n {
        1 => 0,
        8 => 1,
        _ => n - 15,
    }];
    let two = |n: usize| [b'0' + (n / 10) as u8, b'0' + (n % 10) as u8];
    let want = match choose(10) {
        0 => {
            // d.1000
            t.push(b0);
            t.extend_from_slice(b".5");
            zeros(&mut t, n);
            m + 0.5
        }
        1 => {
            // 000d.5
            zeros(&mut t, n);
            t.push(b0);
            t.extend_from_slice(b".5");
            m + 0.5
        }
        2 => {
            // d000.0
            t.push(b0);
            zeros(&mut t, n);
            t.extend_from_slice(b".0");
            m * p10
        }
        3 => {
            // dE22
            t.push(b0);
            t.push(b'E');
            t.extend_from_slice(&two(n));
            m * p10
        }
        4 => {
            t.push(b0);
            t.extend_from_slice(b"e-");
            t.extend_from_slice(&two(n));
            m / p10
        }
        5 => {
            t.push(b0);
            t.extend_from_slice(b"e+0000");
            t.extend_from_slice(&two(n));
            m * p10
        }
        6 => {
            // 0.000d
            t.extend_from_slice(b"0.");
            zeros(&mut t, n - 1);
            t.push(b0);
            m / p10
        }
        7 => {
            t.push(b0);
            t.extend_from_slice(b"e400");
            if b0 == b'0' { 0. } else { f64::INFINITY }
        }
        8 => {
            t.push(b0);
            t.extend_from_slice(b"e-400");
            0.
        }
        _ => {
            t.push(b0);
            zeros(&mut t, n);
            t.extend_from_slice(b"e-");
            t.extend_from_slice(&two(n));
            m
        }
    };
    let want = if neg { -want } else { want };
    let same = |x: Result<f64, u64>| matches!(x, Ok(x) if x.to_bits() == want.to_bits());
    if inner == 5 {
        let n: Node<RcRepr> = Node::new(Yaml::Float(unsafe { String::from_utf8_unchecked(t) }), 7, "");
        check(same(n.as_float()), 24);
        check(same(n.as_number()), 25);
        check(n.as_int() == Err(7), 26);
        cover(4);
        return forget(n);
    }
    let (pre, post) = [("", ""), ("k: ", "\nl: m\n"), ("- a\n- ", "\n"), ("[", "]"), ("{k: ", "}")][inner as usize];
    let mut d = pre.as_bytes().to_vec();
    d.extend_from_slice(&t);
    d.extend_from_slice(post.as_bytes());
    let mut l: Loader<RcRepr> = Loader::new(&d);
    let r = l.parse();
    match &r {
        Ok(w) => {
            let x = match w[0].yaml() {
                Yaml::Map(m) => m.iter().next().map(|x| x.1),
                Yaml::Seq(s) => s.last(),
                _ => Some(&w[0]),
            };
            match x {
                Some(x) => {
                    cover(4);
                    check(same(x.as_float()), 27);
                    check(same(x.as_number()), 28);
                    check(x.as_int() == Err(pre.len() as u64), 29);
                }
                None => check(false, 30),
            }
        }
        Err(_) => check(false, 20),
    }
    forget((r, l));
    forget((d, t))
}
/// Integers with many zeros in front, or beyond the range by far.
fn int_long(inner: u32) {
    let n = [18usize, 19, 20, 70][choose(4) as usize];
    let (head, r) = [("", 10), ("-", 10), ("0x", 16), ("0o", 8)][choose(4) as usize];
    let mut t = head.as_bytes().to_vec();
    let lead = choose(2) == 1;
    let two = |t: &mut Vec<u8>| match r {
        10 => dec(2, t),
        r => radix(2, r, t),
    };
    if lead {
        for _ in 0..n {
            t.push(b'0')
        }
        two(&mut t)
    } else {
        two(&mut t);
        for _ in 0..n {
            t.push(b'0')
        }
    }
    if inner == 5 {
        return int_text(t);
    }
    let (v, fits) = value(&t);
    let (pre, post) = [("", ""), ("k: ", "\nl: m\n"), ("- a\n- ", "\n"), ("[", "]"), ("{k: ", "}")][inner as usize];
    let mut d = pre.as_bytes().to_vec();
    let at = d.len() as u64;
    d.extend_from_slice(&t);
    d.extend_from_slice(post.as_bytes());
    let mut l: Loader<RcRepr> = Loader::new(&d);
    let r = l.parse();
    if let Ok(w) = &r {
        let x = match w[0].yaml() {
            Yaml::Map(m) => m.iter().next().map(|x| x.1),
            Yaml::Seq(s) => s.last(),
            _ => Some(&w[0]),
        };
        match x {
            Some(x) => {
                cover(3);
                check(x.as_int() == if fits { Ok(v) } else { Err(at) }, 17);
                check(x.as_number() == x.as_int().map(|i| i as f64), 12);
                check(x.as_float() == Err(at), 13)
            }
            None => check(false, 15),
        }
    } else {
        check(false, 16)
    }
    forget((r, l));
    forget((d, t))
}
/// Numbers built from Rust values.
fn built() {
    match choose(8) {
        0 => {
            let x = i64::from_le_bytes(sym::<8>());
            let k = choose(5);
            assume(match k {
                0 => x >= 0 && x < 100,
                1 => x < 0 && x > -1000,
                2 => x > i64::MAX - 10,
                3 => x < i64::MIN + 10,
                _ => x >= 1000 && x < 1010,
            });
            let n: Node<RcRepr> = Node::from(x);
            check(n.as_int() == Ok(x), 31);
            forget(n)
        }
        1 => {
            let x = u64::from_le_bytes(sym::<8>());
            assume(x > i64::MAX as u64 - 6 && x < i64::MAX as u64 + 6 || x > u64::MAX - 6);
            let n: Node<RcRepr> = Node::from(x);
            if x <= i64::MAX as u64 {
                check(n.as_int() == Ok(x as i64), 32)
            } else {
                check(n.as_int() == Err(0), 33)
            }
            forget(n)
        }
        2 => {
            let x = sym::<1>()[0];
            check(Node::<RcRepr>::from(x).as_int() == Ok(x as i64), 34)
        }
        3 => {
            let x = sym::<1>()[0] as i8;
            check(Node::<RcRepr>::from(x).as_int() == Ok(x as i64), 35)
        }
        4 => {
            let x = [0.5f64, -0.0, 1e300, f64::MIN_POSITIVE, 5e-324, f64::MAX, 0.1, 123456.789, f64::INFINITY, -f64::INFINITY, 1e21, 1e-7][choose(12) as usize];
            let n: Node<RcRepr> = Node::from(x);
            check(matches!(n.as_float(), Ok(y) if y.to_bits() == x.to_bits()), 36);
            forget(n)
        }
        5 => {
            let n: Node<RcRepr> = Node::from(f64::NAN);
            check(matches!(n.as_float(), Ok(y) if y.is_nan()), 37);
            forget(n)
        }
        6 => {
            let x = u16::from_le_bytes(sym::<2>());
            assume(x < 300 || x > 65500);
            check(Node::<RcRepr>::from(x).as_int() == Ok(x as i64), 38)
        }
        _ => {
            let x = [0.5f32, 0.1, 16777216., f32::MAX, -3.25][choose(5) as usize];
            let n: Node<RcRepr> = Node::from(x);
            check(matches!(n.as_float(), Ok(y) if y as f32 == x), 39);
            forget(n)
        }
    }
    cover(5)
}
harness! {
    c03_d2 => dec_tail(2);
    c03_d3 => dec_tail(3);
    c03_d4 => dec_tail(4);
    c03_r2 => rad_tail(2);
    c03_p2 => parsed(choose(5), choose(4), 2);
    c03_p3 => parsed(choose(5), choose(4), 3);
    c03_f11 => float_text(1, 1);
    c03_f12 => float_text(1, 2);
    c03_f21 => float_text(2, 1);
    c03_lf => float_long(choose(6));
    c03_li => int_long(choose(6));
    c03_b => built();
}
