//! Boundary-biased generators of model values.

use crate::model::*;
use crate::oracle::*;
use crate::src::*;

pub fn ascii(s: &mut Src, n: usize) -> String {
    const SPECIAL: &[u8] = b"\" ()u'.-\\\0x~\x7f\n";
    match s.below(5) {
        0 => {
            // clarity-like text with quotes and brackets
            let mut o = String::new();
            while o.len() < n {
                let p: &str = *s.pick(&[
                    "\" \"", "\"", " ", ")", "(", "u\"", "0x", "none", "a", "b", "(ok ", "true", ".", "\\", "u1", "-1",
                ]);
                o.push_str(p);
            }
            o.truncate(n);
            o
        }
        1 => (0..n).map(|_| *s.pick(SPECIAL) as char).collect(),
        2 => (0..n).map(|_| (s.u8() & 0x7f) as char).collect(),
        3 => {
            let c = (s.u8() & 0x7f) as char;
            (0..n).map(|_| c).collect()
        }
        _ => (0..n).map(|_| (b'a' + s.u8() % 26) as char).collect(),
    }
}

pub fn a_char(s: &mut Src) -> char {
    match s.below(7) {
        0 => *s.pick(&['\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{ff}', '\u{100}']),
        1 => *s.pick(&['é', 'ß', '語', '😀', '\u{feff}', '\u{200d}', 'Ω', 'İ', 'ı', '0', 'Ｏ', 'ſ']),
        2 => char::from_u32(s.num(21) as u32).unwrap_or('\u{fffd}'),
        3 => char::from(s.u8()),
        _ => (s.u8() & 0x7f) as char,
    }
}

/// Any text of about `n` bytes (never more).
pub fn text(s: &mut Src, n: usize) -> String {
    if s.one_in(2) {
        return ascii(s, n);
    }
    if s.one_in(6) && !dict().strs.is_empty() {
        let mut t = s.pick(&dict().strs).clone();
        if t.len() <= n {
            if s.bool() {
                t.push_str(&ascii(s, (n - t.len()).min(5)));
            }
            return t;
        }
    }
    let mut o = String::new();
    loop {
        let c = a_char(s);
        if o.len() + c.len_utf8() > n {
            break;
        }
        o.push(c);
    }
    while o.len() < n && s.bool() {
        o.push('x');
    }
    o
}

/// A name (contract, function, asset, tuple key) of at most `max` bytes.
pub fn name(s: &mut Src, max: usize) -> String {
    if let Some(t) = s.old_str(max, 8) {
        return t;
    }
    let t = name_new(s, max);
    s.keep_str(&t);
    t
}

fn name_new(s: &mut Src, max: usize) -> String {
    let n = match s.below(8) {
        0 => s.len(max),
        1 => *s.pick(&[0, 1, max - 1, max, max / 2, 40, 39, 41]),
        _ => s.range(1, 12),
    }
    .min(max);
    match s.below(8) {
        0 => text(s, n),
        1 if !dict().strs.is_empty() => {
            let t = s.pick(&dict().strs).clone();
            if t.len() <= max {
                t
            } else {
                ascii(s, n)
            }
        }
        _ => {
            const AL: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_!?+<>=/*";
            (0..n).map(|_| *s.pick(AL) as char).collect()
        }
    }
}

pub fn hash(s: &mut Src) -> [u8; 20] {
    s.hash20()
}

pub fn addr(s: &mut Src) -> String {
    let v = *s.pick(&VERSIONS);
    address(v, &hash(s))
}

/// Content length: mostly moderate, sometimes beyond 16 bits.
fn blen(s: &mut Src) -> usize {
    let m = s.big;
    if m > 5000 && s.one_in(8000) {
        s.big = 300;
        return s.large(&[131_071, 131_072, 262_145, 524_288, 1_000_000, 1_048_575, 1_048_576, 1_048_577, 1_500_000, 4_194_305, 16_777_217]);
    }
    if s.one_in(12) {
        s.len(m)
    } else {
        s.len(m.min(300))
    }
}

fn leaf(s: &mut Src) -> V {
    match s.below(12) {
        0 | 1 => V::Int(s.i128()),
        2 | 3 => V::UInt(s.u128()),
        4 => {
            let n = blen(s);
            V::Buf(s.bytes(n))
        }
        5 => V::True,
        6 => V::False,
        7 => V::Std(addr(s)),
        8 => V::Con(addr(s), name(s, 128)),
        9 => V::None,
        10 => {
            let n = blen(s);
            V::Ascii(ascii(s, n))
        }
        _ => {
            let n = blen(s);
            V::Utf8(text(s, n))
        }
    }
}

fn small_leaf(s: &mut Src) -> V {
    match s.below(6) {
        0 => V::UInt(s.u128()),
        1 => V::Int(s.i128()),
        2 => V::True,
        3 => V::None,
        4 => V::Buf(s.bytes(1)),
        _ => V::False,
    }
}

pub fn keys(s: &mut Src, n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    while out.len() < n {
        let mut k = match s.below(8) {
            // prefixes, case variants and extensions of earlier keys
            0 if !out.is_empty() => {
                let mut k = s.pick(&out).clone();
                k.push(*s.pick(&['a', '-', '0', ' ']));
                k
            }
            1 if !out.is_empty() => {
                let k = s.pick(&out).clone();
                let mut k: Vec<char> = k.chars().collect();
                k.pop();
                k.into_iter().collect()
            }
            2 if !out.is_empty() => {
                let k = s.pick(&out).clone();
                if s.bool() {
                    k.to_uppercase()
                } else {
                    k.to_lowercase()
                }
            }
            _ => name(s, 128),
        };
        if k.len() > 128 {
            k = format!("k{}", out.len());
        }
        let mut n = 0;
        while out.contains(&k) {
            n += 1;
            k = format!("k{}x{}", out.len(), n);
        }
        out.push(k);
    }
    out
}

/// A valid self-describing value of nesting at most `depth`.
pub fn value(s: &mut Src, depth: usize) -> V {
    let mut budget = 400usize;
    value_b(s, depth, &mut budget)
}

fn value_b(s: &mut Src, depth: usize, budget: &mut usize) -> V {
    if depth <= 1 || *budget == 0 || s.one_in(3) {
        *budget = budget.saturating_sub(1);
        return leaf(s);
    }
    *budget = budget.saturating_sub(1);
    match s.below(9) {
        0 => V::Ok(Box::new(value_b(s, depth - 1, budget))),
        1 => V::Err(Box::new(value_b(s, depth - 1, budget))),
        2 => V::Some(Box::new(value_b(s, depth - 1, budget))),
        3 | 4 | 5 => V::List(seq(s, depth, budget)),
        _ if s.big > 5000 && s.one_in(150) => {
            // very wide: more entries than any small counter holds
            s.big = 300;
            let n = if s.one_in(8) {
                *s.pick(&[16_384, 32_769, 65_535, 65_536, 65_537])
            } else {
                *s.pick(&[511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8193])
            };
            let v = small_leaf(s);
            V::Tuple((0..n).map(|i| (format!("k{i}"), v.clone())).collect())
        }
        _ => {
            let n = if s.one_in(12) { s.len(300.min(s.big)) } else { s.below(6) };
            let ks = keys(s, n);
            V::Tuple(
                ks.into_iter()
                    .map(|k| {
                        let v = if n > 8 { small_leaf(s) } else { value_b(s, depth - 1, budget) };
                        (k, v)
                    })
                    .collect(),
            )
        }
    }
}

fn seq(s: &mut Src, depth: usize, budget: &mut usize) -> Vec<V> {
    let n = if s.one_in(10) {
        if s.big > 5000 && s.one_in(60) {
            s.big = 300;
            if s.one_in(16) {
                s.large(&[65_537, 100_001, 131_073, 262_144, 500_000, 1_000_000])
            } else {
                *s.pick(&[4096, 16383, 32768, 65535, 65536, 65537])
            }
        } else {
            s.len(if s.big > 5000 { 1100 } else { 300 })
        }
    } else {
        s.below(6)
    };
    if n > 8 {
        if s.bool() || n > 2000 {
            let v = if n > 2000 { s.pick(&[V::True, V::False, V::None]).clone() } else { small_leaf(s) };
            return vec![v; n];
        }
        return (0..n).map(|_| small_leaf(s)).collect();
    }
    if s.one_in(3) && n > 0 {
        // homogeneous, as real lists are
        let v = value_b(s, depth - 1, budget);
        if v.weight() * n > 20_000 {
            return vec![v];
        }
        let mut out = vec![v.clone(); n];
        for o in out.iter_mut() {
            if s.bool() {
                vary(s, o);
            }
        }
        return out;
    }
    (0..n).map(|_| value_b(s, depth - 1, budget)).collect()
}

pub fn args(s: &mut Src) -> Vec<V> {
    let mut b = 300;
    let d = s.range(1, 5);
    seq(s, d, &mut b)
}

/// A value chain of exactly `d` nested wrappers.
pub fn deep(s: &mut Src, d: usize) -> V {
    let mut v = leaf(s);
    for _ in 0..d {
        v = match s.below(6) {
            0 => V::Ok(Box::new(v)),
            1 => V::Err(Box::new(v)),
            2 => V::Some(Box::new(v)),
            3 => V::Tuple(vec![(name(s, 20), v)]),
            4 => V::List(vec![v]),
            _ => V::List(vec![small_leaf(s), v]),
        };
    }
    v
}

/// A self-describing value: leaf, container, deep chain or large.
pub fn any(s: &mut Src) -> V {
    match s.below(10) {
        0 => leaf(s),
        1 => {
            let d = match s.below(40) {
                0 if s.big > 5000 => *s.pick(&[63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600]),
                1..=3 => s.range(40, 140),
                _ => s.range(5, 40),
            };
            deep(s, d)
        }
        _ => {
            let d = s.range(1, 6);
            value(s, d)
        }
    }
}

/// A value of one given kind.
pub fn of_kind(s: &mut Src, k: K) -> V {
    let d = s.range(1, 4);
    match k {
        K::Int => V::Int(s.i128()),
        K::UInt => V::UInt(s.u128()),
        K::Buf => {
            let n = blen(s);
            V::Buf(s.bytes(n))
        }
        K::True => V::True,
        K::False => V::False,
        K::None => V::None,
        K::Std => V::Std(addr(s)),
        K::Con => V::Con(addr(s), name(s, 128)),
        K::Ok => V::Ok(Box::new(value(s, d))),
        K::Err => V::Err(Box::new(value(s, d))),
        K::Some => V::Some(Box::new(value(s, d))),
        K::List => {
            let mut b = 300;
            V::List(seq(s, d + 1, &mut b))
        }
        K::Args => V::Args(args(s)),
        K::Tuple => {
            let n = s.below(7);
            let ks = keys(s, n);
            V::Tuple(ks.into_iter().map(|k| (k, value(s, d))).collect())
        }
        K::Ascii => {
            let n = blen(s);
            V::Ascii(ascii(s, n))
        }
        K::Utf8 => {
            let n = blen(s);
            V::Utf8(text(s, n))
        }
        K::Name => V::Name(name(s, 128)),
    }
}

pub fn principal(s: &mut Src) -> V {
    if s.bool() {
        V::Std(addr(s))
    } else {
        V::Con(addr(s), name(s, 128))
    }
}

/// Alters one place of the value, keeping it valid and of the same kind.
pub fn vary(s: &mut Src, v: &mut V) {
    let n = v.size();
    let mut i = s.below(n);
    let mut f = |x: &mut V| vary_node(s, x);
    v.at(&mut i, &mut f);
}

fn vary_text(s: &mut Src, t: &mut String, max: usize, ascii_only: bool) {
    match s.below(4) {
        0 if t.len() < max => t.push(*s.pick(&['a', ' ', '"', '\0', ')'])),
        1 => {
            t.pop();
        }
        2 if t.len() < max => t.insert(0, 'z'),
        _ => {
            let mut c: Vec<char> = t.chars().collect();
            if c.is_empty() {
                if max > 0 {
                    t.push('q');
                }
            } else {
                let i = s.below(c.len());
                let old = c[i];
                c[i] = if old == 'A' { 'a' } else { 'A' };
                let u: String = c.into_iter().collect();
                if u.len() <= max && (!ascii_only || u.is_ascii()) {
                    *t = u;
                }
            }
        }
    }
}

fn vary_node(s: &mut Src, v: &mut V) {
    match v {
        V::Int(i) => *i = if s.bool() { i.wrapping_add(1) } else { i.wrapping_neg() },
        V::UInt(i) => *i = if s.bool() { i.wrapping_add(1) } else { *i ^ (1u128 << s.below(128)) },
        V::Buf(b) => {
            if b.is_empty() || s.one_in(3) {
                b.push(0);
            } else {
                let i = s.below(b.len());
                b[i] ^= 1 << s.below(8);
            }
        }
        V::True | V::False | V::None => {
            let t = *s.pick(&[0, 1, 2]);
            *v = [V::True, V::False, V::None][t].clone();
        }
        V::Std(a) => *a = vary_addr(s, a),
        V::Con(a, n) => {
            if s.bool() {
                *a = vary_addr(s, a);
            } else {
                vary_text(s, n, 128, false);
            }
        }
        V::Ok(x) => {
            let y = (**x).clone();
            *v = if s.bool() { V::Err(Box::new(y)) } else { V::Some(Box::new(y)) };
        }
        V::Err(x) => {
            let y = (**x).clone();
            *v = V::Ok(Box::new(y));
        }
        V::Some(x) => {
            let y = (**x).clone();
            *v = if s.bool() { V::None } else { y };
        }
        V::List(xs) | V::Args(xs) => {
            if xs.is_empty() || s.one_in(3) {
                xs.push(V::True);
            } else if s.bool() {
                let i = s.below(xs.len());
                xs.remove(i);
            } else {
                let i = s.below(xs.len());
                let j = s.below(xs.len());
                xs.swap(i, j);
            }
        }
        V::Tuple(xs) => {
            if xs.is_empty() {
                xs.push(("k".into(), V::None));
            } else {
                let i = s.below(xs.len());
                match s.below(4) {
                    0 => {
                        xs.remove(i);
                    }
                    1 => {
                        let j = s.below(xs.len());
                        xs.swap(i, j);
                    }
                    2 => {
                        let mut k = xs[i].0.clone();
                        vary_text(s, &mut k, 128, false);
                        if xs.iter().all(|(q, _)| *q != k) {
                            xs[i].0 = k;
                        }
                    }
                    _ => {
                        let j = s.below(xs.len());
                        let t = xs[i].0.clone();
                        xs[i].0 = xs[j].0.clone();
                        xs[j].0 = t;
                    }
                }
            }
        }
        V::Ascii(t) => {
            if s.one_in(5) {
                *v = V::Utf8(t.clone());
            } else {
                vary_text(s, t, usize::MAX, true);
            }
        }
        V::Utf8(t) => vary_text(s, t, usize::MAX, false),
        V::Name(t) => vary_text(s, t, 128, false),
    }
}

fn vary_addr(s: &mut Src, a: &str) -> String {
    match address_decode(a) {
        Some((v, mut h)) => {
            if s.bool() {
                address(*s.pick(&VERSIONS), &h)
            } else {
                h[s.below(20)] ^= 1 << s.below(8);
                address(v, &h)
            }
        }
        None => addr(s),
    }
}

/// Corrupts serialized bytes in a typical way.
pub fn corrupt(s: &mut Src, b: &mut Vec<u8>) {
    match s.below(9) {
        0 => {
            let n = s.below(b.len() + 1);
            b.truncate(n);
        }
        1 if !b.is_empty() => {
            let i = s.below(b.len());
            b[i] ^= 1 << s.below(8);
        }
        2 if !b.is_empty() => {
            let i = s.below(b.len());
            b[i] = s.u8();
        }
        3 => {
            let i = s.below(b.len() + 1);
            let x = s.u8();
            b.insert(i, x);
        }
        4 if !b.is_empty() => {
            let i = s.below(b.len());
            b.remove(i);
        }
        5 if !b.is_empty() => {
            // type tags
            let i = s.below(b.len());
            b[i] = s.below(17) as u8;
        }
        6 if b.len() > 4 => {
            // hostile length field
            let i = s.below(b.len() - 3);
            let v = match s.below(5) {
                0 => u32::MAX,
                1 => 0x8000_0000,
                2 => s.num(32) as u32,
                3 => (b.len() - i) as u32,
                _ => (b.len() as u32).wrapping_add(s.below(9) as u32).wrapping_sub(8),
            };
            b[i..i + 4].copy_from_slice(&v.to_be_bytes());
        }
        7 if !b.is_empty() => {
            // duplicate a slice
            let i = s.below(b.len());
            let j = s.range(i, b.len() - 1);
            let t = b[i..=j].to_vec();
            let at = s.below(b.len() + 1);
            b.splice(at..at, t);
        }
        _ => {
            let n = s.below(5) + 1;
            let t = s.raw(n);
            b.extend(t);
        }
    }
}
