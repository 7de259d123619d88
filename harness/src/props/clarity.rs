//! C01..C06: Clarity values.

use stacks_rs::clarity as cl;
use stacks_rs::clarity::{decode_clarity_type, Cast, Clarity, Codec};

use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::src::*;

fn kind_ev(k: K) -> &'static str {
    match k {
        K::Int => "int",
        K::UInt => "uint",
        K::Buf => "buffer",
        K::True => "true",
        K::False => "false",
        K::Std => "principal",
        K::Con => "contract_principal",
        K::Ok => "ok",
        K::Err => "err",
        K::None => "none",
        K::Some => "some",
        K::List => "list",
        K::Tuple => "tuple",
        K::Ascii => "ascii",
        K::Utf8 => "utf8",
        K::Name => "name",
        K::Args => "fn_args",
    }
}

fn read_back(what: &str, b: &dyn Clarity, want: &V) -> Res {
    match from_lib(b) {
        Some(v) if v == *want => Ok(()),
        got => bad(format!("{what}: value is {} want {}", show(&got), show(want))),
    }
}

/// Serialization-side checks shared by C01: bytes, length, hex forms.
fn check_encode(b: &dyn Clarity, v: &V, want: &[u8]) -> Res {
    let enc = must("encode of a valid value", b.encode()).map_err(|e| Violation(format!("{} (value {})", e.0, show(v))))?;
    eqb(&format!("encode of {}", show(v)), &enc, want)?;
    eq("len", &must("len", b.len())?, &want.len())?;
    eq("is_empty", &must("is_empty", b.is_empty())?, &want.is_empty())?;
    let h = hex(want);
    ensure(must("hex", b.hex())? == h, || format!("hex form differs for {}", show(v)))?;
    ensure(must("hex_prefixed", b.hex_prefixed())? == format!("0x{h}"), || {
        format!("hex_prefixed form differs for {}", show(v))
    })
}

pub fn c01(s: &mut Src, o: &mut Obs) -> Res {
    let v = match s.below(8) {
        0..=4 => gen::any(s),
        5 => V::Name(gen::name(s, 128)),
        6 => V::Args(gen::args(s)),
        _ => {
            let k = *s.pick(&ALL_KINDS);
            gen::of_kind(s, k)
        }
    };
    let want = match v.encode() {
        Some(w) => w,
        None => panic!("harness: generated an invalid value {v:?}"),
    };
    o.case(&want);
    o.ev(kind_ev(v.kind()));
    let style = s.u8();
    let b = to_lib(&v, style);
    read_back("constructed value", b.as_ref(), &v)?;
    check_encode(b.as_ref(), &v, &want)?;
    // serializing is repeatable and leaves the value alone
    eqb("second encode", &must("second encode", b.encode())?, &want)?;
    read_back("value after encode", b.as_ref(), &v)?;

    let mut input = want.clone();
    let n = s.below(4) * s.below(30);
    let tail = if s.one_in(3) {
        match gen::any(s).encode() {
            Some(e) if e.len() < 4000 => e,
            _ => s.raw(n),
        }
    } else {
        s.raw(n)
    };
    let trailing = s.below(3);
    if trailing > 0 {
        input.extend_from_slice(&tail);
        o.ev("with_trailing_bytes");
    }
    let k = v.kind();
    let d = must(&format!("typed decode of {}", show(&v)), lib_decode_as(k, &input))?;
    read_back("typed decode", d.as_ref(), &v)?;
    check_encode(d.as_ref(), &v, &want)?;
    if k != K::Name && k != K::Args {
        let d = must(&format!("self-describing decode of {}", show(&v)), decode_clarity_type(&input))?;
        read_back("self-describing decode", d.as_ref(), &v)?;
        eqb("re-encode", &must("re-encode", d.encode())?, &want)?;
    }
    if v.depth() > 8 {
        o.ev("deep");
    }
    if want.len() > 65535 {
        o.ev("over_64k");
    } else if want.len() > 255 {
        o.ev("over_255");
    }
    o.sample(|| format!("{} -> {}", clip(&v.literal(), 200), clip(&hex(&want), 200)));
    Ok(())
}

// ---- C02 -------------------------------------------------------------------

fn hostile(s: &mut Src) -> Vec<u8> {
    if s.is_fuzz() && s.one_in(2) {
        return s.rest();
    }
    match s.below(8) {
        0 => {
            let n = s.len(120);
            let mut b = s.raw(n);
            for x in b.iter_mut() {
                if s.bool() {
                    *x = s.below(16) as u8;
                }
            }
            b
        }
        1 => {
            // a tag followed by a hostile count and little data
            let mut b = vec![s.below(16) as u8];
            b.extend_from_slice(&(s.num(32) as u32).to_be_bytes());
            let n = s.below(40);
            let t = s.raw(n);
            b.extend(t);
            b
        }
        2 => {
            // principal with any version, name with any length byte
            let con = s.bool();
            let mut b = vec![if con { 6 } else { 5 }];
            b.push(if s.bool() { *s.pick(&crate::oracle::VERSIONS) } else { s.u8() });
            b.extend_from_slice(&s.hash20());
            if con {
                let l = *s.pick(&[0usize, 1, 5, 127, 128, 129, 130, 200, 254, 255]);
                b.push(l as u8);
                let real = if s.bool() { l } else { s.below(260) };
                let t = gen::text(s, real);
                b.extend_from_slice(t.as_bytes());
            }
            b
        }
        3 => {
            // strings and tuple keys around the limits, sometimes not UTF-8
            let long = s.one_in(6);
            let l = if long { s.len(s.big) } else { s.len(300) };
            let mut t = if s.bool() { gen::ascii(s, l) } else { gen::text(s, l) }.into_bytes();
            if s.bool() && !t.is_empty() {
                let i = if s.one_in(3) { t.len() - 1 } else { s.below(t.len()) };
                if s.bool() || i + 1 == t.len() {
                    t[i] = s.u8() | 0x80;
                } else {
                    // one character of two bytes
                    t[i] = 0xc3;
                    t[i + 1] = 0xa9;
                }
            }
            let mut b = match s.below(4) {
                0 => vec![0x0d],
                1 => vec![0x0e],
                2 => {
                    let mut b = vec![0x0c, 0, 0, 0, s.range(1, 2) as u8];
                    b.push(t.len() as u8);
                    b.extend_from_slice(&t);
                    b.push(s.below(16) as u8);
                    let n = s.below(20);
                    let x = s.raw(n);
                    b.extend(x);
                    return b;
                }
                _ => vec![0x02],
            };
            b.extend_from_slice(&((t.len() + s.below(3)) as u32).to_be_bytes());
            b.extend_from_slice(&t);
            b
        }
        _ => {
            let mut v = gen::any(s);
            if s.one_in(6) {
                v = V::Args(gen::args(s));
            } else if s.one_in(8) {
                v = V::Name(gen::name(s, 128));
            }
            let mut b = v.encode().unwrap_or_default();
            for _ in 0..s.below(4) {
                gen::corrupt(s, &mut b);
            }
            b
        }
    }
}

fn check_decode(what: &str, got: Result<B, cl::Error>, want: Option<(V, usize)>, input: &[u8]) -> Res {
    match (got, want) {
        (Ok(b), Some((v, n))) => {
            read_back(what, b.as_ref(), &v)?;
            let e = must("re-encode of a decoded value", b.encode())?;
            eqb(&format!("{what}: re-encode of the decoded value"), &e, &input[..n])
        }
        (Err(_), None) => Ok(()),
        (Ok(b), None) => bad(format!(
            "{what}: accepted malformed input {} as {}",
            clip(&hex(input), 400),
            clip(&format!("{b:?}"), 200)
        )),
        (Err(e), Some((v, _))) => bad(format!(
            "{what}: rejected well-formed {} ({}) with {e:?}",
            clip(&hex(input), 400),
            show(&v)
        )),
    }
}

pub fn c02(s: &mut Src, o: &mut Obs) -> Res {
    let mut input = hostile(s);
    o.case(&input);
    crate::alloc::begin();
    // self-describing
    let want = parse_any(&input);
    o.ev(if want.is_some() { "accepted" } else { "rejected" });
    check_decode("decode_clarity_type", decode_clarity_type(&input), want, &input)?;
    // every typed decoder
    for k in ALL_KINDS {
        let want = parse_as(k, &input);
        if want.is_some() {
            o.ev(kind_ev(k));
        }
        check_decode(kind_ev(k), lib_decode_as(k, &input), want, &input)?;
        o.ev("decoder_calls");
    }
    // every truncation of a short well-formed input
    if input.len() <= 64 && s.one_in(8) {
        for n in 0..input.len() {
            let t = &input[..n];
            check_decode("decode_clarity_type (truncated)", decode_clarity_type(t), parse_any(t), t)?;
            if let Some(k) = STD_KINDS.iter().find(|k| input.first() == Some(&k.tag())) {
                check_decode("typed decode (truncated)", lib_decode_as(*k, t), parse_as(*k, t), t)?;
            }
            check_decode("name (truncated)", lib_decode_as(K::Name, t), parse_as(K::Name, t), t)?;
            check_decode("args (truncated)", lib_decode_as(K::Args, t), parse_as(K::Args, t), t)?;
            o.evn("decoder_calls", 4);
        }
        o.ev("truncation_sweeps");
    }
    // the same buffer, changed in place between two decodes
    if !input.is_empty() && s.one_in(4) {
        for _ in 0..s.range(1, 4) {
            let i = match s.below(3) {
                0 => input.len() - 1,
                1 => s.below(input.len().min(8)),
                _ => s.below(input.len()),
            };
            input[i] = match s.below(3) {
                0 => input[i].wrapping_add(1),
                1 => input[i] ^ 1,
                _ => b'a' + s.u8() % 26,
            };
            let want = parse_any(&input);
            let ok = want.is_some();
            check_decode("decode_clarity_type (changed in place)", decode_clarity_type(&input), want, &input)?;
            if let Some(k) = STD_KINDS.iter().find(|k| input.first() == Some(&k.tag())) {
                check_decode("typed decode (changed in place)", lib_decode_as(*k, &input), parse_as(*k, &input), &input)?;
            }
            o.evn("decoder_calls", 2);
            o.ev(if ok { "in_place_accepted" } else { "in_place_rejected" });
        }
    }
    let peak = crate::alloc::largest();
    if peak > 8_000_000 + 1024 * input.len() {
        return bad(format!(
            "decoding {} bytes requested a single allocation of {peak} bytes: {}",
            input.len(),
            clip(&hex(&input), 300)
        ));
    }
    o.sample(|| format!("{} -> {}", clip(&hex(&input), 200), show(&parse_any(&input))));
    Ok(())
}

// ---- C04 -------------------------------------------------------------------

/// `a == b` for two library values of the same Rust type.
pub fn lib_eq(k: K, a: &dyn Clarity, b: &dyn Clarity) -> Option<bool> {
    macro_rules! e {
        ($t:ty) => {
            Some(a.as_any().downcast_ref::<$t>()? == b.as_any().downcast_ref::<$t>()?)
        };
    }
    match k {
        K::Int => e!(cl::Int),
        K::UInt => e!(cl::UInt),
        K::Buf => e!(cl::Buffer),
        K::True => e!(cl::True),
        K::False => e!(cl::False),
        K::Std => e!(cl::PrincipalStandard),
        K::Con => e!(cl::PrincipalContract),
        K::Ok => e!(cl::ResponseOk),
        K::Err => e!(cl::ResponseErr),
        K::None => e!(cl::OptionalNone),
        K::Some => e!(cl::OptionalSome),
        K::List => e!(cl::List),
        K::Tuple => e!(cl::Tuple),
        K::Ascii => e!(cl::StringAscii),
        K::Utf8 => e!(cl::StringUtf8),
        K::Name => e!(cl::LengthPrefixedStr),
        K::Args => e!(cl::FnArguments),
    }
}

fn cast_as_kind<'a>(b: &'a B, k: K) -> Result<&'a dyn Clarity, cl::Error> {
    Ok(match k {
        K::Int => b.cast_as::<cl::Int>()?,
        K::UInt => b.cast_as::<cl::UInt>()?,
        K::Buf => b.cast_as::<cl::Buffer>()?,
        K::True => b.cast_as::<cl::True>()?,
        K::False => b.cast_as::<cl::False>()?,
        K::Std => b.cast_as::<cl::PrincipalStandard>()?,
        K::Con => b.cast_as::<cl::PrincipalContract>()?,
        K::Ok => b.cast_as::<cl::ResponseOk>()?,
        K::Err => b.cast_as::<cl::ResponseErr>()?,
        K::None => b.cast_as::<cl::OptionalNone>()?,
        K::Some => b.cast_as::<cl::OptionalSome>()?,
        K::List => b.cast_as::<cl::List>()?,
        K::Tuple => b.cast_as::<cl::Tuple>()?,
        K::Ascii => b.cast_as::<cl::StringAscii>()?,
        K::Utf8 => b.cast_as::<cl::StringUtf8>()?,
        K::Name => b.cast_as::<cl::LengthPrefixedStr>()?,
        K::Args => b.cast_as::<cl::FnArguments>()?,
    })
}

fn cast_kind<C: Cast>(b: C, k: K) -> Result<B, cl::Error> {
    Ok(match k {
        K::Int => Box::new(b.cast::<cl::Int>()?) as B,
        K::UInt => Box::new(b.cast::<cl::UInt>()?),
        K::Buf => Box::new(b.cast::<cl::Buffer>()?),
        K::True => Box::new(b.cast::<cl::True>()?),
        K::False => Box::new(b.cast::<cl::False>()?),
        K::Std => Box::new(b.cast::<cl::PrincipalStandard>()?),
        K::Con => Box::new(b.cast::<cl::PrincipalContract>()?),
        K::Ok => Box::new(b.cast::<cl::ResponseOk>()?),
        K::Err => Box::new(b.cast::<cl::ResponseErr>()?),
        K::None => Box::new(b.cast::<cl::OptionalNone>()?),
        K::Some => Box::new(b.cast::<cl::OptionalSome>()?),
        K::List => Box::new(b.cast::<cl::List>()?),
        K::Tuple => Box::new(b.cast::<cl::Tuple>()?),
        K::Ascii => Box::new(b.cast::<cl::StringAscii>()?),
        K::Utf8 => Box::new(b.cast::<cl::StringUtf8>()?),
        K::Name => Box::new(b.cast::<cl::LengthPrefixedStr>()?),
        K::Args => Box::new(b.cast::<cl::FnArguments>()?),
    })
}

fn inner_cast_as_kind<'a, C: Cast>(b: &'a C, k: K) -> Result<&'a dyn Clarity, cl::Error> {
    Ok(match k {
        K::Int => b.cast_as::<cl::Int>()? as &dyn Clarity,
        K::UInt => b.cast_as::<cl::UInt>()?,
        K::Buf => b.cast_as::<cl::Buffer>()?,
        K::True => b.cast_as::<cl::True>()?,
        K::False => b.cast_as::<cl::False>()?,
        K::Std => b.cast_as::<cl::PrincipalStandard>()?,
        K::Con => b.cast_as::<cl::PrincipalContract>()?,
        K::Ok => b.cast_as::<cl::ResponseOk>()?,
        K::Err => b.cast_as::<cl::ResponseErr>()?,
        K::None => b.cast_as::<cl::OptionalNone>()?,
        K::Some => b.cast_as::<cl::OptionalSome>()?,
        K::List => b.cast_as::<cl::List>()?,
        K::Tuple => b.cast_as::<cl::Tuple>()?,
        K::Ascii => b.cast_as::<cl::StringAscii>()?,
        K::Utf8 => b.cast_as::<cl::StringUtf8>()?,
        K::Name => b.cast_as::<cl::LengthPrefixedStr>()?,
        K::Args => b.cast_as::<cl::FnArguments>()?,
    })
}

/// A different value that prints the same or nearly the same.
fn lookalike(s: &mut Src, v: &V) -> Option<V> {
    fn merge(s: &mut Src, xs: &[V]) -> Option<Vec<V>> {
        let i = (0..xs.len().saturating_sub(1)).find(|i| {
            matches!(
                (&xs[*i], &xs[*i + 1]),
                (V::Ascii(_), V::Ascii(_)) | (V::Utf8(_), V::Utf8(_)) | (V::Name(_), V::Name(_))
            )
        });
        let mut ys = xs.to_vec();
        if let Some(i) = i {
            let m = match (&xs[i], &xs[i + 1]) {
                (V::Ascii(a), V::Ascii(b)) => V::Ascii(format!("{a}\" \"{b}")),
                (V::Utf8(a), V::Utf8(b)) => V::Utf8(format!("{a}\" u\"{b}")),
                (V::Name(a), V::Name(b)) => V::Name(format!("{a} {b}")),
                _ => return None,
            };
            ys.splice(i..=i + 1, [m]);
            return Some(ys);
        }
        if xs.is_empty() {
            return Some(vec![V::Name(String::new())]).filter(|_| s.bool());
        }
        None
    }
    Some(match v {
        V::List(xs) => V::List(merge(s, xs)?),
        V::Args(xs) => V::Args(merge(s, xs)?),
        V::Tuple(xs) if xs.len() >= 2 => {
            // (k1 v1) (k2 "b")  vs a key that contains the rest
            let (k1, v1) = &xs[0];
            let (k2, v2) = &xs[1];
            let k = format!("{k1} {}) ({k2}", v1.literal());
            if k.len() > 128 {
                return None;
            }
            let mut ys = vec![(k, v2.clone())];
            ys.extend_from_slice(&xs[2..]);
            V::Tuple(ys)
        }
        V::Ok(x) => V::Ok(Box::new(lookalike(s, x)?)),
        V::Err(x) => V::Err(Box::new(lookalike(s, x)?)),
        V::Some(x) => V::Some(Box::new(lookalike(s, x)?)),
        V::Con(a, n) => {
            // "A.b.c" can be read in two ways only if the address is invalid
            let _ = (a, n);
            return None;
        }
        _ => return None,
    })
}

pub fn c04(s: &mut Src, o: &mut Obs) -> Res {
    let style = s.u8();
    let a = match s.below(6) {
        0 => {
            // lists of strings with quotes: the lookalike candidates
            let n = s.range(2, 4);
            let u = s.bool();
            let xs = (0..n)
                .map(|_| {
                    let m = s.below(5);
                    let t = gen::ascii(s, m);
                    if u {
                        V::Utf8(t)
                    } else {
                        V::Ascii(t)
                    }
                })
                .collect();
            let v = V::List(xs);
            if s.bool() {
                V::Ok(Box::new(v))
            } else {
                v
            }
        }
        1 => V::Args(gen::args(s)),
        2 => V::Name(gen::name(s, 128)),
        _ => gen::any(s),
    };
    let mut a = a;
    let odd = s.one_in(6);
    if odd {
        // values the protocol cannot carry, or spelled unusually
        crate::props::limits::poison(s, &mut a);
        o.ev("odd_values");
    }
    let a = a;
    let mut b = a.clone();
    let how = if odd { 0 } else { s.below(6) };
    match how {
        0 => {}
        1 => {
            if let Some(x) = lookalike(s, &a) {
                b = x;
                o.ev("pair_lookalike");
            }
        }
        2 => b = gen::of_kind(s, a.kind()),
        3 => {
            gen::vary(s, &mut b);
            gen::vary(s, &mut b);
        }
        _ => gen::vary(s, &mut b),
    }
    let (ea, eb) = match (a.encode(), b.encode()) {
        (Some(x), Some(y)) => (Some(x), Some(y)),
        _ if odd => (None, None),
        _ => return Ok(()),
    };
    o.case(&(&ea, &eb, odd.then(|| a.literal())));
    let la = to_lib(&a, style);
    let lb = to_lib(&b, style.wrapping_add(s.u8() & 1));
    o.ev(kind_ev(a.kind()));
    if a.kind() == b.kind() {
        // self-describing kinds: identity is the serialization
        let want = if odd || matches!(a.kind(), K::Name | K::Args) { a == b } else { ea == eb };
        if want != (a == b) {
            panic!("harness: model identity and serialization disagree: {a:?} {b:?}");
        }
        let got = lib_eq(a.kind(), la.as_ref(), lb.as_ref());
        ensure(got == Some(want), || format!("== is {got:?}, must be {want}: {} vs {}", show(&a), show(&b)))?;
        let got = lib_eq(a.kind(), lb.as_ref(), la.as_ref());
        ensure(got == Some(want), || format!("== not symmetric: {} vs {}", show(&b), show(&a)))?;
        o.ev(if want { "equal_pairs" } else { "different_pairs" });
    }
    // clones
    let ca = la.clone();
    read_back("clone", ca.as_ref(), &a)?;
    ensure(lib_eq(a.kind(), la.as_ref(), ca.as_ref()) == Some(true), || {
        format!("a clone does not equal its original: {}", show(&a))
    })?;
    if let Some(ea) = &ea {
        eqb("encode of a clone", &must("encode of a clone", ca.encode())?, ea)?;
    }
    // concrete clone, and independence under mutation
    if let V::Tuple(xs) = &a {
        let mut t = lib_tuple(&a, style);
        let keep = t.clone();
        let nk = match s.below(3) {
            0 => "new-key".to_string(),
            _ => xs.first().map(|x| x.0.clone()).unwrap_or_default(),
        };
        match s.below(3) {
            0 => t.insert(nk, cl::Int::new(77)),
            1 => {
                t.remove(&nk);
            }
            _ => {
                if let Some(x) = t.get_mut(&nk) {
                    *x = Box::new(cl::UInt::new(78));
                }
            }
        }
        read_back("clone after the original changed", &keep, &a)?;
        let mut c = keep.clone();
        c.insert("other".into(), cl::True::new());
        c.remove("other2");
        read_back("original after its clone changed", &keep, &V::Tuple(xs.clone()))?;
        o.ev("clone_independence");
    }
    // casts to every type
    let lk = a.kind();
    for k in ALL_KINDS {
        let r = cast_as_kind(&la, k);
        match (k == lk, r) {
            (true, Ok(x)) => read_back("cast_as", x, &a)?,
            (false, Err(_)) => {}
            (true, Err(e)) => return bad(format!("cast_as to the real type {k:?} failed: {e:?}")),
            (false, Ok(_)) => return bad(format!("cast_as of {} to {k:?} succeeded", show(&a))),
        }
    }
    let wrong = *s.pick(&ALL_KINDS);
    for k in [lk, wrong] {
        match (k == lk, cast_kind(la.clone(), k)) {
            (true, Ok(x)) => read_back("cast", x.as_ref(), &a)?,
            (false, Err(_)) => {}
            (true, Err(e)) => return bad(format!("cast to the real type {k:?} failed: {e:?}")),
            (false, Ok(_)) => return bad(format!("cast of {} to {k:?} succeeded", show(&a))),
        }
    }
    o.evn("casts", 19);
    // casting through the wrappers reaches the wrapped value
    let inner = match &a {
        V::Ok(x) | V::Err(x) | V::Some(x) => Some((**x).clone()),
        _ => None,
    };
    if let Some(x) = inner {
        macro_rules! wrapped {
            ($t:ty) => {{
                let w = must("cast to wrapper", la.clone().cast::<$t>())?;
                for k in ALL_KINDS {
                    match (k == x.kind(), inner_cast_as_kind(&w, k)) {
                        (true, Ok(y)) => read_back("wrapper cast_as", y, &x)?,
                        (false, Err(_)) => {}
                        (true, Err(e)) => return bad(format!("wrapper cast_as failed: {e:?}")),
                        (false, Ok(_)) => return bad(format!("wrapper cast_as of {} to {k:?} succeeded", show(&x))),
                    }
                }
                for k in [x.kind(), wrong] {
                    match (k == x.kind(), cast_kind(w.clone(), k)) {
                        (true, Ok(y)) => read_back("wrapper cast", y.as_ref(), &x)?,
                        (false, Err(_)) => {}
                        (true, Err(e)) => return bad(format!("wrapper cast failed: {e:?}")),
                        (false, Ok(_)) => return bad(format!("wrapper cast of {} to {k:?} succeeded", show(&x))),
                    }
                }
                read_back("wrapper into_value", w.into_value().as_ref(), &x)?;
                o.ev("wrapper_casts");
            }};
        }
        match &a {
            V::Ok(_) => wrapped!(cl::ResponseOk),
            V::Err(_) => wrapped!(cl::ResponseErr),
            _ => wrapped!(cl::OptionalSome),
        }
    }
    conversions(&a, &la, o)?;
    o.sample(|| format!("{} == {} must be {}", clip(&a.literal(), 120), clip(&b.literal(), 120), a == b));
    Ok(())
}

/// Conversions to and from native types.
fn conversions(v: &V, l: &B, o: &mut Obs) -> Res {
    match v {
        V::Int(i) => {
            let x = cl::Int::from(*i);
            read_back("Int::from", &x, v)?;
            eq("i128::from(Int)", &i128::from(x), i)?;
            eq("Int::into_value", &x.into_value(), i)?;
        }
        V::UInt(i) => {
            let x = cl::UInt::from(*i);
            read_back("UInt::from", &x, v)?;
            eq("u128::from(UInt)", &u128::from(x), i)?;
            eq("UInt::into_value", &x.into_value(), i)?;
        }
        V::Buf(b) => {
            read_back("Buffer::from(&[u8])", &cl::Buffer::from(b.as_slice()), v)?;
            let x = cl::Buffer::from(b.clone());
            read_back("Buffer::from(Vec)", &x, v)?;
            eq("Buffer into_iter", &x.clone().into_iter().collect::<Vec<u8>>(), b)?;
            eq("Vec::from(Buffer)", &Vec::from(x.clone()), b)?;
            eq("Buffer::into_value", &x.into_value(), b)?;
        }
        V::Std(a) => {
            let x = cl::PrincipalStandard::from(a.as_str());
            read_back("PrincipalStandard::from(&str)", &x, v)?;
            read_back("PrincipalStandard::from(String)", &cl::PrincipalStandard::from(a.clone()), v)?;
            eq("String::from(PrincipalStandard)", &String::from(x.clone()), a)?;
            eq("into_value", &x.into_value(), a)?;
        }
        V::Con(a, n) => {
            let x = cl::PrincipalContract::from((a.as_str(), n.as_str()));
            read_back("PrincipalContract::from((&str,&str))", &x, v)?;
            read_back("PrincipalContract::from((String,String))", &cl::PrincipalContract::from((a.clone(), n.clone())), v)?;
            eq("into_value", &x.into_value(), &(a.clone(), n.clone()))?;
        }
        V::Name(n) => {
            read_back("LengthPrefixedStr::from(&str)", &cl::LengthPrefixedStr::from(n.as_str()), v)?;
            let x = cl::LengthPrefixedStr::from(n.clone());
            read_back("LengthPrefixedStr::from(String)", &x, v)?;
            eq("into_value", &x.into_value(), n)?;
        }
        V::List(xs) => {
            let x = must("cast", l.clone().cast::<cl::List>())?;
            let y: Option<Vec<V>> = x.clone().into_iter().map(|b| from_lib(b.as_ref())).collect();
            eq("List into_iter", &y, &Some(xs.clone()))?;
            let y: Option<Vec<V>> = x.into_value().iter().map(|b| from_lib(b.as_ref())).collect();
            eq("List into_value", &y, &Some(xs.clone()))?;
        }
        V::Args(xs) => {
            let x = must("cast", l.clone().cast::<cl::FnArguments>())?;
            let y: Option<Vec<V>> = x.clone().into_iter().map(|b| from_lib(b.as_ref())).collect();
            eq("FnArguments into_iter", &y, &Some(xs.clone()))?;
            let y: Option<Vec<V>> = x.into_value().iter().map(|b| from_lib(b.as_ref())).collect();
            eq("FnArguments into_value", &y, &Some(xs.clone()))?;
        }
        V::Tuple(xs) => {
            let x = must("cast", l.clone().cast::<cl::Tuple>())?;
            let y: Option<Vec<(String, V)>> =
                x.into_value().iter().map(|(k, b)| Some((k.clone(), from_lib(b.as_ref())?))).collect();
            eq("Tuple into_value", &y, &Some(xs.clone()))?;
        }
        V::Ascii(t) => {
            let x = must("cast", l.clone().cast::<cl::StringAscii>())?;
            eq("into_value", &x.into_value(), t)?;
        }
        V::Utf8(t) => {
            let x = must("cast", l.clone().cast::<cl::StringUtf8>())?;
            eq("into_value", &x.into_value(), t)?;
        }
        V::True => {
            eq("True value", &cl::True::default().into_value(), &true)?;
        }
        V::False => {
            eq("False value", &cl::False::default().into_value(), &false)?;
        }
        _ => return Ok(()),
    }
    o.ev("conversions");
    Ok(())
}

// ---- C05 -------------------------------------------------------------------

pub fn c05(s: &mut Src, o: &mut Obs) -> Res {
    let v = match s.below(10) {
        0 => V::Name(gen::text(s, 200)),
        1 => V::Args(gen::args(s)),
        2 => V::Std(gen::text(s, 60)),
        3 => V::Con(gen::text(s, 60), gen::text(s, 60)),
        4 => V::Ascii(gen::text(s, 60)),
        5 => {
            let k = *s.pick(&ALL_KINDS);
            gen::of_kind(s, k)
        }
        _ => gen::any(s),
    };
    let mut v = v;
    if s.one_in(8) {
        crate::props::limits::poison(s, &mut v);
    }
    let v = v;
    let want = v.literal();
    o.case(&want);
    o.ev(kind_ev(v.kind()));
    let b = to_lib(&v, s.u8());
    let got = b.to_string();
    ensure(got == want, || {
        let at = got.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        format!("text form differs at byte {at}: got {} want {}", clip(&got, 400), clip(&want, 400))
    })?;
    ensure(format!("{b}") == want, || "second rendering differs".into())?;
    read_back("value after printing", b.as_ref(), &v)?;
    if let Some(e) = v.encode() {
        eqb("serialization after printing", &must("encode", b.encode())?, &e)?;
        if !matches!(v.kind(), K::Name | K::Args) && parse_any(&e).is_some_and(|x| x.0 == v) {
            let d = must("decode", decode_clarity_type(&e))?;
            ensure(d.to_string() == want, || format!("decoded value prints {} want {}", clip(&d.to_string(), 300), clip(&want, 300)))?;
            o.ev("decoded_printed");
        }
    }
    if v.depth() > 8 {
        o.ev("deep");
    }
    if want.len() > 1000 {
        o.ev("over_1000_chars");
    }
    o.sample(|| clip(&want, 300));
    Ok(())
}

// ---- C06 -------------------------------------------------------------------

fn same_tuple(t: &cl::Tuple, m: &[(String, V)]) -> Res {
    let ks: Vec<String> = t.keys().cloned().collect();
    let want: Vec<String> = m.iter().map(|x| x.0.clone()).collect();
    eq("keys()", &ks, &want)?;
    let vs: Option<Vec<V>> = t.values().map(|b| from_lib(b.as_ref())).collect();
    let want: Vec<V> = m.iter().map(|x| x.1.clone()).collect();
    eq("values()", &vs, &Some(want))?;
    let es: Option<Vec<(String, V)>> =
        t.clone().into_iter().map(|(k, b)| Some((k, from_lib(b.as_ref())?))).collect();
    eq("into_iter()", &es, &Some(m.to_vec()))?;
    let mv = V::Tuple(m.to_vec());
    ensure(t.to_string() == mv.literal(), || format!("text form {} want {}", clip(&t.to_string(), 300), clip(&mv.literal(), 300)))?;
    match (t.encode(), mv.encode()) {
        (Ok(a), Some(b)) => eqb("tuple serialization", &a, &b),
        (Err(_), None) => Ok(()),
        (a, b) => bad(format!("tuple serialization {} want {}", show(&a), show(&b))),
    }
}

macro_rules! insert_as {
    ($t:expr, $k:expr, $v:expr) => {
        match $v {
            V::Int(i) => $t.insert($k, cl::Int::new(*i)),
            V::UInt(i) => $t.insert($k, cl::UInt::new(*i)),
            V::Buf(b) => $t.insert($k, cl::Buffer::new(b.clone())),
            V::True => $t.insert($k, cl::True::new()),
            V::False => $t.insert($k, cl::False::new()),
            V::Std(a) => $t.insert($k, cl::PrincipalStandard::new(a.clone())),
            V::Con(a, n) => $t.insert($k, cl::PrincipalContract::new((a.clone(), n.clone()))),
            V::Ok(x) => $t.insert($k, cl::ResponseOk::new(to_lib(x, 0))),
            V::Err(x) => $t.insert($k, cl::ResponseErr::new(to_lib(x, 0))),
            V::None => $t.insert($k, cl::OptionalNone::new()),
            V::Some(x) => $t.insert($k, cl::OptionalSome::new(to_lib(x, 0))),
            V::List(xs) => $t.insert($k, cl::List::new(xs.iter().map(|x| to_lib(x, 0)).collect())),
            V::Tuple(_) => $t.insert($k, lib_tuple($v, 0)),
            V::Ascii(x) => $t.insert($k, cl::StringAscii::new(x.clone())),
            V::Utf8(x) => $t.insert($k, cl::StringUtf8::new(x.clone())),
            V::Name(x) => $t.insert($k, cl::LengthPrefixedStr::new(x.clone())),
            V::Args(xs) => $t.insert($k, lib_args(xs, 0)),
        }
    };
}

pub fn c06(s: &mut Src, o: &mut Obs) -> Res {
    let large = s.big > 5000 && s.one_in(60);
    s.big = s.big.min(if s.one_in(50) { 70_000 } else { 3000 });
    let nk = match s.below(4) {
        _ if large => *s.pick(&[100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 400, 513, 1025]),
        0 => s.range(1, 3),
        1 => s.range(10, 40),
        _ => s.range(3, 9),
    };
    let mut pool = gen::keys(s, nk);
    if s.one_in(3) && !pool.contains(&String::new()) {
        pool.push(String::new());
    }
    if s.one_in(8) {
        // long keys that begin or end alike, some beyond what can be serialized
        let n = *s.pick(&[20, 63, 64, 127, 128, 129, 200, 255, 256, 300, 1000]);
        let a = gen::ascii(s, n);
        for k in [a.clone(), format!("{a}a"), format!("{a}b"), format!("b{a}"), format!("{a}{a}")] {
            if s.below(3) > 0 && !pool.contains(&k) {
                pool.push(k);
            }
        }
        o.ev("long_keys");
    }
    let mut m: Vec<(String, V)> = vec![];
    let mut t = if s.bool() {
        cl::Tuple::new(vec![])
    } else {
        let all = s.bool();
        for k in &pool {
            if large && (all || s.below(8) != 0) {
                let i = V::UInt(s.u128());
                m.push((k.clone(), i));
            } else if s.bool() {
                m.push((k.clone(), gen::value(s, 2)));
            }
        }
        if large {
            o.ev("large_tuples");
        }
        lib_tuple(&V::Tuple(m.clone()), s.u8())
    };
    if large && m.is_empty() && s.bool() {
        // grown entry by entry
        for k in &pool {
            let v = V::UInt(s.u128());
            insert_as!(t, k.clone(), &v);
            m.push((k.clone(), v));
        }
        o.ev("large_by_insert");
        if s.bool() {
            // and shrunk again
            let n = s.below(pool.len() + 1);
            for _ in 0..n {
                let i = s.below(m.len());
                let (k, v) = m.remove(i);
                eq("remove()", &t.remove(k.as_str()).map(|b| from_lib(b.as_ref())), &Some(Some(v)))?;
            }
            o.ev("large_shrunk");
        }
    }
    let steps = if large { s.range(1, 10) } else if s.one_in(20) { s.range(30, 120) } else { s.range(1, 20) };
    let mut log: Vec<String> = vec![];
    let r = (|| -> Res {
        for _ in 0..steps {
            let k = if s.one_in(12) { gen::name(s, 128) } else { s.pick(&pool).clone() };
            let pos = m.iter().position(|x| x.0 == k);
            match s.below(7) {
                0 | 1 | 2 => {
                    let v = gen::value(s, 2);
                    log.push(format!("insert {k:?} {}", clip(&v.literal(), 60)));
                    insert_as!(t, k.clone(), &v);
                    match pos {
                        Some(i) => {
                            m[i].1 = v;
                            o.ev("insert_existing");
                        }
                        None => {
                            m.push((k.clone(), v));
                            o.ev("insert_new");
                        }
                    }
                }
                3 => {
                    log.push(format!("remove {k:?}"));
                    let got = t.remove(k.as_str()).map(|b| from_lib(b.as_ref()));
                    let want = pos.map(|i| Some(m.remove(i).1));
                    o.ev(if want.is_some() { "remove_hit" } else { "remove_miss" });
                    eq("remove()", &got, &want)?;
                }
                4 => {
                    let v = gen::value(s, 2);
                    log.push(format!("get_mut {k:?} = {}", clip(&v.literal(), 60)));
                    match (t.get_mut(&k), pos) {
                        (Some(b), Some(i)) => {
                            eq("get_mut()", &from_lib(b.as_ref()), &Some(m[i].1.clone()))?;
                            *b = to_lib(&v, 0);
                            m[i].1 = v;
                            o.ev("update_in_place");
                        }
                        (None, None) => o.ev("update_miss"),
                        (a, b) => return bad(format!("get_mut({k:?}) found {} must be {}", a.is_some(), b.is_some())),
                    }
                }
                5 => {
                    log.push("encode/decode".into());
                    if let (Ok(e), true) = (t.encode(), V::Tuple(m.clone()).encode().is_some()) {
                        t = must("decode", cl::Tuple::decode(&e))?;
                        o.ev("roundtrip");
                    }
                }
                _ => {
                    log.push("clone".into());
                    t = t.clone();
                    o.ev("clone");
                }
            }
            // lookups of every key seen so far and of an absent one
            for q in pool.iter().chain(std::iter::once(&k)) {
                let want = m.iter().find(|x| x.0 == *q).map(|x| Some(x.1.clone()));
                let got = t.get(q).map(|b| from_lib(b.as_ref()));
                eq(&format!("get({q:?})"), &got, &want)?;
                o.ev("lookups");
            }
            same_tuple(&t, &m)?;
        }
        Ok(())
    })();
    o.case(&log);
    o.sample(|| format!("{} ops: {}", log.len(), log.join("; ")));
    r.map_err(|e| Violation(format!("{} after: {}", e.0, clip(&log.join("; "), 500))))
}
