//! C19: structs derived from tuples.

use stacks_rs::clarity::{Codec, Tuple};
use stacks_rs::derive::Error;

use crate::derived::*;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::src::*;

/// A value of the right type for a field.
fn good(s: &mut Src, f: F) -> V {
    match f {
        F::I => V::Int(s.i128()),
        F::U => V::UInt(s.u128()),
        F::B => {
            if s.bool() {
                V::True
            } else {
                V::False
            }
        }
        F::S => {
            let k = *s.pick(&STD_KINDS);
            gen::of_kind(s, k)
        }
        F::Buf => gen::of_kind(s, K::Buf),
        F::VecS => gen::of_kind(s, K::List),
        F::OptI | F::OptU | F::OptS => {
            if s.one_in(4) {
                return V::None;
            }
            V::Some(Box::new(good(
                s,
                match f {
                    F::OptI => F::I,
                    F::OptU => F::U,
                    _ => F::S,
                },
            )))
        }
        F::RespI => V::Ok(Box::new(V::Int(s.i128()))),
        F::RespU => V::Ok(Box::new(V::UInt(s.u128()))),
        F::T(spec) => V::Tuple(entries(s, &spec())),
    }
}

/// Something else, preferably something that looks right.
fn near(s: &mut Src, f: F) -> V {
    let wrap = |s: &mut Src, v: V| match s.below(5) {
        0 => V::Some(Box::new(v)),
        1 => V::Ok(Box::new(v)),
        2 => V::Err(Box::new(v)),
        3 => V::List(vec![v]),
        _ => V::Tuple(vec![(s.pick(&["value", "a", "int", ""]).to_string(), v)]),
    };
    match s.below(10) {
        // the right value, one wrapper too many
        0 | 1 => {
            let v = good(s, f);
            wrap(s, v)
        }
        // one wrapper too few, or the wrong wrapper, or the wrong contents
        2 | 3 => match good(s, f) {
            V::Some(x) | V::Ok(x) => {
                if s.bool() {
                    *x
                } else {
                    V::Err(x)
                }
            }
            V::None => V::False,
            V::List(mut x) => x.pop().unwrap_or(V::None),
            V::Buf(x) => V::Ascii(x.iter().map(|b| (b & 0x7f) as char).collect()),
            V::Tuple(x) => V::List(x.into_iter().map(|x| x.1).collect()),
            V::Int(x) => V::UInt(x.unsigned_abs()),
            V::UInt(x) => V::Int((x >> 1) as i128),
            V::True => V::UInt(1),
            V::False => V::Int(0),
            v => v,
        },
        4 | 5 => {
            let g = *s.pick(&[F::I, F::U, F::B, F::Buf, F::RespI, F::RespU]);
            let v = good(s, g);
            match f {
                F::OptI | F::OptU | F::OptS => V::Some(Box::new(v)),
                F::RespI | F::RespU => V::Ok(Box::new(v)),
                _ => v,
            }
        }
        6 => {
            let g = *s.pick(&[F::I, F::U, F::B, F::OptI, F::OptU, F::OptS, F::RespI, F::RespU, F::VecS, F::Buf, F::S]);
            good(s, g)
        }
        7 => V::None,
        _ => {
            let k = *s.pick(&ALL_KINDS);
            gen::of_kind(s, k)
        }
    }
}

pub fn entries(s: &mut Src, spec: &[Spec]) -> Vec<(String, V)> {
    let mut out: Vec<(String, V)> = vec![];
    for f in spec {
        if !out.iter().any(|e| e.0 == f.key) {
            // one key may feed fields of several types: satisfy the pickiest
            let pick = spec.iter().filter(|g| g.key == f.key).find(|g| g.f != F::S).unwrap_or(f);
            let v = good(s, pick.f);
            out.push((f.key.to_string(), v));
        }
    }
    out
}

/// Introduces faults anywhere in the tuple; whether it is one is the oracle's call.
fn disturb(s: &mut Src, spec: &[Spec], es: &mut Vec<(String, V)>) {
    let f = *s.pick(spec);
    let Some(i) = es.iter().position(|e| e.0 == f.key) else { return };
    if let (F::T(inner), V::Tuple(es2)) = (f.f, &mut es[i].1) {
        if s.one_in(2) {
            disturb(s, &inner(), es2);
            return;
        }
    }
    match s.below(6) {
        0 | 1 => {
            es.remove(i);
        }
        // the key, misspelt
        2 => es[i].0 = alike(s, f.key),
        // exchanged with another field's value
        3 if es.len() > 1 => {
            let j = s.below(es.len());
            let (a, b) = (es[i].1.clone(), es[j].1.clone());
            es[i].1 = b;
            es[j].1 = a;
        }
        _ => es[i].1 = near(s, f.f),
    }
}

fn alike(s: &mut Src, k: &str) -> String {
    let r = match s.below(7) {
        0 => k.to_uppercase(),
        1 => format!("{k} "),
        2 => format!(" {k}"),
        3 => k.chars().take(k.chars().count().saturating_sub(1)).collect(),
        4 => k.replace('-', "_"),
        5 => format!("{k}{k}"),
        _ => format!("{k}x"),
    };
    if r.len() > 128 {
        "l".into()
    } else {
        r
    }
}

/// What the conversion must give: the fields, or the keys at fault.
pub(super) fn expect(spec: &[Spec], es: &[(String, V)]) -> Result<Vec<Out>, Vec<String>> {
    let mut outs = vec![];
    let mut bad: Vec<String> = vec![];
    for f in spec {
        let v = es.iter().find(|e| e.0 == f.key).map(|e| &e.1);
        let got = match (f.f, v) {
            (_, None) => Err(vec![f.key.to_string()]),
            (F::I, Some(V::Int(x))) => Ok(Out::I(*x)),
            (F::U, Some(V::UInt(x))) => Ok(Out::U(*x)),
            (F::B, Some(V::True)) => Ok(Out::B(true)),
            (F::B, Some(V::False)) => Ok(Out::B(false)),
            (F::S, Some(x)) => Ok(Out::S(x.literal())),
            (F::Buf, Some(V::Buf(x))) => Ok(Out::Buf(x.clone())),
            (F::VecS, Some(V::List(x))) => Ok(Out::VecS(x.iter().map(V::literal).collect())),
            (F::OptI, Some(V::None)) => Ok(Out::OptI(None)),
            (F::OptU, Some(V::None)) => Ok(Out::OptU(None)),
            (F::OptS, Some(V::None)) => Ok(Out::OptS(None)),
            (F::OptS, Some(V::Some(x))) => Ok(Out::OptS(Some(x.literal()))),
            (F::OptI, Some(V::Some(x))) => match &**x {
                V::Int(x) => Ok(Out::OptI(Some(*x))),
                _ => Err(vec![f.key.to_string()]),
            },
            (F::OptU, Some(V::Some(x))) => match &**x {
                V::UInt(x) => Ok(Out::OptU(Some(*x))),
                _ => Err(vec![f.key.to_string()]),
            },
            (F::RespI, Some(V::Ok(x))) => match &**x {
                V::Int(x) => Ok(Out::I(*x)),
                _ => Err(vec![f.key.to_string()]),
            },
            (F::RespU, Some(V::Ok(x))) => match &**x {
                V::UInt(x) => Ok(Out::U(*x)),
                _ => Err(vec![f.key.to_string()]),
            },
            (F::T(inner), Some(V::Tuple(es2))) => expect(&inner(), es2).map(Out::T).map_err(|mut ks| {
                // naming the outer key as well is fine
                ks.push(f.key.to_string());
                ks
            }),
            _ => Err(vec![f.key.to_string()]),
        };
        match got {
            Ok(x) => outs.push(x),
            Err(ks) => bad.extend(ks),
        }
    }
    if bad.is_empty() {
        Ok(outs)
    } else {
        Err(bad)
    }
}

pub(super) fn judge(what: &str, got: Result<Vec<Out>, Error>, want: &Result<Vec<Out>, Vec<String>>, shown: &dyn Fn() -> String) -> Res {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            for (i, (a, b)) in g.iter().zip(w).enumerate() {
                ensure(a == b, || format!("{what}: field {i}: got {} want {}; {}", show(a), show(b), shown()))?;
            }
            ensure(g.len() == w.len(), || format!("{what}: {} fields, want {}", g.len(), w.len()))
        }
        (Ok(g), Err(ks)) => bad(format!("{what}: converted to {} although keys {} are at fault; {}", show(&g), show(ks), shown())),
        (Err(e), Ok(_)) => bad(format!("{what}: error {e} for a matching tuple; {}", shown())),
        (Err(e), Err(ks)) => {
            let text = e.to_string();
            #[allow(unreachable_patterns)]
            let named = match &e {
                Error::Cast(k, ..) | Error::Extract(k, ..) | Error::Match(k, ..) => ks.contains(k),
                _ => true,
            };
            ensure(named && ks.iter().any(|k| text.contains(k.as_str())), || {
                format!("{what}: error {text:?} names none of the keys at fault {}; {}", show(ks), shown())
            })
        }
    }
}

pub fn c19(s: &mut Src, o: &mut Obs) -> Res {
    let fam = family();
    let n = if s.bool() { BY_HAND } else { fam.len() };
    let (name, spec, conv) = fam[s.below(n)];
    let spec = spec();
    let mut es = entries(s, &spec);
    // faults
    let faults = *s.pick(&[0, 0, 1, 1, 1, 2, 3]);
    for _ in 0..faults {
        disturb(s, &spec, &mut es);
    }
    // additional entries, some with look-alike keys and the type of the original
    for _ in 0..*s.pick(&[0usize, 0, 1, 2, 6]) {
        let (k, v) = if s.bool() {
            let f = *s.pick(&spec);
            (alike(s, f.key), if s.bool() { good(s, f.f) } else { near(s, f.f) })
        } else {
            (gen::name(s, 20), gen::value(s, 2))
        };
        if !es.iter().any(|e| e.0 == k) && !spec.iter().any(|f| f.key == k) {
            es.push((k, v));
            o.ev("additional_entries");
        }
    }
    // keys of the tuple must be unique for the model to be unambiguous
    let mut seen: Vec<String> = vec![];
    es.retain(|e| {
        let new = !seen.contains(&e.0);
        seen.push(e.0.clone());
        new
    });
    match s.below(3) {
        0 => s.shuffle(&mut es),
        1 => es.reverse(),
        _ => {}
    }
    let want = expect(&spec, &es);
    let v = V::Tuple(es.clone());
    o.case(&(name, &v));
    o.ev(match (&want, faults) {
        (Ok(_), _) => "convertible",
        (Err(ks), _) if ks.iter().all(|k| !es.iter().any(|e| e.0 == *k)) => "missing_key",
        _ => "wrong_type",
    });
    let style = s.u8();
    let shown = || clip(&v.literal(), 600);
    judge(name, conv(lib_tuple(&v, style)), &want, &shown)?;
    o.evn("fields_checked", spec.len() as u64);
    // the same entries in another order, and as received from the network
    let mut es2 = es.clone();
    s.shuffle(&mut es2);
    let v2 = V::Tuple(es2);
    judge(&format!("{name} (reordered)"), conv(lib_tuple(&v2, style)), &want, &shown)?;
    if let Some(b) = v2.encode() {
        if parse_any(&b).is_some_and(|p| p.0 == v2) {
            // (decoding itself is another property's business)
            if let Ok(t) = Tuple::decode(&b) {
                if from_lib(&t) == Some(v2) {
                    judge(&format!("{name} (decoded)"), conv(t), &want, &shown)?;
                    o.ev("converted_after_decode");
                }
            }
        }
    }
    o.sample(|| format!("{name} from {}", shown()));
    Ok(())
}
