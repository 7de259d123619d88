//! C03: nothing outside the protocol limits is ever serialized.

use stacks_rs::clarity::Codec;
use stacks_rs::transaction as t;

use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::oracle::*;
use crate::src::*;
use crate::tx::*;

/// Text of exactly `n` bytes, ASCII or multi-byte.
fn exact(s: &mut Src, n: usize) -> String {
    let mut o = String::new();
    if s.bool() {
        while o.len() < n {
            let c = *s.pick(&['é', '語', '😀', 'a', '\u{80}', '-']);
            if o.len() + c.len_utf8() > n {
                o.push('x');
            } else {
                o.push(c);
            }
        }
    } else {
        while o.len() < n {
            o.push((b'a' + s.u8() % 26) as char);
        }
    }
    // Padding at either end counts towards the length like anything else.
    if n > 0 && s.one_in(3) {
        let pad = *s.pick(&[' ', '\0', '\t', '\n', '-', '0', '\r']);
        let any = s.range(1, n);
        let k = *s.pick(&[1, 2, 3, n, n / 2 + 1, any]);
        let k = k.min(n);
        let pads: String = std::iter::repeat(pad).take(k).collect();
        let rest: String = o.chars().filter(char::is_ascii).cycle().take(n - k).collect();
        let rest = match rest.len() == n - k {
            true => rest,
            false => "x".repeat(n - k),
        };
        o = match s.bool() {
            true => format!("{rest}{pads}"),
            false => format!("{pads}{rest}"),
        };
    }
    o
}

/// A name around the 128-byte limit.
fn edge_name(s: &mut Src) -> String {
    let n = match s.below(6) {
        0 => 128,
        1 => 129,
        2 => s.range(120, 136),
        3 => *s.pick(&[127, 130, 255, 256, 257, 300, 384, 512, 1000]),
        4 => s.range(129, 400),
        _ => s.below(129),
    };
    exact(s, n)
}

/// An address that is not genuine (mostly), possibly in odd spellings.
fn edge_addr(s: &mut Src) -> String {
    let a = gen::addr(s);
    match s.below(9) {
        0 => a,
        1 => a.to_lowercase(),
        2 => format!("S{}", &a[1..].to_lowercase()),
        3 => {
            let mut c: Vec<char> = a.chars().collect();
            let i = s.range(1, c.len() - 1);
            c[i] = *s.pick(&C32.chars().collect::<Vec<_>>());
            c.into_iter().collect()
        }
        4 => {
            let v = s.below(32) as u8;
            format!("S{}", c32check_encode(&s.hash20(), v).unwrap_or_default())
        }
        5 => {
            let n = *s.pick(&[0, 1, 16, 19, 21, 32]);
            let b = s.bytes(n);
            let v = *s.pick(&VERSIONS);
            format!("S{}", c32check_encode(&b, v).unwrap_or_default())
        }
        6 => {
            let mut b = a;
            b.truncate(s.below(42));
            b
        }
        7 => gen::text(s, 45),
        _ => {
            let mut b = a;
            b.push(*s.pick(&['0', ' ', '.', 'é']));
            b
        }
    }
}

fn edge_ascii(s: &mut Src) -> String {
    let n = s.len(60);
    let mut t: Vec<char> = gen::ascii(s, n).chars().collect();
    if s.bool() {
        let i = s.below(t.len() + 1);
        t.insert(i, *s.pick(&['\u{80}', '\u{7f}', '\u{ff}', 'é', 'Ω', '😀', '\u{100}', '\u{2028}']));
    }
    t.into_iter().collect()
}

/// Puts an edge case into one node of the value.
pub fn poison(s: &mut Src, v: &mut V) {
    let n = v.size();
    let mut i = s.below(n);
    let mut f = |x: &mut V| {
        let y = match x {
            V::Tuple(xs) if s.bool() => {
                let k = edge_name(s);
                if xs.is_empty() {
                    xs.push((k, V::True));
                } else {
                    let j = s.below(xs.len());
                    xs[j].0 = k;
                }
                return;
            }
            _ => match s.below(5) {
                0 => V::Ascii(edge_ascii(s)),
                1 => V::Std(edge_addr(s)),
                2 => V::Con(gen::addr(s), edge_name(s)),
                3 => V::Con(edge_addr(s), gen::name(s, 128)),
                _ => {
                    let v = if s.bool() { V::True } else { V::Ascii(edge_ascii(s)) };
                    V::Tuple(vec![(edge_name(s), v)])
                }
            },
        };
        // keep wrappers: replace leaves, wrap containers
        *x = match x {
            V::Ok(_) => V::Ok(Box::new(y)),
            V::Err(_) => V::Err(Box::new(y)),
            V::Some(_) => V::Some(Box::new(y)),
            V::List(xs) => {
                let mut xs = xs.clone();
                let j = s.below(xs.len() + 1);
                xs.insert(j, y);
                V::List(xs)
            }
            V::Args(xs) => {
                let mut xs = xs.clone();
                let j = s.below(xs.len() + 1);
                xs.insert(j, y);
                V::Args(xs)
            }
            _ => y,
        };
    };
    v.at(&mut i, &mut f);
}

fn judge(what: &str, c: &dyn CodecDyn, want: &Option<Vec<u8>>, o: &mut Obs) -> Res {
    match want {
        Some(w) => {
            let e = must(&format!("{what}: encode of something within the limits"), c.enc())?;
            eqb(what, &e, w)?;
            o.ev("within_limits_accepted");
        }
        None => {
            if let Ok(e) = c.enc() {
                return bad(format!("{what}: outside the limits but serialized to {}", clip(&hex(&e), 500)));
            }
            must_err(&format!("{what}: len()"), c.ln())?;
            must_err(&format!("{what}: hex()"), c.hx())?;
            must_err(&format!("{what}: hex_prefixed()"), c.hxp())?;
            must_err(&format!("{what}: is_empty()"), c.emp())?;
            o.ev("outside_limits_refused");
        }
    }
    Ok(())
}

/// Object-safe view of `Codec`.
trait CodecDyn {
    fn enc(&self) -> Result<Vec<u8>, stacks_rs::clarity::Error>;
    fn ln(&self) -> Result<usize, stacks_rs::clarity::Error>;
    fn hx(&self) -> Result<String, stacks_rs::clarity::Error>;
    fn hxp(&self) -> Result<String, stacks_rs::clarity::Error>;
    fn emp(&self) -> Result<bool, stacks_rs::clarity::Error>;
}

struct W<'a, T: Codec + ?Sized>(&'a T);

impl<T: Codec + ?Sized> CodecDyn for W<'_, T> {
    fn enc(&self) -> Result<Vec<u8>, stacks_rs::clarity::Error> {
        self.0.encode()
    }
    fn ln(&self) -> Result<usize, stacks_rs::clarity::Error> {
        self.0.len()
    }
    fn hx(&self) -> Result<String, stacks_rs::clarity::Error> {
        self.0.hex()
    }
    fn hxp(&self) -> Result<String, stacks_rs::clarity::Error> {
        self.0.hex_prefixed()
    }
    fn emp(&self) -> Result<bool, stacks_rs::clarity::Error> {
        self.0.is_empty()
    }
}

/// A container of many small entries, the edge case late among them.
fn wide_edge(s: &mut Src, o: &mut Obs) -> V {
    let n = match s.below(3) {
        0 => s.range(5, 40),
        1 => *s.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]),
        _ => s.range(5, 300),
    };
    let at = if s.bool() { n - 1 } else { s.below(n) };
    let leaf = |s: &mut Src, i: usize| match s.below(4) {
        0 => V::True,
        1 => V::UInt(i as u128),
        2 => V::Ascii("x".into()),
        _ => V::None,
    };
    let mut xs: Vec<V> = (0..n).map(|i| leaf(s, i)).collect();
    let mut key = None;
    match s.below(5) {
        0 => xs[at] = V::Ascii(edge_ascii(s)),
        1 => xs[at] = V::Std(edge_addr(s)),
        2 => xs[at] = V::Con(gen::addr(s), edge_name(s)),
        _ => key = Some(edge_name(s)),
    }
    o.ev("wide_edge");
    match (s.below(3), key) {
        (0, None) => V::List(xs),
        (1, None) => V::Args(xs),
        (_, key) => {
            // the key sorts first, last or anywhere
            let key = key.map(|k| match s.below(3) {
                0 if !k.is_empty() => format!("~{}", k.chars().skip(1).collect::<String>()),
                1 if !k.is_empty() => format!("!{}", k.chars().skip(1).collect::<String>()),
                _ => k,
            });
            V::Tuple(
                xs.into_iter()
                    .enumerate()
                    .map(|(i, x)| match &key {
                        Some(k) if i == at => (k.clone(), x),
                        _ => (format!("k{i:03}"), x),
                    })
                    .collect(),
            )
        }
    }
}

fn edge_value(s: &mut Src, o: &mut Obs) -> V {
    if s.one_in(5) {
        return wide_edge(s, o);
    }
    let mut v = match s.below(4) {
        0 => {
            let d = s.range(3, 20);
            gen::deep(s, d)
        }
        1 => V::Args(gen::args(s)),
        _ => {
            let d = s.range(1, 5);
            gen::value(s, d)
        }
    };
    if v.weight() > 20_000 {
        v = V::List(vec![V::True]);
    }
    for _ in 0..s.range(1, 2) {
        poison(s, &mut v);
    }
    if v.depth() > 3 {
        o.ev("nested_edge");
    }
    v
}

fn edge_asset(s: &mut Src) -> Asset {
    let mut a = gen_asset(s);
    match s.below(3) {
        0 => a.addr = edge_addr(s),
        1 => a.contract = edge_name(s),
        _ => a.name = edge_name(s),
    }
    a
}

fn edge_pc(s: &mut Src, o: &mut Obs) -> Pc {
    let mut p = gen_pc(s);
    let which = s.below(3);
    let nm = edge_name(s);
    let ad = edge_addr(s);
    let asset = edge_asset(s);
    let val = edge_value(s, o);
    match &mut p {
        Pc::Stx { who, .. } | Pc::Ft { who, .. } | Pc::Nft { who, .. } if which == 0 => {
            *who = match who {
                V::Std(_) => V::Std(ad),
                V::Con(a, _) if nm.len() % 2 == 0 => V::Con(a.clone(), nm),
                _ => V::Con(ad, "c".into()),
            }
        }
        Pc::Stx { who, .. } => *who = V::Con(gen::addr(s), nm),
        Pc::Ft { asset: x, .. } => *x = asset,
        Pc::Nft { asset: x, value, .. } => {
            if which == 1 {
                *x = asset;
            } else if !matches!(val, V::Args(_)) {
                *value = val;
            }
        }
    }
    p
}

fn edge_pay(s: &mut Src, o: &mut Obs) -> Pay {
    match gen_pay(s) {
        Pay::Transfer { to, amount, memo } => match s.below(4) {
            0 => Pay::Transfer { to: V::Std(edge_addr(s)), amount, memo },
            1 => Pay::Transfer { to: V::Con(gen::addr(s), edge_name(s)), amount, memo },
            _ => {
                let n = match s.below(4) {
                    0 => 34,
                    1 => 35,
                    2 => s.range(30, 70),
                    _ => *s.pick(&[33, 36, 64, 68, 128, 255, 256, 290, 300]),
                };
                Pay::Transfer { to, amount, memo: exact(s, n).into_bytes() }
            }
        },
        Pay::Call { ver, hash, contract, func, args } => match s.below(3) {
            0 => Pay::Call { ver, hash, contract: edge_name(s), func, args },
            1 => Pay::Call { ver, hash, contract, func: edge_name(s), args },
            _ => match edge_value(s, o) {
                V::Args(args) => Pay::Call { ver, hash, contract, func, args },
                v => {
                    let mut args = if V::Args(args.clone()).weight() > 20_000 { vec![] } else { args };
                    let i = s.below(args.len() + 1);
                    args.insert(i, v);
                    Pay::Call { ver, hash, contract, func, args }
                }
            },
        },
    }
}

pub fn c03(s: &mut Src, o: &mut Obs) -> Res {
    match s.below(8) {
        0..=2 => {
            let v = edge_value(s, o);
            let want = v.encode();
            o.case(&v);
            o.ev("values");
            judge(&format!("value {}", show(&v)), &W(to_lib(&v, s.u8()).as_ref()), &want, o)?;
            // enclosing containers and arguments fail or succeed with their parts
            if !matches!(v, V::Args(_)) {
                let outer = match s.below(5) {
                    0 => V::List(vec![V::True, v.clone()]),
                    1 => V::Tuple(vec![("a".into(), V::None), ("b".into(), v.clone())]),
                    2 => V::Args(vec![v.clone(), V::False]),
                    3 => V::Ok(Box::new(v.clone())),
                    _ => V::Some(Box::new(v.clone())),
                };
                judge("enclosing value", &W(to_lib(&outer, 0).as_ref()), &outer.encode(), o)?;
            }
            o.sample(|| format!("{} -> {}", clip(&v.literal(), 200), if want.is_some() { "bytes" } else { "error" }));
        }
        3 => {
            let v = V::Name(edge_name(s));
            o.case(&v);
            o.ev("names");
            judge("name", &W(to_lib(&v, s.u8()).as_ref()), &v.encode(), o)?;
        }
        4 => {
            let p = edge_pay(s, o);
            o.case(&p);
            o.ev("payloads");
            let want = p.encode();
            judge(&format!("payload {}", show(&p)), &W(lib_pay(&p).as_ref()), &want, o)?;
            o.sample(|| format!("{} -> {}", show(&p), if want.is_some() { "bytes" } else { "error" }));
        }
        5 => {
            let mut ps = gen_pcs(s);
            let e = edge_pc(s, o);
            let i = s.below(ps.len() + 1);
            ps.insert(i, e);
            o.case(&ps);
            o.ev("post_conditions");
            let how = s.bool();
            judge("post-condition", &W(lib_pc(&ps[i], how).as_ref()), &ps[i].encode(), o)?;
            judge("post-conditions", &W(&lib_pcs(&ps, how)), &encode_pcs(&ps), o)?;
            if let Pc::Ft { asset, .. } | Pc::Nft { asset, .. } = &ps[i] {
                let good = address_decode(&asset.addr).is_some() && asset.contract.len() <= 128 && asset.name.len() <= 128;
                let r = lib_asset(asset).encode();
                ensure(r.is_ok() == good, || format!("asset {}: encode {}", show(asset), show(&r)))?;
            }
        }
        _ => {
            let sp = s.one_in(3);
            let mut c = gen_case(s, sp);
            if s.bool() {
                c.tx.payload = edge_pay(s, o);
            } else {
                let e = edge_pc(s, o);
                let i = s.below(c.tx.pcs.len() + 1);
                c.tx.pcs.insert(i, e);
            }
            o.case(&c.tx);
            o.ev("transactions");
            let want = c.tx.encode();
            let l = lib_tx(&c, s.bool());
            judge("transaction", &W(&l), &want, o)?;
            let h = l.hash();
            ensure(h.is_ok() == want.is_some(), || format!("transaction hash(): {}", show(&h)))?;
            // signing something that cannot be serialized must fail too
            let signed = l.sign(c.origin.keys[0]);
            ensure(signed.is_ok() == want.is_some(), || format!("sign(): ok is {}", signed.is_ok()))?;
            if want.is_none() {
                o.ev("signing_refused");
            }
            // builders
            if let Pay::Call { contract, func, args, .. } = &c.tx.payload {
                let a = edge_addr(s);
                let r = t::STXContractCall::builder()
                    .address(a.clone())
                    .contract(contract.clone())
                    .fn_name(func.clone())
                    .fn_args(lib_args(args, 0))
                    .sender(c.origin.keys[0])
                    .network(t::StacksMainnet::new())
                    .build()
                    .transaction();
                match (r, address_decode(&a)) {
                    (Err(_), None) => o.ev("builder_refused"),
                    (Ok(t), Some((ver, hash))) => {
                        let p = Pay::Call { ver, hash, contract: contract.clone(), func: func.clone(), args: args.clone() };
                        judge("built call", &W(&t.payload), &p.encode(), o)?;
                    }
                    (Ok(_), None) => return bad(format!("contract call built for the address {a:?}")),
                    (Err(e), Some(_)) => return bad(format!("contract call refused for {a:?}: {e:?}")),
                }
            }
        }
    }
    Ok(())
}
