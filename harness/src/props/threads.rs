//! C20: the same calls from many threads, in many orders and after many other
//! calls, and in fresh processes, must give the same results.

use std::cell::RefCell;
use std::collections::VecDeque;
use std::panic::AssertUnwindSafe;
use std::sync::{Barrier, Mutex};

use stacks_rs::clarity as cl;
use stacks_rs::clarity::Codec as _;
use stacks_rs::crypto as cr;
use stacks_rs::transaction as t;
use stacks_rs::wallet::StacksWallet;
use secp256k1::SecretKey;

use crate::derived;
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::oracle;
use crate::src::*;
use crate::tx::*;

/// One call (or short call sequence) with all its arguments.
#[derive(Debug, Clone)]
pub enum Job {
    Value(V, u8),
    Equal(V, V),
    Decode(Vec<u8>),
    DecodeAs(K, Vec<u8>),
    Hashes(Vec<u8>),
    Hex(String),
    C32(Vec<u8>, u8),
    C32Decode(String),
    B58(Vec<u8>, u8),
    B58Decode(String),
    Script(u8, Vec<SecretKey>),
    Sign(Box<Case>, usize),
    Call(Vec<u8>),
    Conds(Vec<Pc>),
    Wallet(String, Vec<u32>),
    Derive(usize, V),
    /// A case of another property, with its oracle.
    Work(&'static str, u64),
}

/// Whose workloads are run on several threads.
const WORKS: [&str; 17] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19",
];

impl Job {
    fn kind(&self) -> &'static str {
        match self {
            Job::Value(..) => "job_value",
            Job::Equal(..) => "job_equal",
            Job::Decode(..) => "job_decode",
            Job::DecodeAs(..) => "job_decode_as",
            Job::Hashes(..) => "job_hashes",
            Job::Hex(..) => "job_hex",
            Job::C32(..) => "job_c32",
            Job::C32Decode(..) => "job_c32_decode",
            Job::B58(..) => "job_b58",
            Job::B58Decode(..) => "job_b58_decode",
            Job::Script(..) => "job_script_hash",
            Job::Sign(..) => "job_sign_verify",
            Job::Call(..) => "job_payload_decode",
            Job::Conds(..) => "job_conditions",
            Job::Wallet(..) => "job_wallet",
            Job::Derive(..) => "job_derive",
            Job::Work(..) => "job_case_of_another_property",
        }
    }
}

fn r<T, E>(x: Result<T, E>, f: impl FnOnce(T) -> String) -> String {
    match x {
        Ok(v) => f(v),
        Err(_) => "error".into(),
    }
}

fn describe(b: &dyn cl::Clarity) -> String {
    format!(
        "{}|{}|{}|{}",
        r(b.encode(), |x| hex(&x)),
        r(b.hex(), |x| x),
        r(b.len(), |x| x.to_string()),
        b
    )
}

/// Runs the real code and renders everything it returned.
fn run(j: &Job) -> String {
    match j {
        Job::Value(v, style) => {
            let b = to_lib(v, *style);
            let c = b.clone();
            format!("{}|{:?}|{:?}", describe(b.as_ref()), super::clarity::lib_eq(v.kind(), b.as_ref(), c.as_ref()), from_lib(b.as_ref()))
        }
        Job::Equal(a, b) => {
            let e = |x: &V, y: &V| super::clarity::lib_eq(x.kind(), to_lib(x, 0).as_ref(), to_lib(y, 1).as_ref());
            format!("{:?} {:?} {:?} {:?}", e(a, b), e(b, a), e(a, a), e(b, b))
        }
        Job::Decode(b) => r(cl::decode_clarity_type(b), |x| describe(x.as_ref())),
        Job::DecodeAs(k, b) => r(lib_decode_as(*k, b), |x| describe(x.as_ref())),
        Job::Hashes(b) => format!(
            "{}|{}|{}|{}|{}|{}|{}",
            cr::Sha256Hash::from_slice(b).hex(),
            cr::DSha256Hash::from_slice(b).hex(),
            cr::Sha512_256Hash::from_slice(b).hex(),
            cr::Hash160::from_slice(b).hex(),
            cr::c32::hash_p2pkh(b).hex(),
            cr::c32::hash_p2wpkh(b).hex(),
            cr::bytes_to_hex(b)
        ),
        Job::Hex(s) => r(cr::hex_to_bytes(s), |x| hex(&x)),
        Job::C32(b, v) => format!(
            "{}|{}|{}",
            r(cr::c32_encode(b), |x| x),
            r(cr::c32check_encode(b, *v), |x| x),
            r(cr::c32_address(b, *v), |x| x)
        ),
        Job::C32Decode(s) => format!(
            "{}|{}|{}",
            r(cr::c32_decode(s), |x| hex(&x)),
            r(cr::c32check_decode(s), |x| format!("{:?}", x)),
            r(cr::c32_address_decode(s), |x| format!("{:?}", x))
        ),
        Job::B58(b, v) => format!("{}|{}", cr::b58_encode(b), cr::base58check_encode(b, *v)),
        Job::B58Decode(s) => {
            format!("{}|{}", r(cr::b58_decode(s), |x| hex(&x)), r(cr::base58check_decode(s), |x| format!("{:?}", x)))
        }
        Job::Script(m, ks) => {
            let p: Vec<_> = ks.iter().map(pubkey).collect();
            format!("{}|{}", cr::c32::hash_p2sh(*m, &p).hex(), cr::c32::hash_p2wsh(*m, &p).hex())
        }
        Job::Sign(c, n) => {
            let l = lib_tx(c, n % 2 == 0);
            let mut out = vec![r(l.encode(), |x| hex(&x)), r(l.hash(), |x| x.hex())];
            match t::TransactionSigner::new(l) {
                Err(_) => out.push("error".into()),
                Ok(mut g) => {
                    let req = c.origin.required as usize;
                    // who signs, and in which order, is not up to the condition
                    let mut ks = c.origin.keys.clone();
                    let turn = n >> 1;
                    if c.origin.multi() {
                        let m = turn % ks.len();
                        ks.rotate_left(m);
                    } else if turn > 0 {
                        ks = vec![SecretKey::from_slice(&[turn as u8; 32]).unwrap_or_else(|e| panic!("harness: key: {e}"))];
                    }
                    for (i, k) in ks.iter().enumerate() {
                        out.push(if i < req {
                            r(g.sign_origin(*k), |()| "signed".into())
                        } else if c.origin.multi() {
                            r(g.append_origin(pubkey(k)), |()| "appended".into())
                        } else {
                            String::new()
                        });
                    }
                    if let Some(sp) = &c.sponsor {
                        for (i, k) in sp.keys.iter().enumerate() {
                            if i < sp.required as usize {
                                out.push(r(g.sign_sponsor(*k), |()| "signed".into()));
                            }
                        }
                    }
                    let x = g.transaction();
                    out.push(r(x.encode(), |x| hex(&x)));
                    out.push(r(x.hash(), |x| x.hex()));
                    let h = cr::SignatureHash::from(c.tx.initial_hash().unwrap_or_default());
                    out.push(r(x.auth.verify(h), |()| "verified".into()));
                    out.push(r(x.len(), |x| x.to_string()));
                }
            }
            out.join("|")
        }
        Job::Call(b) => format!(
            "{}|{}",
            r(t::ContractCallPayload::decode(b), |x| r(x.encode(), |x| hex(&x))),
            r(t::TokenTransferPayload::decode(b), |x| r(x.encode(), |x| hex(&x)))
        ),
        Job::Conds(p) => r(lib_pcs(p, true).encode(), |x| hex(&x)),
        Job::Wallet(p, ix) => match StacksWallet::from_secret_key(p.clone()) {
            Err(_) => "error".into(),
            Ok(mut w) => {
                let mut out = vec![r(w.private_key(), |k| hex(&k.secret_bytes()))];
                for i in ix {
                    match w.get_account(*i) {
                        Err(_) => out.push("error".into()),
                        Ok(a) => {
                            out.push(r(a.private_key(), |k| hex(&k.secret_bytes())));
                            out.push(r(a.public_key(), |k| hex(&k.serialize())));
                            out.push(r(a.get_address(cr::c32::Version::MainnetP2PKH), |x| x));
                            out.push(r(a.get_address(cr::c32::Version::TestnetP2SH), |x| x));
                        }
                    }
                }
                out.join("|")
            }
        },
        Job::Derive(i, v) => {
            let fam = derived::family();
            let (_, _, conv) = fam[i % fam.len()];
            match conv(lib_tuple(v, 0)) {
                Ok(o) => format!("{o:?}"),
                Err(e) => e.to_string(),
            }
        }
        Job::Work(p, seed) => {
            let f = super::find(p).unwrap_or_else(|| panic!("harness: {p}"));
            // whether the other property holds is for its own check to say
            match f(&mut Src::calm(*seed), &mut Obs::default()) {
                Ok(()) => "held".into(),
                Err(_) => "violated".into(),
            }
        }
    }
}

fn guarded(j: &Job) -> String {
    match std::panic::catch_unwind(AssertUnwindSafe(|| run(j))) {
        Ok(x) => x,
        Err(_) => "panic".into(),
    }
}

fn small_bytes(s: &mut Src) -> Vec<u8> {
    let n = *s.pick(&[0, 1, 2, 19, 20, 21, 32, 33, 55, 64, 65, 100]);
    s.bytes(n)
}

fn bytes_like(s: &mut Src, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let n = b.len();
    match s.below(5) {
        0 if n > 0 => b[n - 1] ^= 1 << s.below(8),
        1 if n > 0 => b[0] ^= 1 << s.below(8),
        2 if n > 0 => b[n / 2] ^= 0x80,
        3 if n > 0 => {
            b.pop();
        }
        _ => b.push(s.u8()),
    }
    b
}

fn text_like(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let n = c.len();
    match s.below(5) {
        0 if n > 1 => c.swap(n - 1, n - 2),
        1 if n > 0 => c[n - 1] = if c[n - 1] == '1' { '2' } else { '1' },
        2 if n > 0 => c[0] = if c[0] == '1' { '2' } else { '1' },
        3 if n > 0 => {
            c.pop();
        }
        _ => c.insert(0, '1'),
    }
    c.into_iter().collect()
}

fn an_address(s: &mut Src) -> String {
    gen::addr(s)
}

/// A few phrases of 12 and 24 words, many of which begin or end alike.
fn phrase(s: &mut Src) -> String {
    let n = if s.one_in(3) { 32 } else { 16 };
    let mut e = vec![*s.pick(&[0u8, 0x7f, 0xff]); n];
    match s.below(4) {
        0 => e[n - 1] ^= 1 << s.below(8),
        1 => e[0] ^= 1 << s.below(8),
        2 => e[n / 2] ^= 1,
        _ => {}
    }
    bip39::Mnemonic::from_entropy(&e).map(|m| m.to_string()).unwrap_or_default()
}

/// A call of moderate size: every thread makes each of them.
fn base(s: &mut Src) -> Job {
    let j = any(s);
    let n = match &j {
        Job::Value(v, _) | Job::Equal(v, _) | Job::Derive(_, v) => v.weight(),
        Job::Decode(b) | Job::DecodeAs(_, b) | Job::Call(b) => b.len(),
        Job::Conds(p) => encode_pcs(p).map_or(0, |b| b.len()),
        _ => 0,
    };
    if n > 20_000 {
        Job::Hashes(small_bytes(s))
    } else {
        j
    }
}

fn any(s: &mut Src) -> Job {
    match s.below(40) {
        32..=39 => {
            let p = WORKS[s.below(WORKS.len())];
            Job::Work(if p == "C16" && s.bool() { "C12" } else { p }, s.raw64())
        }
        0..=4 => Job::Value(gen::value(s, 3), s.u8()),
        5 => {
            let a = gen::value(s, 3);
            let mut b = a.clone();
            if s.bool() {
                gen::vary(s, &mut b);
            }
            Job::Equal(a, b)
        }
        6..=8 => Job::Decode(gen::value(s, 3).encode().unwrap_or_default()),
        9 => {
            let k = *s.pick(&ALL_KINDS);
            Job::DecodeAs(k, gen::of_kind(s, k).encode().unwrap_or_default())
        }
        10 | 11 => Job::Hashes(small_bytes(s)),
        12 => Job::Hex(hex(&small_bytes(s))),
        13 | 14 => Job::C32(small_bytes(s), s.below(34) as u8),
        15 | 16 => Job::C32Decode(if s.bool() { an_address(s) } else { oracle::c32_encode(&small_bytes(s)) }),
        17 => Job::B58(small_bytes(s), s.u8()),
        18 => {
            let b = small_bytes(s);
            let v = s.u8();
            Job::B58Decode(oracle::b58check_encode(&b, v))
        }
        19 => {
            let n = s.range(1, 4);
            Job::Script(s.range(1, n) as u8, (0..n).map(|_| gen_key(s)).collect())
        }
        20..=24 => {
            let sp = s.one_in(3);
            Job::Sign(Box::new(gen_case(s, sp)), s.below(2))
        }
        25 | 26 => Job::Call(gen_pay(s).encode().unwrap_or_default()),
        27 | 28 => {
            let n = s.range(1, 3);
            Job::Conds((0..n).map(|_| gen_pc(s)).collect())
        }
        29 => {
            // deriving from a phrase is slow
            if s.one_in(3) {
                let i = if s.one_in(3) { s.num(31) as u32 } else { s.below(4) as u32 };
                Job::Wallet(phrase(s), vec![i, i.wrapping_add(1) & 0x7fff_ffff, i])
            } else {
                Job::Wallet("not a phrase".into(), vec![0])
            }
        }
        _ => {
            let fam = derived::family();
            let i = s.below(fam.len());
            Job::Derive(i, V::Tuple(super::derive::entries(s, &fam[i].1())))
        }
    }
}

/// The same call with a slightly different argument.
fn variant(s: &mut Src, j: &Job) -> Job {
    match j {
        Job::Value(v, st) => {
            let mut v = v.clone();
            gen::vary(s, &mut v);
            Job::Value(v, *st)
        }
        Job::Equal(a, b) => {
            let mut b = b.clone();
            gen::vary(s, &mut b);
            Job::Equal(a.clone(), b)
        }
        Job::Decode(b) => {
            let mut b = b.clone();
            if let (true, Some((mut v, _))) = (s.bool(), parse_any(&b)) {
                gen::vary(s, &mut v);
                b = v.encode().unwrap_or(b);
            } else {
                gen::corrupt(s, &mut b);
            }
            Job::Decode(b)
        }
        Job::DecodeAs(k, b) => Job::DecodeAs(*k, bytes_like(s, b)),
        Job::Hashes(b) => Job::Hashes(bytes_like(s, b)),
        Job::Hex(x) => Job::Hex(text_like(s, x)),
        Job::C32(b, v) => {
            if s.bool() {
                Job::C32(bytes_like(s, b), *v)
            } else {
                Job::C32(b.clone(), v ^ 1)
            }
        }
        Job::C32Decode(x) => Job::C32Decode(text_like(s, x)),
        Job::B58(b, v) => {
            if s.bool() {
                Job::B58(bytes_like(s, b), *v)
            } else {
                Job::B58(b.clone(), v ^ 1)
            }
        }
        Job::B58Decode(x) => Job::B58Decode(text_like(s, x)),
        Job::Script(m, ks) => {
            let mut ks = ks.clone();
            if s.bool() {
                ks.reverse();
            } else {
                let i = s.below(ks.len());
                ks[i] = gen_key(s);
            }
            Job::Script(*m, ks)
        }
        Job::Sign(c, n) => {
            let mut c = (**c).clone();
            if s.one_in(4) {
                return Job::Sign(Box::new(c), n % 2 + 2 * s.range(1, 3));
            }
            match s.below(5) {
                0 => c.origin.fee ^= 1,
                1 => c.origin.nonce = c.origin.nonce.wrapping_add(1),
                2 => {
                    let i = s.below(c.origin.keys.len());
                    c.origin.keys[i] = gen_key(s);
                }
                3 => c.tx.anchor = c.tx.anchor % 3 + 1,
                _ => c.tx.payload = gen_pay(s),
            }
            c.tx.origin = c.origin.cond();
            Job::Sign(Box::new(c), *n)
        }
        Job::Call(b) => Job::Call(bytes_like(s, b)),
        Job::Conds(p) => {
            let mut p = p.clone();
            p.reverse();
            if s.bool() {
                p.push(gen_pc(s));
            }
            Job::Conds(p)
        }
        Job::Wallet(p, ix) => {
            let mut ix = ix.clone();
            ix.reverse();
            ix.push(s.below(4) as u32);
            if p.starts_with("not") {
                Job::Wallet(text_like(s, p), ix)
            } else if s.bool() {
                Job::Wallet(phrase(s), ix)
            } else {
                Job::Wallet(p.clone(), ix)
            }
        }
        Job::Derive(i, V::Tuple(es)) => {
            let mut es = es.clone();
            es.reverse();
            if s.bool() {
                es.pop();
            }
            Job::Derive(*i, V::Tuple(es))
        }
        Job::Derive(..) => j.clone(),
        Job::Work(p, _) => Job::Work(p, s.raw64()),
    }
}

fn jobs(s: &mut Src) -> Vec<Job> {
    let mut js = vec![];
    for _ in 0..s.range(1, 3) {
        let b = base(s);
        for _ in 0..s.range(1, 3) {
            let v = variant(s, &b);
            js.push(v);
        }
        js.push(b);
    }
    s.shuffle(&mut js);
    js
}

/// Child side of the fresh-process comparison.
pub fn child(case: u64, only: Option<usize>) {
    let js = jobs(&mut Src::seeded(case));
    match only {
        Some(i) => println!("{i} {}", hex(&oracle::sha256(guarded(&js[i]).as_bytes()))),
        None => {
            for (i, j) in js.iter().enumerate().rev() {
                println!("{i} {}", hex(&oracle::sha256(guarded(j).as_bytes())));
            }
        }
    }
}

thread_local! {
    /// Calls of earlier cases and what they returned then.
    static PAST: RefCell<VecDeque<(Job, String)>> = const { RefCell::new(VecDeque::new()) };
}

static REPORT: Mutex<Option<String>> = Mutex::new(None);

fn report(m: String) {
    if let Ok(mut g) = REPORT.lock() {
        g.get_or_insert(m);
    }
}

/// A call to be repeated, on what was prepared once.
#[derive(Debug, Clone)]
enum Again {
    Whole(Job),
    Tuple(Vec<(String, u128)>),
    Accounts(String, Vec<u32>),
    Value(V),
    Cast(V),
    Tx(Box<Case>),
    Sign(Box<Case>),
    Verify(Box<Case>),
}

fn prepare(a: &Again) -> Box<dyn FnMut() -> String + '_> {
    match a {
        Again::Whole(j) => Box::new(move || run(j)),
        Again::Tuple(es) => Box::new(move || {
            let mut x = cl::Tuple::new(vec![]);
            for (k, v) in es {
                x.insert(k.clone(), cl::UInt::new(*v));
            }
            let mut out = x.to_string();
            if let Some((k, _)) = es.first() {
                if let Some(v) = x.get_mut(k) {
                    *v = Box::new(cl::UInt::new(7));
                }
                out += &format!("{:?}", x.get(k).map(|v| v.to_string()));
                out += &format!("{:?}", x.remove(k).map(|v| v.to_string()));
            }
            out += &x.keys().cloned().collect::<Vec<_>>().join(" ");
            out
        }),
        Again::Accounts(p, ix) => {
            let Ok(w) = StacksWallet::from_secret_key(p.as_str()) else { return Box::new(|| "error".into()) };
            let mut full = w.clone();
            let accs: Vec<_> = ix.iter().map(|i| (*i, full.get_account(*i).ok())).collect();
            Box::new(move || {
                let mut w = w.clone();
                let mut out = String::new();
                for (i, a) in &accs {
                    if let Some(a) = a {
                        w.set_account(i.wrapping_add(1), a.clone());
                        for k in [*i, i.wrapping_add(1)] {
                            out += &r(full.get_account(k), |a| r(a.private_key(), |k| hex(&k.secret_bytes())));
                        }
                        out += &r(w.get_account(i.wrapping_add(1)), |a| r(a.private_key(), |k| hex(&k.secret_bytes())));
                    }
                }
                out
            })
        }
        Again::Value(v) => {
            let b = to_lib(v, 0);
            Box::new(move || {
                let c = b.clone();
                format!("{}|{:?}", describe(b.as_ref()), super::clarity::lib_eq(v.kind(), b.as_ref(), c.as_ref()))
            })
        }
        Again::Cast(v) => {
            let b = to_lib(v, 0);
            Box::new(move || show(&from_lib(b.as_ref())))
        }
        Again::Tx(c) => {
            let mut x = lib_tx(c, true);
            Box::new(move || {
                x.set_fee(5);
                x.set_nonce(c.origin.nonce);
                format!("{}|{}", r(x.encode(), |b| hex(&b)), r(x.hash(), |h| h.hex()))
            })
        }
        Again::Sign(c) => {
            let x = lib_tx(c, true);
            Box::new(move || match t::TransactionSigner::new(x.clone()) {
                Err(_) => "error".into(),
                Ok(mut g) => {
                    let a = r(g.sign_origin(c.origin.keys[0]), |()| "signed".into());
                    format!("{a}|{}", r(g.transaction().encode(), |b| hex(&b)))
                }
            })
        }
        Again::Verify(c) => {
            let h = cr::SignatureHash::from(c.tx.initial_hash().unwrap_or_default());
            let Ok(mut g) = t::TransactionSigner::new(lib_tx(c, true)) else { return Box::new(|| "error".into()) };
            for (i, k) in c.origin.keys.iter().enumerate() {
                let _ = if i < c.origin.required as usize { g.sign_origin(*k) } else { g.append_origin(pubkey(k)) };
            }
            let x = g.transaction();
            Box::new(move || r(x.auth.verify_origin(h), |h| h.hex()))
        }
    }
}

fn again(s: &mut Src) -> Vec<Again> {
    let kind = s.below(12);
    let small = |s: &mut Src| {
        let v = gen::value(s, 2);
        if v.weight() > 3000 {
            V::UInt(s.u128())
        } else {
            v
        }
    };
    let case = |s: &mut Src| {
        let c = gen_case(s, false);
        if c.tx.encode().map_or(0, |b| b.len()) > 5000 {
            None
        } else {
            Some(Box::new(c))
        }
    };
    let p = if kind == 1 { phrase(s) } else { String::new() };
    let b = base(s);
    let n = s.range(1, 4);
    (0..n)
        .filter_map(|_| {
            Some(match kind {
                0 => {
                    let mut es: Vec<(String, u128)> = vec![];
                    for i in 0..s.range(1, 4) {
                        es.push((format!("{}{i}", gen::ascii(s, 3)), s.u128()));
                    }
                    Again::Tuple(es)
                }
                1 => Again::Accounts(p.clone(), (0..s.range(1, 2)).map(|_| s.below(50) as u32).collect()),
                2 => Again::Value(small(s)),
                3 => Again::Cast(small(s)),
                4 => Again::Tx(case(s)?),
                5 => Again::Sign(case(s)?),
                6 => Again::Verify(case(s)?),
                _ if matches!(b, Job::Wallet(..)) => return None,
                _ => Again::Whole(if s.bool() { variant(s, &b) } else { b.clone() }),
            })
        })
        .collect()
}

/// The same few calls by many threads, again and again.
fn hammer(s: &mut Src, o: &mut Obs) -> Res {
    let todo = again(s);
    if todo.is_empty() {
        return Ok(());
    }
    o.case(&format!("{todo:?}"));
    let want: Vec<String> = todo.iter().map(|a| prepare(a)()).collect();
    let n_threads = *s.pick(&[2usize, 4, 8, 8, 12]);
    let gate = Barrier::new(n_threads);
    let calls = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n_threads)
            .map(|tn| {
                let (todo, want, gate, calls) = (&todo, &want, &gate, &calls);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let i = tn % todo.len();
                        let mut f = prepare(&todo[i]);
                        gate.wait();
                        let end = std::time::Instant::now() + std::time::Duration::from_millis(25);
                        let mut k = 0;
                        while k < 4 || (k < 3000 && std::time::Instant::now() < end) {
                            let got = f();
                            k += 1;
                            if got != want[i] {
                                report(format!(
                                    "thread {tn} of {n_threads}, call {k}: {} gave {} but {} alone",
                                    clip(&format!("{:?}", todo[i]), 400),
                                    clip(&got, 400),
                                    clip(&want[i], 400)
                                ));
                                break;
                            }
                        }
                        calls.fetch_add(k, std::sync::atomic::Ordering::Relaxed);
                    })
                    .unwrap_or_else(|e| panic!("harness: thread: {e}"))
            })
            .collect();
        for h in hs {
            if let Err(e) = h.join() {
                std::panic::resume_unwind(e);
            }
        }
    });
    o.ev("hammered_cases");
    o.evn("hammered_calls", calls.into_inner());
    if let Some(m) = REPORT.lock().ok().and_then(|mut g| g.take()) {
        return bad(m);
    }
    Ok(())
}

pub fn c20(s: &mut Src, o: &mut Obs) -> Res {
    if s.one_in(6) {
        return hammer(s, o);
    }
    let case = s.raw64();
    let js = jobs(&mut Src::seeded(case));
    let n_threads = if s.one_in(60) { s.range(9, 40) } else { *s.pick(&[2usize, 2, 3, 4, 8]) };
    let plans: Vec<u64> = (0..n_threads).map(|_| s.raw64()).collect();
    for j in &js {
        o.ev(j.kind());
    }
    o.case(&case);

    // alone, one after the other
    let first = s.bool();
    let mut alone: Vec<Option<String>> = vec![None; js.len()];
    if first {
        for (i, j) in js.iter().enumerate() {
            alone[i] = Some(guarded(j));
        }
    }
    // values shared by reference between the threads
    let shared: Vec<(B, String)> = js
        .iter()
        .filter_map(|j| match j {
            Job::Value(v, st) => {
                let b = to_lib(v, *st);
                Some((b, String::new()))
            }
            _ => None,
        })
        .collect();

    // together: every thread runs every call in its own order
    let gate = Barrier::new(n_threads);
    let results: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|plan| {
                let (js, gate, shared) = (&js, &gate, &shared);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut p = Src::seeded(*plan);
                        let mut order: Vec<usize> = (0..js.len()).collect();
                        p.shuffle(&mut order);
                        // some calls twice in a row
                        if let Some(x) = order.first().copied() {
                            order.push(x);
                        }
                        gate.wait();
                        let mut out = vec![];
                        for i in order {
                            out.push((i, guarded(&js[i])));
                            if p.one_in(4) {
                                std::thread::yield_now();
                            }
                            if let Some((b, _)) = shared.get(i % shared.len().max(1)) {
                                let d = describe(b.as_ref());
                                let c = b.clone();
                                if describe(c.as_ref()) != d || describe(b.as_ref()) != d {
                                    report(format!("a shared value gives different encodings: {}", clip(&d, 300)));
                                }
                            }
                        }
                        out
                    })
                    .unwrap_or_else(|e| panic!("harness: thread: {e}"))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    for (tn, rs) in results.iter().enumerate() {
        for (i, got) in rs {
            o.ev("concurrent_results");
            match &alone[*i] {
                None => alone[*i] = Some(got.clone()),
                Some(want) => ensure(got == want, || {
                    format!(
                        "thread {tn} of {n_threads}: call {} gave {} but {} elsewhere",
                        clip(&format!("{:?}", js[*i]), 400),
                        clip(got, 400),
                        clip(want, 400)
                    )
                })?,
            }
        }
    }
    if let Some(m) = REPORT.lock().ok().and_then(|mut g| g.take()) {
        return bad(m);
    }
    if !first {
        for (i, j) in js.iter().enumerate() {
            let got = guarded(j);
            ensure(Some(&got) == alone[i].as_ref(), || {
                format!(
                    "call {} alone gave {} but {} among other threads",
                    clip(&format!("{j:?}"), 400),
                    clip(&got, 400),
                    clip(&show(&alone[i]), 400)
                )
            })?;
        }
    }
    // calls of earlier cases give what they gave then
    let old = PAST.with(|p| {
        let p = p.borrow();
        if p.is_empty() {
            None
        } else {
            p.get(s.below(p.len())).cloned()
        }
    });
    if let Some((j, want)) = old {
        let got = guarded(&j);
        o.ev("repeated_later");
        ensure(got == want, || {
            format!(
                "call {} gave {} but {} earlier in this process",
                clip(&format!("{j:?}"), 400),
                clip(&got, 400),
                clip(&want, 400)
            )
        })?;
    }
    PAST.with(|p| {
        let mut p = p.borrow_mut();
        let i = (case % js.len() as u64) as usize;
        if let Some(w) = alone[i].clone() {
            p.push_back((js[i].clone(), w));
        }
        if p.len() > 300 {
            p.pop_front();
        }
    });
    // the same calls in a fresh process, in reverse order, or one of them alone
    if s.one_in(12) {
        let only = if s.bool() { Some(s.below(js.len())) } else { None };
        let mut cmd = std::process::Command::new(std::env::current_exe().unwrap_or_else(|e| panic!("harness: exe: {e}")));
        cmd.args(["jobs", "--case", &format!("{case:#x}")]);
        if let Some(i) = only {
            cmd.args(["--only", &i.to_string()]);
        }
        if let Some(d) = DICT_PATH.get() {
            cmd.args(["--dict", d]);
        }
        let out = cmd.output().unwrap_or_else(|e| panic!("harness: child: {e}"));
        ensure(out.status.success(), || {
            format!("fresh process ended with {:?}: {}", out.status, clip(&String::from_utf8_lossy(&out.stderr), 2000))
        })?;
        o.ev("fresh_processes");
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        let mut seen = 0;
        for l in text.lines() {
            let Some((i, h)) = l.split_once(' ') else { continue };
            let i: usize = i.parse().unwrap_or_else(|_| panic!("harness: child output {l:?}"));
            seen += 1;
            o.ev("fresh_process_results");
            let here = alone[i].clone().unwrap_or_default();
            ensure(hex(&oracle::sha256(here.as_bytes())) == h, || {
                format!(
                    "call {} gives {} in this process and something else in a fresh one ({})",
                    clip(&format!("{:?}", js[i]), 400),
                    clip(&here, 400),
                    if only.is_some() { "run alone" } else { "run in reverse order" }
                )
            })?;
        }
        ensure(seen == only.map_or(js.len(), |_| 1), || format!("fresh process gave {seen} results"))?;
    }
    o.sample(|| format!("{} calls on {n_threads} threads: {}", js.len(), js.iter().map(Job::kind).collect::<Vec<_>>().join(" ")));
    Ok(())
}
