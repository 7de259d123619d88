//! C16: wallets and accounts against an independent BIP-39 / BIP-32.

use std::collections::HashMap;

use hmac::{Hmac, Mac};
use secp256k1::{Scalar, SecretKey};
use sha2::Sha512;
use stacks_rs::crypto::c32::Version;
use stacks_rs::wallet::{StacksAccount, StacksWallet};

use crate::engine::*;
use crate::gen;
use crate::oracle::*;
use crate::src::*;
use crate::tx::pubkey;

fn words() -> &'static [&'static str; 2048] {
    bip39::Language::English.word_list()
}

/// The words of an entropy, with a chosen damage to the checksum bits.
pub(super) fn mnemonic(entropy: &[u8], damage: u8) -> Vec<usize> {
    let cs = entropy.len() / 4; // checksum bits
    let sum = sha256(entropy)[0] ^ (damage << (8 - cs));
    let bit = |i: usize| -> usize {
        if i < entropy.len() * 8 {
            (entropy[i / 8] >> (7 - i % 8) & 1) as usize
        } else {
            (sum >> (7 - (i - entropy.len() * 8)) & 1) as usize
        }
    };
    let n = (entropy.len() * 8 + cs) / 11;
    (0..n).map(|w| (0..11).fold(0, |a, k| a << 1 | bit(w * 11 + k))).collect()
}

/// Is this sequence of words a valid phrase?
fn valid(w: &[&str]) -> bool {
    if ![12, 15, 18, 21, 24].contains(&w.len()) {
        return false;
    }
    let mut bits = vec![];
    for x in w {
        let Some(i) = words().iter().position(|y| y == x) else { return false };
        for k in (0..11).rev() {
            bits.push((i >> k & 1) as u8);
        }
    }
    let cs = bits.len() / 33;
    let n = bits.len() - cs;
    let ent: Vec<u8> = bits[..n].chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | b)).collect();
    let h = sha256(&ent)[0];
    (0..cs).all(|k| bits[n + k] == (h >> (7 - k) & 1))
}

fn mac(key: &[u8]) -> Hmac<Sha512> {
    Hmac::<Sha512>::new_from_slice(key).unwrap_or_else(|_| panic!("harness: hmac"))
}

fn hmac512(key: &[u8], data: &[u8]) -> [u8; 64] {
    let mut m = mac(key);
    m.update(data);
    m.finalize().into_bytes().into()
}

/// PBKDF2-HMAC-SHA512, 2048 rounds, one block.
fn seed(phrase: &str) -> [u8; 64] {
    let base = mac(phrase.as_bytes());
    let prf = |d: &[u8]| -> [u8; 64] {
        let mut m = base.clone();
        m.update(d);
        m.finalize().into_bytes().into()
    };
    let mut u = prf(b"mnemonic\x00\x00\x00\x01");
    let mut out = u;
    for _ in 1..2048 {
        u = prf(&u);
        for (a, b) in out.iter_mut().zip(u) {
            *a ^= b;
        }
    }
    out
}

#[derive(Clone, Copy)]
pub(super) struct Ext {
    pub(super) key: SecretKey,
    chain: [u8; 32],
}

fn split(b: [u8; 64]) -> ([u8; 32], [u8; 32]) {
    let mut l = [0; 32];
    let mut r = [0; 32];
    l.copy_from_slice(&b[..32]);
    r.copy_from_slice(&b[32..]);
    (l, r)
}

fn master(seed: &[u8]) -> Ext {
    let (l, r) = split(hmac512(b"Bitcoin seed", seed));
    Ext { key: SecretKey::from_slice(&l).unwrap_or_else(|_| panic!("harness: master")), chain: r }
}

pub(super) fn child(p: &Ext, index: u32) -> Ext {
    let mut d = vec![];
    if index >= 0x8000_0000 {
        d.push(0);
        d.extend_from_slice(&p.key.secret_bytes());
    } else {
        d.extend_from_slice(&pubkey(&p.key).serialize());
    }
    d.extend_from_slice(&index.to_be_bytes());
    let (l, r) = split(hmac512(&p.chain, &d));
    let t = Scalar::from_be_bytes(l).unwrap_or_else(|_| panic!("harness: tweak"));
    Ext { key: p.key.add_tweak(&t).unwrap_or_else(|_| panic!("harness: child")), chain: r }
}

const H: u32 = 0x8000_0000;

pub(super) fn root(phrase: &str) -> Ext {
    let mut e = master(&seed(phrase));
    for i in [44 | H, 5757 | H, H, 0] {
        e = child(&e, i);
    }
    e
}

pub(super) fn phrase(w: &[usize]) -> String {
    w.iter().map(|i| words()[*i]).collect::<Vec<_>>().join(" ")
}

fn gen_entropy(s: &mut Src) -> Vec<u8> {
    let n = *s.pick(&[16, 20, 24, 28, 32]);
    s.bytes(n)
}

const VERS: [(Version, u8); 4] = [
    (Version::MainnetP2PKH, 22),
    (Version::MainnetP2SH, 20),
    (Version::TestnetP2PKH, 26),
    (Version::TestnetP2SH, 21),
];

pub(super) fn check_account(what: &str, a: &StacksAccount, want: &SecretKey) -> Res {
    let sk = must("private_key", a.private_key())?;
    ensure(sk == *want, || {
        format!("{what}: private key {} want {}", hex(&sk.secret_bytes()), hex(&want.secret_bytes()))
    })?;
    let pk = pubkey(want).serialize();
    eqb(&format!("{what}: public key"), &must("public_key", a.public_key())?.serialize(), &pk)?;
    for (v, n) in VERS {
        eq(&format!("{what}: address"), &must("get_address", a.get_address(v))?, &address(n, &p2pkh(&pk)))?;
    }
    Ok(())
}

struct Model {
    which: usize,
    set: HashMap<u32, SecretKey>,
}

pub fn c16(s: &mut Src, o: &mut Obs) -> Res {
    // phrases
    let np = s.range(1, 2);
    let mut roots = vec![];
    let mut wallets: Vec<(StacksWallet, Model)> = vec![];
    let mut phrases = vec![];
    for i in 0..np {
        let e = gen_entropy(s);
        let p = phrase(&mnemonic(&e, 0));
        o.ev(match e.len() {
            16 => "words_12",
            20 => "words_15",
            24 => "words_18",
            28 => "words_21",
            _ => "words_24",
        });
        let w = must(&format!("from_secret_key({p:?})"), StacksWallet::from_secret_key(p.as_str()))?;
        roots.push(root(&p));
        wallets.push((w, Model { which: i, set: HashMap::new() }));
        phrases.push(p);
    }
    o.case(&phrases);
    // indexes that are likely to be confused with each other
    let base: u32 = match s.below(4) {
        0 => 0,
        1 => s.below(300) as u32,
        _ => s.num(32) as u32,
    };
    let mut pool = vec![base, base ^ 1, base ^ H, base.wrapping_add(256), base.wrapping_add(65536), base ^ 0x8000, base & 0xff, 0, 1, H - 1, H, u32::MAX];
    for _ in 0..3 {
        pool.push(s.num(32) as u32);
    }
    let mut cache: HashMap<(usize, u32), SecretKey> = HashMap::new();
    let mut hist = vec![];
    for _ in 0..s.range(6, 28) {
        let wi = s.below(wallets.len());
        let ix = *s.pick(&pool);
        let which = wallets[wi].1.which;
        match s.below(12) {
            0 if wallets.len() < 5 => {
                let (w, m) = &wallets[wi];
                let c = (w.clone(), Model { which: m.which, set: m.set.clone() });
                wallets.push(c);
                hist.push(format!("clone {wi}"));
                o.ev("clones");
            }
            1 | 2 => {
                // an explicitly set account, of this or another wallet
                let from = s.below(wallets.len());
                let j = *s.pick(&pool);
                let key = expected(&roots, &mut cache, &wallets[from].1, j);
                let acc = must("get_account", wallets[from].0.get_account(j))?;
                check_account(&format!("account {j} (history {hist:?})"), &acc, &key)?;
                wallets[wi].0.set_account(ix, acc);
                wallets[wi].1.set.insert(ix, key);
                hist.push(format!("w{wi}.set({ix:#x}, w{from}.get({j:#x}))"));
                o.ev("set_account");
            }
            4 if s.one_in(6) => {
                // many accounts in between
                let n = if s.one_in(6) { s.range(60, 300) } else { s.range(8, 60) };
                let from = *s.pick(&pool);
                let step = *s.pick(&[1u32, 1, 2, 7, 256]);
                for i in 0..n as u32 {
                    let j = from.wrapping_add(i.wrapping_mul(step));
                    let key = expected(&roots, &mut cache, &wallets[wi].1, j);
                    let acc = must(&format!("get_account({j:#x})"), wallets[wi].0.get_account(j))?;
                    ensure(must("private_key", acc.private_key())? == key, || format!("account {j:#x} of wallet {wi} (history {hist:?}, then {i} accounts from {from:#x} by {step})"))?;
                }
                hist.push(format!("w{wi}.get({from:#x} by {step}, {n} times)"));
                o.ev("sweeps");
            }
            3 if s.one_in(3) => {
                // opened again
                let w = must("from_secret_key", StacksWallet::from_secret_key(phrases[which].clone()))?;
                wallets[wi] = (w, Model { which, set: HashMap::new() });
                hist.push(format!("w{wi} reopened"));
                o.ev("reopened");
            }
            _ => {
                let key = expected(&roots, &mut cache, &wallets[wi].1, ix);
                let acc = must(&format!("get_account({ix:#x})"), wallets[wi].0.get_account(ix))?;
                check_account(&format!("account {ix:#x} of wallet {wi} {:?} (history {})", phrases[which], clip(&format!("{hist:?}"), 300)), &acc, &key)?;
                // the copy handed out does not depend on the wallet
                check_account("cloned account", &acc.clone(), &key)?;
                hist.push(format!("w{wi}.get({ix:#x})"));
                o.ev(if ix >= H { "get_hardened" } else { "get_account" });
            }
        }
        let (w, m) = &wallets[wi];
        let r = &roots[m.which].key;
        ensure(must("private_key", w.private_key())? == *r, || format!("wallet key changed after {hist:?}"))?;
        eqb("wallet public key", &must("public_key", w.public_key())?.serialize(), &pubkey(r).serialize())?;
    }
    o.case(&hist);
    // one address of each of several accounts and wallets, in any order
    for _ in 0..s.range(1, 3) {
        let ix = *s.pick(&pool);
        let (v, n) = *s.pick(&VERS);
        for _ in 0..s.range(2, 6) {
            let wi = s.below(wallets.len());
            let ix = if s.one_in(4) { *s.pick(&pool) } else { ix };
            let (v, n) = if s.one_in(4) { *s.pick(&VERS) } else { (v, n) };
            let key = expected(&roots, &mut cache, &wallets[wi].1, ix);
            let acc = must(&format!("get_account({ix:#x})"), wallets[wi].0.get_account(ix))?;
            let a = must("get_address", acc.get_address(v))?;
            eq(&format!("address of account {ix:#x} of wallet {wi} (history {hist:?})"), &a, &address(n, &p2pkh(&pubkey(&key).serialize())))?;
            o.ev("single_addresses");
        }
    }
    // invalid phrases
    for _ in 0..2 {
        let e = gen_entropy(s);
        let damage = if s.bool() { s.range(1, (1 << (e.len() / 4)) - 1) as u8 } else { 0 };
        let mut t: Vec<String> = mnemonic(&e, damage).iter().map(|i| words()[*i].to_string()).collect();
        if damage == 0 {
            let i = s.below(t.len());
            match s.below(11) {
                // misspelt words
                8 => {
                    let n = s.range(2, 5);
                    for (j, w) in t.iter_mut().enumerate() {
                        if j == i || s.one_in(6) {
                            w.truncate(n);
                        }
                    }
                }
                9 => {
                    let j = s.below(t[i].len());
                    t[i].remove(j);
                }
                10 => {
                    let mut b = t[i].clone().into_bytes();
                    let j = s.below(b.len());
                    if s.bool() && j > 0 {
                        b.swap(j - 1, j);
                    } else {
                        b[j] = b'a' + s.u8() % 26;
                    }
                    t[i] = String::from_utf8_lossy(&b).into_owned();
                }
                0 => {
                    t.remove(i);
                }
                1 => {
                    let w = words()[s.below(2048)].to_string();
                    t.insert(i, w);
                }
                2 => t[i] = words()[s.below(2048)].to_string(),
                3 => {
                    let j = s.below(t.len());
                    t.swap(i, j);
                }
                4 => t[i] = gen::ascii(s, 6).replace(char::is_whitespace, "x"),
                5 => t[i].push('s'),
                6 => {
                    let n = s.below(26);
                    t = (0..n).map(|_| words()[s.below(2048)].to_string()).collect();
                }
                _ => {
                    let n = s.range(1, 12);
                    t.truncate(n);
                }
            }
        }
        let refs: Vec<&str> = t.iter().map(String::as_str).collect();
        let p = t.join(" ");
        // only plain lower-case words, one space apart, are judged
        if t.iter().any(|w| w.is_empty() || !w.bytes().all(|b| b.is_ascii_lowercase())) && refs.iter().all(|w| words().contains(w)) {
            continue;
        }
        match (StacksWallet::from_secret_key(p.clone()), valid(&refs)) {
            (Ok(w), true) => {
                ensure(must("private_key", w.private_key())? == root(&p).key, || format!("wallet key of {p:?}"))?;
                o.ev("phrases_accepted");
            }
            (Err(_), false) => o.ev("phrases_refused"),
            (Ok(_), false) => {
                // odd spellings of a valid phrase are not judged
                let norm: Vec<String> = p.to_lowercase().split_whitespace().map(String::from).collect();
                let norm: Vec<&str> = norm.iter().map(String::as_str).collect();
                ensure(valid(&norm) && norm != refs, || format!("invalid phrase accepted: {p:?}"))?;
            }
            (Err(e), true) => return bad(format!("valid phrase refused: {p:?}: {e:?}")),
        }
    }
    o.sample(|| format!("{:?} {:?}", phrases, hist));
    Ok(())
}

fn expected(roots: &[Ext], cache: &mut HashMap<(usize, u32), SecretKey>, m: &Model, ix: u32) -> SecretKey {
    if let Some(k) = m.set.get(&ix) {
        return *k;
    }
    *cache.entry((m.which, ix)).or_insert_with(|| child(&roots[m.which], ix).key)
}
