//! C07..C09: address and text codecs, digests, signature containers.

use std::str::FromStr;

use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
use secp256k1::PublicKey;
use stacks_rs::crypto as lc;
use stacks_rs::crypto::c32::Address;

use crate::engine::*;
use crate::gen;
use crate::oracle::*;
use crate::src::*;
use crate::tx;

/// Length biased to small sizes, sometimes a few hundred.
fn blob(s: &mut Src, max: usize) -> Vec<u8> {
    let n = match s.below(6) {
        0 if s.big > 5000 && s.one_in(150) => *s.pick(&[1000, 1024, 1025, 2048, 2049, 3000]),
        0 => s.len(max),
        1 => *s.pick(&[0, 1, 4, 5, 19, 20, 21, 24, 25, 32]),
        _ => s.len(max.min(60)),
    };
    s.bytes(n)
}

/// Junk in a text: wrong characters, deletions, insertions, swaps, case.
fn mangle(s: &mut Src, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..s.range(1, 2) {
        match s.below(9) {
            0 if !c.is_empty() => {
                let i = s.below(c.len());
                c.remove(i);
            }
            1 => {
                let i = s.below(c.len() + 1);
                let x = gen::a_char(s);
                c.insert(i, x);
            }
            2 if c.len() > 1 => {
                let i = s.below(c.len());
                let j = s.below(c.len());
                c.swap(i, j);
            }
            3 if c.len() > 1 => {
                let i = s.below(c.len() - 1);
                c.swap(i, i + 1);
            }
            4 if !c.is_empty() => {
                let i = s.below(c.len());
                c[i] = gen::a_char(s);
            }
            5 if !c.is_empty() => {
                // stay inside the alphabet: only a checksum can tell
                let i = s.below(c.len());
                c[i] = *s.pick(&C32.chars().chain(B58.chars()).collect::<Vec<_>>());
            }
            6 => {
                let n = s.below(c.len() + 1);
                c.truncate(n);
            }
            7 => {
                let x = *s.pick(&['0', '1', 'O', 'I', 'l', 'L', 'U', 'u', ' ', '\n', 'S']);
                if s.bool() {
                    c.insert(0, x);
                } else {
                    c.push(x);
                }
            }
            _ if !c.is_empty() => {
                let i = s.below(c.len());
                c[i] = if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() };
            }
            _ => {}
        }
    }
    c.into_iter().collect()
}

/// Same C32 text in another spelling: case, look-alikes.
fn respell(s: &mut Src, t: &str) -> String {
    t.chars()
        .map(|c| {
            let c = match c {
                '0' if s.one_in(3) => *s.pick(&['O', 'o']),
                '1' if s.one_in(3) => *s.pick(&['I', 'i', 'L', 'l']),
                c => c,
            };
            if s.bool() {
                c.to_ascii_lowercase()
            } else {
                c
            }
        })
        .collect()
}

fn agree<T: PartialEq + std::fmt::Debug, E: std::fmt::Debug>(what: &str, got: Result<T, E>, want: Option<T>) -> Res {
    match (got, want) {
        (Ok(a), Some(b)) if a == b => Ok(()),
        (Err(_), None) => Ok(()),
        (a, b) => bad(format!("{what}: got {} want {}", show(&a), show(&b))),
    }
}

pub fn c07(s: &mut Src, o: &mut Obs) -> Res {
    // plain C32
    let b = blob(s, 400);
    let want = c32_encode(&b);
    eq("c32_encode", &must("c32_encode", lc::c32_encode(&b))?, &want)?;
    agree("c32_decode of c32_encode", lc::c32_decode(want.as_str()), Some(b.clone()))?;
    let alt = respell(s, &want);
    agree("c32_decode of another spelling", lc::c32_decode(alt.as_str()), Some(b.clone()))?;
    let junk = mangle(s, &want);
    agree(&format!("c32_decode({junk:?})"), lc::c32_decode(junk.as_str()), c32_decode(&junk))?;
    o.evn("c32_calls", 4);

    // C32Check with any version
    let ver = if s.one_in(4) { s.u8() } else { s.below(33) as u8 };
    match (lc::c32check_encode(&b, ver), c32check_encode(&b, ver)) {
        (Ok(a), Some(w)) => {
            eq("c32check_encode", &a, &w)?;
            agree(&format!("c32check_decode({a:?})"), lc::c32check_decode(a.as_str()), Some((b.clone(), ver)))?;
            let j = if s.bool() { mangle(s, &a) } else { respell(s, &a) };
            agree(&format!("c32check_decode({j:?})"), lc::c32check_decode(j.as_str()), c32check_decode(&j))?;
            o.ev("c32check_roundtrips");
        }
        (Err(_), None) => o.ev("c32check_bad_version"),
        (a, w) => return bad(format!("c32check_encode version {ver}: got {} want {}", show(&a), show(&w))),
    }

    // addresses
    let h = s.hash20();
    let v = if s.one_in(6) { s.u8() } else { *s.pick(&VERSIONS) };
    o.case(&(h, v, &b));
    if !VERSIONS.contains(&v) {
        must_err(&format!("c32_address with version {v}"), lc::c32_address(h, v))?;
        o.ev("unknown_version_refused");
        if v < 32 {
            // genuine checksum, unknown version
            let t = format!("S{}", c32check_encode(&h, v).unwrap_or_default());
            must_err(&format!("c32_address_decode({t:?})"), lc::c32_address_decode(t.as_str()))?;
            must_err(&format!("Address::from_str({t:?})"), Address::from_str(&t))?;
            o.ev("unknown_version_text_refused");
        }
        return Ok(());
    }
    let a = address(v, &h);
    eq("c32_address", &must("c32_address", lc::c32_address(h, v))?, &a)?;
    agree("c32_address_decode", lc::c32_address_decode(a.as_str()), Some((h.to_vec(), v)))?;
    let p = must("Address::from_str", Address::from_str(&a))?;
    eq("parsed address", &(*p.hash.as_bytes(), p.version), &(h, v))?;
    o.ev("addresses");
    o.sample(|| format!("version {v} hash {} <-> {a}", hex(&h)));
    let variants = match s.below(8) {
        0 => format!("S{}", respell(s, &a[1..])),
        1 => respell(s, &a),
        2 => {
            // wrong hash length, genuine checksum
            let n = *s.pick(&[0, 1, 10, 18, 19, 21, 22, 32, 40]);
            let body = s.bytes(n);
            format!("S{}", c32check_encode(&body, v).unwrap_or_default())
        }
        3 => {
            // one character replaced, still inside the alphabet
            let mut c: Vec<char> = a.chars().collect();
            let i = s.range(1, c.len() - 1);
            c[i] = *s.pick(&C32.chars().collect::<Vec<_>>());
            c.into_iter().collect()
        }
        4 => {
            // another version character for the same body
            let w = *s.pick(&VERSIONS);
            let mut c: Vec<char> = a.chars().collect();
            c[1] = C32.chars().nth(w as usize).unwrap_or('P');
            c.into_iter().collect()
        }
        5 => {
            // checksum off by one bit
            let mut body = h.to_vec();
            let mut vb = vec![v];
            vb.extend_from_slice(&h);
            let mut c = dsha256(&vb)[..4].to_vec();
            c[s.below(4)] ^= 1 << s.below(8);
            body.extend_from_slice(&c);
            format!("S{}{}", C32.chars().nth(v as usize).unwrap_or('P'), c32_encode(&body))
        }
        6 => gen::text(s, 50),
        _ => mangle(s, &a),
    };
    let want = address_decode(&variants);
    o.ev(if want.is_some() { "variant_accepted" } else { "variant_refused" });
    agree(
        &format!("c32_address_decode({variants:?})"),
        lc::c32_address_decode(variants.as_str()),
        want.map(|(v, h)| (h.to_vec(), v)),
    )?;
    agree(
        &format!("Address::from_str({variants:?})"),
        Address::from_str(&variants).map(|x| (x.version, *x.hash.as_bytes())),
        want,
    )
}

// ---- C08 -------------------------------------------------------------------

pub fn c08(s: &mut Src, o: &mut Obs) -> Res {
    let b = blob(s, if s.is_fuzz() { 200 } else { 600 });
    o.case(&b);
    // base58
    let want = radix_encode(B58, &b);
    eq("b58_encode", &lc::b58_encode(&b), &want)?;
    agree("b58_decode of b58_encode", lc::b58_decode(want.as_str()), Some(b.clone()))?;
    let junk = if s.one_in(4) { gen::text(s, 40) } else { mangle(s, &want) };
    let w = radix_decode(B58, &junk);
    o.ev(if w.is_some() { "b58_text_accepted" } else { "b58_text_refused" });
    agree(&format!("b58_decode({junk:?})"), lc::b58_decode(junk.as_str()), w)?;
    // base58check
    let v = if s.bool() { *s.pick(&[0, 5, 111, 196, 128, 239, 255]) } else { s.u8() };
    let text = b58check_encode(&b, v);
    eq("base58check_encode", &lc::base58check_encode(&b, v), &text)?;
    agree("base58check_decode", lc::base58check_decode(text.as_str()), Some((b.clone(), v)))?;
    let junk = match s.below(5) {
        0 => {
            // too short for version and checksum
            let n = s.below(6);
            radix_encode(B58, &s.bytes(n))
        }
        1 => {
            let mut d = vec![v];
            d.extend_from_slice(&b);
            let mut c = dsha256(&d)[..4].to_vec();
            c[s.below(4)] ^= 1 << s.below(8);
            d.extend_from_slice(&c);
            radix_encode(B58, &d)
        }
        2 => gen::text(s, 40),
        _ => mangle(s, &text),
    };
    let w = b58check_decode(&junk);
    o.ev(if w.is_some() { "b58check_text_accepted" } else { "b58check_text_refused" });
    agree(&format!("base58check_decode({junk:?})"), lc::base58check_decode(junk.as_str()), w)?;
    // hex
    let want = hex(&b);
    eq("bytes_to_hex", &lc::bytes_to_hex(&b), &want)?;
    agree("hex_to_bytes of bytes_to_hex", lc::hex_to_bytes(want.as_str()), Some(b.clone()))?;
    let up: String = want.chars().map(|c| if s.bool() { c.to_ascii_uppercase() } else { c }).collect();
    agree("hex_to_bytes, mixed case", lc::hex_to_bytes(up.as_str()), Some(b.clone()))?;
    let junk = match s.below(4) {
        0 => gen::text(s, 30),
        1 => format!("0x{want}"),
        _ => mangle(s, &want),
    };
    let w = if junk.is_ascii() { unhex(&junk) } else { None };
    o.ev(if w.is_some() { "hex_text_accepted" } else { "hex_text_refused" });
    agree(&format!("hex_to_bytes({junk:?})"), lc::hex_to_bytes(junk.as_str()), w)?;
    // longer hex than base58 can be asked for
    if s.one_in(40) {
        let m = s.big;
        let n = if m > 5000 && s.one_in(40) { *s.pick(&[131_073, 1_048_576, 1_048_577]) } else { s.len(m) };
        let b = s.bytes(n);
        let want = hex(&b);
        let got = lc::bytes_to_hex(&b);
        ensure(got == want, || format!("bytes_to_hex of {n} bytes differs"))?;
        ensure(matches!(lc::hex_to_bytes(want.as_str()), Ok(x) if x == b), || format!("hex_to_bytes of {n} bytes differs"))?;
        if n > 0 {
            let mut j = want.into_bytes();
            let i = s.below(j.len());
            j[i] = *s.pick(b"gGxX \0:/@`-+");
            let j = String::from_utf8(j).unwrap_or_default();
            ensure(lc::hex_to_bytes(j.as_str()).is_err(), || format!("hex_to_bytes accepts a wrong digit at {i} of {n} bytes"))?;
        }
        o.ev("long_hex");
    }
    if b.first() == Some(&0) {
        o.ev("leading_zeros");
    }
    if !b.is_empty() && b.iter().all(|x| *x == 0) {
        o.ev("all_zero");
    }
    o.sample(|| format!("{} <-> {}", clip(&hex(&b), 100), clip(&text, 150)));
    Ok(())
}

// ---- C09 -------------------------------------------------------------------

pub fn c09(s: &mut Src, o: &mut Obs) -> Res {
    let n = match s.below(5) {
        0 => *s.pick(&[0, 1, 55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 255, 256]),
        1 => {
            let m = s.big.min(20_000);
            if m > 5000 && s.one_in(1500) {
                *s.pick(&[65_535, 65_536, 131_073, 1_048_576, 1_048_577])
            } else {
                s.len(m)
            }
        }
        _ => s.len(300),
    };
    let b = s.bytes(n);
    o.case(&b);
    macro_rules! digest {
        ($t:ty, $f:expr, $n:expr) => {{
            let h = <$t>::from_slice(&b);
            let w: [u8; $n] = $f(&b);
            let name = stringify!($t);
            eqb(name, h.as_bytes(), &w)?;
            eqb(name, &h.into_bytes(), &w)?;
            eqb(name, &h.checksum(), &w[..4])?;
            eq(name, &h.hex(), &hex(&w))?;
            eq(name, &format!("{h:?}"), &hex(&w))?;
            eqb(name, &Vec::<u8>::from(h), &w)?;
            eqb(name, AsRef::<[u8]>::as_ref(&h), &w)?;
            ensure(<$t>::from(w) == h, || format!("{name}: From<[u8; n]> differs"))?;
            o.ev("digests");
        }};
    }
    digest!(lc::Sha256Hash, sha256, 32);
    digest!(lc::DSha256Hash, dsha256, 32);
    digest!(lc::Sha512_256Hash, sha512_256, 32);
    digest!(lc::Hash160, hash160, 20);
    eqb("SignatureHash", lc::SignatureHash::from_slice(&b).as_bytes(), &sha512_256(&b))?;
    let h20 = s.hash20();
    eqb("Hash160::new", lc::Hash160::new(h20).as_bytes(), &h20)?;

    // key hashes
    use lc::c32::{hash_p2pkh, hash_p2sh, hash_p2wpkh, hash_p2wsh};
    eqb("hash_p2pkh", hash_p2pkh(&b).as_bytes(), &p2pkh(&b))?;
    eqb("hash_p2wpkh", hash_p2wpkh(&b).as_bytes(), &p2wpkh(&b))?;
    let nk = match s.below(4) {
        0 => s.below(17),
        1 => 15,
        _ => s.range(1, 4),
    };
    let keys: Vec<PublicKey> = (0..nk).map(|_| tx::pubkey(&tx::gen_key(s))).collect();
    let ser: Vec<[u8; 33]> = keys.iter().map(PublicKey::serialize).collect();
    let m = if s.one_in(3) { s.below(17) as u8 } else { s.below(nk + 1) as u8 };
    eqb("hash_p2sh", hash_p2sh(m, &keys).as_bytes(), &p2sh(m, &ser))?;
    eqb("hash_p2wsh", hash_p2wsh(m, &keys).as_bytes(), &p2wsh(m, &ser))?;
    if let Some(k) = ser.first() {
        eqb("hash_p2pkh of a key", hash_p2pkh(k).as_bytes(), &p2pkh(k))?;
        eqb("hash_p2wpkh of a key", hash_p2wpkh(k).as_bytes(), &p2wpkh(k))?;
    }
    o.evn("key_hashes", 6);

    // signature container
    let mut raw: [u8; 65] = [0; 65];
    raw.copy_from_slice(&s.bytes(65));
    if s.bool() {
        raw[0] = s.below(6) as u8;
    }
    let ms = must("MessageSignature::from_slice", lc::MessageSignature::from_slice(raw))?;
    eqb("MessageSignature bytes", ms.as_bytes(), &raw)?;
    let want = RecoveryId::from_i32(i32::from(raw[0]))
        .ok()
        .and_then(|id| RecoverableSignature::from_compact(&raw[1..], id).ok());
    match (ms.into_recov(), want) {
        (Ok(a), Some(w)) => {
            eq("into_recov", &a, &w)?;
            let back = must("from_recov", lc::MessageSignature::from_recov(a))?;
            eqb("from_recov(into_recov)", back.as_bytes(), &raw)?;
            o.ev("recov_roundtrips");
        }
        (Err(_), None) => o.ev("recov_refused"),
        (a, w) => return bad(format!("into_recov({}): got {} want {}", hex(&raw), show(&a), show(&w))),
    }
    let bad_len = match s.below(4) {
        0 => s.len(200),
        1 => 64,
        2 => 66,
        _ => 0,
    };
    if bad_len != 65 {
        let x = s.raw(bad_len);
        must_err("MessageSignature::from_slice of a wrong length", lc::MessageSignature::from_slice(x))?;
        o.ev("bad_length_refused");
    }

    // hash chain
    let h: [u8; 32] = if s.bool() { s.arr() } else { sha256(&b) };
    let (typ, fee, nonce) = (if s.bool() { *s.pick(&[4, 5]) } else { s.u8() }, s.u64(), s.u64());
    let lh = lc::SignatureHash::from(h);
    let pre = tx::presign(&h, typ, fee, nonce);
    eqb("make_presign_hash", lc::SignatureHash::make_presign_hash(lh, typ, fee, nonce).as_bytes(), &pre)?;
    eqb(
        "make_postsign_hash",
        lc::SignatureHash::make_postsign_hash(pre.into(), ms).as_bytes(),
        &tx::postsign(&pre, &raw),
    )?;
    let sk = tx::gen_key(s);
    let (sig, next) = must("next_signature", lc::SignatureHash::next_signature(lh, typ, fee, nonce, sk))?;
    let pk = tx::pubkey(&sk).serialize();
    match tx::recover(&pre, sig.as_bytes()) {
        Some(k) if k == pk => {}
        k => return bad(format!("next_signature: recovers {} want {}", show(&k), hex(&pk))),
    }
    eqb("next_signature: next hash", next.as_bytes(), &tx::postsign(&pre, sig.as_bytes()))?;
    let (k2, n2) = must("next_verify", lc::SignatureHash::next_verify(lh, typ, fee, nonce, sig))?;
    eqb("next_verify key", &k2.serialize(), &pk)?;
    eqb("next_verify hash", n2.as_bytes(), next.as_bytes())?;
    // arbitrary signature bytes
    match (lc::SignatureHash::next_verify(lh, typ, fee, nonce, ms), tx::recover(&pre, &raw)) {
        (Ok((k, n)), Some(w)) => {
            eqb("next_verify key", &k.serialize(), &w)?;
            eqb("next_verify hash", n.as_bytes(), &tx::postsign(&pre, &raw))?;
            o.ev("arbitrary_signature_recovered");
        }
        (Err(_), None) => o.ev("arbitrary_signature_refused"),
        (a, w) => return bad(format!("next_verify of {}: got {} want {}", hex(&raw), show(&a), show(&w))),
    }
    o.ev("signature_chains");
    o.sample(|| format!("{} bytes, {m}-of-{nk} keys, presign {}", b.len(), hex(&pre)));
    Ok(())
}
