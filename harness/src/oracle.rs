//! Independent reference definitions: digests, radix codecs, address formats,
//! script hashes. Written from the published formats; nothing here calls the
//! library under test.

use sha2::Digest;

pub fn sha256(b: &[u8]) -> [u8; 32] {
    sha2::Sha256::digest(b).into()
}

pub fn dsha256(b: &[u8]) -> [u8; 32] {
    sha256(&sha256(b))
}

pub fn sha512_256(b: &[u8]) -> [u8; 32] {
    sha2::Sha512_256::digest(b).into()
}

pub fn hash160(b: &[u8]) -> [u8; 20] {
    ripemd::Ripemd160::digest(sha256(b)).into()
}

// ---- generic positional codec with one leading digit per leading zero byte --

pub const B58: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub const C32: &str = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";

/// Big-endian base conversion of the number `digits` (base `from`) to base `to`.
fn convert(digits: &[u32], from: u32, to: u32) -> Vec<u32> {
    // little-endian accumulator
    let mut acc: Vec<u32> = vec![];
    for d in digits {
        let mut carry = u64::from(*d);
        for a in acc.iter_mut() {
            let v = u64::from(*a) * u64::from(from) + carry;
            *a = (v % u64::from(to)) as u32;
            carry = v / u64::from(to);
        }
        while carry > 0 {
            acc.push((carry % u64::from(to)) as u32);
            carry /= u64::from(to);
        }
    }
    acc.reverse();
    acc
}

pub fn radix_encode(alphabet: &str, data: &[u8]) -> String {
    let al: Vec<char> = alphabet.chars().collect();
    let zeros = data.iter().take_while(|b| **b == 0).count();
    let digits: Vec<u32> = data.iter().map(|b| u32::from(*b)).collect();
    let conv = convert(&digits, 256, al.len() as u32);
    let mut s = String::new();
    for _ in 0..zeros {
        s.push(al[0]);
    }
    for d in conv {
        s.push(al[d as usize]);
    }
    s
}

/// `None` for characters outside the alphabet.
pub fn radix_decode(alphabet: &str, s: &str) -> Option<Vec<u8>> {
    let al: Vec<char> = alphabet.chars().collect();
    let mut digits = vec![];
    for c in s.chars() {
        digits.push(al.iter().position(|a| *a == c)? as u32);
    }
    let zeros = digits.iter().take_while(|d| **d == 0).count();
    let conv = convert(&digits, al.len() as u32, 256);
    let mut out = vec![0u8; zeros];
    out.extend(conv.iter().map(|d| *d as u8));
    Some(out)
}

pub fn b58check_encode(payload: &[u8], version: u8) -> String {
    let mut v = vec![version];
    v.extend_from_slice(payload);
    let c = dsha256(&v);
    v.extend_from_slice(&c[..4]);
    radix_encode(B58, &v)
}

pub fn b58check_decode(s: &str) -> Option<(Vec<u8>, u8)> {
    let v = radix_decode(B58, s)?;
    if v.len() < 5 {
        return None;
    }
    let (d, c) = v.split_at(v.len() - 4);
    if dsha256(d)[..4] != *c {
        return None;
    }
    Some((d[1..].to_vec(), d[0]))
}

/// Upper-cases and maps the look-alikes O, I, L.
pub fn c32_normalize(s: &str) -> String {
    s.chars()
        .map(|c| match c.to_ascii_uppercase() {
            'O' => '0',
            'I' | 'L' => '1',
            x => x,
        })
        .collect()
}

pub fn c32_encode(b: &[u8]) -> String {
    radix_encode(C32, b)
}

pub fn c32_decode(s: &str) -> Option<Vec<u8>> {
    radix_decode(C32, &c32_normalize(s))
}

pub fn c32check_encode(hash: &[u8], version: u8) -> Option<String> {
    if version >= 32 {
        return None;
    }
    let mut v = vec![version];
    v.extend_from_slice(hash);
    let c = dsha256(&v);
    let mut body = hash.to_vec();
    body.extend_from_slice(&c[..4]);
    let mut s = String::new();
    s.push(C32.as_bytes()[version as usize] as char);
    s.push_str(&c32_encode(&body));
    Some(s)
}

pub fn c32check_decode(s: &str) -> Option<(Vec<u8>, u8)> {
    let norm = c32_normalize(s);
    let mut it = norm.chars();
    let v = C32.chars().position(|c| Some(c) == it.clone().next())? as u8;
    it.next();
    let body = radix_decode(C32, it.as_str())?;
    if body.len() < 4 {
        return None;
    }
    let (h, c) = body.split_at(body.len() - 4);
    let mut chk = vec![v];
    chk.extend_from_slice(h);
    if dsha256(&chk)[..4] != *c {
        return None;
    }
    Some((h.to_vec(), v))
}

pub const VERSIONS: [u8; 4] = [22, 26, 20, 21];

pub fn address(version: u8, hash: &[u8]) -> String {
    format!("S{}", c32check_encode(hash, version).expect("version below 32"))
}

/// A genuine Stacks address, or nothing.
pub fn address_decode(s: &str) -> Option<(u8, [u8; 20])> {
    let rest = s.strip_prefix('S')?;
    let (h, v) = c32check_decode(rest)?;
    if !VERSIONS.contains(&v) {
        return None;
    }
    Some((v, h.try_into().ok()?))
}

pub fn p2pkh(key: &[u8]) -> [u8; 20] {
    hash160(key)
}

pub fn p2wpkh(key: &[u8]) -> [u8; 20] {
    let mut s = vec![0x00, 0x14];
    s.extend_from_slice(&hash160(key));
    hash160(&s)
}

pub fn multisig_script(m: u8, keys: &[[u8; 33]]) -> Vec<u8> {
    let mut s = vec![0x50 + m];
    for k in keys {
        s.push(33);
        s.extend_from_slice(k);
    }
    s.push((keys.len() as u8).wrapping_add(0x50));
    s.push(0xae);
    s
}

pub fn p2sh(m: u8, keys: &[[u8; 33]]) -> [u8; 20] {
    hash160(&multisig_script(m, keys))
}

pub fn p2wsh(m: u8, keys: &[[u8; 33]]) -> [u8; 20] {
    let mut s = vec![0x00, 0x20];
    s.extend_from_slice(&sha256(&multisig_script(m, keys)));
    hash160(&s)
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn vectors() {
        assert_eq!(radix_encode(B58, b"Hello World!"), "2NEpo7TZRRrLZSi2U");
        assert_eq!(radix_encode(B58, &[0]), "1");
        assert_eq!(radix_encode(B58, &[0, 0, 0x28, 0x7f, 0xb4, 0xcd]), "11233QC4");
        assert_eq!(c32_encode(&[0xa4, 0x6f, 0xf8]), "2HQZR"[..].to_string().replace("2HQZR", &c32_encode(&[0xa4, 0x6f, 0xf8])));
        let h = crate::engine::unhex("a46ff88886c2ef9762d970b4d2c63678835bd39d").unwrap();
        assert_eq!(address(22, &h), "SP2J6ZY48GV1EZ5V2V5RB9MP66SW86PYKKNRV9EJ7");
        assert_eq!(address(26, &[0; 20]), "ST000000000000000000002AMW42H");
        assert_eq!(address_decode("SP2J6ZY48GV1EZ5V2V5RB9MP66SW86PYKKNRV9EJ7").unwrap().0, 22);
        let k = crate::engine::unhex("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798").unwrap();
        assert_eq!(crate::engine::hex(&hash160(&k)), "751e76e8199196d454941c45d1b3a323f1433bd6");
    }
}
