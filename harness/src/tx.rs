//! Model of Stacks transactions: SIP-005 serialization, strict parser, signature
//! hash chain and verifier, and the bridges that build the library's values.

use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
use secp256k1::{Message, PublicKey, Secp256k1, SecretKey};
use stacks_rs::clarity as cl;
use stacks_rs::crypto::c32::Mode;
use stacks_rs::transaction as t;

use crate::gen;
use crate::model::*;
use crate::oracle::*;
use crate::src::*;

pub type Hash = [u8; 32];

fn secp() -> &'static Secp256k1<secp256k1::All> {
    static S: std::sync::OnceLock<Secp256k1<secp256k1::All>> = std::sync::OnceLock::new();
    S.get_or_init(Secp256k1::new)
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Pay {
    Transfer { to: V, amount: u64, memo: Vec<u8> },
    Call { ver: u8, hash: [u8; 20], contract: String, func: String, args: Vec<V> },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Asset {
    pub addr: String,
    pub contract: String,
    pub name: String,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Pc {
    Stx { who: V, amount: u64, code: u8 },
    Ft { who: V, amount: u64, code: u8, asset: Asset },
    Nft { who: V, value: V, code: u8, asset: Asset },
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Field {
    Key([u8; 33]),
    Sig([u8; 65]),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Cond {
    Single { mode: u8, signer: [u8; 20], nonce: u64, fee: u64, sig: [u8; 65] },
    Multi { mode: u8, signer: [u8; 20], nonce: u64, fee: u64, fields: Vec<Field>, required: u16 },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Tx {
    pub version: u8,
    pub chain: u32,
    pub origin: Cond,
    pub sponsor: Option<Cond>,
    pub anchor: u8,
    pub pc_mode: u8,
    pub pcs: Vec<Pc>,
    pub payload: Pay,
}

// ---- serialization ---------------------------------------------------------

fn put_name(o: &mut Vec<u8>, s: &str) -> Option<()> {
    o.extend(V::Name(s.to_string()).encode()?);
    Some(())
}

fn put_addr(o: &mut Vec<u8>, a: &str) -> Option<()> {
    let (v, h) = address_decode(a)?;
    o.push(v);
    o.extend_from_slice(&h);
    Some(())
}

impl Pay {
    pub fn encode(&self) -> Option<Vec<u8>> {
        let mut o = vec![];
        match self {
            Pay::Transfer { to, amount, memo } => {
                o.push(0x00);
                o.extend(to.encode()?);
                o.extend_from_slice(&amount.to_be_bytes());
                if memo.len() > 34 {
                    return None;
                }
                o.extend_from_slice(memo);
                o.extend(std::iter::repeat(0).take(34 - memo.len()));
            }
            Pay::Call { ver, hash, contract, func, args } => {
                o.push(0x02);
                o.push(*ver);
                o.extend_from_slice(hash);
                put_name(&mut o, contract)?;
                put_name(&mut o, func)?;
                o.extend(V::Args(args.clone()).encode()?);
            }
        }
        Some(o)
    }
}

impl Asset {
    fn enc(&self, o: &mut Vec<u8>) -> Option<()> {
        put_addr(o, &self.addr)?;
        put_name(o, &self.contract)?;
        put_name(o, &self.name)
    }
}

fn put_pc_principal(o: &mut Vec<u8>, v: &V) -> Option<()> {
    match v {
        V::Std(a) => {
            o.push(0x02);
            put_addr(o, a)
        }
        V::Con(a, n) => {
            o.push(0x03);
            put_addr(o, a)?;
            put_name(o, n)
        }
        _ => None,
    }
}

impl Pc {
    pub fn encode(&self) -> Option<Vec<u8>> {
        let mut o = vec![];
        match self {
            Pc::Stx { who, amount, code } => {
                o.push(0x00);
                put_pc_principal(&mut o, who)?;
                o.push(*code);
                o.extend_from_slice(&amount.to_be_bytes());
            }
            Pc::Ft { who, amount, code, asset } => {
                o.push(0x01);
                put_pc_principal(&mut o, who)?;
                asset.enc(&mut o)?;
                o.push(*code);
                o.extend_from_slice(&amount.to_be_bytes());
            }
            Pc::Nft { who, value, code, asset } => {
                o.push(0x02);
                put_pc_principal(&mut o, who)?;
                asset.enc(&mut o)?;
                o.extend(value.encode()?);
                o.push(*code);
            }
        }
        Some(o)
    }
}

pub fn encode_pcs(pcs: &[Pc]) -> Option<Vec<u8>> {
    let mut o = (pcs.len() as u32).to_be_bytes().to_vec();
    for p in pcs {
        o.extend(p.encode()?);
    }
    Some(o)
}

impl Cond {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        match self {
            Cond::Single { mode, signer, nonce, fee, sig } => {
                o.push(*mode);
                o.extend_from_slice(signer);
                o.extend_from_slice(&nonce.to_be_bytes());
                o.extend_from_slice(&fee.to_be_bytes());
                o.push(0x00);
                o.extend_from_slice(sig);
            }
            Cond::Multi { mode, signer, nonce, fee, fields, required } => {
                o.push(*mode);
                o.extend_from_slice(signer);
                o.extend_from_slice(&nonce.to_be_bytes());
                o.extend_from_slice(&fee.to_be_bytes());
                o.extend_from_slice(&(fields.len() as u32).to_be_bytes());
                for f in fields {
                    match f {
                        Field::Key(k) => {
                            o.push(0x00);
                            o.extend_from_slice(k);
                        }
                        Field::Sig(s) => {
                            o.push(0x02);
                            o.extend_from_slice(s);
                        }
                    }
                }
                o.extend_from_slice(&required.to_be_bytes());
            }
        }
        o
    }

    pub fn fee(&self) -> u64 {
        match self {
            Cond::Single { fee, .. } | Cond::Multi { fee, .. } => *fee,
        }
    }

    pub fn nonce(&self) -> u64 {
        match self {
            Cond::Single { nonce, .. } | Cond::Multi { nonce, .. } => *nonce,
        }
    }

    pub fn set_fee(&mut self, v: u64) {
        match self {
            Cond::Single { fee, .. } | Cond::Multi { fee, .. } => *fee = v,
        }
    }

    pub fn set_nonce(&mut self, v: u64) {
        match self {
            Cond::Single { nonce, .. } | Cond::Multi { nonce, .. } => *nonce = v,
        }
    }

    /// The cleared form that enters the initial signature hash.
    fn cleared(&self) -> Cond {
        let mut c = self.clone();
        match &mut c {
            Cond::Single { nonce, fee, sig, .. } => {
                *nonce = 0;
                *fee = 0;
                *sig = [0; 65];
            }
            Cond::Multi { nonce, fee, fields, .. } => {
                *nonce = 0;
                *fee = 0;
                fields.clear();
            }
        }
        c
    }

    pub fn signatures(&self) -> usize {
        match self {
            Cond::Single { sig, .. } => usize::from(*sig != [0; 65]),
            Cond::Multi { fields, .. } => fields.iter().filter(|f| matches!(f, Field::Sig(_))).count(),
        }
    }

    pub fn required(&self) -> usize {
        match self {
            Cond::Single { .. } => 1,
            Cond::Multi { required, .. } => *required as usize,
        }
    }

    /// Adds a signature field.
    pub fn put_sig(&mut self, s: [u8; 65]) {
        match self {
            Cond::Single { sig, .. } => *sig = s,
            Cond::Multi { fields, .. } => fields.push(Field::Sig(s)),
        }
    }

    /// Independent verification. `Ok(None)`: not judged (more signatures than
    /// required or none required, unspecified); `Ok(Some(next))`: genuine; `Err`: not genuine.
    pub fn verify(&self, start: Hash, typ: u8) -> Result<Option<Hash>, String> {
        match self {
            Cond::Single { mode, signer, nonce, fee, sig } => {
                let pre = presign(&start, typ, *fee, *nonce);
                let pk = recover(&pre, sig).ok_or("no key recovers")?;
                let h = match mode {
                    0 => p2pkh(&pk),
                    2 => p2wpkh(&pk),
                    _ => return Err("mode".into()),
                };
                if h != *signer {
                    return Err("signer".into());
                }
                Ok(Some(postsign(&pre, sig)))
            }
            Cond::Multi { mode, signer, nonce, fee, fields, required } => {
                let mut cur = start;
                let mut keys = vec![];
                let mut n = 0usize;
                for f in fields {
                    match f {
                        Field::Key(k) => keys.push(*k),
                        Field::Sig(s) => {
                            let pre = presign(&cur, typ, *fee, *nonce);
                            keys.push(recover(&pre, s).ok_or("no key recovers")?);
                            cur = postsign(&pre, s);
                            n += 1;
                        }
                    }
                }
                if n < *required as usize {
                    return Err("too few signatures".into());
                }
                let h = match mode {
                    1 => p2sh(*required as u8, &keys),
                    3 => p2wsh(*required as u8, &keys),
                    _ => return Err("mode".into()),
                };
                if h != *signer {
                    return Err("signer".into());
                }
                if n > *required as usize || *required == 0 {
                    return Ok(None);
                }
                Ok(Some(cur))
            }
        }
    }
}

impl Tx {
    pub fn auth_bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        match &self.sponsor {
            None => {
                o.push(0x04);
                o.extend(self.origin.encode());
            }
            Some(s) => {
                o.push(0x05);
                o.extend(self.origin.encode());
                o.extend(s.encode());
            }
        }
        o
    }

    pub fn encode(&self) -> Option<Vec<u8>> {
        let mut o = vec![self.version];
        o.extend_from_slice(&self.chain.to_be_bytes());
        o.extend(self.auth_bytes());
        o.push(self.anchor);
        o.push(self.pc_mode);
        o.extend(encode_pcs(&self.pcs)?);
        o.extend(self.payload.encode()?);
        Some(o)
    }

    /// Hash the first origin signature chains from.
    pub fn initial_hash(&self) -> Option<Hash> {
        let mut t = self.clone();
        t.origin = t.origin.cleared();
        if t.sponsor.is_some() {
            t.sponsor = Some(sentinel());
        }
        Some(sha512_256(&t.encode()?))
    }
}

/// The sponsor placeholder signed over by the origin.
pub fn sentinel() -> Cond {
    Cond::Single { mode: 0, signer: [0; 20], nonce: 0, fee: 0, sig: [0; 65] }
}

pub fn presign(h: &Hash, typ: u8, fee: u64, nonce: u64) -> Hash {
    let mut b = h.to_vec();
    b.push(typ);
    b.extend_from_slice(&fee.to_be_bytes());
    b.extend_from_slice(&nonce.to_be_bytes());
    sha512_256(&b)
}

pub fn postsign(pre: &Hash, sig: &[u8; 65]) -> Hash {
    let mut b = pre.to_vec();
    b.push(0x00);
    b.extend_from_slice(sig);
    sha512_256(&b)
}

pub fn recover(digest: &Hash, sig: &[u8; 65]) -> Option<[u8; 33]> {
    let id = RecoveryId::from_i32(i32::from(sig[0])).ok()?;
    let s = RecoverableSignature::from_compact(&sig[1..], id).ok()?;
    let m = Message::from_digest_slice(digest).ok()?;
    Some(secp().recover_ecdsa(&m, &s).ok()?.serialize())
}

pub fn sign(digest: &Hash, k: &SecretKey) -> [u8; 65] {
    let m = Message::from_digest_slice(digest).expect("32 bytes");
    let (id, b) = secp().sign_ecdsa_recoverable(&m, k).serialize_compact();
    let mut o = [0u8; 65];
    o[0] = id.to_i32() as u8;
    o[1..].copy_from_slice(&b);
    o
}

pub fn pubkey(k: &SecretKey) -> PublicKey {
    PublicKey::from_secret_key(secp(), k)
}

// ---- strict parser ---------------------------------------------------------

struct R<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.b.len() - self.i < n {
            return None;
        }
        self.i += n;
        Some(&self.b[self.i - n..self.i])
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn be(&mut self, n: usize) -> Option<u64> {
        Some(self.take(n)?.iter().fold(0u64, |a, b| (a << 8) | u64::from(*b)))
    }
    fn name(&mut self) -> Option<String> {
        match self.val(K::Name)? {
            V::Name(s) => Some(s),
            _ => None,
        }
    }
    fn val(&mut self, k: K) -> Option<V> {
        let (v, n) = parse_as(k, &self.b[self.i..])?;
        self.i += n;
        Some(v)
    }
    fn any(&mut self) -> Option<V> {
        let (v, n) = parse_any(&self.b[self.i..])?;
        self.i += n;
        Some(v)
    }
    fn addr(&mut self) -> Option<String> {
        let v = self.u8()?;
        let h = self.take(20)?;
        if !VERSIONS.contains(&v) {
            return None;
        }
        Some(address(v, h))
    }
    fn pc_principal(&mut self) -> Option<V> {
        match self.u8()? {
            0x02 => Some(V::Std(self.addr()?)),
            0x03 => {
                let a = self.addr()?;
                Some(V::Con(a, self.name()?))
            }
            _ => None,
        }
    }
    fn asset(&mut self) -> Option<Asset> {
        let addr = self.addr()?;
        let contract = self.name()?;
        let name = self.name()?;
        Some(Asset { addr, contract, name })
    }
    fn cond(&mut self) -> Option<Cond> {
        let mode = self.u8()?;
        let signer: [u8; 20] = self.take(20)?.try_into().ok()?;
        let nonce = self.be(8)?;
        let fee = self.be(8)?;
        match mode {
            0 | 2 => {
                if self.u8()? != 0x00 {
                    return None;
                }
                let sig = self.take(65)?.try_into().ok()?;
                Some(Cond::Single { mode, signer, nonce, fee, sig })
            }
            1 | 3 => {
                let n = self.be(4)?;
                let mut fields = vec![];
                for _ in 0..n {
                    fields.push(match self.u8()? {
                        0x00 => Field::Key(self.take(33)?.try_into().ok()?),
                        0x02 => Field::Sig(self.take(65)?.try_into().ok()?),
                        _ => return None,
                    });
                }
                let required = self.be(2)? as u16;
                Some(Cond::Multi { mode, signer, nonce, fee, fields, required })
            }
            _ => None,
        }
    }
    fn payload(&mut self) -> Option<Pay> {
        match self.u8()? {
            0x00 => {
                let to = self.any()?;
                if !matches!(to, V::Std(_) | V::Con(..)) {
                    return None;
                }
                let amount = self.be(8)?;
                let memo = self.take(34)?.to_vec();
                Some(Pay::Transfer { to, amount, memo })
            }
            0x02 => {
                let ver = self.u8()?;
                let hash = self.take(20)?.try_into().ok()?;
                let contract = self.name()?;
                let func = self.name()?;
                match self.val(K::Args)? {
                    V::Args(args) => Some(Pay::Call { ver, hash, contract, func, args }),
                    _ => None,
                }
            }
            _ => None,
        }
    }
}

pub fn parse_payload(b: &[u8]) -> Option<(Pay, usize)> {
    let mut r = R { b, i: 0 };
    let p = r.payload()?;
    Some((p, r.i))
}

pub fn parse_pcs(b: &[u8]) -> Option<(Vec<Pc>, usize)> {
    let mut r = R { b, i: 0 };
    let p = pcs_of(&mut r)?;
    Some((p, r.i))
}

fn pcs_of(r: &mut R) -> Option<Vec<Pc>> {
    let n = r.be(4)?;
    let mut out = vec![];
    for _ in 0..n {
        out.push(match r.u8()? {
            0x00 => {
                let who = r.pc_principal()?;
                let code = r.u8()?;
                Pc::Stx { who, code, amount: r.be(8)? }
            }
            0x01 => {
                let who = r.pc_principal()?;
                let asset = r.asset()?;
                let code = r.u8()?;
                Pc::Ft { who, code, asset, amount: r.be(8)? }
            }
            0x02 => {
                let who = r.pc_principal()?;
                let asset = r.asset()?;
                let value = r.any()?;
                Pc::Nft { who, asset, value, code: r.u8()? }
            }
            _ => return None,
        });
    }
    Some(out)
}

/// Parses a whole transaction; no bytes may be left over.
pub fn parse_tx(b: &[u8]) -> Option<Tx> {
    let mut r = R { b, i: 0 };
    let version = r.u8()?;
    let chain = r.be(4)? as u32;
    let (origin, sponsor) = match r.u8()? {
        0x04 => (r.cond()?, None),
        0x05 => {
            let o = r.cond()?;
            (o, Some(r.cond()?))
        }
        _ => return None,
    };
    let anchor = r.u8()?;
    let pc_mode = r.u8()?;
    let pcs = pcs_of(&mut r)?;
    let payload = r.payload()?;
    if r.i != b.len() {
        return None;
    }
    Some(Tx { version, chain, origin, sponsor, anchor, pc_mode, pcs, payload })
}

// ---- generators ------------------------------------------------------------

pub fn gen_key(s: &mut Src) -> SecretKey {
    if !s.keys.is_empty() && s.one_in(10) {
        let i = s.below(s.keys.len());
        if let Ok(k) = SecretKey::from_slice(&s.keys[i]) {
            return k;
        }
    }
    let k = gen_key_new(s);
    if s.keys.len() < 32 {
        s.keys.push(k.secret_bytes());
        // somebody pays himself, calls himself, sponsors himself
        if s.one_in(3) {
            s.keep_hash(p2pkh(&pubkey(&k).serialize()));
        }
    }
    k
}

fn gen_key_new(s: &mut Src) -> SecretKey {
    for _ in 0..4 {
        let b: [u8; 32] = match s.below(6) {
            0 => {
                let mut b = [0u8; 32];
                b[31] = s.u8().max(1);
                b
            }
            1 => {
                // just below the group order
                let mut b = crate::engine::unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
                    .expect("hex")
                    .try_into()
                    .unwrap_or([1; 32]);
                let d = s.range(1, 60) as u8;
                b[31] -= d;
                b
            }
            _ => s.arr::<32>(),
        };
        if let Ok(k) = SecretKey::from_slice(&b) {
            return k;
        }
    }
    SecretKey::from_slice(&[7; 32]).expect("valid key")
}

pub fn gen_asset(s: &mut Src) -> Asset {
    Asset { addr: gen::addr(s), contract: gen::name(s, 128), name: gen::name(s, 128) }
}

pub const CODES: [u8; 7] = [1, 2, 3, 4, 5, 0x10, 0x11];

pub fn lib_code(c: u8) -> t::ConditionCode {
    match c {
        1 => t::ConditionCode::EQ,
        2 => t::ConditionCode::GT,
        3 => t::ConditionCode::GTE,
        4 => t::ConditionCode::LT,
        5 => t::ConditionCode::LTE,
        0x10 => t::ConditionCode::HasNot,
        _ => t::ConditionCode::Has,
    }
}

pub fn gen_pc(s: &mut Src) -> Pc {
    let who = gen::principal(s);
    let code = *s.pick(&CODES);
    match s.below(3) {
        0 => Pc::Stx { who, code, amount: s.u64() },
        1 => Pc::Ft { who, code, amount: s.u64(), asset: gen_asset(s) },
        _ => {
            let d = s.range(1, 4);
            Pc::Nft { who, code, value: gen::value(s, d), asset: gen_asset(s) }
        }
    }
}

pub fn gen_pcs(s: &mut Src) -> Vec<Pc> {
    let n = match s.below(8) {
        0..=2 => 0,
        3 | 4 => 1,
        5 => s.range(2, 4),
        6 => s.range(2, 12),
        _ if s.big > 5000 && s.one_in(1200) => {
            s.big = 300;
            *s.pick(&[1024, 4096, 8192, 65_536])
        }
        _ if s.one_in(6) => *s.pick(&[127, 128, 255, 256, 257, 300]),
        _ => *s.pick(&[15, 16, 17, 31, 32, 33]),
    };
    let mut v: Vec<Pc> = vec![];
    for _ in 0..n {
        if !v.is_empty() && (s.one_in(5) || n > 40 && v.len() > 12) {
            let p = s.pick(&v).clone();
            v.push(p);
        } else {
            v.push(gen_pc(s));
        }
    }
    v
}

pub fn gen_memo(s: &mut Src) -> String {
    let n = match s.below(4) {
        0 => 0,
        1 => *s.pick(&[1, 33, 34, 32]),
        _ => s.below(35),
    };
    let mut t = gen::text(s, n);
    while t.len() > 34 {
        t.pop();
    }
    t
}

pub fn gen_pay(s: &mut Src) -> Pay {
    if s.bool() {
        Pay::Transfer { to: gen::principal(s), amount: s.u64(), memo: gen_memo(s).into_bytes() }
    } else {
        Pay::Call {
            ver: *s.pick(&VERSIONS),
            hash: s.hash20(),
            contract: gen::name(s, 128),
            func: gen::name(s, 128),
            args: gen::args(s),
        }
    }
}

/// Keys and the condition they form.
#[derive(Debug, Clone)]
pub struct Party {
    pub keys: Vec<SecretKey>,
    pub required: u8,
    pub mode: u8,
    pub fee: u64,
    pub nonce: u64,
}

impl Party {
    pub fn gen(s: &mut Src) -> Party {
        let mode = s.below(4) as u8;
        let (n, m) = if mode == 0 || mode == 2 {
            (1, 1)
        } else {
            let n = match s.below(6) {
                0 => s.range(1, 15),
                1 => 1,
                _ => s.range(2, 4),
            };
            (n, if s.one_in(3) { n } else { s.range(1, n) })
        };
        let mut keys: Vec<SecretKey> = vec![];
        for _ in 0..n {
            if !keys.is_empty() && s.one_in(12) {
                let k = *s.pick(&keys);
                keys.push(k);
            } else {
                keys.push(gen_key(s));
            }
        }
        Party { keys, required: m as u8, mode, fee: s.u64(), nonce: s.u64() }
    }

    pub fn multi(&self) -> bool {
        self.mode == 1 || self.mode == 3
    }

    pub fn pubs(&self) -> Vec<[u8; 33]> {
        self.keys.iter().map(|k| pubkey(k).serialize()).collect()
    }

    /// The unsigned model condition.
    pub fn cond(&self) -> Cond {
        let p = self.pubs();
        let (nonce, fee, mode) = (self.nonce, self.fee, self.mode);
        match mode {
            0 => Cond::Single { mode, signer: p2pkh(&p[0]), nonce, fee, sig: [0; 65] },
            2 => Cond::Single { mode, signer: p2wpkh(&p[0]), nonce, fee, sig: [0; 65] },
            _ => {
                let signer = if mode == 1 { p2sh(self.required, &p) } else { p2wsh(self.required, &p) };
                Cond::Multi { mode, signer, nonce, fee, fields: vec![], required: u16::from(self.required) }
            }
        }
    }

    pub fn lib_cond(&self) -> Box<dyn t::SpendingCondition> {
        let pks: Vec<PublicKey> = self.keys.iter().map(pubkey).collect();
        if self.multi() {
            Box::new(t::SpendingConditionMultiSig::new(pks, self.fee, self.nonce, self.required, lib_mode(self.mode)))
        } else {
            Box::new(t::SpendingConditionStandard::new(pks[0], self.fee, self.nonce, lib_mode(self.mode)))
        }
    }
}

pub fn lib_mode(m: u8) -> Mode {
    match m {
        0 => Mode::P2PKH,
        1 => Mode::P2SH,
        2 => Mode::P2WPKH,
        _ => Mode::P2WSH,
    }
}

pub fn lib_asset(a: &Asset) -> t::AssetInfo {
    t::AssetInfo::new(a.addr.clone(), a.contract.clone(), a.name.clone())
}

/// Builds a library value of the concrete type and hands it to `$f`.
#[macro_export]
macro_rules! with_lib_value {
    ($v:expr, $x:ident => $body:expr) => {
        match $v {
            $crate::model::V::Int(i) => { let $x = stacks_rs::clarity::Int::new(*i); $body }
            $crate::model::V::UInt(i) => { let $x = stacks_rs::clarity::UInt::new(*i); $body }
            $crate::model::V::Buf(b) => { let $x = stacks_rs::clarity::Buffer::new(b.clone()); $body }
            $crate::model::V::True => { let $x = stacks_rs::clarity::True::new(); $body }
            $crate::model::V::False => { let $x = stacks_rs::clarity::False::new(); $body }
            $crate::model::V::Std(a) => { let $x = stacks_rs::clarity::PrincipalStandard::new(a.clone()); $body }
            $crate::model::V::Con(a, n) => { let $x = stacks_rs::clarity::PrincipalContract::new((a.clone(), n.clone())); $body }
            $crate::model::V::Ok(y) => { let $x = stacks_rs::clarity::ResponseOk::new($crate::model::to_lib(y, 0)); $body }
            $crate::model::V::Err(y) => { let $x = stacks_rs::clarity::ResponseErr::new($crate::model::to_lib(y, 0)); $body }
            $crate::model::V::None => { let $x = stacks_rs::clarity::OptionalNone::new(); $body }
            $crate::model::V::Some(y) => { let $x = stacks_rs::clarity::OptionalSome::new($crate::model::to_lib(y, 0)); $body }
            $crate::model::V::List(y) => { let $x = stacks_rs::clarity::List::new(y.iter().map(|z| $crate::model::to_lib(z, 0)).collect()); $body }
            $crate::model::V::Tuple(_) => { let $x = $crate::model::lib_tuple($v, 0); $body }
            $crate::model::V::Ascii(y) => { let $x = stacks_rs::clarity::StringAscii::new(y.clone()); $body }
            $crate::model::V::Utf8(y) => { let $x = stacks_rs::clarity::StringUtf8::new(y.clone()); $body }
            $crate::model::V::Name(y) => { let $x = stacks_rs::clarity::LengthPrefixedStr::new(y.clone()); $body }
            $crate::model::V::Args(y) => { let $x = $crate::model::lib_args(y, 0); $body }
        }
    };
}

/// `how` selects constructor or macro.
pub fn lib_pc(p: &Pc, how: bool) -> Box<dyn t::Condition> {
    use stacks_rs::post_condition;
    match p {
        Pc::Stx { who, amount, code } => with_lib_value!(who, w => if how {
            post_condition!(STXCondition, w, *amount, lib_code(*code))
        } else {
            Box::new(t::STXPostCondition::new(w, *amount, lib_code(*code))) as Box<dyn t::Condition>
        }),
        Pc::Ft { who, amount, code, asset } => with_lib_value!(who, w => if how {
            post_condition!(FungibleCondition, w, *amount, lib_code(*code), lib_asset(asset))
        } else {
            Box::new(t::FungiblePostCondition::new(w, *amount, lib_code(*code), lib_asset(asset))) as Box<dyn t::Condition>
        }),
        Pc::Nft { who, value, code, asset } => {
            // keep the instantiations few: only principals vary in type here
            match who {
                V::Std(a) => lib_nft(cl::PrincipalStandard::new(a.clone()), value, *code, asset, how),
                V::Con(a, n) => {
                    lib_nft(cl::PrincipalContract::new((a.clone(), n.clone())), value, *code, asset, how)
                }
                V::Utf8(x) => lib_nft(cl::StringUtf8::new(x.clone()), value, *code, asset, how),
                V::Buf(x) => lib_nft(cl::Buffer::new(x.clone()), value, *code, asset, how),
                _ => lib_nft(cl::UInt::new(1), value, *code, asset, how),
            }
        }
    }
}

fn lib_nft<W: cl::Clarity>(w: W, value: &V, code: u8, asset: &Asset, how: bool) -> Box<dyn t::Condition> {
    use stacks_rs::post_condition;
    with_lib_value!(value, v => if how {
        post_condition!(NonFungibleCondition, w, v, lib_code(code), lib_asset(asset))
    } else {
        Box::new(t::NonFungiblePostCondition::new(w, v, lib_code(code), lib_asset(asset))) as Box<dyn t::Condition>
    })
}

pub fn lib_pcs(p: &[Pc], how: bool) -> t::PostConditions {
    t::PostConditions::new(p.iter().map(|x| lib_pc(x, how)).collect())
}

pub fn lib_transfer(p: &Pay) -> Option<t::TokenTransferPayload> {
    match p {
        Pay::Transfer { to, amount, memo } => {
            let memo = String::from_utf8(memo.clone()).ok()?;
            Some(with_lib_value!(to, w => t::TokenTransferPayload::new(w, *amount, memo)))
        }
        _ => None,
    }
}

pub fn lib_call(p: &Pay) -> Option<t::ContractCallPayload> {
    match p {
        Pay::Call { ver, hash, contract, func, args } => Some(t::ContractCallPayload::new(
            stacks_rs::crypto::c32::Address::new((*hash).into(), *ver),
            contract.clone(),
            func.clone(),
            lib_args(args, 0),
        )),
        _ => None,
    }
}

pub fn lib_pay(p: &Pay) -> Box<dyn t::Payload> {
    match p {
        Pay::Transfer { .. } => Box::new(lib_transfer(p).unwrap_or_else(|| panic!("harness: memo"))),
        Pay::Call { .. } => Box::new(lib_call(p).unwrap_or_else(|| panic!("harness: call"))),
    }
}

pub fn lib_anchor(a: u8) -> t::AnchorMode {
    match a {
        1 => t::AnchorMode::Strict,
        2 => t::AnchorMode::Micro,
        _ => t::AnchorMode::Any,
    }
}

pub fn lib_pc_mode(a: u8) -> t::PostConditionMode {
    if a == 1 {
        t::PostConditionMode::Allow
    } else {
        t::PostConditionMode::Deny
    }
}

/// A model transaction and its parties, everything unsigned.
#[derive(Debug, Clone)]
pub struct Case {
    pub tx: Tx,
    pub origin: Party,
    pub sponsor: Option<Party>,
}

/// Contents around and beyond 64 kB, in the payload or in the conditions.
pub fn big(s: &mut Src, pay: Pay, mut pcs: Vec<Pc>) -> (Pay, Vec<Pc>) {
    let n = *s.pick(&[32_768usize, 65_400, 65_536, 70_000, 131_072, 200_000]) + s.below(300);
    let mut b = vec![s.u8(); n];
    for _ in 0..8 {
        let i = s.below(n);
        b[i] = s.u8();
    }
    b[n - 1] = s.u8();
    if s.below(4) == 0 {
        let p = gen_pc(s);
        let each = encode_pcs(std::slice::from_ref(&p)).map_or(60, |b| b.len()).max(30);
        pcs = vec![p; n.min(80_000) / each];
        pcs.push(gen_pc(s));
        return (pay, pcs);
    }
    let (ver, hash) = (*s.pick(&VERSIONS), s.hash20());
    let (contract, func) = (gen::name(s, 20), gen::name(s, 20));
    (Pay::Call { ver, hash, contract, func, args: vec![V::Buf(b), gen::principal(s)] }, pcs)
}

pub fn gen_case(s: &mut Src, sponsored: bool) -> Case {
    let origin = Party::gen(s);
    let sponsor = if sponsored {
        let mut p = if s.one_in(10) { origin.clone() } else { Party::gen(s) };
        if s.one_in(12) {
            (p.fee, p.nonce) = (origin.fee, origin.nonce);
        }
        Some(p)
    } else {
        None
    };
    let main = s.bool();
    let mut pay = gen_pay(s);
    let mut pcs = if s.bool() { vec![] } else { gen_pcs(s) };
    // signing workloads hash the contents often: keep them moderate
    let most = if s.one_in(100) { 200_000 } else { 6000 };
    if pay.encode().map_or(0, |b| b.len()) > most {
        pay = Pay::Transfer { to: gen::principal(s), amount: s.u64(), memo: vec![] };
    }
    if encode_pcs(&pcs).map_or(0, |b| b.len()) > most {
        pcs.clear();
    }
    if s.one_in(80) {
        (pay, pcs) = big(s, pay, pcs);
    }
    let mixed = s.one_in(8);
    let tx = Tx {
        version: if main { 0x00 } else { 0x80 },
        chain: if main != mixed { 1 } else { 0x8000_0000 },
        origin: origin.cond(),
        sponsor: sponsor.as_ref().map(Party::cond),
        anchor: s.range(1, 3) as u8,
        pc_mode: s.range(1, 2) as u8,
        pcs,
        payload: pay,
    };
    Case { tx, origin, sponsor }
}

/// The library transaction with unsigned conditions.
pub fn lib_tx(c: &Case, how: bool) -> t::Transaction {
    let o = c.origin.lib_cond();
    let auth = match &c.sponsor {
        None => t::Auth::Standard(o),
        Some(p) => t::Auth::Sponsored(o, p.lib_cond()),
    };
    let v = if c.tx.version == 0 { t::TransactionVersion::Mainnet } else { t::TransactionVersion::Testnet };
    let id = if c.tx.chain == 1 { t::ChainID::Mainnet } else { t::ChainID::Testnet };
    t::Transaction::new(
        v,
        id,
        auth,
        lib_anchor(c.tx.anchor),
        lib_pc_mode(c.tx.pc_mode),
        lib_pcs(&c.tx.pcs, how),
        lib_pay(&c.tx.payload),
    )
}
