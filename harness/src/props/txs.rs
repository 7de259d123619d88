//! C10..C15: payloads, post-conditions, built transactions, signing sessions
//! and verification.

use secp256k1::{PublicKey, SecretKey};
use stacks_rs::clarity as cl;
use stacks_rs::clarity::Codec;
use stacks_rs::crypto as lc;
use stacks_rs::transaction as t;
use stacks_rs::transaction::SpendingCondition;

use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::oracle::*;
use crate::src::*;
use crate::tx::*;

fn opt(v: Option<Vec<u8>>) -> Result<Vec<u8>, Violation> {
    // generators stay within the limits: a None here is a harness mistake
    Ok(v.unwrap_or_else(|| panic!("harness: model cannot encode")))
}

fn trim_nul(b: &[u8]) -> &[u8] {
    let n = b.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    &b[..n]
}

// ---- C10 -------------------------------------------------------------------

fn same_transfer(l: &t::TokenTransferPayload, p: &Pay) -> Res {
    let Pay::Transfer { to, amount, memo } = p else { return bad("not a transfer") };
    eq("decoded recipient", &from_lib(l.address.as_ref()), &Some(to.clone()))?;
    eq("decoded amount", &l.amount, amount)?;
    eqb("decoded memo", trim_nul(l.memo.as_bytes()), trim_nul(memo))
}

fn same_call(l: &t::ContractCallPayload, p: &Pay) -> Res {
    let Pay::Call { ver, hash, contract, func, args } = p else { return bad("not a call") };
    eq("decoded contract version", &l.address.version, ver)?;
    eqb("decoded contract address", l.address.hash.as_bytes(), hash)?;
    eq("decoded contract name", l.contract.value(), contract)?;
    eq("decoded function name", l.name.value(), func)?;
    eq("decoded arguments", &from_lib(&l.args), &Some(V::Args(args.clone())))
}

/// Every payload decoder on one input.
fn payload_input(b: &[u8], o: &mut Obs) -> Res {
    let want = parse_payload(b).filter(|(p, _)| match p {
        Pay::Transfer { memo, .. } => std::str::from_utf8(memo).is_ok(),
        Pay::Call { ver, .. } => VERSIONS.contains(ver),
    });
    crate::alloc::begin();
    let any = <Box<dyn t::Payload>>::decode(b);
    let tr = t::TokenTransferPayload::decode(b);
    let ca = t::ContractCallPayload::decode(b);
    let peak = crate::alloc::largest();
    ensure(peak <= 400 * b.len() + (1 << 16), || {
        format!("decoding {} bytes requested {peak} bytes at once", b.len())
    })?;
    o.evn("decoder_calls", 3);
    let prefix = |what: &str, r: Result<Vec<u8>, cl::Error>| -> Res {
        let e = must(&format!("{what}: decoded payload does not serialize"), r)?;
        ensure(b.starts_with(&e), || {
            format!("{what}: decoded from {} but serializes to {}", clip(&hex(b), 400), clip(&hex(&e), 400))
        })?;
        if let Some((_, n)) = &want {
            eq(&format!("{what}: serialized length"), &e.len(), n)?;
        }
        Ok(())
    };
    if let Ok(p) = &any {
        prefix("self-describing decode", p.encode())?;
        o.ev("accepted");
    } else {
        o.ev("rejected");
    }
    if let Ok(p) = &tr {
        prefix("token-transfer decode", p.encode())?;
    }
    if let Ok(p) = &ca {
        prefix("contract-call decode", p.encode())?;
    }
    match &want {
        Some((p @ Pay::Transfer { .. }, _)) => {
            must("self-describing decode of a transfer", any.map(|_| ()))?;
            same_transfer(&must("decode of a transfer", tr)?, p)?;
            must_err("contract-call decode of a transfer", ca.map(|_| ()))?;
        }
        Some((p @ Pay::Call { .. }, _)) => {
            must("self-describing decode of a call", any.map(|_| ()))?;
            same_call(&must("decode of a call", ca)?, p)?;
            must_err("token-transfer decode of a call", tr.map(|_| ()))?;
        }
        None => {}
    }
    Ok(())
}

pub fn c10(s: &mut Src, o: &mut Obs) -> Res {
    if s.is_fuzz() && s.bool() {
        let b = s.rest();
        o.case(&b);
        o.ev("raw_inputs");
        return payload_input(&b, o);
    }
    let p = gen_pay(s);
    o.case(&p);
    let want = opt(p.encode())?;
    let lib = lib_pay(&p);
    o.ev(if matches!(p, Pay::Transfer { .. }) { "transfers" } else { "calls" });
    let got = must("encode", lib.encode())?;
    eqb("payload encode", &got, &want)?;
    eq("payload len", &must("len", lib.len())?, &want.len())?;
    eq("payload hex", &must("hex", lib.hex())?, &hex(&want))?;
    eqb("cloned payload encode", &must("encode", lib.clone().encode())?, &want)?;
    match &p {
        Pay::Transfer { .. } => {
            let l = lib_transfer(&p).unwrap_or_else(|| panic!("harness"));
            eqb("transfer encode", &must("encode", l.encode())?, &want)?;
            same_transfer(&must("decode", t::TokenTransferPayload::decode(&want))?, &p)?;
        }
        Pay::Call { .. } => {
            let l = lib_call(&p).unwrap_or_else(|| panic!("harness"));
            eqb("call encode", &must("encode", l.encode())?, &want)?;
            let d = must("decode", t::ContractCallPayload::decode(&want))?;
            same_call(&d, &p)?;
            ensure(d == l, || "decoded call differs from the encoded one".into())?;
        }
    }
    let any = must("self-describing decode", <Box<dyn t::Payload>>::decode(&want))?;
    eqb("re-encode", &must("encode", any.encode())?, &want)?;
    payload_input(&want, o)?;
    // followed by unrelated bytes
    let mut tail = want.clone();
    let n = s.range(1, 40);
    tail.extend(s.bytes(n));
    payload_input(&tail, o)?;
    o.ev("with_trailing_bytes");
    // short inputs of any kind
    for _ in 0..2 {
        let most = if s.bool() { 4 } else { 70 };
        let n = s.below(most);
        let mut b = s.bytes(n);
        if let (Some(x), true) = (b.first_mut(), s.bool()) {
            *x = s.below(8) as u8;
        }
        o.ev("short_inputs");
        payload_input(&b, o)?;
    }
    // damaged
    if want.len() < 4000 {
        for _ in 0..3 {
            let mut b = want.clone();
            gen::corrupt(s, &mut b);
            o.ev("damaged");
            payload_input(&b, o)?;
        }
        if s.one_in(8) && want.len() < 400 {
            for k in 0..want.len() {
                payload_input(&want[..k], o)?;
            }
            o.ev("truncation_sweeps");
        } else {
            let k = s.below(want.len());
            payload_input(&want[..k], o)?;
        }
    }
    o.sample(|| format!("{} -> {}", show(&p), clip(&hex(&want), 300)));
    Ok(())
}

// ---- C11 -------------------------------------------------------------------

/// A value that is no principal.
fn no_principal(s: &mut Src) -> V {
    loop {
        let v = match s.below(8) {
            0 => V::Ascii(gen::addr(s)),
            1 => V::Utf8(gen::addr(s)),
            2 => V::Buf(s.bytes(21)),
            3 => V::Some(Box::new(gen::principal(s))),
            4 => V::Ok(Box::new(gen::principal(s))),
            5 => V::Name(gen::addr(s)),
            6 => V::List(vec![gen::principal(s)]),
            _ => gen::value(s, 2),
        };
        if !matches!(v, V::Std(_) | V::Con(..)) && v.weight() < 5000 {
            return v;
        }
    }
}

/// The macro with a literal list of conditions.
fn macro_list(ps: &[Pc]) -> Option<t::PostConditions> {
    use stacks_rs::post_condition;
    let std_of = |v: &V| match v {
        V::Std(a) => Some(cl::PrincipalStandard::new(a.clone())),
        _ => None,
    };
    let con_of = |v: &V| match v {
        V::Con(a, n) => Some(cl::PrincipalContract::new((a.clone(), n.clone()))),
        _ => None,
    };
    match ps {
        [] => Some(post_condition!()),
        [Pc::Stx { who, amount, code }] => {
            let w = std_of(who)?;
            Some(post_condition!((STXCondition, w, *amount, lib_code(*code))))
        }
        [Pc::Ft { who, amount, code, asset }] => {
            let w = con_of(who)?;
            Some(post_condition!((FungibleCondition, w, *amount, lib_code(*code), lib_asset(asset)),))
        }
        [Pc::Stx { who, amount, code }, Pc::Nft { who: w2, value: V::UInt(u), code: c2, asset: a2 }] => {
            let w = con_of(who)?;
            let w2 = std_of(w2)?;
            Some(post_condition!(
                (STXCondition, w, *amount, lib_code(*code)),
                (NonFungibleCondition, w2, cl::UInt::new(*u), lib_code(*c2), lib_asset(a2)),
            ))
        }
        [Pc::Nft { who: w0, value: V::Ascii(u), code: c0, asset: a0 }, Pc::Ft { who: w1, amount: m1, code: c1, asset: a1 }, Pc::Stx { who: w2, amount: m2, code: c2 }] =>
        {
            let w0 = con_of(w0)?;
            let w1 = std_of(w1)?;
            let w2 = std_of(w2)?;
            Some(post_condition!(
                (NonFungibleCondition, w0, cl::StringAscii::new(u.clone()), lib_code(*c0), lib_asset(a0)),
                (FungibleCondition, w1, *m1, lib_code(*c1), lib_asset(a1)),
                (STXCondition, w2, *m2, lib_code(*c2))
            ))
        }
        _ => None,
    }
}

fn macro_case(s: &mut Src) -> Vec<Pc> {
    let std = |s: &mut Src| V::Std(gen::addr(s));
    let con = |s: &mut Src| V::Con(gen::addr(s), gen::name(s, 128));
    let code = |s: &mut Src| *s.pick(&CODES);
    match s.below(5) {
        0 => vec![],
        1 => vec![Pc::Stx { who: std(s), amount: s.u64(), code: code(s) }],
        2 => vec![Pc::Ft { who: con(s), amount: s.u64(), code: code(s), asset: gen_asset(s) }],
        3 => vec![
            Pc::Stx { who: con(s), amount: s.u64(), code: code(s) },
            Pc::Nft { who: std(s), value: V::UInt(s.u128()), code: code(s), asset: gen_asset(s) },
        ],
        _ => {
            let n = s.len(40);
            vec![
                Pc::Nft { who: con(s), value: V::Ascii(gen::ascii(s, n)), code: code(s), asset: gen_asset(s) },
                Pc::Ft { who: std(s), amount: s.u64(), code: code(s), asset: gen_asset(s) },
                Pc::Stx { who: std(s), amount: s.u64(), code: code(s) },
            ]
        }
    }
}

pub fn c11(s: &mut Src, o: &mut Obs) -> Res {
    if s.one_in(6) {
        let ps = macro_case(s);
        o.case(&ps);
        o.ev("macro_lists");
        let want = opt(encode_pcs(&ps))?;
        let l = macro_list(&ps).unwrap_or_else(|| panic!("harness: macro shape"));
        eqb("post_condition!(list)", &must("encode", l.encode())?, &want)?;
    }
    // very many conditions
    if s.big > 5000 && !s.is_fuzz() && s.one_in(2500) {
        let few: Vec<Pc> = (0..s.range(1, 3)).map(|_| gen_pc(s)).collect();
        let n = match s.below(4) {
            0 => s.large(&[4095, 4096, 4097, 10_000, 32_768]),
            1 => s.range(65_000, 66_000),
            _ => *s.pick(&[65_535, 65_536, 65_537, 70_000, 131_073]),
        };
        let n = n.min(if opt(encode_pcs(&few))?.len() > 600 { 5000 } else { 140_000 });
        o.case(&(&few, n));
        let ps: Vec<Pc> = few.iter().cycle().take(n).cloned().collect();
        let want = opt(encode_pcs(&ps))?;
        let l = lib_pcs(&ps, s.bool());
        eqb(&format!("{n} post-conditions"), &must("encode", l.encode())?, &want)?;
        o.ev("wide_sets");
        o.evn("conditions", n as u64);
        return Ok(());
    }
    let mut ps = gen_pcs(s);
    if ps.is_empty() && s.bool() {
        ps.push(gen_pc(s));
    }
    o.case(&ps);
    let how = s.bool();
    let want = opt(encode_pcs(&ps))?;
    let l = lib_pcs(&ps, how);
    for (i, p) in ps.iter().enumerate() {
        o.ev(match p {
            Pc::Stx { who: V::Std(_), .. } => "stx_standard",
            Pc::Stx { .. } => "stx_contract",
            Pc::Ft { who: V::Std(_), .. } => "ft_standard",
            Pc::Ft { .. } => "ft_contract",
            Pc::Nft { who: V::Std(_), .. } => "nft_standard",
            Pc::Nft { .. } => "nft_contract",
        });
        let w = opt(p.encode())?;
        for h in [how, !how] {
            let c = lib_pc(p, h);
            eqb(&format!("condition {i}: {}", show(p)), &must("encode", c.encode())?, &w)?;
            eqb("cloned condition", &must("encode", c.clone().encode())?, &w)?;
        }
        let c = lib_pc(p, how);
        eq("condition len", &must("len", c.len())?, &w.len())?;
        eq("condition hex", &must("hex", c.hex())?, &hex(&w))?;
        if let Pc::Ft { asset, .. } | Pc::Nft { asset, .. } = p {
            let mut a = V::Std(asset.addr.clone()).encode().unwrap_or_default();
            a.remove(0);
            a.extend(opt(V::Name(asset.contract.clone()).encode())?);
            a.extend(opt(V::Name(asset.name.clone()).encode())?);
            eqb("asset", &must("encode", lib_asset(asset).encode())?, &a)?;
        }
    }
    let got = must("encode", l.encode())?;
    eqb("post-conditions", &got, &want)?;
    eq("read back by the oracle", &parse_pcs(&got), &Some((ps.clone(), want.len())))?;
    eq("post-conditions len", &must("len", l.len())?, &want.len())?;
    eq("post-conditions hex", &must("hex", l.hex())?, &hex(&want))?;
    eqb("cloned post-conditions", &must("encode", l.clone().encode())?, &want)?;
    let each: Result<Vec<Vec<u8>>, _> = l.into_iter().map(|c| c.encode()).collect();
    let flat = must("encode", each)?.concat();
    eqb("iterated post-conditions", &flat, &want[4..])?;
    o.evn("conditions", ps.len() as u64);
    if ps.is_empty() {
        o.ev("empty_sets");
        eqb("default post-conditions", &must("encode", t::PostConditions::default().encode())?, &want)?;
    }
    // anything but a principal
    let who = no_principal(s);
    let mut p = gen_pc(s);
    match &mut p {
        Pc::Stx { who: w, .. } | Pc::Ft { who: w, .. } | Pc::Nft { who: w, .. } => *w = who,
    }
    must_err(&format!("condition on {}", show(&p)), lib_pc(&p, how).encode())?;
    let i = s.below(ps.len() + 1);
    ps.insert(i, p);
    must_err("set with a condition on no principal", lib_pcs(&ps, !how).encode())?;
    o.ev("no_principal_refused");
    o.sample(|| format!("{} conditions -> {}", ps.len() - 1, clip(&hex(&want), 300)));
    Ok(())
}

// ---- C12 -------------------------------------------------------------------

/// A network of the caller's own.
#[derive(Debug, Clone, Copy)]
pub struct Custom {
    pub v: t::TransactionVersion,
    pub c: t::ChainID,
}

impl t::Network for Custom {
    fn version(&self) -> t::TransactionVersion {
        self.v
    }
    fn chain_id(&self) -> t::ChainID {
        self.c
    }
    fn base_url(&self) -> String {
        "http://127.0.0.1:1".into()
    }
}

/// Everything a caller can ask of a builder.
#[derive(Debug, Clone)]
pub struct Ask {
    pub key: SecretKey,
    pub fee: u64,
    pub nonce: u64,
    pub anchor: u8,
    pub pc_mode: u8,
    pub pcs: Vec<Pc>,
    pub pay: Pay,
    pub spell: bool,
}

/// Which optional inputs are given: all, none, all but one, only one.
pub const VARIANTS: usize = 14;

fn build_transfer<T: cl::Clarity, N: t::Network>(a: &Ask, variant: usize, to: T, n: N) -> (t::Transaction, u8) {
    let Pay::Transfer { amount, memo, .. } = &a.pay else { panic!("harness: transfer") };
    let memo = String::from_utf8(memo.clone()).unwrap_or_else(|_| panic!("harness: memo"));
    let pcs = lib_pcs(&a.pcs, a.spell);
    let (am, pm) = (lib_anchor(a.anchor), lib_pc_mode(a.pc_mode));
    let b = t::STXTokenTransfer::builder().recipient(to).amount(*amount).sender(a.key).network(n);
    // bit set: given. order: fee nonce anchor memo pc_mode pcs
    match variant {
        0 => (
            b.fee(a.fee)
                .nonce(a.nonce)
                .anchor_mode(am)
                .memo(memo)
                .post_condition_mode(pm)
                .post_conditions(pcs)
                .sponsored(false)
                .build()
                .transaction(),
            0b111111,
        ),
        1 => (b.build().transaction(), 0),
        2 => (b.fee(a.fee).build().transaction(), 0b000001),
        3 => (b.nonce(a.nonce).build().transaction(), 0b000010),
        4 => (b.anchor_mode(am).build().transaction(), 0b000100),
        5 => (b.memo(memo.as_str()).build().transaction(), 0b001000),
        6 => (b.post_condition_mode(pm).build().transaction(), 0b010000),
        7 => (b.post_conditions(pcs).build().transaction(), 0b100000),
        8 => (
            b.post_conditions(pcs).post_condition_mode(pm).memo(memo).anchor_mode(am).nonce(a.nonce).build().transaction(),
            0b111110,
        ),
        9 => (
            b.post_conditions(pcs).post_condition_mode(pm).memo(memo).anchor_mode(am).fee(a.fee).build().transaction(),
            0b111101,
        ),
        10 => (
            b.post_conditions(pcs).post_condition_mode(pm).memo(memo).nonce(a.nonce).fee(a.fee).build().transaction(),
            0b111011,
        ),
        11 => (
            b.fee(a.fee).nonce(a.nonce).anchor_mode(am).post_condition_mode(pm).post_conditions(pcs).build().transaction(),
            0b110111,
        ),
        12 => (
            b.fee(a.fee).nonce(a.nonce).anchor_mode(am).memo(memo).post_conditions(pcs).build().transaction(),
            0b101111,
        ),
        _ => (
            b.fee(a.fee).nonce(a.nonce).anchor_mode(am).memo(memo).post_condition_mode(pm).build().transaction(),
            0b011111,
        ),
    }
}

fn build_call<N: t::Network>(a: &Ask, variant: usize, n: N) -> Result<(t::Transaction, u8), Violation> {
    let Pay::Call { ver, hash, contract, func, args } = &a.pay else { panic!("harness: call") };
    let pcs = lib_pcs(&a.pcs, a.spell);
    let (am, pm) = (lib_anchor(a.anchor), lib_pc_mode(a.pc_mode));
    let b = t::STXContractCall::builder()
        .address(address(*ver, hash))
        .contract(contract.clone())
        .fn_name(func.as_str())
        .fn_args(lib_args(args, 0))
        .sender(a.key)
        .network(n);
    let (r, m) = match variant {
        0 => (
            b.fee(a.fee)
                .nonce(a.nonce)
                .anchor_mode(am)
                .post_condition_mode(pm)
                .post_conditions(pcs)
                .sponsored(false)
                .build()
                .transaction(),
            0b110111,
        ),
        1 | 5 => (b.build().transaction(), 0),
        2 => (b.fee(a.fee).build().transaction(), 0b000001),
        3 => (b.nonce(a.nonce).build().transaction(), 0b000010),
        4 => (b.anchor_mode(am).build().transaction(), 0b000100),
        6 => (b.post_condition_mode(pm).build().transaction(), 0b010000),
        7 => (b.post_conditions(pcs).build().transaction(), 0b100000),
        8 => (
            b.post_conditions(pcs).post_condition_mode(pm).anchor_mode(am).nonce(a.nonce).build().transaction(),
            0b110110,
        ),
        9 => (
            b.post_conditions(pcs).post_condition_mode(pm).anchor_mode(am).fee(a.fee).build().transaction(),
            0b110101,
        ),
        10 => (
            b.post_conditions(pcs).post_condition_mode(pm).nonce(a.nonce).fee(a.fee).build().transaction(),
            0b110011,
        ),
        11 | 12 => (
            b.fee(a.fee).nonce(a.nonce).anchor_mode(am).post_conditions(pcs).build().transaction(),
            0b100111,
        ),
        _ => (
            b.fee(a.fee).nonce(a.nonce).anchor_mode(am).post_condition_mode(pm).build().transaction(),
            0b010111,
        ),
    };
    Ok((must("contract call builder", r)?, m))
}

fn build_on<N: t::Network>(a: &Ask, variant: usize, n: N) -> Result<(t::Transaction, u8), Violation> {
    match &a.pay {
        Pay::Transfer { to: V::Std(x), .. } => {
            Ok(build_transfer(a, variant, cl::PrincipalStandard::new(x.clone()), n))
        }
        Pay::Transfer { to: V::Con(x, c), .. } => {
            Ok(build_transfer(a, variant, cl::PrincipalContract::new((x.clone(), c.clone())), n))
        }
        Pay::Call { .. } => build_call(a, variant, n),
        Pay::Transfer { .. } => panic!("harness: recipient"),
    }
}

/// Network number to (library transaction, given mask, version, chain).
pub fn build(a: &Ask, variant: usize, net: usize) -> Result<(t::Transaction, Tx), Violation> {
    use t::{ChainID as C, TransactionVersion as W};
    let ((l, m), version, chain) = match net {
        0 => (build_on(a, variant, t::StacksMainnet::new())?, 0x00, 1),
        1 => (build_on(a, variant, t::StacksTestnet::new())?, 0x80, 0x8000_0000),
        2 => (build_on(a, variant, t::StacksMocknet::new())?, 0x80, 0x8000_0000),
        3 => (build_on(a, variant, t::StacksMainnet::default())?, 0x00, 1),
        4 => (build_on(a, variant, Custom { v: W::Mainnet, c: C::Testnet })?, 0x00, 0x8000_0000),
        _ => (build_on(a, variant, Custom { v: W::Testnet, c: C::Mainnet })?, 0x80, 1),
    };
    let given = |b: u8| m & (1 << b) != 0;
    let mut pay = a.pay.clone();
    if let Pay::Transfer { memo, .. } = &mut pay {
        if !given(3) {
            memo.clear();
        }
        memo.resize(34, 0);
    }
    let pk = pubkey(&a.key).serialize();
    let want = Tx {
        version,
        chain,
        origin: Cond::Single {
            mode: 0,
            signer: p2pkh(&pk),
            nonce: if given(1) { a.nonce } else { 0 },
            fee: if given(0) { a.fee } else { 0 },
            sig: [0; 65],
        },
        sponsor: None,
        anchor: if given(2) { a.anchor } else { 3 },
        pc_mode: if given(4) { a.pc_mode } else { 1 },
        pcs: if given(5) { a.pcs.clone() } else { vec![] },
        payload: pay,
    };
    Ok((l, want))
}

pub fn gen_ask(s: &mut Src) -> Ask {
    let mut a = Ask {
        key: gen_key(s),
        fee: s.u64(),
        nonce: s.u64(),
        anchor: s.range(1, 3) as u8,
        pc_mode: s.range(1, 2) as u8,
        pcs: gen_pcs(s),
        pay: gen_pay(s),
        spell: s.bool(),
    };
    if encode_pcs(&a.pcs).map_or(0, |b| b.len()) > 20_000 {
        a.pcs.truncate(1);
    }
    a
}

pub fn c12(s: &mut Src, o: &mut Obs) -> Res {
    let a = gen_ask(s);
    let net = s.below(6);
    let variant = if s.bool() { 0 } else { s.below(VARIANTS) };
    let (mut l, mut want) = build(&a, variant, net)?;
    o.case(&(&want, net, variant));
    o.ev(["mainnet", "testnet", "mocknet", "mainnet_default", "custom_a", "custom_b"][net]);
    o.ev(if variant == 0 { "all_inputs_given" } else { "defaults_used" });
    o.ev(if matches!(a.pay, Pay::Call { .. }) { "calls" } else { "transfers" });
    let check = |l: &t::Transaction, want: &Tx, what: &str| -> Res {
        let b = must("encode", l.encode())?;
        let w = opt(want.encode())?;
        match parse_tx(&b) {
            Some(p) => eq(&format!("{what}: transaction read by the oracle"), &p, want)?,
            None => return bad(format!("{what}: serialization is no SIP-005 transaction: {}", clip(&hex(&b), 500))),
        }
        eqb(&format!("{what}: serialization"), &b, &w)?;
        eqb(&format!("{what}: hash"), must("hash", l.hash())?.as_bytes(), &sha512_256(&w))?;
        eq(&format!("{what}: len"), &must("len", l.len())?, &w.len())?;
        eq(&format!("{what}: hex"), &must("hex", l.hex())?, &hex(&w))
    };
    check(&l, &want, "built")?;
    // what the object itself says
    eq("auth.is_standard", &(l.auth.is_standard(), l.auth.is_sponsored()), &(true, false))?;
    let orig = l.clone();
    let before = want.clone();
    for _ in 0..s.range(1, 4) {
        if s.bool() {
            let f = s.u64();
            l.set_fee(f);
            want.origin.set_fee(f);
            o.ev("set_fee");
            check(&l, &want, "after set_fee")?;
        } else {
            let n = s.u64();
            l.set_nonce(n);
            want.origin.set_nonce(n);
            o.ev("set_nonce");
            check(&l, &want, "after set_nonce")?;
        }
    }
    check(&orig, &before, "clone taken before the changes")?;
    if s.one_in(3) {
        // assembled, with any authorization
        let sponsored = s.below(3) != 0;
        let mut c = gen_case(s, sponsored);
        if let Pay::Transfer { memo, .. } = &mut c.tx.payload {
            memo.resize(34, 0);
        }
        let mut x = lib_tx(&c, s.bool());
        let mut m = c.tx.clone();
        check(&x, &m, "assembled")?;
        if s.bool() {
            // with signatures and keys already in it
            super::rpc::fields(s, &mut m.origin, x.auth.origin_mut());
            if let (Some(q), Ok(l)) = (&mut m.sponsor, x.auth.sponsor_mut()) {
                super::rpc::fields(s, q, l);
            }
            check(&x, &m, "assembled, with fields")?;
            o.ev("assembled_with_fields");
        }
        eq("auth kind", &(x.auth.is_standard(), x.auth.is_sponsored()), &(!sponsored, sponsored))?;
        for _ in 0..s.range(1, 4) {
            let v = s.u64();
            match s.below(6) {
                0 => {
                    x.set_fee(v);
                    m.origin.set_fee(v);
                }
                1 => {
                    x.set_nonce(v);
                    m.origin.set_nonce(v);
                }
                2 => {
                    x.auth.origin_mut().set_fee(v);
                    m.origin.set_fee(v);
                }
                3 => {
                    x.auth.origin_mut().set_nonce(v);
                    m.origin.set_nonce(v);
                }
                k => match (&mut m.sponsor, x.auth.sponsor_mut()) {
                    (Some(q), Ok(l)) if k == 4 => {
                        l.set_fee(v);
                        q.set_fee(v);
                    }
                    (Some(q), Ok(l)) => {
                        l.set_nonce(v);
                        q.set_nonce(v);
                    }
                    (None, Err(_)) => {}
                    (q, l) => return bad(format!("sponsor_mut ok is {} with sponsor {}", l.is_ok(), q.is_some())),
                },
            }
            check(&x, &m, "assembled, after a change of fee or nonce")?;
            eq("origin", &(x.auth.origin().fee(), x.auth.origin().nonce()), &(m.origin.fee(), m.origin.nonce()))?;
            match (x.auth.sponsor(), &m.sponsor) {
                (Ok(a), Some(b)) => eq("sponsor", &(a.fee(), a.nonce()), &(b.fee(), b.nonce()))?,
                (Err(_), None) => {}
                (a, _) => return bad(format!("sponsor() ok is {}", a.is_ok())),
            }
        }
        if let Some(p) = &c.sponsor {
            // another sponsor takes the place
            let mut q = if s.bool() { Party::gen(s) } else { p.clone() };
            q.fee = s.u64();
            must("set_sponsor", x.auth.set_sponsor(q.lib_cond()))?;
            m.sponsor = Some(q.cond());
            check(&x, &m, "assembled, after set_sponsor")?;
        } else {
            must_err("set_sponsor on a standard authorization", x.auth.set_sponsor(Party::gen(s).lib_cond()))?;
            check(&x, &m, "assembled, after a refused set_sponsor")?;
        }
        o.ev(if sponsored { "assembled_sponsored" } else { "assembled_standard" });
    }
    if s.one_in(4) {
        // a signed transaction too
        let signed = must("sign", l.sign(a.key))?;
        let mut m = parse_tx(&must("encode", signed.encode())?).ok_or(Violation("signed: unreadable".into()))?;
        let mut x = signed;
        check(&x, &m, "signed")?;
        let f = s.u64();
        x.set_fee(f);
        m.origin.set_fee(f);
        let n = s.u64();
        x.set_nonce(n);
        m.origin.set_nonce(n);
        check(&x, &m, "signed, after set_fee and set_nonce")?;
        o.ev("changed_after_signing");
    }
    o.sample(|| format!("variant {variant} net {net}: {}", show(&want)));
    Ok(())
}

// ---- C13 -------------------------------------------------------------------

pub fn c13(s: &mut Src, o: &mut Obs) -> Res {
    let (mut l, mut want, key) = if s.bool() {
        let mut a = gen_ask(s);
        if s.one_in(60) {
            (a.pay, a.pcs) = big(s, a.pay, a.pcs);
            o.ev("beyond_32_kb");
        } else if a.pay.encode().map_or(0, |b| b.len()) > 6000 {
            a.pay = Pay::Transfer { to: gen::principal(s), amount: s.u64(), memo: gen_memo(s).into_bytes() };
        }
        let net = s.below(6);
        let v = if s.bool() { 0 } else { s.below(VARIANTS) };
        let (l, w) = build(&a, v, net)?;
        o.ev("built");
        (l, w, a.key)
    } else {
        let mut c = gen_case(s, false);
        while c.origin.multi() {
            c.origin.mode ^= 1;
            c.origin.keys.truncate(1);
            c.origin.required = 1;
        }
        c.tx.origin = c.origin.cond();
        if let Pay::Transfer { memo, .. } = &mut c.tx.payload {
            let n = memo.len();
            memo.resize(34, 0);
            // lib_pay takes the padded text as well
            if s.bool() {
                memo.truncate(n);
            }
        }
        let l = lib_tx(&c, s.bool());
        if let Pay::Transfer { memo, .. } = &mut c.tx.payload {
            memo.resize(34, 0);
        }
        o.ev(if c.origin.mode == 0 { "p2pkh" } else { "p2wpkh" });
        (l, c.tx, c.origin.keys[0])
    };
    if s.bool() {
        let (f, n) = (s.u64(), s.u64());
        l.set_fee(f);
        l.set_nonce(n);
        want.origin.set_fee(f);
        want.origin.set_nonce(n);
    }
    o.case(&want);
    let unsigned = must("encode", l.encode())?;
    eqb("unsigned", &unsigned, &opt(want.encode())?)?;
    let signed = must("sign", l.clone().sign(key))?;
    let b = must("encode", signed.encode())?;
    let p = parse_tx(&b).ok_or_else(|| Violation(format!("signed transaction unreadable: {}", clip(&hex(&b), 500))))?;
    let Cond::Single { sig, .. } = p.origin else { return bad("signed: condition kind changed") };
    // nothing but the signature differs
    let mut expect = want.clone();
    expect.origin.put_sig(sig);
    eqb("signed transaction apart from the signature", &b, &opt(expect.encode())?)?;
    ensure(sig != [0; 65], || "signature is empty".into())?;
    let start = want.initial_hash().unwrap_or_else(|| panic!("harness: hash"));
    let pre = presign(&start, 0x04, want.origin.fee(), want.origin.nonce());
    let pk = pubkey(&key).serialize();
    match recover(&pre, &sig) {
        Some(k) if k == pk => {}
        k => {
            return bad(format!(
                "signature {} recovers {} instead of {} for {}",
                hex(&sig),
                k.map_or("nothing".into(), |k| hex(&k)),
                hex(&pk),
                clip(&hex(&b), 600)
            ))
        }
    }
    if let Err(e) = p.origin.verify(start, 0x04) {
        return bad(format!("signed transaction does not verify: {e}"));
    }
    o.ev("signatures_verified");
    // deterministic, and through the signer as well
    eqb("signed again", &must("encode", must("sign", l.clone().sign(key))?.encode())?, &b)?;
    let mut sg = must("signer", t::TransactionSigner::new(l.clone()))?;
    must("sign_origin", sg.sign_origin(key))?;
    eqb("signed through the signer", &must("encode", sg.tx.encode())?, &b)?;
    // the unsigned original is unchanged
    eqb("original after signing", &must("encode", l.encode())?, &unsigned)?;
    // refused when already signed
    let other = gen_key(s);
    for k in [key, other] {
        match sg.sign_origin(k) {
            Err(t::Error::OriginOversign) => {}
            r => return bad(format!("second signature: {}", show(&r))),
        }
        eqb("after the refused signature", &must("encode", sg.tx.encode())?, &b)?;
        let r = signed.clone().sign(k);
        ensure(matches!(r, Err(t::Error::OriginOversign)), || format!("signing a signed transaction: ok is {}", r.is_ok()))?;
        let mut again = must("signer", t::TransactionSigner::new(signed.clone()))?;
        must_err("signing a signed transaction", again.sign_origin(k))?;
        eqb("after the refused signature", &must("encode", again.transaction().encode())?, &b)?;
    }
    o.ev("resign_refused");
    if s.one_in(4) {
        // signed with a key that is not the sender's: refused, or nothing but
        // that key's signature over the same hash
        match l.clone().sign(other) {
            Err(_) => o.ev("foreign_key_refused"),
            Ok(x) => {
                let b = must("encode", x.encode())?;
                let p = parse_tx(&b).ok_or_else(|| Violation("foreign signature: unreadable".into()))?;
                let Cond::Single { sig, .. } = p.origin else { return bad("signed: condition kind changed") };
                let mut e = want.clone();
                e.origin.put_sig(sig);
                eqb("signed by another, apart from the signature", &b, &opt(e.encode())?)?;
                eq("signed by another: key", &recover(&pre, &sig), &Some(pubkey(&other).serialize()))?;
                o.ev("foreign_key_signed");
            }
        }
    }
    // commits to what was present: any change of one field must break it
    let mut m = p.clone();
    match s.below(8) {
        0 => m.version ^= 0x80,
        1 => m.chain ^= 0x8000_0001,
        2 => m.origin.set_fee(p.origin.fee() ^ (1 << s.below(64))),
        3 => m.origin.set_nonce(p.origin.nonce() ^ (1 << s.below(64))),
        4 => m.anchor = m.anchor % 3 + 1,
        5 => m.pc_mode ^= 3,
        6 => m.pcs.push(gen_pc(s)),
        _ => {
            m.payload = match m.payload {
                Pay::Transfer { to, amount, memo } => Pay::Transfer { to, amount: amount ^ 1, memo },
                Pay::Call { ver, hash, contract, func, mut args } => {
                    args.push(V::None);
                    Pay::Call { ver, hash, contract, func, args }
                }
            }
        }
    }
    let h = m.initial_hash().unwrap_or_else(|| panic!("harness: hash"));
    ensure(m.origin.verify(h, 0x04).is_err(), || "signature still verifies after a change".into())?;
    o.ev("changes_break_signature");
    o.sample(|| format!("sig {} over {}", hex(&sig), show(&want)));
    Ok(())
}

// ---- C14 -------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Want {
    Ok,
    Errs(&'static [&'static str]),
    Any,
}

fn err_name(e: &t::Error) -> &'static str {
    match e {
        t::Error::OriginOversign => "OriginOversign",
        t::Error::OriginPostSponsorSign => "OriginPostSponsorSign",
        t::Error::OriginPostSponsorAppend => "OriginPostSponsorAppend",
        t::Error::SponsorOversign => "SponsorOversign",
        t::Error::BadSpendingConditionModification => "BadSpendingConditionModification",
        _ => "other",
    }
}

fn judge_step(what: &str, r: &Result<(), t::Error>, w: Want) -> Res {
    match (r, w) {
        (_, Want::Any) | (Ok(()), Want::Ok) => Ok(()),
        (Ok(()), Want::Errs(e)) => bad(format!("{what} accepted, must be refused with {e:?}")),
        (Err(e), Want::Ok) => bad(format!("{what} refused with {e:?}, must be accepted")),
        (Err(e), Want::Errs(n)) if n.contains(&err_name(e)) => Ok(()),
        (Err(e), Want::Errs(n)) => bad(format!("{what} refused with {e:?}, want one of {n:?}")),
    }
}

fn fields(c: &Cond) -> usize {
    match c {
        Cond::Single { .. } => c.signatures(),
        Cond::Multi { fields, .. } => fields.len(),
    }
}

/// The newest signature in the library's serialization.
fn newest(c: &Cond) -> Option<[u8; 65]> {
    match c {
        Cond::Single { sig, .. } => Some(*sig),
        Cond::Multi { fields, .. } => match fields.last() {
            Some(Field::Sig(x)) => Some(*x),
            _ => None,
        },
    }
}

struct Session {
    m: Tx,
    origin: Party,
    sponsor: Option<Party>,
    /// Chain value the next signature signs over.
    origin_chain: Hash,
    sponsor_chain: Option<Hash>,
    /// The current signer was opened for the sponsor, or sponsored already.
    sponsor_stage: bool,
    log: Vec<String>,
}

impl Session {
    fn origin_done(&self) -> bool {
        fields(&self.m.origin) == self.origin.keys.len() && self.m.origin.signatures() == self.m.origin.required()
    }

    fn ctx<T>(&self, r: Result<T, Violation>) -> Result<T, Violation> {
        r.map_err(|Violation(m)| Violation(format!("{m}; session: {}", clip(&self.log.join(", "), 500))))
    }

    /// Takes over an accepted signature after checking it.
    fn adopt(&mut self, b: &[u8], sponsor: bool, key: &SecretKey) -> Res {
        let p = parse_tx(b).ok_or_else(|| Violation(format!("unreadable: {}", clip(&hex(b), 500))))?;
        let c = if sponsor { p.sponsor.clone() } else { Some(p.origin.clone()) };
        let c = c.ok_or_else(|| Violation("sponsor gone".into()))?;
        let sig = newest(&c).ok_or_else(|| Violation("no signature was added".into()))?;
        let (mc, typ, chain) = if sponsor {
            let ch = self.sponsor_chain.unwrap_or(self.origin_chain);
            (self.m.sponsor.as_mut().unwrap_or_else(|| panic!("harness: sponsor")), 0x05, ch)
        } else {
            (&mut self.m.origin, 0x04, self.origin_chain)
        };
        let pre = presign(&chain, typ, mc.fee(), mc.nonce());
        let pk = pubkey(key).serialize();
        match recover(&pre, &sig) {
            Some(k) if k == pk => {}
            k => {
                return bad(format!(
                    "{} signature {} does not chain: recovers {} instead of {}",
                    if sponsor { "sponsor" } else { "origin" },
                    hex(&sig),
                    k.map_or("nothing".into(), |k| hex(&k)),
                    hex(&pk)
                ))
            }
        }
        mc.put_sig(sig);
        let next = postsign(&pre, &sig);
        if sponsor {
            self.sponsor_chain = Some(next);
        } else {
            self.origin_chain = next;
        }
        eqb("transaction after the step", b, &opt(self.m.encode())?)
    }

    fn same(&self, l: &t::Transaction, what: &str) -> Res {
        eqb(what, &must("encode", l.encode())?, &opt(self.m.encode())?)
    }
}

pub fn c14(s: &mut Src, o: &mut Obs) -> Res {
    let sponsored = s.below(3) != 0;
    let mut c = gen_case(s, sponsored);
    if c.tx.encode().map_or(0, |b| b.len()) > 3000 {
        c.tx.pcs.clear();
        c.tx.payload = Pay::Transfer { to: gen::principal(s), amount: s.u64(), memo: vec![] };
    }
    if let Pay::Transfer { memo, .. } = &mut c.tx.payload {
        memo.resize(34, 0);
    }
    let l = lib_tx(&c, s.bool());
    let start = c.tx.initial_hash().unwrap_or_else(|| panic!("harness: hash"));
    let mut z = Session {
        m: c.tx.clone(),
        origin: c.origin.clone(),
        sponsor: c.sponsor.clone(),
        origin_chain: start,
        sponsor_chain: None,
        sponsor_stage: false,
        log: vec![],
    };
    let r = z.same(&l, "unsigned transaction");
    z.ctx(r)?;
    o.ev(if sponsored { "sponsored" } else { "standard" });
    o.ev(if c.origin.multi() { "origin_multi" } else { "origin_single" });
    if let Some(p) = &c.sponsor {
        o.ev(if p.multi() { "sponsor_multi" } else { "sponsor_single" });
    }
    let mut sg = must("signer", t::TransactionSigner::new(l))?;
    let n = c.origin.keys.len() + c.sponsor.as_ref().map_or(0, |p| p.keys.len());
    let steps = n + s.range(2, 6);
    let mut finished = false;
    for _ in 0..steps {
        // choose a step, biased towards progress
        let progress = s.below(4) != 0;
        let no = fields(&z.m.origin);
        let ns = z.m.sponsor.as_ref().map_or(0, fields);
        let op = if progress && !z.origin_done() && !z.sponsor_stage {
            if !c.origin.multi() {
                0
            } else {
                let left = c.origin.keys.len() - no;
                let need = z.m.origin.required() - z.m.origin.signatures();
                // keep it completable
                if need == 0 {
                    1
                } else if left == need {
                    0
                } else {
                    s.below(2)
                }
            }
        } else if progress && z.m.sponsor.is_some() {
            *s.pick(&[2, 2, 2, 4, 5])
        } else {
            s.below(6)
        };
        match op {
            0 => {
                // the origin's next key
                let over = z.m.origin.signatures() >= z.m.origin.required();
                let w = match (z.sponsor_stage, over) {
                    (true, true) => Want::Errs(&["OriginPostSponsorSign", "OriginOversign"]),
                    (true, false) => Want::Errs(&["OriginPostSponsorSign"]),
                    (false, true) => Want::Errs(&["OriginOversign"]),
                    (false, false) => Want::Ok,
                };
                if w == Want::Ok && no >= z.origin.keys.len() {
                    continue;
                }
                let key = z.origin.keys[no.min(z.origin.keys.len() - 1)];
                z.log.push(format!("sign_origin#{no}"));
                let r = sg.sign_origin(key);
                z.ctx(judge_step("sign_origin", &r, w))?;
                if r.is_ok() {
                    o.ev("origin_signatures");
                    let b = must("encode", sg.tx.encode())?;
                    let r = z.adopt(&b, false, &key);
                    z.ctx(r)?;
                } else {
                    o.ev("origin_sign_refused");
                }
            }
            1 => {
                let single = !z.origin.multi();
                let w = match (z.sponsor_stage, single) {
                    (true, true) => Want::Errs(&["OriginPostSponsorAppend", "BadSpendingConditionModification"]),
                    (true, false) => Want::Errs(&["OriginPostSponsorAppend"]),
                    (false, true) => Want::Errs(&["BadSpendingConditionModification"]),
                    (false, false) => Want::Ok,
                };
                if w == Want::Ok && no >= z.origin.keys.len() {
                    continue;
                }
                // a step that would make the session incompletable is still legal
                let key = pubkey(&z.origin.keys[no.min(z.origin.keys.len() - 1)]);
                z.log.push(format!("append_origin#{no}"));
                let r = sg.append_origin(key);
                z.ctx(judge_step("append_origin", &r, w))?;
                if r.is_ok() {
                    o.ev("origin_appends");
                    if let Cond::Multi { fields, .. } = &mut z.m.origin {
                        fields.push(Field::Key(key.serialize()));
                    }
                } else {
                    o.ev("append_refused");
                }
            }
            2 => {
                let (w, key) = match (&z.m.sponsor, &z.sponsor) {
                    (Some(mc), Some(p)) => {
                        if mc.signatures() >= mc.required() {
                            (Want::Errs(&["SponsorOversign"]), p.keys[0])
                        } else if !z.origin_done() || ns >= p.keys.len() {
                            continue;
                        } else {
                            (Want::Ok, p.keys[ns])
                        }
                    }
                    _ => (Want::Errs(&["BadSpendingConditionModification"]), c.origin.keys[0]),
                };
                z.log.push(format!("sign_sponsor#{ns}"));
                let r = sg.sign_sponsor(key);
                z.ctx(judge_step("sign_sponsor", &r, w))?;
                if r.is_ok() {
                    o.ev("sponsor_signatures");
                    z.sponsor_stage = true;
                    let b = must("encode", sg.tx.encode())?;
                    let r = z.adopt(&b, true, &key);
                    z.ctx(r)?;
                } else {
                    o.ev("sponsor_sign_refused");
                }
            }
            3 => {
                // hand over and resume for the origin
                z.log.push("resume".into());
                let tx = if s.bool() { sg.tx.clone() } else { sg.transaction() };
                let r = z.same(&tx, "handed-over transaction");
                z.ctx(r)?;
                sg = must("TransactionSigner::new", t::TransactionSigner::new(tx))?;
                // the stage goes on where the transaction says it is
                z.sponsor_stage = z.m.sponsor.as_ref().is_some_and(|c| c.signatures() > 0);
                o.ev(if z.sponsor_stage { "resumed_sponsor" } else { "resumed_origin" });
            }
            4 => {
                // hand over to the sponsor: the one the origin named, or another
                let mut other = None;
                if z.sponsor.is_some() && s.one_in(2) {
                    let mut p = if s.bool() { Party::gen(s) } else { z.sponsor.clone().unwrap_or_else(|| Party::gen(s)) };
                    if s.bool() {
                        p.nonce = *s.pick(&[0, 1, p.nonce, u64::MAX]);
                        p.fee = *s.pick(&[0, 1, p.fee, u64::MAX]);
                    }
                    other = Some(p);
                }
                let (cond, fresh): (Box<dyn SpendingCondition>, bool) = match (&sg.tx.auth, other.as_ref().or(z.sponsor.as_ref())) {
                    (t::Auth::Sponsored(_, sp), Some(p)) => {
                        if ns > 0 && s.below(4) != 0 {
                            other = None;
                            (sp.clone(), false)
                        } else {
                            (p.lib_cond(), true)
                        }
                    }
                    _ => (z.origin.lib_cond(), true),
                };
                z.log.push(format!("new_sponser(fresh={fresh})"));
                let r = t::TransactionSigner::new_sponser(&sg.tx, cond);
                let ok = z.m.sponsor.is_some() && z.origin_done();
                let over = z.m.origin.signatures() > z.m.origin.required();
                let w = if z.m.sponsor.is_none() {
                    Want::Errs(&["BadSpendingConditionModification"])
                } else if ok {
                    Want::Ok
                } else if over {
                    Want::Any
                } else {
                    Want::Errs(&[])
                };
                match (&r, w) {
                    (Err(_), Want::Errs([])) => o.ev("sponsoring_unverified_refused"),
                    _ => {
                        let rr = match &r {
                            Ok(_) => Ok(()),
                            Err(e) => Err(e.clone()),
                        };
                        z.ctx(judge_step("new_sponser", &rr, w))?;
                    }
                }
                if let Ok(n) = r {
                    if fresh {
                        if other.is_some() {
                            z.sponsor = other;
                            o.ev("sponsor_replaced");
                        }
                        z.m.sponsor = z.sponsor.as_ref().map(Party::cond);
                        z.sponsor_chain = None;
                    }
                    sg = n;
                    z.sponsor_stage = true;
                    o.ev("sponsor_sessions");
                }
            }
            _ => {
                // complete the sponsor's key set by hand
                if let (Some(Cond::Multi { fields, .. }), Some(p)) = (&mut z.m.sponsor, &z.sponsor) {
                    let left = p.keys.len() - fields.len();
                    let sigs = fields.iter().filter(|f| matches!(f, Field::Sig(_))).count();
                    let need = (p.required as usize).saturating_sub(sigs);
                    if left > need {
                        let k = pubkey(&p.keys[fields.len()]);
                        z.log.push("sponsor AddPublicKey".into());
                        must("sponsor_mut", sg.tx.auth.sponsor_mut())?
                            .modify(t::Modification::AddPublicKey(k))
                            .map_err(|e| Violation(format!("AddPublicKey: {e:?}")))?;
                        fields.push(Field::Key(k.serialize()));
                        o.ev("sponsor_appends");
                    }
                }
            }
        }
        let r = z.same(&sg.tx, "transaction after the step");
        z.ctx(r)?;
        o.ev("steps");
        let sd = match (&z.m.sponsor, &z.sponsor) {
            (Some(m), Some(p)) => fields(m) == p.keys.len() && m.signatures() == m.required(),
            _ => true,
        };
        if !finished && z.origin_done() && sd {
            finished = true;
            o.ev("sessions_completed");
            // the completed authorization is genuine
            let end = match z.m.origin.verify(start, 0x04) {
                Ok(Some(h)) => h,
                e => return z.ctx(bad(format!("completed origin does not verify: {e:?}"))),
            };
            if let Some(sp) = &z.m.sponsor {
                if let Err(e) = sp.verify(end, 0x05) {
                    return z.ctx(bad(format!("completed sponsor does not verify: {e}")));
                }
            }
        }
    }
    o.case(&(&z.m, z.log.join(",")));
    o.sample(|| format!("{} -> {}", z.log.join(", "), show(&z.m.origin)));
    Ok(())
}

// ---- C15 -------------------------------------------------------------------

/// A condition to verify: who it names, and what it carries.
#[derive(Debug, Clone)]
struct Claim {
    party: Party,
    cond: Cond,
}

impl Claim {
    fn lib(&self) -> Result<Box<dyn SpendingCondition>, Violation> {
        let mut l = self.party.lib_cond();
        l.set_fee(self.cond.fee());
        l.set_nonce(self.cond.nonce());
        match &self.cond {
            Cond::Single { sig, .. } => {
                must("SetSignature", l.modify(t::Modification::SetSignature((*sig).into())))?;
            }
            Cond::Multi { fields, .. } => {
                for f in fields {
                    let m = match f {
                        Field::Sig(x) => t::Modification::AddSignature((*x).into()),
                        Field::Key(k) => t::Modification::AddPublicKey(
                            PublicKey::from_slice(k).unwrap_or_else(|_| panic!("harness: key")),
                        ),
                    };
                    must("modify", l.modify(m))?;
                }
            }
        }
        eqb("condition built from its parts", &must("encode", l.encode())?, &self.cond.encode())?;
        eq("signatures()", &usize::from(l.signatures()), &self.cond.signatures())?;
        eq("req_signatures()", &usize::from(l.req_signatures()), &self.cond.required())?;
        eq("fee()", &l.fee(), &self.cond.fee())?;
        eq("nonce()", &l.nonce(), &self.cond.nonce())?;
        eq("mode()", &l.mode(), &lib_mode(self.party.mode))?;
        Ok(l)
    }
}

/// Signs the party's condition completely; returns the end of the chain.
fn complete(s: &mut Src, p: &Party, start: Hash, typ: u8) -> (Claim, Hash) {
    let mut c = p.cond();
    let mut cur = start;
    match &mut c {
        Cond::Single { sig, .. } => {
            let pre = presign(&cur, typ, p.fee, p.nonce);
            *sig = sign(&pre, &p.keys[0]);
            cur = postsign(&pre, sig);
        }
        Cond::Multi { fields, .. } => {
            // which keys sign
            let mut who: Vec<bool> = (0..p.keys.len()).map(|i| i < p.required as usize).collect();
            s.shuffle(&mut who);
            for (k, signs) in p.keys.iter().zip(who) {
                if signs {
                    let pre = presign(&cur, typ, p.fee, p.nonce);
                    let sg = sign(&pre, k);
                    fields.push(Field::Sig(sg));
                    cur = postsign(&pre, &sg);
                } else {
                    fields.push(Field::Key(pubkey(k).serialize()));
                }
            }
        }
    }
    (Claim { party: p.clone(), cond: c }, cur)
}

/// Damages a claim in one place.
fn tamper(s: &mut Src, c: &mut Claim, other: &Claim, typ: u8, start: Hash, o: &mut Obs) {
    if s.one_in(24) {
        // far more fields than any script holds: recovery is slow, so mostly keys
        if let Cond::Multi { fields, .. } = &mut c.cond {
            let n = *s.pick(&[16usize, 17, 21, 128, 174, 175, 176, 177, 200, 255, 256, 257, 272, 300]);
            let sigs = s.one_in(4);
            let extra = fields.iter().find(|f| matches!(f, Field::Sig(_)) == sigs).cloned();
            let extra = extra.unwrap_or(Field::Key(pubkey(&c.party.keys[0]).serialize()));
            while fields.len() < n {
                fields.push(extra.clone());
            }
            o.ev("t_many_fields");
            return;
        }
    }
    match s.below(12) {
        0 => {
            let f = c.cond.fee() ^ (1 << s.below(64));
            c.cond.set_fee(f);
            o.ev("t_fee");
        }
        1 => {
            let f = c.cond.nonce() ^ (1 << s.below(64));
            c.cond.set_nonce(f);
            o.ev("t_nonce");
        }
        2 | 3 => {
            // one bit of a signature
            let bit = s.below(65 * 8);
            let flip = |x: &mut [u8; 65]| x[bit / 8] ^= 1 << (bit % 8);
            match &mut c.cond {
                Cond::Single { sig, .. } => flip(sig),
                Cond::Multi { fields, .. } => {
                    let i = s.below(fields.len().max(1));
                    for k in 0..fields.len() {
                        let j = (i + k) % fields.len();
                        if let Field::Sig(x) = &mut fields[j] {
                            flip(x);
                            break;
                        }
                    }
                }
            }
            o.ev("t_signature_bit");
        }
        4 => {
            // signature replaced: empty, other recovery id, another's, garbage
            let new = |s: &mut Src, x: &[u8; 65]| -> [u8; 65] {
                match s.below(4) {
                    0 => [0; 65],
                    1 => {
                        let mut y = *x;
                        y[0] = s.below(8) as u8;
                        y
                    }
                    2 => newest(&other.cond).unwrap_or([1; 65]),
                    _ => {
                        let k = gen_key(s);
                        sign(&presign(&start, typ, c.party.fee, c.party.nonce), &k)
                    }
                }
            };
            match &mut c.cond {
                Cond::Single { sig, .. } => *sig = new(s, sig),
                Cond::Multi { fields, .. } => {
                    let i = s.below(fields.len().max(1));
                    for k in 0..fields.len() {
                        let j = (i + k) % fields.len();
                        if let Field::Sig(x) = fields[j] {
                            fields[j] = Field::Sig(new(s, &x));
                            break;
                        }
                    }
                }
            }
            o.ev("t_signature_replaced");
        }
        5 => {
            // the order of the key set
            if let Cond::Multi { fields, .. } = &mut c.cond {
                let i = s.below(fields.len());
                let j = s.below(fields.len());
                fields.swap(i, j);
            }
            o.ev("t_order");
        }
        6 => {
            if let Cond::Multi { fields, .. } = &mut c.cond {
                let i = s.below(fields.len());
                fields.remove(i);
            }
            o.ev("t_field_dropped");
        }
        7 => {
            // a signature withheld: only the key is shown
            if let Cond::Multi { fields, .. } = &mut c.cond {
                let i = s.below(fields.len());
                for k in 0..fields.len() {
                    let j = (i + k) % fields.len();
                    if matches!(fields[j], Field::Sig(_)) {
                        fields[j] = Field::Key(pubkey(&c.party.keys[j]).serialize());
                        break;
                    }
                }
            }
            o.ev("t_signature_withheld");
        }
        8 => {
            if let Cond::Multi { fields, .. } = &mut c.cond {
                let i = s.below(fields.len() + 1);
                let k = if s.bool() { gen_key(s) } else { *s.pick(&c.party.keys) };
                fields.insert(i, Field::Key(pubkey(&k).serialize()));
            }
            o.ev("t_key_added");
        }
        9 => {
            // another key shown
            if let Cond::Multi { fields, .. } = &mut c.cond {
                let i = s.below(fields.len());
                fields[i] = Field::Key(pubkey(&gen_key(s)).serialize());
            }
            o.ev("t_key_replaced");
        }
        10 => {
            // the account named is another one: threshold, keys or mode
            let mut p = c.party.clone();
            match s.below(3) {
                0 if p.multi() => p.required = s.range(0, p.keys.len()) as u8,
                1 => {
                    let i = s.below(p.keys.len());
                    p.keys[i] = gen_key(s);
                }
                _ => p.mode ^= 2,
            }
            let mut d = p.cond();
            match (&mut d, &c.cond) {
                (Cond::Single { sig, .. }, Cond::Single { sig: x, .. }) => *sig = *x,
                (Cond::Multi { fields, .. }, Cond::Multi { fields: x, .. }) => *fields = x.clone(),
                _ => {}
            }
            d.set_fee(c.cond.fee());
            d.set_nonce(c.cond.nonce());
            c.party = p;
            c.cond = d;
            o.ev("t_signer");
        }
        _ => {
            // signatures missing altogether
            match &mut c.cond {
                Cond::Single { sig, .. } => *sig = [0; 65],
                Cond::Multi { fields, .. } => fields.clear(),
            }
            o.ev("t_unsigned");
        }
    }
}

pub fn c15(s: &mut Src, o: &mut Obs) -> Res {
    let sponsored = s.bool();
    let mut c = gen_case(s, sponsored);
    if let Pay::Transfer { memo, .. } = &mut c.tx.payload {
        memo.resize(34, 0);
    }
    if c.tx.encode().map_or(0, |b| b.len()) > 2500 {
        c.tx.pcs.clear();
        c.tx.payload = Pay::Transfer { to: gen::principal(s), amount: s.u64(), memo: vec![0; 34] };
    }
    if s.one_in(25) && c.origin.multi() {
        // no signature required: the key set still has to match
        c.origin.required = 0;
        c.tx.origin = c.origin.cond();
        o.ev("nothing_required");
    }
    let nothing = c.origin.required == 0;
    let start = c.tx.initial_hash().unwrap_or_else(|| panic!("harness: hash"));
    let (origin, mid) = complete(s, &c.origin, start, 0x04);
    let sponsor = c.sponsor.as_ref().map(|p| complete(s, p, mid, 0x05).0);
    o.ev(if sponsored { "sponsored" } else { "standard" });
    o.ev(["p2pkh", "p2sh", "p2wpkh", "p2wsh"][c.origin.mode as usize]);
    if c.origin.keys.len() > 4 {
        o.ev("over_4_keys");
    }
    let make = |a: &Claim, b: &Option<Claim>| -> Result<t::Auth, Violation> {
        Ok(match b {
            None => t::Auth::Standard(a.lib()?),
            Some(b) => t::Auth::Sponsored(a.lib()?, b.lib()?),
        })
    };
    // compares the library's verdict with the oracle's
    let judge = |what: &str, a: &Claim, b: &Option<Claim>, h: Hash, o: &mut Obs| -> Result<Option<bool>, Violation> {
        let auth = make(a, b)?;
        let got = auth.verify(h);
        let got_o = auth.verify_origin(h);
        let want_o = a.cond.verify(h, 0x04);
        let cond = auth.origin().verify(h.into(), 0x04);
        match (&got_o, &want_o) {
            (_, Ok(None)) => {}
            (Ok(x), Ok(Some(w))) => {
                eqb(&format!("{what}: chain after the origin"), x.as_bytes(), w)?;
                let c = must("condition verify", cond)?;
                eqb(&format!("{what}: chain after the condition"), c.as_bytes(), w)?;
            }
            (Err(_), Err(_)) => {
                ensure(cond.is_err(), || format!("{what}: the condition verifies alone"))?;
            }
            (Ok(_), Err(w)) => return bad(format!("{what}: origin accepted, but {w}: {}", show(&(a, hex(&h))))),
            (Err(e), Ok(_)) => return bad(format!("{what}: genuine origin refused with {e:?}: {}", show(&(a, hex(&h))))),
        }
        let want = match (&want_o, b) {
            (Ok(None), _) => None,
            (Err(_), _) => Some(false),
            (Ok(Some(_)), None) => Some(true),
            (Ok(Some(m)), Some(b)) => match b.cond.verify(*m, 0x05) {
                Ok(None) => None,
                Ok(Some(_)) => Some(true),
                Err(_) => Some(false),
            },
        };
        match want {
            None => o.ev("not_judged"),
            Some(true) => o.ev("accepted"),
            Some(false) => o.ev("refused"),
        }
        match (&got, want) {
            (Ok(()), Some(false)) => bad(format!("{what}: accepted, must be refused: {}", show(&(a, b, hex(&h))))),
            (Err(e), Some(true)) => bad(format!("{what}: refused with {e:?}, must be accepted: {}", show(&(a, b, hex(&h))))),
            _ => Ok(want),
        }
    };
    let v = judge("genuine", &origin, &sponsor, start, o)?;
    if nothing != (v != Some(true)) {
        panic!("harness: genuine authorization not accepted by the oracle");
    }
    o.case(&(&origin.cond, sponsor.as_ref().map(|x| &x.cond)));
    // the hash the library itself signs from
    {
        let mut l = lib_tx(&c, false);
        l.auth = make(&origin, &sponsor)?.reset();
        eqb("hash of the reset transaction", must("hash", l.hash())?.as_bytes(), &start)?;
        if !nothing {
            must("verify from the reset hash", make(&origin, &sponsor)?.verify(must("hash", l.hash())?))?;
        }
        // contents changed
        let mut m = c.tx.clone();
        match s.below(4) {
            0 => m.anchor = m.anchor % 3 + 1,
            1 => m.version ^= 0x80,
            2 => m.pc_mode ^= 3,
            _ => m.pcs.push(Pc::Stx { who: gen::principal(s), amount: 1, code: 1 }),
        }
        let h = m.initial_hash().unwrap_or_else(|| panic!("harness: hash"));
        judge("contents changed", &origin, &sponsor, h, o)?;
    }
    let mut h = start;
    h[s.below(32)] ^= 1 << s.below(8);
    judge("hash changed", &origin, &sponsor, h, o)?;
    for _ in 0..4 {
        let mut a = origin.clone();
        let mut b = sponsor.clone();
        match &mut b {
            Some(x) if s.bool() => tamper(s, x, &origin, 0x05, mid, o),
            _ => {
                let other = sponsor.clone().unwrap_or_else(|| origin.clone());
                tamper(s, &mut a, &other, 0x04, start, o);
            }
        }
        judge("tampered", &a, &b, start, o)?;
        o.case(&(&a.cond, b.as_ref().map(|x| &x.cond)));
    }
    if let Some(sp) = &sponsor {
        // roles exchanged, and signatures of the wrong role
        judge("roles exchanged", sp, &Some(origin.clone()), start, o)?;
        let (wrong, _) = complete(s, &sp.party, mid, 0x04);
        judge("sponsor signed as origin", &origin, &Some(wrong), start, o)?;
        let (wrong, _) = complete(s, &sp.party, start, 0x05);
        judge("sponsor signed the initial hash", &origin, &Some(wrong), start, o)?;
        let (wrong, end) = complete(s, &origin.party, start, 0x05);
        let again = complete(s, &sp.party, end, 0x05).0;
        judge("origin signed as sponsor", &wrong, &Some(again), start, o)?;
        o.ev("role_confusions");
    }
    let _ = lc::SignatureHash::default();
    o.sample(|| format!("{} of {} mode {}, sponsored {sponsored}", c.origin.required, c.origin.keys.len(), c.origin.mode));
    Ok(())
}
