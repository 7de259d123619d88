//! C21, C22: whole journeys through the library, against a model of a node.

use std::cell::{Cell, RefCell};
use std::collections::HashMap;

use secp256k1::SecretKey;
use stacks_rs::clarity as cl;
use stacks_rs::clarity::Codec;
use stacks_rs::crypto::c32::Version;
use stacks_rs::crypto::hex_to_bytes;
use stacks_rs::rpc::{self as r, StacksRPC};
use stacks_rs::transaction as t;
use stacks_rs::wallet::{StacksAccount, StacksWallet};

use crate::derived::{family, Out, BY_HAND};
use crate::engine::*;
use crate::gen;
use crate::http::*;
use crate::json::{self, J};
use crate::model::*;
use crate::oracle::*;
use crate::src::*;
use crate::tx::*;

use super::rpc::{clarity_name, get, percent_decode, with_server};
use super::txs::{self, VARIANTS};
use super::wallet::{child, mnemonic, phrase, root, Ext};
use super::{derive, wallet};

// ---- the node --------------------------------------------------------------

thread_local! {
    static WALLETS: RefCell<HashMap<usize, (StacksWallet, Ext)>> = RefCell::new(HashMap::new());
    static TURN: Cell<u64> = const { Cell::new(0) };
}

/// A pristine wallet out of a small population, with the oracle's view of it.
fn open(i: usize) -> Result<(StacksWallet, Ext), Violation> {
    WALLETS.with(|w| {
        let mut w = w.borrow_mut();
        if let Some(x) = w.get(&i) {
            return Ok(x.clone());
        }
        let e = sha256(format!("wallet {i}").as_bytes());
        let p = phrase(&mnemonic(&e[..[16, 20, 24, 28, 32][i % 5]], 0));
        let l = must("from_secret_key", StacksWallet::from_secret_key(p.as_str()))?;
        let x = (l, root(&p));
        w.insert(i, x.clone());
        Ok(x)
    })
}

/// One call of the client; a connection the sandbox refused is tried again.
fn ask<T>(sv: &Server, script: &Script, call: &dyn Fn() -> Result<T, r::Error>) -> (Result<T, r::Error>, Vec<Req>, usize) {
    let mut k = 0;
    loop {
        sv.set(script.clone());
        let out = call();
        let log = sv.drain();
        let conns = sv.conns();
        if out.is_ok() || conns > 0 || k == 3 {
            return (out, log, conns);
        }
        k += 1;
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

fn says(status: u16, reason: &str, body: &str, framing: u8) -> Script {
    Script { pieces: vec![reply(status, reason, "", body.as_bytes(), framing)], ..Script::default() }
}

fn the_one<'a>(what: &str, log: &'a [Req], conns: usize) -> Result<&'a Req, Violation> {
    match log {
        [q] if conns == 1 && q.complete => Ok(q),
        _ => bad(format!("{what}: {} requests on {conns} connections, want one complete request", log.len())),
    }
}

fn path_is(q: &Req, method: &str, want: &[&str]) -> Res {
    let got: Option<Vec<String>> = q.target.strip_prefix('/').unwrap_or("\u{0}").split('/').map(percent_decode).collect();
    eq("request", &(q.method.as_str(), got), &(method, Some(want.iter().map(|x| x.to_string()).collect())))
}

/// The node at the other end: on the loopback network, or only imagined, for
/// volume (then the bytes that would be sent are looked at).
enum Node<'a> {
    Real { sv: &'a Server, c: StacksRPC, prefix: &'a [&'a str] },
    Imagined,
}

// ---- C21 -------------------------------------------------------------------

struct Acct {
    lib: StacksAccount,
    key: SecretKey,
    name: String,
}

const VERS: [(Version, u8); 2] = [(Version::MainnetP2PKH, 22), (Version::TestnetP2PKH, 26)];

fn accounts(s: &mut Src) -> Result<Vec<Acct>, Violation> {
    let mut v = vec![];
    let nw = s.range(1, 2);
    let first = s.below(10);
    let mut open_wallets = vec![];
    for i in 0..nw {
        open_wallets.push(open((first + i * 7) % 12)?);
    }
    let base = if s.bool() { 0 } else { s.num(31) as u32 };
    for _ in 0..s.range(2, 6) {
        let wi = s.below(nw);
        let j = match s.below(4) {
            0 => s.num(32) as u32,
            _ => base.wrapping_add(s.below(5) as u32),
        };
        let (w, x) = &mut open_wallets[wi];
        let lib = must("get_account", w.get_account(j))?;
        v.push(Acct { lib, key: child(x, j).key, name: format!("wallet {wi} account {j:#x}") });
    }
    Ok(v)
}

impl Acct {
    /// What the library hands out for signing.
    fn signing_key(&self) -> Result<SecretKey, Violation> {
        must("private_key", self.lib.private_key())
    }
}

/// Asks the node for the account's nonce.
fn lookup(s: &mut Src, node: &Node, a: &Acct, main: bool, nonce: u64) -> Result<u64, Violation> {
    let (v, n) = VERS[usize::from(!main)];
    let addr = must("get_address", a.lib.get_address(v))?;
    let want = address(n, &p2pkh(&pubkey(&a.key).serialize()));
    let Node::Real { sv, c, prefix } = node else {
        eq("address of the account", &addr, &want)?;
        return Ok(nonce);
    };
    let other = s.u64();
    let body = format!(
        "{{\"balance\":\"0x{:032x}\",\"locked\":\"0x0\",\"unlock_height\":{other},\"nonce\":{nonce},\"balance_proof\":\"\",\"nonce_proof\":\"\"}}",
        s.u128()
    );
    let (out, log, conns) = ask(sv, &says(200, "OK", &body, s.below(3) as u8), &|| c.address(addr.as_str()));
    let q = the_one("address", &log, conns)?;
    path_is(q, "GET", &[*prefix, &["v2", "accounts", &want]].concat())?;
    let got = must("address", out)?;
    eq("nonce of the account", &got.nonce, &nonce)?;
    Ok(got.nonce)
}

fn payload_is(bytes: &[u8], m: &Tx) -> Res {
    match parse_payload(bytes) {
        Some((p, n)) if n == bytes.len() => eq("payload put to the estimate", &p, &m.payload),
        _ => bad(format!("node cannot read the payload put to the estimate: {}", clip(&hex(bytes), 300))),
    }
}

/// Asks the node what the transaction should cost.
fn estimate(s: &mut Src, node: &Node, l: &t::Transaction, m: &Tx) -> Result<u64, Violation> {
    let Node::Real { sv, c, prefix } = node else {
        payload_is(&must("payload encode", l.payload.encode())?, m)?;
        eq("length of the transaction", &must("len", l.len())?, &m.encode().map_or(0, |b| b.len()))?;
        return Ok(s.u64());
    };
    let fees: Vec<u64> = (0..s.range(1, 3)).map(|_| s.u64()).collect();
    let list: Vec<String> = fees.iter().map(|f| format!("{{\"fee\":{f},\"fee_rate\":{}.5}}", f % 1000)).collect();
    let body = format!("{{\"estimations\":[{}]}}", list.join(","));
    let (out, log, conns) = ask(sv, &says(200, "OK", &body, s.below(3) as u8), &|| c.estimate_fee(l));
    let q = the_one("estimate_fee", &log, conns)?;
    path_is(q, "POST", &[*prefix, &["v2", "fees", "transaction"]].concat())?;
    let j = json::parse(&q.body).ok_or_else(|| Violation(format!("fee request is not JSON: {}", show(&q.body))))?.v;
    let Some(J::Str(h)) = get(&j, "transaction_payload") else { return bad("fee request without a payload") };
    let bytes = unhex(h.strip_prefix("0x").unwrap_or(h)).ok_or(Violation(format!("payload is not hex: {}", clip(h, 200))))?;
    payload_is(&bytes, m)?;
    let n = m.encode().map_or(0, |b| b.len());
    eq("estimated_len", &get(&j, "estimated_len"), &Some(&J::Num(n.to_string())))?;
    match must("estimate_fee", out)? {
        r::EstimateFeeResponse::Ok(x) => {
            let got: Vec<u64> = x.estimations.iter().map(|e| e.fee).collect();
            eq("estimated fees", &got, &fees)?;
            Ok(*s.pick(&got))
        }
        e => bad(format!("estimate: {}", show(&e))),
    }
}

/// Signs for one party, in the order of its keys; some only add their public key.
fn sign_origin(s: &mut Src, mut sg: t::TransactionSigner, p: &Party, keys: &[SecretKey], o: &mut Obs) -> Result<t::TransactionSigner, Violation> {
    let mut need = usize::from(p.required);
    for (i, k) in keys.iter().enumerate() {
        let left = keys.len() - i;
        if need > 0 && (need == left || s.bool()) {
            must("sign_origin", sg.sign_origin(*k))?;
            need -= 1;
            o.ev("origin_signatures");
        } else {
            must("append_origin", sg.append_origin(pubkey(k)))?;
            o.ev("origin_appends");
        }
        // handed to the next owner
        if p.multi() && s.one_in(3) {
            sg = must("signer", t::TransactionSigner::new(sg.transaction()))?;
            o.ev("handed_over");
        }
    }
    Ok(sg)
}

fn party(s: &mut Src, accts: &[Acct], multi: bool) -> Result<(Party, Vec<SecretKey>, Vec<usize>), Violation> {
    let n = if multi { s.range(1, 5) } else { 1 };
    let who: Vec<usize> = (0..n).map(|_| s.below(accts.len())).collect();
    let required = if s.bool() { n } else { s.range(1, n) } as u8;
    let mode = if multi { *s.pick(&[1, 3]) } else { *s.pick(&[0, 0, 2]) };
    let mut lib = vec![];
    for i in &who {
        lib.push(accts[*i].signing_key()?);
    }
    let keys = who.iter().map(|i| accts[*i].key).collect();
    Ok((Party { keys, required, mode, fee: s.u64(), nonce: s.u64() }, lib, who))
}

fn small_case(s: &mut Src, sponsored: bool) -> Case {
    let mut c = gen_case(s, sponsored);
    if c.tx.encode().map_or(0, |b| b.len()) > 3000 {
        c.tx.pcs.clear();
    }
    c
}

/// The node's view of a transaction it was sent.
fn received(body: &[u8], m: &Tx) -> Res {
    let got = parse_tx(body).ok_or_else(|| Violation(format!("node cannot read the transaction: {}", clip(&hex(body), 500))))?;
    let mut want = m.clone();
    copy_sigs(&mut want.origin, &got.origin);
    if let (Some(w), Some(g)) = (&mut want.sponsor, &got.sponsor) {
        copy_sigs(w, g);
    }
    eq("transaction received by the node, apart from signatures", &got, &want)?;
    let start = got.initial_hash().unwrap_or_else(|| panic!("harness: hash"));
    let end = match got.origin.verify(start, 0x04) {
        Ok(Some(h)) => h,
        e => return bad(format!("node refuses the origin's authorization: {e:?}; {}", clip(&hex(body), 500))),
    };
    if let Some(x) = &got.sponsor {
        if !matches!(x.verify(end, 0x05), Ok(Some(_))) {
            return bad(format!("node refuses the sponsor's authorization; {}", clip(&hex(body), 500)));
        }
    }
    Ok(())
}

/// The journey of one transaction.
fn journey(s: &mut Src, node: &Node, accts: &[Acct], ledger: &mut HashMap<[u8; 20], u64>, hist: &mut Vec<String>, o: &mut Obs) -> Res {
    let kind = s.below(4);
    let mut pad = |m: &mut Tx| {
        if let Pay::Transfer { memo, .. } = &mut m.payload {
            memo.resize(34, 0);
        }
    };
    let signed: t::Transaction;
    let mut m: Tx;
    let mut stage = vec![];
    if kind < 2 {
        // from one account, through a builder or by hand
        let (p, _, who) = party(s, accts, false)?;
        let a = &accts[who[0]];
        let signer;
        let mut l;
        if kind == 0 {
            let mut q = txs::gen_ask(s);
            if q.pay.encode().map_or(0, |b| b.len()) > 6000 {
                q.pay = Pay::Transfer { to: gen::principal(s), amount: s.u64(), memo: gen_memo(s).into_bytes() };
            }
            q.key = a.signing_key()?;
            let net = s.below(4);
            let variant = if s.bool() { 0 } else { s.below(VARIANTS) };
            (l, m) = txs::build(&q, variant, net)?;
            signer = p2pkh(&pubkey(&a.key).serialize());
            if let Cond::Single { signer: x, .. } = &mut m.origin {
                *x = signer;
            }
            o.ev("through_a_builder");
        } else {
            let mut k = small_case(s, false);
            k.origin = p.clone();
            k.tx.origin = p.cond();
            l = lib_tx(&k, s.bool());
            m = k.tx;
            pad(&mut m);
            signer = match &m.origin {
                Cond::Single { signer, .. } | Cond::Multi { signer, .. } => *signer,
            };
            o.ev("by_hand");
        }
        stage.push(format!("{} mode {}", a.name, p.mode));
        let nonce = match ledger.get(&signer) {
            Some(n) => *n,
            None => s.num(63) as u64,
        };
        let steps: &[u8] = match s.below(4) {
            0 => &[0, 1],
            1 => &[1, 0],
            2 => &[0],
            _ => &[0, 1, 0],
        };
        for k in steps {
            if *k == 0 {
                let n = lookup(s, node, a, m.version == 0, nonce)?;
                l.set_nonce(n);
                m.origin.set_nonce(n);
                o.ev("nonces_looked_up");
            } else {
                let f = estimate(s, node, &l, &m)?;
                l.set_fee(f);
                m.origin.set_fee(f);
                o.ev("fees_estimated");
            }
        }
        ledger.insert(signer, nonce.wrapping_add(1));
        let key = a.signing_key()?;
        signed = if s.bool() {
            must("sign", l.sign(key))?
        } else {
            let mut sg = must("signer", t::TransactionSigner::new(l))?;
            must("sign_origin", sg.sign_origin(key))?;
            sg.transaction()
        };
    } else {
        // from several accounts, or paid for by another
        let sponsored = kind == 3;
        let multi = !sponsored || s.bool();
        let (p, lib, who) = party(s, accts, multi)?;
        stage.push(format!("{:?} {}-of-{} mode {}", who, p.required, p.keys.len(), p.mode));
        let mut k = small_case(s, false);
        k.origin = p.clone();
        k.tx.origin = p.cond();
        let sp = if sponsored {
            let m = s.bool();
            let mut x = party(s, accts, m)?;
            x.0.required = x.0.keys.len() as u8;
            stage.push(format!("sponsor {:?} mode {}", x.2, x.0.mode));
            Some(x)
        } else {
            None
        };
        if let Some((q, _, _)) = &sp {
            // the origin may not know yet who will pay
            k.tx.sponsor = Some(q.cond());
            k.sponsor = Some(q.clone());
        }
        let mut l = lib_tx(&k, s.bool());
        if sponsored && s.bool() {
            must("set_sponsor", l.auth.set_sponsor(Box::<t::SpendingConditionStandard>::default()))?;
            o.ev("sponsor_unknown_at_first");
        }
        m = k.tx;
        pad(&mut m);
        if !sponsored && s.bool() {
            let f = estimate(s, node, &l, &m)?;
            l.set_fee(f);
            m.origin.set_fee(f);
            o.ev("fees_estimated");
        }
        let sg = must("signer", t::TransactionSigner::new(l))?;
        let mut sg = sign_origin(s, sg, &p, &lib, o)?;
        if let Some((q, lib, _)) = &sp {
            let mut tx = sg.transaction();
            for (i, k) in lib.iter().enumerate() {
                let cond = match (&tx.auth, i) {
                    (t::Auth::Sponsored(_, x), 1..) => x.clone(),
                    _ => q.lib_cond(),
                };
                sg = must("new_sponser", t::TransactionSigner::new_sponser(&tx, cond))?;
                must("sign_sponsor", sg.sign_sponsor(*k))?;
                o.ev("sponsor_signatures");
                tx = sg.transaction();
            }
            signed = tx;
        } else {
            signed = sg.transaction();
        }
        o.ev(if sponsored { "sponsored" } else { "several_accounts" });
    }
    hist.push(stage.join("; "));
    // broadcast; perhaps not heard at first
    let bytes = must("encode", signed.encode())?;
    let id = hex(&sha512_256(&bytes));
    eq("transaction id", &hex(must("hash", signed.hash())?.as_bytes()), &id)?;
    o.case(&m);
    let Node::Real { sv, c, prefix } = node else {
        o.ev("transactions_examined");
        return received(&bytes, &m);
    };
    let framing = s.below(3) as u8;
    let tries = if s.one_in(3) { 2 } else { 1 };
    for k in 0..tries {
        let last = k + 1 == tries;
        let (script, rejected) = if last {
            (says(200, "OK", &format!("\"{id}\""), framing), None)
        } else if s.bool() {
            let why = *s.pick(&["BadNonce", "ConflictingNonceInMempool", "FeeTooLow", "NotEnoughFunds"]);
            let b = format!("{{\"error\":\"transaction rejected\",\"reason\":\"{why}\",\"reason_data\":{{\"expected\":1}},\"txid\":\"{id}\"}}");
            (says(400, "Bad Request", &b, framing), Some(why))
        } else {
            (Script { reset: s.bool(), ..Script::default() }, None)
        };
        let (out, log, conns) = ask(sv, &script, &|| c.broadcast(&signed));
        let q = the_one("broadcast", &log, conns)?;
        path_is(q, "POST", &[*prefix, &["v2", "transactions"]].concat())?;
        received(&q.body, &m)?;
        eqb("bytes received by the node", &q.body, &bytes)?;
        o.ev("transactions_received");
        match (out, last, rejected) {
            (Ok(r::BroadcastResponse::Ok(x)), true, _) => {
                eq("transaction id reported", &x.trim_matches('"'), &id.as_str())?;
                o.ev("transactions_accepted");
            }
            (Ok(r::BroadcastResponse::Err(e)), false, Some(why)) => {
                eq("rejection", &(e.reason.as_str(), e.txid.as_str()), &(why, id.as_str()))?;
                o.ev("transactions_rejected");
            }
            (Err(_), false, None) => o.ev("broadcasts_unanswered"),
            (out, ..) => return bad(format!("broadcast returned {} (node: last {last}, rejected {rejected:?})", show(&out))),
        }
    }
    Ok(())
}

/// Takes over the signatures, and which of the keys signed.
fn copy_sigs(want: &mut Cond, got: &Cond) {
    match (want, got) {
        (Cond::Single { sig, .. }, Cond::Single { sig: g, .. }) => *sig = *g,
        (Cond::Multi { fields, .. }, Cond::Multi { fields: g, .. }) => fields.clone_from(g),
        _ => {}
    }
}

pub fn c21(s: &mut Src, o: &mut Obs) -> Res {
    let accts = accounts(s)?;
    if !s.one_in(4) {
        return journeys(s, &Node::Imagined, &accts, o);
    }
    let prefix: &[&str] = if s.one_in(4) { &["api", "node"] } else { &[] };
    on_server(|sv| {
        let mut base = format!("http://{}", sv.addr);
        for x in prefix {
            base.push('/');
            base.push_str(x);
        }
        journeys(s, &Node::Real { sv, c: StacksRPC::new(base), prefix }, &accts, o)
    })
}

fn on_server<T>(f: impl FnOnce(&Server) -> T) -> T {
    let turn = TURN.with(|t| {
        t.set(t.get() + 1);
        t.get()
    });
    with_server(turn % 200 == 0, f)
}

fn journeys(s: &mut Src, node: &Node, accts: &[Acct], o: &mut Obs) -> Res {
    let mut ledger = HashMap::new();
    let mut hist = vec![];
    for _ in 0..s.range(1, 3) {
        journey(s, node, accts, &mut ledger, &mut hist, o).map_err(|v| {
            let names: Vec<&str> = accts.iter().map(|a| a.name.as_str()).collect();
            Violation(format!("{} (accounts {names:?}; history {hist:?})", v.0))
        })?;
    }
    for a in accts {
        wallet::check_account(&a.name, &a.lib, &a.key)?;
    }
    o.sample(|| hist.join(" | "));
    Ok(())
}

// ---- C22 -------------------------------------------------------------------

fn clean(s: &mut Src, v: V) -> V {
    match v.encode() {
        Some(b) if b.len() < 20_000 && parse_any(&b).is_some_and(|p| p.0 == v && p.1 == b.len()) => v,
        _ => V::UInt(s.u128()),
    }
}

fn result_value(s: &mut Src) -> V {
    let v = match s.below(4) {
        0 => gen::any(s),
        1 => {
            let v = gen::value(s, 3);
            V::Ok(Box::new(v))
        }
        _ => gen::value(s, 3),
    };
    clean(s, v)
}

pub fn c22(s: &mut Src, o: &mut Obs) -> Res {
    let contract = (gen::addr(s), clarity_name(s, false));
    let n = s.range(1, 3);
    if !s.one_in(4) {
        for _ in 0..n {
            read(s, &Node::Imagined, &contract, o)?;
        }
        return Ok(());
    }
    on_server(|sv| {
        let node = Node::Real { sv, c: StacksRPC::new(format!("http://{}", sv.addr)), prefix: &[] };
        for _ in 0..n {
            read(s, &node, &contract, o)?;
        }
        Ok(())
    })
}

fn argument_is(i: usize, h: &str, v: &V) -> Res {
    let b = unhex(h.strip_prefix("0x").unwrap_or(h)).ok_or(Violation(format!("argument {i} is not hex: {}", clip(h, 200))))?;
    match parse_any(&b) {
        Some((y, n)) if n == b.len() => eq(&format!("argument {i} as the node reads it"), &y, v),
        _ => bad(format!("node cannot read argument {i}: {}", clip(h, 300))),
    }
}

fn read(s: &mut Src, node: &Node, contract: &(String, String), o: &mut Obs) -> Res {
    let func = clarity_name(s, true);
    let sender = if s.bool() { contract.0.clone() } else { format!("{}.{}", contract.0, contract.1) };
    let mut args: Vec<V> = vec![];
    for x in gen::args(s).into_iter().take(8) {
        args.push(clean(s, x));
    }
    if s.one_in(8) {
        for _ in 0..*s.pick(&[1, 8, 9, 10, 16, 17, 30, 60, 120, 300]) {
            let v = match s.below(3) {
                0 => V::UInt(s.u128()),
                1 => V::None,
                _ => V::Int(s.i128()),
            };
            args.push(v);
        }
        o.ev("many_arguments");
    }
    // what the contract answers
    let fam = family();
    let n = if s.bool() { BY_HAND } else { fam.len() };
    let (name, spec, conv) = fam[s.below(n)];
    let spec = spec();
    let mut es = vec![];
    let what = s.below(4);
    let value = match what {
        0 => {
            o.ev("echo");
            V::List(args.clone())
        }
        1 | 2 => {
            es = derive::entries(s, &spec);
            let v = V::Tuple(es.clone());
            let ok = v.encode().is_some_and(|b| parse_any(&b).is_some_and(|p| p.0 == v));
            if ok {
                o.ev("structs");
            } else {
                es.clear();
            }
            if ok {
                v
            } else {
                result_value(s)
            }
        }
        _ => result_value(s),
    };
    let wrapped = if s.one_in(3) { V::Ok(Box::new(value.clone())) } else { value.clone() };
    let bytes = wrapped.encode().unwrap_or_else(|| panic!("harness: value"));
    let text = if s.one_in(4) { hex(&bytes).to_uppercase() } else { hex(&bytes) };
    let text = if s.one_in(6) { text } else { format!("0x{text}") };
    let body = format!("{{\"okay\":true,\"result\":\"{text}\"}}");
    let style = s.u8();
    if let Node::Real { sv, c, .. } = node {
        let (out, log, conns) = ask(sv, &says(200, "OK", &body, s.below(3) as u8), &|| {
            c.read_only(&contract.0, &contract.1, &func, lib_args(&args, style), &sender)
        });
        let q = the_one("read_only", &log, conns)?;
        path_is(q, "POST", &["v2", "contracts", "call-read", &contract.0, &contract.1, &func])?;
        // the node's view of the question
        let j = json::parse(&q.body).ok_or_else(|| Violation(format!("body is not JSON: {}", show(&q.body))))?.v;
        eq("sender", &get(&j, "sender"), &Some(&J::Str(sender)))?;
        let Some(J::Arr(a)) = get(&j, "arguments") else { return bad("arguments is no array") };
        eq("number of arguments", &a.len(), &args.len())?;
        for (i, (x, v)) in a.iter().zip(&args).enumerate() {
            let J::Str(h) = x else { return bad(format!("argument {i} is {}", show(x))) };
            argument_is(i, h, v)?;
            o.ev("arguments_read");
        }
        // the caller's view of the answer
        let r::ReadOnlyResponse::Ok(x) = must("read_only", out)? else { return bad("a result came back as a failure") };
        eq("okay", &x.okay, &true)?;
        eq("result", &x.result, &text)?;
    } else {
        for (i, (x, v)) in lib_args(&args, style).into_iter().zip(&args).enumerate() {
            argument_is(i, &must("hex", x.hex())?, v)?;
        }
    }
    let raw = must("hex_to_bytes", hex_to_bytes(text.strip_prefix("0x").unwrap_or(&text)))?;
    let mut got = must(&format!("decoding {}", clip(&text, 300)), cl::decode_clarity_type(&raw))?;
    eq("decoded result", &from_lib(got.as_ref()), &Some(wrapped.clone()))?;
    eq("printed result", &got.to_string(), &wrapped.literal())?;
    eqb("result encoded again", &must("encode", got.encode())?, &bytes)?;
    o.ev("results_decoded");
    if !es.is_empty() {
        if wrapped != value {
            let r = got.into_any().downcast::<cl::ResponseOk>().map_err(|_| Violation("no ResponseOk".into()))?;
            got = r.value().clone();
        }
        let tuple = got.into_any().downcast::<cl::Tuple>().map_err(|_| Violation("no Tuple".into()))?;
        let want = derive::expect(&spec, &es);
        let shown = || clip(&value.literal(), 500);
        derive::judge(name, conv(*tuple), &want, &shown)?;
        o.evn("fields_checked", want.as_ref().map_or(0, Vec::<Out>::len) as u64);
    }
    o.case(&(&args, &wrapped));
    o.sample(|| format!("({func} {}) -> {}", args.iter().map(V::literal).collect::<Vec<_>>().join(" "), wrapped.literal()));
    Ok(())
}
