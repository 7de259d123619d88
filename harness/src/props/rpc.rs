//! C17, C18: the node client against a scripted loopback server.

use std::cell::RefCell;

use stacks_rs::rpc as r;
use stacks_rs::rpc::StacksRPC;
use stacks_rs::transaction as t;

use crate::engine::*;
use crate::gen;
use crate::http::*;
use crate::json::{self, J};
use crate::model::*;
use crate::src::*;
use crate::tx::*;

thread_local! {
    static SRV: RefCell<Option<(Server, u64, u64)>> = const { RefCell::new(None) };
}

/// Runs `f` with this thread's server; listens anew now and then.
pub(super) fn with_server<T>(fresh: bool, f: impl FnOnce(&Server) -> T) -> T {
    SRV.with(|c| {
        let mut g = c.borrow_mut();
        let renew = match &*g {
            None => Some(u64::from(std::process::id())),
            Some((_, n, k)) if *n > 1500 || fresh => Some(k + 1),
            _ => None,
        };
        if let Some(k) = renew {
            *g = None;
            *g = Some((Server::start(k), 0, k));
        }
        let Some((s, n, _)) = g.as_mut() else { panic!("harness: server") };
        *n += 1;
        f(s)
    })
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Op {
    Info,
    Address,
    Fee,
    Broadcast,
    ReadOnly,
}

const OPS: [Op; 5] = [Op::Info, Op::Address, Op::Fee, Op::Broadcast, Op::ReadOnly];

/// One client call with the caller's data.
#[derive(Clone)]
struct Call {
    op: Op,
    /// Made earlier with the same client, and what the node did then.
    before: Vec<(Call, Script)>,
    prefix: String,
    addr: String,
    tx: t::Transaction,
    /// The oracle's payload and transaction bytes, if they exist.
    payload: Option<Vec<u8>>,
    bytes: Option<Vec<u8>>,
    contract: (String, String),
    func: String,
    args: Vec<V>,
    sender: String,
}

#[derive(Debug)]
enum Out {
    Info(Result<r::NodeInfoResponse, r::Error>),
    Address(Result<r::AddressInfoResponse, r::Error>),
    Fee(Result<r::EstimateFeeResponse, r::Error>),
    Broadcast(Result<r::BroadcastResponse, r::Error>),
    ReadOnly(Result<r::ReadOnlyResponse, r::Error>),
}

impl Out {
    fn err(&self) -> Option<&r::Error> {
        match self {
            Out::Info(Err(e)) | Out::Address(Err(e)) | Out::Fee(Err(e)) | Out::Broadcast(Err(e)) | Out::ReadOnly(Err(e)) => {
                Some(e)
            }
            _ => None,
        }
    }
}

/// Clarity names: letters, digits and the punctuation the language allows.
pub(super) fn clarity_name(s: &mut Src, func: bool) -> String {
    let n = match s.below(6) {
        0 => s.range(1, 128),
        1 => 128,
        _ => s.range(1, 24),
    };
    let mut o = String::new();
    o.push(*s.pick(&['a', 'Z', 'g', 'n']));
    while o.len() < n {
        let c = match s.below(6) {
            0 => '-',
            1 => '_',
            2 => *s.pick(&['0', '9', '5']),
            3 if func => *s.pick(&['!', '?', '+', '<', '>', '=', '/', '*']),
            _ => (b'a' + s.u8() % 26) as char,
        };
        o.push(c);
    }
    o
}

/// A name, now and then with characters that mean something in a URL.
fn odd_name(s: &mut Src, func: bool) -> String {
    let mut n = clarity_name(s, func);
    if s.one_in(10) {
        let i = s.range(1, n.len());
        let t = *s.pick(&["%", "%41", "%2F", "%2f", "%25", "%3F", "%", "%4", "%zz", "%%41", "#", "&", " ", "+", "@", ":", ";", ",", "$", "\"", "\\", "|", "^", "{", "'", "(", "[", "`", "~", "\u{e9}"]);
        n.insert_str(i, t);
    }
    n
}

fn sender(s: &mut Src) -> String {
    let a = gen::addr(s);
    if s.one_in(3) {
        format!("{a}.{}", clarity_name(s, false))
    } else {
        a
    }
}

/// Whatever a caller may pass as text.
fn free_text(s: &mut Src) -> String {
    let n = s.len(60);
    (0..n)
        .map(|_| match s.below(6) {
            0 => *s.pick(&['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\0', '\u{1f}', '\u{7f}']),
            1 => *s.pick(&['\u{80}', '\u{e9}', '\u{2028}', '\u{ffff}', '\u{1f600}', '\u{10ffff}', '{', '}', '%', '&', '\'']),
            _ => char::from(s.range(0x20, 0x7e) as u8),
        })
        .collect()
}

/// Puts the same fields into a condition of the model and of the library.
pub(super) fn fields(s: &mut Src, m: &mut Cond, l: &mut dyn t::SpendingCondition) {
    let n = if matches!(m, Cond::Single { .. }) { 1 } else { s.below(5) };
    for _ in 0..n {
        let cmd = match m {
            Cond::Single { sig, .. } => {
                *sig = s.arr();
                t::Modification::SetSignature((*sig).into())
            }
            Cond::Multi { fields, .. } if s.bool() => {
                let k = pubkey(&gen_key(s));
                fields.push(Field::Key(k.serialize()));
                t::Modification::AddPublicKey(k)
            }
            Cond::Multi { fields, .. } => {
                let x: [u8; 65] = s.arr();
                fields.push(Field::Sig(x));
                t::Modification::AddSignature(x.into())
            }
        };
        // a refusal shows as a difference in what is sent
        let _ = l.modify(cmd);
    }
}

fn gen_call(s: &mut Src, op: Op, break_it: bool) -> Call {
    let sp = s.one_in(4);
    let mut c = gen_case(s, sp);
    let mut args = gen::args(s);
    while args.iter().map(V::weight).sum::<usize>() > 8000 {
        args.truncate(args.len() / 2);
    }
    if s.one_in(250) {
        // more than 64 kB
        let n = *s.pick(&[60_000, 65_535, 65_536, 70_000, 131_072, 300_000]);
        let b = s.u8();
        let v = V::Buf(vec![b; n]);
        if let Pay::Call { args, .. } = &mut c.tx.payload {
            args.push(v.clone());
        } else {
            c.tx.payload = Pay::Call { ver: 22, hash: s.hash20(), contract: "c".into(), func: "f".into(), args: vec![v.clone()] };
        }
        args.push(v);
    } else if s.one_in(20) {
        for _ in 0..*s.pick(&[7, 8, 9, 16, 17, 40, 100, 255, 256, 257]) {
            let v = V::UInt(s.u128());
            args.push(v);
        }
    }
    if break_it {
        if op == Op::ReadOnly {
            let i = s.below(args.len() + 1);
            let v = match s.below(4) {
                0 => V::Ascii("caf\u{e9}".into()),
                1 => V::Std("SP000".into()),
                2 => V::Con(gen::addr(s), "x".repeat(s.range(129, 300))),
                _ => V::Tuple(vec![("k".repeat(s.range(129, 300)), V::True)]),
            };
            args.insert(i, if s.bool() { V::List(vec![V::None, v]) } else { v });
        } else {
            match s.below(3) {
                0 => {
                    c.tx.payload =
                        Pay::Transfer { to: gen::principal(s), amount: 1, memo: vec![b'm'; s.range(35, 300)] }
                }
                1 => c.tx.payload = Pay::Transfer { to: V::Std("SPX".into()), amount: 1, memo: vec![] },
                _ => c.tx.pcs.push(Pc::Stx { who: V::UInt(1), amount: 1, code: 1 }),
            }
        }
    }
    let mut tx = lib_tx(&c, false);
    if s.bool() {
        // any signatures and keys, complete or not: the client only carries them
        fields(s, &mut c.tx.origin, tx.auth.origin_mut());
        if let (Some(m), Ok(l), true) = (&mut c.tx.sponsor, tx.auth.sponsor_mut(), s.bool()) {
            fields(s, m, l);
        }
    }
    let prefix = match s.below(6) {
        0 => "/node".into(),
        1 => "/api/stacks".into(),
        2 | 3 => {
            let words = ["v2", "v1", "v3", "info", "node", "fees", "accounts", "contracts", "call-read", "transactions", "a", "rpc.d", "extended"];
            (0..s.range(1, 4))
                .map(|_| if s.one_in(4) { format!("/{}", clarity_name(s, false)) } else { format!("/{}", s.pick(&words)) })
                .collect()
        }
        _ => String::new(),
    };
    Call {
        op,
        before: vec![],
        prefix,
        addr: sender(s),
        tx,
        payload: c.tx.payload.encode(),
        bytes: c.tx.encode(),
        contract: (gen::addr(s), odd_name(s, false)),
        func: odd_name(s, true),
        args,
        sender: if s.one_in(5) { free_text(s) } else { sender(s) },
    }
}

/// Sometimes the client was used before: for the same call, or for others.
fn earlier(s: &mut Src, c: &mut Call, o: &mut Obs) {
    if !s.one_in(4) {
        return;
    }
    // a longer history: now and then one of equal outcomes
    let long = s.one_in(6);
    let n = if long { s.range(3, 12) } else { s.range(1, 2) };
    let kind = if long && s.bool() { Some(s.below(4)) } else { None };
    for _ in 0..n {
        let mut x = if s.bool() {
            c.clone()
        } else {
            let op = *s.pick(&OPS);
            gen_call(s, op, false)
        };
        x.before.clear();
        let framing = s.below(3) as u8;
        let mut script = Script::default();
        match kind.unwrap_or_else(|| s.below(4)) {
            0 => {
                let (st, rs) = status_of(s);
                script.pieces = vec![reply(st, rs, "", b"{\"error\":\"x\",\"reason\":\"y\",\"txid\":\"z\"}", framing)];
            }
            1 => script.slam = s.bool(),
            _ => script.pieces = vec![reply(200, "OK", "", good_body(s, x.op).1.as_bytes(), framing)],
        }
        c.before.push((x, script));
        o.ev("earlier_calls_of_the_client");
    }
    if long {
        o.ev("long_client_histories");
    }
}

impl Call {
    fn run(&self, base: &str) -> Out {
        self.run_with(&self.client(base))
    }

    fn client(&self, base: &str) -> StacksRPC {
        StacksRPC::new(format!("{base}{}", self.prefix))
    }

    fn run_with(&self, c: &StacksRPC) -> Out {
        match self.op {
            Op::Info => Out::Info(c.info()),
            Op::Address => Out::Address(c.address(self.addr.as_str())),
            Op::Fee => Out::Fee(c.estimate_fee(&self.tx)),
            Op::Broadcast => Out::Broadcast(c.broadcast(&self.tx)),
            Op::ReadOnly => Out::ReadOnly(c.read_only(
                &self.contract.0,
                &self.contract.1,
                &self.func,
                lib_args(&self.args, 0),
                &self.sender,
            )),
        }
    }

    fn serializable(&self) -> bool {
        match self.op {
            Op::Fee | Op::Broadcast => self.bytes.is_some(),
            Op::ReadOnly => V::Args(self.args.clone()).encode().is_some(),
            _ => true,
        }
    }

    fn segments(&self) -> Vec<String> {
        let v: Vec<&str> = match self.op {
            Op::Info => vec!["v2", "info"],
            Op::Address => vec!["v2", "accounts", &self.addr],
            Op::Fee => vec!["v2", "fees", "transaction"],
            Op::Broadcast => vec!["v2", "transactions"],
            Op::ReadOnly => vec!["v2", "contracts", "call-read", &self.contract.0, &self.contract.1, &self.func],
        };
        self.prefix.split('/').filter(|x| !x.is_empty()).chain(v).map(String::from).collect()
    }

    /// Runs the call against the server, ruling out that the sandbox (not the
    /// library) failed to connect.
    fn observed(&self, script: &Script) -> (Out, Vec<Req>, usize) {
        for k in 0..3 {
            let (out, log, conns) = with_server(k > 0, |sv| {
                let client = self.client(&format!("http://{}", sv.addr));
                for (c, script) in &self.before {
                    sv.set(script.clone());
                    let _ = c.run_with(&client);
                    let _ = sv.drain();
                }
                sv.set(script.clone());
                let out = self.run_with(&client);
                let log = sv.drain();
                (out, log, sv.conns())
            });
            let unreached = out.err().is_some() && conns == 0 && self.serializable();
            if !unreached || k == 2 {
                return (out, log, conns);
            }
        }
        unreachable!("harness: loop")
    }
}

pub(super) fn percent_decode(x: &str) -> Option<String> {
    let b = x.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            o.extend(unhex(x.get(i + 1..i + 3)?)?);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).ok()
}

pub(super) fn get<'a>(o: &'a J, k: &str) -> Option<&'a J> {
    match o {
        J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
        _ => None,
    }
}

fn keys(o: &J) -> Vec<String> {
    let mut v: Vec<String> = match o {
        J::Obj(v) => v.iter().map(|x| x.0.clone()).collect(),
        _ => vec![],
    };
    v.sort();
    v
}

fn is_hex_of(j: Option<&J>, want: &[u8]) -> bool {
    match j {
        Some(J::Str(x)) => {
            let y = x.strip_prefix("0x").unwrap_or(x);
            unhex(y).as_deref() == Some(want)
        }
        _ => false,
    }
}

fn status_of(s: &mut Src) -> (u16, &'static str) {
    if s.one_in(3) {
        return (s.range(400, 599) as u16, *s.pick(&["", "Conflict", "OK", "Error of the node"]));
    }
    *s.pick(&[
        (409, "Conflict"),
        (422, "Unprocessable Entity"),
        (403, "Forbidden"),
        (400, "Bad Request"),
        (404, "Not Found"),
        (500, "Internal Server Error"),
        (503, "Service Unavailable"),
        (429, "Too Many Requests"),
        (401, "Unauthorized"),
        (413, "Payload Too Large"),
        (418, "Odd"),
        (502, "Bad Gateway"),
        (504, "Gateway Timeout"),
        (408, "Request Timeout"),
    ])
}

pub fn c17(s: &mut Src, o: &mut Obs) -> Res {
    let op = *s.pick(&OPS);
    let break_it = !matches!(op, Op::Info | Op::Address) && s.one_in(4);
    let mut c = gen_call(s, op, break_it);
    earlier(s, &mut c, o);
    // any kind of reply: the request must not depend on it
    let framing = s.below(3) as u8;
    let mut script = Script::default();
    let raw = match s.below(8) {
        6 => {
            // the node takes the request and says nothing
            o.ev("reply_none");
            script.reset = s.bool();
            vec![]
        }
        7 => {
            o.ev("connection_slammed");
            script.slam = true;
            vec![]
        }
        0..=2 => {
            let b = good_body(s, op).1;
            o.ev("reply_good");
            reply(200, "OK", "", b.as_bytes(), framing)
        }
        3 => {
            let (st, rs) = status_of(s);
            o.ev("reply_error_status");
            reply(st, rs, "Retry-After: 0\r\n", b"{\"error\":\"x\",\"reason\":\"y\",\"txid\":\"z\"}", framing)
        }
        4 => {
            o.ev("reply_malformed");
            reply(200, "OK", "", b"{\"okay\":", framing)
        }
        _ => {
            o.ev("reply_cut");
            b"HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 500\r\n\r\n{".to_vec()
        }
    };
    if !raw.is_empty() {
        script.pieces = vec![raw];
    }
    let slam = script.slam;
    let (out, log, conns) = c.observed(&script);
    o.case(&(op, &c.bytes, &c.addr, &c.func, &c.args, &c.sender));
    o.ev(match op {
        Op::Info => "info",
        Op::Address => "address",
        Op::Fee => "estimate_fee",
        Op::Broadcast => "broadcast",
        Op::ReadOnly => "read_only",
    });
    if !c.serializable() {
        ensure(out.err().is_some(), || format!("{op:?} of something unserializable returned {}", show(&out)))?;
        ensure(conns == 0 && log.is_empty(), || format!("{op:?} of something unserializable sent {}", show(&log)))?;
        o.ev("unserializable_not_sent");
        return Ok(());
    }
    if slam {
        ensure(conns == 1, || format!("{op:?} connected {conns} times to a node that closes at once, want exactly one"))?;
        ensure(out.err().is_some(), || format!("{op:?} returned {} without any reply", show(&out)))?;
        return Ok(());
    }
    ensure(log.len() == 1 && conns == 1, || {
        format!("{op:?} sent {} requests on {conns} connections, want exactly one (result {})", log.len(), show(&out))
    })?;
    let q = &log[0];
    o.ev("requests_seen");
    ensure(q.complete, || format!("{op:?}: request body shorter than announced: {}", show(q)))?;
    let post = matches!(op, Op::Fee | Op::Broadcast | Op::ReadOnly);
    eq("method", &q.method.as_str(), &if post { "POST" } else { "GET" })?;
    ensure(!q.target.contains(['?', '#']), || format!("{op:?}: unexpected query in {}", q.target))?;
    let got: Option<Vec<String>> =
        q.target.strip_prefix('/').unwrap_or("\u{0}").split('/').map(percent_decode).collect();
    eq(&format!("{op:?}: path {:?}", q.target), &got, &Some(c.segments()))?;
    let ctype = q.header("content-type").unwrap_or("").to_lowercase();
    match op {
        Op::Info | Op::Address => ensure(q.body.is_empty(), || "GET with a body".into())?,
        Op::Broadcast => {
            eq("content type", &ctype.split(';').next().unwrap_or("").trim(), &"application/octet-stream")?;
            eqb("broadcast body", &q.body, c.bytes.as_deref().unwrap_or(&[]))?;
            o.evn("broadcast_bytes", q.body.len() as u64);
        }
        Op::Fee => {
            eq("content type", &ctype.split(';').next().unwrap_or("").trim(), &"application/json")?;
            let j = json::parse(&q.body).ok_or_else(|| Violation(format!("body is not JSON: {}", show(&q.body))))?.v;
            eq("fee request keys", &keys(&j), &vec!["estimated_len".to_string(), "transaction_payload".into()])?;
            ensure(is_hex_of(get(&j, "transaction_payload"), c.payload.as_deref().unwrap_or(&[])), || {
                format!("transaction_payload: {} want {}", show(&get(&j, "transaction_payload")), hex(c.payload.as_deref().unwrap_or(&[])))
            })?;
            let n = c.bytes.as_ref().map_or(0, Vec::len);
            eq("estimated_len", &get(&j, "estimated_len"), &Some(&J::Num(n.to_string())))?;
        }
        Op::ReadOnly => {
            eq("content type", &ctype.split(';').next().unwrap_or("").trim(), &"application/json")?;
            let j = json::parse(&q.body).ok_or_else(|| Violation(format!("body is not JSON: {}", show(&q.body))))?.v;
            eq("read-only request keys", &keys(&j), &vec!["arguments".to_string(), "sender".into()])?;
            eq("sender", &get(&j, "sender"), &Some(&J::Str(c.sender.clone())))?;
            let Some(J::Arr(a)) = get(&j, "arguments") else { return bad("arguments is no array") };
            eq("number of arguments", &a.len(), &c.args.len())?;
            for (i, (x, v)) in a.iter().zip(&c.args).enumerate() {
                let w = v.encode().unwrap_or_default();
                ensure(is_hex_of(Some(x), &w), || format!("argument {i}: {} want {}", show(x), clip(&hex(&w), 300)))?;
            }
            o.evn("arguments", a.len() as u64);
        }
    }
    o.sample(|| format!("{} {} {}", q.method, q.target, clip(&String::from_utf8_lossy(&q.body), 200)));
    Ok(())
}

// ---- replies ---------------------------------------------------------------

/// What a faithful client must hand out.
#[derive(Debug, Clone, PartialEq)]
enum Exp {
    /// The values, in field order.
    Fields(Vec<J>),
    Fees(Vec<(u64, f64)>),
    FeeErr(String),
    Sent(String),
    Rejected(Vec<String>),
    Called(String),
    CallFailed(String),
    Error,
    /// Reasonable clients differ.
    Unjudged,
}

const INFO: [(&str, u32); 12] = [
    ("peer_version", 64),
    ("pox_consensus", 0),
    ("burn_block_height", 64),
    ("stable_pox_consensus", 0),
    ("stable_burn_block_height", 64),
    ("server_version", 0),
    ("network_id", 32),
    ("parent_network_id", 32),
    ("stacks_tip_height", 64),
    ("stacks_tip", 0),
    ("stacks_tip_consensus_hash", 0),
    ("genesis_chainstate_hash", 0),
];

const ADDR: [(&str, u32); 6] =
    [("balance", 0), ("locked", 0), ("unlock_height", 64), ("nonce", 64), ("balance_proof", 0), ("nonce_proof", 0)];

fn text_value(s: &mut Src) -> String {
    if s.one_in(400) {
        let n = s.large(&[4096, 8192, 65_535, 65_536, 70_000, 131_073, 300_000, 1 << 20, 1_500_000]);
        return gen::ascii(s, n);
    }
    match s.below(5) {
        0 => format!("0x{}", hex(&s.raw(16))),
        1 => String::new(),
        2 => {
            let n = s.len(60);
            gen::text(s, n)
        }
        3 => hex(&s.raw(32)),
        _ => {
            let n = s.below(300);
            gen::ascii(s, n)
        }
    }
}

fn gap(s: &mut Src) -> &'static str {
    if s.below(4) == 0 {
        *s.pick(&[" ", "\n", "\t ", "\r\n  "])
    } else {
        ""
    }
}

fn extra_value(s: &mut Src) -> String {
    (*s.pick(&["null", "true", "12", "-1.5e3", "\"x\"", "[1,[2,{}]]", "{\"a\":{\"b\":[]}}", "\"\\u00e9\"", "[]"])).to_string()
}

fn object(s: &mut Src, mut kv: Vec<(String, String)>) -> String {
    for _ in 0..s.below(3) {
        let k = *s.pick(&["extra", "tip", "pox", "cost_scalar_change_by_byte", "is_fully_synced", "Balance", "okay2", "reason_data"]);
        if kv.iter().all(|x| x.0 != k) {
            let v = extra_value(s);
            kv.push((k.to_string(), v));
        }
    }
    if s.bool() {
        s.shuffle(&mut kv);
    }
    let mut o = format!("{}{{", gap(s));
    for (i, (k, v)) in kv.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(gap(s));
        o.push_str(&json::quote(k, 0));
        o.push_str(gap(s));
        o.push(':');
        o.push_str(gap(s));
        o.push_str(v);
        o.push_str(gap(s));
    }
    o.push('}');
    o.push_str(gap(s));
    o
}

fn typed(s: &mut Src, fields: &[(&str, u32)]) -> String {
    let st = s.u8();
    // fields that hold the same are as good as others
    let alike = s.one_in(4);
    let mut text: Option<String> = None;
    let mut num: Option<u128> = None;
    let kv = fields
        .iter()
        .map(|(k, bits)| {
            let v = if *bits == 0 {
                let t = match &text {
                    Some(t) if alike && s.bool() => t.clone(),
                    _ => text_value(s),
                };
                text = Some(t.clone());
                json::quote(&t, st)
            } else {
                let n = match num {
                    Some(n) if alike && s.bool() && n >> *bits == 0 => n,
                    _ => s.num(*bits),
                };
                num = Some(n);
                dec(n)
            };
            (k.to_string(), v)
        })
        .collect();
    object(s, kv)
}

fn float(s: &mut Src) -> String {
    match s.below(6) {
        0 => dec(s.num(50)),
        1 => format!("{}.{}", s.num(40), s.num(20)),
        2 => format!("{}e-{}", s.num(30), s.below(20)),
        3 => format!("0.{:05}", s.num(16)),
        4 => format!("{}.0", s.num(30)),
        _ => format!("-{}.5", s.num(30)),
    }
}

/// A well-formed reply of the node: status and body.
fn good_body(s: &mut Src, op: Op) -> (u16, String) {
    let st = s.u8();
    match op {
        Op::Info => (200, typed(s, &INFO)),
        Op::Address => (200, typed(s, &ADDR)),
        Op::Fee => {
            let n = if s.one_in(30) { *s.pick(&[8, 16, 17, 64, 100, 256, 1000]) } else { s.below(5) };
            let mut es = vec![];
            let mut last: Option<(String, String)> = None;
            for _ in 0..n {
                let (mut fee, mut rate) = (dec(s.num(64)), float(s));
                if let Some((f, r)) = &last {
                    // like the one before, in part or altogether
                    match s.below(6) {
                        0 => (fee, rate) = (f.clone(), r.clone()),
                        1 => fee.clone_from(f),
                        2 => rate.clone_from(r),
                        _ => {}
                    }
                }
                last = Some((fee.clone(), rate.clone()));
                es.push(object(s, vec![("fee".to_string(), fee), ("fee_rate".to_string(), rate)]));
            }
            (200, object(s, vec![("estimations".into(), format!("[{}]", es.join(",")))]))
        }
        Op::Broadcast => {
            let h = hex(&s.raw(32));
            (200, if s.bool() { json::quote(&h, 0) } else { h })
        }
        Op::ReadOnly => {
            let kv = if s.bool() {
                vec![("okay".to_string(), "true".to_string()), ("result".to_string(), json::quote(&text_value(s), st))]
            } else {
                vec![("okay".to_string(), "false".to_string()), ("cause".to_string(), json::quote(&text_value(s), st))]
            };
            (200, object(s, kv))
        }
    }
}

/// What a node says when it turns a transaction down.
const REASONS: [&str; 26] = [
    "Serialization", "Deserialization", "SignatureValidation", "FeeTooLow", "BadNonce", "NotEnoughFunds", "NoSuchContract",
    "NoSuchPublicFunction", "BadFunctionArgument", "ContractAlreadyExists", "PoisonMicroblocksDoNotConflict",
    "PoisonMicroblockHasUnknownPubKeyHash", "PoisonMicroblockIsInvalid", "BadAddressVersionByte", "NoCoinbaseViaMempool",
    "NoTenureChangeViaMempool", "ServerFailureNoSuchChainTip", "ServerFailureDatabase", "ServerFailureOther",
    "ConflictingNonceInMempool", "TooMuchChaining", "BadTransactionVersion", "TransferRecipientCannotEqualSender",
    "TransferAmountMustBePositive", "EstimatorError", "TemporarilyBlacklisted",
];

fn rejection(s: &mut Src) -> String {
    let st = s.u8();
    let real = s.bool();
    let kv = ["error", "reason", "txid"]
        .iter()
        .map(|k| {
            let v = match (*k, real) {
                ("error", true) => "transaction rejected".to_string(),
                ("reason", true) => (*s.pick(&REASONS)).to_string(),
                ("txid", true) => hex(&s.raw(32)),
                _ => text_value(s),
            };
            (k.to_string(), json::quote(&v, st))
        })
        .collect();
    object(s, kv)
}

/// Reads typed fields out of an object.
fn fields_of(j: &J, fs: &[(&str, u32)]) -> Exp {
    let J::Obj(_) = j else {
        // sequences of exactly the right shape are a matter of taste
        return if matches!(j, J::Arr(a) if a.len() == fs.len()) { Exp::Unjudged } else { Exp::Error };
    };
    let mut out = vec![];
    let mut unjudged = false;
    for (k, bits) in fs {
        let Some(v) = get(j, k) else { return Exp::Error };
        match (v, bits) {
            (J::Str(_), 0) => {}
            (J::Num(t), b) if *b > 0 => match json::uint(t) {
                Some(n) if n < 1u128 << b => {}
                Some(_) => return Exp::Error,
                None => {
                    // integral values in float notation, and -0
                    let f = t.parse::<f64>().unwrap_or(-1.0);
                    if f.fract() == 0.0 && f >= 0.0 {
                        unjudged = true;
                    } else {
                        return Exp::Error;
                    }
                }
            },
            _ => return Exp::Error,
        }
        out.push(v.clone());
    }
    if unjudged {
        return Exp::Unjudged;
    }
    Exp::Fields(out)
}

fn expect(op: Op, status: u16, body: &[u8]) -> Exp {
    let ok = (200..300).contains(&status);
    let text = std::str::from_utf8(body).ok();
    match (op, ok) {
        (Op::Info | Op::Address | Op::ReadOnly, false) => return Exp::Error,
        (Op::Fee, false) => return text.map_or(Exp::Unjudged, |x| Exp::FeeErr(x.into())),
        (Op::Broadcast, true) => return text.map_or(Exp::Unjudged, |x| Exp::Sent(x.into())),
        _ => {}
    }
    if text.is_none() {
        // invalid UTF-8 in a part nobody looks at is not judged
        return Exp::Unjudged;
    }
    let Some(p) = json::parse(body) else { return Exp::Error };
    if p.odd {
        return Exp::Unjudged;
    }
    match op {
        Op::Info => fields_of(&p.v, &INFO),
        Op::Address => fields_of(&p.v, &ADDR),
        Op::Broadcast => match fields_of(&p.v, &[("error", 0), ("reason", 0), ("txid", 0)]) {
            Exp::Fields(v) => Exp::Rejected(
                v.into_iter()
                    .map(|x| match x {
                        J::Str(t) => t,
                        _ => String::new(),
                    })
                    .collect(),
            ),
            e => e,
        },
        Op::Fee => {
            if matches!(&p.v, J::Arr(a) if a.len() == 1) {
                return Exp::Unjudged;
            }
            let Some(J::Arr(a)) = get(&p.v, "estimations") else { return Exp::Error };
            let mut out = vec![];
            let mut unjudged = false;
            for x in a {
                match x {
                    J::Arr(y) if y.len() == 2 => unjudged = true,
                    J::Obj(_) => {
                        let fee = match fields_of(x, &[("fee", 64)]) {
                            Exp::Fields(v) => match &v[0] {
                                J::Num(t) => t.parse().unwrap_or(0),
                                _ => 0,
                            },
                            Exp::Unjudged => {
                                unjudged = true;
                                0
                            }
                            _ => return Exp::Error,
                        };
                        let Some(J::Num(t)) = get(x, "fee_rate") else { return Exp::Error };
                        let f = t.parse::<f64>().unwrap_or(f64::NAN);
                        if !f.is_finite() {
                            unjudged = true;
                        }
                        out.push((fee, f));
                    }
                    _ => return Exp::Error,
                }
            }
            if unjudged {
                return Exp::Unjudged;
            }
            Exp::Fees(out)
        }
        Op::ReadOnly => {
            if matches!(&p.v, J::Arr(a) if a.len() == 2) {
                return Exp::Unjudged;
            }
            let (okay, res, cause) = (get(&p.v, "okay"), get(&p.v, "result"), get(&p.v, "cause"));
            match (okay, res, cause) {
                (Some(J::Bool(true)), Some(J::Str(x)), None) => Exp::Called(x.clone()),
                (Some(J::Bool(false)), None, Some(J::Str(x))) => Exp::CallFailed(x.clone()),
                (Some(J::Bool(_)), Some(J::Str(_)), _) | (Some(J::Bool(_)), _, Some(J::Str(_))) => Exp::Unjudged,
                _ => Exp::Error,
            }
        }
    }
}

fn str_j(x: &str) -> J {
    J::Str(x.into())
}

fn num_j(x: u64) -> J {
    J::Num(x.to_string())
}

/// What the library handed out, in the oracle's terms.
fn actual(out: &Out) -> Exp {
    match out {
        Out::Info(Ok(i)) => Exp::Fields(vec![
            num_j(i.peer_version),
            str_j(&i.pox_consensus),
            num_j(i.burn_block_height),
            str_j(&i.stable_pox_consensus),
            num_j(i.stable_burn_block_height),
            str_j(&i.server_version),
            num_j(u64::from(i.network_id)),
            num_j(u64::from(i.parent_network_id)),
            num_j(i.stacks_tip_height),
            str_j(&i.stacks_tip),
            str_j(&i.stacks_tip_consensus_hash),
            str_j(&i.genesis_chainstate_hash),
        ]),
        Out::Address(Ok(a)) => Exp::Fields(vec![
            str_j(&a.balance),
            str_j(&a.locked),
            num_j(a.unlock_height),
            num_j(a.nonce),
            str_j(&a.balance_proof),
            str_j(&a.nonce_proof),
        ]),
        Out::Fee(Ok(r::EstimateFeeResponse::Ok(f))) => {
            Exp::Fees(f.estimations.iter().map(|e| (e.fee, e.fee_rate)).collect())
        }
        Out::Fee(Ok(r::EstimateFeeResponse::Err(e))) => Exp::FeeErr(e.clone()),
        Out::Broadcast(Ok(r::BroadcastResponse::Ok(x))) => Exp::Sent(x.clone()),
        Out::Broadcast(Ok(r::BroadcastResponse::Err(e))) => {
            Exp::Rejected(vec![e.error.clone(), e.reason.clone(), e.txid.clone()])
        }
        Out::ReadOnly(Ok(r::ReadOnlyResponse::Ok(x))) if x.okay => Exp::Called(x.result.clone()),
        Out::ReadOnly(Ok(r::ReadOnlyResponse::Err(x))) if !x.okay => Exp::CallFailed(x.cause.clone()),
        Out::ReadOnly(Ok(_)) => Exp::Unjudged,
        _ => Exp::Error,
    }
}

fn agrees(got: &Exp, want: &Exp) -> bool {
    match (got, want) {
        (_, Exp::Unjudged) => true,
        (Exp::Fees(a), Exp::Fees(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && (x.1 - y.1).abs() <= y.1.abs() * 4.0 * f64::EPSILON)
        }
        (Exp::Sent(a), Exp::Sent(b)) => {
            a == b || matches!(json::parse(b.as_bytes()).map(|p| p.v), Some(J::Str(x)) if x == *a)
        }
        _ => got == want,
    }
}

/// Damages a JSON text.
fn damage(s: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..s.range(1, 2) {
        let n = b.len();
        match s.below(8) {
            0 => {
                let k = s.below(n + 1);
                b.truncate(k);
            }
            1 if n > 0 => {
                let i = s.below(n);
                b.remove(i);
            }
            2 => {
                let i = s.below(n + 1);
                b.insert(i, *s.pick(b"\"{}[],:0-9eE.tfn \\u\x01\xff"));
            }
            3 => b.extend_from_slice(s.pick(&[&b"}"[..], b"x", b"{}", b" null", b",", b"\0"])),
            4 if n > 0 => {
                let i = s.below(n);
                b[i] = *s.pick(b"\"{}[],:0-9eE.tfn \\u\x01\xff");
            }
            5 if n > 1 => {
                let i = s.below(n);
                let j = s.below(n);
                b.swap(i, j);
            }
            _ if n > 0 => {
                let i = s.below(n);
                b[i] ^= 1 << s.below(7);
            }
            _ => b.clear(),
        }
    }
}

/// One field missing, of another type, or out of range.
fn spoil(s: &mut Src, op: Op, rejected: bool) -> String {
    let (names, bits): (Vec<&str>, Vec<u32>) = match op {
        Op::Info => INFO.iter().copied().unzip(),
        Op::Address => ADDR.iter().copied().unzip(),
        Op::Broadcast => [("error", 0), ("reason", 0), ("txid", 0)].iter().copied().unzip(),
        Op::Fee => [("fee", 64), ("fee_rate", 1)].iter().copied().unzip(),
        Op::ReadOnly => {
            if rejected {
                [("okay", 2), ("cause", 0)].iter().copied().unzip()
            } else {
                [("okay", 3), ("result", 0)].iter().copied().unzip()
            }
        }
    };
    let mut kv: Vec<(String, String)> = names
        .iter()
        .zip(&bits)
        .map(|(k, b)| {
            let v = match b {
                0 => json::quote(&text_value(s), 0),
                1 => float(s),
                2 => "false".into(),
                3 => "true".into(),
                _ => dec(s.num(*b)),
            };
            (k.to_string(), v)
        })
        .collect();
    let i = s.below(kv.len());
    match s.below(4) {
        0 => {
            kv.remove(i);
        }
        1 if bits[i] > 31 => {
            kv[i].1 = match s.below(4) {
                0 => dec(1u128 << bits[i]),
                1 => dec((1u128 << bits[i]) + s.num(60)),
                2 => format!("-{}", s.range(1, 1000)),
                _ => format!("{}.5", s.num(20)),
            }
        }
        2 => {
            let k = kv[i].0.clone();
            kv[i].0 = match s.below(4) {
                0 => k.to_uppercase(),
                1 => format!("{k}_"),
                2 => k.replace('_', "-") + "x",
                _ => k.chars().rev().collect(),
            };
        }
        _ => {
            kv[i].1 = if bits[i] == 0 {
                (*s.pick(&["null", "1", "true", "[]", "{}", "[\"a\"]"])).to_string()
            } else {
                (*s.pick(&["null", "\"1\"", "\"true\"", "[]", "{}", "[1]", "\"\""])).to_string()
            }
        }
    }
    let ob = object(s, kv);
    if op == Op::Fee {
        match s.below(6) {
            0 => return format!("{{\"estimations\":{ob}}}"),
            1 => return ob,
            2 => return "{\"estimations\":null}".into(),
            3 => return "{\"estimation\":[]}".into(),
            _ => {}
        }
        let kv = vec![("fee".to_string(), dec(s.num(64))), ("fee_rate".to_string(), float(s))];
        let good = object(s, kv);
        return if s.bool() { format!("{{\"estimations\":[{ob},{good}]}}") } else { format!("{{\"estimations\":[{good},{ob}]}}") };
    }
    ob
}

pub fn c18(s: &mut Src, o: &mut Obs) -> Res {
    let op = *s.pick(&OPS);
    let mut c = gen_call(s, op, false);
    earlier(s, &mut c, o);
    let framing = s.below(3) as u8;
    let mut status = (200, "OK");
    let mut want = None;
    let mut kind = "";
    let mut cut_text = None;
    // the body, by kind of reply
    let body: Vec<u8> = match s.below(12) {
        0..=3 => {
            kind = "well_formed";
            if s.one_in(6) {
                status = *s.pick(&[(201, "Created"), (202, "Accepted")]);
            }
            good_body(s, op).1.into_bytes()
        }
        4 | 5 => {
            kind = "rejection";
            status = status_of(s);
            match op {
                Op::Broadcast => rejection(s).into_bytes(),
                Op::Fee => {
                    if s.bool() {
                        rejection(s).into_bytes()
                    } else {
                        let n = if s.one_in(40) { s.large(&[5000, 70_000, 131_073, 300_000, 600_000]) } else { s.len(300) };
                        gen::text(s, n).into_bytes()
                    }
                }
                // a success body under an error status is still a failure
                _ => {
                    if s.bool() {
                        good_body(s, op).1.into_bytes()
                    } else {
                        b"nope".to_vec()
                    }
                }
            }
        }
        6 | 7 => {
            kind = "field_spoiled";
            if op == Op::Broadcast {
                status = status_of(s);
            }
            let rej = s.bool();
            spoil(s, op, rej).into_bytes()
        }
        8 | 9 => {
            kind = "damaged_json";
            let mut b = if op == Op::Broadcast {
                status = status_of(s);
                rejection(s)
            } else {
                good_body(s, op).1
            }
            .into_bytes();
            damage(s, &mut b);
            b
        }
        10 => {
            kind = "other_json";
            if op == Op::Broadcast {
                status = status_of(s);
            }
            (*s.pick(&["null", "true", "0", "\"\"", "\"abc\"", "[]", "{}", "[[]]", "", " ", "{\"okay\":true}", "{\"okay\":false}", "<html></html>", "{\"estimations\":{}}", "{\"error\":\"a\"}"]))
                .as_bytes()
                .to_vec()
        }
        _ => vec![],
    };
    let script = if kind.is_empty() {
        // the connection itself fails
        want = Some(Exp::Error);
        // no space at the end: every cut leaves it incomplete
        let b = good_body(s, op).1.trim_end().as_bytes().to_vec();
        let (st, rs) = if s.one_in(3) { status_of(s) } else { (200, "OK") };
        match s.below(9) {
            0 => {
                kind = "no_reply";
                Script::default()
            }
            1 => {
                kind = "slammed";
                Script { slam: true, ..Script::default() }
            }
            2 => {
                kind = "reset";
                Script { reset: true, ..Script::default() }
            }
            3 => {
                kind = "not_http";
                Script { pieces: vec![s.pick(&[&b"garbage\r\n\r\n"[..], b"\0\0\0\0", b"HTTP/1.1\r\n\r\n", b"HTTP/1.1 abc OK\r\n\r\n", b"200 OK\r\n\r\n{}", b"\r\n\r\n"]).to_vec()], ..Script::default() }
            }
            4 => {
                kind = "cut_in_headers";
                let full = reply(st, rs, "X-A: b\r\n", &b, 0);
                let h = full.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(10);
                let k = s.range(1, h);
                Script { pieces: vec![full[..k].to_vec()], ..Script::default() }
            }
            5 | 6 => {
                kind = "cut_in_body";
                let full = reply(st, rs, "", &b, 0);
                let h = full.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(10) + 4;
                let k = s.range(h, full.len() - 1);
                Script { pieces: vec![full[..k].to_vec()], ..Script::default() }
            }
            7 => {
                kind = "cut_in_chunks";
                let full = reply(st, rs, "", &b, 1);
                let h = full.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(10) + 4;
                // the last chunk header and its line end may be forgiven
                let k = s.range(h, full.len() - 8);
                cut_text = Some(b.clone());
                Script { pieces: vec![full[..k].to_vec()], ..Script::default() }
            }
            _ => {
                kind = "bad_chunk_size";
                let mut full = format!("HTTP/1.1 {st} {rs}\r\nConnection: close\r\nTransfer-Encoding: chunked\r\n\r\n").into_bytes();
                full.extend_from_slice(b"zz\r\n");
                full.extend_from_slice(&b);
                full.extend_from_slice(b"\r\n0\r\n\r\n");
                Script { pieces: vec![full], ..Script::default() }
            }
        }
    } else {
        let ct = *s.pick(&["Content-Type: application/json\r\n", "Content-Type: text/plain\r\n", "", "content-type: application/json; charset=utf-8\r\n"]);
        let full = reply(status.0, status.1, ct, &body, framing);
        // delivered in one or several pieces
        let slow = if s.one_in(3000) { *s.pick(&[200, 800, 2200, 5500]) } else { 0 };
        if slow > 0 {
            o.ev("slow_replies");
        }
        let pieces = if s.one_in(4) && full.len() > 2 {
            let k = s.range(1, full.len() - 1);
            vec![full[..k].to_vec(), full[k..].to_vec()]
        } else {
            vec![full]
        };
        Script { pieces, slow, ..Script::default() }
    };
    let want = want.unwrap_or_else(|| expect(op, status.0, &body));
    o.case(&(op, kind, &body, status.0, framing, &script.pieces));
    o.ev(kind);
    o.ev(match op {
        Op::Info => "info",
        Op::Address => "address",
        Op::Fee => "estimate_fee",
        Op::Broadcast => "broadcast",
        Op::ReadOnly => "read_only",
    });
    let (out, _, _) = if s.one_in(300) {
        // nobody listens there
        o.ev("refused_connection");
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| panic!("harness: {e}"));
        let a = l.local_addr().unwrap_or_else(|e| panic!("harness: {e}"));
        drop(l);
        let out = c.run(&format!("http://{a}"));
        ensure(out.err().is_some(), || format!("{op:?} to a closed port returned {}", show(&out)))?;
        return Ok(());
    } else {
        c.observed(&script)
    };
    let got = actual(&out);
    o.ev(match &want {
        Exp::Error => "expect_error",
        Exp::Unjudged => "unjudged",
        Exp::FeeErr(_) | Exp::Rejected(_) | Exp::CallFailed(_) => "expect_reported_failure",
        _ => "expect_data",
    });
    // KNOWN FINDING (see known-findings.txt): a plain-text reply cut inside the
    // chunked framing is handed out as far as it came, because the HTTP client
    // takes the end of the stream for the end of the body.
    if let (Some(b), Exp::Sent(x) | Exp::FeeErr(x)) = (&cut_text, &got) {
        if b.starts_with(x.as_bytes()) {
            o.ev("known_finding_text_cut_in_chunks");
            return Ok(());
        }
    }
    ensure(agrees(&got, &want), || {
        format!(
            "{op:?} ({kind}, status {}): got {} want {}; raw result {}; reply {}",
            status.0,
            show(&got),
            show(&want),
            show(&out),
            clip(&String::from_utf8_lossy(&script.pieces.concat()), 600)
        )
    })?;
    if let Out::Broadcast(Ok(b)) = &out {
        let shown = b.to_string();
        match b {
            r::BroadcastResponse::Ok(x) => ensure(shown.contains(x.as_str()), || "printed broadcast result lacks the id".into())?,
            r::BroadcastResponse::Err(e) => {
                ensure(shown.contains(e.reason.as_str()), || "printed rejection lacks the reason".into())?;
            }
        }
    }
    o.sample(|| format!("{op:?} {kind} -> {}", show(&got)));
    Ok(())
}
