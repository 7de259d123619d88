//! vh: runs the workloads and monitors against the library in /repo.
//!
//!   vh run  --prop C01 --seed 1 --worker 0 --workers 8 --secs 10 --out DIR [--dict F] [--cases N]
//!   vh one  --prop C01 --case 0x... | --bytes HEXFILE  [--dict F]
//!   vh fuzz --prop C01 --out DIR [--dict F] -- <libFuzzer arguments>

mod alloc;
mod derived;
mod engine;
mod gen;
mod http;
mod json;
mod model;
mod oracle;
mod props;
mod src;
mod tx;

use std::collections::HashMap;
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use engine::*;
use serde_json::json;
use src::*;

#[global_allocator]
static A: alloc::Watch = alloc::Watch;

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if let Ok(mut g) = PANIC.lock() {
            if g.is_none() {
                *g = Some((loc, msg));
            }
        }
    }));
}

enum Outcome {
    Held,
    Violated(String),
    Harness(String),
}

/// Runs one case under the monitors.
fn run_case(f: PropFn, s: &mut Src, o: &mut Obs) -> Outcome {
    o.cases += 1;
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(s, o)));
    let p = PANIC.lock().ok().and_then(|mut g| g.take());
    if let Some((loc, msg)) = p {
        if loc.starts_with("src/") && !loc.starts_with("src/derived.rs") {
            return Outcome::Harness(format!("panic at {loc}: {msg}"));
        }
        return Outcome::Violated(format!("panic at {loc}: {}", clip(&msg, 400)));
    }
    match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(Violation(m))) => Outcome::Violated(m),
        Err(_) => Outcome::Harness("panic without a record".into()),
    }
}

fn load_dict(path: Option<&String>) {
    let mut d = Dict::default();
    if let Some(p) = path {
        let _ = DICT_PATH.set(p.clone());
        let t = std::fs::read_to_string(p).unwrap_or_else(|e| die(&format!("dict {p}: {e}")));
        let j: serde_json::Value = serde_json::from_str(&t).unwrap_or_else(|e| die(&format!("dict: {e}")));
        for x in j["ints"].as_array().into_iter().flatten() {
            if let Some(v) = x.as_str().and_then(|s| s.parse::<u128>().ok()) {
                d.ints.push(v);
                if v > 0 && v <= 5000 {
                    d.small.push(v as usize);
                } else if v > 5000 && v <= 1_200_000 {
                    d.large.push(v as usize);
                }
            }
        }
        for x in j["strs"].as_array().into_iter().flatten() {
            if let Some(v) = x.as_str() {
                d.strs.push(v.to_string());
            }
        }
    }
    set_dict(d);
}

fn die(m: &str) -> ! {
    eprintln!("harness error: {m}");
    std::process::exit(2)
}

fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ u64::from(b));
    }
    mix(h ^ mix(i))
}

fn stats(o: &Obs, secs: f64, extra: serde_json::Value) -> serde_json::Value {
    json!({
        "cases": o.cases.max(o.judged),
        "events": o.events,
        "distinct": o.distinct.len(),
        "samples": o.samples,
        "secs": secs,
        "outcome": extra,
    })
}

fn write_hashes(dir: &str, tag: &str, o: &Obs) {
    let mut b = Vec::with_capacity(o.distinct.len().min(60_000) * 8);
    let mut v: Vec<u64> = o.distinct.iter().copied().collect();
    v.sort_unstable();
    for h in v.iter().take(60_000) {
        b.extend_from_slice(&h.to_le_bytes());
    }
    let _ = std::fs::write(format!("{dir}/{tag}.hashes"), b);
}

/// A shared 8-byte cell on disk that survives a crash of this process.
fn progress_cell(path: &str) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .read(true)
        .write(true)
        .open(path)
        .unwrap_or_else(|e| die(&format!("{path}: {e}")));
    f.set_len(8).unwrap_or_else(|e| die(&format!("{path}: {e}")));
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        if p == libc::MAP_FAILED {
            die("mmap");
        }
        p.cast()
    }
}

fn cmd_run(a: &HashMap<String, String>) -> i32 {
    let prop = a.get("prop").cloned().unwrap_or_default();
    let f = props::find(&prop).unwrap_or_else(|| die("unknown property"));
    let n = |k: &str, d: u64| a.get(k).map_or(d, |v| v.parse().unwrap_or_else(|_| die(k)));
    let (seed, w, ws) = (n("seed", 1), n("worker", 0), n("workers", 1));
    let secs = Duration::from_millis(n("ms", 5000));
    let max = n("cases", u64::MAX);
    let dir = a.get("out").cloned().unwrap_or_else(|| die("--out"));
    let cell = progress_cell(&format!("{dir}/w{w}.progress"));
    let t0 = Instant::now();
    let mut o = Obs::default();
    let mut out = json!({"kind": "held"});
    let mut code = 0;
    let mut k = 0u64;
    let mut slowest = (0u64, 0u64);
    while t0.elapsed() < secs && k < max {
        let cs = case_seed(seed, &prop, k * ws + w);
        unsafe { std::ptr::write_volatile(cell, cs) };
        o.want_sample = k == 3 || k == 40 || k == 500;
        let c0 = Instant::now();
        let outcome = run_case(f, &mut Src::seeded(cs), &mut o);
        let ms = c0.elapsed().as_millis() as u64;
        if ms > slowest.0 {
            slowest = (ms, cs);
        }
        match outcome {
            Outcome::Held => {}
            Outcome::Violated(m) => {
                out = json!({"kind": "violation", "case": format!("{cs:#x}"), "message": m});
                code = 1;
                break;
            }
            Outcome::Harness(m) => {
                out = json!({"kind": "harness", "case": format!("{cs:#x}"), "message": m});
                code = 2;
                break;
            }
        }
        k += 1;
    }
    unsafe { std::ptr::write_volatile(cell, 0) };
    write_hashes(&dir, &format!("w{w}"), &o);
    let mut j = stats(&o, t0.elapsed().as_secs_f64(), out);
    j["slowest"] = json!([slowest.0, format!("{:#x}", slowest.1)]);
    if let Err(e) = std::fs::write(format!("{dir}/w{w}.json"), j.to_string()) {
        die(&e.to_string());
    }
    code
}

fn cmd_one(a: &HashMap<String, String>) -> i32 {
    let prop = a.get("prop").cloned().unwrap_or_default();
    let f = props::find(&prop).unwrap_or_else(|| die("unknown property"));
    let mut o = Obs { want_sample: true, ..Obs::default() };
    let r = if let Some(c) = a.get("case") {
        let c = u64::from_str_radix(c.trim_start_matches("0x"), 16).unwrap_or_else(|_| die("--case"));
        run_case(f, &mut Src::seeded(c), &mut o)
    } else {
        let p = a.get("bytes").cloned().unwrap_or_else(|| die("--case or --bytes"));
        let b = std::fs::read(p).unwrap_or_else(|e| die(&e.to_string()));
        run_case(f, &mut Src::bytes_mode(&b), &mut o)
    };
    for x in &o.samples {
        println!("case: {x}");
    }
    match r {
        Outcome::Held => {
            println!("held");
            0
        }
        Outcome::Violated(m) => {
            println!("violated: {m}");
            1
        }
        Outcome::Harness(m) => {
            println!("harness error: {m}");
            2
        }
    }
}

// ---- coverage-guided engine ------------------------------------------------

struct Fz {
    f: PropFn,
    o: Obs,
    dir: String,
    tag: String,
    t0: Instant,
}

static FZ: Mutex<Option<Fz>> = Mutex::new(None);

extern "C" fn fuzz_one(data: *const u8, n: usize) -> i32 {
    let b: &[u8] = if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(data, n) } };
    let mut g = match FZ.lock() {
        Ok(g) => g,
        Err(_) => return 0,
    };
    let Some(z) = g.as_mut() else { return 0 };
    z.o.want_sample = z.o.cases == 2000 || z.o.cases == 20_000;
    let r = run_case(z.f, &mut Src::bytes_mode(b), &mut z.o);
    let (kind, m) = match r {
        Outcome::Held => return 0,
        Outcome::Violated(m) => ("violation", m),
        Outcome::Harness(m) => ("harness", m),
    };
    let _ = std::fs::write(format!("{}/{}.input", z.dir, z.tag), b);
    let j = stats(
        &z.o,
        z.t0.elapsed().as_secs_f64(),
        json!({"kind": kind, "bytes": hex(b), "message": m}),
    );
    let _ = std::fs::write(format!("{}/{}.json", z.dir, z.tag), j.to_string());
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(77) }
}

extern "C" fn fuzz_end() {
    if let Ok(g) = FZ.lock() {
        if let Some(z) = g.as_ref() {
            write_hashes(&z.dir, &z.tag, &z.o);
            let j = stats(&z.o, z.t0.elapsed().as_secs_f64(), json!({"kind": "held"}));
            let _ = std::fs::write(format!("{}/{}.json", z.dir, z.tag), j.to_string());
        }
    }
}

#[cfg(feature = "fuzz")]
extern "C" {
    fn LLVMFuzzerRunDriver(
        argc: *mut i32,
        argv: *mut *mut *mut libc::c_char,
        cb: extern "C" fn(*const u8, usize) -> i32,
    ) -> i32;
}

#[cfg(feature = "fuzz")]
fn cmd_fuzz(a: &HashMap<String, String>, rest: &[String]) -> i32 {
    let prop = a.get("prop").cloned().unwrap_or_default();
    let f = props::find(&prop).unwrap_or_else(|| die("unknown property"));
    let dir = a.get("out").cloned().unwrap_or_else(|| die("--out"));
    let tag = a.get("tag").cloned().unwrap_or_else(|| "f0".into());
    *FZ.lock().unwrap() = Some(Fz { f, o: Obs::default(), dir, tag, t0: Instant::now() });
    unsafe {
        libc::atexit(fuzz_end);
    }
    let mut args: Vec<*mut libc::c_char> = std::iter::once("vh")
        .chain(rest.iter().map(String::as_str))
        .map(|s| std::ffi::CString::new(s).unwrap().into_raw())
        .collect();
    args.push(std::ptr::null_mut());
    let mut argc = args.len() as i32 - 1;
    let mut argv = args.as_mut_ptr();
    unsafe { LLVMFuzzerRunDriver(&mut argc, &mut argv, fuzz_one) }
}

#[cfg(not(feature = "fuzz"))]
fn cmd_fuzz(_: &HashMap<String, String>, _: &[String]) -> i32 {
    let _ = (fuzz_one as usize, fuzz_end as usize);
    die("built without the fuzz feature")
}

fn main() {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let cmd = argv.first().cloned().unwrap_or_default();
    let mut a = HashMap::new();
    let mut rest = vec![];
    let mut i = 1;
    while i < argv.len() {
        if argv[i] == "--" {
            rest = argv[i + 1..].to_vec();
            break;
        }
        let k = argv[i].trim_start_matches("--").to_string();
        let v = argv.get(i + 1).cloned().unwrap_or_else(|| die("missing value"));
        a.insert(k, v);
        i += 2;
    }
    load_dict(a.get("dict"));
    install_hook();
    // workloads nest deeply on purpose: run them on a roomy stack
    let stack = a.get("stack").map_or(256, |v| v.parse().unwrap_or_else(|_| die("stack")));
    let code = std::thread::Builder::new()
        .stack_size(stack << 20)
        .spawn(move || match cmd.as_str() {
            "run" => cmd_run(&a),
            "one" => cmd_one(&a),
            "fuzz" => cmd_fuzz(&a, &rest),
            "deep" => {
                // the known finding: decoding recurses once per nesting level
                let n: usize = a.get("levels").map_or(1_000_000, |v| v.parse().unwrap_or_else(|_| die("levels")));
                let mut b = vec![0x0a; n];
                b.push(0x09);
                let r = stacks_rs::clarity::decode_clarity_type(&b);
                println!("{}", if r.is_ok() { "decoded" } else { "rejected" });
                std::mem::forget(r);
                0
            }
            "jobs" => {
                let c = a.get("case").and_then(|c| u64::from_str_radix(c.trim_start_matches("0x"), 16).ok());
                let only = a.get("only").map(|v| v.parse().unwrap_or_else(|_| die("only")));
                props::threads::child(c.unwrap_or_else(|| die("--case")), only);
                0
            }
            _ => die("usage: vh run|one|fuzz ..."),
        })
        .unwrap_or_else(|e| die(&e.to_string()))
        .join()
        .unwrap_or(2);
    std::process::exit(code)
}
