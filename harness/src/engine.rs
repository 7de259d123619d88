//! Shared vocabulary of the monitors.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use crate::src::Src;

/// A property violation: what was observed against what the oracle says.
#[derive(Debug, Clone)]
pub struct Violation(pub String);

pub type Res = Result<(), Violation>;

pub fn bad<T>(msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation(msg.into()))
}

/// Compact rendering of possibly huge values for messages.
pub fn show(x: &impl Debug) -> String {
    let s = format!("{x:?}");
    clip(&s, 700)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| (c as char).to_digit(16).map(|x| x as u8);
    b.chunks(2).map(|c| Some((d(c[0])? << 4) | d(c[1])?)).collect()
}

pub fn eq<T: PartialEq + Debug>(what: &str, got: &T, want: &T) -> Res {
    if got == want {
        Ok(())
    } else {
        bad(format!("{what}: got {} want {}", show(got), show(want)))
    }
}

pub fn eqb(what: &str, got: &[u8], want: &[u8]) -> Res {
    if got == want {
        return Ok(());
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    bad(format!(
        "{what}: bytes differ at offset {at} (got {} bytes, want {}): got {} want {}",
        got.len(),
        want.len(),
        clip(&hex(got), 500),
        clip(&hex(want), 500)
    ))
}

pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> Res {
    if c {
        Ok(())
    } else {
        Err(Violation(msg()))
    }
}

/// Unwraps a library result that the oracle says must be `Ok`.
pub fn must<T, E: Debug>(what: &str, r: Result<T, E>) -> Result<T, Violation> {
    r.map_err(|e| Violation(format!("{what}: unexpected error {}", show(&e))))
}

/// Requires a library result to be an error.
pub fn must_err<T, E>(what: &str, r: Result<T, E>) -> Result<E, Violation> {
    match r {
        Ok(_) => bad(format!("{what}: succeeded, must be an error")),
        Err(e) => Ok(e),
    }
}

/// What the monitors observed.
#[derive(Default)]
pub struct Obs {
    pub cases: u64,
    pub judged: u64,
    pub events: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub trivial: u64,
    pub want_sample: bool,
}

impl Obs {
    pub fn ev(&mut self, k: &'static str) {
        *self.events.entry(k).or_insert(0) += 1;
    }

    pub fn evn(&mut self, k: &'static str, n: u64) {
        *self.events.entry(k).or_insert(0) += n;
    }

    /// Registers the essence of a non-trivial case.
    pub fn case(&mut self, h: &impl Hash) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.judged += 1;
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(s.finish());
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            self.samples.push(clip(&f(), 600));
        }
    }
}

pub type PropFn = fn(&mut Src, &mut Obs) -> Res;
