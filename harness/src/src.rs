//! Choice source: every workload decision comes from here, either from a
//! seeded generator (monitor engine) or from the fuzzer's bytes.

use std::sync::OnceLock;

/// Constants found in the sources under test (and a few standing ones). They
/// only steer the workload towards boundaries; no oracle looks at them.
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u128>,
    pub small: Vec<usize>,
    pub large: Vec<usize>,
    pub strs: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub static DICT_PATH: std::sync::OnceLock<String> = std::sync::OnceLock::new();

pub fn set_dict(d: Dict) {
    let _ = DICT.set(d);
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

enum Mode<'a> {
    Rng([u64; 4]),
    Bytes(&'a [u8], usize),
}

pub struct Src<'a> {
    mode: Mode<'a>,
    /// Upper bound of rarely drawn big lengths (70_000 by default).
    pub big: usize,
    /// Leaves out what is rare (and large).
    calm: bool,
    /// What this case drew before: coincidences (the same number, name, address
    /// or key in two roles) are drawn on purpose.
    nums: Vec<u128>,
    pub strs: Vec<String>,
    pub hashes: Vec<[u8; 20]>,
    pub keys: Vec<[u8; 32]>,
}

impl<'a> Src<'a> {
    pub fn seeded(seed: u64) -> Src<'static> {
        let a = mix(seed);
        let b = mix(a);
        let c = mix(b);
        let d = mix(c);
        Src { mode: Mode::Rng([a, b, c, d]), big: 70_000, calm: false, nums: vec![], strs: vec![], hashes: vec![], keys: vec![] }
    }

    /// Cases of moderate size only.
    pub fn calm(seed: u64) -> Src<'static> {
        let mut s = Src::seeded(seed);
        s.calm = true;
        s.big = 1500;
        s
    }

    pub fn bytes_mode(data: &'a [u8]) -> Src<'a> {
        Src { mode: Mode::Bytes(data, 0), big: 3000, calm: false, nums: vec![], strs: vec![], hashes: vec![], keys: vec![] }
    }

    pub fn is_fuzz(&self) -> bool {
        matches!(self.mode, Mode::Bytes(..))
    }

    /// Fuzz mode: everything that is left of the input.
    pub fn rest(&mut self) -> Vec<u8> {
        match &mut self.mode {
            Mode::Bytes(d, p) => {
                let r = d[(*p).min(d.len())..].to_vec();
                *p = d.len();
                r
            }
            Mode::Rng(_) => {
                let n = self.len(300);
                self.raw(n)
            }
        }
    }

    fn next(&mut self) -> u64 {
        match &mut self.mode {
            Mode::Rng(s) => {
                let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                r
            }
            Mode::Bytes(..) => u64::from_le_bytes(self.take::<8>()),
        }
    }

    fn take<const N: usize>(&mut self) -> [u8; N] {
        let mut o = [0u8; N];
        if let Mode::Bytes(d, p) = &mut self.mode {
            for b in o.iter_mut() {
                if *p < d.len() {
                    *b = d[*p];
                    *p += 1;
                }
            }
            return o;
        }
        let mut i = 0;
        while i < N {
            let v = self.next().to_le_bytes();
            let k = (N - i).min(8);
            o[i..i + k].copy_from_slice(&v[..k]);
            i += k;
        }
        o
    }

    pub fn u8(&mut self) -> u8 {
        match self.mode {
            Mode::Rng(_) => self.next() as u8,
            Mode::Bytes(..) => self.take::<1>()[0],
        }
    }

    pub fn raw64(&mut self) -> u64 {
        self.next()
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        match self.mode {
            Mode::Rng(_) => (self.next() % n as u64) as usize,
            Mode::Bytes(..) => {
                if n == 1 {
                    0
                } else if n <= 256 {
                    self.take::<1>()[0] as usize % n
                } else if n <= 65536 {
                    u16::from_le_bytes(self.take::<2>()) as usize % n
                } else {
                    (self.next() % n as u64) as usize
                }
            }
        }
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// True once in n.
    pub fn one_in(&mut self, n: usize) -> bool {
        let hit = self.below(n) == n - 1;
        hit && (n < 60 || !self.calm)
    }

    pub fn pick<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        let i = self.below(xs.len());
        &xs[i]
    }

    pub fn raw(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        if self.is_fuzz() {
            for _ in 0..n {
                v.push(self.u8());
            }
        } else {
            while v.len() < n {
                v.extend_from_slice(&self.next().to_le_bytes());
            }
            v.truncate(n);
        }
        v
    }

    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        self.take::<N>()
    }

    /// A boundary-biased unsigned number of `bits` bits.
    pub fn num(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v = match self.below(11) {
            10 if !self.nums.is_empty() => {
                let i = self.below(self.nums.len());
                let v = self.nums[i];
                match self.below(6) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    _ => v,
                }
            }
            0 => self.below(20) as u128,
            1 => {
                // 2^k + small delta
                let k = self.below(bits as usize + 1) as u32;
                let base = if k == 128 { 0 } else { 1u128 << k };
                match self.below(5) {
                    0 => base.wrapping_sub(1),
                    1 => base.wrapping_add(1),
                    2 => base.wrapping_sub(2),
                    _ => base,
                }
            }
            2 => mask - self.below(4) as u128,
            3 => {
                // random width
                let w = self.range(1, bits as usize) as u32;
                let m = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
                self.full() & m
            }
            4 => {
                // powers of ten and neighbours
                let mut p = 1u128;
                for _ in 0..self.below(39) {
                    p = p.wrapping_mul(10);
                }
                p.wrapping_add(self.below(3) as u128).wrapping_sub(1)
            }
            5 | 6 if !dict().ints.is_empty() => {
                let v = *self.pick(&dict().ints);
                match self.below(6) {
                    0 => v.wrapping_sub(1),
                    1 => v.wrapping_add(1),
                    2 => v.wrapping_mul(2),
                    _ => v,
                }
            }
            7 => {
                // repeated byte / sparse bytes
                let b = self.u8() as u128;
                let mut v = 0u128;
                for i in 0..16 {
                    if self.bool() {
                        v |= b << (8 * i);
                    }
                }
                v
            }
            _ => self.full(),
        };
        if self.nums.len() < 64 {
            self.nums.push(v & mask);
        }
        v & mask
    }

    pub fn full(&mut self) -> u128 {
        (u128::from(self.next()) << 64) | u128::from(self.next())
    }

    pub fn u64(&mut self) -> u64 {
        self.num(64) as u64
    }

    pub fn u128(&mut self) -> u128 {
        self.num(128)
    }

    pub fn i128(&mut self) -> i128 {
        match self.below(8) {
            0 => i128::MIN.wrapping_add(self.below(3) as i128),
            1 => i128::MAX.wrapping_sub(self.below(3) as i128),
            2 | 3 => (self.num(127) as i128).wrapping_neg(),
            _ => self.num(128) as i128,
        }
    }

    /// A boundary-biased length in 0..=max.
    pub fn len(&mut self, max: usize) -> usize {
        const B: [usize; 26] = [
            0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 34, 35, 63, 64, 65, 127, 128,
            129, 255, 256,
        ];
        const BIG: [usize; 16] = [
            257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4096, 4097, 8193, 16385, 65535, 65536,
        ];
        let v = match self.below(12) {
            0..=3 => self.below(9.min(max + 1)),
            4..=6 => *self.pick(&B),
            7 if !dict().small.is_empty() => {
                let v = *self.pick(&dict().small);
                match self.below(4) {
                    0 => v.saturating_sub(1),
                    1 => v + 1,
                    _ => v,
                }
            }
            8 if max > 256 => *self.pick(&BIG),
            9 => self.below(max.min(300) + 1),
            10 if max > 300 && self.one_in(4) => self.below(max + 1),
            _ => self.below(40.min(max) + 1),
        };
        if v > max {
            self.below(max.min(64) + 1)
        } else {
            v
        }
    }

    /// One of the given large sizes, or one at a large constant of the source.
    pub fn large(&mut self, xs: &[usize]) -> usize {
        if !dict().large.is_empty() && self.bool() {
            (*self.pick(&dict().large) + 1).saturating_sub(self.below(3))
        } else {
            *self.pick(xs)
        }
    }

    /// Byte string with leading/trailing zero runs and repeated patterns.
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let b = self.u8();
                vec![b; n]
            }
            3 | 4 => {
                // zero prefix
                let z = self.below(n + 1).min(self.below(n + 1));
                let mut v = vec![0; z];
                v.extend(self.raw(n - z));
                v
            }
            5 => match self.below(3) {
                0 => {
                    let s = self.u8();
                    (0..n).map(|i| s.wrapping_add(i as u8)).collect()
                }
                1 => {
                    // zero suffix
                    let z = self.below(n + 1).min(self.below(n + 1));
                    let mut v = self.raw(n - z);
                    v.resize(n, 0);
                    v
                }
                _ => {
                    // mostly zeros or ones, with a few other bytes
                    let mut v = vec![if self.bool() { 0 } else { 0xff }; n];
                    for _ in 0..self.below(4) {
                        if n > 0 {
                            let i = self.below(n);
                            v[i] = self.u8();
                        }
                    }
                    v
                }
            },
            _ => self.raw(n),
        }
    }

    pub fn hash20(&mut self) -> [u8; 20] {
        if !self.hashes.is_empty() && self.one_in(8) {
            let i = self.below(self.hashes.len());
            return self.hashes[i];
        }
        let v = self.bytes(20);
        let mut o = [0u8; 20];
        o.copy_from_slice(&v);
        self.keep_hash(o);
        o
    }

    pub fn keep_hash(&mut self, h: [u8; 20]) {
        if self.hashes.len() < 64 {
            self.hashes.push(h);
        }
    }

    pub fn keep_str(&mut self, t: &str) {
        if self.strs.len() < 64 && t.len() <= 300 {
            self.strs.push(t.to_string());
        }
    }

    /// Now and then a text this case used before, of at most `max` bytes.
    pub fn old_str(&mut self, max: usize, n: usize) -> Option<String> {
        if self.strs.is_empty() || !self.one_in(n) {
            return None;
        }
        let i = self.below(self.strs.len());
        Some(self.strs[i].clone()).filter(|t| t.len() <= max)
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
