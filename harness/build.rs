//! Linker flags for the coverage-guided build, and a population of derived structs.

use std::fmt::Write;

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n
    }
    fn pick<'a>(&mut self, xs: &[&'a str]) -> &'a str {
        xs[self.below(xs.len())]
    }
}

const WORDS: [&str; 28] = [
    "amount", "balance", "block", "height", "owner", "name", "is", "ok", "err", "value", "key", "id", "list", "token", "uri",
    "data", "a", "b", "x", "y", "total", "supply", "locked", "some", "none", "tuple", "text", "u",
];

const NAMES: [&str; 24] = [
    "value", "tuple", "key", "result", "err", "ok", "x", "any", "list", "inner", "r#type", "r#match", "r#fn", "_unused", "a1", "error",
    "some", "none", "v", "t", "cast", "into", "camelCase", "this",
];

const TYPES: [(&str, &str, &str); 13] = [
    ("i128", "I", ""),
    ("u128", "U", ""),
    ("bool", "B", ""),
    ("String", "S", ""),
    ("Vec<u8>", "Buf", ""),
    ("std::vec::Vec<u8>", "Buf", ""),
    ("Vec<String>", "VecS", ""),
    ("Option<i128>", "OptI", ""),
    ("Option<u128>", "OptU", ""),
    ("Option<String>", "OptS", ""),
    ("i128", "RespI", ", response"),
    ("u128", "RespU", ", response"),
    ("u128", "U", ", response = false"),
];

fn key(r: &mut Rng, used: &[String]) -> String {
    if !used.is_empty() && r.below(4) == 0 {
        let k = &used[r.below(used.len())];
        return match r.below(6) {
            0 => format!("{k}-{}", r.pick(&WORDS)),
            1 => format!("{}-{k}", r.pick(&WORDS)),
            2 => k.to_uppercase(),
            3 => k.replace('-', "_"),
            4 => format!("{k}{k}"),
            _ => k[..k.char_indices().map(|x| x.0).last().unwrap_or(0)].to_string(),
        };
    }
    match r.below(12) {
        0 => "k".repeat(1 + r.below(120)),
        1 => format!("{}{}", r.pick(&WORDS), r.below(1000)),
        2 => format!("{}?", r.pick(&WORDS)),
        3 | 4 => r.pick(&WORDS).to_string(),
        _ => (0..2 + r.below(2)).map(|_| r.pick(&WORDS)).collect::<Vec<_>>().join("-"),
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    if std::env::var_os("CARGO_FEATURE_FUZZ").is_some() {
        println!("cargo:rustc-link-arg-bins=/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a");
        println!("cargo:rustc-link-arg-bins=-lstdc++");
    }
    let mut r = Rng(1);
    let mut out = String::new();
    let n = 72;
    let mut leaves = vec![0; n];
    for i in 0..n {
        let nf = match r.below(12) {
            0 | 1 => 1,
            2 => 12 + r.below(22),
            _ => 2 + r.below(7),
        };
        let mut used: Vec<(String, &str)> = vec![];
        let (mut decl, mut probe) = (String::new(), String::new());
        for f in 0..nf {
            let ks: Vec<String> = used.iter().map(|x| x.0.clone()).collect();
            let (mut ty, mut kind, mut attr) = TYPES[r.below(TYPES.len())];
            let j = r.below(i + 1);
            let nested = i > 8 && r.below(6) == 0 && j < i && leaves[j] <= 8;
            let inner = if nested { format!("G{j}") } else { String::new() };
            let mut k = key(&mut r, &ks);
            if k.len() > 128 {
                k.truncate(128);
            }
            let mut nest = nested;
            if let Some(u) = used.iter().find(|u| u.0 == k) {
                // one key for two fields: as text, or as the same type
                nest = false;
                (ty, kind, attr) = if r.below(2) == 0 { ("String", "S", "") } else { *TYPES.iter().find(|t| t.1 == u.1).unwrap_or(&TYPES[3]) };
            }
            let name = if f < NAMES.len() && r.below(2) == 0 { NAMES[f].to_string() } else { format!("f{f}") };
            used.push((k.clone(), if nest { "T" } else { kind }));
            leaves[i] += if nest { leaves[j] } else { 1 };
            if nest {
                let _ = writeln!(decl, "    #[stacks(key = {k:?})]\n    pub {name}: {inner},");
                let _ = write!(probe, "{name}: ({inner}) {k:?}, ");
            } else {
                let _ = writeln!(decl, "    #[stacks(key = {k:?}{attr})]\n    pub {name}: {ty},");
                let _ = write!(probe, "{name}: {kind} {k:?}, ");
            }
        }
        let _ = writeln!(out, "#[derive(FromTuple, Debug)]\npub struct G{i} {{\n{decl}}}\nprobe!(G{i} {{ {probe} }});\n");
    }
    let _ = writeln!(out, "pub fn generated() -> Vec<(&'static str, fn() -> Vec<Spec>, Conv)> {{\n    vec![");
    for i in 0..n {
        let _ = writeln!(out, "        (\"G{i}\", G{i}::spec, conv::<G{i}>),");
    }
    let _ = writeln!(out, "    ]\n}}");
    let dir = std::env::var("OUT_DIR").unwrap_or_default();
    std::fs::write(format!("{dir}/structs.rs"), out).unwrap_or_else(|e| panic!("{e}"));
}
