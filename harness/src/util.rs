//! Randomness, trace output and isolation of calls into the code under test.
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha20Rng;
use serde_json::Value;
use sha2::Digest;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R = ChaCha20Rng;

/// A generator that depends on VERIF_SEED, a label and an index only.
pub fn rng(label: &str, index: u64) -> R {
    let seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let d: [u8; 32] = sha2::Sha256::digest(format!("{seed}/{label}/{index}").as_bytes()).into();
    R::from_seed(d)
}

pub fn sha(b: &[u8]) -> [u8; 32] {
    sha2::Sha256::digest(b).into()
}

pub fn hx(b: impl AsRef<[u8]>) -> Value {
    Value::String(hex::encode(b.as_ref()))
}

pub fn pick<'a, T>(r: &mut R, xs: &'a [T]) -> &'a T {
    &xs[r.gen_range(0..xs.len())]
}

pub fn chance(r: &mut R, pct: u32) -> bool {
    r.gen_range(0..100) < pct
}

/// A number of things: nearly always at most the usual one, now and then far beyond.
pub fn size(r: &mut R, usual: usize) -> usize {
    if chance(r, 4) {
        *pick(r, &[9, 12, 16, 17, 20, 33, 40, 65])
    } else {
        r.gen_range(0..=usual)
    }
}

/// A length in bytes: nearly always one of the usual ones, now and then far beyond.
pub fn length(r: &mut R, usual: &[usize]) -> usize {
    match r.gen_range(0..300) {
        0 => *pick(r, &[65535, 65536, 65537, 70000]),
        1..=10 => *pick(r, &[55, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000]),
        _ => *pick(r, usual),
    }
}

pub fn bytes(r: &mut R, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    r.fill_bytes(&mut v);
    v
}

thread_local! {
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Panics inside `guard` are observations; others are reported.
pub fn install_quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if GUARDED.with(|g| g.get()) == 0 {
            eprintln!("{i}");
        }
    }));
}

/// Runs a call into the code under test; a panic is an observation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let res = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    res.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// Writes one JSON value per line.  Non-ASCII text is escaped.
pub fn write_lines(path: &str, lines: &[Value]) {
    let f = std::fs::File::create(path).expect("create trace");
    let mut w = std::io::BufWriter::new(f);
    for l in lines {
        let s = serde_json::to_string(l).unwrap();
        let mut out = String::with_capacity(s.len());
        for c in s.chars() {
            if (c as u32) < 128 {
                out.push(c)
            } else {
                let mut buf = [0u16; 2];
                for u in c.encode_utf16(&mut buf) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
        }
        out.push('\n');
        w.write_all(out.as_bytes()).unwrap();
    }
    w.flush().unwrap();
}

pub fn read_lines(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path)
        .expect("read scenarios")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).expect("scenario json"))
        .collect()
}
