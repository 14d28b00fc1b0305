//! Small helpers shared by every replay: field embedding of specification integers, seeds, panics as data.
use ark_bls12_381::Fr;
use ark_ff::PrimeField;
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type F = Fr;

pub fn fint<T: PrimeField>(x: i64) -> T {
    if x >= 0 {
        T::from(x as u64)
    } else {
        -T::from((-x) as u64)
    }
}

pub fn ints(v: &Value) -> Vec<i64> {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_i64().expect("integer expected")).collect(),
        // TLC prints an empty sequence as {} or []
        Value::Object(o) if o.is_empty() => vec![],
        _ => panic!("case error: array of integers expected, got {}", v),
    }
}

pub fn arr(v: &Value) -> Vec<Value> {
    match v {
        Value::Array(a) => a.clone(),
        Value::Object(o) if o.is_empty() => vec![],
        Value::Null => vec![],
        _ => panic!("case error: array expected, got {}", v),
    }
}

pub fn fvec<T: PrimeField>(v: &Value) -> Vec<T> {
    ints(v).into_iter().map(fint).collect()
}

pub fn log2(n: usize) -> usize {
    assert!(n.is_power_of_two(), "case error: column length {} is not a power of two", n);
    n.trailing_zeros() as usize
}

/// splitmix64: the only source of randomness in the harness, always seeded from the command line
#[derive(Clone)]
pub struct Rng64(pub u64);
impl Rng64 {
    pub fn new(a: u64, b: u64) -> Self {
        let mut r = Rng64(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234_5678_9ABC_DEF0);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn field<T: PrimeField>(&mut self) -> T {
        let mut bytes = [0u8; 48];
        for c in bytes.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        T::from_le_bytes_mod_order(&bytes)
    }
    pub fn fields<T: PrimeField>(&mut self, n: usize) -> Vec<T> {
        (0..n).map(|_| self.field()).collect()
    }
}

/// Run code under test; a panic in it is data, never a crash of the check.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

/// Flatten Ok(Err(e)) and panics to a string
pub fn guard_res<T, Er: std::fmt::Display>(f: impl FnOnce() -> Result<T, Er>) -> Result<T, String> {
    match guard(f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("Err: {}", e)),
        Err(p) => Err(format!("panic: {}", p)),
    }
}

/// points of the boolean hypercube, little endian: coordinate i is bit i of the index
pub fn bool_point<T: PrimeField>(i: usize, nv: usize) -> Vec<T> {
    (0..nv).map(|k| if (i >> k) & 1 == 1 { T::one() } else { T::zero() }).collect()
}

/// multilinear extension evaluated straight from its definition
pub fn mle_eval<T: PrimeField>(evals: &[T], pt: &[T]) -> T {
    assert_eq!(evals.len(), 1 << pt.len());
    let mut cur = evals.to_vec();
    for p in pt {
        let mut next = Vec::with_capacity(cur.len() / 2);
        for k in 0..cur.len() / 2 {
            next.push(cur[2 * k] + (cur[2 * k + 1] - cur[2 * k]) * p);
        }
        cur = next;
    }
    cur[0]
}

#[derive(Default)]
pub struct Report {
    pub cases: u64,
    pub violations: Vec<Value>,
    pub known: Vec<Value>,
    pub stats: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    /// runs recorded for TLC
    pub records: Vec<Value>,
}
/// when each worker last finished a case (ms since start); 0 = not working
pub static TICKS: [std::sync::atomic::AtomicU64; 64] = [const { std::sync::atomic::AtomicU64::new(0) }; 64];
std::thread_local! {
    pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
pub fn now_ms() -> u64 {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    START.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}
pub fn tick(v: u64) {
    TICKS[WORKER.with(|w| w.get())].store(v, std::sync::atomic::Ordering::Relaxed);
}

impl Report {
    pub fn case(&mut self) {
        self.cases += 1;
        tick(now_ms());
    }
    pub fn stat(&mut self, k: &str) {
        *self.stats.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn statn(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn violate(&mut self, case: &Value, why: String) {
        self.stat("violations");
        if self.violations.len() < 20 {
            self.violations.push(serde_json::json!({"why": why, "case": case}));
        }
    }
    pub fn known(&mut self, id: &str, why: String) {
        if !self.known.iter().any(|k| k["id"] == id) {
            self.known.push(serde_json::json!({"id": id, "why": why}));
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
    pub fn to_json(&self) -> Value {
        serde_json::json!({
            "cases": self.cases, "violations": self.violations, "known": self.known,
            "stats": self.stats, "samples": self.samples,
        })
    }
}

/// value of a command line option, for the replays that take one
pub fn option(k: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == k).map(|i| a[i + 1].clone())
}
