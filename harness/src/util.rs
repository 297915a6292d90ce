//! Deterministic PRNG, JSON shorthands and panic capture.
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Runs `f`; a panic is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

pub fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| json!(x)).collect())
}
pub fn nums<T: Copy + Into<u64>>(b: &[T]) -> Value {
    Value::Array(b.iter().map(|x| json!(Into::<u64>::into(*x))).collect())
}
pub fn get_bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("array").iter().map(|x| x.as_u64().expect("byte") as u8).collect()
}
pub fn get_u32s(v: &Value) -> Vec<u32> {
    v.as_array().expect("array").iter().map(|x| x.as_u64().expect("num") as u32).collect()
}
pub fn be4(x: u32) -> Value {
    bytes(&x.to_be_bytes())
}
pub fn be8(x: u64) -> Value {
    bytes(&x.to_be_bytes())
}

/// Reads and writes a few bytes at a time, now and then interrupted, and fails when its `limit` is reached.
pub struct Slow<T> {
    pub inner: T,
    calls: usize,
    left: usize,
}
impl<T> Slow<T> {
    pub fn new(inner: T, limit: usize) -> Self {
        Slow { inner, calls: 0, left: limit }
    }
    /// How many of `n` bytes to take.
    fn step(&mut self, n: usize) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 7 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let k = n.min(1 + self.calls % 3 + if n > 64 { n / 3 } else { 0 }).min(self.left);
        if n > 0 && k == 0 {
            return Err(std::io::ErrorKind::BrokenPipe.into());
        }
        self.left -= k;
        Ok(k)
    }
}
impl<T: std::io::Read> std::io::Read for Slow<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let k = self.step(b.len())?;
        self.inner.read(&mut b[..k])
    }
}
impl<T: std::io::Write> std::io::Write for Slow<T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = self.step(b.len())?;
        self.inner.write(&b[..k])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}
