//! Reading and writing classes, recorded as events for ClassTrace.tla.
use crate::abs;
use crate::util::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use serde_json::{json, Value};
use std::io::BufWriter;

/// Whether to read and write everything also in pieces, and with failures.
static PIECES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn in_pieces() {
    PIECES.store(true, std::sync::atomic::Ordering::Relaxed);
}
/// Of the large ones, every eighth.
fn pieces(len: usize) -> bool {
    static LARGE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    use std::sync::atomic::Ordering::Relaxed;
    PIECES.load(Relaxed) && (len < 20000 || LARGE.fetch_add(1, Relaxed) % 8 == 0)
}
pub fn read(b: &[u8]) -> Result<coffer::Result<Class>, String> {
    let mut rest = b;
    let r = guard(|| Class::read_from(&mut rest))?;
    if !pieces(b.len()) {
        return Ok(r);
    }
    let slow = guard(|| Class::read_from(&mut Slow::new(b, usize::MAX)))?;
    match (&r, &slow) {
        (Ok(x), Ok(y)) if abs::class(x) == abs::class(y) => {}
        (Err(_), Err(_)) => {}
        _ => return Err("reading in pieces gives something else".into()),
    }
    if r.is_ok() && rest.is_empty() {
        for k in [b.len() / 2, b.len() - 1] {
            if guard(|| Class::read_from(&mut Slow::new(b, k)))?.is_ok() {
                return Err("a failure to read was ignored".into());
            }
        }
    }
    Ok(r)
}
pub fn write(c: &Class) -> Result<coffer::Result<Vec<u8>>, String> {
    let to = |limit| {
        guard(|| {
            let mut v = vec![];
            c.write_to(&mut Slow::new(&mut v, limit)).map(|_| v)
        })
    };
    let r = guard(|| {
        let mut v = vec![];
        c.write_to(&mut v).map(|_| v)
    })?;
    if !pieces(r.as_ref().map_or(0, |v| v.len())) {
        return Ok(r);
    }
    match (&r, &to(usize::MAX)?) {
        (Ok(x), Ok(y)) if x == y => {}
        (Ok(x), Ok(y)) => match guard(|| (Class::read_from(&mut &x[..]), Class::read_from(&mut &y[..])))? {
            (Ok(x), Ok(y)) if abs::class(&x) == abs::class(&y) => {}
            (Err(_), Err(_)) => {}
            _ => return Err("writing in pieces gives something else".into()),
        },
        (Err(_), Err(_)) => {}
        _ => return Err("writing in pieces gives something else".into()),
    }
    if let Ok(x) = &r {
        for k in [x.len() / 2, x.len() - 1] {
            if to(k)?.is_ok() {
                return Err("a failure to write was ignored".into());
            }
        }
    }
    Ok(r)
}
pub struct Events {
    w: BufWriter<std::fs::File>,
    pub n: usize,
    pre: Vec<u8>,
    pub peak: usize,
}
impl Events {
    pub fn create(path: &str) -> Self {
        Events { w: BufWriter::new(std::fs::File::create(path).expect("create")), n: 0, pre: vec![], peak: 0 }
    }
    /// Later reads that start with `pre` are recorded without it.
    pub fn prefix(&mut self, pre: &[u8]) {
        self.put(json!({"e": "pre", "b": packed(pre)}));
        self.pre = pre.to_vec();
    }
    fn read_ev(&mut self, what: &str, b: &[u8], r: Value) {
        let (x, b) = if !self.pre.is_empty() && b.starts_with(&self.pre) { (1, &b[self.pre.len()..]) } else { (0, b) };
        self.put(json!({"e": "read", "w": what, "x": x, "b": packed(b), "r": r}));
    }
    pub fn put(&mut self, v: Value) {
        serde_json::to_writer(&mut self.w, &v).expect("write");
        self.w.write_all(b"\n").expect("write");
        self.n += 1;
    }
    pub fn finish(mut self) {
        self.w.flush().expect("flush");
        println!("RECORDED {} PEAK {}", self.n, self.peak);
    }
}
/// Bytes with long runs of zeros replaced by minus their length (expanded by ClassTrace).
fn packed(b: &[u8]) -> Value {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let k = b[i..].iter().take_while(|x| **x == 0).count();
        if k >= 32 {
            v.push(json!(-(k as i64)));
            i += k;
        } else {
            v.push(json!(b[i]));
            i += 1;
        }
    }
    Value::Array(v)
}
/// Reads `b` and records what came out.
pub fn ev_read(e: &mut Events, what: &str, b: &[u8]) -> Option<Class> {
    match read(b) {
        Err(p) => {
            e.read_ev(what, b, json!(["panic", p]));
            None
        }
        Ok(Err(_)) => {
            e.read_ev(what, b, json!(["err"]));
            None
        }
        Ok(Ok(c)) => {
            e.read_ev(what, b, json!(["ok", abs::class(&c)]));
            Some(c)
        }
    }
}
/// Local-variable attributes without a variable have no written form.
fn empty_tables(c: &Class) -> usize {
    let codes = c.methods.iter().flat_map(|m| &m.attributes).filter_map(|a| match a {
        MethodAttribute::Code(c) => Some(c),
        _ => None,
    });
    codes.flat_map(|c| &c.attrs).filter(|a| matches!(a, CodeAttribute::LocalVariables(v) if v.is_empty())).count()
}
/// Writes `c`; records the class and the bytes.  kind: "gen" (made by a generator: nothing about it is left open),
/// "chain" (was read), "stable" (was read from what the code wrote: the bootstrap table must not change either).
pub fn ev_write(e: &mut Events, what: &str, kind: &str, c: &Class) -> Option<Vec<u8>> {
    let p = abs::class(c);
    let ev = empty_tables(c);
    match write(c) {
        Err(m) => {
            e.put(json!({"e": "write", "w": what, "k": kind, "ev": ev, "p": p, "r": ["panic", m]}));
            None
        }
        Ok(Err(_)) => {
            e.put(json!({"e": "write", "w": what, "k": kind, "ev": ev, "p": p, "r": ["err"]}));
            None
        }
        Ok(Ok(b)) => {
            e.put(json!({"e": "write", "w": what, "k": kind, "ev": ev, "p": p, "r": ["ok", packed(&b)]}));
            Some(b)
        }
    }
}
/// write, read back, write again, read again
pub fn cycle(e: &mut Events, what: &str, c: &Class) {
    if let Some(b) = ev_write(e, what, "gen", c) {
        if let Some(c2) = ev_read(e, what, &b) {
            if let Some(b2) = ev_write(e, what, "stable", &c2) {
                if b2 != b {
                    ev_read(e, what, &b2);
                }
            }
        }
    }
}
/// read, write, read back
pub fn chain(e: &mut Events, what: &str, b: &[u8]) {
    if let Some(c) = ev_read(e, what, b) {
        if let Some(b2) = ev_write(e, what, "chain", &c) {
            if b2 != b {
                if let Some(c2) = ev_read(e, what, &b2) {
                    ev_write(e, what, "stable", &c2);
                }
            }
        }
    }
}
/// Reads bytes that may be anything, and writes what was read.  `cur` holds the case at hand, should it end the process.
pub fn any(e: &mut Events, what: &str, b: &[u8], cur: &str) {
    std::fs::write(cur, serde_json::to_string(&json!([what, bytes(b)])).expect("json")).expect("write");
    let before = crate::alloc::start();
    let c = ev_read(e, what, b);
    let held = crate::alloc::peak() - before;
    e.peak = e.peak.max(held);
    if held > 16 << 20 {
        e.put(json!({"e": "memory", "w": what, "n": b.len(), "kb": held >> 10}));
    }
    if let Some(c) = c {
        let r = match write(&c) {
            Err(m) => json!(["panic", m]),
            Ok(Err(_)) => json!(["err"]),
            Ok(Ok(_)) => json!(["ok"]),
        };
        e.put(json!({"e": "write", "w": what, "k": "any", "r": r}));
    }
}
/// Every line of the file is `[what, bytes]`.
pub fn run_bytes(file: &str, out: &str, mode: &str) {
    let mut e = Events::create(out);
    let cases: Vec<(String, Vec<u8>)> = std::fs::read_to_string(file)
        .expect("read")
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| {
            let v: Value = serde_json::from_str(l).expect("json");
            (v[0].as_str().expect("label").to_string(), get_bytes(&v[1]))
        })
        .collect();
    if cases.len() > 1 {
        let first = &cases[0].1;
        let common = cases.iter().map(|c| first.iter().zip(&c.1).take_while(|(a, b)| a == b).count()).min().unwrap_or(0);
        if common > 64 {
            e.prefix(&first[..common]);
        }
    }
    let cur = format!("{out}.cur");
    for (w, b) in &cases {
        if mode == "read" {
            ev_read(&mut e, w, b);
        } else if mode == "any" {
            any(&mut e, w, b, &cur);
        } else {
            chain(&mut e, w, b);
        }
    }
    e.finish();
}
/// Every line of the file is `[what, class]`: the class is built, written, read back, written again.
pub fn run_values(file: &str, out: &str) {
    let mut e = Events::create(out);
    for l in std::fs::read_to_string(file).expect("read").lines().filter(|l| !l.is_empty()) {
        let v: Value = serde_json::from_str(l).expect("json");
        let what = v[0].as_str().expect("label");
        let c = crate::mk::class(&v[1]);
        let mut asked = v[1].clone();
        if let Some(a) = asked["attrs"].as_array_mut() {
            a.sort_by_key(|x| x[0] == "BootstrapMethods"); // shown last, like abs::class does
        }
        assert_eq!(abs::class(&c), asked, "the harness did not build what was asked for");
        cycle(&mut e, what, &c);
    }
    e.finish();
}
/// Every line of the file is `[what, number, [[times, bytes], ...]]`: recorded is only how reading (and writing) ended.
pub fn run_deep(file: &str, out: &str) {
    let mut e = Events::create(out);
    let cur = format!("{out}.cur");
    for l in std::fs::read_to_string(file).expect("read").lines().filter(|l| !l.is_empty()) {
        let v: Value = serde_json::from_str(l).expect("json");
        let mut b = vec![];
        for c in v[2].as_array().expect("chunks") {
            let piece = get_bytes(&c[1]);
            for _ in 0..c[0].as_u64().expect("times") {
                b.extend_from_slice(&piece);
            }
        }
        std::fs::write(&cur, json!([v[0], v[1]]).to_string()).expect("write");
        let before = crate::alloc::start();
        let how = |r: &Result<bool, String>| match r {
            Err(m) => json!(["panic", m]),
            Ok(false) => json!(["err"]),
            Ok(true) => json!(["ok"]),
        };
        let c = read(&b);
        let held = crate::alloc::peak() - before;
        e.peak = e.peak.max(held);
        let r = how(&c.as_ref().map(|x| x.is_ok()).map_err(|m| m.clone()));
        // comparing what such a class holds takes time exponential in its depth: not written
        let mut same = false;
        let w = match &c {
            Ok(Ok(c)) => {
                let w = write(c);
                if let (true, Ok(Ok(b))) = (v[0].as_str().expect("what").starts_with("must"), &w) {
                    same = matches!(read(b), Ok(Ok(d)) if abs::class(&d) == abs::class(c));
                }
                how(&w.map(|x| x.is_ok()))
            }
            _ => json!(["err"]),
        };
        let drop = how(&guard(|| drop(c)).map(|_| true));
        e.put(json!({"e": "deep", "w": v[0], "d": v[1], "n": b.len(), "kb": held >> 10, "r": r, "write": w, "same": same as u8, "drop": drop}));
    }
    e.finish();
}
/// Expands the repetitions of Limits.tla.
fn expand(v: &Value, i: usize) -> Value {
    match v {
        Value::Array(a) => {
            let mut out = vec![];
            for x in a {
                match x.get("rep") {
                    Some(n) => out.extend((0..n.as_u64().expect("times") as usize).map(|k| expand(&x["of"], k))),
                    None => out.push(expand(x, i)),
                }
            }
            Value::Array(out)
        }
        Value::Object(o) => {
            if let Some(m) = o.get("ix") {
                json!(i as u64 % m.as_u64().expect("modulus"))
            } else if let Some(t) = o.get("txt") {
                let mut s = get_u32s(t);
                s.extend(i.to_string().chars().map(|c| c as u32));
                nums(&s)
            } else if o.contains_key("b4") {
                be4(i as u32)
            } else if o.contains_key("b8") {
                be8(i as u64)
            } else {
                Value::Object(o.iter().map(|(k, x)| (k.clone(), expand(x, i))).collect())
            }
        }
        x => x.clone(),
    }
}
fn tables(v: &mut Value) -> Vec<String> {
    let mut t = vec![];
    if let Some(a) = v["attrs"].as_array_mut() {
        a.retain(|x| {
            if x[0] == "BootstrapMethods" {
                t.extend(x[1].as_array().expect("table").iter().map(|b| b.to_string()));
            }
            x[0] != "BootstrapMethods"
        });
    }
    t.sort();
    t.dedup();
    t
}
/// Every line of the file is `[what, number, expectation, class with repetitions]`.
pub fn run_limits(file: &str, out: &str) {
    let mut e = Events::create(out);
    let cur = format!("{out}.cur");
    for l in std::fs::read_to_string(file).expect("read").lines().filter(|l| !l.is_empty()) {
        let v: Value = serde_json::from_str(l).expect("json");
        std::fs::write(&cur, l).expect("write");
        let c0 = crate::mk::class(&expand(&v[3], 0));
        let r = match write(&c0) {
            Err(m) => json!(["panic", m]),
            Ok(Err(_)) => json!(["err"]),
            Ok(Ok(b)) => {
                let same = match read(&b) {
                    Ok(Ok(c)) => {
                        let mut back = abs::class(&c);
                        let mut asked = abs::class(&c0);
                        let (t, u) = (tables(&mut asked), tables(&mut back));
                        back == asked && t.iter().all(|x| u.contains(x))
                    }
                    _ => false,
                };
                json!(["ok", same as u8])
            }
        };
        e.put(json!({"e": "limit", "w": v[0], "n": v[1], "want": v[2], "r": r}));
    }
    e.finish();
}
