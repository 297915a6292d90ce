//! WTF-8 and modified UTF-8: replay of specification cases and recording of histories.
use crate::util::*;
use coffer::mod_utf8::{modified_utf8_to_string, string_to_modified_utf8};
use serde_json::{json, Value};
use std::borrow::{Borrow, Cow};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;
use wtf_8::{validate_wtf8, Codepoint, Wtf8Str, Wtf8String};

/// The harness's own encoder (never the library's) for building arguments.
pub fn enc1(c: u32, out: &mut Vec<u8>) {
    if c < 0x80 {
        out.push(c as u8)
    } else if c < 0x800 {
        out.extend([0xC0 | (c >> 6) as u8, 0x80 | (c & 63) as u8])
    } else if c < 0x10000 {
        out.extend([0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8])
    } else {
        out.extend([
            0xF0 | (c >> 18) as u8,
            0x80 | (c >> 12 & 63) as u8,
            0x80 | (c >> 6 & 63) as u8,
            0x80 | (c & 63) as u8,
        ])
    }
}
pub fn enc(cps: &[u32]) -> Vec<u8> {
    let mut v = vec![];
    for &c in cps {
        enc1(c, &mut v)
    }
    v
}
/// A WTF-8 string holding exactly these code points (cps must be canonical).
pub fn mk(cps: &[u32]) -> Wtf8String {
    unsafe { Wtf8String::from_bytes_unchecked(enc(cps)) }
}
pub fn mkcow(cps: &[u32]) -> Cow<'static, Wtf8Str> {
    Cow::Owned(mk(cps))
}
/// The harness's own decoder of the library's bytes (generalised UTF-8).
pub fn dec(b: &[u8]) -> Vec<u32> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let b1 = b[i] as u32;
        let n = if b1 < 0x80 { 1 } else if b1 < 0xE0 { 2 } else if b1 < 0xF0 { 3 } else { 4 };
        let mut c = match n { 1 => b1, 2 => b1 & 31, 3 => b1 & 15, _ => b1 & 7 };
        for k in 1..n {
            c = c << 6 | (*b.get(i + k).unwrap_or(&0) as u32 & 63);
        }
        v.push(c);
        i += n;
    }
    v
}
fn scalar_string(cps: &[u32]) -> String {
    cps.iter().map(|&c| char::from_u32(c).expect("scalar")).collect()
}
fn cpj(v: &[u32]) -> Value {
    nums(v)
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Everything observable, plus internal consistency of equivalent observers.
pub fn obs(s: &Wtf8String) -> Value {
    let w: &Wtf8Str = s.as_wstr();
    let cps: Vec<u32> = w.codepoints().map(|c| c.to_u32()).collect();
    let wide: Vec<u16> = w.encode_wide().collect();
    let lossy = w.to_string_lossy().into_owned();
    let lossy2 = s.clone().into_string_lossy();
    let disp = format!("{}", w);
    let asstr = w.as_str().map(|x| x.to_owned());
    let into = s.clone().into_string();
    let back: Wtf8String = Wtf8String::from_wide(&wide);
    let mut consistent = lossy == lossy2 && lossy == disp && back == *s && w.len() == w.as_bytes().len()
        && w.is_empty() == cps.is_empty();
    consistent &= match (&asstr, &into) {
        (Some(a), Ok(b)) => a == b && a.as_bytes() == w.as_bytes(),
        (None, Err(b)) => b == s,
        _ => false,
    };
    let b: &Wtf8Str = s.borrow();
    consistent &= hash_of(s) == hash_of(b) && s.clone() == *b && w.to_owned() == *s;
    consistent &= &*w.into_box() == w && &*w.into_arc() == w && &*w.into_rc() == w;
    // code points that are lone surrogates have no char
    consistent &= w.codepoints().all(|c| {
        let v = c.to_u32();
        let surr = (0xD800..0xE000).contains(&v);
        c.to_char().is_none() == surr
            && c.to_char_lossy() as u32 == if surr { 0xFFFD } else { v }
            && Codepoint::from_u32(v) == Some(c)
            && c.to_char().map_or(true, |ch| c == ch && Codepoint::from(ch) == c && Codepoint::from_char(ch) == c)
            && (v == 0x41) == (c == 'A')
    });
    // against Unicode text
    if let Some(a) = &asstr {
        consistent &= *w == **a && *s == **a && *s == a.as_str() && *s == Wtf8String::from(a.clone());
        let longer = format!("{a}x");
        consistent &= *w != *longer && *s != *longer && *s != longer.as_str();
    }
    consistent &= *w == *s && *s == w && w == *s && *w == w[..];
    // bounds on what is left to come
    let (mut it, mut n) = (w.encode_wide(), wide.len());
    loop {
        let (low, high) = it.size_hint();
        consistent &= low <= n && high.map_or(true, |h| n <= h);
        if it.next().is_none() {
            break;
        }
        n = n.wrapping_sub(1);
    }
    consistent &= n == 0;
    // iterating from the middle
    let mut it = w.codepoints();
    let (low, high) = it.size_hint();
    consistent &= low <= cps.len() && high.map_or(true, |h| cps.len() <= h);
    let mut k = 0;
    while it.next().is_some() {
        k += 1;
        let rest: Vec<u32> = it.as_str().codepoints().map(|c| c.to_u32()).collect();
        consistent &= rest == cps[k..];
    }
    if !consistent {
        return json!(["inconsistent observers"]);
    }
    json!([
        bytes(w.as_bytes()),
        cpj(&cps),
        nums(&wide),
        cpj(&lossy.chars().map(|c| c as u32).collect::<Vec<_>>()),
        asstr.is_some(),
        w.is_ascii()
    ])
}

/// Applies one operation to the real string. Returns the result.
pub fn apply(s: &mut Wtf8String, op: &str, a: &[u32]) -> Value {
    let cp = |c: u32| Codepoint::from_u32(c).expect("cp");
    let before = s.clone();
    let r = guard(|| -> Value {
        match op {
            "push" => s.push(cp(a[0])),
            "push_char" => s.push_char(char::from_u32(a[0]).expect("scalar")),
            "push_str" => s.push_str(&scalar_string(a)),
            "push_wtf8" => s.push_wtf8(&mk(a)),
            "extend" => s.extend(a.iter().map(|&c| cp(c))),
            "from_iter" => *s = a.iter().map(|&c| cp(c)).collect(),
            "from_wide" => *s = Wtf8String::from_wide(&a.iter().map(|&c| c as u16).collect::<Vec<_>>()),
            "from_string" => *s = Wtf8String::from_string(scalar_string(a)),
            "from_borrowed" => *s = Wtf8String::from_borrowed(&scalar_string(a)),
            "clone_into" => Wtf8Str::clone_into(&mk(a), s),
            "clear" => s.clear(),
            "lower" => {
                let t = s.to_ascii_lowercase();
                s.as_mut_wstr().make_ascii_lowercase();
                if t != *s {
                    return json!(["inconsistent case mapping"]);
                }
            }
            "upper" => {
                let t = s.to_ascii_uppercase();
                s.make_ascii_uppercase();
                if t != *s {
                    return json!(["inconsistent case mapping"]);
                }
            }
            "rebox" => {
                let t = std::mem::replace(s, Wtf8String::new());
                let b = t.into_box();
                *s = Wtf8String::from_bytes(Wtf8String::from_box(b).into_bytes()).expect("still valid");
            }
            "truncate" => s.truncate(a[0] as usize),
            "slice" => return json!(["str", cpj(&dec(s[a[0] as usize..a[1] as usize].as_bytes()))]),
            "slice_from" => return json!(["str", cpj(&dec(s[a[0] as usize..].as_bytes()))]),
            "slice_to" => return json!(["str", cpj(&dec(s[..a[0] as usize].as_bytes()))]),
            "ascii_at" => return json!(["byte", s.ascii_byte_at(a[0] as usize)]),
            "cmp" => {
                let o = mk(a);
                let c = (*s).cmp(&o);
                let c2 = s.as_wstr().partial_cmp(o.as_wstr()).unwrap();
                let eq = *s == o && s.as_wstr() == o.as_wstr();
                if c != c2 || eq != (c == std::cmp::Ordering::Equal) || (eq && hash_of(s) != hash_of(&o)) {
                    return json!(["inconsistent comparison"]);
                }
                let (w, v) = (s.as_wstr(), o.as_wstr());
                if [*s == *v, *w == o, *s == v, w == o].iter().any(|x| *x != eq) {
                    return json!(["inconsistent comparison"]);
                }
                if let Ok(t) = String::from_utf8(o.as_bytes().to_vec()) {
                    if [*w == *t, *s == *t, *s == &*t].iter().any(|x| *x != eq) {
                        return json!(["inconsistent comparison with text"]);
                    }
                }
                return json!(["cmp", c as i32]);
            }
            "eq_nocase" => return json!(["bool", s.eq_ignore_ascii_case(&mk(a))]),
            _ => panic!("unknown op {op}"),
        }
        json!(["ok"])
    });
    match r {
        Ok(v) => v,
        Err(_) => {
            if *s != before {
                return json!(["panic after change"]);
            }
            json!(["panic"])
        }
    }
}

fn replay_lines(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path)
        .expect("cases")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).expect("json"))
        .collect()
}

/// Specification transitions of the string machine, one per line:
/// [[before, op, arg, result, after], obs(after)]
pub fn replay_buf(path: &str) -> i32 {
    let mut bad = 0;
    let mut n = 0;
    for c in replay_lines(path) {
        n += 1;
        let l = &c[0];
        let mut s = mk(&get_u32s(&l[0]));
        let r = apply(&mut s, l[1].as_str().unwrap(), &get_u32s(&l[2]));
        let o = guard(|| obs(&s)).unwrap_or_else(|e| json!(["panic", e]));
        if r != l[3] || o != c[1] {
            bad += 1;
            if bad <= 20 {
                println!("MISMATCH {}", json!({"case": c, "got_result": r, "got_obs": o}));
            }
        }
    }
    println!("REPLAYED {n} MISMATCHES {bad}");
    (bad > 0) as i32
}

/// Validator verdict in the form of the specification.
fn validate(b: &[u8]) -> Value {
    match guard(|| {
        let v = validate_wtf8(b);
        let f = Wtf8Str::from_bytes(b).is_ok();
        let g = Wtf8String::from_bytes(b.to_vec()).is_ok();
        let mut m = b.to_vec();
        let h = Wtf8Str::from_bytes_mut(&mut m).is_ok();
        if f != v.is_ok() || g != v.is_ok() || h != v.is_ok() {
            return json!(["inconsistent constructors"]);
        }
        match v {
            Ok(()) => json!(["ok"]),
            Err(e) => json!(["err", e.valid_up_to()]),
        }
    }) {
        Ok(v) => v,
        Err(_) => json!(["panic"]),
    }
}

/// [bytes, accepted] cases of the validator automaton.
pub fn replay_validate(path: &str) -> i32 {
    let (mut n, mut bad) = (0u64, 0u64);
    for c in replay_lines(path) {
        n += 1;
        let b = get_bytes(&c[0]);
        let v = validate(&b);
        let ok = v[0] == "ok";
        let sane = v[0] == "ok" || v[0] == "err";
        if !sane || ok != c[1].as_bool().unwrap() {
            bad += 1;
            if bad <= 20 {
                println!("MISMATCH {}", json!({"bytes": c[0], "spec_accepts": c[1], "got": v}));
            }
        }
    }
    println!("REPLAYED {n} MISMATCHES {bad}");
    (bad > 0) as i32
}

/// Product of the exported automaton with the real validator: every string of up
/// to three bytes, and every live string over `reps` up to `maxlen` with every
/// possible final byte.
pub fn sweep(delta: &str, maxlen: usize, seed: u64) -> i32 {
    let d: Value = serde_json::from_str(&std::fs::read_to_string(delta).expect("delta")).expect("json");
    let names: Vec<String> = d["states"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let idx = |s: &str| names.iter().position(|x| x == s).unwrap() as u8;
    let table: Vec<Vec<u8>> = d["delta"]
        .as_array()
        .unwrap()
        .iter()
        .map(|row| row.as_array().unwrap().iter().map(|x| idx(x.as_str().unwrap())).collect())
        .collect();
    let acc: Vec<bool> = d["accepting"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect();
    let (s0, badst) = (idx("s0"), idx("bad"));
    let mut n = 0u64;
    let mut bad = 0u64;
    let mut check = |b: &[u8], q: u8| {
        n += 1;
        let r = guard(|| validate_wtf8(b));
        let fine = match &r {
            Err(_) => false,
            Ok(Ok(())) => acc[q as usize],
            Ok(Err(e)) => {
                !acc[q as usize] && e.valid_up_to() <= b.len() && {
                    let mut p = s0;
                    for &x in &b[..e.valid_up_to()] {
                        p = table[p as usize][x as usize];
                    }
                    acc[p as usize]
                }
            }
        };
        if !fine {
            bad += 1;
            if bad <= 20 {
                println!("MISMATCH {}", json!({"bytes": b, "spec_accepts": acc[q as usize], "got": format!("{r:?}")}));
            }
        }
    };
    // all strings of length <= 3
    for a in 0..=255u8 {
        let qa = table[s0 as usize][a as usize];
        check(&[a], qa);
        for b in 0..=255u8 {
            let qb = table[qa as usize][b as usize];
            check(&[a, b], qb);
            for c in 0..=255u8 {
                check(&[a, b, c], table[qb as usize][c as usize]);
            }
        }
    }
    // live strings over boundary bytes plus a few seeded ones
    let mut rng = Rng::new(seed);
    let mut reps: Vec<u8> = vec![0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4];
    for _ in 0..2 {
        reps.push(rng.below(256) as u8);
    }
    let mut frontier: Vec<(Vec<u8>, u8)> = vec![(vec![], s0)];
    for _ in 0..maxlen {
        let mut next = vec![];
        for (s, q) in &frontier {
            let mut t = s.clone();
            t.push(0);
            for b in 0..=255u8 {
                *t.last_mut().unwrap() = b;
                let p = table[*q as usize][b as usize];
                check(&t, p);
                // after a bad byte, nothing may become acceptable again
                if p == badst && reps.contains(&b) {
                    t.push(0x80);
                    check(&t, badst);
                    *t.last_mut().unwrap() = 0x41;
                    check(&t, badst);
                    t.pop();
                }
            }
            for &b in &reps {
                let p = table[*q as usize][b as usize];
                if p != badst {
                    let mut t = s.clone();
                    t.push(b);
                    next.push((t, p));
                }
            }
        }
        frontier = next;
        if frontier.len() > 60_000 {
            // keep a seeded sample, so depth stays reachable
            let mut kept = vec![];
            for x in frontier {
                if rng.chance(1, 6) {
                    kept.push(x)
                }
            }
            frontier = kept;
        }
    }
    println!("REPLAYED {n} MISMATCHES {bad}");
    (bad > 0) as i32
}

const BOUNDARY: &[u32] = &[
    0, 1, 0x41, 0x5A, 0x61, 0x7A, 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xD7FF, 0xD800, 0xD801, 0xDABC, 0xDBFF,
    0xDC00, 0xDC01, 0xDDEF, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0x1F4A9, 0x1FFFF, 0x20000, 0x4ABCD,
    0xFFFFF, 0x100000, 0x10FC00, 0x10FFFF,
];
pub fn rand_cp(r: &mut Rng) -> u32 {
    match r.below(10) {
        0..=4 => *r.pick(BOUNDARY),
        5 => r.below(0x80) as u32,
        6 => 0xD800 + r.below(0x800) as u32,
        7 => 0x10000 + r.below(0x100000) as u32,
        _ => r.below(0x10000) as u32,
    }
}
pub fn canon(v: Vec<u32>) -> Vec<u32> {
    let mut o: Vec<u32> = vec![];
    for c in v {
        if let Some(l) = o.last_mut() {
            if (0xD800..0xDC00).contains(l) && (0xDC00..0xE000).contains(&c) {
                *l = 0x10000 + ((*l - 0xD800) << 10) + (c - 0xDC00);
                continue;
            }
        }
        o.push(c);
    }
    o
}
pub fn rand_cps(r: &mut Rng, max: usize) -> Vec<u32> {
    let n = r.range(0, max);
    let mut v: Vec<u32> = vec![];
    for _ in 0..n {
        // a run of ASCII, long enough to cross machine words
        if r.chance(1, 24) {
            for _ in 0..r.range(3, 36) {
                v.push(0x20 + r.below(0x5F) as u32);
            }
        }
        v.push(rand_cp(r));
    }
    canon(v)
}
fn scalars(v: Vec<u32>) -> Vec<u32> {
    v.into_iter().filter(|c| !(0xD800..0xE000).contains(c)).collect()
}

/// Random operation histories of the string machine.
pub fn record_buf(seed: u64, count: usize, out: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("out"));
    let mut r = Rng::new(seed);
    for _ in 0..count {
        let mut s = Wtf8String::new();
        let mut ev = vec![];
        for _ in 0..r.range(3, 14) {
            let len = s.len() as u32;
            let off = |r: &mut Rng, s: &Wtf8String| -> u32 {
                if r.chance(2, 3) && !s.is_empty() {
                    // a real boundary
                    let mut ends = vec![0u32];
                    for c in dec(s.as_bytes()) {
                        let mut v = vec![];
                        enc1(c, &mut v);
                        ends.push(ends.last().unwrap() + v.len() as u32);
                    }
                    *r.pick(&ends)
                } else {
                    r.below(len as usize + 2) as u32
                }
            };
            let (op, a): (&str, Vec<u32>) = match r.below(24) {
                0..=4 => ("push", vec![rand_cp(&mut r)]),
                5 => ("push_char", scalars(vec![rand_cp(&mut r), 0x41])[..1].to_vec()),
                6 => ("push_str", scalars(rand_cps(&mut r, 4))),
                7..=9 => ("push_wtf8", rand_cps(&mut r, 4)),
                10 | 11 => ("extend", (0..r.range(0, 5)).map(|_| rand_cp(&mut r)).collect()),
                12 => ("from_iter", (0..r.range(0, 6)).map(|_| rand_cp(&mut r)).collect()),
                13 => ("from_wide", (0..r.range(0, 6)).map(|_| rand_cp(&mut r) & 0xFFFF).collect()),
                14 => (*r.pick(&["from_string", "from_borrowed"]), scalars(rand_cps(&mut r, 4))),
                15 => ("clone_into", rand_cps(&mut r, 4)),
                16 => (*r.pick(&["clear", "lower", "upper", "rebox"]), vec![]),
                17 | 18 => ("truncate", vec![off(&mut r, &s)]),
                19 | 20 => ("slice", vec![off(&mut r, &s), off(&mut r, &s)]),
                21 => (*r.pick(&["slice_from", "slice_to", "ascii_at"]), vec![off(&mut r, &s)]),
                22 => {
                    let a = if r.chance(1, 2) { dec(s.as_bytes()) } else { rand_cps(&mut r, 4) };
                    ("cmp", a)
                }
                _ => {
                    let a = if r.chance(2, 3) {
                        let mut v = dec(s.as_bytes());
                        for c in v.iter_mut() {
                            if (0x41..=0x5A).contains(c) && r.chance(1, 2) {
                                *c += 32
                            }
                        }
                        v
                    } else {
                        rand_cps(&mut r, 3)
                    };
                    ("eq_nocase", a)
                }
            };
            let res = apply(&mut s, op, &a);
            let o = guard(|| obs(&s)).unwrap_or_else(|_| json!(["panic"]));
            let stop = o.as_array().unwrap().len() == 1;
            ev.push(json!([op, cpj(&a), res, o]));
            if stop {
                break;
            }
        }
        writeln!(f, "{}", json!({ "h": ev })).unwrap();
    }
}

pub fn mdec(b: &[u8]) -> Value {
    match guard(|| modified_utf8_to_string(b)) {
        Ok(Ok(s)) => json!(["ok", cpj(&dec(s.as_bytes())), bytes(s.as_bytes())]),
        Ok(Err(_)) => json!(["err"]),
        Err(_) => json!(["panic"]),
    }
}
pub fn menc(c: &[u32]) -> Value {
    match guard(|| string_to_modified_utf8(&mk(c))) {
        Ok(b) => json!(["ok", bytes(&b)]),
        Err(_) => json!(["panic"]),
    }
}

/// Modified UTF-8 cases: ["dec", bytes, verdict, cps, wtf8] / ["enc", cps, bytes]
pub fn replay_mutf8(path: &str) -> i32 {
    let (mut n, mut bad) = (0u64, 0u64);
    for c in replay_lines(path) {
        n += 1;
        let (fine, got) = if c[0] == "dec" {
            let g = mdec(&get_bytes(&c[1]));
            let fine = match c[2].as_str().unwrap() {
                "ok" => g == json!(["ok", c[3], c[4]]),
                "open" => g == json!(["ok", c[3], c[4]]) || g == json!(["err"]),
                _ => g == json!(["err"]),
            };
            (fine, g)
        } else {
            let g = menc(&get_u32s(&c[1]));
            (g == json!(["ok", c[2]]), g)
        };
        if !fine {
            bad += 1;
            if bad <= 20 {
                println!("MISMATCH {}", json!({"case": c, "got": got}));
            }
        }
    }
    println!("REPLAYED {n} MISMATCHES {bad}");
    (bad > 0) as i32
}

fn menc_own(cps: &[u32]) -> Vec<u8> {
    let mut v = vec![];
    for &c in cps {
        if c == 0 {
            v.extend([0xC0, 0x80])
        } else if c < 0x10000 {
            enc1(c, &mut v)
        } else {
            enc1(0xD800 + ((c - 0x10000) >> 10), &mut v);
            enc1(0xDC00 + ((c - 0x10000) & 0x3FF), &mut v)
        }
    }
    v
}
pub fn own_mutf8(cps: &[u32]) -> Vec<u8> {
    menc_own(cps)
}

/// Random MUTF-8 calls (valid, mutated, arbitrary) and validator calls, as events.
pub fn record_text(seed: u64, count: usize, out: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("out"));
    let mut r = Rng::new(seed);
    for i in 0..count {
        let max = if i % 40 == 0 { 40 } else { 7 };
        let cps = rand_cps(&mut r, max);
        let v = match r.below(6) {
            0 | 1 => json!(["enc", cpj(&cps), menc(&cps)]),
            2 => {
                let b = menc_own(&cps);
                json!(["dec", bytes(&b), mdec(&b)])
            }
            _ => {
                let base = if r.chance(1, 2) { menc_own(&cps) } else { enc(&cps) };
                let mut b = base;
                for _ in 0..r.range(0, 2) {
                    if b.is_empty() {
                        break;
                    }
                    let p = r.below(b.len());
                    match r.below(4) {
                        0 => { b.remove(p); }
                        1 => b[p] = *r.pick(&[0x00, 0x41, 0x7F, 0x80, 0x8F, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC0, 0xC1, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xFF]),
                        2 => b.insert(p, *r.pick(&[0x41u8, 0x80, 0xC0, 0xED, 0xA0, 0xB0])),
                        _ => b.truncate(p),
                    }
                }
                if r.chance(1, 2) {
                    json!(["dec", bytes(&b), mdec(&b)])
                } else {
                    json!(["val", bytes(&b), validate(&b)])
                }
            }
        };
        writeln!(f, "{}", json!({ "e": v })).unwrap();
    }
}
