//! Single values - descriptors, signatures, handles, frames, constant pools, floats - run through the code
//! and recorded as events for ValueTrace.tla.
use crate::class::Events;
use crate::gen::Gen;
use crate::mk;
use crate::util::*;
use crate::{abs, text};
use coffer::code::{Catch, Label, RawFrame, VerificationType};
use coffer::cp::*;
use coffer::prelude::*;
use coffer::total_floats::{TotalF32, TotalF64};
use coffer::ty::{parse_type, write_type};
use coffer::{ConstantPoolReadWrite, ConstantPoolReader, ConstantPoolWriter, ReadWrite};
use once_cell::sync::OnceCell;
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::Arc;
use wtf_8::{Wtf8Str, Wtf8String};

/// ["ok", ..] / ["err"] / ["panic"]
fn result(r: Result<Result<Value, ()>, String>) -> Value {
    match r {
        Ok(Ok(v)) => json!(["ok", v]),
        Ok(Err(())) => json!(["err"]),
        Err(_) => json!(["panic"]),
    }
}
fn show(r: Result<Wtf8String, String>) -> Value {
    result(r.map(|s| Ok(abs::cps(&s))))
}
fn cps_to_string(s: &[u32]) -> Option<String> {
    s.iter().map(|c| char::from_u32(*c)).collect()
}
fn desc_of(t: &Type) -> Wtf8String {
    let mut s = Wtf8String::new();
    write_type(t, &mut s);
    s
}

// -- descriptors and signatures ----------------------------------------------------------------
/// Parses a string; if that gives a value, prints it in every way there is.
fn parse(e: &mut Events, kind: &str, s: &[u32]) {
    macro_rules! sig {
        ($t:ty, $f:path) => {{
            let Some(st) = cps_to_string(s) else { return };
            let r = guard(|| <$t>::from_str(&st).map_err(drop));
            let v = result(r.clone_map(|x| x.map(|x| $f(&x))));
            e.put(json!({"e": "parse", "k": kind, "s": s, "r": v}));
            if let Ok(Ok(x)) = r {
                e.put(json!({"e": "print", "k": kind, "v": $f(&x), "r": show(guard(|| Wtf8String::from_string(x.to_string())))}));
            }
        }};
    }
    match kind {
        "desc" => {
            let w = text::mk(s);
            let r = guard(|| parse_type(&w).map_err(drop));
            e.put(json!({"e": "parse", "k": kind, "s": s, "r": result(r.clone_map(|x| x.map(|t| abs::ty(&t))))}));
            if let Ok(Ok(t)) = r {
                print_desc(e, &t);
            }
        }
        "csig" => sig!(ClassSignature, abs::class_sig),
        "msig" => sig!(MethodSignature, abs::method_sig),
        "fsig" => sig!(FieldSignature, abs::field_sig),
        "simple" => sig!(SimpleClassTypeSignature, abs::simple_sig),
        "ref" => sig!(RefTypeSignature, abs::ref_sig),
        "ctype" => sig!(ClassTypeSignature, abs::class_type_sig),
        "type" => sig!(TypeSignature, abs::type_sig),
        "throws" => sig!(Throws, abs::throws),
        "tparam" => sig!(TypeParameter, abs::tparam),
        k => panic!("kind {k}"),
    }
}
trait CloneMap<T> {
    fn clone_map<U>(&self, f: impl FnOnce(Result<T, ()>) -> Result<U, ()>) -> Result<Result<U, ()>, String>;
}
impl<T: Clone> CloneMap<T> for Result<Result<T, ()>, String> {
    fn clone_map<U>(&self, f: impl FnOnce(Result<T, ()>) -> Result<U, ()>) -> Result<Result<U, ()>, String> {
        match self {
            Ok(x) => Ok(f(x.clone())),
            Err(s) => Err(s.clone()),
        }
    }
}
fn print_desc(e: &mut Events, t: &Type) {
    let v = abs::ty(t);
    e.put(json!({"e": "print", "k": "desc", "v": v, "r": show(guard(|| desc_of(t)))}));
    e.put(json!({"e": "print", "k": "desc", "v": v, "r": show(guard(|| Wtf8String::from(t)))}));
    // Display is for humans; it must agree where Unicode text can hold the name
    if desc_of(t).as_str().is_some() {
        e.put(json!({"e": "print", "k": "desc", "v": v, "r": show(guard(|| Wtf8String::from_string(t.to_string())))}));
    }
}
/// Prints a value, and parses what was printed.
fn print(e: &mut Events, kind: &str, v: &Value) {
    match kind {
        "desc" => {
            let t = mk::ty(v);
            print_desc(e, &t);
            if let Ok(s) = guard(|| desc_of(&t)) {
                parse(e, kind, &cps(&s));
            }
        }
        _ => {
            let s = guard(|| match kind {
                "csig" => mk::class_sig(v).to_string(),
                "msig" => mk::method_sig(v).to_string(),
                "fsig" => mk::field_sig(v).to_string(),
                "ref" => mk::ref_sig(v).to_string(),
                "ctype" => mk::class_type_sig(v).to_string(),
                "type" => mk::type_sig(v).to_string(),
                "simple" => mk::simple_sig(v).to_string(),
                "throws" => mk::throws(v).to_string(),
                "tparam" => mk::tparam(v).to_string(),
                k => panic!("kind {k}"),
            });
            e.put(json!({"e": "print", "k": kind, "v": v, "r": show(s.clone().map(|s| Wtf8String::from_string(s)))}));
            if let Ok(s) = s {
                parse(e, kind, &s.chars().map(|c| c as u32).collect::<Vec<_>>());
            }
        }
    }
}
fn cps(s: &Wtf8Str) -> Vec<u32> {
    s.codepoints().map(|c| c.to_u32()).collect()
}

// -- a pool as code sees it: labels are offsets -------------------------------------------------
struct Wr(VecCp);
impl ConstantPoolWriter for Wr {
    fn insert_raw(&mut self, v: RawConstantEntry) -> u16 {
        self.0.insert_raw(v)
    }
    fn insert_bsm(&mut self, b: BootstrapMethod) -> u16 {
        self.0.insert_bsm(b)
    }
    fn label(&mut self, l: &Label) -> u16 {
        l.0 as u16
    }
    fn catch(&mut self, _: &Catch) -> Option<u16> {
        None
    }
}
struct Rd {
    cp: MapCp,
    later: Vec<u16>,
}
impl ConstantPoolReader for Rd {
    fn read_raw(&mut self, i: u16) -> Option<RawConstantEntry> {
        self.cp.read_raw(i)
    }
    fn resolve_later(&mut self, i: u16, _: Arc<OnceCell<BootstrapMethod>>) {
        self.later.push(i)
    }
    fn bootstrap_methods(&mut self, _: &[BootstrapMethod]) -> coffer::Result<()> {
        Ok(())
    }
    fn get_label(&mut self, i: u32) -> Label {
        Label(i)
    }
    fn get_catch(&mut self, _: u16) -> Option<Catch> {
        None
    }
}
fn pool_bytes(cp: &VecCp) -> Result<Vec<u8>, ()> {
    let mut v = vec![];
    cp.write_to(&mut v).map(|_| v).map_err(drop)
}
fn written<T: ConstantPoolReadWrite>(x: &T) -> Result<Result<(Vec<u8>, Vec<u8>), ()>, String> {
    guard(|| {
        let mut cp = Wr(VecCp::new());
        let mut v = vec![];
        x.write_to(&mut cp, &mut v).map_err(drop)?;
        Ok((v, pool_bytes(&cp.0)?))
    })
}
fn reader(pool: &[u8]) -> Option<Rd> {
    Some(Rd { cp: MapCp::read_from(&mut &pool[..]).ok()?, later: vec![] })
}
/// The value and the number of bytes it took.
fn read_as<T: ConstantPoolReadWrite>(pool: &[u8], b: &[u8], f: impl Fn(&T) -> Value) -> Value {
    result(guard(|| {
        let mut rd = reader(pool).ok_or(())?;
        let mut s = b;
        let x = T::read_from(&mut rd, &mut s).map_err(drop)?;
        Ok(json!([f(&x), b.len() - s.len()]))
    }))
}

// -- method handles ----------------------------------------------------------------------------
fn handle(e: &mut Events, v: &Value) {
    let h = mk::handle(v);
    let c = match guard(|| h.check()) {
        Ok(Ok(())) => json!(["ok"]),
        Ok(Err(_)) => json!(["err"]),
        Err(_) => json!(["panic"]),
    };
    let w = written(&h);
    e.put(json!({"e": "handle", "v": v, "c": c,
                 "w": result(w.map(|r| r.map(|(b, p)| json!([bytes(&b), bytes(&p)]))))}));
    // the same handle as bytes, whether or not the code would write it
    let mut cp = VecCp::new();
    let m = cp.insert_member(h.member.clone());
    let pool = pool_bytes(&cp).expect("pool");
    handle_bytes(e, &[&[h.kind as u8][..], &m.to_be_bytes()].concat(), &pool);
}
fn handle_bytes(e: &mut Events, b: &[u8], pool: &[u8]) {
    e.put(json!({"e": "handle-read", "b": bytes(b), "pool": bytes(pool), "r": read_as::<MethodHandle>(pool, b, abs::handle)}));
}

// -- stack-map frames --------------------------------------------------------------------------
fn vtype(v: &VerificationType) -> Value {
    use VerificationType::*;
    match v {
        Top => json!(["top"]),
        Int => json!(["int"]),
        Float => json!(["float"]),
        Long => json!(["long"]),
        Double => json!(["double"]),
        Null => json!(["null"]),
        UninitializedThis => json!(["this"]),
        Object(s) => json!(["object", abs::cps(s)]),
        UninitializedVariable(l) => json!(["uninit", l.0]),
    }
}
fn vtypes(v: &[VerificationType]) -> Value {
    Value::Array(v.iter().map(vtype).collect())
}
fn frame(f: &RawFrame) -> Value {
    match f {
        RawFrame::Same(o) => json!(["same", o]),
        RawFrame::SameLocalsOneStack(o, v) => json!(["same1", o, vtype(v)]),
        RawFrame::Chop(o, n) => json!(["chop", o, n]),
        RawFrame::Append(o, v) => json!(["append", o, vtypes(v)]),
        RawFrame::Full(o, l, s) => json!(["full", o, vtypes(l), vtypes(s)]),
    }
}
fn mk_vtype(v: &Value) -> VerificationType {
    use VerificationType::*;
    match v[0].as_str().expect("vtype") {
        "top" => Top,
        "int" => Int,
        "float" => Float,
        "long" => Long,
        "double" => Double,
        "null" => Null,
        "this" => UninitializedThis,
        "object" => Object(mk::text(&v[1])),
        _ => UninitializedVariable(Label(v[1].as_u64().expect("offset") as u32)),
    }
}
fn mk_vtypes(v: &Value) -> Vec<VerificationType> {
    v.as_array().expect("types").iter().map(mk_vtype).collect()
}
fn mk_frame(v: &Value) -> RawFrame {
    let o = v[1].as_u64().expect("offset") as u16;
    match v[0].as_str().expect("frame") {
        "same" => RawFrame::Same(o),
        "same1" => RawFrame::SameLocalsOneStack(o, mk_vtype(&v[2])),
        "chop" => RawFrame::Chop(o, v[2].as_u64().expect("n") as u8),
        "append" => RawFrame::Append(o, mk_vtypes(&v[2])),
        _ => RawFrame::Full(o, mk_vtypes(&v[2]), mk_vtypes(&v[3])),
    }
}
fn write_frame(e: &mut Events, v: &Value) {
    let f = mk_frame(v);
    let w = written(&f);
    e.put(json!({"e": "frame", "v": v, "r": result(w.clone_map(|r| r.map(|(b, p)| json!([bytes(&b), bytes(&p)]))))}));
    if let Ok(Ok((b, p))) = w {
        read_frame(e, &b, &p);
    }
}
fn read_frame(e: &mut Events, b: &[u8], pool: &[u8]) {
    e.put(json!({"e": "frame-read", "b": bytes(b), "pool": bytes(pool), "r": read_as::<RawFrame>(pool, b, frame)}));
    let r = guard(|| {
        let mut rd = reader(pool).ok_or(())?;
        RawFrame::read_from(&mut rd, &mut &b[..]).map_err(drop)
    });
    if let Ok(Ok(f)) = r {
        let w = written(&f);
        e.put(json!({"e": "frame", "v": frame(&f), "r": result(w.map(|r| r.map(|(b, p)| json!([bytes(&b), bytes(&p)]))))}));
    }
}

// -- constant-pool writer histories --------------------------------------------------------------
fn insert(cp: &mut VecCp, op: &Value) -> u16 {
    let n = |i: usize| op[i].as_u64().expect("number") as u16;
    match op[0].as_str().expect("operation") {
        "utf8" => cp.insert_wtf8(mk::text(&op[1])),
        "int" => cp.insert_int(mk::b4(&op[1]) as i32),
        "float" => cp.insert_float(f32::from_bits(mk::b4(&op[1]))),
        "long" => cp.insert_long(mk::b8(&op[1]) as i64),
        "double" => cp.insert_double(f64::from_bits(mk::b8(&op[1]))),
        "class" => cp.insert_class(mk::text(&op[1])),
        "string" => cp.insert_indirect_str(8, mk::text(&op[1])),
        "class7" => cp.insert_indirect_str(7, mk::text(&op[1])),
        "module" => cp.insert_indirect_str(19, mk::text(&op[1])),
        "package" => cp.insert_package(mk::text(&op[1])),
        "package20" => cp.insert_indirect_str(20, mk::text(&op[1])),
        "nat" => cp.insert_nameandtype(mk::text(&op[1]), desc_of(&mk::ty(&op[2])).into()),
        "m" => cp.insert_member(mk::member(op)),
        "h" => cp.insert_method_handle(mk::handle(op)),
        "const" => cp.insert_constant(mk::constant(&op[1])),
        "dyn" => cp.insert_dynamic(mk::dynamic(op)),
        "ordyn" => cp.insert_ordynamic(
            if op[1][0] == "dyn" { OrDynamic::Dynamic(mk::dynamic(&op[1])) } else { OrDynamic::Static(mk::constant(&op[1])) },
            |c, k| c.insert_constant(k),
        ),
        "bsm" => cp.insert_bsm(mk::bsm(&op[1])),
        "raw" => cp.insert_raw(match op[1].as_u64().expect("tag") {
            1 => RawConstantEntry::WTF8(mk::text(&op[2])),
            3 => RawConstantEntry::Int(mk::b4(&op[2]) as i32),
            4 => RawConstantEntry::Float(TotalF32(f32::from_bits(mk::b4(&op[2])))),
            5 => RawConstantEntry::Long(mk::b8(&op[2]) as i64),
            6 => RawConstantEntry::Double(TotalF64(f64::from_bits(mk::b8(&op[2])))),
            7 => RawConstantEntry::Class(n(2)),
            8 => RawConstantEntry::String(n(2)),
            9 => RawConstantEntry::Field(n(2), n(3)),
            10 => RawConstantEntry::Method(n(2), n(3)),
            11 => RawConstantEntry::InterfaceMethod(n(2), n(3)),
            12 => RawConstantEntry::NameAndType(n(2), n(3)),
            15 => RawConstantEntry::MethodHandle(n(2) as u8, n(3)),
            16 => RawConstantEntry::MethodType(n(2)),
            17 => RawConstantEntry::Dynamic(n(2), n(3)),
            18 => RawConstantEntry::InvokeDynamic(n(2), n(3)),
            19 => RawConstantEntry::Module(n(2)),
            _ => RawConstantEntry::Package(n(2)),
        }),
        x => panic!("operation {x}"),
    }
}
fn history(e: &mut Events, ops: &Value) {
    let list = ops.as_array().expect("history");
    let r = guard(|| {
        let mut cp = VecCp::new();
        let idx: Vec<u16> = list.iter().map(|op| insert(&mut cp, op)).collect();
        let pool = pool_bytes(&cp)?;
        Ok(json!([idx, bytes(&pool)]))
    });
    e.put(json!({"e": "history", "ops": ops, "r": result(r)}));
}

// -- constant-pool lookups -----------------------------------------------------------------------
/// Everything that can be found in a pool: [kind, index, value]; what is not listed was reported absent.
fn lookups(e: &mut Events, pool: &[u8]) {
    let r = guard(|| {
        let mut rd = reader(pool).ok_or(())?;
        let top = rd.cp.entries.keys().max().copied().unwrap_or(0) as u32;
        let mut found = vec![];
        for i in (0..=(top + 3)).chain([255, 256, 65535]) {
            let Ok(i) = u16::try_from(i) else { continue };
            let mut put = |k: &str, v: Option<Value>| {
                if let Some(v) = v {
                    found.push(json!([k, i, v]));
                }
            };
            put("int", rd.read_int(i).map(|x| be4(x as u32)));
            put("float", rd.read_float(i).map(|x| be4(x.to_bits())));
            put("long", rd.read_long(i).map(|x| be8(x as u64)));
            put("double", rd.read_double(i).map(|x| be8(x.to_bits())));
            put("utf8", rd.read_wtf8(i).map(|s| abs::cps(&s)));
            put("class", rd.read_class(i).map(|s| abs::cps(&s)));
            put("name7", rd.read_indirect_str(7, i).map(|s| abs::cps(&s)));
            put("name8", rd.read_indirect_str(8, i).map(|s| abs::cps(&s)));
            put("name19", rd.read_indirect_str(19, i).map(|s| abs::cps(&s)));
            put("name20", rd.read_indirect_str(20, i).map(|s| abs::cps(&s)));
            put("nat", rd.read_nameandtype(i).map(|(n, t)| json!([abs::cps(&n), abs::ty(&t)])));
            put("const", rd.read_constant(i).map(|x| abs::constant(&x)));
            put("member", rd.read_member(i).map(|x| abs::member(&x)));
            put("handle", rd.read_method_handle(i).map(|x| abs::handle(&x)));
            for k in ["dyn", "indy", "ordyn"] {
                rd.later.clear();
                let x = match k {
                    "dyn" => rd.read_dynamic(i).map(OrDynamic::Dynamic),
                    "indy" => rd.read_invokedynamic(i).map(OrDynamic::Dynamic),
                    _ => rd.read_or_dynamic(i, |c, i| c.read_constant(i)),
                };
                put(k, x.map(|x| match x {
                    OrDynamic::Dynamic(d) => json!([rd.later, abs::cps(&d.name), abs::ty(&d.descriptor)]),
                    OrDynamic::Static(c) => abs::constant(&c),
                }));
            }
        }
        Ok(Value::Array(found))
    });
    e.put(json!({"e": "lookups", "b": bytes(pool), "r": result(r)}));
}

// -- floats --------------------------------------------------------------------------------------
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// All comparisons among some floats: matrices of 0 and 1.
fn compare(e: &mut Events, w: u64, xs: &Value) {
    fn matrices<T: Ord + Hash, F: PartialEq<T>>(xs: &[T], fs: &[F]) -> Value
    where
        T: PartialEq<F>,
    {
        let m = |f: &dyn Fn(usize, usize) -> bool| {
            Value::Array((0..xs.len()).map(|i| Value::Array((0..xs.len()).map(|j| json!(f(i, j) as u8)).collect())).collect())
        };
        json!({
            "eq": m(&|i, j| xs[i] == xs[j]),
            "feq": m(&|i, j| xs[i] == fs[j] && fs[j] == xs[i]),
            "fne": m(&|i, j| xs[i] != fs[j] && fs[j] != xs[i]),
            "hash": m(&|i, j| hash(&xs[i]) == hash(&xs[j])),
            "lt": m(&|i, j| xs[i].cmp(&xs[j]).is_lt()),
            "gt": m(&|i, j| xs[i].cmp(&xs[j]).is_gt()),
            "plt": m(&|i, j| xs[i] < xs[j]),
            "ple": m(&|i, j| xs[i] <= xs[j]),
        })
    }
    let list = xs.as_array().expect("floats");
    let r = guard(|| {
        if w == 4 {
            let f: Vec<f32> = list.iter().map(|x| f32::from_bits(mk::b4(x))).collect();
            assert!(f.iter().all(|x| f32::from(TotalF32::from(*x)).to_bits() == x.to_bits()), "other bits");
            matrices(&f.iter().map(|x| TotalF32::from(*x)).collect::<Vec<_>>(), &f)
        } else {
            let f: Vec<f64> = list.iter().map(|x| f64::from_bits(mk::b8(x))).collect();
            assert!(f.iter().all(|x| f64::from(TotalF64::from(*x)).to_bits() == x.to_bits()), "other bits");
            matrices(&f.iter().map(|x| TotalF64::from(*x)).collect::<Vec<_>>(), &f)
        }
    });
    e.put(json!({"e": "compare", "x": xs, "r": result(r.map(Ok))}));
}

// -- commands ------------------------------------------------------------------------------------
fn run(e: &mut Events, c: &Value) {
    let st = |i: usize| c[i].as_str().expect("text");
    match st(0) {
        "parse" => parse(e, st(1), &get_u32s(&c[2])),
        "print" => print(e, st(1), &c[2]),
        "handle" => handle(e, &c[1]),
        "handle-read" => handle_bytes(e, &get_bytes(&c[1]), &get_bytes(&c[2])),
        "frame" => write_frame(e, &c[1]),
        "frame-read" => read_frame(e, &get_bytes(&c[1]), &get_bytes(&c[2])),
        "history" => history(e, &c[1]),
        "lookups" => lookups(e, &get_bytes(&c[1])),
        "compare" => compare(e, c[1].as_u64().expect("width"), &c[2]),
        x => panic!("case {x}"),
    }
}
pub fn run_cases(file: &str, out: &str) {
    let mut e = Events::create(out);
    for l in std::fs::read_to_string(file).expect("read").lines().filter(|l| !l.is_empty()) {
        run(&mut e, &serde_json::from_str(l).expect("json"));
    }
    e.finish();
}
pub fn record(seed: u64, n: usize, topic: &str, out: &str) {
    let mut e = Events::create(out);
    for i in 0..n {
        let mut g = Gen::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64), "class");
        for c in g.cases(topic) {
            run(&mut e, &c);
        }
    }
    e.finish();
}
