//! Random classes, as abstract values of the specification (built by mk.rs).
use crate::abs;
use crate::class::{cycle, Events};
use crate::mk;
use crate::util::*;
use serde_json::{json, Value};

pub struct Gen {
    pub r: Rng,
    /// kind of class wanted
    topic: String,
    texts: Vec<Value>,
}
const KNOWN: [&str; 27] = ["Code", "Synthetic", "ConstantValue", "LineNumberTable", "Deprecated", "Signature", "SourceFile", "InnerClasses",
    "EnclosingMethod", "SourceDebugExtension", "BootstrapMethods", "Module", "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers",
    "RuntimeVisibleAnnotations", "RuntimeInvisibleTypeAnnotations", "Exceptions", "AnnotationDefault", "MethodParameters",
    "LocalVariableTable", "LocalVariableTypeTable", "StackMapTable", "Record", "PermittedSubclasses", "RuntimeVisibleParameterAnnotations"];
/// Texts that mean something somewhere.
const SPECIAL: [&str; 44] = ["", "[", "[I", "[[LA;", "()V", "(I)V", "V", "VV", "I", "J", "L;", "LA;", "A", "a", "java/lang/Object", "java/lang/String",
    "\n", "a\n", " a ", "\r\n", "\t", "x\0", "\0", "\0\0", "Code", "Synthetic", "T", ":", "a:b", "a.b", "a/b", "/", ".", ";", "<init>x", "x<clinit>", "\u{feff}",
    "\u{fffd}", "e\u{301}", "\u{130}", "0", "true", "SMAP\na\n*E\n", "this$0"];

impl Gen {
    pub fn new(seed: u64, topic: &str) -> Self {
        let mut g = Gen { r: Rng::new(seed), topic: topic.into(), texts: vec![] };
        let n = g.r.range(2, 12);
        for _ in 0..n {
            let t = if !g.texts.is_empty() && g.r.chance(1, 3) { g.near_text() } else { g.fresh_text() };
            g.texts.push(t);
        }
        g
    }
    fn many<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.r.range(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    fn opt(&mut self, f: impl FnOnce(&mut Self) -> Value) -> Value {
        if self.r.chance(1, 2) { json!([f(self)]) } else { json!([]) }
    }
    fn cp(&mut self) -> u32 {
        match self.r.below(12) {
            0 => 0,
            1 => *self.r.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000]),
            2 => 0xd800 + self.r.below(0x400) as u32,
            3 => 0xdc00 + self.r.below(0x400) as u32,
            4 => 0x10000 + self.r.below(0x100000) as u32,
            5 => 0x80 + self.r.below(0xd000) as u32,
            _ => 0x20 + self.r.below(0x5f) as u32,
        }
    }
    /// Code points without a lead directly before a trail surrogate.
    fn fresh_text(&mut self) -> Value {
        if self.r.chance(1, 4) {
            return json!(chars(*self.r.pick(&SPECIAL)));
        }
        let n = match self.r.below(24) {
            0..=2 => 0,
            3 => *self.r.pick(&[127, 128, 129, 200, 255, 256, 257]),
            4..=6 => self.r.range(10, 60),
            _ => self.r.range(1, 6),
        };
        let mut v: Vec<u32> = vec![];
        for _ in 0..n {
            let c = self.cp();
            let lead = v.last().map_or(false, |x| (0xd800..0xdc00).contains(x));
            if !(lead && (0xdc00..0xe000).contains(&c)) {
                v.push(c);
            }
        }
        json!(v)
    }
    /// A text that differs from one of the others in a single place.
    fn near_text(&mut self) -> Value {
        let i = self.r.below(self.texts.len());
        let mut v = get_u32s(&self.texts[i]);
        let p = if v.is_empty() { 0 } else { *self.r.pick(&[0, v.len() / 2, v.len() - 1]) };
        let c = self.cp();
        match self.r.below(4) {
            0 => v.push(c),
            1 => v.insert(0, c),
            2 if !v.is_empty() => v[p] = c,
            _ if !v.is_empty() => drop(v.remove(p)),
            _ => {}
        }
        let bad = v.windows(2).any(|w| (0xd800..0xdc00).contains(&w[0]) && (0xdc00..0xe000).contains(&w[1]));
        if bad { json!([c]) } else { json!(v) }
    }
    pub fn text(&mut self) -> Value {
        if self.r.chance(1, 4) {
            self.fresh_text()
        } else {
            let i = self.r.below(self.texts.len());
            self.texts[i].clone()
        }
    }
    fn member_name(&mut self) -> Value {
        let t = self.text();
        let s: Vec<u32> = get_u32s(&t);
        if s == chars("<init>") || s == chars("<clinit>") { json!([120]) } else { t }
    }
    /// A class name that a descriptor can hold.
    pub fn class_name(&mut self) -> Value {
        match self.r.below(4) {
            0 => json!(chars("A")),
            1 => json!(chars("java/lang/String")),
            _ => {
                let bad = [46, 91, 59, 47];
                let mut v: Vec<u32> = vec![];
                for c in get_u32s(&self.text()) {
                    let lead = v.last().map_or(false, |x| (0xd800..0xdc00).contains(x));
                    if !bad.contains(&c) && !(lead && (0xdc00..0xe000).contains(&c)) {
                        v.push(c);
                    }
                }
                v.insert(0, 66);
                if self.r.chance(1, 3) {
                    v.extend([47, 67]);
                }
                json!(v)
            }
        }
    }
    fn prim(&mut self) -> Value {
        json!([*self.r.pick(&["B", "C", "D", "F", "I", "J", "Z", "S"])])
    }
    fn scalar(&mut self) -> Value {
        if self.r.chance(1, 2) { self.prim() } else { json!(["L", self.class_name()]) }
    }
    pub fn ty(&mut self) -> Value {
        if self.r.chance(1, 4) { self.array() } else { self.scalar() }
    }
    fn dims(&mut self) -> u64 {
        match self.r.below(6) {
            0 => 254,
            1 => self.r.range(3, 20) as u64,
            2 => 2,
            _ => 1,
        }
    }
    fn array(&mut self) -> Value {
        let d = self.dims();
        json!(["[", d, self.scalar()])
    }
    pub fn mty(&mut self) -> Value {
        let ps = self.many(0, 4, |g| g.ty());
        json!(["(", ps, self.opt(|g| g.ty())])
    }
    fn ident(&mut self) -> Value {
        match self.r.below(4) {
            0 => json!(chars("T")),
            1 => json!([0x1F600]),
            2 => json!([0xe9, 0, 0x2028]),
            _ => json!(self.many(1, 4, |g| 0x61 + g.r.below(26) as u32)),
        }
    }
    fn ref_sig(&mut self, d: usize) -> Value {
        match self.r.below(if d == 0 { 2 } else { 5 }) {
            0 => json!(["T", self.ident()]),
            1 | 2 => {
                let n = self.dims();
                let t = if self.r.chance(1, 2) || d == 0 {
                    self.prim()
                } else {
                    self.class_sig_type(d - 1)
                };
                json!(["[", n, t])
            }
            _ => self.class_sig_type(d - 1),
        }
    }
    fn class_sig_type(&mut self, d: usize) -> Value {
        let simple = |g: &mut Gen| {
            let n = g.ident();
            let hi = if d == 0 { 0 } else { 3 };
            let args = g.many(0, hi, |g| match g.r.below(4) {
                0 => json!(["*"]),
                1 => json!(["+", g.ref_sig(d - 1)]),
                2 => json!(["-", g.ref_sig(d - 1)]),
                _ => json!(["=", g.ref_sig(d - 1)]),
            });
            json!([n, args])
        };
        let pkg = self.many(0, 2, |g| g.ident());
        let name = simple(self);
        let suffix = self.many(0, 2, simple);
        json!(["L", pkg, name, suffix])
    }
    fn tparams(&mut self) -> Value {
        json!(self.many(0, 2, |g| {
            let n = g.ident();
            let b = g.opt(|g| g.ref_sig(2));
            let lo = if b == json!([]) { 0 } else { 0 };
            let is = g.many(lo, 2, |g| g.ref_sig(2));
            json!([n, b, is])
        }))
    }
    pub fn class_sig(&mut self) -> Value {
        json!([self.tparams(), self.class_sig_type(3), self.many(0, 2, |g| g.class_sig_type(2))])
    }
    pub fn method_sig(&mut self) -> Value {
        let t = |g: &mut Gen| if g.r.chance(1, 3) { g.prim() } else { g.ref_sig(3) };
        json!([
            self.tparams(),
            self.many(0, 3, t),
            self.opt(t),
            self.many(0, 2, |g| if g.r.chance(1, 2) { json!(["T", g.ident()]) } else { g.class_sig_type(2) })
        ])
    }
    pub fn field_sig(&mut self) -> Value {
        self.ref_sig(4)
    }

    fn i32(&mut self) -> i32 {
        let edges = [0, 1, -1, 5, 6, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, i32::MAX, i32::MIN];
        if self.r.chance(2, 3) { *self.r.pick(&edges) } else { self.r.next() as i32 }
    }
    fn i64(&mut self) -> i64 {
        if self.r.chance(2, 3) {
            *self.r.pick(&[0, 1, 2, -1, i64::MAX, i64::MIN, 1 << 32, (1 << 32) - 1, -(1 << 31)])
        } else {
            self.r.next() as i64
        }
    }
    fn f32(&mut self) -> u32 {
        let edges = [0, 0x80000000, 0x3f800000, 0x40000000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000,
                     0x7f800001, 0x7fa00000, 0xffffffff, 1, 0x80000001, 0x7f7fffff, 0x40400000];
        if self.r.chance(2, 3) { *self.r.pick(&edges) } else { self.r.next() as u32 }
    }
    fn f64(&mut self) -> u64 {
        let edges = [0, 1 << 63, 0x3ff0000000000000, 0x4000000000000000, 0xbff0000000000000, 0x7ff0000000000000,
                     0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 0x7ff4000000000000,
                     u64::MAX, 1, 0x8000000000000001];
        if self.r.chance(2, 3) { *self.r.pick(&edges) } else { self.r.next() }
    }
    fn number(&mut self) -> Value {
        match self.r.below(4) {
            0 => json!(["int", be4(self.i32() as u32)]),
            1 => json!(["float", be4(self.f32())]),
            2 => json!(["long", be8(self.i64() as u64)]),
            _ => json!(["double", be8(self.f64())]),
        }
    }
    fn field_ref(&mut self) -> Value {
        json!(["m", self.class_name(), self.member_name(), self.ty(), 0])
    }
    fn method_ref(&mut self, itf: u8) -> Value {
        json!(["m", self.class_name(), self.member_name(), self.mty(), itf])
    }
    /// kind and member of a method handle
    fn handle(&mut self) -> (u8, Value) {
        let k = self.r.range(1, 9) as u8;
        let m = match k {
            1..=4 => self.field_ref(),
            5 => self.method_ref(0),
            8 => {
                let mut m = self.method_ref(0);
                m[2] = json!(chars("<init>"));
                m
            }
            9 => self.method_ref(1),
            _ => {
                let i = self.r.below(2) as u8;
                self.method_ref(i)
            }
        };
        (k, m)
    }
    pub fn constant(&mut self) -> Value {
        if self.topic == "numbers" || self.r.chance(1, 2) {
            return self.number();
        }
        match self.r.below(4) {
            0 => json!(["string", self.text()]),
            1 if self.r.chance(1, 6) => json!(["class", chars(*self.r.pick(&["[I", "[[J", "[LA;"]))]),
            1 => json!(["class", self.class_name()]),
            2 => json!(["mtype", self.mty()]),
            _ => {
                let (k, m) = self.handle();
                json!(["handle", k, m])
            }
        }
    }
    pub fn bsm(&mut self, d: usize) -> Value {
        let (k, m) = self.handle();
        let args = self.many(0, 3, |g| g.const_or_dyn(d));
        json!([["h", k, m], args])
    }
    pub fn dynamic(&mut self, d: usize, method: bool) -> Value {
        let b = self.bsm(d);
        let t = if method {
            self.mty()
        } else if self.r.chance(1, 2) {
            self.prim()
        } else {
            self.ty()
        };
        json!(["dyn", b, self.text(), t])
    }
    pub fn const_or_dyn(&mut self, d: usize) -> Value {
        let often = if self.topic == "dynamics" { 2 } else { 6 };
        if d > 0 && self.r.chance(1, often) { self.dynamic(d - 1, false) } else { self.constant() }
    }

    fn elem(&mut self, d: usize) -> Value {
        match self.r.below(if d == 0 { 11 } else { 13 }) {
            0 => json!(["B", *self.r.pick(&[0i32, 1, -1, 127, -128])]),
            1 => json!(["C", *self.r.pick(&[0, 1, 255, 256, 32768, 65535])]),
            2 => json!(["D", be8(self.f64())]),
            3 => json!(["F", be4(self.f32())]),
            4 => json!(["I", be4(self.i32() as u32)]),
            5 => json!(["J", be8(self.i64() as u64)]),
            6 => json!(["S", *self.r.pick(&[0i32, 1, -1, 127, 32767, -32768])]),
            7 => json!(["Z", self.r.below(2)]),
            8 => json!(["s", self.text()]),
            9 => json!(["e", self.ty(), self.text()]),
            10 => json!(["c", self.opt(|g| g.ty())]),
            11 => json!(["@", self.annotation(d - 1)]),
            _ => json!(["[", self.many(0, 3, |g| g.elem(d - 1))]),
        }
    }
    fn annotation(&mut self, d: usize) -> Value {
        let mut keys: Vec<Vec<u32>> = self.many(0, 3, |g| get_u32s(&g.text()));
        keys.sort();
        keys.dedup();
        let pairs: Vec<Value> = keys.into_iter().map(|k| json!([k, self.elem(d)])).collect();
        json!([self.ty(), pairs])
    }
    fn annotations(&mut self) -> Value {
        json!(self.many(0, 3, |g| g.annotation(3)))
    }
    fn path(&mut self) -> Value {
        json!(self.many(0, 3, |g| json!([*g.r.pick(&["array", "nested", "bound", "arg"]), *g.r.pick(&[0, 1, 127, 255])])))
    }
    fn type_anns(&mut self, mut target: impl FnMut(&mut Self) -> Value) -> Value {
        json!(self.many(0, 3, |g| {
            let t = target(g);
            json!([t, g.path(), g.annotation(2)])
        }))
    }
    fn u8(&mut self) -> u8 {
        *self.r.pick(&[0, 1, 2, 127, 128, 255])
    }
    fn u16(&mut self) -> u16 {
        if self.r.chance(1, 3) { self.r.next() as u16 } else { *self.r.pick(&[0, 1, 3, 4, 255, 256, 257, 32767, 32768, 65535]) }
    }
    fn raw(&mut self, tab: &[&str]) -> Value {
        let name = match self.r.below(5) {
            0 => json!(chars(*self.r.pick(&KNOWN))),
            1 => {
                let mut k = chars(*self.r.pick(&KNOWN));
                let c = *self.r.pick(&[0, 32, 46, 47, 115]);
                match self.r.below(6) {
                    0 => k[0] ^= 32,
                    1 => k.push(c),
                    2 => k.insert(0, c),
                    3 => drop(k.pop()),
                    4 => k = k.iter().map(|c| if (65..91).contains(c) { c + 32 } else { *c }).collect(),
                    _ => drop(k.remove(0)),
                }
                json!(k)
            }
            _ => self.text(),
        };
        let name = if tab.iter().any(|k| json!(chars(k)) == name) { json!(chars("Foo")) } else { name };
        let n = *self.r.pick(&[0, 1, 2, 6, 40]);
        json!([name, (0..n).map(|_| self.r.next() as u8).collect::<Vec<_>>()])
    }
    fn anns(&mut self, out: &mut Vec<(&'static str, Value)>) {
        let often = if self.topic == "annotations" { 2 } else { 5 };
        for k in ["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"] {
            if self.r.chance(1, often) {
                out.push((k, self.annotations()));
            }
        }
    }
    fn typed(&mut self, out: &mut Vec<(&'static str, Value)>, target: impl Fn(&mut Self) -> Value) {
        let often = if self.topic == "annotations" { 2 } else { 5 };
        for k in ["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"] {
            if self.r.chance(1, often) {
                out.push((k, self.type_anns(&target)));
            }
        }
    }
    fn common(&mut self, out: &mut Vec<(&'static str, Value)>, tab: &[&str]) {
        for k in ["Deprecated", "Synthetic"] {
            if self.r.chance(1, 4) {
                out.push((k, json!([])));
            }
        }
        let hi = if self.topic == "framing" { 5 } else { 1 };
        for _ in 0..self.r.range(0, hi) {
            out.push(("Raw", self.raw(tab)));
        }
    }
    fn flags(&mut self, mask: u16) -> u16 {
        match self.r.below(4) {
            0 => 0,
            1 => mask,
            _ => self.r.next() as u16 & mask,
        }
    }

    fn class_type(&mut self) -> Value {
        if self.r.chance(1, 3) { self.array() } else { json!(["L", self.class_name()]) }
    }
    /// An operation; its targets are drawn from 0..n.
    fn op(&mut self, n: usize) -> Value {
        const CONDS: [&str; 17] = ["always", "acmpeq", "acmpne", "icmpeq", "icmpne", "icmplt", "icmpgt", "icmple", "icmpge",
                                   "eq", "ne", "lt", "gt", "le", "ge", "null", "nonnull"];
        let l5 = ["I", "J", "F", "D", "A"];
        let deep = if self.topic == "dynamics" { 3 } else { 1 };
        let k = match self.topic.as_str() {
            "numbers" if self.r.chance(2, 3) => 0,
            "dynamics" if self.r.chance(2, 3) => *self.r.pick(&[0, 18]),
            "code" | "class" | "debug" if self.r.chance(1, 3) => *self.r.pick(&[2, 3, 20, 21]),
            "code" if self.r.chance(1, 8) => return json!(["push", self.dynamic(0, false)]),
            _ => self.r.below(23),
        };
        match k {
            0 => json!(["push", self.const_or_dyn(deep)]),
            1 => json!([*self.r.pick(&["aconst_null", "dup", "dup_x1", "dup_x2", "dup2", "dup2_x1", "dup2_x2", "pop", "pop2", "swap",
                                        "lcmp", "arraylength", "athrow"])]),
            2 => json!(["if", *self.r.pick(&CONDS), self.r.below(n)]),
            3 => json!(["jsr", self.r.below(n)]),
            4 => json!(["ret", self.u16()]),
            5 => json!(["fcmp", *self.r.pick(&["F", "D"]), *self.r.pick(&[1, -1])]),
            6 => json!([*self.r.pick(&["load", "store"]), *self.r.pick(&l5), self.u16()]),
            7 => json!([*self.r.pick(&["xaload", "xastore"]), *self.r.pick(&["B", "S", "C", "I", "J", "F", "D", "A"])]),
            8 => json!(["arith", *self.r.pick(&["I", "J"]),
                        *self.r.pick(&["div", "add", "sub", "mul", "rem", "neg", "xor", "or", "and", "shl", "shr", "ushr"])]),
            9 => json!(["arith", *self.r.pick(&["F", "D"]), *self.r.pick(&["div", "add", "sub", "mul", "rem", "neg"])]),
            10 => json!([*self.r.pick(&["checkcast", "instanceof"]), self.class_type()]),
            11 => {
                if self.r.chance(1, 2) {
                    let t = self.ty();
                    json!(["newarray", t, 1])
                } else {
                    let d = self.r.range(2, 254);
                    let k = *self.r.pick(&[2, d]);
                    json!(["newarray", ["[", d, self.scalar()], k])
                }
            }
            12 => json!(["monitor", *self.r.pick(&["enter", "exit"])]),
            13 => json!(["new", self.class_name()]),
            14 => {
                let c = *self.r.pick(&[("I", "J"), ("I", "F"), ("I", "D"), ("J", "I"), ("J", "F"), ("J", "D"), ("F", "I"), ("F", "J"),
                                       ("F", "D"), ("D", "I"), ("D", "J"), ("D", "F"), ("I", "B"), ("I", "C"), ("I", "S")]);
                json!(["conv", c.0, c.1])
            }
            15 => json!(["return", *self.r.pick(&["I", "J", "F", "D", "A", "V"])]),
            16 => json!(["field", *self.r.pick(&["get", "put"]), *self.r.pick(&["static", "virtual"]), self.field_ref()]),
            17 => match self.r.below(3) {
                0 => json!(["invoke", "virtual", self.method_ref(0)]),
                1 => {
                    let i = self.r.below(2) as u8;
                    json!(["invoke", *self.r.pick(&["static", "special"]), self.method_ref(i)])
                }
                _ => json!(["invokeinterface", self.method_ref(1), self.u8()]),
            },
            18 => json!(["invokedynamic", self.dynamic(deep, true)]),
            19 => {
                let i = self.u16();
                json!(["iinc", i, self.i32() as i16])
            }
            20 => {
                let arms = self.many(1, 6, |g| g.r.below(n));
                let low = self.i32().min(i32::MAX - 10);
                json!(["tableswitch", self.r.below(n), low, arms])
            }
            21 => {
                let mut keys = self.many(0, 5, |g| g.i32());
                keys.sort();
                keys.dedup();
                let t: Vec<Value> = keys.into_iter().map(|k| json!([k, self.r.below(n)])).collect();
                json!(["lookupswitch", self.r.below(n), t])
            }
            _ => json!(["aconst_null"]),
        }
    }
    pub fn code(&mut self) -> Value {
        // Segments: operations and runs of nops, never two runs in a row.
        let k = self.r.range(1, if self.topic == "layout" { 14 } else { 12 });
        let mut lens: Vec<usize> = vec![];
        for _ in 0..k {
            let run = lens.last().map_or(true, |x| *x == 0) && self.r.chance(1, 3);
            let big = self.topic == "layout" && self.r.chance(1, 2);
            lens.push(if !run {
                0
            } else if big {
                *self.r.pick(&[32700, 32750, 32760, 16380, 16384, 10900]) + self.r.below(16)
            } else {
                self.r.range(1, 9)
            });
        }
        let n: usize = lens.iter().map(|x| (*x).max(1)).sum();
        let starts: Vec<usize> = {
            let mut at = 0;
            let mut v = vec![];
            for x in &lens {
                v.push(at);
                if *x > 1 {
                    v.push(at + x / 2);
                }
                at += (*x).max(1);
            }
            v
        };
        let layout = self.topic == "layout";
        let mut ops = vec![];
        for x in &lens {
            ops.push(if *x > 0 {
                json!(["nops", x])
            } else if layout && self.r.chance(4, 5) {
                let t = |g: &mut Gen| *g.r.pick(&starts);
                match self.r.below(8) {
                    0 | 1 => json!(["if", "always", t(self)]),
                    2 | 3 | 4 => json!(["if", *self.r.pick(&["eq", "null", "icmplt", "acmpne"]), t(self)]),
                    5 => json!(["jsr", t(self)]),
                    6 => json!(["tableswitch", t(self), -1, self.many(1, 5, t)]),
                    _ => json!(["lookupswitch", t(self), [[-1, t(self)], [9, t(self)]]]),
                }
            } else {
                self.op(n)
            });
        }
        let at = |g: &mut Gen| if g.r.chance(1, 2) { *g.r.pick(&starts) } else { g.r.below(n) };
        let often = if self.topic == "debug" { 8 } else { 3 };
        let catches: Vec<Value> = self.many(0, 3, |g| {
            let c = g.opt(|g| g.class_name());
            let e = if g.r.chance(1, 4) { n } else { at(g) };
            json!([at(g), e, at(g), c])
        });
        // One may share some of its parts with another.
        let catches: Vec<Value> = catches.iter().enumerate().map(|(i, c)| {
            let mut c = c.clone();
            if i > 0 && self.r.chance(1, 2) {
                let keep = self.r.below(4);
                for k in (0..4).filter(|k| *k != keep) {
                    c[k] = catches[0][k].clone();
                }
            }
            c
        }).collect();
        let mut lines: Vec<(usize, u16)> = self.many(0, often, |g| (at(g), g.u16()));
        lines.sort_by_key(|x| x.0);
        let mut vars: Vec<(usize, usize, u16, Vec<u32>)> = self.many(0, often, |g| {
            let (a, b) = (at(g), if g.r.chance(1, 4) { n } else { at(g) });
            (a.min(b), a.max(b), g.u16(), get_u32s(&g.text()))
        });
        vars.sort();
        vars.dedup();
        let vars: Vec<Value> = vars
            .into_iter()
            .map(|(a, b, i, s)| {
                let (d, sig) = match self.r.below(3) {
                    0 => (json!([self.ty()]), json!([])),
                    1 => (json!([]), json!([self.field_sig()])),
                    _ => (json!([self.ty()]), json!([self.field_sig()])),
                };
                json!([a, b, s, d, i, sig])
            })
            .collect();
        let mut attrs = vec![];
        let cs = catches.clone();
        self.typed(&mut attrs, |g| {
            let ranges = |g: &mut Gen| {
                g.many(0, 2, |g| {
                    let (a, b) = (at(g), at(g));
                    json!([a.min(b), a.max(b), g.u16()])
                })
            };
            match g.r.below(12) {
                0 => json!(["var", ranges(g)]),
                1 => json!(["resource", ranges(g)]),
                2 if !cs.is_empty() => json!(["catch", g.r.pick(&cs).clone()]),
                3 => json!(["instanceof", at(g)]),
                4 => json!(["new", at(g)]),
                5 => json!(["newref", at(g)]),
                6 => json!(["cast", at(g), g.u8()]),
                7 => json!(["gnew", at(g), g.u8()]),
                8 => json!(["gmethod", at(g), g.u8()]),
                9 => json!(["gnewref", at(g), g.u8()]),
                10 => json!(["gmethodref", at(g), g.u8()]),
                _ => json!(["methodref", at(g)]),
            }
        });
        if self.r.chance(1, 4) || self.topic == "framing" {
            for _ in 0..self.r.range(1, 3) {
                let r = self.raw(&["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "LineNumberTable", "LocalVariableTable",
                                   "LocalVariableTypeTable", "StackMapTable"]);
                attrs.push(("Raw", r));
            }
        }
        json!({"stack": self.u16(), "locals": self.u16(), "n": n, "ops": ops, "catches": catches,
               "lines": lines.into_iter().map(|(a, l)| json!([a, l])).collect::<Vec<_>>(), "vars": vars, "attrs": abs::sorted(attrs)})
    }

    fn field(&mut self) -> Value {
        let mut a = vec![];
        self.anns(&mut a);
        self.typed(&mut a, |_| json!(["field"]));
        if self.r.chance(1, 3) {
            a.push(("Signature", self.field_sig()));
        }
        if self.r.chance(1, 2) {
            a.push(("ConstantValue", self.constant()));
        }
        self.common(&mut a, &["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "Deprecated", "Synthetic", "Signature", "ConstantValue",
                              "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"]);
        json!([self.flags(20703), self.text(), self.ty(), abs::sorted(a)])
    }
    fn method(&mut self, code: bool) -> Value {
        let mut a = vec![];
        if code {
            a.push(("Code", self.code()));
        }
        self.anns(&mut a);
        self.typed(&mut a, |g| match g.r.below(6) {
            0 => json!(["tparam", g.u8()]),
            1 => json!(["tbound", g.u8(), g.u8()]),
            2 => json!(["return"]),
            3 => json!(["receiver"]),
            4 => json!(["formal", g.u8()]),
            _ => json!(["throws", g.u16()]),
        });
        if self.r.chance(1, 3) {
            a.push(("Signature", self.method_sig()));
        }
        if self.r.chance(1, 4) {
            a.push(("Exceptions", json!(self.many(0, 3, |g| g.class_name()))));
        }
        if self.r.chance(1, 4) {
            a.push(("AnnotationDefault", self.elem(3)));
        }
        if self.r.chance(1, 4) {
            a.push(("MethodParameters", json!(self.many(0, 3, |g| {
                let n = g.opt(|g| g.text());
                json!([n, g.flags(36880)])
            }))));
        }
        for k in ["RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations"] {
            if self.r.chance(1, 5) {
                a.push((k, json!(self.many(0, 3, |g| g.annotations()))));
            }
        }
        self.common(&mut a, &["Code", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "Deprecated", "Synthetic", "Signature",
                              "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "RuntimeVisibleParameterAnnotations",
                              "RuntimeInvisibleParameterAnnotations", "Exceptions", "AnnotationDefault", "MethodParameters"]);
        json!([self.flags(7679), self.text(), self.mty(), abs::sorted(a)])
    }
    fn names(&mut self) -> Value {
        json!(self.many(0, 3, |g| g.class_name()))
    }
    fn module(&mut self) -> Value {
        let exop = |g: &mut Gen| {
            g.many(0, 2, |g| {
                let p = g.text();
                let f = g.flags(36864);
                json!([p, f, g.many(0, 2, |g| g.text())])
            })
        };
        json!([
            self.text(), self.flags(36896), self.opt(|g| g.text()),
            self.many(0, 3, |g| {
                let m = g.text();
                let f = g.flags(36960);
                json!([m, f, g.opt(|g| g.text())])
            }),
            exop(self), exop(self), self.names(),
            self.many(0, 2, |g| json!([g.class_name(), g.names()]))
        ])
    }
    fn class_attrs(&mut self) -> Value {
        let mut a = vec![];
        self.anns(&mut a);
        self.typed(&mut a, |g| match g.r.below(3) {
            0 => json!(["tparam", g.u8()]),
            1 => json!(["super", g.u16()]),
            _ => json!(["tbound", g.u8(), g.u8()]),
        });
        if self.r.chance(1, 3) {
            a.push(("Signature", self.class_sig()));
        }
        if self.r.chance(1, 3) {
            a.push(("SourceFile", self.text()));
        }
        if self.r.chance(1, 3) {
            a.push(("InnerClasses", json!(self.many(0, 3, |g| {
                let i = g.class_name();
                let o = g.opt(|g| g.class_name());
                let n = g.opt(|g| g.text());
                json!([i, o, n, g.flags(30239)])
            }))));
        }
        if self.r.chance(1, 4) {
            let c = self.class_name();
            a.push(("EnclosingMethod", json!([c, self.opt(|g| json!([g.text(), g.mty()]))])));
        }
        if self.r.chance(1, 4) {
            a.push(("SourceDebugExtension", self.text()));
        }
        if self.r.chance(1, 2) && self.topic == "dynamics" || self.r.chance(1, 5) {
            a.push(("BootstrapMethods", json!(self.many(0, 3, |g| g.bsm(2)))));
        }
        if self.r.chance(1, 4) {
            a.push(("Module", self.module()));
        }
        if self.r.chance(1, 4) {
            a.push(("ModulePackages", json!(self.many(0, 3, |g| g.text()))));
        }
        if self.r.chance(1, 4) {
            a.push(("ModuleMainClass", self.class_name()));
        }
        if self.r.chance(1, 4) {
            a.push(("NestHost", self.class_name()));
        }
        if self.r.chance(1, 4) {
            a.push(("NestMembers", self.names()));
        }
        self.common(&mut a, &["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "Deprecated", "Synthetic", "Signature",
                              "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "SourceFile", "InnerClasses", "EnclosingMethod",
                              "SourceDebugExtension", "BootstrapMethods", "Module", "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers"]);
        abs::sorted(a)
    }
    pub fn class(&mut self) -> Value {
        let (f, m, code, attrs) = match self.topic.as_str() {
            "layout" => (0, 1, true, false),
            "code" | "debug" => (0, 2, true, false),
            "numbers" => (3, 2, true, false),
            "annotations" | "framing" => (2, 2, true, true),
            _ => (3, 3, true, true),
        };
        let fields = self.many(if m == 1 { 0 } else { 0 }, f, |g| g.field());
        let methods = self.many(if f == 0 { 1 } else { 0 }, m, |g| {
            let c = code && g.r.chance(3, 4);
            g.method(c || m <= 2)
        });
        json!({
            "minor": self.u16(), "major": self.r.range(45, 59), "access": self.flags(63025), "name": self.class_name(),
            "super": self.opt(|g| g.class_name()), "ifaces": self.names(), "fields": fields, "methods": methods,
            "attrs": if attrs { self.class_attrs() } else { json!([]) },
        })
    }
}
/// Cases for vals.rs.
impl Gen {
    fn mutated(&mut self, mut s: Vec<u32>, alphabet: &str) -> Vec<u32> {
        let abc: Vec<u32> = chars(alphabet);
        for _ in 0..self.r.range(1, 2) {
            let i = self.r.below(s.len() + 1);
            let c = *self.r.pick(&abc);
            match self.r.below(5) {
                0 => s.insert(i, c),
                1 if i < s.len() => s[i] = c,
                2 if i < s.len() => drop(s.remove(i)),
                3 if i + 1 < s.len() => s.swap(i, i + 1),
                _ => s.truncate(i),
            }
        }
        s
    }
    fn wide_ty(&mut self) -> Value {
        let t = self.ty();
        if t[0] == "[" && self.r.chance(1, 4) { json!(["[", 255, t[2]]) } else { t }
    }
    fn vtype(&mut self) -> Value {
        match self.r.below(9) {
            0 => json!(["object", self.class_name()]),
            1 => json!(["uninit", self.r.below(65535)]),
            _ => json!([*self.r.pick(&["top", "int", "float", "long", "double", "null", "this"])]),
        }
    }
    fn insertion(&mut self) -> Value {
        match self.r.below(22) {
            0 | 1 => json!(["utf8", self.text()]),
            2 => json!(["int", be4(self.i32() as u32)]),
            3 => json!(["float", be4(self.f32())]),
            4 => json!(["long", be8(self.i64() as u64)]),
            5 => json!(["double", be8(self.f64())]),
            6 => json!(["class", self.text()]),
            7 => json!(["class7", self.text()]),
            8 => json!(["string", self.text()]),
            9 => json!(["module", self.text()]),
            10 => json!(["package", self.text()]),
            11 => json!(["package20", self.text()]),
            12 => json!(["nat", self.text(), if self.r.chance(1, 2) { self.ty() } else { self.mty() }]),
            13 => self.field_ref(),
            14 | 15 => {
                let i = self.r.below(2) as u8;
                self.method_ref(i)
            }
            16 => {
                let (k, m) = self.handle();
                json!(["h", k, m])
            }
            17 => json!(["const", self.constant()]),
            18 => {
                let m = self.r.chance(1, 2);
                self.dynamic(1, m)
            }
            19 => json!(["ordyn", self.const_or_dyn(1)]),
            20 => json!(["bsm", self.bsm(1)]),
            _ => {
                let n = |g: &mut Self| g.r.below(12);
                match self.r.below(4) {
                    0 => json!(["raw", *self.r.pick(&[7, 8, 16, 19, 20]), n(self)]),
                    1 | 2 => json!(["raw", *self.r.pick(&[9, 10, 11, 12, 15, 17, 18]), n(self), n(self)]),
                    _ => json!(["raw", 5, be8(self.i64() as u64)]),
                }
            }
        }
    }
    pub fn cases(&mut self, topic: &str) -> Vec<Value> {
        const DESC: &str = "BCDFIJSZL[();VX/";
        const SIG: &str = "BCDFIJSZL[();VTa<>:*+-^./";
        match topic {
            "desc" => {
                let v = if self.r.chance(1, 2) {
                    self.wide_ty()
                } else {
                    json!(["(", self.many(0, 8, |g| g.wide_ty()), self.opt(|g| g.wide_ty())])
                };
                let s: coffer::prelude::Type = mk::ty(&v);
                let s: Vec<u32> = wtf_8::Wtf8String::from(&s).codepoints().map(|c| c.to_u32()).collect();
                let mut out = vec![json!(["print", "desc", v])];
                for _ in 0..6 {
                    let m = self.mutated(s.clone(), DESC);
                    if !m.windows(2).any(|w| (0xD800..0xDC00).contains(&w[0]) && (0xDC00..0xE000).contains(&w[1])) {
                        out.push(json!(["parse", "desc", m]));
                    }
                }
                out
            }
            "sig" => {
                let (k, v, s) = match self.r.below(3) {
                    0 => {
                        let v = self.class_sig();
                        ("csig", v.clone(), mk::class_sig(&v).to_string())
                    }
                    1 => {
                        let v = self.method_sig();
                        ("msig", v.clone(), mk::method_sig(&v).to_string())
                    }
                    _ => {
                        let v = self.field_sig();
                        ("fsig", v.clone(), mk::field_sig(&v).to_string())
                    }
                };
                let s = chars(&s);
                let mut out = vec![json!(["print", k, v])];
                let kinds = ["csig", "msig", "fsig", "simple", "ref", "ctype", "type", "throws", "tparam"];
                for i in 0..8 {
                    let k = if i < 6 { k } else { *self.r.pick(&kinds) };
                    let m = self.mutated(s.clone(), SIG);
                    out.push(json!(["parse", k, m]));
                }
                out
            }
            "handle" => {
                let k = self.r.range(1, 9);
                let mut m = if self.r.chance(1, 2) { self.field_ref() } else { self.method_ref(k as u8 % 2) };
                if self.r.chance(2, 3) {
                    m[2] = json!(chars(*self.r.pick(&["<init>", "<clinit>", "<init", "init", "<init>\0", "x"])));
                }
                vec![json!(["handle", ["h", k, m]])]
            }
            "frame" => {
                let o = if self.r.chance(1, 2) { self.u16() } else { self.r.below(300) as u16 };
                let f = match self.r.below(5) {
                    0 => json!(["same", o]),
                    1 => json!(["same1", o, self.vtype()]),
                    2 => json!(["chop", o, self.r.below(6)]),
                    3 => json!(["append", o, self.many(0, 5, |g| g.vtype())]),
                    _ => json!(["full", o, self.many(0, 5, |g| g.vtype()), self.many(0, 5, |g| g.vtype())]),
                };
                vec![json!(["frame", f])]
            }
            "history" => {
                let mut ops: Vec<Value> = vec![];
                for _ in 0..self.r.range(2, 40) {
                    let op = if !ops.is_empty() && self.r.chance(1, 4) {
                        let i = self.r.below(ops.len());
                        ops[i].clone()
                    } else {
                        self.insertion()
                    };
                    ops.push(op);
                }
                vec![json!(["history", ops])]
            }
            "pool" => {
                // entries in three layers, shuffled, so that most references are right
                let n = self.r.range(3, 24);
                let mut kinds: Vec<(u8, usize)> = vec![];
                let mut at = 1;
                for _ in 0..n {
                    let t = *self.r.pick(&[1u8, 1, 1, 1, 3, 4, 5, 6, 7, 7, 8, 9, 10, 11, 12, 12, 12, 15, 16, 17, 18, 19, 20]);
                    kinds.push((t, at));
                    at += if t == 5 || t == 6 { 2 } else { 1 };
                }
                let mut b: Vec<u8> = (at as u16).to_be_bytes().to_vec();
                for i in 0..n {
                    let t = kinds[i].0;
                    let mut to = |g: &mut Gen, want: &[u8]| -> [u8; 2] {
                        let good: Vec<usize> = kinds.iter().filter(|k| want.contains(&k.0)).map(|k| k.1).collect();
                        let x = if good.is_empty() || g.r.chance(1, 12) { g.r.below(at + 2) } else { *g.r.pick(&good) };
                        (x as u16).to_be_bytes()
                    };
                    b.push(t);
                    match t {
                        1 => {
                            let s = if self.r.chance(2, 3) { chars(*self.r.pick(&["I", "()V", "LA;", "[J", "(I)LA;", "x", "", "V", "LA", "(I"])) } else { crate::util::get_u32s(&self.text()) };
                            let m = coffer::mod_utf8::string_to_modified_utf8(&crate::text::mk(&s));
                            b.extend((m.len() as u16).to_be_bytes());
                            b.extend_from_slice(&m);
                        }
                        3 | 4 => b.extend(self.f32().to_be_bytes()),
                        5 | 6 => b.extend(self.f64().to_be_bytes()),
                        7 | 8 | 16 | 19 | 20 => b.extend(to(self, &[1])),
                        9 | 10 | 11 => {
                            b.extend(to(self, &[7]));
                            b.extend(to(self, &[12]));
                        }
                        12 => {
                            b.extend(to(self, &[1]));
                            b.extend(to(self, &[1]));
                        }
                        15 => {
                            let any = self.r.next() as u8;
                            b.push(if self.r.chance(1, 5) { any } else { self.r.below(11) as u8 });
                            b.extend(to(self, &[9, 10, 11]));
                        }
                        _ => {
                            b.extend((self.r.below(4) as u16).to_be_bytes());
                            b.extend(to(self, &[12]));
                        }
                    }
                }
                vec![json!(["lookups", b])]
            }
            "floats" => {
                let a: Vec<Value> = self.many(3, 14, |g| be4(g.f32()));
                let b: Vec<Value> = self.many(3, 14, |g| be8(g.f64()));
                vec![json!(["compare", 4, a]), json!(["compare", 8, b])]
            }
            t => panic!("topic {t}"),
        }
    }
}
pub fn chars(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}
/// Writes, reads back and rewrites `n` random classes.
pub fn record(seed: u64, n: usize, topic: &str, out: &str) {
    let mut e = Events::create(out);
    for i in 0..n {
        let v = Gen::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64), topic).class();
        let c = mk::class(&v);
        let back = abs::class(&c);
        assert_eq!(back, v, "the harness did not build what was asked for");
        cycle(&mut e, topic, &c);
    }
    e.finish();
}
/// A copy of `b` with one to three random faults.
fn damaged(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            break;
        }
        let p = r.below(b.len());
        let small = (r.below(8)) as u8;
        match r.below(12) {
            0 => b.truncate(p),
            1 => {
                b.remove(p);
            }
            2 => b.insert(p, *r.pick(&[0, 1, small, 255])),
            3 | 4 => b[p] = *r.pick(&[0, 1, 2, 3, 127, 128, 254, 255]),
            5 => b[p] = r.next() as u8,
            6 => b[p] = b[p].wrapping_add(1),
            7 => b[p] = b[p].wrapping_sub(1),
            8 => {
                let v = *r.pick(&[0xFFFFu16, 0, 1, 0x7FFF, 0x8000, 256]);
                for (i, x) in v.to_be_bytes().iter().enumerate() {
                    if p + i < b.len() {
                        b[p + i] = *x;
                    }
                }
            }
            9 => {
                let v = *r.pick(&[u32::MAX, 0x7FFF_FFFF, 0x8000_0000, 0x1_0000, 0]);
                for (i, x) in v.to_be_bytes().iter().enumerate() {
                    if p + i < b.len() {
                        b[p + i] = *x;
                    }
                }
            }
            10 => {
                // a piece from elsewhere
                let q = r.below(b.len());
                let k = r.range(1, 8).min(b.len() - p).min(b.len() - q);
                let s = b[q..q + k].to_vec();
                b[p..p + k].copy_from_slice(&s);
            }
            _ => {
                let q = r.below(b.len());
                b.swap(p, q);
            }
        }
    }
    b
}
/// Random classes, written and then damaged `per` times each.
pub fn record_corrupt(seed: u64, n: usize, per: usize, topics: &str, out: &str) {
    let mut e = Events::create(out);
    let topics: Vec<&str> = topics.split(',').collect();
    let cur = format!("{out}.cur");
    for i in 0..n {
        let topic = topics[i % topics.len()];
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
        let c = mk::class(&Gen::new(s, topic).class());
        if let Ok(Ok(b)) = crate::class::write(&c) {
            let mut r = Rng::new(s ^ 0x5EED);
            for _ in 0..per {
                crate::class::any(&mut e, topic, &damaged(&mut r, &b), &cur);
            }
        }
    }
    e.finish();
}
/// The class files of a file of `[what, bytes]` lines, damaged `per` times each.
pub fn corrupt_file(file: &str, out: &str, seed: u64, per: usize) {
    let mut e = Events::create(out);
    let cur = format!("{out}.cur");
    for (i, l) in std::fs::read_to_string(file).expect("read").lines().filter(|l| !l.is_empty()).enumerate() {
        let v: Value = serde_json::from_str(l).expect("json");
        let b = crate::util::get_bytes(&v[1]);
        let mut r = Rng::new(seed.wrapping_mul(7919) ^ i as u64);
        for _ in 0..per {
            crate::class::any(&mut e, v[0].as_str().expect("label"), &damaged(&mut r, &b), &cur);
        }
    }
    e.finish();
}
