//! Projection of coffer values to the abstract values of the specification (ClassFile.tla).
use crate::util::*;
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use wtf_8::Wtf8Str;

pub fn cps(s: &Wtf8Str) -> Value {
    Value::Array(s.codepoints().map(|c| json!(c.to_u32())).collect())
}
pub fn chars(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn opt(v: Option<Value>) -> Value {
    Value::Array(v.into_iter().collect())
}
fn list<T>(xs: &[T], f: impl FnMut(&T) -> Value) -> Value {
    Value::Array(xs.iter().map(f).collect())
}
fn names(xs: &[Cow<'static, Wtf8Str>]) -> Value {
    list(xs, |s| cps(s))
}

pub fn ty(t: &Type) -> Value {
    match t {
        Type::Byte => json!(["B"]),
        Type::Char => json!(["C"]),
        Type::Double => json!(["D"]),
        Type::Float => json!(["F"]),
        Type::Int => json!(["I"]),
        Type::Long => json!(["J"]),
        Type::Boolean => json!(["Z"]),
        Type::Short => json!(["S"]),
        Type::Ref(n) => json!(["L", cps(n)]),
        Type::ArrayRef(d, t) => json!(["[", d, ty(t)]),
        Type::Method { parameters, ret } => {
            json!(["(", list(parameters, ty), opt(ret.as_ref().map(|t| ty(t)))])
        }
    }
}

pub fn type_sig(t: &TypeSignature) -> Value {
    match t {
        TypeSignature::Byte => json!(["B"]),
        TypeSignature::Char => json!(["C"]),
        TypeSignature::Double => json!(["D"]),
        TypeSignature::Float => json!(["F"]),
        TypeSignature::Int => json!(["I"]),
        TypeSignature::Long => json!(["J"]),
        TypeSignature::Boolean => json!(["Z"]),
        TypeSignature::Short => json!(["S"]),
        TypeSignature::Ref(r) => ref_sig(r),
    }
}
pub fn ref_sig(r: &RefTypeSignature) -> Value {
    match r {
        RefTypeSignature::TypeVariable(n) => json!(["T", chars(n)]),
        RefTypeSignature::ArrayRef(d, t) => json!(["[", d, type_sig(t)]),
        RefTypeSignature::ClassType(c) => class_type_sig(c),
    }
}
pub fn simple_sig(s: &SimpleClassTypeSignature) -> Value {
    json!([
        chars(&s.name),
        list(&s.type_arguments, |a| match a {
            TypeArgument::Any => json!(["*"]),
            TypeArgument::Extends(r) => json!(["+", ref_sig(r)]),
            TypeArgument::Super(r) => json!(["-", ref_sig(r)]),
            TypeArgument::Exact(r) => json!(["=", ref_sig(r)]),
        })
    ])
}
pub fn class_type_sig(c: &ClassTypeSignature) -> Value {
    json!(["L", list(&c.package, |p| chars(p)), simple_sig(&c.name), list(&c.suffix, simple_sig)])
}
fn tparams(ps: &[TypeParameter]) -> Value {
    list(ps, tparam)
}
pub fn tparam(p: &TypeParameter) -> Value {
    json!([chars(&p.name), opt(p.class_bound.as_ref().map(ref_sig)), list(&p.interface_bounds, ref_sig)])
}
pub fn throws(t: &Throws) -> Value {
    match t {
        Throws::TypeParameter(n) => json!(["T", chars(n)]),
        Throws::Class(c) => class_type_sig(c),
    }
}
pub fn class_sig(s: &ClassSignature) -> Value {
    json!([tparams(&s.type_parameters), class_type_sig(&s.super_class), list(&s.interfaces, class_type_sig)])
}
pub fn method_sig(s: &MethodSignature) -> Value {
    json!([
        tparams(&s.type_parameters),
        list(&s.parameters, type_sig),
        opt(s.return_type.as_ref().map(type_sig)),
        list(&s.throws, throws)
    ])
}
pub fn field_sig(s: &FieldSignature) -> Value {
    // repr(transparent) over RefTypeSignature; its field is private.
    assert_eq!(std::mem::size_of::<FieldSignature>(), std::mem::size_of::<RefTypeSignature>());
    ref_sig(unsafe { &*(s as *const FieldSignature as *const RefTypeSignature) })
}

pub fn member(m: &MemberRef) -> Value {
    let itf = !matches!(m.descriptor, Type::Method { .. }) || !m.itfs;
    json!(["m", cps(&m.owner), cps(&m.name), ty(&m.descriptor), if itf { 0 } else { 1 }])
}
pub fn handle(h: &MethodHandle) -> Value {
    json!(["h", h.kind as u8, member(&h.member)])
}
pub fn constant(c: &Constant) -> Value {
    match c {
        Constant::I32(i) => json!(["int", be4(*i as u32)]),
        Constant::F32(f) => json!(["float", be4(f.0.to_bits())]),
        Constant::I64(i) => json!(["long", be8(*i as u64)]),
        Constant::F64(f) => json!(["double", be8(f.0.to_bits())]),
        Constant::String(s) => json!(["string", cps(s)]),
        Constant::Class(s) => json!(["class", cps(s)]),
        Constant::Member(m) => json!(["member", member(m)]),
        Constant::MethodType(t) => json!(["mtype", ty(t)]),
        Constant::MethodHandle(h) => json!(["handle", h.kind as u8, member(&h.member)]),
    }
}
pub fn bsm(b: &BootstrapMethod) -> Value {
    json!([handle(&b.handle), list(&b.arguments, |a| or_dyn(a, constant))])
}
pub fn dynamic(d: &Dynamic) -> Value {
    match d.bsm.get() {
        Some(b) => json!(["dyn", bsm(b), cps(&d.name), ty(&d.descriptor)]),
        None => json!(["unresolved dynamic"]),
    }
}
fn or_dyn<T>(x: &OrDynamic<T>, f: impl Fn(&T) -> Value) -> Value {
    match x {
        OrDynamic::Static(t) => f(t),
        OrDynamic::Dynamic(d) => dynamic(d),
    }
}

pub fn pairs(m: &HashMap<Cow<'static, Wtf8Str>, AnnotationValue>) -> Value {
    let mut v: Vec<(Vec<u32>, Value)> = m
        .iter()
        .map(|(k, x)| {
            let key: Vec<u32> = k.codepoints().map(|c| c.to_u32()).collect();
            let pair = json!([key, elem(x)]);
            (key, pair)
        })
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Value::Array(v.into_iter().map(|x| x.1).collect())
}
pub fn elem(x: &AnnotationValue) -> Value {
    match x {
        AnnotationValue::Byte(n) => json!(["B", n]),
        AnnotationValue::Char(n) => json!(["C", n]),
        AnnotationValue::Double(n) => json!(["D", be8(n.0.to_bits())]),
        AnnotationValue::Float(n) => json!(["F", be4(n.0.to_bits())]),
        AnnotationValue::Int(n) => json!(["I", be4(*n as u32)]),
        AnnotationValue::Long(n) => json!(["J", be8(*n as u64)]),
        AnnotationValue::Short(n) => json!(["S", n]),
        AnnotationValue::Boolean(b) => json!(["Z", *b as u8]),
        AnnotationValue::String(s) => json!(["s", cps(s)]),
        AnnotationValue::Enum(t, n) => json!(["e", ty(t), cps(n)]),
        AnnotationValue::Class(t) => json!(["c", opt(t.as_ref().map(ty))]),
        AnnotationValue::Annotation(a) => json!(["@", annotation(a)]),
        AnnotationValue::Array(v) => json!(["[", list(v, elem)]),
    }
}
pub fn annotation(a: &Annotation) -> Value {
    json!([ty(&a.annotation_type), pairs(&a.element_values)])
}
fn path(p: &[TypePath]) -> Value {
    list(p, |x| match x {
        TypePath::Array(n) => json!(["array", n]),
        TypePath::Nested(n) => json!(["nested", n]),
        TypePath::TypeBound(n) => json!(["bound", n]),
        TypePath::TypeArgument(n) => json!(["arg", n]),
    })
}
fn class_type_anns(v: &[ClassTypeAnnotation]) -> Value {
    list(v, |a| {
        let t = match a.target {
            ClassTypeAnnotationTarget::GenericTypeParameter(i) => json!(["tparam", i]),
            ClassTypeAnnotationTarget::ExtendsImplementsClause(i) => json!(["super", i]),
            ClassTypeAnnotationTarget::GenericTypeParameterBound(i, j) => json!(["tbound", i, j]),
        };
        json!([t, path(&a.type_path), [ty(&a.annotation_type), pairs(&a.element_values)]])
    })
}
fn method_type_anns(v: &[MethodTypeAnnotation]) -> Value {
    list(v, |a| {
        let t = match a.target {
            MethodTypeAnnotationTarget::GenericTypeParameter(i) => json!(["tparam", i]),
            MethodTypeAnnotationTarget::GenericTypeParameterBound(i, j) => json!(["tbound", i, j]),
            MethodTypeAnnotationTarget::Return => json!(["return"]),
            MethodTypeAnnotationTarget::Reciever => json!(["receiver"]),
            MethodTypeAnnotationTarget::FormalParameter(i) => json!(["formal", i]),
            MethodTypeAnnotationTarget::Throws(i) => json!(["throws", i]),
        };
        json!([t, path(&a.type_path), [ty(&a.annotation_type), pairs(&a.element_values)]])
    })
}
fn field_type_anns(v: &[FieldTypeAnnotation]) -> Value {
    list(v, |a| {
        let t = match a.target_type {
            FieldTarget::Field => json!(["field"]),
        };
        json!([t, path(&a.type_path), [ty(&a.annotation_type), pairs(&a.element_values)]])
    })
}

type Places = HashMap<Label, i64>;
fn place(p: &Places, l: &Label) -> Value {
    json!(p.get(l).copied().unwrap_or(-1))
}
fn catch(p: &Places, c: &Catch) -> Value {
    json!([place(p, &c.start), place(p, &c.end), place(p, &c.handler), opt(c.catch.as_ref().map(|s| cps(s)))])
}
fn code_type_anns(p: &Places, v: &[CodeTypeAnnotation]) -> Value {
    use CodeTypeAnnotationTarget as T;
    let vars = |v: &[LocalVarTarget]| list(v, |x| json!([place(p, &x.start), place(p, &x.end), x.idx]));
    list(v, |a| {
        let t = match &a.target {
            T::LocalVariable(v) => json!(["var", vars(v)]),
            T::ResourceVariable(v) => json!(["resource", vars(v)]),
            T::CatchParameter(c) => json!(["catch", catch(p, c)]),
            T::InstanceOf(l) => json!(["instanceof", place(p, l)]),
            T::Constructor(l) => json!(["new", place(p, l)]),
            T::ConstructorRef(l) => json!(["newref", place(p, l)]),
            T::MethodRef(l) => json!(["methodref", place(p, l)]),
            T::Cast(l, n) => json!(["cast", place(p, l), n]),
            T::GenericConstructor(l, n) => json!(["gnew", place(p, l), n]),
            T::GenericMethod(l, n) => json!(["gmethod", place(p, l), n]),
            T::GenericConstructorRef(l, n) => json!(["gnewref", place(p, l), n]),
            T::GenericMethodRef(l, n) => json!(["gmethodref", place(p, l), n]),
        };
        json!([t, path(&a.type_path), [ty(&a.annotation_type), pairs(&a.element_values)]])
    })
}

fn local(t: LocalType) -> &'static str {
    match t {
        LocalType::Int => "I",
        LocalType::Long => "J",
        LocalType::Float => "F",
        LocalType::Double => "D",
        LocalType::Reference => "A",
    }
}
fn array(t: ArrayType) -> &'static str {
    match t {
        ArrayType::ByteOrBool => "B",
        ArrayType::Short => "S",
        ArrayType::Char => "C",
        ArrayType::Int => "I",
        ArrayType::Long => "J",
        ArrayType::Float => "F",
        ArrayType::Double => "D",
        ArrayType::Reference => "A",
    }
}
fn number(t: NumberType) -> &'static str {
    match t {
        NumberType::Int => "I",
        NumberType::Long => "J",
        NumberType::Float => "F",
        NumberType::Double => "D",
    }
}
pub fn cond(c: JumpCondition) -> &'static str {
    use JumpCondition::*;
    match c {
        ReferenceEquals => "acmpeq",
        ReferenceNotEquals => "acmpne",
        IntegerEquals => "icmpeq",
        IntegerNotEquals => "icmpne",
        IntegerLessThan => "icmplt",
        IntegerGreaterThan => "icmpgt",
        IntegerLessThanOrEquals => "icmple",
        IntegerGreaterThanOrEquals => "icmpge",
        IntegerEqualsZero => "eq",
        IntegerNotEqualsZero => "ne",
        IntegerLessThanZero => "lt",
        IntegerGreaterThanZero => "gt",
        IntegerLessThanOrEqualsZero => "le",
        IntegerGreaterThanOrEqualsZero => "ge",
        IsNull => "null",
        IsNonNull => "nonnull",
        Always => "always",
    }
}
fn class_type(t: &ClassType) -> Value {
    match t {
        ClassType::Object(n) => json!(["L", cps(n)]),
        ClassType::Array(d, t) => json!(["[", d, ty(t)]),
    }
}
/// Does the instruction denote an operation (labels, lines and empty conversions do not)?
pub fn emits(i: &Instruction) -> bool {
    match i {
        Instruction::Label(_) | Instruction::LineNumber(_) => false,
        Instruction::Conversion(a, b) => a != b,
        Instruction::ConvertInt(BitType::Int) => false,
        _ => true,
    }
}
fn op(p: &Places, i: &Instruction) -> Value {
    use Instruction::*;
    let ls = |l: LoadOrStore, a: &'static str, b: &'static str| if l == LoadOrStore::Load { a } else { b };
    let st = |m: MemberType| if m == MemberType::Static { "static" } else { "virtual" };
    match i {
        NoOp => json!(["nop"]),
        PushNull => json!(["aconst_null"]),
        Push(c) => json!(["push", or_dyn(c, constant)]),
        Dup => json!(["dup"]),
        DupX1 => json!(["dup_x1"]),
        DupX2 => json!(["dup_x2"]),
        Dup2 => json!(["dup2"]),
        Dup2X1 => json!(["dup2_x1"]),
        Dup2X2 => json!(["dup2_x2"]),
        Pop1 => json!(["pop"]),
        Pop2 => json!(["pop2"]),
        Swap => json!(["swap"]),
        Jump(c, l) => json!(["if", cond(*c), place(p, l)]),
        Jsr(l) => json!(["jsr", place(p, l)]),
        Ret(n) => json!(["ret", n]),
        CompareLongs => json!(["lcmp"]),
        CompareFloats(t, n) => json!([
            "fcmp",
            if *t == FloatType::Float { "F" } else { "D" },
            if *n == NaNBehavior::ReturnsOne { 1 } else { -1 }
        ]),
        LocalVariable(l, t, n) => json!([ls(*l, "load", "store"), local(*t), n]),
        Array(l, t) => json!([ls(*l, "xaload", "xastore"), array(*t)]),
        ArrayLength => json!(["arraylength"]),
        IntOperation(t, o) => json!([
            "arith",
            if *t == IntType::Int { "I" } else { "J" },
            match o {
                coffer::code::IntOperation::Divide => "div",
                coffer::code::IntOperation::Add => "add",
                coffer::code::IntOperation::Subtract => "sub",
                coffer::code::IntOperation::Multiply => "mul",
                coffer::code::IntOperation::Remainder => "rem",
                coffer::code::IntOperation::Negate => "neg",
                coffer::code::IntOperation::ExclusiveOr => "xor",
                coffer::code::IntOperation::Or => "or",
                coffer::code::IntOperation::And => "and",
                coffer::code::IntOperation::ShiftLeft => "shl",
                coffer::code::IntOperation::ShiftRight => "shr",
                coffer::code::IntOperation::UnsignedShiftRight => "ushr",
            }
        ]),
        FloatOperation(t, o) => json!([
            "arith",
            if *t == FloatType::Float { "F" } else { "D" },
            match o {
                coffer::code::FloatOperation::Divide => "div",
                coffer::code::FloatOperation::Add => "add",
                coffer::code::FloatOperation::Subtract => "sub",
                coffer::code::FloatOperation::Multiply => "mul",
                coffer::code::FloatOperation::Remainder => "rem",
                coffer::code::FloatOperation::Negate => "neg",
            }
        ]),
        Throw => json!(["athrow"]),
        CheckCast(t) => json!(["checkcast", or_dyn(t, class_type)]),
        InstanceOf(t) => json!(["instanceof", or_dyn(t, class_type)]),
        NewArray(t, d) => json!(["newarray", or_dyn(t, ty), d]),
        Monitor(m) => json!(["monitor", if *m == MonitorOperation::Enter { "enter" } else { "exit" }]),
        New(n) => json!(["new", or_dyn(n, |s| cps(s))]),
        Conversion(a, b) => json!(["conv", number(*a), number(*b)]),
        ConvertInt(t) => json!([
            "conv",
            "I",
            match t {
                BitType::Byte => "B",
                BitType::Short => "S",
                BitType::Char => "C",
                BitType::Int => "I",
                BitType::Long => "J",
                BitType::Float => "F",
                BitType::Double => "D",
            }
        ]),
        Return(t) => json!(["return", t.map_or("V", local)]),
        Field(g, s, m) => {
            json!(["field", if *g == GetOrPut::Get { "get" } else { "put" }, st(*s), or_dyn(m, member)])
        }
        InvokeExact(s, m) => json!(["invoke", st(*s), or_dyn(m, member)]),
        InvokeSpecial(m) => json!(["invoke", "special", or_dyn(m, member)]),
        InvokeDynamic(d) => json!(["invokedynamic", dynamic(d)]),
        InvokeInterface(m, n) => json!(["invokeinterface", or_dyn(m, member), n]),
        IntIncrement(n, k) => json!(["iinc", n, k]),
        TableSwitch { default, low, offsets } => {
            json!(["tableswitch", place(p, default), low, list(offsets, |l| place(p, l))])
        }
        LookupSwitch { default, table } => {
            let mut t: Vec<(i32, Value)> = table.iter().map(|(k, l)| (*k, place(p, l))).collect();
            t.sort_by_key(|x| x.0);
            json!(["lookupswitch", place(p, default), t.iter().map(|(k, l)| json!([k, l])).collect::<Vec<_>>()])
        }
        LineNumber(_) | Label(_) => unreachable!(),
    }
}

pub fn code(c: &Code) -> Value {
    let mut places = Places::new();
    let mut n = 0i64;
    for i in &c.code {
        if let Instruction::Label(l) = i {
            places.insert(*l, n);
        }
        if emits(i) {
            n += 1;
        }
    }
    let p = &places;
    let (mut ops, mut lines) = (Vec::new(), Vec::new());
    let (mut at, mut nops) = (0i64, 0u64);
    for i in &c.code {
        if let Instruction::LineNumber(l) = i {
            lines.push(json!([at, l]));
        }
        if !emits(i) {
            continue;
        }
        at += 1;
        if *i == Instruction::NoOp {
            nops += 1;
            continue;
        }
        if nops > 0 {
            ops.push(json!(["nops", nops]));
            nops = 0;
        }
        ops.push(op(p, i));
    }
    if nops > 0 {
        ops.push(json!(["nops", nops]));
    }
    let mut vars = Vec::new();
    let mut attrs = Vec::new();
    for a in &c.attrs {
        match a {
            CodeAttribute::VisibleTypeAnnotations(v) => {
                attrs.push(("RuntimeVisibleTypeAnnotations", code_type_anns(p, v)))
            }
            CodeAttribute::InvisibleTypeAnnotations(v) => {
                attrs.push(("RuntimeInvisibleTypeAnnotations", code_type_anns(p, v)))
            }
            CodeAttribute::LocalVariables(v) => {
                for x in v {
                    let pl = |l: &Label| places.get(l).copied().unwrap_or(-1);
                    let key = (pl(&x.start), pl(&x.end), x.index, x.name.codepoints().map(|c| c.to_u32()).collect::<Vec<_>>());
                    vars.push((
                        key,
                        json!([
                            place(p, &x.start),
                            place(p, &x.end),
                            cps(&x.name),
                            opt(x.descriptor.as_ref().map(ty)),
                            x.index,
                            opt(x.signature.as_ref().map(field_sig))
                        ]),
                    ));
                }
            }
            CodeAttribute::Raw(r) => attrs.push(("Raw", raw(r))),
        }
    }
    vars.sort_by(|a, b| a.0.cmp(&b.0));
    json!({
        "stack": c.max_stack, "locals": c.max_locals, "n": n, "ops": ops,
        "catches": list(&c.catches, |x| catch(p, x)),
        "lines": lines, "vars": vars.into_iter().map(|x| x.1).collect::<Vec<_>>(),
        "attrs": sorted(attrs),
    })
}

fn raw(r: &RawAttribute) -> Value {
    json!([cps(&r.name), bytes(&r.inner)])
}
/// The order of attribute kinds in Names.tla.
pub const KINDS: [&str; 28] = [
    "Code", "Deprecated", "Synthetic", "Signature", "ConstantValue", "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations",
    "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations", "Exceptions", "AnnotationDefault",
    "MethodParameters", "SourceFile", "InnerClasses", "EnclosingMethod", "SourceDebugExtension", "BootstrapMethods",
    "Module", "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers", "LineNumberTable", "LocalVariableTable",
    "LocalVariableTypeTable", "StackMapTable",
];
pub fn sorted(mut v: Vec<(&'static str, Value)>) -> Value {
    v.sort_by_key(|(k, _)| KINDS.iter().position(|x| x == k).unwrap_or(KINDS.len()));
    Value::Array(v.into_iter().map(|(k, x)| json!([k, x])).collect())
}

/// A constant-pool writer that only records; for values whose fields are private.
#[derive(Default)]
pub struct RecCp(pub Vec<RawConstantEntry>);
impl ConstantPoolWriter for RecCp {
    fn insert_raw(&mut self, value: RawConstantEntry) -> u16 {
        self.0.push(value);
        self.0.len() as u16
    }
    fn insert_bsm(&mut self, _: BootstrapMethod) -> u16 {
        0
    }
}
fn method_parameter(m: &MethodParameter) -> Value {
    let mut cp = RecCp::default();
    let mut b = vec![];
    ConstantPoolReadWrite::write_to(m, &mut cp, &mut b).expect("write");
    let n = u16::from_be_bytes([b[0], b[1]]);
    let name = match n {
        0 => None,
        n => match &cp.0[n as usize - 1] {
            RawConstantEntry::WTF8(s) => Some(cps(s)),
            _ => None,
        },
    };
    json!([opt(name), u16::from_be_bytes([b[2], b[3]])])
}

fn module(m: &Module) -> Value {
    json!([
        cps(&m.name), m.flags.bits(), opt(m.version.as_ref().map(|s| cps(s))),
        list(&m.requires, |r| json!([cps(&r.module), r.flags.bits(), opt(r.version.as_ref().map(|s| cps(s)))])),
        list(&m.exports, |e| json!([cps(&e.package), e.flags.bits(), names(&e.to)])),
        list(&m.opens, |e| json!([cps(&e.package), e.flags.bits(), names(&e.to)])),
        names(&m.uses),
        list(&m.provides, |p| json!([cps(&p.class), names(&p.with)])),
    ])
}

fn class_attrs(v: &[ClassAttribute]) -> Value {
    use ClassAttribute::*;
    sorted(
        v.iter()
            .map(|a| match a {
                Signature(s) => ("Signature", class_sig(s)),
                Synthetic => ("Synthetic", json!([])),
                Deprecated => ("Deprecated", json!([])),
                SourceFile(s) => ("SourceFile", cps(s)),
                InnerClasses(v) => (
                    "InnerClasses",
                    list(v, |i| {
                        json!([
                            cps(&i.inner_fqname),
                            opt(i.outer_fqname.as_ref().map(|s| cps(s))),
                            opt(i.inner_name.as_ref().map(|s| cps(s))),
                            i.inner_access.bits()
                        ])
                    }),
                ),
                EnclosingMethod(c, m) => {
                    ("EnclosingMethod", json!([cps(c), opt(m.as_ref().map(|(n, t)| json!([cps(n), ty(t)])))]))
                }
                SourceDebugExtension(s) => ("SourceDebugExtension", cps(&s.0)),
                BootstrapMethods(v) => ("BootstrapMethods", list(v, bsm)),
                Module(m) => ("Module", module(m)),
                ModulePackages(v) => ("ModulePackages", names(v)),
                ModuleMainClass(s) => ("ModuleMainClass", cps(s)),
                NestHost(s) => ("NestHost", cps(s)),
                NestMembers(v) => ("NestMembers", names(v)),
                RuntimeVisibleAnnotations(v) => ("RuntimeVisibleAnnotations", list(v, annotation)),
                RuntimeInvisibleAnnotations(v) => ("RuntimeInvisibleAnnotations", list(v, annotation)),
                RuntimeVisibleTypeAnnotations(v) => ("RuntimeVisibleTypeAnnotations", class_type_anns(v)),
                RuntimeInvisibleTypeAnnotations(v) => ("RuntimeInvisibleTypeAnnotations", class_type_anns(v)),
                Raw(r) => ("Raw", raw(r)),
            })
            .collect(),
    )
}
fn field(f: &coffer::member::Field) -> Value {
    use FieldAttribute::*;
    let attrs = f
        .attrs
        .iter()
        .map(|a| match a {
            Deprecated => ("Deprecated", json!([])),
            Synthetic => ("Synthetic", json!([])),
            Signature(s) => ("Signature", field_sig(s)),
            ConstantValue(c) => ("ConstantValue", constant(c)),
            RuntimeVisibleAnnotations(v) => ("RuntimeVisibleAnnotations", list(v, annotation)),
            RuntimeInvisibleAnnotations(v) => ("RuntimeInvisibleAnnotations", list(v, annotation)),
            RuntimeVisibleTypeAnnotations(v) => ("RuntimeVisibleTypeAnnotations", field_type_anns(v)),
            RuntimeInvisibleTypeAnnotations(v) => ("RuntimeInvisibleTypeAnnotations", field_type_anns(v)),
            Raw(r) => ("Raw", raw(r)),
        })
        .collect();
    json!([f.access.bits(), cps(&f.name), ty(&f.descriptor), sorted(attrs)])
}
fn method(m: &Method) -> Value {
    use MethodAttribute::*;
    let params = |v: &Vec<ParameterAnnotations>| list(v, |p| list(p, annotation));
    let attrs = m
        .attributes
        .iter()
        .map(|a| match a {
            Code(c) => ("Code", code(c)),
            Deprecated => ("Deprecated", json!([])),
            Synthetic => ("Synthetic", json!([])),
            Signature(s) => ("Signature", method_sig(s)),
            RuntimeVisibleAnnotations(v) => ("RuntimeVisibleAnnotations", list(v, annotation)),
            RuntimeInvisibleAnnotations(v) => ("RuntimeInvisibleAnnotations", list(v, annotation)),
            RuntimeVisibleTypeAnnotations(v) => ("RuntimeVisibleTypeAnnotations", method_type_anns(v)),
            RuntimeInvisibleTypeAnnotations(v) => ("RuntimeInvisibleTypeAnnotations", method_type_anns(v)),
            RuntimeVisibleParameterAnnotations(v) => ("RuntimeVisibleParameterAnnotations", params(v)),
            RuntimeInvisibleParameterAnnotations(v) => ("RuntimeInvisibleParameterAnnotations", params(v)),
            Exceptions(v) => ("Exceptions", names(v)),
            AnnotationDefault(v) => ("AnnotationDefault", elem(v)),
            MethodParameters(v) => ("MethodParameters", list(v, method_parameter)),
            Raw(r) => ("Raw", raw(r)),
        })
        .collect();
    json!([m.access.bits(), cps(&m.name), ty(&m.descriptor), sorted(attrs)])
}
pub fn class(c: &Class) -> Value {
    json!({
        "minor": c.version.minor, "major": major(c.version.major), "access": c.access.bits(), "name": cps(&c.name),
        "super": opt(c.super_name.as_ref().map(|s| cps(s))), "ifaces": names(&c.interfaces),
        "fields": list(&c.fields, field), "methods": list(&c.methods, method), "attrs": class_attrs(&c.attributes),
    })
}
pub const MAJORS: [MajorVersion; 15] = [
    MajorVersion::J1, MajorVersion::J1_2, MajorVersion::J1_3, MajorVersion::J1_4, MajorVersion::J5, MajorVersion::J6,
    MajorVersion::J7, MajorVersion::J8, MajorVersion::J9, MajorVersion::J10, MajorVersion::J11, MajorVersion::J12,
    MajorVersion::J13, MajorVersion::J14, MajorVersion::J15,
];
fn major(m: MajorVersion) -> usize {
    45 + MAJORS.iter().position(|x| *x == m).expect("known version")
}
