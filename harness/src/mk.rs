//! Builds coffer values from the abstract values of the specification (the inverse of abs.rs).
use crate::abs::MAJORS;
use crate::util::*;
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use coffer::total_floats::{TotalF32, TotalF64};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use wtf_8::{Codepoint, Wtf8Str, Wtf8String};

type Text = Cow<'static, Wtf8Str>;

pub fn text(v: &Value) -> Text {
    let mut s = Wtf8String::new();
    for c in get_u32s(v) {
        s.push(Codepoint::from_u32(c).expect("code point"));
    }
    Cow::Owned(s)
}
fn string(v: &Value) -> Cow<'static, str> {
    Cow::Owned(get_u32s(v).into_iter().map(|c| char::from_u32(c).expect("char")).collect())
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("array expected: {v}"))
}
fn map<T>(v: &Value, f: impl FnMut(&Value) -> T) -> Vec<T> {
    arr(v).iter().map(f).collect()
}
fn opt<T>(v: &Value, f: impl FnOnce(&Value) -> T) -> Option<T> {
    arr(v).first().map(f)
}
fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("string expected: {v}"))
}
fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("number expected: {v}"))
}
fn texts(v: &Value) -> Vec<Text> {
    map(v, text)
}
pub fn b4(v: &Value) -> u32 {
    u32::from_be_bytes(get_bytes(v).try_into().expect("4 bytes"))
}
pub fn b8(v: &Value) -> u64 {
    u64::from_be_bytes(get_bytes(v).try_into().expect("8 bytes"))
}

pub fn ty(v: &Value) -> Type {
    match st(&v[0]) {
        "B" => Type::Byte,
        "C" => Type::Char,
        "D" => Type::Double,
        "F" => Type::Float,
        "I" => Type::Int,
        "J" => Type::Long,
        "Z" => Type::Boolean,
        "S" => Type::Short,
        "L" => Type::reference(text(&v[1])),
        "[" => Type::array(int(&v[1]) as u8, ty(&v[2])),
        "(" => Type::method(map(&v[1], ty), opt(&v[2], ty)),
        x => panic!("type {x}"),
    }
}
pub fn type_sig(v: &Value) -> TypeSignature {
    match st(&v[0]) {
        "B" => TypeSignature::Byte,
        "C" => TypeSignature::Char,
        "D" => TypeSignature::Double,
        "F" => TypeSignature::Float,
        "I" => TypeSignature::Int,
        "J" => TypeSignature::Long,
        "Z" => TypeSignature::Boolean,
        "S" => TypeSignature::Short,
        _ => TypeSignature::Ref(ref_sig(v)),
    }
}
pub fn ref_sig(v: &Value) -> RefTypeSignature {
    match st(&v[0]) {
        "T" => RefTypeSignature::TypeVariable(string(&v[1])),
        "[" => RefTypeSignature::ArrayRef(int(&v[1]) as u8, Box::new(type_sig(&v[2]))),
        _ => RefTypeSignature::ClassType(class_type_sig(v)),
    }
}
pub fn simple_sig(v: &Value) -> SimpleClassTypeSignature {
    SimpleClassTypeSignature {
        name: string(&v[0]),
        type_arguments: map(&v[1], |a| match st(&a[0]) {
            "*" => TypeArgument::Any,
            "+" => TypeArgument::Extends(ref_sig(&a[1])),
            "-" => TypeArgument::Super(ref_sig(&a[1])),
            _ => TypeArgument::Exact(ref_sig(&a[1])),
        }),
    }
}
pub fn class_type_sig(v: &Value) -> ClassTypeSignature {
    ClassTypeSignature { package: map(&v[1], string), name: simple_sig(&v[2]), suffix: map(&v[3], simple_sig) }
}
pub fn tparam(p: &Value) -> TypeParameter {
    TypeParameter { name: string(&p[0]), class_bound: opt(&p[1], ref_sig), interface_bounds: map(&p[2], ref_sig) }
}
fn tparams(v: &Value) -> Vec<TypeParameter> {
    map(v, tparam)
}
pub fn throws(t: &Value) -> Throws {
    match st(&t[0]) {
        "T" => Throws::TypeParameter(string(&t[1])),
        _ => Throws::Class(class_type_sig(t)),
    }
}
pub fn class_sig(v: &Value) -> ClassSignature {
    ClassSignature {
        type_parameters: tparams(&v[0]),
        super_class: class_type_sig(&v[1]),
        interfaces: map(&v[2], class_type_sig),
    }
}
pub fn method_sig(v: &Value) -> MethodSignature {
    MethodSignature {
        type_parameters: tparams(&v[0]),
        parameters: map(&v[1], type_sig),
        return_type: opt(&v[2], type_sig),
        throws: map(&v[3], throws),
    }
}
pub fn field_sig(v: &Value) -> FieldSignature {
    let r = ref_sig(v);
    if std::mem::size_of::<FieldSignature>() != std::mem::size_of::<RefTypeSignature>() {
        return r.to_string().parse().expect("signature");
    }
    // A wrapper of a RefTypeSignature with a private field.
    let f = unsafe { std::ptr::read(&r as *const RefTypeSignature as *const FieldSignature) };
    std::mem::forget(r);
    f
}

pub fn member(v: &Value) -> MemberRef {
    MemberRef { owner: text(&v[1]), name: text(&v[2]), descriptor: ty(&v[3]), itfs: int(&v[4]) == 1 }
}
pub const KINDS: [MethodHandleKind; 9] = [
    MethodHandleKind::GetField,
    MethodHandleKind::GetStatic,
    MethodHandleKind::PutField,
    MethodHandleKind::PutStatic,
    MethodHandleKind::InvokeVirtual,
    MethodHandleKind::InvokeStatic,
    MethodHandleKind::InvokeSpecial,
    MethodHandleKind::NewInvokeSpecial,
    MethodHandleKind::InvokeInterface,
];
pub fn handle(v: &Value) -> MethodHandle {
    MethodHandle { kind: KINDS[int(&v[1]) as usize - 1], member: member(&v[2]) }
}
pub fn constant(v: &Value) -> Constant {
    match st(&v[0]) {
        "int" => Constant::I32(b4(&v[1]) as i32),
        "float" => Constant::F32(TotalF32(f32::from_bits(b4(&v[1])))),
        "long" => Constant::I64(b8(&v[1]) as i64),
        "double" => Constant::F64(TotalF64(f64::from_bits(b8(&v[1])))),
        "string" => Constant::String(text(&v[1])),
        "class" => Constant::Class(text(&v[1])),
        "member" => Constant::Member(member(&v[1])),
        "mtype" => Constant::MethodType(ty(&v[1])),
        "handle" => Constant::MethodHandle(handle(v)),
        x => panic!("constant {x}"),
    }
}
pub fn bsm(v: &Value) -> BootstrapMethod {
    BootstrapMethod { handle: handle(&v[0]), arguments: map(&v[1], |a| or_dyn(a, constant)) }
}
pub fn dynamic(v: &Value) -> Dynamic {
    Dynamic::new(bsm(&v[1]), text(&v[2]), ty(&v[3]))
}
fn or_dyn<T>(v: &Value, f: impl Fn(&Value) -> T) -> OrDynamic<T> {
    if v[0] == "dyn" {
        OrDynamic::Dynamic(dynamic(v))
    } else {
        OrDynamic::Static(f(v))
    }
}

fn pairs(v: &Value) -> HashMap<Text, AnnotationValue> {
    arr(v).iter().map(|p| (text(&p[0]), elem(&p[1]))).collect()
}
pub fn elem(v: &Value) -> AnnotationValue {
    use AnnotationValue::*;
    match st(&v[0]) {
        "B" => Byte(int(&v[1]) as _),
        "C" => Char(int(&v[1]) as _),
        "D" => Double(TotalF64(f64::from_bits(b8(&v[1])))),
        "F" => Float(TotalF32(f32::from_bits(b4(&v[1])))),
        "I" => Int(b4(&v[1]) as i32),
        "J" => Long(b8(&v[1]) as i64),
        "S" => Short(int(&v[1]) as _),
        "Z" => Boolean(int(&v[1]) == 1),
        "s" => String(text(&v[1])),
        "e" => Enum(ty(&v[1]), text(&v[2])),
        "c" => Class(opt(&v[1], ty)),
        "@" => Annotation(annotation(&v[1])),
        "[" => Array(map(&v[1], elem)),
        x => panic!("element {x}"),
    }
}
pub fn annotation(v: &Value) -> Annotation {
    Annotation { annotation_type: ty(&v[0]), element_values: pairs(&v[1]) }
}
fn path(v: &Value) -> Vec<TypePath> {
    map(v, |x| {
        let n = int(&x[1]) as u8;
        match st(&x[0]) {
            "array" => TypePath::Array(n),
            "nested" => TypePath::Nested(n),
            "bound" => TypePath::TypeBound(n),
            _ => TypePath::TypeArgument(n),
        }
    })
}
fn class_type_ann(a: &Value) -> ClassTypeAnnotation {
    use ClassTypeAnnotationTarget::*;
    let t = &a[0];
    ClassTypeAnnotation {
        target: match st(&t[0]) {
            "tparam" => GenericTypeParameter(int(&t[1]) as _),
            "super" => ExtendsImplementsClause(int(&t[1]) as _),
            _ => GenericTypeParameterBound(int(&t[1]) as _, int(&t[2]) as _),
        },
        type_path: path(&a[1]),
        annotation_type: ty(&a[2][0]),
        element_values: pairs(&a[2][1]),
    }
}
fn method_type_ann(a: &Value) -> MethodTypeAnnotation {
    use MethodTypeAnnotationTarget::*;
    let t = &a[0];
    MethodTypeAnnotation {
        target: match st(&t[0]) {
            "tparam" => GenericTypeParameter(int(&t[1]) as _),
            "tbound" => GenericTypeParameterBound(int(&t[1]) as _, int(&t[2]) as _),
            "return" => Return,
            "receiver" => Reciever,
            "formal" => FormalParameter(int(&t[1]) as _),
            _ => Throws(int(&t[1]) as _),
        },
        type_path: path(&a[1]),
        annotation_type: ty(&a[2][0]),
        element_values: pairs(&a[2][1]),
    }
}
fn field_type_ann(a: &Value) -> FieldTypeAnnotation {
    FieldTypeAnnotation {
        target_type: FieldTarget::Field,
        type_path: path(&a[1]),
        annotation_type: ty(&a[2][0]),
        element_values: pairs(&a[2][1]),
    }
}

/// Labels by the index of the instruction they precede; some positions get several.
#[derive(Default)]
struct Labels {
    at: BTreeMap<i64, Vec<Label>>,
    next: u32,
    uses: u32,
}
impl Labels {
    fn get(&mut self, v: &Value) -> Label {
        let p = int(v);
        self.uses += 1;
        let fresh = Label(!self.next.wrapping_mul(0x9E37_79B1));
        if p < 0 {
            self.next += 1;
            return fresh; // never placed
        }
        let ls = self.at.entry(p).or_default();
        if ls.is_empty() || self.uses % 4 == 0 {
            self.next += 1;
            ls.push(fresh);
        }
        ls[self.uses as usize % ls.len()]
    }
}
fn local(v: &Value) -> LocalType {
    match st(v) {
        "I" => LocalType::Int,
        "J" => LocalType::Long,
        "F" => LocalType::Float,
        "D" => LocalType::Double,
        _ => LocalType::Reference,
    }
}
fn number(v: &Value) -> NumberType {
    match st(v) {
        "I" => NumberType::Int,
        "J" => NumberType::Long,
        "F" => NumberType::Float,
        _ => NumberType::Double,
    }
}
fn cond(v: &Value) -> JumpCondition {
    use JumpCondition::*;
    match st(v) {
        "acmpeq" => ReferenceEquals,
        "acmpne" => ReferenceNotEquals,
        "icmpeq" => IntegerEquals,
        "icmpne" => IntegerNotEquals,
        "icmplt" => IntegerLessThan,
        "icmpgt" => IntegerGreaterThan,
        "icmple" => IntegerLessThanOrEquals,
        "icmpge" => IntegerGreaterThanOrEquals,
        "eq" => IntegerEqualsZero,
        "ne" => IntegerNotEqualsZero,
        "lt" => IntegerLessThanZero,
        "gt" => IntegerGreaterThanZero,
        "le" => IntegerLessThanOrEqualsZero,
        "ge" => IntegerGreaterThanOrEqualsZero,
        "null" => IsNull,
        "nonnull" => IsNonNull,
        _ => Always,
    }
}
fn class_type(v: &Value) -> ClassType {
    match st(&v[0]) {
        "L" => ClassType::Object(text(&v[1])),
        _ => ClassType::Array(int(&v[1]) as u8, ty(&v[2])),
    }
}
fn op(l: &mut Labels, v: &Value) -> Instruction {
    use Instruction::*;
    let ls = |s: &str| if s.ends_with("load") { LoadOrStore::Load } else { LoadOrStore::Store };
    let mt = |s: &Value| if st(s) == "static" { MemberType::Static } else { MemberType::Virtual };
    let name = st(&v[0]);
    match name {
        "nop" => NoOp,
        "aconst_null" => PushNull,
        "push" => Push(or_dyn(&v[1], constant)),
        "dup" => Dup,
        "dup_x1" => DupX1,
        "dup_x2" => DupX2,
        "dup2" => Dup2,
        "dup2_x1" => Dup2X1,
        "dup2_x2" => Dup2X2,
        "pop" => Pop1,
        "pop2" => Pop2,
        "swap" => Swap,
        // The constructors of the crate where it has them.
        "if" => {
            let (c, l) = (st(&v[1]), l.get(&v[2]));
            match c {
                "eq" => Instruction::ifeq(l),
                "icmpeq" => Instruction::if_icmpeq(l),
                "icmpne" => Instruction::if_icmpne(l),
                "icmple" => Instruction::if_icmple(l),
                "icmpgt" => Instruction::if_icmpgt(l),
                _ => Jump(cond(&v[1]), l),
            }
        }
        "jsr" => Jsr(l.get(&v[1])),
        "ret" => Ret(int(&v[1]) as u16),
        "lcmp" => CompareLongs,
        "fcmp" => CompareFloats(
            if st(&v[1]) == "F" { FloatType::Float } else { FloatType::Double },
            if int(&v[2]) == 1 { NaNBehavior::ReturnsOne } else { NaNBehavior::ReturnsNegativeOne },
        ),
        "load" => Instruction::load(local(&v[1]), int(&v[2]) as u16),
        "store" => Instruction::store(local(&v[1]), int(&v[2]) as u16),
        "xaload" | "xastore" => Array(
            ls(name),
            match st(&v[1]) {
                "B" => ArrayType::ByteOrBool,
                "S" => ArrayType::Short,
                "C" => ArrayType::Char,
                "I" => ArrayType::Int,
                "J" => ArrayType::Long,
                "F" => ArrayType::Float,
                "D" => ArrayType::Double,
                _ => ArrayType::Reference,
            },
        ),
        "arraylength" => ArrayLength,
        "arith" => match st(&v[1]) {
            t @ ("I" | "J") => {
                use coffer::code::IntOperation as O;
                match (t, st(&v[2])) {
                    ("I", "add") => return Instruction::iadd(),
                    ("I", "sub") => return Instruction::isub(),
                    ("I", "rem") => return Instruction::irem(),
                    ("I", "mul") => return Instruction::imul(),
                    ("I", "neg") => return Instruction::ineg(),
                    ("I", "and") => return Instruction::iop(O::And),
                    _ => {}
                }
                IntOperation(
                    if t == "I" { IntType::Int } else { IntType::Long },
                    match st(&v[2]) {
                        "div" => O::Divide,
                        "add" => O::Add,
                        "sub" => O::Subtract,
                        "mul" => O::Multiply,
                        "rem" => O::Remainder,
                        "neg" => O::Negate,
                        "xor" => O::ExclusiveOr,
                        "or" => O::Or,
                        "and" => O::And,
                        "shl" => O::ShiftLeft,
                        "shr" => O::ShiftRight,
                        _ => O::UnsignedShiftRight,
                    },
                )
            }
            t => {
                use coffer::code::FloatOperation as O;
                FloatOperation(
                    if t == "F" { FloatType::Float } else { FloatType::Double },
                    match st(&v[2]) {
                        "div" => O::Divide,
                        "add" => O::Add,
                        "sub" => O::Subtract,
                        "mul" => O::Multiply,
                        "rem" => O::Remainder,
                        _ => O::Negate,
                    },
                )
            }
        },
        "athrow" => Throw,
        "checkcast" => CheckCast(or_dyn(&v[1], class_type)),
        "instanceof" => InstanceOf(or_dyn(&v[1], class_type)),
        "newarray" => NewArray(or_dyn(&v[1], ty), int(&v[2]) as u8),
        "monitor" => Monitor(if st(&v[1]) == "enter" { MonitorOperation::Enter } else { MonitorOperation::Exit }),
        "new" => New(or_dyn(&v[1], text)),
        "conv" => match (st(&v[1]), st(&v[2])) {
            ("I", "B") => ConvertInt(BitType::Byte),
            ("I", "S") => ConvertInt(BitType::Short),
            ("I", "C") => ConvertInt(BitType::Char),
            _ => Conversion(number(&v[1]), number(&v[2])),
        },
        "return" => Return(if st(&v[1]) == "V" { None } else { Some(local(&v[1])) }),
        "field" if st(&v[1]) == "get" && st(&v[2]) == "static" => Instruction::getstatic(or_dyn(&v[3], member)),
        "field" => Field(if st(&v[1]) == "get" { GetOrPut::Get } else { GetOrPut::Put }, mt(&v[2]), or_dyn(&v[3], member)),
        "invoke" if st(&v[1]) == "special" => InvokeSpecial(or_dyn(&v[2], member)),
        "invoke" if st(&v[1]) == "static" => Instruction::invokestatic(or_dyn(&v[2], member)),
        "invoke" => Instruction::invokevirtual(or_dyn(&v[2], member)),
        "invokedynamic" => InvokeDynamic(dynamic(&v[1])),
        "invokeinterface" => InvokeInterface(or_dyn(&v[1], member), int(&v[2]) as u8),
        "iinc" => IntIncrement(int(&v[1]) as u16, int(&v[2]) as i16),
        "tableswitch" => TableSwitch {
            default: l.get(&v[1]),
            low: int(&v[2]) as i32,
            offsets: map(&v[3], |x| l.get(x)),
        },
        "lookupswitch" => LookupSwitch {
            default: l.get(&v[1]),
            table: arr(&v[2]).iter().rev().map(|p| (int(&p[0]) as i32, l.get(&p[1]))).collect(),
        },
        x => panic!("operation {x}"),
    }
}
fn catch(l: &mut Labels, v: &Value) -> Catch {
    Catch { start: l.get(&v[0]), end: l.get(&v[1]), handler: l.get(&v[2]), catch: opt(&v[3], text) }
}
fn code_type_ann(l: &mut Labels, catches: &[(Value, Catch)], a: &Value) -> CodeTypeAnnotation {
    use CodeTypeAnnotationTarget as T;
    let t = &a[0];
    let vars = |l: &mut Labels| {
        arr(&t[1]).iter().map(|x| LocalVarTarget { start: l.get(&x[0]), end: l.get(&x[1]), idx: int(&x[2]) as u16 }).collect::<Vec<_>>()
    };
    let n = || int(&t[2]) as u8;
    CodeTypeAnnotation {
        target: match st(&t[0]) {
            "var" => T::LocalVariable(vars(l)),
            "resource" => T::ResourceVariable(vars(l)),
            "catch" => T::CatchParameter(match catches.iter().find(|c| c.0 == t[1]) {
                Some(c) => c.1.clone(),
                None => catch(l, &t[1]),
            }),
            "instanceof" => T::InstanceOf(l.get(&t[1])),
            "new" => T::Constructor(l.get(&t[1])),
            "newref" => T::ConstructorRef(l.get(&t[1])),
            "methodref" => T::MethodRef(l.get(&t[1])),
            "cast" => T::Cast(l.get(&t[1]), n()),
            "gnew" => T::GenericConstructor(l.get(&t[1]), n()),
            "gmethod" => T::GenericMethod(l.get(&t[1]), n()),
            "gnewref" => T::GenericConstructorRef(l.get(&t[1]), n()),
            _ => T::GenericMethodRef(l.get(&t[1]), n()),
        },
        type_path: path(&a[1]),
        annotation_type: ty(&a[2][0]),
        element_values: pairs(&a[2][1]),
    }
}
fn raw(v: &Value) -> RawAttribute {
    RawAttribute::new(text(&v[0]), get_bytes(&v[1]))
}
pub fn code(v: &Value) -> Code {
    let l = &mut Labels::default();
    let mut ops = vec![];
    for o in arr(&v["ops"]) {
        if o[0] == "nops" {
            ops.extend(std::iter::repeat(Instruction::NoOp).take(int(&o[1]) as usize));
        } else {
            ops.push(op(l, o));
        }
    }
    let catches: Vec<(Value, Catch)> = arr(&v["catches"]).iter().map(|x| (x.clone(), catch(l, x))).collect();
    let vars: Vec<LocalVariable> = map(&v["vars"], |x| LocalVariable {
        start: l.get(&x[0]),
        end: l.get(&x[1]),
        name: text(&x[2]),
        descriptor: opt(&x[3], ty),
        index: int(&x[4]) as u16,
        signature: opt(&x[5], field_sig),
    });
    let mut attrs: Vec<CodeAttribute> = map(&v["attrs"], |a| match st(&a[0]) {
        "RuntimeVisibleTypeAnnotations" => {
            CodeAttribute::VisibleTypeAnnotations(map(&a[1], |x| code_type_ann(l, &catches, x)))
        }
        "RuntimeInvisibleTypeAnnotations" => {
            CodeAttribute::InvisibleTypeAnnotations(map(&a[1], |x| code_type_ann(l, &catches, x)))
        }
        _ => CodeAttribute::Raw(raw(&a[1])),
    });
    if !vars.is_empty() {
        let at = vars.len() % (attrs.len() + 1);
        attrs.insert(at, CodeAttribute::LocalVariables(vars));
    }
    let mut lines: BTreeMap<i64, Vec<u16>> = BTreeMap::new();
    for x in arr(&v["lines"]) {
        lines.entry(int(&x[0])).or_default().push(int(&x[1]) as u16);
    }
    let mut body = vec![];
    let n = ops.len() as i64;
    let mut ops = ops.into_iter();
    for i in 0..=n {
        let labels = l.at.remove(&i).into_iter().flatten().map(Instruction::Label);
        let lines = lines.remove(&i).into_iter().flatten().map(Instruction::LineNumber);
        if i % 2 == 0 {
            body.extend(labels.chain(lines));
        } else {
            body.extend(lines.chain(labels));
        }
        body.extend(ops.next());
    }
    assert!(l.at.is_empty() && lines.is_empty(), "position outside the code");
    Code {
        max_stack: int(&v["stack"]) as u16,
        max_locals: int(&v["locals"]) as u16,
        code: body,
        catches: catches.into_iter().map(|x| x.1).collect(),
        attrs,
    }
}

fn method_parameter(v: &Value) -> MethodParameter {
    let mut cp = MapCp::new();
    let name = match opt(&v[0], text) {
        Some(s) => {
            cp.entries.insert(1, RawConstantEntry::WTF8(s));
            1u16
        }
        None => 0,
    };
    let mut b = name.to_be_bytes().to_vec();
    b.extend((int(&v[1]) as u16).to_be_bytes());
    <MethodParameter as ConstantPoolReadWrite>::read_from(&mut cp, &mut &b[..]).expect("method parameter")
}
fn param_anns(v: &Value) -> ParameterAnnotations {
    let mut p = <ParameterAnnotations as ConstantPoolReadWrite>::read_from(&mut MapCp::new(), &mut &[0u8, 0][..])
        .expect("parameter annotations");
    *p = map(v, annotation);
    p
}
fn module(v: &Value) -> Module {
    Module {
        name: text(&v[0]),
        flags: ModuleFlags::from_bits(int(&v[1]) as u16).expect("flags"),
        version: opt(&v[2], text),
        requires: map(&v[3], |r| Require {
            module: text(&r[0]),
            flags: RequireFlags::from_bits(int(&r[1]) as u16).expect("flags"),
            version: opt(&r[2], text),
        }),
        exports: map(&v[4], |e| Export::new(text(&e[0]), ExOpFlags::from_bits(int(&e[1]) as u16).expect("flags"), texts(&e[2]))),
        opens: map(&v[5], |e| Open {
            package: text(&e[0]),
            flags: ExOpFlags::from_bits(int(&e[1]) as u16).expect("flags"),
            to: texts(&e[2]),
        }),
        uses: texts(&v[6]),
        provides: map(&v[7], |p| Provide { class: text(&p[0]), with: texts(&p[1]) }),
    }
}
fn class_attr(a: &Value) -> ClassAttribute {
    use ClassAttribute::*;
    let v = &a[1];
    match st(&a[0]) {
        "Signature" => Signature(class_sig(v)),
        "Synthetic" => Synthetic,
        "Deprecated" => Deprecated,
        "SourceFile" => SourceFile(text(v)),
        "InnerClasses" => InnerClasses(map(v, |i| InnerClass {
            inner_fqname: text(&i[0]),
            outer_fqname: opt(&i[1], text),
            inner_name: opt(&i[2], text),
            inner_access: InnerClassFlags::from_bits(int(&i[3]) as u16).expect("flags"),
        })),
        "EnclosingMethod" => EnclosingMethod(text(&v[0]), opt(&v[1], |m| (text(&m[0]), ty(&m[1])))),
        "SourceDebugExtension" => SourceDebugExtension(coffer::attr::SourceDebugExtension(text(v))),
        "BootstrapMethods" => BootstrapMethods(map(v, bsm)),
        "Module" => Module(module(v)),
        "ModulePackages" => ModulePackages(texts(v)),
        "ModuleMainClass" => ModuleMainClass(text(v)),
        "NestHost" => NestHost(text(v)),
        "NestMembers" => NestMembers(texts(v)),
        "RuntimeVisibleAnnotations" => RuntimeVisibleAnnotations(map(v, annotation)),
        "RuntimeInvisibleAnnotations" => RuntimeInvisibleAnnotations(map(v, annotation)),
        "RuntimeVisibleTypeAnnotations" => RuntimeVisibleTypeAnnotations(map(v, class_type_ann)),
        "RuntimeInvisibleTypeAnnotations" => RuntimeInvisibleTypeAnnotations(map(v, class_type_ann)),
        _ => Raw(raw(v)),
    }
}
fn field(f: &Value) -> coffer::member::Field {
    use FieldAttribute::*;
    coffer::member::Field {
        access: FieldFlags::from_bits(int(&f[0]) as u16).expect("flags"),
        name: text(&f[1]),
        descriptor: ty(&f[2]),
        attrs: map(&f[3], |a| {
            let v = &a[1];
            match st(&a[0]) {
                "Deprecated" => Deprecated,
                "Synthetic" => Synthetic,
                "Signature" => Signature(field_sig(v)),
                "ConstantValue" => ConstantValue(constant(v)),
                "RuntimeVisibleAnnotations" => RuntimeVisibleAnnotations(map(v, annotation)),
                "RuntimeInvisibleAnnotations" => RuntimeInvisibleAnnotations(map(v, annotation)),
                "RuntimeVisibleTypeAnnotations" => RuntimeVisibleTypeAnnotations(map(v, field_type_ann)),
                "RuntimeInvisibleTypeAnnotations" => RuntimeInvisibleTypeAnnotations(map(v, field_type_ann)),
                _ => Raw(raw(v)),
            }
        }),
    }
}
fn method(m: &Value) -> Method {
    use MethodAttribute::*;
    Method {
        access: MethodFlags::from_bits(int(&m[0]) as u16).expect("flags"),
        name: text(&m[1]),
        descriptor: ty(&m[2]),
        attributes: map(&m[3], |a| {
            let v = &a[1];
            match st(&a[0]) {
                "Code" => Code(code(v)),
                "Deprecated" => Deprecated,
                "Synthetic" => Synthetic,
                "Signature" => Signature(method_sig(v)),
                "RuntimeVisibleAnnotations" => RuntimeVisibleAnnotations(map(v, annotation)),
                "RuntimeInvisibleAnnotations" => RuntimeInvisibleAnnotations(map(v, annotation)),
                "RuntimeVisibleTypeAnnotations" => RuntimeVisibleTypeAnnotations(map(v, method_type_ann)),
                "RuntimeInvisibleTypeAnnotations" => RuntimeInvisibleTypeAnnotations(map(v, method_type_ann)),
                "RuntimeVisibleParameterAnnotations" => RuntimeVisibleParameterAnnotations(map(v, param_anns)),
                "RuntimeInvisibleParameterAnnotations" => RuntimeInvisibleParameterAnnotations(map(v, param_anns)),
                "Exceptions" => Exceptions(texts(v)),
                "AnnotationDefault" => AnnotationDefault(elem(v)),
                "MethodParameters" => MethodParameters(map(v, method_parameter)),
                _ => Raw(raw(v)),
            }
        }),
    }
}
pub fn class(v: &Value) -> Class {
    Class {
        version: JavaVersion { minor: int(&v["minor"]) as u16, major: MAJORS[int(&v["major"]) as usize - 45] },
        access: ClassFlags::from_bits(int(&v["access"]) as u16).expect("flags"),
        name: text(&v["name"]),
        super_name: opt(&v["super"], text),
        interfaces: texts(&v["ifaces"]),
        fields: map(&v["fields"], field),
        methods: map(&v["methods"], method),
        attributes: map(&v["attrs"], class_attr),
    }
}
