#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   observe_at=list(observe),hook_needed=hook)))
p("C01","Class files survive writing and reading back",
 "For every class the object model can express, the bytes produced by writing it are a class file that, by the JVM specification, denotes exactly that class - version, access flags, names, superclass, interfaces, fields, methods and every class, field and method attribute (module, nest, inner-class, enclosing-method, exception, parameter, constant-value data included) - and reading those bytes back yields the same class. Only attribute order may differ. Conversely a well-formed class file is read as the class it denotes.",
 ["inputs","programs"],"every class value and every well-formed class file (versions 45 to 59), any combination and order of members and attributes",
 "The tests round-trip a handful of jar classes (most absent) and compare reads with reads, so a symmetric mistake in reader and writer, or an attribute the sample never contains, is invisible.",
 ["src/clazz.rs","src/member.rs","src/attr.rs","src/module.rs","src/flags.rs","src/version.rs","src/helper.rs","coffer_macros/src/derive.rs"],
 [("Class::read_from / Class::write_to","src/clazz.rs"),("derived field-by-field codecs and attribute enums","coffer_macros/src/derive.rs"),("counted vectors and indirect strings","src/helper.rs")],
 observe=["coffer::clazz::Class via ReadWrite::write_to / read_from"])
p("C02","Instructions use exactly the JVM encoding",
 "Every instruction of a method body is written as a byte encoding which the JVM specification assigns to that operation with exactly those operands, choosing a wide form whenever a short one cannot hold an operand. Every valid encoding - implicit-operand, short, normal or wide form, any ldc variant, with any operand value - is read as the instruction it denotes, and undefined opcodes are refused.",
 ["inputs","programs"],"every instruction kind, every operand value (local 0..65535, increments, constants, array types and dimensions, members, dynamic call sites), every encoding form",
 "The tests contain a few short method bodies; the reader and writer tables are separate and most of the roughly 200 opcodes and boundary operands never occur in a test.",
 ["src/code/convert.rs","src/insn.rs","src/constants/insn.rs","src/code/structure.rs"],
 [("Conv::write_insn","src/code/convert.rs"),("Conv::convert_direct_instruction","src/code/convert.rs"),("raw instruction codec","src/insn.rs"),("opcode table","src/constants/insn.rs")],
 observe=["Code attribute bytes of a written class","Code::code of a read class"])
p("C03","Branch, switch and handler targets survive any layout",
 "In every method body written, each conditional and unconditional branch, subroutine call, switch arm and default, and each exception range boundary and handler denotes the same instruction as the label it was built from, whatever the distance, instruction sizes, alignment padding or need for a wide or inverted branch, and the declared code length equals the code emitted. Reading recovers the same targets. A reference to a label that was never placed is an error.",
 ["programs","inputs"],"every program: any number and nesting of labels, jumps (forward, backward, self, farther than 32767 bytes), switches at every alignment, exception tables",
 "Needs particular distances (around 32767 and 65535), alignments and interleavings of several variable-size instructions; tests only lay out small bodies with short jumps.",
 ["src/code.rs","src/code/convert.rs","src/insn.rs","src/code/structure.rs"],
 [("two-pass label resolution with size hints","src/code.rs Code::write_to"),("wide-branch conversion (inverted condition plus goto_w)","src/code.rs"),("lazy labels on read","src/code.rs Code::read_from"),("JumpCondition negation","src/code/structure.rs")],
 observe=["Code attribute bytes","Code::code / catches after reading"])
p("C04","A written constant-pool index denotes the inserted value",
 "After any history of insertions, every index returned by the constant-pool writer denotes, in the serialised pool, exactly the value inserted (long and double entries occupying two indices, composite constants referring to the right parts). Inserting an equal value again returns the same index, and values that differ in kind or in any bit - 0.0 and -0.0, different NaNs, int and float, a class and a string of the same text - are never merged.",
 ["histories","inputs"],"every sequence of insertions of every kind of constant",
 "The guarantee is about histories of insertions (interleavings of wide entries, duplicates, composites); the tests never look at the serialised pool.",
 ["src/cp.rs","src/rw.rs","src/total_floats.rs"],
 [("insert_raw with cache and running length","src/cp.rs VecCp"),("insert_* composite helpers","src/rw.rs ConstantPoolWriter"),("bitwise float identity","src/total_floats.rs")],
 state=[("len","next free index, wide entries counted twice","src/cp.rs VecCp"),("cache","value to index map","src/cp.rs VecCp")],
 observe=["VecCp insert_* results and VecCp::write_to bytes"])
p("C05","Constant-pool lookups return the denoted value or nothing",
 "For every constant pool read from bytes, looking up an index as a given kind returns exactly the value the pool denotes, with nested references followed. It reports absence when the index is 0, out of range, the unusable second index of a long or double, of another kind, or when any nested reference is.",
 ["inputs","histories"],"every pool content, every index 0..65535, every lookup kind",
 "Requires all combinations of entry kind, lookup kind and (dangling) nested index; tests only follow well-formed pools.",
 ["src/rw.rs","src/cp.rs"],
 [("MapCp::read_from index assignment","src/cp.rs"),("ConstantPoolReader read_* resolution","src/rw.rs")],
 observe=["MapCp::read_from then read_* of every kind at every index"])
p("C06","Dynamic constants keep their bootstrap method",
 "For every class using dynamically-computed constants or call sites, however they share, nest (a bootstrap argument that is itself dynamic) or mix with an explicit bootstrap table, the written class file has one consistent bootstrap table in which each dynamic entry selects a bootstrap method equal to its own (same handle and arguments). Reading resolves each entry to that method, a reference outside the table is an error, and repeated write-read cycles do not change the class.",
 ["programs","histories"],"every graph of dynamics, bootstrap methods and arguments; every number of write-read cycles",
 "Index assignment depends on the order in which dynamics are met while the table itself is being written; no test builds nested or shared dynamics.",
 ["src/clazz.rs","src/dynamic.rs","src/cp.rs","src/rw.rs"],
 [("bootstrap table draining loop and attribute count","src/clazz.rs Class::write_to"),("insert_bsm","src/cp.rs"),("deferred resolution cells","src/cp.rs MapCp::bootstrap_methods")],
 state=[("bsm","bootstrap methods collected while writing","src/cp.rs VecCp"),("refs","cells waiting for a bootstrap method while reading","src/cp.rs MapCp")],
 observe=["written class bytes","Dynamic::get_bsm after reading"])
p("C07","Modified UTF-8 conversion is lossless and strict",
 "Every string, including NUL, supplementary characters and unpaired surrogates, is converted to the modified UTF-8 form the JVM specification defines (no zero byte, no byte above 0xEF, two-byte NUL, supplementary characters as two three-byte surrogates) and converting it back yields the same string. Decoding accepts every valid sequence with exactly that meaning and reports an error for every malformed or truncated one.",
 ["inputs"],"every code point sequence and every byte sequence",
 "Tests convert a few literals; surrogate halves split by other characters, NUL next to a surrogate pair, or a malformed byte inside a pair need specific combinations.",
 ["src/mod_utf8.rs"],
 [("string_to_modified_utf8","src/mod_utf8.rs"),("modified_utf8_to_string (scan, then rebuild)","src/mod_utf8.rs")],
 observe=["mod_utf8::modified_utf8_to_string","mod_utf8::string_to_modified_utf8"])
p("C08","Only well-formed WTF-8 is accepted as a string",
 "The WTF-8 validator and the checked constructors accept a byte sequence if and only if it is well-formed WTF-8: shortest-form code points up to U+10FFFF, surrogates allowed, but never a lead surrogate directly followed by a trail surrogate. On refusal the reported position is the end of a well-formed prefix and lies within the input.",
 ["inputs"],"every byte sequence",
 "A byte automaton with about a dozen ranges; tests probe individual sequences, not each boundary in each position and context.",
 ["wtf8/src/lib.rs"],
 [("validate_wtf8","wtf8/src/lib.rs"),("from_bytes / from_bytes_mut","wtf8/src/lib.rs")],
 observe=["wtf_8::validate_wtf8","Wtf8Str::from_bytes","Wtf8String::from_bytes"])
p("C09","WTF-8 strings behave as code-point sequences",
 "After any history of safe operations (pushing code points, characters, strings; extending; truncating; slicing; case mapping; building from UTF-16) a WTF-8 string is well formed and equals the concatenation of what was put in, with a lead and a trail surrogate that become adjacent joined into one supplementary code point. Iteration, UTF-16 conversion (lossless both ways), strict and lossy conversion to Unicode text, comparison and hashing all reflect exactly that code-point sequence; cutting inside a code point panics instead of producing ill-formed data.",
 ["histories","inputs"],"every sequence of operations and every argument",
 "The invariant is about histories: surrogates meeting at a boundary after truncation, slicing or appending; tests check single operations.",
 ["wtf8/src/lib.rs","wtf8/src/std_internal.rs"],
 [("surrogate joining in push / push_wtf8","wtf8/src/lib.rs"),("code point boundary checks","wtf8/src/lib.rs"),("raw UTF-8/UTF-16 coding","wtf8/src/std_internal.rs")],
 observe=["public API of Wtf8String / Wtf8Str"])
p("C10","Descriptors are parsed and printed exactly",
 "Every field and method type is printed as the descriptor the JVM specification gives it, preserving class names code point for code point, and every valid descriptor is parsed to the type it denotes, so parsing and printing are inverse. A string that is not exactly one descriptor (unknown letter, unterminated class name, missing parts, trailing characters, more than 255 dimensions) is an error.",
 ["inputs"],"every type (any nesting, arity, name, 1..255 dimensions) and every string",
 "A recursive grammar: tests parse a few descriptors and never a malformed one.",
 ["src/ty.rs"],
 [("parse_type","src/ty.rs"),("write_type and Display","src/ty.rs")],
 observe=["parse_type","write_type / to_string","descriptors in written class files"])
p("C11","Generic signatures are parsed and printed exactly",
 "Every class, method and field signature value is printed in the grammar of the JVM specification and every valid signature string is parsed to the structure it denotes (type parameters with class and interface bounds, nested class types with arguments and wildcards, arrays, type variables, throws clauses), so parsing and printing are inverse. Strings outside the grammar are errors.",
 ["inputs"],"every signature value and every string",
 "A recursive grammar with optional parts whose interplay (several bounds, inner classes with arguments, type-variable throws) the tests do not cover.",
 ["src/signature.rs"],
 [("FromStr parsers","src/signature.rs"),("Display printers","src/signature.rs"),("Signature attributes","src/member.rs, src/attr.rs")],
 observe=["ClassSignature / MethodSignature / FieldSignature parse and to_string"])
p("C12","Malformed class files are refused, never crash",
 "Reading any byte sequence as a class terminates with a class or an error: it never panics, overflows the stack, hangs or allocates without bound. In particular every proper prefix of a class file, and a class file whose counts, indices, tags, lengths or offsets have been corrupted so that it denotes no class, is an error; and a class that was read can be written without panicking.",
 ["inputs","fault_sequences"],"every byte sequence; every truncation point and every corrupted field of well-formed class files",
 "Inputs come from outside; the tests only read well-formed files.",
 ["src/clazz.rs","src/code.rs","src/code/convert.rs","src/insn.rs","src/cp.rs","src/ty.rs","src/signature.rs","src/annotation/mod.rs","src/attr.rs","coffer_macros/src/derive.rs"],
 [("error returns on bad tags, indices, labels","src/rw.rs, src/code.rs"),("bounded attribute readers","coffer_macros/src/derive.rs")],
 observe=["Class::read_from result (panics caught, run in a child process)"])
p("C13","Attributes are framed exactly; unknown ones kept verbatim",
 "Every attribute is written with its name and a length equal to its content, and on reading exactly that many bytes are consumed and interpreted, so an attribute never bleeds into its neighbour; a length that disagrees with the content of a known attribute is an error. Attributes with unknown names, in class, field, method and code position, are preserved byte for byte, in number and in order.",
 ["inputs","programs"],"every mix of known and unknown attributes, contents of every length including zero, every wrong length",
 "Tests contain only attributes javac emits, always with right lengths.",
 ["coffer_macros/src/derive.rs","src/attr.rs","src/member.rs","src/code.rs"],
 [("AttributeEnum derive (take(len), leftover check, raw variant)","coffer_macros/src/derive.rs")],
 observe=["written class bytes","Raw attributes after reading"])
p("C14","Annotations survive exactly, wherever they are attached",
 "Every annotation - declaration, parameter, default value, and type annotation on a class, field, method or code target, with every element kind, nesting, target and type path - is written in the JVM's format with the same meaning and read back equal. Out-of-range element constants, unknown tags and unknown targets are errors.",
 ["inputs","programs"],"every annotation tree, every target kind, every type path, every element value",
 "The target and element unions have about 35 alternatives, each with its own layout; tests cover few.",
 ["src/annotation/mod.rs","src/annotation/type_annotation.rs","src/constants/target_types.rs"],
 [("AnnotationValue codec","src/annotation/mod.rs"),("derived target codecs with tags","src/annotation/type_annotation.rs")],
 observe=["annotation attributes in written bytes and after reading"])
p("C15","What the class-file format cannot hold is refused on writing",
 "When a value does not fit the format - a string over 65535 encoded bytes, more than 65535 members, attributes, interfaces, table entries or constant-pool slots, code over 65535 bytes, a table switch with no arms or an overflowing range, a variable range that ends before it starts - writing returns an error. Writing never panics and never silently truncates a count, length or value.",
 ["inputs"],"every oversized or inconsistent value, at and around each limit",
 "The failures sit exactly at 2^16 (or 2^8, 2^31) limits which no test approaches.",
 ["src/rw.rs","src/cp.rs","src/clazz.rs","src/code.rs","src/helper.rs","src/annotation/mod.rs","src/dynamic.rs"],
 [("checked lengths in counted vectors","src/helper.rs"),("explicit length writes","src/clazz.rs, src/code.rs, src/annotation/mod.rs")],
 observe=["Result of Class::write_to"])
p("C16","Debug information stays attached to its instruction",
 "Line numbers and local-variable entries (name, descriptor, generic signature, slot and the instruction range) of a method body that is written and read back are the same and refer to the same instructions, for any number of entries sharing an instruction or a range and in any table layout. A table entry pointing between instructions is an error.",
 ["programs","inputs"],"every placement of line numbers and variable ranges in every body, every split over tables",
 "Tests never compare line numbers or variable tables after writing.",
 ["src/code.rs","src/code/structure.rs","src/code/convert.rs"],
 [("LineNumber pseudo-instructions","src/code.rs, src/code/convert.rs"),("LocalVariables merging and splitting","src/code.rs")],
 observe=["LineNumberTable, LocalVariableTable, LocalVariableTypeTable in written bytes; pseudo-instructions and attributes after reading"])
p("C17","Stack-map frames use exactly the JVM encoding",
 "Every stack-map frame and verification type is written in the encoding the JVM specification gives it (frame kind and offset-delta ranges, type tags, class and uninitialised operands) and read back equal. Frames that cannot be expressed (chop outside 1..3, append outside 1..3) and reserved frame kinds are errors.",
 ["inputs"],"every frame kind, offset, and list of verification types; every frame tag byte",
 "No test writes a frame.",
 ["src/code.rs"],
 [("RawFrame codec","src/code.rs"),("VerificationType tags","src/code.rs")],
 observe=["RawFrame / VerificationType via ConstantPoolReadWrite"])
p("C18","Method-handle validity follows the documented rules",
 "Checking a method handle succeeds exactly when its kind, member descriptor and member name satisfy the documented rules: field kinds need a field descriptor, invocation kinds a method descriptor; among invocation kinds new-invoke-special, and only it, must name <init>, and none may name <clinit>. Encoding or decoding a stand-alone handle performs that check.",
 ["inputs"],"all kinds x descriptor classes x names",
 "No test calls the check.",
 ["src/loadable.rs"],
 [("MethodHandle::check","src/loadable.rs")],
 observe=["MethodHandle::check, MethodHandle read/write"])
p("C19","Numeric constants are identical bit for bit",
 "Every numeric constant, wherever it occurs (pushed by code, field constant value, annotation element, bootstrap argument), survives writing and reading with exactly the same bits and kind, including negative zero, infinities, every NaN payload and extreme integers. Two floating constants compare and hash equal exactly when their bits are equal, and their ordering is total.",
 ["inputs","programs"],"all 32- and 64-bit patterns, in every position",
 "Special encodings (iconst/fconst/bipush/sipush) and float equality interact at a few bit patterns tests do not contain.",
 ["src/total_floats.rs","src/code/convert.rs","src/cp.rs","src/annotation/mod.rs"],
 [("TotalF32/TotalF64","src/total_floats.rs"),("constant push selection","src/code/convert.rs"),("numeric codecs","src/rw.rs")],
 observe=["constants after write and read","TotalF32/TotalF64 comparison and hashing"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x["title"]) for x in P))
