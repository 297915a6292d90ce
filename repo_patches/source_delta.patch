From eb53c4ac4279e752a98bb8db158df01aec00d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 01/33] fix: write static field stores as putstatic

---
 src/code/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 0ed456d..3f1748d 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -758,7 +758,7 @@ impl Conv {
                     (GetOrPut::Get, MemberType::Virtual) => GETFIELD,
                     (GetOrPut::Put, MemberType::Virtual) => PUTFIELD,
                     (GetOrPut::Get, MemberType::Static) => GETSTATIC,
-                    (GetOrPut::Put, MemberType::Static) => GETSTATIC,
+                    (GetOrPut::Put, MemberType::Static) => PUTSTATIC,
                 }
                 .write_to(&mut cursor)?;
                 cp.insert_ordynamic(mem.clone(), ConstantPoolWriter::insert_member)
-- 
2.43.0


From cf56293e6168d14ee47a26992aa92926805c1958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 02/33] fix: read dynamically-computed constants pushed by ldc

---
 src/code/convert.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 3f1748d..ece46ba 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -73,8 +73,14 @@ impl Conv {
             I::Bipush(b) => push(Constant::I32(b as i32)),
             I::Sipush(s) => push(Constant::I32(s as i32)),
 
-            I::Ldc(b) => push(try_cp_read_idx!(labeler, b as u16, read_constant)?),
-            I::LdcW(i) | I::Ldc2W(i) => push(try_cp_read_idx!(labeler, i, read_constant)?),
+            I::Ldc(b) => Push(try_cp_read!(
+                b,
+                labeler.read_or_dynamic(b as u16, ConstantPoolReader::read_constant)
+            )?),
+            I::LdcW(i) | I::Ldc2W(i) => Push(try_cp_read!(
+                i,
+                labeler.read_or_dynamic(i, ConstantPoolReader::read_constant)
+            )?),
 
             I::IALoad => Array(Load, ArrayType::Int),
             I::LALoad => Array(Load, ArrayType::Long),
-- 
2.43.0


From 1e9b28639db0b915ca1042744336c45b8eab47d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 03/33] fix: write array creation instructions; do not mistake
 class names for descriptors

---
 src/code/convert.rs | 59 ++++++++++++++++++++++++++++++++++++++++++---
 src/dynamic.rs      | 10 ++++++++
 2 files changed, 66 insertions(+), 3 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index ece46ba..dd703b0 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -362,15 +362,34 @@ impl Conv {
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
                 )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                .try_map_static(|c| {
+                    // only the names of array classes are descriptors.
+                    if c.codepoints().next().map_or(false, |x| x == '[') {
+                        parse_type(&c)
+                    } else {
+                        Ok(Type::Ref(c))
+                    }
+                })?,
                 1,
             ),
+            I::MultiANewArray(_, 0) => {
+                return Err(Error::Invalid("MultiANewArray dimensions", "0".into()))
+            }
             I::MultiANewArray(r, dim) => NewArray(
                 try_cp_read!(
                     r,
                     labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
                 )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
+                .try_map_static(|c| match parse_type(&c)? {
+                    // Creating one dimension is the same as creating an array of the component type.
+                    Type::ArrayRef(1, ty) if dim == 1 => Ok(*ty),
+                    Type::ArrayRef(n, ty) if dim == 1 => Ok(Type::ArrayRef(n - 1, ty)),
+                    ty @ Type::ArrayRef(_, _) => Ok(ty),
+                    _ => Err(Error::Invalid(
+                        "MultiANewArray type",
+                        c.to_string_lossy().into_owned().into(),
+                    )),
+                })?,
                 dim,
             ),
             I::CheckCast(r) => CheckCast(
@@ -704,7 +723,41 @@ impl Conv {
                 cp.insert_ordynamic(ty.clone(), |w, x| w.insert_class(x))
                     .write_to(&mut cursor)?;
             }
-            Instruction::NewArray(_, _) => {}
+            Instruction::NewArray(_, 0) => {
+                return Err(Error::Invalid("NewArray dimensions", "0".into()))
+            }
+            Instruction::NewArray(ref ty, 1) => {
+                let prim = match ty {
+                    OrDynamic::Static(Type::Boolean) => Some(4u8),
+                    OrDynamic::Static(Type::Char) => Some(5),
+                    OrDynamic::Static(Type::Float) => Some(6),
+                    OrDynamic::Static(Type::Double) => Some(7),
+                    OrDynamic::Static(Type::Byte) => Some(8),
+                    OrDynamic::Static(Type::Short) => Some(9),
+                    OrDynamic::Static(Type::Int) => Some(10),
+                    OrDynamic::Static(Type::Long) => Some(11),
+                    _ => None,
+                };
+                if let Some(prim) = prim {
+                    NEWARRAY.write_to(&mut cursor)?;
+                    prim.write_to(&mut cursor)?;
+                } else {
+                    ANEWARRAY.write_to(&mut cursor)?;
+                    cp.insert_ordynamic(ty.clone(), |w, x| {
+                        w.insert_class(match x {
+                            Type::Ref(name) => name,
+                            x => Cow::Owned((&x).into()),
+                        })
+                    })
+                    .write_to(&mut cursor)?;
+                }
+            }
+            Instruction::NewArray(ref ty, dim) => {
+                MULTIANEWARRAY.write_to(&mut cursor)?;
+                cp.insert_ordynamic(ty.clone(), |w, x| w.insert_class(Cow::Owned((&x).into())))
+                    .write_to(&mut cursor)?;
+                dim.write_to(&mut cursor)?;
+            }
             Instruction::Monitor(MonitorOperation::Enter) => MONITORENTER.write_to(&mut cursor)?,
             Instruction::Monitor(MonitorOperation::Exit) => MONITOREXIT.write_to(&mut cursor)?,
             Instruction::Conversion(NumberType::Long, NumberType::Int) => {
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 3a64676..92d567d 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -113,6 +113,16 @@ impl<T> OrDynamic<T> {
             Self::Static(t) => OrDynamic::Static(f(t)),
         }
     }
+
+    pub fn try_map_static<F, N>(self, f: F) -> Result<OrDynamic<N>>
+    where
+        F: FnOnce(T) -> Result<N>,
+    {
+        Ok(match self {
+            Self::Dynamic(d) => OrDynamic::Dynamic(d),
+            Self::Static(t) => OrDynamic::Static(f(t)?),
+        })
+    }
 }
 
 impl<T> From<Dynamic> for OrDynamic<T> {
-- 
2.43.0


From 8c42bf1569721e318fce05ef338c469e1198cb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 04/33] fix: size and encode far jumps correctly

---
 src/code.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 716b6c7..e939c91 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -319,7 +319,21 @@ impl ConstantPoolReadWrite for Code {
         let mut last_idx = 0;
         buf_iter = buf.iter();
         let mut sizes_of_jump_insns = Vec::new();
-        for j in &jumps {
+        // Whether the offset of a jump is sure to fit in an i16. The difference of two maximum
+        // indices is an upper bound of the distance in between.
+        macro_rules! max_jump_offset {
+            ($jump: expr, $label: expr) => {{
+                let max_index = |buf_idx: usize| match buf_idx {
+                    0 => 0,
+                    n => index_hints[n - 1],
+                };
+                let (buf_idx, buf_off) = get_label!($label);
+                let from = max_index($jump) + buf[$jump].len();
+                let to = max_index(buf_idx) + buf_off;
+                i16::try_from(to as i64 - from as i64).is_ok()
+            }};
+        }
+        for (i, j) in jumps.iter().enumerate() {
             last_idx += buf_iter.next().unwrap().len();
             let actual_size = 1 + match *j {
                 Instruction::LookupSwitch { default: _, table } => {
@@ -348,26 +362,14 @@ impl ConstantPoolReadWrite for Code {
                     padding + 12 + offsets.len() * 4
                 }
                 Instruction::Jsr(target) | Instruction::Jump(JumpCondition::Always, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
+                    if max_jump_offset!(i, target) {
                         2
                     } else {
                         4
                     }
                 }
                 Instruction::Jump(_, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
+                    if max_jump_offset!(i, target) {
                         2
                     } else {
                         7
@@ -405,7 +407,8 @@ impl ConstantPoolReadWrite for Code {
             macro_rules! wide {
                 ($label: ident, $off: ident => $non_wide: expr, $wide: expr) => {{
                     let $off = resolve_label!($label);
-                    if let Ok($off) = i16::try_from($off) {
+                    if *size_of_jump_insn == 3 {
+                        let $off = $off as i16;
                         $non_wide
                     } else {
                         $wide
@@ -472,9 +475,10 @@ impl ConstantPoolReadWrite for Code {
                     }, {
                         // JumpCondition::Always is matched before this
                         u8::write_to(&(-cond).unwrap().into(), writer)?;
-                        write_to!(&5i32, writer)?;
+                        // Skip this instruction (3 bytes) and the goto_w (5 bytes).
+                        write_to!(&8i16, writer)?;
                         GOTO_W.write_to(writer)?;
-                        write_to!(&off, writer)?;
+                        write_to!(&(off - 3), writer)?;
                     })
                 }
                 // other variants are not inserted
-- 
2.43.0


From 4484eb342db0e86d527c5fd84f19efad18ef719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 05/33] fix: refuse code longer than 65535 bytes

---
 src/code.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/code.rs b/src/code.rs
index e939c91..f8603e8 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -77,7 +77,11 @@ impl ConstantPoolReadWrite for Code {
         let max_stack = u16::read_from(reader)?;
         let max_locals = u16::read_from(reader)?;
         // Read code to a buffer so we are able to seek.
-        let mut code = vec![0; u32::read_from(reader)? as usize];
+        let code_len = u32::read_from(reader)?;
+        if code_len > 65535 {
+            return Err(Error::Invalid("code length", code_len.to_string().into()));
+        }
+        let mut code = vec![0; code_len as usize];
         reader.read_exact(&mut code)?;
         let mut labeler = Labeler {
             inner: cp,
@@ -384,6 +388,9 @@ impl ConstantPoolReadWrite for Code {
         }
         // The index of the second last `buf` element + length of last element.
         let code_len = (buf_iter.next().unwrap().len() + last_idx) as u32;
+        if code_len > 65535 {
+            return Err(Error::Invalid("code length", code_len.to_string().into()));
+        }
         code_len.write_to(writer)?; // u4 code_length
         let mut jumps_iter = jumps.into_iter();
         let mut buf_iter = buf.into_iter();
-- 
2.43.0


From 941c0aac7f8d3d89c259e16e91142ec15e4a42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 06/33] fix: report unplaced labels in exception tables and
 code attributes as errors

---
 src/code.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/code.rs b/src/code.rs
index f8603e8..d269afb 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -499,6 +499,8 @@ impl ConstantPoolReadWrite for Code {
             labels: &'a HashMap<Label, (usize, usize)>,
             writer: &'a mut T,
             catches: &'a Vec<Catch>,
+            /// A label that was referenced but never placed.
+            missing: Option<Label>,
         }
 
         impl<'a, T: ConstantPoolWriter> ConstantPoolWriter for Labeler<'a, T> {
@@ -513,7 +515,13 @@ impl ConstantPoolReadWrite for Code {
             }
 
             fn label(&mut self, lbl: &Label) -> u16 {
-                let (buf_off, inner_off) = *self.labels.get(lbl).unwrap();
+                let (buf_off, inner_off) = match self.labels.get(lbl) {
+                    Some(off) => *off,
+                    None => {
+                        self.missing = Some(*lbl);
+                        return 0;
+                    }
+                };
                 (if buf_off == 0 {
                     0
                 } else {
@@ -535,6 +543,7 @@ impl ConstantPoolReadWrite for Code {
             labels: &labels,
             writer: cp,
             catches: &self.catches,
+            missing: None,
         };
         for Catch {
             start,
@@ -612,6 +621,9 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(&mut labeler, &mut attributes_writer)?;
         }
+        if let Some(lbl) = labeler.missing {
+            return Err(Error::Invalid("referenced label", lbl.0.to_string().into()));
+        }
         (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
-- 
2.43.0


From c4027e269e1a1cd28d20350b5ea57a051130340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 07/33] fix: refuse variable ranges that end before they start

---
 src/annotation/type_annotation.rs |  2 +-
 src/code.rs                       | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/annotation/type_annotation.rs b/src/annotation/type_annotation.rs
index 78246ae..a9f7889 100644
--- a/src/annotation/type_annotation.rs
+++ b/src/annotation/type_annotation.rs
@@ -74,7 +74,7 @@ impl ConstantPoolReadWrite for LocalVarTarget {
         let start = cp.label(&self.start);
         let end = cp.label(&self.end);
         start.write_to(writer)?;
-        (end - start).write_to(writer)?;
+        crate::code::range_len(start, end)?.write_to(writer)?;
         self.idx.write_to(writer)?;
         Ok(())
     }
diff --git a/src/code.rs b/src/code.rs
index d269afb..8d06b49 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -23,6 +23,12 @@ use once_cell::sync::OnceCell;
 pub use structure::*;
 use wtf_8::Wtf8Str;
 
+/// The length of the range between two resolved labels.
+pub(crate) fn range_len(start: u16, end: u16) -> Result<u16> {
+    end.checked_sub(start)
+        .ok_or_else(|| Error::Invalid("range", format!("{start}..{end}").into()))
+}
+
 #[derive(Clone, PartialEq, Eq, Debug, Default)]
 pub struct Code {
     pub max_stack: u16,
@@ -579,7 +585,7 @@ impl ConstantPoolReadWrite for Code {
                     for lc in l {
                         if let Some(ref desc) = lc.descriptor {
                             let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let len = range_len(start, labeler.label(&lc.end))?;
                             var.push(LocalVar {
                                 start,
                                 len,
@@ -590,7 +596,7 @@ impl ConstantPoolReadWrite for Code {
                         }
                         if let Some(ref sig) = lc.signature {
                             let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let len = range_len(start, labeler.label(&lc.end))?;
                             ty.push(LocalVarType {
                                 start,
                                 len,
-- 
2.43.0


From feef96a6b4dd75f1816fa5c75ec1d080118de5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 08/33] fix: write line numbers, keep all lines of an
 instruction, refuse lines between instructions

---
 src/code.rs         | 23 ++++++++++++++++++++---
 src/code/convert.rs |  4 ++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 8d06b49..2ebba1e 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -167,7 +167,10 @@ impl ConstantPoolReadWrite for Code {
             match CodeAttr::read_from(&mut labeler, reader)? {
                 CodeAttr::LineNumberTable(ln) => {
                     for self::LineNumber(off, line) in ln {
-                        to_insert.insert(pos2idx[&(off as u32)], vec![LineNumber(line)]);
+                        let idx = *pos2idx
+                            .get(&(off as u32))
+                            .ok_or_else(|| Error::Invalid("index", format!("{off}").into()))?;
+                        to_insert.entry(idx).or_default().push(LineNumber(line));
                     }
                 }
                 CodeAttr::LocalVariableTable(localvar) => {
@@ -244,7 +247,7 @@ impl ConstantPoolReadWrite for Code {
                 .push(Label(v));
         }
         for (k, v) in to_insert.into_iter().rev() {
-            for i in v {
+            for i in v.into_iter().rev() {
                 instructions.insert(k, i)
             }
         }
@@ -269,7 +272,7 @@ impl ConstantPoolReadWrite for Code {
         let mut buf: Vec<Vec<u8>> = Vec::new();
         let mut jumps: Vec<&Instruction> = Vec::new();
         let mut cursor: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-        let mut line_numbers: HashMap<usize, u16> = HashMap::new();
+        let mut line_numbers: Vec<((usize, usize), u16)> = Vec::new();
         let mut labels: HashMap<Label, (usize, usize)> = HashMap::new();
         macro_rules! get_label {
             ($label: expr) => {
@@ -571,6 +574,20 @@ impl ConstantPoolReadWrite for Code {
         let mut extra_attrs = 0;
         let mut attributes_writer = Vec::new();
 
+        if !line_numbers.is_empty() {
+            extra_attrs += 1;
+            let lines = line_numbers
+                .into_iter()
+                .map(|((buf_off, inner_off), line)| {
+                    let base = match buf_off {
+                        0 => 0,
+                        n => actual_indices[n - 1],
+                    };
+                    LineNumber((base + inner_off) as u16, line)
+                })
+                .collect();
+            CodeAttr::LineNumberTable(lines).write_to(&mut labeler, &mut attributes_writer)?;
+        }
         for a in &self.attrs {
             match a {
                 CodeAttribute::VisibleTypeAnnotations(a) => {
diff --git a/src/code/convert.rs b/src/code/convert.rs
index dd703b0..03fee02 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -442,7 +442,7 @@ impl Conv {
         jumps: &mut Vec<&'a Instruction>,
         buf: &mut Vec<Vec<u8>>,
         labels: &mut HashMap<Lbl, (usize, usize)>,
-        line_numbers: &mut HashMap<usize, u16>,
+        line_numbers: &mut Vec<((usize, usize), u16)>,
         insn: &'a Instruction,
         cp: &mut W,
     ) -> Result<Cursor<Vec<u8>>> {
@@ -854,7 +854,7 @@ impl Conv {
             Instruction::Swap => SWAP.write_to(&mut cursor)?,
             Instruction::IntIncrement(l, inc) => wide_or_normal!(IINC, l => u8, inc => i8),
             Instruction::LineNumber(ln) => {
-                line_numbers.insert(cursor.position() as usize, ln);
+                line_numbers.push(((buf.len(), cursor.position() as usize), ln));
             }
             Instruction::LookupSwitch { .. }
             | Instruction::TableSwitch { .. }
-- 
2.43.0


From c2cebd58d65e6578663755f68aa5669f9b14b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 09/33] fix: do not overflow on variable ranges past the end of
 code

---
 src/code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 2ebba1e..5dd5fdf 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -176,7 +176,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTable(localvar) => {
                     for l in localvar {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
 
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
@@ -199,7 +199,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTypeTable(vartypes) => {
                     for l in vartypes {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
                             Entry::Occupied(mut e) => {
-- 
2.43.0


From e3bf64bb0d71be86a4fbb5f39e4bf145851f12eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 10/33] fix: keep local variables in the order they were read

---
 src/code.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 5dd5fdf..5e361a4 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -1,7 +1,6 @@
 //! Structures that represent instructions that will be
 //! executed when a method is called.
 
-use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::hash::Hash;
@@ -19,6 +18,7 @@ mod convert;
 mod structure;
 
 use convert::*;
+use indexmap::map::{Entry, IndexMap};
 use once_cell::sync::OnceCell;
 pub use structure::*;
 use wtf_8::Wtf8Str;
@@ -156,9 +156,9 @@ impl ConstantPoolReadWrite for Code {
 
         // Local variables have two different types of attributes containing
         // information about them. One has descriptor and other has siganture.
-        // A HashMap is used to locate existing local variable data described
+        // An IndexMap (which keeps the order of the table) is used to locate existing local variable data described
         // by an attribute from before.
-        let mut local_vars: HashMap<LocalVarKey, LocalVar> = HashMap::new();
+        let mut local_vars: IndexMap<LocalVarKey, LocalVar> = IndexMap::new();
 
         #[derive(Hash, Eq, PartialEq)]
         struct LocalVarKey(Lbl, Lbl, u16, Cow<'static, Wtf8Str>);
@@ -231,7 +231,7 @@ impl ConstantPoolReadWrite for Code {
         }
         if !local_vars.is_empty() {
             attrs.push(CodeAttribute::LocalVariables(
-                local_vars.into_values().collect(),
+                local_vars.into_iter().map(|(_, v)| v).collect(),
             ));
         }
         instructions.reserve(to_insert.len());
-- 
2.43.0


From ef07ef8f85870081e2fe16892c641f0bc883be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:15 +0000
Subject: [PATCH 11/33] fix: refuse table switches with an empty or overflowing
 range

---
 src/code.rs |  9 ++++++++-
 src/insn.rs | 13 +++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 5e361a4..887b669 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -461,7 +461,14 @@ impl ConstantPoolReadWrite for Code {
                     writer.write_all(&vec![0; padding])?; // proper 4 byte alignment
                     write_to!(&resolve_label!(default), writer)?;
                     write_to!(low, writer)?;
-                    write_to!(&(low + (offsets.len() - 1) as i32), writer)?;
+                    // There must be at least one arm, and the range must not overflow.
+                    let high = i32::try_from(offsets.len() as i64 - 1 + *low as i64)
+                        .ok()
+                        .filter(|high| high >= low)
+                        .ok_or_else(|| {
+                            Error::Invalid("tableswitch arms", offsets.len().to_string().into())
+                        })?;
+                    write_to!(&high, writer)?;
                     for l in offsets {
                         write_to!(&resolve_label!(l), writer)?;
                     }
diff --git a/src/insn.rs b/src/insn.rs
index e7b35f3..bddd1d4 100644
--- a/src/insn.rs
+++ b/src/insn.rs
@@ -2,7 +2,7 @@
 //!
 //! Used for translating raw code to useful code.
 
-use crate::{helper as h, ReadWrite, Result};
+use crate::{helper as h, Error, ReadWrite, Result};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, ReadWrite)]
 pub(crate) struct SwitchEntry(pub i32, pub i32);
@@ -39,9 +39,14 @@ impl ReadWrite for TableSwitch {
     fn read_from<T: std::io::Read>(reader: &mut T) -> Result<Self> {
         let low = i32::read_from(reader)?;
         let high = i32::read_from(reader)?;
-        let len = (high - low + 1) as usize;
-        let mut offsets = Vec::with_capacity(len);
-        for _ in 0..len {
+        if high < low {
+            return Err(Error::Invalid(
+                "tableswitch range",
+                format!("{low}..={high}").into(),
+            ));
+        }
+        let mut offsets = Vec::new();
+        for _ in low..=high {
             offsets.push(i32::read_from(reader)?);
         }
         Ok(Self { low, high, offsets })
-- 
2.43.0


From 4372d725886800f1928f9668af48c13d15980bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:12 +0000
Subject: [PATCH 12/33] fix: write one bootstrap table that dynamic entries
 refer to correctly

---
 src/clazz.rs | 27 +++++++++++++++++----------
 src/cp.rs    | 11 ++++++++---
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 9cc40a1..9f46e6b 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -100,24 +100,31 @@ impl ReadWrite for Class {
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        (self.attributes.len() as u16).write_to(&mut buf)?;
+        let mut attributes = 0usize;
+        let mut attr_buf = vec![];
         for a in &self.attributes {
             match a {
                 ClassAttribute::BootstrapMethods(_) => {}
-                _ => a.write_to(&mut cp, &mut buf)?,
+                _ => {
+                    a.write_to(&mut cp, &mut attr_buf)?;
+                    attributes += 1;
+                }
             }
         }
+        // All bootstrap methods are in one attribute.
+        attributes += !cp.bsm.is_empty() as usize;
+        (attributes as u16).write_to(&mut buf)?;
+        buf.write_all(&attr_buf)?;
         if !cp.bsm.is_empty() {
-            let mut i: u16 = 0;
+            let mut i = 0;
             let mut buf2 = vec![];
-            while !cp.bsm.is_empty() {
-                let v = cp.bsm;
-                cp.bsm = vec![];
-                i += v.len() as u16;
-                for bsm in v {
-                    bsm.write_to(&mut cp, &mut buf2)?;
-                }
+            // Writing a bootstrap method may add those of its dynamic arguments to the table.
+            while let Some(bsm) = cp.bsm.get(i).cloned() {
+                bsm.write_to(&mut cp, &mut buf2)?;
+                i += 1;
             }
+            let i = u16::try_from(i)
+                .map_err(|_| Error::Invalid("bootstrap methods", i.to_string().into()))?;
             write_to!(
                 &Cow::Borrowed(Wtf8Str::new("BootstrapMethods")),
                 &mut cp,
diff --git a/src/cp.rs b/src/cp.rs
index fe44d63..5502c8f 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -229,8 +229,13 @@ impl ConstantPoolWriter for VecCp {
     }
 
     fn insert_bsm(&mut self, bsm: BootstrapMethod) -> u16 {
-        let ret = self.bsm.len() as u16;
-        self.bsm.push(bsm);
-        ret
+        let ret = match self.bsm.iter().position(|b| *b == bsm) {
+            Some(idx) => idx,
+            None => {
+                self.bsm.push(bsm);
+                self.bsm.len() - 1
+            }
+        };
+        ret as u16
     }
 }
-- 
2.43.0


From 6d0243b3b872a6135e9339943c96d177323d3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:12 +0000
Subject: [PATCH 13/33] fix: refuse dynamic entries without a bootstrap table

---
 src/clazz.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 9f46e6b..0d6fa48 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -47,12 +47,12 @@ impl ReadWrite for Class {
                 let version = JavaVersion::read_from(reader)?;
                 let mut cp = MapCp::read_from(reader)?;
                 let c = ClassWrapper::read_from(&mut cp, reader)?;
-                for attr in &c.attributes {
-                    if let ClassAttribute::BootstrapMethods(b) = attr {
-                        cp.bootstrap_methods(b)?;
-                        break;
-                    }
-                }
+                let bsms = c.attributes.iter().find_map(|attr| match attr {
+                    ClassAttribute::BootstrapMethods(b) => Some(b.as_slice()),
+                    _ => None,
+                });
+                // Without a table, any dynamic entry is an invalid reference.
+                cp.bootstrap_methods(bsms.unwrap_or_default())?;
                 Ok(Class {
                     version,
                     access: c.access,
-- 
2.43.0


From e8c18ccc7042024d8b46063e5c17bcfdd5fb9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:12 +0000
Subject: [PATCH 14/33] fix: refuse circular and too deeply nested bootstrap
 methods

---
 src/cp.rs | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index 5502c8f..10f1f38 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 use once_cell::sync::OnceCell;
 use wtf_8::Wtf8Str;
 
-use crate::prelude::{BootstrapMethod, Read, Result, Write};
+use crate::prelude::{BootstrapMethod, OrDynamic, Read, Result, Write};
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{mod_utf8, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
@@ -146,6 +146,49 @@ impl MapCp {
     }
 }
 
+impl MapCp {
+    /// Checks that no bootstrap method needs itself to be resolved, which would have no finite
+    /// representation, and that none is nested too deeply.
+    fn check_nesting(&self, bsms: &[BootstrapMethod]) -> Result<()> {
+        const MAX_DEPTH: usize = 128;
+        // Maps the cells of dynamic arguments to the index of the bootstrap method they wait for.
+        let cells: HashMap<_, _> = self
+            .refs
+            .iter()
+            .flat_map(|(idx, cells)| cells.iter().map(move |c| (Arc::as_ptr(c), *idx as usize)))
+            .collect();
+        let args: Vec<Vec<usize>> = bsms
+            .iter()
+            .map(|b| {
+                b.arguments
+                    .iter()
+                    .filter_map(|a| match a {
+                        OrDynamic::Dynamic(d) => cells.get(&Arc::as_ptr(&d.bsm)).copied(),
+                        OrDynamic::Static(_) => None,
+                    })
+                    .filter(|idx| *idx < bsms.len())
+                    .collect()
+            })
+            .collect();
+        // Every round settles the methods all of whose arguments are settled.
+        let mut settled = vec![false; bsms.len()];
+        for _ in 0..MAX_DEPTH {
+            let next: Vec<bool> = args.iter().map(|a| a.iter().all(|i| settled[*i])).collect();
+            if next == settled {
+                break;
+            }
+            settled = next;
+        }
+        if let Some(idx) = settled.iter().position(|s| !s) {
+            return Err(Error::Invalid(
+                "bootstrap method (circular or nested too deeply)",
+                idx.to_string().into(),
+            ));
+        }
+        Ok(())
+    }
+}
+
 impl Default for MapCp {
     #[inline]
     fn default() -> Self {
@@ -182,6 +225,7 @@ impl ConstantPoolReader for MapCp {
     }
 
     fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()> {
+        self.check_nesting(bsms)?;
         for (i, b) in bsms.iter().enumerate() {
             if let Entry::Occupied(bsm) = self.refs.entry(i as _) {
                 for reg in bsm.remove() {
-- 
2.43.0


From 56ad693364625cb1fcd4d69947d590432be300ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:12 +0000
Subject: [PATCH 15/33] fix: refuse constant pools with too many entries

---
 src/cp.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index 10f1f38..3475b49 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -114,6 +114,8 @@ pub struct VecCp {
     cache: HashMap<RawConstantEntry, u16>,
     /// Not actual len. (if e.wide 2 else 1 for e in entries) + 1 in pseudocode
     len: u16,
+    /// Whether an entry was inserted that the pool has no index for.
+    overflow: bool,
     pub(crate) bsm: Vec<BootstrapMethod>,
 }
 impl VecCp {
@@ -124,6 +126,7 @@ impl VecCp {
             entries: vec![],
             cache: HashMap::new(),
             len: 1,
+            overflow: false,
             bsm: vec![],
         }
     }
@@ -250,6 +253,12 @@ impl ReadWrite for VecCp {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
+        if self.overflow {
+            return Err(Error::Invalid(
+                "constant pool",
+                "more than 65535 entries".into(),
+            ));
+        }
         self.len.write_to(writer)?;
         for e in &self.entries {
             e.write_to(writer)?;
@@ -264,7 +273,13 @@ impl ConstantPoolWriter for VecCp {
             Entry::Occupied(e) => *e.get(),
             Entry::Vacant(e) => {
                 let idx = self.len;
-                self.len += value.size();
+                match self.len.checked_add(value.size()) {
+                    Some(len) => self.len = len,
+                    None => {
+                        self.overflow = true;
+                        return 0;
+                    }
+                }
                 e.insert(idx);
                 self.entries.push(value);
                 idx
-- 
2.43.0


From f3fbb04a405bf0a2fa7714d7a1b9bb8776b31729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:12 +0000
Subject: [PATCH 16/33] fix: refuse strings longer than 65535 encoded bytes

---
 src/rw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rw.rs b/src/rw.rs
index 0f4f81c..264cd0e 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -473,7 +473,9 @@ impl ReadWrite for Wtf8String {
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
         let string = crate::mod_utf8::string_to_modified_utf8(self);
-        (string.len() as u16).write_to(writer)?;
+        u16::try_from(string.len())
+            .map_err(|_| Error::Invalid("string length", string.len().to_string().into()))?
+            .write_to(writer)?;
         writer.write_all(&string)?;
         Ok(())
     }
-- 
2.43.0


From dd90f14d36135d8997474ed69744469d4a978e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:12 +0000
Subject: [PATCH 17/33] fix: refuse constant pools that end inside a long or
 double

---
 src/cp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cp.rs b/src/cp.rs
index 3475b49..12aff57 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -203,11 +203,14 @@ impl ReadWrite for MapCp {
     fn read_from<T: Read>(reader: &mut T) -> Result<Self> {
         let mut cp = MapCp::new();
         let count = u16::read_from(reader)?;
-        let mut i = 1;
+        let mut i = 1u16;
         while i < count {
             let entry = RawConstantEntry::read_from(reader)?;
             let idx = i;
-            i += entry.size();
+            i = i
+                .checked_add(entry.size())
+                .filter(|i| *i <= count)
+                .ok_or_else(|| Error::Invalid("constant pool count", count.to_string().into()))?;
             cp.entries.insert(idx, entry);
         }
         Ok(cp)
-- 
2.43.0


From 0a5127a8ad66f1f4ebe8e0e67446f283dbc1943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:12 +0000
Subject: [PATCH 18/33] fix: write borrowed UTF8 entries with their tag and
 length

---
 src/cp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index 12aff57..32ce428 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -25,7 +25,11 @@ impl<'a> ReadWrite for StrRef<'a> {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        writer.write_all(&mod_utf8::string_to_modified_utf8(self.0))?;
+        let string = mod_utf8::string_to_modified_utf8(self.0);
+        u16::try_from(string.len())
+            .map_err(|_| Error::Invalid("string length", string.len().to_string().into()))?
+            .write_to(writer)?;
+        writer.write_all(&string)?;
         Ok(())
     }
 }
@@ -33,6 +37,7 @@ impl<'a> ReadWrite for StrRef<'a> {
 #[derive(ReadWrite, Debug, Clone, Copy)]
 #[coffer(tag_type(u8))]
 pub enum ConstEntryRef<'a> {
+    #[coffer(tag = 1)]
     UTF8(StrRef<'a>),
     #[coffer(tag = 3)]
     Int(i32),
-- 
2.43.0


From b4626592f9dc81460c91253cbbbd540d021052f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:12 +0000
Subject: [PATCH 19/33] fix: refuse counts over 65535 instead of truncating
 them

---
 src/annotation/mod.rs | 4 ++--
 src/clazz.rs          | 8 ++++----
 src/code.rs           | 8 ++++----
 src/dynamic.rs        | 2 +-
 src/prelude.rs        | 1 +
 src/rw.rs             | 5 +++++
 6 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 247600a..d75dce8 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -200,7 +200,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             }
             AnnotationValue::Array(v) => {
                 b'['.write_to(writer)?;
-                (v.len() as u16).write_to(writer)?;
+                crate::rw::count16(v.len())?.write_to(writer)?;
                 for e in v {
                     e.write_to(cp, writer)?;
                 }
@@ -239,7 +239,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         cp: &mut C,
         writer: &mut W,
     ) -> Result<(), Error> {
-        let size = self.len() as u16;
+        let size = crate::rw::count16(self.len())?;
         size.write_to(writer)?;
         for (k, e) in self {
             write_to!(k, cp, writer)?;
diff --git a/src/clazz.rs b/src/clazz.rs
index 0d6fa48..64bee48 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -88,15 +88,15 @@ impl ReadWrite for Class {
             .as_ref()
             .map_or(0, |n| cp.insert_class(n.clone()))
             .write_to(&mut buf)?;
-        (self.interfaces.len() as u16).write_to(&mut buf)?;
+        count16(self.interfaces.len())?.write_to(&mut buf)?;
         for i in &self.interfaces {
             cp.insert_class(i.clone()).write_to(&mut buf)?;
         }
-        (self.fields.len() as u16).write_to(&mut buf)?;
+        count16(self.fields.len())?.write_to(&mut buf)?;
         for f in &self.fields {
             f.write_to(&mut cp, &mut buf)?;
         }
-        (self.methods.len() as u16).write_to(&mut buf)?;
+        count16(self.methods.len())?.write_to(&mut buf)?;
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
@@ -113,7 +113,7 @@ impl ReadWrite for Class {
         }
         // All bootstrap methods are in one attribute.
         attributes += !cp.bsm.is_empty() as usize;
-        (attributes as u16).write_to(&mut buf)?;
+        count16(attributes)?.write_to(&mut buf)?;
         buf.write_all(&attr_buf)?;
         if !cp.bsm.is_empty() {
             let mut i = 0;
diff --git a/src/code.rs b/src/code.rs
index 887b669..4abfa92 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -553,7 +553,7 @@ impl ConstantPoolReadWrite for Code {
             }
         }
 
-        (self.catches.len() as u16).write_to(writer)?;
+        count16(self.catches.len())?.write_to(writer)?;
         let mut labeler = Labeler {
             indices: &actual_indices,
             labels: &labels,
@@ -654,7 +654,7 @@ impl ConstantPoolReadWrite for Code {
         if let Some(lbl) = labeler.missing {
             return Err(Error::Invalid("referenced label", lbl.0.to_string().into()));
         }
-        (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
+        count16(self.attrs.len() + extra_attrs)?.write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
     }
@@ -784,11 +784,11 @@ impl ConstantPoolReadWrite for RawFrame {
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
                 off.write_to(writer)?;
-                (locals.len() as u16).write_to(writer)?;
+                count16(locals.len())?.write_to(writer)?;
                 for local in locals {
                     local.write_to(cp, writer)?;
                 }
-                (stack.len() as u16).write_to(writer)?;
+                count16(stack.len())?.write_to(writer)?;
                 for s in stack {
                     s.write_to(cp, writer)?;
                 }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 92d567d..f874d43 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -37,7 +37,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<(), Error> {
         cp.insert_method_handle(self.handle.clone())
             .write_to(writer)?;
-        (self.arguments.len() as u16).write_to(writer)?;
+        count16(self.arguments.len())?.write_to(writer)?;
         for arg in self.arguments.iter().cloned() {
             cp.insert_ordynamic(arg, ConstantPoolWriter::insert_constant)
                 .write_to(writer)?;
diff --git a/src/prelude.rs b/src/prelude.rs
index ed2b493..c868a49 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -14,6 +14,7 @@ pub(crate) use crate::helper as h;
 pub use crate::loadable::*;
 pub use crate::member::*;
 pub use crate::module::*;
+pub(crate) use crate::rw::count16;
 pub use crate::rw::*;
 pub use crate::signature::*;
 pub use crate::ty::*;
diff --git a/src/rw.rs b/src/rw.rs
index 264cd0e..8b62edb 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -19,6 +19,11 @@ where
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()>;
 }
 
+/// Converts a number of items to the two-byte count of the class file format.
+pub(crate) fn count16(n: usize) -> Result<u16> {
+    u16::try_from(n).map_err(|_| Error::Invalid("count", n.to_string().into()))
+}
+
 /// A trait for writing constant pool entries.
 pub trait ConstantPoolWriter {
     /// Inserts a raw constant pool entry to the constant pool.
-- 
2.43.0


From e5cfa8962ef8bc783dce432894aa64ddad8615d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:49 +0000
Subject: [PATCH 20/33] fix: require a continuation byte at the end of a lead
 surrogate

---
 wtf8/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index 60c9ef8..a6c0c37 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1263,8 +1263,10 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                 match n {
                     0x80..=0x9f => {}
                     0xA0..=0xAF => {
+                        if !tail.contains(&next!()) {
+                            err!(3);
+                        }
                         is_high_surrogate = true;
-                        next!();
                         continue;
                     }
                     0xB0..=0xBF => {
-- 
2.43.0


From 4288f44d8196e9f5ab492ca1985c247897eeeed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:49 +0000
Subject: [PATCH 21/33] fix: refuse surrogate pairs with malformed continuation
 bytes in modified UTF-8

---
 src/mod_utf8.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mod_utf8.rs b/src/mod_utf8.rs
index 2367ec1..96f9ecb 100644
--- a/src/mod_utf8.rs
+++ b/src/mod_utf8.rs
@@ -95,10 +95,10 @@ pub fn modified_utf8_to_string(buf: &[u8]) -> Result<Wtf8String, MutfError> {
                 0xED => {
                     if let (
                         Some(n @ 0xA0..=0xAF),
-                        Some(n1),
+                        Some(n1 @ 0x80..=0xBF),
                         Some(0xED),
                         Some(n3 @ 0xB0..=0xBF),
-                        Some(n4),
+                        Some(n4 @ 0x80..=0xBF),
                     ) = (
                         buf.get(index + 1),
                         buf.get(index + 2),
-- 
2.43.0


From 493ce8f6c8f928c5743b08cf5005725571b4ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:26 +0000
Subject: [PATCH 22/33] fix: write descriptors without losing unpaired
 surrogates

---
 src/annotation/mod.rs | 2 +-
 src/attr.rs           | 2 +-
 src/code/structure.rs | 2 +-
 src/rw.rs             | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index d75dce8..649e7ea 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -188,7 +188,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
                 write_to!(
                     &n.as_ref().map_or_else(
                         || Cow::Borrowed(w!("V")),
-                        |t| Cow::Owned(t.to_string().into())
+                        |t| Cow::Owned(t.into())
                     ),
                     cp,
                     writer
diff --git a/src/attr.rs b/src/attr.rs
index 5acc566..e700166 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -55,7 +55,7 @@ impl ConstantPoolReadWrite for Option<(Cow<'static, Wtf8Str>, Type)> {
         writer: &mut W,
     ) -> Result<(), Error> {
         if let Some((n, t)) = self {
-            cp.insert_nameandtype(n.clone(), Cow::Owned(t.to_string().into()))
+            cp.insert_nameandtype(n.clone(), Cow::Owned(t.into()))
                 .write_to(writer)
         } else {
             0u16.write_to(writer)
diff --git a/src/code/structure.rs b/src/code/structure.rs
index e83fc6f..ffe9eea 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -252,7 +252,7 @@ impl From<ClassType> for Cow<'static, Wtf8Str> {
         match t {
             ClassType::Object(s) => s,
             ClassType::Array(dim, ty) => {
-                Cow::Owned(format!("{}{}", "[".repeat(dim as usize), ty).into())
+                Cow::Owned((&Type::ArrayRef(dim, Box::new(ty))).into())
             }
         }
     }
diff --git a/src/rw.rs b/src/rw.rs
index 8b62edb..5c3c781 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -44,7 +44,7 @@ pub trait ConstantPoolWriter {
             Constant::Class(s) => self.insert_indirect_str(7, s),
             Constant::Member(mem) => self.insert_member(mem),
             Constant::MethodType(t) => {
-                let desc = self.insert_wtf8(Cow::Owned(t.to_string().into()));
+                let desc = self.insert_wtf8(Cow::Owned((&t).into()));
                 self.insert_raw(RawConstantEntry::MethodType(desc))
             }
             Constant::MethodHandle(h) => {
@@ -93,7 +93,7 @@ pub trait ConstantPoolWriter {
             RawConstantEntry::Dynamic
         };
         let name_and_type =
-            self.insert_nameandtype(d.name, Cow::Owned(d.descriptor.to_string().into()));
+            self.insert_nameandtype(d.name, Cow::Owned((&d.descriptor).into()));
         self.insert_raw(e(bsm, name_and_type))
     }
     /// insert an indirect string such as String / Module / Package entry, used by the procedural macro.
@@ -148,7 +148,7 @@ pub trait ConstantPoolWriter {
             _ => RawConstantEntry::Field,
         }(
             self.insert_class(mem.owner),
-            self.insert_nameandtype(mem.name, Cow::Owned(mem.descriptor.to_string().into())),
+            self.insert_nameandtype(mem.name, Cow::Owned((&mem.descriptor).into())),
         );
         self.insert_raw(entry)
     }
-- 
2.43.0


From b514716d83f09892a0865bf14433c8e5bc3e9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:27 +0000
Subject: [PATCH 23/33] fix: refuse strings that are not exactly one descriptor

---
 src/ty.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/ty.rs b/src/ty.rs
index 14db75a..5ceccfe 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -115,15 +115,18 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                 let mut dim: u8 = 1;
                 while Some('['.into()) == c.as_str().codepoints().next() {
                     c.next();
-                    dim += 1;
+                    dim = dim.checked_add(1).ok_or(crate::error::Error::Invalid(
+                        "type",
+                        "more than 255 array dimensions".into(),
+                    ))?;
                 }
-                let r = get_type(c)?;
+                let r = get_field_type(c)?;
                 Type::ArrayRef(dim, Box::new(r))
             }
             Some('(') => {
                 let mut types = Vec::new();
                 while c.as_str().codepoints().next().unwrap_or_else(|| ')'.into()) != ')' {
-                    types.push(get_type(c)?)
+                    types.push(get_field_type(c)?)
                 }
                 if c.next().is_none() {
                     return Err(unexpected_end());
@@ -131,9 +134,10 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                     Type::Method {
                         parameters: types,
                         ret: if Some('V'.into()) == c.as_str().codepoints().next() {
+                            c.next();
                             None
                         } else {
-                            Some(Box::new(get_type(c)?))
+                            Some(Box::new(get_field_type(c)?))
                         },
                     }
                 }
@@ -147,7 +151,24 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
             None => return Err(unexpected_end()),
         })
     }
-    get_type(&mut s.codepoints())
+    fn get_field_type(c: &mut wtf_8::Wtf8CodePoints) -> Result<Type, crate::error::Error> {
+        if Some('('.into()) == c.as_str().codepoints().next() {
+            return Err(crate::error::Error::Invalid(
+                "type",
+                "method type inside of another type".into(),
+            ));
+        }
+        get_type(c)
+    }
+    let mut codepoints = s.codepoints();
+    let ty = get_type(&mut codepoints)?;
+    if codepoints.next().is_some() {
+        return Err(crate::error::Error::Invalid(
+            "type",
+            "trailing characters".into(),
+        ));
+    }
+    Ok(ty)
 }
 
 impl ConstantPoolReadWrite for Cow<'static, Wtf8Str> {
-- 
2.43.0


From a11ae853d8d8a176e702884924cecf3c39d43470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:04 +0000
Subject: [PATCH 24/33] fix: print thrown type variables as type variables

---
 src/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 2eb2393..4aa2ea2 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -626,7 +626,7 @@ impl Display for Throws {
         f.write_char('^')?;
         match self {
             Throws::TypeParameter(p) => {
-                write!(f, "L{};", p)
+                write!(f, "T{};", p)
             }
             Throws::Class(c) => c.fmt(f),
         }
-- 
2.43.0


From 05a0b48e7f4ee02388cf6386197989074875e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:05 +0000
Subject: [PATCH 25/33] fix: parse interface bounds that follow a class bound
 or another interface bound

---
 src/signature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 4aa2ea2..7f30503 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -379,8 +379,8 @@ fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
         (chars.as_str(), None)
     };
     let mut interface_bounds = vec![];
-    while let Some(':') = chars.next() {
-        let (new_i, bound) = ref_type_sig(chars.as_str())?;
+    while let Some(rest) = i.strip_prefix(':') {
+        let (new_i, bound) = ref_type_sig(rest)?;
         interface_bounds.push(bound);
         i = new_i;
     }
-- 
2.43.0


From bed3ed751cfeb8934fd96ba8595b23e2b9f618a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:02 +0000
Subject: [PATCH 26/33] fix: refuse strings outside the signature grammar

---
 src/signature.rs | 80 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 18 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 7f30503..1de88d2 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -153,6 +153,32 @@ fn invalid(s: &'static str, x: impl Into<String>) -> crate::Error {
     crate::Error::Invalid(s, x.into().into())
 }
 
+/// Checks that a name in a signature is an identifier of the signature grammar.
+fn identifier(i: &str) -> Result<&str> {
+    if i.is_empty() || i.contains(['.', ';', '[', '/', '<', '>', ':']) {
+        Err(invalid("identifier in signature", i))
+    } else {
+        Ok(i)
+    }
+}
+
+/// The parsers recurse for nested type arguments, so the nesting has to be limited.
+fn check_nesting(i: &str) -> Result<()> {
+    const MAX_NESTING: usize = 256;
+    let mut depth = 0usize;
+    for b in i.bytes() {
+        match b {
+            b'<' => depth += 1,
+            b'>' => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        if depth > MAX_NESTING {
+            return Err(invalid("signature", "too deeply nested"));
+        }
+    }
+    Ok(())
+}
+
 fn type_sig(i: &str) -> IResult<'_, TypeSignature> {
     let o = match i.chars().next() {
         Some('B') => TypeSignature::Byte,
@@ -177,14 +203,16 @@ fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
             let mut c = i.chars();
             while let Some('[') = c.as_str().chars().next() {
                 c.next();
-                dim += 1;
+                dim = dim
+                    .checked_add(1)
+                    .ok_or_else(|| invalid("signature", "more than 255 array dimensions"))?;
             }
             let (i, t) = type_sig(c.as_str())?;
             Ok((i, RefTypeSignature::ArrayRef(dim, Box::new(t))))
         }
         Some('T') => {
             let semi = i.find(';').ok_or_else(unexpected_end)?;
-            let type_var = i[1..semi].to_string();
+            let type_var = identifier(&i[1..semi])?.to_string();
             Ok((
                 &i[semi + 1..],
                 RefTypeSignature::TypeVariable(type_var.into()),
@@ -219,7 +247,7 @@ fn throws(i: &str) -> IResult<'_, Throws> {
         }
         Some('T') => {
             let semi = i.find(';').ok_or_else(unexpected_end)?;
-            let type_var = i[1..semi].to_string();
+            let type_var = identifier(&i[1..semi])?.to_string();
             Ok((&i[semi + 1..], Throws::TypeParameter(type_var.into())))
         }
         Some(c) => Err(invalid("character for thrown type signature", c)),
@@ -267,7 +295,9 @@ fn packages(i: &str) -> IResult<'_, Vec<Cow<'static, str>>> {
             // If there is a slash, it is a package directive. Push to the vec and clear out the last string.
             Some(b'/') => {
                 // the parameter is &str, so it must be valid utf-8.
-                vec.push(Cow::Owned(unsafe { String::from_utf8_unchecked(str) }));
+                let name = unsafe { String::from_utf8_unchecked(str) };
+                identifier(&name)?;
+                vec.push(Cow::Owned(name));
 
                 str = Vec::new();
                 last = n;
@@ -328,10 +358,14 @@ fn type_args(mut i: &str) -> IResult<'_, Vec<TypeArgument>> {
     let mut args = vec![];
     if i.as_bytes().first() == Some(&b'<') {
         i = &i[1..];
-        while !i.is_empty() && i.as_bytes().first() != Some(&b'>') {
+        // there is at least one in the list
+        loop {
             let res = type_arg(i)?;
             i = res.0;
             args.push(res.1);
+            if i.is_empty() || i.as_bytes().first() == Some(&b'>') {
+                break;
+            }
         }
         let (i, _) = char::<'>'>(i)?;
         Ok((i, args))
@@ -354,6 +388,7 @@ fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
     {
         name.push(chars.next().unwrap());
     }
+    identifier(&name)?;
     let (i, type_arguments) = type_args(chars.as_str())?;
     Ok((
         i,
@@ -366,17 +401,18 @@ fn simple_type_sig(i: &str) -> IResult<'_, SimpleClassTypeSignature> {
 
 fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
     // i = "A::Ljava/lang/String;"
-    let mut chars = i.chars();
-    let name = chars
-        .by_ref()
-        .take_while(|&x| x != ':')
-        .collect::<String>()
-        .into();
-    let (mut i, class_bound) = if let Some('T' | '[' | 'L') = chars.as_str().chars().next() {
-        let (newi, ref_ty_sig) = ref_type_sig(chars.as_str())?;
-        (newi, Some(ref_ty_sig))
-    } else {
-        (chars.as_str(), None)
+    let (name, i) = i.split_once(':').ok_or_else(unexpected_end)?;
+    let name = identifier(name)?.to_string().into();
+    let (mut i, class_bound) = match i.chars().next() {
+        // the name of the next type parameter, this one has no bounds
+        Some('T' | 'L') if i.split_once(':').map_or(false, |(n, _)| identifier(n).is_ok()) => {
+            (i, None)
+        }
+        Some('T' | '[' | 'L') => {
+            let (newi, ref_ty_sig) = ref_type_sig(i)?;
+            (newi, Some(ref_ty_sig))
+        }
+        _ => (i, None),
     };
     let mut interface_bounds = vec![];
     while let Some(rest) = i.strip_prefix(':') {
@@ -399,10 +435,14 @@ fn type_parameters(mut i: &str) -> IResult<'_, Vec<TypeParameter>> {
     let mut params = vec![];
     if i.as_bytes().first() == Some(&b'<') {
         i = &i[1..];
-        while !i.is_empty() && i.as_bytes().first() != Some(&b'>') {
+        // there is at least one in the list
+        loop {
             let res = type_parameter(i)?;
             i = res.0;
             params.push(res.1);
+            if i.is_empty() || i.as_bytes().first() == Some(&b'>') {
+                break;
+            }
         }
         let (i, _) = char::<'>'>(i)?;
         Ok((i, params))
@@ -475,7 +515,11 @@ macro_rules! fromstr_impls {
                 type Err = crate::error::Error;
 
                 fn from_str(s: &str) -> Result<Self, Self::Err> {
-                    $fn(s).map(|(_, r)| r)
+                    check_nesting(s)?;
+                    match $fn(s)? {
+                        ("", r) => Ok(r),
+                        (rest, _) => Err(invalid("signature, trailing characters", rest)),
+                    }
                 }
             }
         )*
-- 
2.43.0


From 238a80a3a27b3796f13e03c89c3def1a750b4a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:45 +0000
Subject: [PATCH 27/33] fix: limit the nesting of annotation values

---
 src/annotation/mod.rs | 56 +++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 649e7ea..99f02fa 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -68,8 +68,21 @@ pub enum AnnotationValue {
     Array(Vec<AnnotationValue>),
 }
 
-impl ConstantPoolReadWrite for AnnotationValue {
-    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> {
+/// Values that are nested deeper than this are refused, as the reader recurses into them.
+const MAX_NESTING: usize = 256;
+
+impl AnnotationValue {
+    fn read_nested<C: ConstantPoolReader, R: Read>(
+        cp: &mut C,
+        reader: &mut R,
+        depth: usize,
+    ) -> Result<Self> {
+        if depth > MAX_NESTING {
+            return Err(Error::Invalid(
+                "annotation value",
+                "too deeply nested".into(),
+            ));
+        }
         let tag = u8::read_from(reader)? as char;
         Ok(match tag {
             'B' => AnnotationValue::Byte({
@@ -120,18 +133,27 @@ impl ConstantPoolReadWrite for AnnotationValue {
                     Some(parse_type(&str)?)
                 })
             }
-            '@' => AnnotationValue::Annotation(Annotation::read_from(cp, reader)?),
+            '@' => AnnotationValue::Annotation(Annotation {
+                annotation_type: Type::read_from(cp, reader)?,
+                element_values: read_element_values(cp, reader, depth + 1)?,
+            }),
             '[' => {
                 let num = u16::read_from(reader)?;
-                let mut values = Vec::with_capacity(num as usize);
+                let mut values = Vec::new();
                 for _ in 0..num {
-                    values.push(AnnotationValue::read_from(cp, reader)?)
+                    values.push(AnnotationValue::read_nested(cp, reader, depth + 1)?)
                 }
                 AnnotationValue::Array(values)
             }
             _ => return Err(Error::Invalid("Enum value type", tag.to_string().into())),
         })
     }
+}
+
+impl ConstantPoolReadWrite for AnnotationValue {
+    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> {
+        Self::read_nested(cp, reader, 0)
+    }
 
     fn write_to<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, writer: &mut W) -> Result<()> {
         fn cp_int<C: ConstantPoolWriter, W: Write, I: Into<i32>>(
@@ -219,19 +241,27 @@ pub struct Annotation {
     pub element_values: HashMap<Cow<'static, Wtf8Str>, AnnotationValue>,
 }
 
+fn read_element_values<C: ConstantPoolReader, R: Read>(
+    cp: &mut C,
+    reader: &mut R,
+    depth: usize,
+) -> Result<HashMap<Cow<'static, Wtf8Str>, AnnotationValue>> {
+    let pairs = u16::read_from(reader)?;
+    let mut element_values = HashMap::new();
+    for _ in 0..pairs {
+        let name = read_from!(cp, reader)?;
+        let value = AnnotationValue::read_nested(cp, reader, depth)?;
+        element_values.insert(name, value);
+    }
+    Ok(element_values)
+}
+
 impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
     fn read_from<C: ConstantPoolReader, R: Read>(
         cp: &mut C,
         reader: &mut R,
     ) -> Result<Self, Error> {
-        let pairs = u16::read_from(reader)?;
-        let mut element_values = HashMap::with_capacity(pairs as usize);
-        for _ in 0..pairs {
-            let name = read_from!(cp, reader)?;
-            let value = AnnotationValue::read_from(cp, reader)?;
-            element_values.insert(name, value);
-        }
-        Ok(element_values)
+        read_element_values(cp, reader, 0)
     }
 
     fn write_to<C: ConstantPoolWriter, W: Write>(
-- 
2.43.0


From ba22218d1a6c92bbb1ea1ac6eef27373ead8ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:07 +0000
Subject: [PATCH 28/33] fix: use the tags 3 for double and 4 for long
 verification types

---
 src/code.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/code.rs b/src/code.rs
index 4abfa92..24b328a 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -666,8 +666,11 @@ pub enum VerificationType {
     Top,
     Int,
     Float,
+    #[coffer(tag = 4)]
     Long,
+    #[coffer(tag = 3)]
     Double,
+    #[coffer(tag = 5)]
     Null,
     UninitializedThis,
     Object(#[coffer(as = "h::Class")] Cow<'static, Wtf8Str>),
-- 
2.43.0


From 545cc9ab481ce296ff333418e668ebf2fc622774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:08 +0000
Subject: [PATCH 29/33] fix: refuse append frames without locals

---
 src/code.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 24b328a..2a1166d 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -774,7 +774,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 off.write_to(writer)?;
             }
             RawFrame::Chop(_, c) => return Err(Error::Invalid("Chop value", c.to_string().into())),
-            RawFrame::Append(off, locals) if locals.len() <= 3 => {
+            RawFrame::Append(off, locals) if (1..=3).contains(&locals.len()) => {
                 (locals.len() as u8 + 251).write_to(writer)?;
                 off.write_to(writer)?;
                 for local in locals {
@@ -782,7 +782,10 @@ impl ConstantPoolReadWrite for RawFrame {
                 }
             }
             RawFrame::Append(_, _) => {
-                return Err(Error::Invalid("Append", "locals length > 3".into()))
+                return Err(Error::Invalid(
+                    "Append",
+                    "locals length not within 1..=3".into(),
+                ))
             }
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
-- 
2.43.0


From 8219f8a3d357cea3cb14cd874535152ee70f5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:08 +0000
Subject: [PATCH 30/33] fix: refuse type annotations on a catch that is not in
 the exception table

---
 src/code/structure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/code/structure.rs b/src/code/structure.rs
index ffe9eea..6025534 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -456,8 +456,10 @@ impl ConstantPoolReadWrite for Catch {
     ) -> crate::Result<(), Error> {
         match cp.catch(self) {
             Some(off) => off.write_to(writer),
-            // Ignore here because the block was probably removed.
-            None => Ok(()),
+            None => Err(Error::Invalid(
+                "catch",
+                "not in the exception table".into(),
+            )),
         }
     }
 }
-- 
2.43.0


From c336ac76595d6c0ffedaa6cb554668a824c0f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:26 +0000
Subject: [PATCH 31/33] fix: do not allocate memory for attribute contents that
 are not there

---
 coffer_macros/src/derive.rs |  6 ++----
 src/rw.rs                   | 11 +++++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/coffer_macros/src/derive.rs b/coffer_macros/src/derive.rs
index 9854e6f..9d6e4e6 100644
--- a/coffer_macros/src/derive.rs
+++ b/coffer_macros/src/derive.rs
@@ -231,8 +231,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
             }, quote! {
                 #ident => {
                     let len = u32::read_from(#reader)?;
-                    let mut vec = vec![0; len as usize];
-                    #reader.read_exact(&mut vec)?;
+                    let vec = crate::rw::read_bytes(#reader, len)?;
                     let mut __inner_reader: &[u8] = vec.as_ref();
                     let #inner_reader = &mut __inner_reader;
                     let ret = #construct;
@@ -255,8 +254,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                         #read_match
                         _ => {
                             let byte_size = u32::read_from(#reader)?;
-                            let mut bytes = vec![0; byte_size as usize];
-                            #reader.read_exact(&mut bytes)?;
+                            let bytes = crate::rw::read_bytes(#reader, byte_size)?;
                             let raw_attr = crate::prelude::RawAttribute::__new(attribute_name, bytes);
                             Ok(Self::#raw_variant_name(raw_attr))
                         }
diff --git a/src/rw.rs b/src/rw.rs
index 5c3c781..5743972 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -19,6 +19,17 @@ where
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()>;
 }
 
+/// Reads `len` bytes. Memory is only allocated for bytes that are there.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, len: u32) -> Result<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(len.into()).read_to_end(&mut bytes)?;
+    if bytes.len() == len as usize {
+        Ok(bytes)
+    } else {
+        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into())
+    }
+}
+
 /// Converts a number of items to the two-byte count of the class file format.
 pub(crate) fn count16(n: usize) -> Result<u16> {
     u16::try_from(n).map_err(|_| Error::Invalid("count", n.to_string().into()))
-- 
2.43.0


From 47ffcaef7ed0303bef48aaa398b91ddfb95fb478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:37 +0000
Subject: [PATCH 32/33] fix: refuse local variables with neither a descriptor
 nor a signature

---
 src/code.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/code.rs b/src/code.rs
index 2a1166d..2ceb641 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -607,6 +607,12 @@ impl ConstantPoolReadWrite for Code {
                     let mut ty: Vec<LocalVarType> = vec![];
                     let mut var: Vec<LocalVar> = vec![];
                     for lc in l {
+                        if lc.descriptor.is_none() && lc.signature.is_none() {
+                            return Err(Error::Invalid(
+                                "local variable",
+                                "neither a descriptor nor a signature is present".into(),
+                            ));
+                        }
                         if let Some(ref desc) = lc.descriptor {
                             let start = labeler.label(&lc.start);
                             let len = range_len(start, labeler.label(&lc.end))?;
-- 
2.43.0


From 794dde1bc247daeeb6eb3b7731a207a48757f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:14 +0000
Subject: [PATCH 33/33] fix: keep an empty bootstrap table when writing a class

---
 src/clazz.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 64bee48..1f50077 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -70,8 +70,10 @@ impl ReadWrite for Class {
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
         let mut bsm = vec![];
+        let mut has_table = false;
         for a in &self.attributes {
             if let ClassAttribute::BootstrapMethods(b) = a {
+                has_table = true;
                 bsm.extend_from_slice(b);
             }
         }
@@ -112,10 +114,11 @@ impl ReadWrite for Class {
             }
         }
         // All bootstrap methods are in one attribute.
-        attributes += !cp.bsm.is_empty() as usize;
+        has_table |= !cp.bsm.is_empty();
+        attributes += has_table as usize;
         count16(attributes)?.write_to(&mut buf)?;
         buf.write_all(&attr_buf)?;
-        if !cp.bsm.is_empty() {
+        if has_table {
             let mut i = 0;
             let mut buf2 = vec![];
             // Writing a bootstrap method may add those of its dynamic arguments to the table.
-- 
2.43.0

