From 1293af2a6259e20d3aaedd760e9b2de2ecad314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:11 +0000
Subject: [PATCH 01/32] fix: handle jump offsets at the ends of the 16-bit
 range without overflow

---
 core/src/bytecode.rs | 46 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index b84fa18..169da4e 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -380,28 +380,28 @@ impl Decode for Instr<Offset> {
             25 => Ok(Instr::Param(input.decode()?)),
             26 => Ok(Instr::ObjectField(input.decode()?)),
             27 => Ok(Instr::ExternalVar),
-            28 => Ok(Instr::Switch(input.decode()?, Offset::new(input.decode::<i16>()? + 11))),
+            28 => Ok(Instr::Switch(input.decode()?, Offset::new(input.decode::<i16>()?.wrapping_add(11)))),
             29 => Ok(Instr::SwitchLabel(
-                Offset::new(input.decode::<i16>()? + 3),
-                Offset::new(input.decode::<i16>()? + 5),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
+                Offset::new(input.decode::<i16>()?.wrapping_add(5)),
             )),
             30 => Ok(Instr::SwitchDefault),
-            31 => Ok(Instr::Jump(Offset::new(input.decode::<i16>()? + 3))),
-            32 => Ok(Instr::JumpIfFalse(Offset::new(input.decode::<i16>()? + 3))),
-            33 => Ok(Instr::Skip(Offset::new(input.decode::<i16>()? + 3))),
+            31 => Ok(Instr::Jump(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
+            32 => Ok(Instr::JumpIfFalse(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
+            33 => Ok(Instr::Skip(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
             34 => Ok(Instr::Conditional(
-                Offset::new(input.decode::<i16>()? + 3),
-                Offset::new(input.decode::<i16>()? + 5),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
+                Offset::new(input.decode::<i16>()?.wrapping_add(5)),
             )),
             35 => Ok(Instr::Construct(input.decode()?, input.decode()?)),
             36 => Ok(Instr::InvokeStatic(
-                Offset::new(input.decode::<i16>()? + 3),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
                 input.decode()?,
                 input.decode()?,
                 input.decode()?,
             )),
             37 => Ok(Instr::InvokeVirtual(
-                Offset::new(input.decode::<i16>()? + 3),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
                 input.decode()?,
                 input.decode()?,
                 input.decode()?,
@@ -409,7 +409,7 @@ impl Decode for Instr<Offset> {
             38 => Ok(Instr::ParamEnd),
             39 => Ok(Instr::Return),
             40 => Ok(Instr::StructField(input.decode()?)),
-            41 => Ok(Instr::Context(Offset::new(input.decode::<i16>()? + 3))),
+            41 => Ok(Instr::Context(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
             42 => Ok(Instr::Equals(input.decode()?)),
 
             43 => Ok(Instr::RefStringEqualsString(input.decode()?)),
@@ -596,32 +596,32 @@ impl Encode for Instr<Offset> {
             Instr::Switch(idx, offset) => {
                 output.encode(&28u8)?;
                 output.encode(idx)?;
-                output.encode(&Offset::new(offset.value - 11))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(11)))?;
             }
             Instr::SwitchLabel(start, exit) => {
                 output.encode(&29u8)?;
-                output.encode(&Offset::new(start.value - 3))?;
-                output.encode(&Offset::new(exit.value - 5))?;
+                output.encode(&Offset::new(start.value.wrapping_sub(3)))?;
+                output.encode(&Offset::new(exit.value.wrapping_sub(5)))?;
             }
             Instr::SwitchDefault => {
                 output.encode(&30u8)?;
             }
             Instr::Jump(offset) => {
                 output.encode(&31u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::JumpIfFalse(offset) => {
                 output.encode(&32u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Skip(offset) => {
                 output.encode(&33u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Conditional(if_true, if_false) => {
                 output.encode(&34u8)?;
-                output.encode(&Offset::new(if_true.value - 3))?;
-                output.encode(&Offset::new(if_false.value - 5))?;
+                output.encode(&Offset::new(if_true.value.wrapping_sub(3)))?;
+                output.encode(&Offset::new(if_false.value.wrapping_sub(5)))?;
             }
             Instr::Construct(n_params, idx) => {
                 output.encode(&35u8)?;
@@ -630,14 +630,14 @@ impl Encode for Instr<Offset> {
             }
             Instr::InvokeStatic(offset, line, idx, u) => {
                 output.encode(&36u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
                 output.encode(line)?;
                 output.encode(idx)?;
                 output.encode(u)?;
             }
             Instr::InvokeVirtual(offset, line, idx, u) => {
                 output.encode(&37u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
                 output.encode(line)?;
                 output.encode(idx)?;
                 output.encode(u)?;
@@ -654,7 +654,7 @@ impl Encode for Instr<Offset> {
             }
             Instr::Context(offset) => {
                 output.encode(&41u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Equals(idx) => {
                 output.encode(&42u8)?;
@@ -975,7 +975,7 @@ impl Location {
 
     #[inline]
     pub fn relative(&self, base: Location) -> Offset {
-        Offset::new(self.value as i16 - base.value as i16)
+        Offset::new((self.value as i16).wrapping_sub(base.value as i16))
     }
 }
 
-- 
2.43.0


From e113ddab9e8d10cde74f1747209295385585f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 02/32] fix: report invalid tags in a bundle as errors instead
 of panicking

---
 core/src/bundle.rs     |  3 ++-
 core/src/definition.rs | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index e8e1130..1b8dc33 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -575,7 +575,8 @@ pub enum DefinitionType {
 
 impl Decode for DefinitionType {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(DefinitionType::from_bytes(input.decode()?).expect("Invalid DefinitionType enum value"))
+        DefinitionType::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid DefinitionType enum value"))
     }
 }
 
diff --git a/core/src/definition.rs b/core/src/definition.rs
index 9e9be69..f996c17 100644
--- a/core/src/definition.rs
+++ b/core/src/definition.rs
@@ -38,7 +38,9 @@ impl Definition {
             DefinitionType::Class => AnyDefinition::Class(input.decode()?),
             DefinitionType::EnumValue => AnyDefinition::EnumValue(input.decode()?),
             DefinitionType::Enum => AnyDefinition::Enum(input.decode()?),
-            DefinitionType::BitField => panic!("Bit field not supported"),
+            DefinitionType::BitField => {
+                return Err(io::Error::new(io::ErrorKind::InvalidData, "Bit field not supported"));
+            }
             DefinitionType::Function => AnyDefinition::Function(input.decode()?),
             DefinitionType::Parameter => AnyDefinition::Parameter(input.decode()?),
             DefinitionType::Local => AnyDefinition::Local(input.decode()?),
@@ -485,7 +487,10 @@ impl Decode for Type {
             4 => Ok(Type::Array(input.decode()?)),
             5 => Ok(Type::StaticArray(input.decode()?, input.decode()?)),
             6 => Ok(Type::ScriptRef(input.decode()?)),
-            _ => panic!("Unknown Type enum value {}", tag),
+            _ => Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("Unknown Type enum value {tag}"),
+            )),
         }
     }
 }
@@ -761,7 +766,8 @@ impl Display for Visibility {
 
 impl Decode for Visibility {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(Visibility::from_bytes(input.decode()?).expect("Invalid Visibility enum value"))
+        Visibility::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid Visibility enum value"))
     }
 }
 
-- 
2.43.0


From 8000fa73b0c6fcecc314850d5e35e42694f75d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:46 +0000
Subject: [PATCH 03/32] fix: do not allocate memory for counts that the input
 does not hold

---
 core/src/decode.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/src/decode.rs b/core/src/decode.rs
index 8573c78..2770ed0 100644
--- a/core/src/decode.rs
+++ b/core/src/decode.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::io::{self, Read};
 
 use byteorder::{LittleEndian, ReadBytesExt};
 
@@ -106,6 +106,8 @@ impl<const N: usize> Decode for [u8; N] {
     }
 }
 
+const MAX_PREALLOCATION: usize = 4096;
+
 pub trait DecodeExt: io::Read + Sized {
     #[inline]
     fn decode<A: Decode>(&mut self) -> io::Result<A> {
@@ -114,7 +116,8 @@ pub trait DecodeExt: io::Read + Sized {
 
     fn decode_vec<S: Into<u32>, A: Decode>(&mut self, count: S) -> io::Result<Vec<A>> {
         let size = count.into() as usize;
-        let mut vec = Vec::with_capacity(size);
+        // the count comes from the input, so it cannot be trusted with a large allocation
+        let mut vec = Vec::with_capacity(size.min(MAX_PREALLOCATION));
         for _ in 0..size {
             vec.push(self.decode()?);
         }
@@ -128,8 +131,10 @@ pub trait DecodeExt: io::Read + Sized {
 
     fn decode_bytes<S: Into<u32>>(&mut self, count: S) -> io::Result<Vec<u8>> {
         let size = count.into() as usize;
-        let mut vec = vec![0; size];
-        self.read_exact(&mut vec)?;
+        let mut vec = Vec::with_capacity(size.min(MAX_PREALLOCATION));
+        if self.by_ref().take(size as u64).read_to_end(&mut vec)? < size {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(vec)
     }
 
-- 
2.43.0


From 2567cfe0b9b2d569752779fc00eacb2f2008b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:49 +0000
Subject: [PATCH 04/32] fix: leave the unreached rest of a block out of the
 code after it

---
 decompiler/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 1da9c57..1174ad1 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -54,11 +54,17 @@ impl<'a> Decompiler<'a> {
     fn consume_path(&mut self, target: Location, block: Option<BlockContext>) -> Result<Seq<SourceAst>, Error> {
         let mut body = Vec::new();
         loop {
-            if self.code.pos() >= target
-                || matches!(body.last(), Some(Expr::Goto(_, _)))
-                || matches!(body.last(), Some(Expr::Break(_)))
-                || matches!(body.last(), Some(Expr::Return(_, _)))
-            {
+            if self.code.pos() >= target {
+                break;
+            }
+            if matches!(
+                body.last(),
+                Some(Expr::Goto(_, _) | Expr::Break(_) | Expr::Return(_, _))
+            ) {
+                // the rest of the path is never reached
+                if target < Location::MAX {
+                    self.code.seek_abs(target)?;
+                }
                 break;
             }
             match self.consume_with(None, block) {
-- 
2.43.0


From f5e614fe397bfc2e9f348608aee16027609b21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 05/32] fix: keep an empty default case from taking a statement
 of the outer block

---
 decompiler/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 1174ad1..b6ed18f 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -14,11 +14,17 @@ pub struct Decompiler<'a> {
     code: CodeCursor<'a, Offset>,
     definition: &'a Definition,
     pool: &'a ConstantPool,
+    path_end: Location,
 }
 
 impl<'a> Decompiler<'a> {
     pub fn new(code: CodeCursor<'a, Offset>, definition: &'a Definition, pool: &'a ConstantPool) -> Self {
-        Self { code, definition, pool }
+        Self {
+            code,
+            definition,
+            pool,
+            path_end: Location::MAX,
+        }
     }
 
     pub fn decompiled(function: &Function, def: &Definition, pool: &ConstantPool) -> Result<Seq<SourceAst>, Error> {
@@ -53,6 +59,7 @@ impl<'a> Decompiler<'a> {
 
     fn consume_path(&mut self, target: Location, block: Option<BlockContext>) -> Result<Seq<SourceAst>, Error> {
         let mut body = Vec::new();
+        let outer_end = std::mem::replace(&mut self.path_end, target);
         loop {
             if self.code.pos() >= target {
                 break;
@@ -73,6 +80,7 @@ impl<'a> Decompiler<'a> {
                 Err(err) => return Err(err),
             }
         }
+        self.path_end = outer_end;
         Ok(Seq::new(body))
     }
 
@@ -194,6 +202,9 @@ impl<'a> Decompiler<'a> {
                 Instr::SwitchDefault => {
                     if let Some(BlockContext::Switch { epilogue }) = block {
                         default = Some(self.consume_path(epilogue, block)?);
+                    } else if self.code.pos() >= self.path_end {
+                        // nothing left in the enclosing block, the default case is empty
+                        default = Some(Seq::new(vec![]));
                     } else {
                         default = Some(Seq::new(vec![self.consume_with(None, block)?]));
                     }
-- 
2.43.0


From 1f5d5053a3a7091535dd77e32533ddee7be503c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:33 +0000
Subject: [PATCH 06/32] fix: recognise breaks in the last case of a switch
 without a default

---
 decompiler/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index b6ed18f..db7c007 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -165,8 +165,11 @@ impl<'a> Decompiler<'a> {
             labels.push((position, start_offset.absolute(position)));
             self.code.seek_rel(exit_offset)?;
         }
+        // without a default case the switch ends where the last label exits
+        let mut end = Some(self.code.pos());
         if self.code.peek() == Some(Instr::SwitchDefault) {
             labels.push((self.code.pos(), self.code.pos()));
+            end = None;
         };
         labels.sort_by_key(|(_, start)| *start);
 
@@ -184,6 +187,7 @@ impl<'a> Decompiler<'a> {
                     if block.is_none() && exit > start_position {
                         if let Some(epilogue) = self.code.range(start_position, exit)?.find_map(|(loc, i)| match i {
                             Instr::Jump(offset) if offset.absolute(loc) > exit => Some(offset.absolute(loc)),
+                            Instr::Jump(offset) if Some(offset.absolute(loc)) == end => end,
                             _ => None,
                         }) {
                             block = Some(BlockContext::new_switch(epilogue));
-- 
2.43.0


From b2c410062ebe1f1cfdc656b5cb6956c18251242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:07 +0000
Subject: [PATCH 07/32] fix: print 64-bit unsigned constants with their own
 suffix

---
 decompiler/src/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ef3f9b2..1bd0223 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -259,7 +259,7 @@ fn write_expr_nested<W: Write>(
             Constant::I32(lit) => write!(out, "{}", lit)?,
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
-            Constant::U64(lit) => write!(out, "{}u", lit)?,
+            Constant::U64(lit) => write!(out, "{}ul", lit)?,
             Constant::F32(lit) => write!(out, "{:.2}", lit)?,
             Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
             Constant::Bool(true) => write!(out, "true")?,
-- 
2.43.0


From cf04b740022c3ca4c9f46dd43b138404098d0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:07 +0000
Subject: [PATCH 08/32] fix: print float constants without losing digits

---
 decompiler/src/print.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 1bd0223..ff942df 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -1,3 +1,4 @@
+use std::fmt;
 use std::io::Write;
 use std::str::FromStr;
 
@@ -260,8 +261,8 @@ fn write_expr_nested<W: Write>(
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
             Constant::U64(lit) => write!(out, "{}ul", lit)?,
-            Constant::F32(lit) => write!(out, "{:.2}", lit)?,
-            Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
+            Constant::F32(lit) => write!(out, "{}", format_float(*lit))?,
+            Constant::F64(lit) => write!(out, "{}d", format_float(*lit))?,
             Constant::Bool(true) => write!(out, "true")?,
             Constant::Bool(false) => write!(out, "false")?,
         },
@@ -477,6 +478,15 @@ fn format_type(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
     Ok(result)
 }
 
+/// Uses two decimal places, or more when they are needed to represent the value exactly.
+fn format_float<F: fmt::Display + FromStr + PartialEq>(lit: F) -> String {
+    let short = format!("{lit:.2}");
+    match short.parse::<F>() {
+        Ok(val) if val == lit => short,
+        _ => format!("{lit}"),
+    }
+}
+
 fn format_binop(op: BinOp) -> &'static str {
     match op {
         BinOp::AssignAdd => "+=",
-- 
2.43.0


From 749f1319358d37662ac4bc78664839866cb0ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:39 +0000
Subject: [PATCH 09/32] fix: print parentheses where the grammar needs them

---
 core/src/ast.rs         | 10 ++++++++++
 decompiler/src/print.rs | 35 ++++++++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/core/src/ast.rs b/core/src/ast.rs
index 4d5d9ba..b3c8ade 100644
--- a/core/src/ast.rs
+++ b/core/src/ast.rs
@@ -239,6 +239,16 @@ impl BinOp {
     pub fn does_associate(self, parent: BinOp) -> bool {
         parent.precedence() > self.precedence() || (parent.precedence() == self.precedence() && parent.associative())
     }
+
+    // whether the operator can be the right operand of the parent without parentheses
+    pub fn does_associate_right(self, parent: BinOp) -> bool {
+        parent.precedence() > self.precedence()
+            || (parent.precedence() == self.precedence()
+                && matches!(
+                    parent,
+                    BinOp::LogicOr | BinOp::LogicAnd | BinOp::Or | BinOp::Xor | BinOp::And
+                ))
+    }
 }
 
 #[derive(Debug, Clone, Copy, Display, EnumString, IntoStaticStr)]
diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ff942df..7c79a58 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -269,11 +269,11 @@ fn write_expr_nested<W: Write>(
         Expr::Cast(type_, expr, _) => {
             if parent_op.is_some() {
                 write!(out, "(")?;
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
                 write!(out, ")")?;
             } else {
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
             }
         }
@@ -288,7 +288,7 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Assign(lhs, rhs, _) => {
-            write_expr(out, lhs, verbose, 0)?;
+            write_expr_nested(out, lhs, Some(ParentOp::Condition), verbose, 0)?;
             write!(out, " = ")?;
             write_expr(out, rhs, verbose, 0)?;
         }
@@ -299,7 +299,7 @@ fn write_expr_nested<W: Write>(
             write_call(out, fun, &[], params, None, verbose)?;
         }
         Expr::ArrayElem(arr, idx, _) => {
-            write_expr(out, arr, verbose, 0)?;
+            write_expr_nested(out, arr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, "[")?;
             write_expr(out, idx, verbose, 0)?;
             write!(out, "]")?;
@@ -356,11 +356,17 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Conditional(condition, true_, false_, _) => {
-            write_expr(out, condition, verbose, 0)?;
+            if parent_op.is_some() {
+                write!(out, "(")?;
+            }
+            write_expr_nested(out, condition, Some(ParentOp::Condition), verbose, 0)?;
             write!(out, " ? ")?;
             write_expr(out, true_, verbose, 0)?;
             write!(out, " : ")?;
             write_expr(out, false_, verbose, 0)?;
+            if parent_op.is_some() {
+                write!(out, ")")?;
+            }
         }
         Expr::While(condition, body, _) => {
             write!(out, "while ")?;
@@ -371,7 +377,7 @@ fn write_expr_nested<W: Write>(
             write!(out, "}}")?;
         }
         Expr::Member(expr, accessor, _) => {
-            write_expr(out, expr, verbose, 0)?;
+            write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, ".{}", accessor)?;
         }
         Expr::BinOp(lhs, rhs, op, _) => {
@@ -404,6 +410,8 @@ fn write_call<W: Write>(
             .filter(|op| match op {
                 ParentOp::UnOp | ParentOp::Dot => true,
                 ParentOp::BinOp(op) => !binop.does_associate(*op),
+                ParentOp::BinOpRight(op) => !binop.does_associate_right(*op),
+                ParentOp::Condition => !binop.does_associate(BinOp::AssignAdd),
             })
             .is_some()
         {
@@ -415,9 +423,16 @@ fn write_call<W: Write>(
             write_binop(out, &params[0], &params[1], binop, verbose)
         }
     } else if let Ok(unop) = UnOp::from_str(fun_name) {
-        write_unop(out, &params[0], unop, verbose)
+        if matches!(parent_op, Some(ParentOp::Dot)) {
+            write!(out, "(")?;
+            write_unop(out, &params[0], unop, verbose)?;
+            write!(out, ")")?;
+            Ok(())
+        } else {
+            write_unop(out, &params[0], unop, verbose)
+        }
     } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
-        write_expr(out, &params[0], verbose, 0)
+        write_expr_nested(out, &params[0], parent_op, verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
@@ -445,7 +460,7 @@ fn write_binop<W: Write>(
 ) -> Result<(), Error> {
     write_expr_nested(out, lhs, Some(ParentOp::BinOp(op)), verbose, 0)?;
     write!(out, " {} ", format_binop(op))?;
-    write_expr_nested(out, rhs, Some(ParentOp::BinOp(op)), verbose, 0)
+    write_expr_nested(out, rhs, Some(ParentOp::BinOpRight(op)), verbose, 0)
 }
 
 fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose: bool) -> Result<(), Error> {
@@ -525,5 +540,7 @@ fn format_unop(op: UnOp) -> &'static str {
 enum ParentOp {
     UnOp,
     BinOp(BinOp),
+    BinOpRight(BinOp),
+    Condition,
     Dot,
 }
-- 
2.43.0


From 21cd4119e44fbc4a567a34f2b076fa8d4f2d31c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:03 +0000
Subject: [PATCH 10/32] fix: declare locals that are read before their first
 assignment up front

---
 decompiler/src/lib.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index db7c007..7694d84 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -473,11 +473,17 @@ impl<'a> Decompiler<'a> {
 fn merge_declarations(mut locals: BTreeMap<Ident, TypeName>, seq: Seq<SourceAst>) -> Result<Seq<SourceAst>, Error> {
     let mut body = Vec::with_capacity(seq.exprs.len() + locals.len());
     let mut init = Vec::new();
+    let mut used = BTreeMap::new();
     let mut it = seq.exprs.into_iter();
 
     let stmt = loop {
         match it.next() {
             Some(Expr::Assign(ident, val, _)) => {
+                // a local that is used before it's assigned cannot be declared by the assignment
+                take_used_locals(&val, &mut locals, &mut used);
+                if !matches!(ident.as_ref(), Expr::Ident(_, _)) {
+                    take_used_locals(&ident, &mut locals, &mut used);
+                }
                 if let Expr::Ident(name, _) = ident.as_ref() {
                     if let Some(ty) = locals.remove(name) {
                         init.push(Expr::Declare(name.clone(), Some(ty.into()), Some(val), Span::ZERO));
@@ -492,6 +498,7 @@ fn merge_declarations(mut locals: BTreeMap<Ident, TypeName>, seq: Seq<SourceAst>
         }
     };
 
+    locals.append(&mut used);
     for (name, ty) in locals {
         body.push(Expr::Declare(name.clone(), Some(ty.into()), None, Span::ZERO));
     }
@@ -502,6 +509,42 @@ fn merge_declarations(mut locals: BTreeMap<Ident, TypeName>, seq: Seq<SourceAst>
     Ok(Seq::new(body))
 }
 
+fn take_used_locals(
+    expr: &Expr<SourceAst>,
+    locals: &mut BTreeMap<Ident, TypeName>,
+    used: &mut BTreeMap<Ident, TypeName>,
+) {
+    match expr {
+        Expr::Ident(name, _) => {
+            if let Some((name, type_)) = locals.remove_entry(name) {
+                used.insert(name, type_);
+            }
+        }
+        Expr::Cast(_, expr, _) | Expr::Member(expr, _, _) => take_used_locals(expr, locals, used),
+        Expr::Assign(lhs, rhs, _) | Expr::ArrayElem(lhs, rhs, _) => {
+            take_used_locals(lhs, locals, used);
+            take_used_locals(rhs, locals, used);
+        }
+        Expr::Conditional(cond, true_, false_, _) => {
+            take_used_locals(cond, locals, used);
+            take_used_locals(true_, locals, used);
+            take_used_locals(false_, locals, used);
+        }
+        Expr::Call(_, _, args, _) | Expr::New(_, args, _) => {
+            for arg in args.iter() {
+                take_used_locals(arg, locals, used);
+            }
+        }
+        Expr::MethodCall(expr, _, args, _) => {
+            take_used_locals(expr, locals, used);
+            for arg in args {
+                take_used_locals(arg, locals, used);
+            }
+        }
+        _ => {}
+    }
+}
+
 fn resolve_jump(seq: &mut Seq<SourceAst>) -> Option<Target> {
     seq.exprs.iter_mut().rev().find_map(|expr| match expr {
         Expr::Goto(target, _) => {
-- 
2.43.0


From ca81cea63762770e6f88571c94e9acf721a2c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 11/32] fix: escape the strings of runtime properties in
 decompiled source

---
 decompiler/src/print.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 7c79a58..bcca2f7 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -156,7 +156,12 @@ pub fn write_definition<W: Write>(
             writeln!(out)?;
             for property in &field.attributes {
                 write_indent(out, depth)?;
-                writeln!(out, "@runtimeProperty(\"{}\", \"{}\")", property.name, property.value)?;
+                writeln!(
+                    out,
+                    "@runtimeProperty(\"{}\", \"{}\")",
+                    str::escape_default(&property.name),
+                    str::escape_default(&property.value)
+                )?;
             }
 
             for property in &field.defaults {
-- 
2.43.0


From 332bbea4653d0054cd839158091240dfe49ef954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:09 +0000
Subject: [PATCH 12/32] fix: skip functions whose source file is missing in the
 file index

---
 decompiler/src/files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/files.rs b/decompiler/src/files.rs
index 459361f..86cf161 100644
--- a/decompiler/src/files.rs
+++ b/decompiler/src/files.rs
@@ -32,7 +32,7 @@ impl<'a> FileIndex<'a> {
 
     pub fn iter(&'a self) -> impl Iterator<Item = FileEntry<'a>> {
         let source_files = self.file_map.iter().filter_map(move |(idx, children)| {
-            if let AnyDefinition::SourceFile(ref file) = self.pool.definition(*idx).unwrap().value {
+            if let AnyDefinition::SourceFile(ref file) = self.pool.definition(*idx).ok()?.value {
                 let definitions = children
                     .iter()
                     .filter_map(|child| self.pool.definition(*child).ok())
-- 
2.43.0


From e0ed964280362da11f183dd576a5a62f1df03893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:18 +0000
Subject: [PATCH 13/32] fix: report definitions that refer to the wrong kind of
 definition instead of panicking when printing

---
 decompiler/src/print.rs | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index bcca2f7..9693384 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -12,6 +12,7 @@ use crate::Decompiler;
 
 const INDENT_CHAR: char = ' ';
 const INDENT_SIZE: usize = 2;
+const MAX_TYPE_DEPTH: usize = 64;
 
 #[derive(Debug, Clone, Copy)]
 pub enum OutputMode {
@@ -62,11 +63,13 @@ pub fn write_definition<W: Write>(
             writeln!(out, "{{")?;
 
             for field_index in &class.fields {
+                pool.field(*field_index)?;
                 let field = pool.definition(*field_index)?;
                 write_definition(out, field, pool, depth + 1, mode)?;
             }
 
             for method_index in &class.functions {
+                pool.function(*method_index)?;
                 let method = pool.definition(*method_index)?;
                 if let Err(err) = write_definition(out, method, pool, depth + 1, mode) {
                     log::error!("Method decompilation {} failed (caused by {})", method_index, err);
@@ -84,16 +87,17 @@ pub fn write_definition<W: Write>(
             writeln!(out, "enum {} {{", pool.names.get(definition.name)?)?;
 
             for member in &enum_.members {
+                pool.enum_value(*member)?;
                 write_definition(out, pool.definition(*member)?, pool, depth + 1, mode)?;
             }
 
             writeln!(out, "}}")?;
         }
         AnyDefinition::Function(fun) => {
-            let return_type = fun.return_type.map_or_else(
-                || "Void".to_owned(),
-                |idx| format_type(pool.definition(idx).unwrap(), pool).unwrap(),
-            );
+            let return_type = match fun.return_type {
+                Some(idx) => format_type(pool.definition(idx)?, pool)?,
+                None => "Void".to_owned(),
+            };
 
             let name = pool.names.get(definition.name)?;
             let pretty_name = name.split(';').next().expect("Function with empty name");
@@ -101,8 +105,9 @@ pub fn write_definition<W: Write>(
             let params = fun
                 .parameters
                 .iter()
-                .map(|param| format_param(pool.definition(*param).unwrap(), pool).unwrap())
-                .format(", ");
+                .map(|param| format_param(pool.definition(*param)?, pool))
+                .collect::<Result<Vec<_>, _>>()?
+                .join(", ");
 
             writeln!(out)?;
             write_indent(out, depth)?;
@@ -191,7 +196,7 @@ pub fn write_definition<W: Write>(
             }
             writeln!(out, "let {}: {};", field_name, type_name)?;
         }
-        AnyDefinition::SourceFile(_) => panic!(),
+        AnyDefinition::SourceFile(_) => return Err(Error::DecompileError("Unexpected source file")),
     }
     Ok(())
 }
@@ -219,6 +224,7 @@ fn write_function_body<W: Write>(
         }
         OutputMode::Bytecode => {
             for local in &fun.locals {
+                pool.local(*local)?;
                 write_definition(out, pool.definition(*local)?, pool, depth + 1, mode)?;
                 writeln!(out)?;
             }
@@ -474,7 +480,10 @@ fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose:
 }
 
 fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
-    let param = def.value.as_parameter().expect("Expected a param definition");
+    let param = def
+        .value
+        .as_parameter()
+        .ok_or(Error::DecompileError("Expected a param definition"))?;
     let type_name = format_type(pool.definition(param.type_)?, pool)?;
     let name = pool.names.get(def.name)?;
     let out = if param.flags.is_out() { "out " } else { "" };
@@ -484,7 +493,18 @@ fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error>
 }
 
 fn format_type(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
-    let type_ = def.value.as_type().expect("Expected a type definition");
+    format_type_nested(def, pool, 0)
+}
+
+fn format_type_nested(def: &Definition, pool: &ConstantPool, depth: usize) -> Result<String, Error> {
+    if depth > MAX_TYPE_DEPTH {
+        return Err(Error::DecompileError("Type is nested too deeply"));
+    }
+    let format_type = |def, pool| format_type_nested(def, pool, depth + 1);
+    let type_ = def
+        .value
+        .as_type()
+        .ok_or(Error::DecompileError("Expected a type definition"))?;
     let result = match type_ {
         Type::Prim | Type::Class => pool.names.get(def.name)?.to_string(),
         Type::Ref(nested) => format!("ref<{}>", format_type(pool.definition(*nested)?, pool)?),
-- 
2.43.0


From ff2ac2f146ad23df2f8074f5b8d12407a9dc4d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:28 +0000
Subject: [PATCH 14/32] fix: print operator and conversion calls with an
 unusual number of arguments as calls instead of panicking

---
 decompiler/src/print.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 9693384..142a86a 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -416,7 +416,7 @@ fn write_call<W: Write>(
 ) -> Result<(), Error> {
     let fun_name = name.as_ref().split(';').next().expect("Empty function name");
 
-    if let Ok(binop) = BinOp::from_str(fun_name) {
+    if let (Ok(binop), [lhs, rhs]) = (BinOp::from_str(fun_name), params) {
         if parent_op
             .filter(|op| match op {
                 ParentOp::UnOp | ParentOp::Dot => true,
@@ -427,23 +427,23 @@ fn write_call<W: Write>(
             .is_some()
         {
             write!(out, "(")?;
-            write_binop(out, &params[0], &params[1], binop, verbose)?;
+            write_binop(out, lhs, rhs, binop, verbose)?;
             write!(out, ")")?;
             Ok(())
         } else {
-            write_binop(out, &params[0], &params[1], binop, verbose)
+            write_binop(out, lhs, rhs, binop, verbose)
         }
-    } else if let Ok(unop) = UnOp::from_str(fun_name) {
+    } else if let (Ok(unop), [param]) = (UnOp::from_str(fun_name), params) {
         if matches!(parent_op, Some(ParentOp::Dot)) {
             write!(out, "(")?;
-            write_unop(out, &params[0], unop, verbose)?;
+            write_unop(out, param, unop, verbose)?;
             write!(out, ")")?;
             Ok(())
         } else {
-            write_unop(out, &params[0], unop, verbose)
+            write_unop(out, param, unop, verbose)
         }
-    } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
-        write_expr_nested(out, &params[0], parent_op, verbose, 0)
+    } else if let ("WeakRefToRef" | "RefToWeakRef" | "AsRef", [param], false) = (fun_name, params, verbose) {
+        write_expr_nested(out, param, parent_op, verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
-- 
2.43.0


From 51e2990ee98d3f6d696fd1dac96f7bb00a848111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:13 +0000
Subject: [PATCH 15/32] fix: report branches and switches that lead backwards
 instead of hanging or overflowing the stack

---
 decompiler/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 7694d84..6a107cc 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -155,13 +155,19 @@ impl<'a> Decompiler<'a> {
         Ok(result)
     }
 
-    fn consume_switch(&mut self, start: Location) -> Result<Expr<SourceAst>, Error> {
+    fn consume_switch(&mut self, position: Location, start: Location) -> Result<Expr<SourceAst>, Error> {
         let subject = self.consume()?;
 
         self.code.seek_abs(start)?;
+        if start <= position {
+            return Err(Error::DecompileError("Switch must lead forward"));
+        }
         let mut labels = Vec::new();
         while let Some(Instr::SwitchLabel(exit_offset, start_offset)) = self.code.peek() {
             let position = self.code.pos();
+            if exit_offset.value <= 0 || start_offset.value <= 0 {
+                return Err(Error::DecompileError("SwitchLabel must lead forward"));
+            }
             labels.push((position, start_offset.absolute(position)));
             self.code.seek_rel(exit_offset)?;
         }
@@ -285,11 +291,13 @@ impl<'a> Decompiler<'a> {
                 }
             }
             Instr::ExternalVar => return Err(Error::DecompileError("Unexpected ExternalVar")),
-            Instr::Switch(_, start) => self.consume_switch(start.absolute(position))?,
+            Instr::Switch(_, start) => self.consume_switch(position, start.absolute(position))?,
             Instr::SwitchLabel(_, _) => return Err(Error::DecompileError("Unexpected SwitchLabel")),
             Instr::SwitchDefault => return Err(Error::DecompileError("Unexpected SwitchDefault")),
             Instr::JumpIfFalse(offset) => {
-                assert!(offset.value >= 0, "negative offset is not supported for JumpIfFalse");
+                if offset.value <= 0 {
+                    return Err(Error::DecompileError("JumpIfFalse must lead forward"));
+                }
                 self.consume_conditional_jump(position, offset, block)?
             }
             Instr::Skip(offset) => Expr::Goto(Target::new(offset.absolute(position)), Span::ZERO),
-- 
2.43.0


From 840de6fe395fa636bb4cc6af46f830e062e912b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:30 +0000
Subject: [PATCH 16/32] fix: keep the grouping of arguments after two
 consecutive paths that end in a backslash

---
 scc/cli/src/opts.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc/cli/src/opts.rs b/scc/cli/src/opts.rs
index 58c6cb5..88696f5 100644
--- a/scc/cli/src/opts.rs
+++ b/scc/cli/src/opts.rs
@@ -10,6 +10,8 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
     // when cyberpunk's args are processed, the \" messes up the grouping, so we need to fix the args that have quotes & spaces in them
     for arg in args {
         let contains_quote = arg.contains('"');
+        // an argument with an even number of quotes leaves the grouping as it was
+        let toggles = arg.matches('"').count() % 2 == 1;
         if !contains_quote && !broken {
             fixed_args.push(arg);
         } else if !broken {
@@ -39,7 +41,7 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
                 *last = format!("{} {}", last, broken_arg);
             }
         }
-        if contains_quote {
+        if toggles {
             broken = !broken;
         }
     }
-- 
2.43.0


From ea4b751d6f20d4f10c0f1548a93effbc0f27815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:49 +0000
Subject: [PATCH 17/32] fix: give switch cases without a body at the end of a
 switch a target to jump to

---
 compiler/src/assembler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/assembler.rs b/compiler/src/assembler.rs
index 27f24de..9a910e2 100644
--- a/compiler/src/assembler.rs
+++ b/compiler/src/assembler.rs
@@ -171,6 +171,7 @@ impl<'a> Assembler<'a> {
                 let mut case_iter = cases.into_iter().peekable();
                 while case_iter.peek().is_some() {
                     let body_label = self.new_label();
+                    let mut has_body = false;
 
                     for case in &mut case_iter {
                         self.emit_label(next_case_label);
@@ -181,9 +182,14 @@ impl<'a> Assembler<'a> {
                         if !case.body.exprs.iter().all(Expr::is_empty) {
                             self.emit_label(body_label);
                             self.assemble_seq(case.body, scope, pool, Some(exit_label))?;
+                            has_body = true;
                             break;
                         }
                     }
+                    if !has_body {
+                        // trailing cases without a body fall through to the default
+                        self.emit_label(body_label);
+                    }
                 }
                 self.emit_label(next_case_label);
 
-- 
2.43.0


From 64a81adfd7719a2edcf4ad28f46ccf32d67bef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 18/32] fix: evaluate array literals in the cases of a switch
 before the switch

---
 compiler/src/transform.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/src/transform.rs b/compiler/src/transform.rs
index cbba91a..43c1634 100644
--- a/compiler/src/transform.rs
+++ b/compiler/src/transform.rs
@@ -131,14 +131,18 @@ where
         default: Option<Seq<N>>,
         pos: Span,
     ) -> Result<Expr<N>, Error> {
-        let mut processed = Vec::with_capacity(cases.len());
+        // the bodies go first, what the other expressions need has to come before the whole switch
+        let mut bodies = Vec::with_capacity(cases.len());
         for case in cases {
-            let body = self.on_seq(case.body)?;
-            let matcher = self.on_expr(case.matcher)?;
-            processed.push(SwitchCase { matcher, body });
+            bodies.push((case.matcher, self.on_seq(case.body)?));
         }
         let default = default.map_or_else(|| Ok(None), |expr| self.on_seq(expr).map(Some))?;
         let matched = self.on_expr(matched)?;
+        let mut processed = Vec::with_capacity(bodies.len());
+        for (matcher, body) in bodies {
+            let matcher = self.on_expr(matcher)?;
+            processed.push(SwitchCase { matcher, body });
+        }
         Ok(Expr::Switch(Box::new(matched), processed, default, pos))
     }
 
-- 
2.43.0


From 59950f28acc2ec6298088c45107d716fc07b32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:50 +0000
Subject: [PATCH 19/32] fix: evaluate array literals in the condition of a loop
 on every iteration

---
 compiler/src/sugar.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/compiler/src/sugar.rs b/compiler/src/sugar.rs
index 761522b..06f5207 100644
--- a/compiler/src/sugar.rs
+++ b/compiler/src/sugar.rs
@@ -215,6 +215,24 @@ impl<'a> ExprTransformer<TypedAst> for Desugar<'a> {
         Ok(Expr::While(Box::new(condition), Seq::new(body), span))
     }
 
+    fn on_while(&mut self, cond: TypedExpr, body: Seq<TypedAst>, span: Span) -> Result<TypedExpr, Error> {
+        let body = self.on_seq(body)?;
+        let cond = self.on_expr(cond)?;
+        if self.prefix_exprs.is_empty() {
+            return Ok(Expr::While(Box::new(cond), body, span));
+        }
+        // what the condition needs has to be evaluated every time the condition is
+        let mut exprs = std::mem::take(&mut self.prefix_exprs);
+        exprs.push(Expr::If(
+            Box::new(cond),
+            body,
+            Some(Seq::new(vec![Expr::Break(span)])),
+            span,
+        ));
+        let always = Expr::Constant(Constant::Bool(true), span);
+        Ok(Expr::While(Box::new(always), Seq::new(exprs), span))
+    }
+
     fn on_seq(&mut self, seq: Seq<TypedAst>) -> Result<Seq<TypedAst>, Error> {
         let mut processed = Vec::with_capacity(seq.exprs.len());
         for expr in seq.exprs {
-- 
2.43.0


From 66eab1d03b9c9424ff38a6149fe2bb7ff979ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 20/32] fix: compile members with their own visibility

---
 compiler/src/unit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 94976ab..b09421e 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -484,7 +484,7 @@ impl<'a> CompilationUnit<'a> {
                         source_ref,
                         wrapped: None,
                         is_replacement: false,
-                        visibility,
+                        visibility: fun.declaration.qualifiers.visibility().unwrap_or(visibility),
                         source: fun,
                     };
 
@@ -499,6 +499,7 @@ impl<'a> CompilationUnit<'a> {
                     let name_idx = self.pool.names.add(let_.declaration.name.to_heap());
                     let field_idx = self.pool.stub_definition(name_idx);
 
+                    let visibility = let_.declaration.qualifiers.visibility().unwrap_or(visibility);
                     self.define_field(field_idx, class_idx, flags, visibility, let_, scope)?;
                     fields.push(field_idx);
                 }
-- 
2.43.0


From b2c04b61bf5764b440e0a0ecf84c29146deaa1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 21/32] fix: keep const on fields

---
 compiler/src/unit.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index b09421e..f95b547 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -664,6 +664,7 @@ impl<'a> CompilationUnit<'a> {
         let type_idx = scope.get_type_index(&type_, self.pool).with_span(decl.span)?;
         let flags = FieldFlags::new()
             .with_is_browsable(true)
+            .with_is_const(decl.qualifiers.contain(Qualifier::Const))
             .with_is_native(is_native)
             .with_is_persistent(is_persistent);
 
-- 
2.43.0


From cfeec1a83d5da8313dc1ce40b0e05403048b4b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 22/32] fix: tell apart types of the same name in different
 modules

---
 compiler/src/scope.rs | 60 ++++++++++++++++++++++++++++---------------
 compiler/src/unit.rs  |  3 +++
 2 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/compiler/src/scope.rs b/compiler/src/scope.rs
index 0e47324..069ff47 100644
--- a/compiler/src/scope.rs
+++ b/compiler/src/scope.rs
@@ -12,6 +12,7 @@ pub struct Scope {
     symbols: Map<Ident, Symbol>,
     references: Map<Ident, Value>,
     types: Map<Ident, PoolIndex<Type>>,
+    definitions: Map<Ident, Symbol>,
 
     pub this: Option<PoolIndex<Class>>,
     pub function: Option<PoolIndex<Function>>,
@@ -20,17 +21,27 @@ pub struct Scope {
 impl Scope {
     pub fn new(pool: &ConstantPool) -> Result<Self, Error> {
         let mut types = Map::new();
+        let mut definitions = Map::new();
         for (idx, def) in pool.roots() {
-            if let AnyDefinition::Type(_) = def.value {
-                let ident = Ident::from_heap(pool.def_name(idx)?);
-                types = types.insert(ident, idx.cast());
-            }
+            let symbol = match &def.value {
+                AnyDefinition::Type(_) => {
+                    let ident = Ident::from_heap(pool.def_name(idx)?);
+                    types = types.insert(ident, idx.cast());
+                    continue;
+                }
+                AnyDefinition::Class(class) if class.flags.is_struct() => Symbol::Struct(idx.cast(), class.visibility),
+                AnyDefinition::Class(class) => Symbol::Class(idx.cast(), class.visibility),
+                AnyDefinition::Enum(_) => Symbol::Enum(idx.cast()),
+                _ => continue,
+            };
+            definitions = definitions.insert(Ident::from_heap(pool.def_name(idx)?), symbol);
         }
 
         let result = Self {
             symbols: Map::new(),
             references: Map::new(),
             types,
+            definitions,
             this: None,
             function: None,
         };
@@ -58,6 +69,10 @@ impl Scope {
         self.types = self.types.insert(name, typ);
     }
 
+    pub fn add_definition(&mut self, full_name: Ident, symbol: Symbol) {
+        self.definitions = self.definitions.insert(full_name, symbol);
+    }
+
     pub fn add_symbol(&mut self, name: Ident, symbol: Symbol) {
         match symbol {
             Symbol::Functions(funs) => match self.symbols.find(&name) {
@@ -218,20 +233,24 @@ impl Scope {
     }
 
     pub fn resolve_type(&self, name: &TypeName, pool: &ConstantPool) -> Result<TypeId, Cause> {
-        let result = if let Some(res) = self.types.find(&name.repr()) {
-            self.resolve_type_from_pool(*res, pool)?
-        } else {
-            match (name.kind(), name.arguments()) {
-                (Kind::Ref, [nested]) => TypeId::Ref(Box::new(self.resolve_type(nested, pool)?)),
-                (Kind::WRef, [nested]) => TypeId::WeakRef(Box::new(self.resolve_type(nested, pool)?)),
-                (Kind::ScriptRef, [nested]) => TypeId::ScriptRef(Box::new(self.resolve_type(nested, pool)?)),
-                (Kind::Array, [nested]) => TypeId::Array(Box::new(self.resolve_type(nested, pool)?)),
-                _ => match self.symbols.find(&name.repr()) {
-                    Some(Symbol::Class(idx, _)) => TypeId::Class(*idx),
-                    Some(Symbol::Struct(idx, _)) => TypeId::Struct(*idx),
-                    Some(Symbol::Enum(idx)) => TypeId::Enum(*idx),
-                    _ => return Err(Cause::UnresolvedType(name.pretty())),
-                },
+        let result = match (name.kind(), name.arguments()) {
+            (Kind::Ref, [nested]) => TypeId::Ref(Box::new(self.resolve_type(nested, pool)?)),
+            (Kind::WRef, [nested]) => TypeId::WeakRef(Box::new(self.resolve_type(nested, pool)?)),
+            (Kind::ScriptRef, [nested]) => TypeId::ScriptRef(Box::new(self.resolve_type(nested, pool)?)),
+            (Kind::Array, [nested]) => TypeId::Array(Box::new(self.resolve_type(nested, pool)?)),
+            _ => {
+                let repr = name.repr();
+                match self.types.find(&repr) {
+                    Some(idx) if !matches!(pool.type_(*idx)?, Type::Class) => {
+                        self.resolve_type_from_pool(*idx, pool)?
+                    }
+                    _ => match self.symbols.find(&repr) {
+                        Some(Symbol::Class(idx, _)) => TypeId::Class(*idx),
+                        Some(Symbol::Struct(idx, _)) => TypeId::Struct(*idx),
+                        Some(Symbol::Enum(idx)) => TypeId::Enum(*idx),
+                        _ => return Err(Cause::UnresolvedType(name.pretty())),
+                    },
+                }
             }
         };
         Ok(result)
@@ -244,9 +263,8 @@ impl Scope {
                 _ => TypeId::Prim(index),
             },
             Type::Class => {
-                let name = pool.def_name(index)?;
-                let ident = Ident::from_ref(name.split('.').last().unwrap());
-                match self.symbols.find(&ident) {
+                let ident = Ident::from_heap(pool.def_name(index)?);
+                match self.definitions.find(&ident) {
                     Some(Symbol::Class(class_idx, _)) => TypeId::Class(*class_idx),
                     Some(Symbol::Struct(struct_idx, _)) => TypeId::Struct(*struct_idx),
                     Some(Symbol::Enum(enum_idx)) => TypeId::Enum(*enum_idx),
diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index f95b547..13054a6 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -348,6 +348,7 @@ impl<'a> CompilationUnit<'a> {
                 let name_index = self.pool.names.add(path.render().to_heap());
                 let index = self.pool.stub_definition(name_index);
                 self.symbols.add_class(&path, index, visibility);
+                self.scope.add_definition(path.render(), Symbol::Class(index, visibility));
 
                 // add to globals when no module
                 if module.is_empty() {
@@ -378,6 +379,7 @@ impl<'a> CompilationUnit<'a> {
                 let name_index = self.pool.names.add(path.render().to_heap());
                 let index = self.pool.stub_definition(name_index);
                 self.symbols.add_struct(&path, index, visibility);
+                self.scope.add_definition(path.render(), Symbol::Struct(index, visibility));
 
                 // add to globals when no module
                 if module.is_empty() {
@@ -419,6 +421,7 @@ impl<'a> CompilationUnit<'a> {
                 let index = self.pool.stub_definition(name_index);
 
                 self.symbols.add_enum(&path, index);
+                self.scope.add_definition(path.render(), Symbol::Enum(index));
 
                 // add to globals when no module
                 if module.is_empty() {
-- 
2.43.0


From eddfd0847257b95ca9b8f4db8c175b328a370f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 23/32] fix: give array literals the expected element type and
 convert the branches of conditionals

---
 compiler/src/typechecker.rs | 38 +++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/compiler/src/typechecker.rs b/compiler/src/typechecker.rs
index c2a159f..645da54 100644
--- a/compiler/src/typechecker.rs
+++ b/compiler/src/typechecker.rs
@@ -83,14 +83,21 @@ impl<'a> TypeChecker<'a> {
                         checked.push(val);
                     }
 
-                    let typ: Result<TypeId, Error> = checked
-                        .iter()
-                        .skip(1)
-                        .try_fold(type_of(&checked[0], scope, self.pool)?, |acc, expr| {
-                            lub(acc, type_of(expr, scope, self.pool)?, self.pool).with_span(*span)
-                        });
-
-                    Expr::ArrayLit(checked.into_boxed_slice(), Some(typ?.into()), *span)
+                    let typ = match expected {
+                        Some(TypeId::Array(elem)) => elem.as_ref().clone(),
+                        _ => {
+                            let types = checked.iter().skip(1);
+                            types.fold(type_of(&checked[0], scope, self.pool), |acc, expr| {
+                                lub(acc?, type_of(expr, scope, self.pool)?, self.pool).with_span(*span)
+                            })?
+                        }
+                    };
+                    let converted = checked
+                        .into_iter()
+                        .map(|expr| self.convert(expr, &typ, scope))
+                        .collect::<Result<_, _>>()?;
+
+                    Expr::ArrayLit(converted, Some(typ.into()), *span)
                 }
             }
             Expr::InterpolatedString(prefix, parts, pos) => {
@@ -313,11 +320,13 @@ impl<'a> TypeChecker<'a> {
                 let checked_true = self.check(true_, None, scope)?;
                 let if_type = type_of(&checked_true, scope, self.pool)?;
                 let checked_false = self.check(false_, Some(&if_type), scope)?;
+                let else_type = type_of(&checked_false, scope, self.pool)?;
+                let type_ = lub(if_type, else_type, self.pool).with_span(*span)?;
 
                 Expr::Conditional(
                     Box::new(checked_cond),
-                    Box::new(checked_true),
-                    Box::new(checked_false),
+                    Box::new(self.convert(checked_true, &type_, scope)?),
+                    Box::new(self.convert(checked_false, &type_, scope)?),
                     *span,
                 )
             }
@@ -535,6 +544,15 @@ impl<'a> TypeChecker<'a> {
         }
     }
 
+    // converts an expression to a type if there is a conversion
+    fn convert(&self, expr: TypedExpr, to: &TypeId, scope: &Scope) -> Result<TypedExpr, Error> {
+        let from = type_of(&expr, scope, self.pool)?;
+        match find_conversion(&from, to, self.pool)? {
+            Some(conversion) => Ok(insert_conversion(expr, to, conversion)),
+            None => Ok(expr),
+        }
+    }
+
     fn resolve_overload<'b>(
         &mut self,
         name: Ident,
-- 
2.43.0


From 593032c8bcb38af291dc82d784240b3e501d3e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 24/32] fix: tell our own output from the game's bundle by its
 signature as well

---
 scc/lib/src/lib.rs | 88 ++++++++++++++++++++++++----------------------
 1 file changed, 45 insertions(+), 43 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 59f2f8c..d21d40a 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -57,7 +57,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
         .collect::<Vec<_>>();
 
     if !cache_path.exists() {
-        let base_cache_file = get_base_bundle_path(&default_cache_dir);
+        let base_cache_file = get_base_bundle_path(&default_cache_dir)?;
         let cache_dir = cache_path
             .parent()
             .context("Provided cache file path has no parent directory")?;
@@ -138,55 +138,39 @@ fn try_compile_files(
     let saved_timestamp =
         CompileTimestamp::read(&mut *ts_file).context("Failed to read the existing timestamp file")?;
 
+    // the timestamp alone does not tell our own output from a file put there by the game
+    let is_own_cache = saved_timestamp == Some(write_timestamp)
+        || check_for_redscript_signature_def(&load_bundle(cache_path)?.pool);
+
     let input_cache_path = if is_output_file_separate {
-        match saved_timestamp {
-            saved_timestamp if saved_timestamp != Some(write_timestamp) && backup_path.exists() => {
-                log::info!("Removing a stale backup file at {}", backup_path.display());
-                fs::remove_file(&backup_path).context("Failed to remove a stale backup file")?;
-            }
-            _ if backup_path.exists() => {
+        if backup_path.exists() {
+            if is_own_cache {
                 log::info!("Restoring the backup file to {}", cache_path.display());
                 fs::rename(&backup_path, cache_path).context("Failed to restore the backup file")?;
+            } else {
+                log::info!("Removing a stale backup file at {}", backup_path.display());
+                fs::remove_file(&backup_path).context("Failed to remove a stale backup file")?;
             }
-            _ => {}
         }
         cache_path.to_path_buf()
     } else {
-        match saved_timestamp {
-            None if backup_path.exists() => {
-                log::info!("Previous cache backup file found");
-            }
-            saved_timestamp if saved_timestamp != Some(write_timestamp) => {
-                log::info!(
-                    "Redscript cache file is not ours, copying it to {}",
-                    backup_path.display()
-                );
-                fs::copy(cache_path, &backup_path).context("Failed to copy the cache file")?;
-            }
-            Some(_) if !backup_path.exists() => {
-                return Err(anyhow::anyhow!(
-                    "A REDScript timestamp was found, but backup files are missing, your \
-                     installation might be corrupted, you should remove the \
-                     'r6/cache/redscript.ts' file and verify game files with Steam/GOG"
-                ));
-            }
-            _ => {}
+        if !is_own_cache {
+            log::info!(
+                "Redscript cache file is not ours, copying it to {}",
+                backup_path.display()
+            );
+            fs::copy(cache_path, &backup_path).context("Failed to copy the cache file")?;
+        } else if !backup_path.exists() {
+            return Err(anyhow::anyhow!(
+                "A REDScript timestamp was found, but backup files are missing, your \
+                 installation might be corrupted, you should remove the \
+                 'r6/cache/redscript.ts' file and verify game files with Steam/GOG"
+            ));
         }
         backup_path
     };
 
-    #[cfg(feature = "mmap")]
-    let mut bundle = {
-        let (map, _) = vmap::Map::with_options()
-            .open(input_cache_path)
-            .context("Failed to open the original script cache file")?;
-        ScriptBundle::load(&mut io::Cursor::new(map.as_ref())).context("Failed to load the original script cache")?
-    };
-    #[cfg(not(feature = "mmap"))]
-    let mut bundle = {
-        let file = File::open(input_cache_path).context("Failed to open the original script cache file")?;
-        ScriptBundle::load(&mut io::BufReader::new(file)).context("Failed to load the original script cache")?
-    };
+    let mut bundle = load_bundle(&input_cache_path)?;
 
     if check_for_redscript_signature_def(&bundle.pool) {
         return Err(anyhow::anyhow!(
@@ -249,12 +233,30 @@ fn setup_logger(r6_dir: &Path) {
         .ok();
 }
 
-fn get_base_bundle_path(cache_dir: &Path) -> PathBuf {
+fn get_base_bundle_path(cache_dir: &Path) -> anyhow::Result<PathBuf> {
     let bk_path = cache_dir.join(BACKUP_FILE_NAME);
-    if bk_path.exists() {
-        bk_path
+    let bundle_path = cache_dir.join(BUNDLE_FILE_NAME);
+    if bk_path.exists()
+        && (!bundle_path.exists() || check_for_redscript_signature_def(&load_bundle(&bundle_path)?.pool))
+    {
+        Ok(bk_path)
     } else {
-        cache_dir.join(BUNDLE_FILE_NAME)
+        Ok(bundle_path)
+    }
+}
+
+fn load_bundle(path: &Path) -> anyhow::Result<ScriptBundle> {
+    #[cfg(feature = "mmap")]
+    {
+        let (map, _) = vmap::Map::with_options()
+            .open(path)
+            .context("Failed to open the original script cache file")?;
+        ScriptBundle::load(&mut io::Cursor::new(map.as_ref())).context("Failed to load the original script cache")
+    }
+    #[cfg(not(feature = "mmap"))]
+    {
+        let file = File::open(path).context("Failed to open the original script cache file")?;
+        ScriptBundle::load(&mut io::BufReader::new(file)).context("Failed to load the original script cache")
     }
 }
 
-- 
2.43.0


From da1ff84280e55384cdf35b8c9b935a5b03c885fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 25/32] fix: replace the bundle and its backup in a single step

---
 scc/lib/src/lib.rs       | 58 ++++++++++++++++++++++++++++++----------
 scc/lib/src/timestamp.rs |  2 +-
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index d21d40a..178cc2f 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -28,6 +28,7 @@ const LEGACY_TIMESTAMP_FILE_NAME: &str = "redscript.ts";
 
 const BACKUP_FILE_EXT: &str = "redscripts.bk";
 const TIMESTAMP_FILE_EXT: &str = "redscripts.ts";
+const TEMP_FILE_EXT: &str = ".tmp";
 
 const USER_HINTS_DIR: &str = "redsUserHints";
 
@@ -62,7 +63,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
             .parent()
             .context("Provided cache file path has no parent directory")?;
         fs::create_dir_all(cache_dir).context("Failed to create the cache directory")?;
-        fs::copy(base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
+        copy_file(&base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
     }
 
     let backup_path = cache_path.with_extension(BACKUP_FILE_EXT);
@@ -71,7 +72,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
 
     if fallback_backup_path.exists() && !backup_path.exists() {
         log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
-        fs::copy(fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
+        copy_file(&fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
     }
 
     let files = Files::from_dirs(&script_paths, &SourceFilter::None).context("Could not load script sources")?;
@@ -159,7 +160,7 @@ fn try_compile_files(
                 "Redscript cache file is not ours, copying it to {}",
                 backup_path.display()
             );
-            fs::copy(cache_path, &backup_path).context("Failed to copy the cache file")?;
+            copy_file(cache_path, &backup_path).context("Failed to copy the cache file")?;
         } else if !backup_path.exists() {
             return Err(anyhow::anyhow!(
                 "A REDScript timestamp was found, but backup files are missing, your \
@@ -196,17 +197,7 @@ fn try_compile_files(
 
             add_redscript_signature_def(&mut bundle.pool);
 
-            let mut file = File::create(output_cache_path).map_err(|err| match err.kind() {
-                io::ErrorKind::PermissionDenied => anyhow::anyhow!(
-                    "Could not write to '{}', make sure the file is not read-only",
-                    output_cache_path.display()
-                ),
-                _ => err.into(),
-            })?;
-            bundle.save(&mut io::BufWriter::new(&mut file))?;
-            file.sync_all()?;
-
-            CompileTimestamp::of_cache_file(&file)?.write(&mut *ts_file)?;
+            save_bundle(&bundle, output_cache_path)?.write(&mut *ts_file)?;
 
             let output = SccOutput::new(compilation, bundle, files);
             Ok(SccResult::Success(Box::new(output)))
@@ -260,6 +251,45 @@ fn load_bundle(path: &Path) -> anyhow::Result<ScriptBundle> {
     }
 }
 
+/// Replaces the file at the given path in a single step, so that an interrupted write can never
+/// leave an incomplete bundle there.
+fn save_bundle(bundle: &ScriptBundle, path: &Path) -> anyhow::Result<CompileTimestamp> {
+    let not_writable = |err: io::Error| match err.kind() {
+        io::ErrorKind::PermissionDenied => anyhow::anyhow!(
+            "Could not write to '{}', make sure the file is not read-only",
+            path.display()
+        ),
+        _ => err.into(),
+    };
+    if path.exists() {
+        OpenOptions::new().write(true).open(path).map_err(not_writable)?;
+    }
+
+    let temp_path = get_temp_path(path);
+    let file = File::create(&temp_path).map_err(not_writable)?;
+    let mut writer = io::BufWriter::new(file);
+    bundle.save(&mut writer)?;
+    let file = writer.into_inner().map_err(io::IntoInnerError::into_error)?;
+    file.sync_all()?;
+    let timestamp = CompileTimestamp::of_cache_file(&file)?;
+    drop(file);
+
+    fs::rename(&temp_path, path).map_err(not_writable)?;
+    Ok(timestamp)
+}
+
+fn copy_file(from: &Path, to: &Path) -> io::Result<()> {
+    let temp_path = get_temp_path(to);
+    fs::copy(from, &temp_path)?;
+    fs::rename(temp_path, to)
+}
+
+fn get_temp_path(path: &Path) -> PathBuf {
+    let mut temp_path = path.as_os_str().to_owned();
+    temp_path.push(TEMP_FILE_EXT);
+    temp_path.into()
+}
+
 fn add_redscript_signature_def(pool: &mut ConstantPool) {
     let name = pool.names.add(REDSCRIPT_SIGNATURE_DEF.into());
     let enum_ = Enum {
diff --git a/scc/lib/src/timestamp.rs b/scc/lib/src/timestamp.rs
index 73245dd..6bb9f71 100644
--- a/scc/lib/src/timestamp.rs
+++ b/scc/lib/src/timestamp.rs
@@ -11,7 +11,7 @@ pub struct CompileTimestamp {
 
 impl CompileTimestamp {
     pub fn read<R: io::Read + io::Seek>(input: &mut R) -> io::Result<Option<Self>> {
-        if input.seek(io::SeekFrom::End(0))? == 0 {
+        if input.seek(io::SeekFrom::End(0))? < std::mem::size_of::<u128>() as u64 {
             return Ok(None);
         }
 
-- 
2.43.0


From 1d7ed7f0e14dca97879f2da080ed7cf1be6e6f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 26/32] fix: copy nothing of an error into a buffer without
 room

---
 scc/lib/src/api.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scc/lib/src/api.rs b/scc/lib/src/api.rs
index d2a712c..ded06d4 100644
--- a/scc/lib/src/api.rs
+++ b/scc/lib/src/api.rs
@@ -72,6 +72,9 @@ pub unsafe extern "C" fn scc_copy_error(output: &SccResult, buffer: *mut u8, buf
     match output {
         SccResult::Success(_) => 0,
         SccResult::Error(error) => {
+            if buffer_size == 0 {
+                return 0;
+            }
             let error = error.to_string();
             let max_len = error.len().min(buffer_size - 1);
             unsafe {
-- 
2.43.0


From ac6d38b435e656b3edb9f84bbee93e984efeb1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:14 +0000
Subject: [PATCH 27/32] fix: do not read directories with names of scripts as
 scripts

---
 compiler/src/source_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/source_map.rs b/compiler/src/source_map.rs
index 07f4be0..5706bd0 100644
--- a/compiler/src/source_map.rs
+++ b/compiler/src/source_map.rs
@@ -88,6 +88,7 @@ fn filtered_file_iter<'a>(path: &'a Path, filter: &'a SourceFilter) -> impl Iter
             .follow_links(true)
             .into_iter()
             .filter_map(Result::ok)
+            .filter(|entry| !entry.file_type().is_dir())
             .map(DirEntry::into_path)
             .filter(move |p| filter.apply(p.strip_prefix(path).unwrap()));
         Either::Right(iter)
-- 
2.43.0


From 16ece440273cad9646f7980ad0097a924f1718b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:59 +0000
Subject: [PATCH 28/32] fix: look at no file of an installation before locking
 it

---
 scc/lib/src/lib.rs | 67 +++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 178cc2f..505f6dc 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -57,12 +57,37 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
         .chain(settings.additional_script_paths.iter().cloned())
         .collect::<Vec<_>>();
 
+    let cache_dir = cache_path
+        .parent()
+        .context("Provided cache file path has no parent directory")?;
+    fs::create_dir_all(cache_dir).context("Failed to create the cache directory")?;
+
+    // the lock has to be taken before looking at any other file, since another compilation may
+    // be in the middle of changing them
+    let timestamp_path = cache_path.with_extension(TIMESTAMP_FILE_EXT);
+    let mut ts_lock = RwLock::new(
+        OpenOptions::new()
+            .read(true)
+            .write(true)
+            .create(true)
+            .truncate(false)
+            .open(&timestamp_path)
+            .context("Failed to open the timestamp file")?,
+    );
+    let mut ts_file = ts_lock
+        .write()
+        .context("Failed to acquire a write lock on the timestamp file")?;
+
+    let fallback_timestamp_path = cache_dir.join(LEGACY_TIMESTAMP_FILE_NAME);
+    if ts_file.metadata()?.len() == 0 && fallback_timestamp_path.exists() {
+        File::open(&fallback_timestamp_path)
+            .and_then(|mut file| io::copy(&mut file, &mut *ts_file))
+            .and_then(|_| fs::remove_file(&fallback_timestamp_path))
+            .context("Failed to move the legacy timestamp file")?;
+    }
+
     if !cache_path.exists() {
         let base_cache_file = get_base_bundle_path(&default_cache_dir)?;
-        let cache_dir = cache_path
-            .parent()
-            .context("Provided cache file path has no parent directory")?;
-        fs::create_dir_all(cache_dir).context("Failed to create the cache directory")?;
         copy_file(&base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
     }
 
@@ -77,7 +102,10 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
 
     let files = Files::from_dirs(&script_paths, &SourceFilter::None).context("Could not load script sources")?;
 
-    match try_compile_files(&settings.r6_dir, &cache_path, output_cache_path, files) {
+    let result = try_compile_files(&settings.r6_dir, &cache_path, output_cache_path, &mut ts_file, files);
+    drop(ts_file);
+
+    match result {
         Ok(output) => {
             log::info!("Output successfully saved to {}", output_cache_path.display());
             Ok(output)
@@ -101,43 +129,20 @@ fn try_compile_files(
     r6_dir: &Path,
     cache_path: &Path,
     output_cache_path: &Path,
+    ts_file: &mut File,
     files: Files,
 ) -> anyhow::Result<SccResult> {
     let backup_path = cache_path.with_extension(BACKUP_FILE_EXT);
-    let timestamp_path = cache_path.with_extension(TIMESTAMP_FILE_EXT);
     #[cfg(windows)]
     let is_output_file_separate = output_cache_path.normalize_virtually()? != cache_path.normalize_virtually()?;
     #[cfg(not(windows))]
     let is_output_file_separate = output_cache_path != cache_path;
 
-    let fallback_timestamp_path = cache_path
-        .parent()
-        .expect("script cache path should have a parent directory")
-        .join(LEGACY_TIMESTAMP_FILE_NAME);
-
-    if !timestamp_path.exists() && fallback_timestamp_path.exists() {
-        fs::rename(&fallback_timestamp_path, &timestamp_path).context("Failed to rename the legacy timestamp file")?;
-    }
-
-    let mut ts_lock = RwLock::new(
-        OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .truncate(false)
-            .open(&timestamp_path)
-            .context("Failed to open the timestamp file")?,
-    );
-
-    let mut ts_file = ts_lock
-        .write()
-        .context("Failed to acquire a write lock on the timestamp file")?;
-
     let write_timestamp = File::open(cache_path)
         .and_then(|f| CompileTimestamp::of_cache_file(&f))
         .context("Failed to obtain a timestamp of the cache file")?;
     let saved_timestamp =
-        CompileTimestamp::read(&mut *ts_file).context("Failed to read the existing timestamp file")?;
+        CompileTimestamp::read(ts_file).context("Failed to read the existing timestamp file")?;
 
     // the timestamp alone does not tell our own output from a file put there by the game
     let is_own_cache = saved_timestamp == Some(write_timestamp)
@@ -197,7 +202,7 @@ fn try_compile_files(
 
             add_redscript_signature_def(&mut bundle.pool);
 
-            save_bundle(&bundle, output_cache_path)?.write(&mut *ts_file)?;
+            save_bundle(&bundle, output_cache_path)?.write(ts_file)?;
 
             let output = SccOutput::new(compilation, bundle, files);
             Ok(SccResult::Success(Box::new(output)))
-- 
2.43.0


From 968478db88c7b3c833d44b196867d15b7d8b590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:30 +0000
Subject: [PATCH 29/32] fix: set up a custom cache while no compilation changes
 the default one

---
 scc/lib/src/lib.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 505f6dc..aab9713 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -65,15 +65,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
     // the lock has to be taken before looking at any other file, since another compilation may
     // be in the middle of changing them
     let timestamp_path = cache_path.with_extension(TIMESTAMP_FILE_EXT);
-    let mut ts_lock = RwLock::new(
-        OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .truncate(false)
-            .open(&timestamp_path)
-            .context("Failed to open the timestamp file")?,
-    );
+    let mut ts_lock = RwLock::new(open_timestamp_file(&timestamp_path).context("Failed to open the timestamp file")?);
     let mut ts_file = ts_lock
         .write()
         .context("Failed to acquire a write lock on the timestamp file")?;
@@ -86,6 +78,20 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
             .context("Failed to move the legacy timestamp file")?;
     }
 
+    // nor may one at the default path change what a custom one is set up from
+    let base_timestamp_path = default_cache_dir
+        .join(BUNDLE_FILE_NAME)
+        .with_extension(TIMESTAMP_FILE_EXT);
+    let base_ts_lock = open_timestamp_file(&base_timestamp_path)
+        .and_then(|file| Ok((file, base_timestamp_path.canonicalize()? != timestamp_path.canonicalize()?)))
+        .ok()
+        .and_then(|(file, is_other)| is_other.then(|| RwLock::new(file)));
+    let base_ts_guard = base_ts_lock
+        .as_ref()
+        .map(RwLock::read)
+        .transpose()
+        .context("Failed to acquire a read lock on the default timestamp file")?;
+
     if !cache_path.exists() {
         let base_cache_file = get_base_bundle_path(&default_cache_dir)?;
         copy_file(&base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
@@ -99,6 +105,7 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
         log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
         copy_file(&fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
     }
+    drop(base_ts_guard);
 
     let files = Files::from_dirs(&script_paths, &SourceFilter::None).context("Could not load script sources")?;
 
@@ -229,6 +236,15 @@ fn setup_logger(r6_dir: &Path) {
         .ok();
 }
 
+fn open_timestamp_file(path: &Path) -> io::Result<File> {
+    OpenOptions::new()
+        .read(true)
+        .write(true)
+        .create(true)
+        .truncate(false)
+        .open(path)
+}
+
 fn get_base_bundle_path(cache_dir: &Path) -> anyhow::Result<PathBuf> {
     let bk_path = cache_dir.join(BACKUP_FILE_NAME);
     let bundle_path = cache_dir.join(BUNDLE_FILE_NAME);
-- 
2.43.0


From 1975f96200cf6c4a4e4289ee74576c71ee5cad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 30/32] fix: see which switches return when checking for
 missing returns

A case without statements runs on into the next one and a break leaves the switch, neither of which
makes a path that returns, and a switch without cases never does.
---
 compiler/src/diagnostics/missing_return.rs | 28 ++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/compiler/src/diagnostics/missing_return.rs b/compiler/src/diagnostics/missing_return.rs
index 93dc751..bbe6437 100644
--- a/compiler/src/diagnostics/missing_return.rs
+++ b/compiler/src/diagnostics/missing_return.rs
@@ -21,9 +21,10 @@ fn does_always_return(expr: &TypedExpr) -> bool {
         Expr::Return(_, _) => true,
         Expr::Seq(seq) => does_seq_return(seq),
         Expr::Switch(_, cases, default, _) => {
-            let cases_return = cases.iter().all(|case| does_seq_return(&case.body));
-            let default_returns = default.as_ref().map_or(true, does_seq_return);
-            cases_return && default_returns
+            // a body that does not return falls through to the next one, unless there is a break
+            let mut bodies = cases.iter().map(|case| &case.body).chain(default);
+            let can_break = bodies.clone().any(can_seq_break);
+            !can_break && bodies.next_back().is_some_and(does_seq_return)
         }
         Expr::If(_, if_, Some(else_), _) => {
             let if_returns = does_seq_return(if_);
@@ -34,6 +35,25 @@ fn does_always_return(expr: &TypedExpr) -> bool {
     }
 }
 
+fn can_break(expr: &TypedExpr) -> bool {
+    match expr {
+        Expr::Break(_) => true,
+        Expr::Seq(seq) => can_seq_break(seq),
+        Expr::If(_, if_, else_, _) => can_seq_break(if_) || else_.as_ref().is_some_and(can_seq_break),
+        _ => false,
+    }
+}
+
+fn can_seq_break(seq: &Seq<TypedAst>) -> bool {
+    seq.exprs
+        .iter()
+        .take_while(|expr| !does_always_return(expr))
+        .any(can_break)
+}
+
 fn does_seq_return(seq: &Seq<TypedAst>) -> bool {
-    seq.exprs.iter().any(does_always_return)
+    seq.exprs
+        .iter()
+        .take_while(|expr| !matches!(expr, Expr::Break(_)))
+        .any(does_always_return)
 }
-- 
2.43.0


From 6c8187dc4ecea82dc86d585a7ec9e88ca678187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:01 +0000
Subject: [PATCH 31/32] fix: refuse escapes of characters that do not exist
 instead of panicking

---
 compiler/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser.rs b/compiler/src/parser.rs
index 4453419..d9307e9 100644
--- a/compiler/src/parser.rs
+++ b/compiler/src/parser.rs
@@ -235,8 +235,8 @@ peg::parser! {
             / r"\'" { '\'' }
             / r#"\""# { '\"' }
             / r"\\" { '\\' }
-            / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {
-                char::from_u32(u32::from_str_radix(u, 16).unwrap()).unwrap()
+            / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {?
+                char::from_u32(u32::from_str_radix(u, 16).unwrap()).ok_or("valid unicode character")
             }
 
         rule string_contents() -> String
-- 
2.43.0


From a9eb98419eda223950b98dd2052de9c062f402e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:01 +0000
Subject: [PATCH 32/32] fix: allow blanks and comments before a comma and
 behind a body

---
 compiler/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser.rs b/compiler/src/parser.rs
index d9307e9..1c01c03 100644
--- a/compiler/src/parser.rs
+++ b/compiler/src/parser.rs
@@ -165,7 +165,7 @@ peg::parser! {
 
         rule pos() -> Pos = pos:position!() { offset + pos }
         rule _() = quiet!{ ([' ' | '\n' | '\r' | '\t'] / comment() / line_comment())* }
-        rule commasep<T>(x: rule<T>) -> Vec<T> = v:(x() ** ("," _)) {v}
+        rule commasep<T>(x: rule<T>) -> Vec<T> = v:(x() ** (_ "," _)) {v}
         rule dotsep<T>(x: rule<T>) -> Vec<T> = v:(x() ** ("." _)) {v}
 
         rule comment_start() = "/*"
@@ -285,7 +285,7 @@ peg::parser! {
             { FieldSource { declaration, type_, default }}
 
         pub rule function() -> FunctionSource
-            = pos:pos() declaration:decl(<keyword("func")>) _ "(" _ parameters:commasep(<param()>) _ ")" _ type_:func_type()? _ body:function_body()? ";"? end:pos()
+            = pos:pos() declaration:decl(<keyword("func")>) _ "(" _ parameters:commasep(<param()>) _ ")" _ type_:func_type()? _ body:function_body()? (_ ";")? end:pos()
             { FunctionSource { declaration, type_, parameters, body, span: Span::new(pos, end) } }
         rule function_body() -> Seq<SourceAst>
             = "{" _ body:seq() _ "}" { body }
-- 
2.43.0

