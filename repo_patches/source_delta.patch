From a18022fea06244a3eba2a3c61c51105a247b850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 01/45] fix: convert between signed and unsigned types, and
 long to unsigned int

---
 src/middle_end/type_conversions.rs | 45 +++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 5f140c9..ffd9783 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -316,7 +316,7 @@ pub fn get_type_conversion_instrs(
     if src_type == dest_type {
         return Ok((instrs, src));
     }
-    match (src_type, dest_type) {
+    match (src_type, dest_type.to_owned()) {
         // char promotions
         (IrType::I8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
@@ -510,10 +510,9 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
-        // cast to void *
-        (IrType::I32, IrType::PointerTo(t)) if *t == IrType::Void => {
+        (IrType::I32, IrType::PointerTo(t)) => {
             let dest = prog.new_var(src.get_value_type());
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(IrType::Void)))?;
+            prog.add_var_type(dest.to_owned(), IrType::PointerTo(t))?;
             instrs.push(Instruction::I32toPtr(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -582,10 +581,9 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
-        // cast to void *
-        (IrType::U32, IrType::PointerTo(t)) if *t == IrType::Void => {
+        (IrType::U32, IrType::PointerTo(t)) => {
             let dest = prog.new_var(src.get_value_type());
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(IrType::Void)))?;
+            prog.add_var_type(dest.to_owned(), IrType::PointerTo(t))?;
             instrs.push(Instruction::U32toPtr(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -706,6 +704,39 @@ pub fn get_type_conversion_instrs(
             Ok((instrs, Src::Var(dest)))
         }
 
+        // same width, other signedness: the representation doesn't change
+        (IrType::U32, IrType::I32) | (IrType::U64, IrType::I64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), dest_type)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        // truncation to an unsigned int keeps the same low bits as to a signed int
+        (IrType::I64, IrType::U32) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::U32)?;
+            instrs.push(Instruction::I64toI32(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::U64, IrType::U32) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::U32)?;
+            instrs.push(Instruction::U64toI32(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+
         (IrType::F32, IrType::F64) => {
             let dest = prog.new_var(src.get_value_type());
             prog.add_var_type(dest.to_owned(), IrType::F64)?;
-- 
2.43.0


From 7a16067ac1e77af86282c38979db1b03129ce8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 02/45] fix: convert a returned value to the return type of the
 function

---
 src/middle_end/ast_to_ir.rs | 16 ++++++++++++++++
 src/middle_end/context.rs   |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6b59e47..a947410 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -78,6 +78,17 @@ fn convert_statement_to_ir(
             Some(expr) => {
                 let (mut expr_instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
                 instrs.append(&mut expr_instrs);
+                // the value is returned as the return type of the function
+                let expr_var = match context.function_return_type.to_owned() {
+                    Some(return_type) if return_type != IrType::Void => {
+                        let expr_type = expr_var.get_type(&prog.program_metadata)?;
+                        let (mut convert_instrs, converted_var) =
+                            convert_type_for_assignment(expr_var, expr_type, return_type, prog)?;
+                        instrs.append(&mut convert_instrs);
+                        converted_var
+                    }
+                    _ => expr_var,
+                };
                 instrs.push(Instruction::Ret(prog.new_instr_id(), Some(expr_var)));
             }
         },
@@ -682,7 +693,12 @@ fn convert_statement_to_ir(
             let fun_id = prog.new_fun_body(name.to_owned(), fun_declaration)?;
             context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
+            context.function_return_type = match &type_info {
+                IrType::Function(return_type, _, _) => Some(*return_type.to_owned()),
+                _ => None,
+            };
             let instrs = convert_statement_to_ir(*body, prog, context)?;
+            context.function_return_type = None;
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 364dd08..b1d31ca 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -15,6 +15,8 @@ pub struct Context {
     pub in_function_name_expr: bool,
     function_names: HashMap<String, FunId>,
     pub directly_on_lhs_of_assignment: bool,
+    /// return type of the function whose body is currently being converted
+    pub function_return_type: Option<IrType>,
 }
 
 pub enum IdentifierResolveResult {
@@ -30,6 +32,7 @@ impl Context {
             in_function_name_expr: false,
             function_names: HashMap::new(),
             directly_on_lhs_of_assignment: false,
+            function_return_type: None,
         }
     }
 
-- 
2.43.0


From 46114721a7b9862cc0fcba8c7b6f71a1bbf9c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 03/45] fix: an integer constant has the first of int, unsigned
 int, long, unsigned long that can hold it

---
 src/middle_end/instructions.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index dc5bfdd..a3c273d 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -27,10 +27,10 @@ impl Constant {
                     -128..=127 => IrType::I8,
                     0..=65_535 => IrType::U16,
                     -32_768..=32_767 => IrType::I16,
-                    0..=4_294_967_296 => IrType::U32,
                     -2_147_483_648..=2_147_483_647 => IrType::I32,
-                    0..=18_446_744_073_709_551_615 => IrType::U64,
-                    _ => IrType::I64,
+                    0..=4_294_967_295 => IrType::U32,
+                    -9_223_372_036_854_775_808..=9_223_372_036_854_775_807 => IrType::I64,
+                    _ => IrType::U64,
                 }
             }
             Constant::Float(_) => IrType::F64,
@@ -40,10 +40,10 @@ impl Constant {
     pub fn get_type_minimum_i32(&self) -> IrType {
         match self {
             Constant::Int(i) => match i {
-                0..=4_294_967_296 => IrType::U32,
                 -2_147_483_648..=2_147_483_647 => IrType::I32,
-                0..=18_446_744_073_709_551_615 => IrType::U64,
-                _ => IrType::I64,
+                0..=4_294_967_295 => IrType::U32,
+                -9_223_372_036_854_775_808..=9_223_372_036_854_775_807 => IrType::I64,
+                _ => IrType::U64,
             },
             Constant::Float(_) => IrType::F64,
         }
-- 
2.43.0


From d4cdf7ce0b78d9235846843200424b5c82472cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:52 +0000
Subject: [PATCH 04/45] fix: convert function arguments to the parameter types,
 promote variadic arguments

---
 runtime/stdlib/stdio.mjs           | 10 ++++-----
 src/middle_end/ast_to_ir.rs        | 17 +++++++++++----
 src/middle_end/type_conversions.rs | 33 ++++++++++++++++++++++++++++--
 3 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 19b5029..bf1bc88 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -1,9 +1,7 @@
 import {
     F64_SIZE,
-    I16_SIZE,
     I32_SIZE,
     I64_SIZE,
-    I8_SIZE,
     PTR_SIZE,
 } from "../memory_constants.mjs";
 import {
@@ -74,7 +72,8 @@ export function printf(wasm_memory) {
                             if (c != "i" && c != "d" && c != "u") {
                                 console.log("Error: invalid format specifier to printf");
                             }
-                            value = next_vararg_int(I16_SIZE);
+                            // passed as an int because of the default argument promotions
+                            value = BigInt.asIntN(16, next_vararg_int(I32_SIZE));
                             if (c === "u") {
                                 value = signed_to_unsigned_i16(value);
                             }
@@ -96,8 +95,9 @@ export function printf(wasm_memory) {
                             break;
                         case "c":
                             // char
-                            value = next_vararg_int(I8_SIZE);
-                            value = String.fromCharCode(value);
+                            // passed as an int because of the default argument promotions
+                            value = BigInt.asUintN(8, next_vararg_int(I32_SIZE));
+                            value = String.fromCharCode(Number(value));
                             break;
                         case "s":
                             // string
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a947410..30dabee 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -17,8 +17,8 @@ use crate::middle_end::ir::{Function, Program};
 use crate::middle_end::ir_types::{array_to_pointer_type, IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
 use crate::middle_end::type_conversions::{
-    binary_convert, binary_convert_separately, convert_type_for_assignment,
-    get_type_conversion_instrs, unary_convert,
+    binary_convert, binary_convert_separately, convert_argument_type,
+    convert_type_for_assignment, get_type_conversion_instrs, unary_convert,
 };
 
 pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
@@ -862,12 +862,21 @@ pub fn convert_expression_to_ir(
             // must be a function name to be able to be called
             let fun_id = fun_var.require_function_id()?;
             let dest_type = fun_var.get_function_return_type(prog)?;
+            let param_types = match fun_var.get_type(&prog.program_metadata)? {
+                IrType::Function(_, param_types, _) => param_types,
+                _ => Vec::new(),
+            };
 
             let mut param_srcs: Vec<Src> = Vec::new();
-            for param in params {
+            for (param_index, param) in params.into_iter().enumerate() {
                 let (mut param_instrs, param_var) = convert_expression_to_ir(param, prog, context)?;
-                // todo function parameter passing type conversions
                 instrs.append(&mut param_instrs);
+                let (mut convert_instrs, param_var) = convert_argument_type(
+                    param_var,
+                    param_types.get(param_index).map(|t| t.to_owned()),
+                    prog,
+                )?;
+                instrs.append(&mut convert_instrs);
                 param_srcs.push(param_var);
             }
             let dest = prog.new_var(ValueType::RValue);
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index ffd9783..7ede713 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -1,8 +1,8 @@
 use log::trace;
 
-use crate::middle_end::instructions::{Instruction, Src};
+use crate::middle_end::instructions::{Constant, Instruction, Src};
 use crate::middle_end::ir::Program;
-use crate::middle_end::ir_types::IrType;
+use crate::middle_end::ir_types::{array_to_pointer_type, IrType};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 pub fn unary_convert(
@@ -305,6 +305,35 @@ pub fn convert_type_for_assignment(
     Ok((convert_instrs, converted_var))
 }
 
+/// Convert a function argument to the type of the parameter it is passed to, or do the
+/// default argument promotions if there is no such parameter (eg. variadic arguments).
+pub fn convert_argument_type(
+    src: Src,
+    param_type: Option<IrType>,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let src_type = src.get_type(&prog.program_metadata)?;
+    let dest_type = match param_type {
+        Some(param_type) => array_to_pointer_type(param_type),
+        None if src_type == IrType::F32 => IrType::F64,
+        None => src_type.unary_convert(),
+    };
+    if let Src::Constant(constant) = &src {
+        // the constant gets stored directly as the type of the parameter
+        if param_type_can_store_constant(constant, &dest_type) {
+            return Ok((Vec::new(), src));
+        }
+    }
+    get_type_conversion_instrs(src, src_type, dest_type, prog)
+}
+
+fn param_type_can_store_constant(constant: &Constant, param_type: &IrType) -> bool {
+    match constant {
+        Constant::Int(_) => param_type.is_integral_type() || param_type.is_pointer_type(),
+        Constant::Float(_) => *param_type == IrType::F64,
+    }
+}
+
 pub fn get_type_conversion_instrs(
     src: Src,
     src_type: IrType,
-- 
2.43.0


From 3d028eb45bad19e210eab99925b5c98b7d6a0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 05/45] fix: widen a signed char or short with its sign when
 converting to an unsigned or floating type

---
 src/middle_end/type_conversions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 7ede713..6a3dcff 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -350,7 +350,7 @@ pub fn get_type_conversion_instrs(
         (IrType::I8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
             let intermediate_type;
-            if dest_type.is_signed_integral() {
+            if dest_type != IrType::U16 {
                 instrs.push(Instruction::I8toI16(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
@@ -414,7 +414,7 @@ pub fn get_type_conversion_instrs(
         (IrType::I16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
             let intermediate_type;
-            if dest_type.is_signed_integral() {
+            if dest_type != IrType::U32 {
                 instrs.push(Instruction::I16toI32(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
-- 
2.43.0


From acca3d8b2d0ffc8a9fc809330b79bc99b8d586be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 06/45] fix: printf writes the bytes of its string, not their
 UTF-8 encoding

---
 runtime/stdlib/stdio.mjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index bf1bc88..3837e47 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -118,7 +118,7 @@ export function printf(wasm_memory) {
             c = next_char();
         }
 
-        process.stdout.write(str); // only works in node.js, use console.log otherwise, but that prints newline
+        process.stdout.write(str, "latin1"); // each char is one byte; only works in node.js, use console.log otherwise, but that prints newline
 
         // write return value
         store_int(fp + PTR_SIZE, I32_SIZE, 0n, memory);
-- 
2.43.0


From ae790c6eb14112bb4255fe16138fe26b0deaa650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 07/45] fix: f32.const has a 4-byte immediate

---
 src/back_end/float_encoding.rs    | 4 ++++
 src/back_end/wasm_instructions.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/back_end/float_encoding.rs b/src/back_end/float_encoding.rs
index a42cfe9..81edab6 100644
--- a/src/back_end/float_encoding.rs
+++ b/src/back_end/float_encoding.rs
@@ -1,3 +1,7 @@
 pub fn encode_float(value: f64) -> Vec<u8> {
     value.to_le_bytes().to_vec()
 }
+
+pub fn encode_float32(value: f32) -> Vec<u8> {
+    value.to_le_bytes().to_vec()
+}
diff --git a/src/back_end/wasm_instructions.rs b/src/back_end/wasm_instructions.rs
index 91f1d49..3608500 100644
--- a/src/back_end/wasm_instructions.rs
+++ b/src/back_end/wasm_instructions.rs
@@ -1,4 +1,4 @@
-use crate::back_end::float_encoding::encode_float;
+use crate::back_end::float_encoding::{encode_float, encode_float32};
 use crate::back_end::integer_encoding::{encode_signed_int, encode_unsigned_int};
 use crate::back_end::to_bytes::ToBytes;
 use crate::back_end::vector_encoding::encode_vector;
@@ -745,7 +745,7 @@ impl ToBytes for WasmInstruction {
             }
             WasmInstruction::F32Const { z } => {
                 let mut bytes = vec![0x43];
-                bytes.append(&mut encode_float(*z as f64));
+                bytes.append(&mut encode_float32(*z));
                 bytes
             }
             WasmInstruction::F64Const { z } => {
-- 
2.43.0


From d23b11c8b8cbdf3f265598b24a384f1c9e01d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 08/45] fix: logical operators on long and double operands

---
 src/back_end/target_code_generation.rs | 66 +++++++-------------------
 src/middle_end/ast_to_ir.rs            |  4 +-
 2 files changed, 19 insertions(+), 51 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 887ba25..9f63e23 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -635,12 +635,12 @@ fn convert_ir_instr_to_wasm(
             // logical not is implemented as a test-for-zero and set
             //
             // load src
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let src_type = src.get_type(prog_metadata).unwrap();
 
             let mut temp_instrs = Vec::new();
             load_src(
                 src,
-                dest_type.to_owned(),
+                src_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
@@ -648,7 +648,7 @@ fn convert_ir_instr_to_wasm(
 
             // logical not
             // test if src is zero
-            match dest_type {
+            match src_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1205,16 +1205,17 @@ fn convert_ir_instr_to_wasm(
             //   bitwise AND
             let mut temp_instrs = Vec::new();
             // load srcs onto wasm stack
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let left_type = left_src.get_type(prog_metadata).unwrap();
+            let right_type = right_src.get_type(prog_metadata).unwrap();
             load_src(
                 left_src,
-                dest_type.to_owned(),
+                left_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it left_src is zero
-            match dest_type {
+            match left_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1249,13 +1250,13 @@ fn convert_ir_instr_to_wasm(
 
             load_src(
                 right_src,
-                dest_type.to_owned(),
+                right_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it right_src is zero
-            match dest_type {
+            match right_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1289,24 +1290,7 @@ fn convert_ir_instr_to_wasm(
             });
 
             // bitwise AND
-            match dest_type {
-                IrType::I8
-                | IrType::U8
-                | IrType::I16
-                | IrType::U16
-                | IrType::I32
-                | IrType::U32
-                | IrType::PointerTo(_)
-                | IrType::ArrayOf(_, _) => {
-                    temp_instrs.push(WasmInstruction::I32And);
-                }
-                IrType::I64 | IrType::U64 => {
-                    temp_instrs.push(WasmInstruction::I64And);
-                }
-                _ => {
-                    unreachable!()
-                }
-            }
+            temp_instrs.push(WasmInstruction::I32And);
 
             // store to dest
             store_var(
@@ -1324,17 +1308,18 @@ fn convert_ir_instr_to_wasm(
             //   bitwise OR
             let mut temp_instrs = Vec::new();
             // load srcs onto wasm stack
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let left_type = left_src.get_type(prog_metadata).unwrap();
+            let right_type = right_src.get_type(prog_metadata).unwrap();
 
             load_src(
                 left_src,
-                dest_type.to_owned(),
+                left_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it left_src is zero
-            match dest_type {
+            match left_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1369,13 +1354,13 @@ fn convert_ir_instr_to_wasm(
 
             load_src(
                 right_src,
-                dest_type.to_owned(),
+                right_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it right_src is zero
-            match dest_type {
+            match right_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1409,24 +1394,7 @@ fn convert_ir_instr_to_wasm(
             });
 
             // bitwise OR
-            match dest_type {
-                IrType::I8
-                | IrType::U8
-                | IrType::I16
-                | IrType::U16
-                | IrType::I32
-                | IrType::U32
-                | IrType::PointerTo(_)
-                | IrType::ArrayOf(_, _) => {
-                    temp_instrs.push(WasmInstruction::I32Or);
-                }
-                IrType::I64 | IrType::U64 => {
-                    temp_instrs.push(WasmInstruction::I64Or);
-                }
-                _ => {
-                    unreachable!()
-                }
-            }
+            temp_instrs.push(WasmInstruction::I32Or);
 
             // store to dest
             store_var(
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 30dabee..a620e18 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1516,8 +1516,8 @@ pub fn convert_expression_to_ir(
                             "Logical not of a non-scalar type",
                         ));
                     }
-                    // dest type is same as src
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
+                    // result is always int 0 or 1
+                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 _ => unreachable!("other cases handled separately"),
-- 
2.43.0


From a799ceb9ddb73960282d85a0c589a8e5a4a65aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 09/45] fix: && and || do not evaluate the right operand when
 the left one decides

---
 src/middle_end/ast_to_ir.rs | 83 +++++++++++++++++++++++++++++++++++++
 1 file changed, 83 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a620e18..b428885 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -715,6 +715,76 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// Logical AND and OR only evaluate their right operand if the left operand doesn't
+/// determine the result
+fn convert_short_circuit_operator_to_ir(
+    op: BinaryOperator,
+    left: Src,
+    mut right_instrs: Vec<Instruction>,
+    right: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let mut instrs: Vec<Instruction> = Vec::new();
+    left.get_type(&prog.program_metadata)?
+        .require_scalar_type()?;
+    right
+        .get_type(&prog.program_metadata)?
+        .require_scalar_type()?;
+    let end_label = prog.new_label();
+    let zero = Src::Constant(Constant::Int(0));
+    let not_left = prog.new_var(ValueType::RValue);
+    prog.add_var_type(not_left.to_owned(), IrType::I32)?;
+    let not_right = prog.new_var(ValueType::RValue);
+    prog.add_var_type(not_right.to_owned(), IrType::I32)?;
+    // result is always int 0 or 1
+    let dest = prog.new_var(ValueType::RValue);
+    prog.add_var_type(dest.to_owned(), IrType::I32)?;
+
+    instrs.push(Instruction::LogicalNot(
+        prog.new_instr_id(),
+        not_left.to_owned(),
+        left,
+    ));
+    if let BinaryOperator::LogicalAnd = op {
+        instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            Src::Constant(Constant::Int(0)),
+        ));
+        instrs.push(Instruction::BrIfNotEq(
+            prog.new_instr_id(),
+            Src::Var(not_left),
+            zero,
+            end_label.to_owned(),
+        ));
+    } else {
+        instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            Src::Constant(Constant::Int(1)),
+        ));
+        instrs.push(Instruction::BrIfEq(
+            prog.new_instr_id(),
+            Src::Var(not_left),
+            zero,
+            end_label.to_owned(),
+        ));
+    }
+    instrs.append(&mut right_instrs);
+    instrs.push(Instruction::LogicalNot(
+        prog.new_instr_id(),
+        not_right.to_owned(),
+        right,
+    ));
+    instrs.push(Instruction::LogicalNot(
+        prog.new_instr_id(),
+        dest.to_owned(),
+        Src::Var(not_right),
+    ));
+    instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
+    Ok((instrs, Src::Var(dest)))
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -1583,6 +1653,19 @@ pub fn convert_expression_to_ir(
             let (mut left_instrs, left_var) = convert_expression_to_ir(*left, prog, context)?;
             instrs.append(&mut left_instrs);
             let (mut right_instrs, right_var) = convert_expression_to_ir(*right, prog, context)?;
+            if !right_instrs.is_empty()
+                && matches!(op, BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr)
+            {
+                let (mut logical_instrs, dest) = convert_short_circuit_operator_to_ir(
+                    op,
+                    left_var,
+                    right_instrs,
+                    right_var,
+                    prog,
+                )?;
+                instrs.append(&mut logical_instrs);
+                return Ok((instrs, dest));
+            }
             instrs.append(&mut right_instrs);
             let dest = prog.new_var(ValueType::RValue);
             let left_var_type = left_var.get_type(&prog.program_metadata)?;
-- 
2.43.0


From f54ae630d8939d7cd65f51ba0cf1e28dba742aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 10/45] fix: the operands of a shift are promoted separately

---
 src/middle_end/ast_to_ir.rs        |  6 +++---
 src/middle_end/type_conversions.rs | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index b428885..d122086 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -18,7 +18,7 @@ use crate::middle_end::ir_types::{array_to_pointer_type, IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
 use crate::middle_end::type_conversions::{
     binary_convert, binary_convert_separately, convert_argument_type,
-    convert_type_for_assignment, get_type_conversion_instrs, unary_convert,
+    convert_type_for_assignment, get_type_conversion_instrs, shift_convert, unary_convert,
 };
 
 pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
@@ -1852,7 +1852,7 @@ pub fn convert_expression_to_ir(
                 }
                 BinaryOperator::LeftShift => {
                     let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
+                        shift_convert(left_var, right_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
                     let right_var_type = right_var.get_type(&prog.program_metadata)?;
@@ -1868,7 +1868,7 @@ pub fn convert_expression_to_ir(
                 }
                 BinaryOperator::RightShift => {
                     let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
+                        shift_convert(left_var, right_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
                     let right_var_type = right_var.get_type(&prog.program_metadata)?;
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 6a3dcff..2b8a94c 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -293,6 +293,23 @@ pub fn binary_convert_separately(
     unreachable!("No other possible combinations of types left");
 }
 
+/// The operands of a shift are promoted separately, and the result has the type of the
+/// left operand. The shift count is converted to that type too, for code generation.
+pub fn shift_convert(
+    left: Src,
+    right: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src, Src), MiddleEndError> {
+    let (mut instrs, left) = unary_convert(left, prog)?;
+    let left_type = left.get_type(&prog.program_metadata)?;
+    left_type.require_integral_type()?;
+    let right_type = right.get_type(&prog.program_metadata)?;
+    right_type.require_integral_type()?;
+    let (mut right_instrs, right) = get_type_conversion_instrs(right, right_type, left_type, prog)?;
+    instrs.append(&mut right_instrs);
+    Ok((instrs, left, right))
+}
+
 pub fn convert_type_for_assignment(
     src: Src,
     src_type: IrType,
-- 
2.43.0


From 1c2612f1b95e61277dc6f8f2d0299199011e05f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 11/45] fix: unary minus of an unsigned or floating operand has
 the type of the operand

---
 src/middle_end/ast_to_ir.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d122086..3c044bd 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1526,10 +1526,14 @@ pub fn convert_expression_to_ir(
                 // }
                 UnaryOperator::Plus => {
                     let dest = prog.new_var(ValueType::RValue);
+                    let zero = match expr_var_type {
+                        IrType::F32 | IrType::F64 => Src::Constant(Constant::Float(-0.)),
+                        _ => Src::Constant(Constant::Int(0)),
+                    };
                     instrs.push(Instruction::Add(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
+                        zero,
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
@@ -1543,10 +1547,23 @@ pub fn convert_expression_to_ir(
                 }
                 UnaryOperator::Minus => {
                     let dest = prog.new_var(ValueType::RValue);
+                    // negating a floating zero gives the zero of the other sign
+                    let zero = match expr_var_type {
+                        IrType::F32 | IrType::F64 => Src::Constant(Constant::Float(-0.)),
+                        _ => Src::Constant(Constant::Int(0)),
+                    };
+                    // type of dest is same as type of src, except that a decimal constant
+                    // too large for an int is a long
+                    let dest_type = match expr_var {
+                        Src::Constant(_) if expr_var_type.is_integral_type() => {
+                            expr_var_type.smallest_signed_equivalent()?
+                        }
+                        _ => expr_var_type.to_owned(),
+                    };
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
+                        zero,
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
@@ -1554,7 +1571,6 @@ pub fn convert_expression_to_ir(
                             "Unary minus of a non-arithmetic type",
                         ));
                     }
-                    let dest_type = expr_var_type.smallest_signed_equivalent()?;
                     prog.add_var_type(dest.to_owned(), dest_type)?;
                     Ok((instrs, Src::Var(dest)))
                 }
-- 
2.43.0


From b554273777d1648d35f4582b0ed81e6adbeae09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 12/45] fix: assignments in functions to global variables store
 to the global

---
 .../dataflow_analysis/dead_code_analysis.rs         | 13 ++++++++++++-
 src/back_end/stack_allocation/allocate_vars.rs      |  3 +++
 src/back_end/stack_allocation/naive_allocation.rs   |  3 +++
 .../stack_allocation/optimised_allocation.rs        |  5 ++++-
 src/back_end/target_code_generation.rs              |  1 +
 5 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 699fa22..f0a4989 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -5,11 +5,16 @@ use log::debug;
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
+use crate::back_end::stack_allocation::allocate_vars::VariableAllocationMap;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
 
-pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata) -> Flowgraph {
+pub fn remove_dead_vars(
+    block: &mut Block,
+    global_var_addrs: &VariableAllocationMap,
+    prog_metadata: &mut ProgramMetadata,
+) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
     let mut changes = true;
@@ -30,6 +35,12 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
 
             let mut at_least_one_def_is_live = false;
             for def_var in defs {
+                // global vars can be read by other functions
+                if global_var_addrs.contains_key(&def_var) {
+                    at_least_one_def_is_live = true;
+                    break;
+                }
+
                 // if none of the defined vars are live at any of the successors of this instr,
                 // the instr is dead
 
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7832453..7e5c2e5 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -20,6 +20,7 @@ pub fn allocate_local_vars(
     wasm_instrs: &mut Vec<WasmInstruction>,
     fun_type: IrType,
     fun_param_var_mappings: Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
     enabled_optimisations: &EnabledOptimisations,
@@ -59,6 +60,7 @@ pub fn allocate_local_vars(
         optimised_allocate_local_vars(
             block,
             &fun_param_var_mappings,
+            global_var_addrs,
             offset,
             var_offsets,
             wasm_instrs,
@@ -69,6 +71,7 @@ pub fn allocate_local_vars(
         naive_allocate_local_vars(
             block,
             &fun_param_var_mappings,
+            global_var_addrs,
             offset,
             var_offsets,
             wasm_instrs,
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index 4e86782..b25ca36 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -13,6 +13,7 @@ use crate::relooper::blocks::Block;
 pub fn naive_allocate_local_vars(
     block: &Block,
     param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     start_offset: u32,
     mut var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
@@ -25,6 +26,8 @@ pub fn naive_allocate_local_vars(
     for param_var in param_vars_not_to_allocate_again {
         vars.remove(param_var);
     }
+    // global vars already have an address, they aren't part of the stack frame
+    vars.retain(|var, _| !global_var_addrs.contains_key(var));
 
     let mut offset = 0;
 
diff --git a/src/back_end/stack_allocation/optimised_allocation.rs b/src/back_end/stack_allocation/optimised_allocation.rs
index 4ff43a9..299f7c6 100644
--- a/src/back_end/stack_allocation/optimised_allocation.rs
+++ b/src/back_end/stack_allocation/optimised_allocation.rs
@@ -22,13 +22,14 @@ type VarAllocationStack = Vec<VarAndByteSizePair>;
 pub fn optimised_allocate_local_vars(
     block: &mut Block,
     param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     start_offset: u32,
     var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
 ) -> VariableAllocationMap {
-    remove_dead_vars(block, prog_metadata);
+    remove_dead_vars(block, global_var_addrs, prog_metadata);
 
     debug!("removed dead vars: {}", block);
 
@@ -42,6 +43,8 @@ pub fn optimised_allocate_local_vars(
     for param_var in param_vars_not_to_allocate_again {
         vars_to_allocate.remove(param_var);
     }
+    // global vars already have an address, they aren't part of the stack frame
+    vars_to_allocate.retain(|var, _| !global_var_addrs.contains_key(var));
 
     // pop vars from clash graph onto a stack
     let mut var_allocation_stack: VarAllocationStack = Vec::new();
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 9f63e23..b21f874 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -262,6 +262,7 @@ pub fn generate_target_code(
                 &mut function_wasm_instrs,
                 function.type_info,
                 function.param_var_mappings,
+                &global_var_addrs,
                 &module_context,
                 &mut prog.program_metadata,
                 enabled_optimisations,
-- 
2.43.0


From bf0e41a435b53e95cea6e5f5f470cc7d502b9125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 13/45] fix: program arguments don't overlap the global
 variables

---
 src/back_end/initialise_memory.rs             | 22 ++++++++++++++-----
 .../stack_allocation/allocate_vars.rs         | 12 ++--------
 .../stack_allocation/naive_allocation.rs      | 12 +++-------
 src/back_end/target_code_generation.rs        |  8 +++----
 4 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 5c209bb..4e0c0db 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -18,7 +18,7 @@ pub fn initialise_memory(
     prog_metadata: &ProgramMetadata,
 ) -> u32 {
     // ----------------------------------------------------------
-    // | FP | temp FP | SP | String literals | ...stack frames...
+    // | FP | temp FP | SP | String literals | global vars | ...program args, stack frames...
     // ----------------------------------------------------------
     // initialise with placeholder values for frame ptr and stack ptr
     let mut data: Vec<u8> = vec![0x00; (3 * PTR_SIZE) as usize];
@@ -43,10 +43,7 @@ pub fn initialise_memory(
     // set stack ptr to point at top of stack
     let stack_ptr_value = data.len();
     info!("Setting stack ptr to {}", stack_ptr_value);
-    data[STACK_PTR_ADDR as usize] = (stack_ptr_value & 0xFF) as u8;
-    data[(STACK_PTR_ADDR + 1) as usize] = ((stack_ptr_value >> 8) & 0xFF) as u8;
-    data[(STACK_PTR_ADDR + 2) as usize] = ((stack_ptr_value >> 16) & 0xFF) as u8;
-    data[(STACK_PTR_ADDR + 3) as usize] = ((stack_ptr_value >> 24) & 0xFF) as u8;
+    store_initial_stack_ptr(&mut data, stack_ptr_value as u32);
 
     // insert data segment to module
     let data_segment = DataSegment::ActiveSegmentMemIndexZero {
@@ -71,3 +68,18 @@ pub fn initialise_memory(
 
     stack_ptr_value as u32
 }
+
+fn store_initial_stack_ptr(data: &mut [u8], stack_ptr_value: u32) {
+    let addr = STACK_PTR_ADDR as usize;
+    data[addr..addr + PTR_SIZE as usize].copy_from_slice(&stack_ptr_value.to_le_bytes());
+}
+
+/// Reserve the space of the global vars. The runtime puts the program arguments at the initial
+/// top of the stack before any of our code runs, so they have to come after the global vars.
+pub fn reserve_global_vars(wasm_module: &mut WasmModule, stack_ptr_value: u32) {
+    if let Some(DataSegment::ActiveSegmentMemIndexZero { data, .. }) =
+        wasm_module.data_section.data_segments.first_mut()
+    {
+        store_initial_stack_ptr(data, stack_ptr_value);
+    }
+}
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7e5c2e5..d34292d 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -84,15 +84,7 @@ pub fn allocate_local_vars(
 pub fn allocate_global_vars(
     block: &Block,
     initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
-    naive_allocate_global_vars(
-        block,
-        initial_top_of_stack_addr,
-        wasm_instrs,
-        module_context,
-        prog_metadata,
-    )
+) -> (VariableAllocationMap, u32) {
+    naive_allocate_global_vars(block, initial_top_of_stack_addr, prog_metadata)
 }
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index b25ca36..a17e35d 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -55,16 +55,12 @@ pub fn naive_allocate_local_vars(
 pub fn naive_allocate_global_vars(
     block: &Block,
     initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
+) -> (VariableAllocationMap, u32) {
     let global_vars = get_vars_from_block(block, prog_metadata);
 
     let mut var_addrs = HashMap::new();
     let mut addr = initial_top_of_stack_addr;
-    // how much to increment the stack pointer by when we've allocated all vars
-    let mut stack_ptr_increment = 0;
 
     // calculate addr of each global var
     for (var_id, var_type) in global_vars {
@@ -76,10 +72,8 @@ pub fn naive_allocate_global_vars(
         };
         var_addrs.insert(var_id, addr);
         addr += byte_size as u32;
-        stack_ptr_increment += byte_size as u32;
     }
 
-    increment_stack_ptr_by_known_offset(stack_ptr_increment, wasm_instrs, module_context);
-
-    var_addrs
+    // also the address of the end of the global vars
+    (var_addrs, addr)
 }
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index b21f874..f43e98d 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, VecDeque};
 use log::{debug, info};
 
 use crate::back_end::backend_error::BackendError;
-use crate::back_end::initialise_memory::initialise_memory;
+use crate::back_end::initialise_memory::{initialise_memory, reserve_global_vars};
 use crate::back_end::memory_constants::PTR_SIZE;
 use crate::back_end::memory_operations::{
     load, load_constant, load_src, load_var, load_var_address, store, store_var,
@@ -101,13 +101,13 @@ pub fn generate_target_code(
 
     let mut global_var_addrs = HashMap::new();
     if let Some(global_block) = prog.program_blocks.global_instrs {
-        global_var_addrs = allocate_global_vars(
+        let end_of_global_vars_addr;
+        (global_var_addrs, end_of_global_vars_addr) = allocate_global_vars(
             &global_block,
             initial_top_of_stack_addr,
-            &mut global_wasm_instrs,
-            &module_context,
             &prog.program_metadata,
         );
+        reserve_global_vars(&mut wasm_module, end_of_global_vars_addr);
 
         // let var_offsets = allocate_local_vars(
         //     &global_block,
-- 
2.43.0


From 3606d560f922db4b65ffefcdca6411d6fed1cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 14/45] fix: remove dead variables until there are none left

---
 .../dataflow_analysis/dead_code_analysis.rs     |  2 ++
 src/back_end/dataflow_analysis/flowgraph.rs     | 17 +++++++++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index f0a4989..09492c3 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -86,6 +86,8 @@ pub fn remove_dead_vars(
         }
 
         for instr_id in remove_instrs {
+            // there may be more vars now that are dead
+            changes = true;
             flowgraph.remove_instr(&instr_id);
             block.remove_instr(&instr_id);
         }
diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index de93829..482e9ba 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -58,16 +58,17 @@ impl Flowgraph {
         predecessors.remove(instr_id);
 
         self.instrs.remove(instr_id);
-        self.successors.remove(instr_id);
-        self.predecessors.remove(instr_id);
 
-        for successor_id in self.successors.keys() {
-            self.predecessors
-                .insert(successor_id.to_owned(), predecessors.to_owned());
+        // link each predecessor directly to each successor
+        for successor_id in &successors {
+            let successor_predecessors = self.predecessors.get_mut(successor_id).unwrap();
+            successor_predecessors.remove(instr_id);
+            successor_predecessors.extend(predecessors.to_owned());
         }
-        for predecessor_id in self.predecessors.keys() {
-            self.successors
-                .insert(predecessor_id.to_owned(), successors.to_owned());
+        for predecessor_id in &predecessors {
+            let predecessor_successors = self.successors.get_mut(predecessor_id).unwrap();
+            predecessor_successors.remove(instr_id);
+            predecessor_successors.extend(successors.to_owned());
         }
 
         if self.entries.contains(instr_id) {
-- 
2.43.0


From b3af6b21eae36019bccdaf8ab70da0bb97890c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 15/45] fix: stores to variables that have their address taken
 are not dead

---
 src/back_end/dataflow_analysis/dead_code_analysis.rs |  8 ++++++--
 src/back_end/dataflow_analysis/flowgraph.rs          | 12 +++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 09492c3..6ff009d 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -17,6 +17,8 @@ pub fn remove_dead_vars(
 ) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
+    let address_taken_vars = flowgraph.get_address_taken_vars();
+
     let mut changes = true;
     while changes {
         changes = false;
@@ -35,8 +37,10 @@ pub fn remove_dead_vars(
 
             let mut at_least_one_def_is_live = false;
             for def_var in defs {
-                // global vars can be read by other functions
-                if global_var_addrs.contains_key(&def_var) {
+                // global vars can be read by other functions, and vars that have their
+                // address taken can be read through a pointer
+                if global_var_addrs.contains_key(&def_var) || address_taken_vars.contains(&def_var)
+                {
                     at_least_one_def_is_live = true;
                     break;
                 }
diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index 482e9ba..bda8e04 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashMap, HashSet};
 
-use crate::middle_end::ids::InstructionId;
+use crate::middle_end::ids::{InstructionId, VarId};
 use crate::middle_end::instructions::Instruction;
 use crate::relooper::blocks::Block;
 
@@ -46,6 +46,16 @@ impl Flowgraph {
             .insert(instr_id);
     }
 
+    pub fn get_address_taken_vars(&self) -> HashSet<VarId> {
+        self.instrs
+            .values()
+            .filter_map(|instr| match instr {
+                Instruction::AddressOf(_, _, src) => src.unwrap_var().ok(),
+                _ => None,
+            })
+            .collect()
+    }
+
     pub fn remove_instr(&mut self, instr_id: &InstructionId) {
         // if instr not in flowgraph, nothing to do
         if !self.instrs.contains_key(instr_id) {
-- 
2.43.0


From 0bffcb2e5d6bb0d3976a949fc4d2537b5504dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 16/45] fix: ++ and -- on char, short, pointer and double
 operands

---
 src/middle_end/ast_to_ir.rs | 46 ++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3c044bd..ae3e7fa 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -715,6 +715,20 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// How much ++ adds to, or -- subtracts from, a value of the given type
+fn get_increment_step(value_type: &IrType, prog: &Program) -> Result<Src, MiddleEndError> {
+    let step = match value_type {
+        IrType::F32 | IrType::F64 => Constant::Float(1.),
+        IrType::PointerTo(_) => Constant::Int(
+            value_type
+                .get_pointer_object_byte_size(&prog.program_metadata)?
+                .get_compile_time_value()? as i128,
+        ),
+        _ => Constant::Int(1),
+    };
+    Ok(Src::Constant(step))
+}
+
 /// Logical AND and OR only evaluate their right operand if the left operand doesn't
 /// determine the result
 fn convert_short_circuit_operator_to_ir(
@@ -1107,8 +1121,6 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut expr_instrs);
             let dest = prog.new_var(ValueType::RValue);
             // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             // check type is valid to be incremented
             if !expr_var_type.is_scalar_type() {
@@ -1118,6 +1130,7 @@ pub fn convert_expression_to_ir(
             }
             match expr_var {
                 Src::Var(var) => {
+                    let step = get_increment_step(&expr_var_type, prog)?;
                     // the returned value is the variable before incrementing
                     prog.add_var_type(dest.to_owned(), expr_var_type)?;
                     instrs.push(Instruction::SimpleAssignment(
@@ -1130,10 +1143,11 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         var.to_owned(),
                         Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
+                        step,
                     ));
                 }
                 Src::StoreAddressVar(var) => {
+                    let step = get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
                     // load value to increment
                     let src_to_increment = prog.new_var(ValueType::RValue);
                     prog.add_var_type(
@@ -1164,7 +1178,7 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         result.to_owned(),
                         Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
+                        step,
                     ));
 
                     // store value back
@@ -1185,8 +1199,6 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut expr_instrs);
             let dest = prog.new_var(ValueType::RValue);
             // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             // check type is valid to be incremented
             if !expr_var_type.is_scalar_type() {
@@ -1196,6 +1208,7 @@ pub fn convert_expression_to_ir(
             }
             match expr_var {
                 Src::Var(var) => {
+                    let step = get_increment_step(&expr_var_type, prog)?;
                     // the returned value is the variable before decrementing
                     prog.add_var_type(dest.to_owned(), expr_var_type)?;
                     instrs.push(Instruction::SimpleAssignment(
@@ -1208,10 +1221,11 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         var.to_owned(),
                         Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
+                        step,
                     ));
                 }
                 Src::StoreAddressVar(var) => {
+                    let step = get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
                     // load value to decrement
                     let src_to_decrement = prog.new_var(ValueType::RValue);
                     prog.add_var_type(
@@ -1242,7 +1256,7 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         result.to_owned(),
                         Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
+                        step,
                     ));
 
                     // store value back
@@ -1265,8 +1279,6 @@ pub fn convert_expression_to_ir(
             let dest = prog.new_var(ValueType::RValue);
             // expr_var is the variable returned, after incrementing
             // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             if !expr_var_type.is_scalar_type() {
                 return Err(MiddleEndError::InvalidOperation(
@@ -1275,11 +1287,12 @@ pub fn convert_expression_to_ir(
             }
             match expr_var {
                 Src::Var(var) => {
+                    let step = get_increment_step(&expr_var_type, prog)?;
                     instrs.push(Instruction::Add(
                         prog.new_instr_id(),
                         var.to_owned(),
                         Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
+                        step,
                     ));
                     prog.add_var_type(dest.to_owned(), expr_var_type)?;
                     instrs.push(Instruction::SimpleAssignment(
@@ -1289,6 +1302,7 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 Src::StoreAddressVar(var) => {
+                    let step = get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
                     // load value to increment
                     let src_to_increment = prog.new_var(ValueType::RValue);
                     prog.add_var_type(
@@ -1311,7 +1325,7 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         result.to_owned(),
                         Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
+                        step,
                     ));
 
                     debug!(
@@ -1348,8 +1362,6 @@ pub fn convert_expression_to_ir(
             let dest = prog.new_var(ValueType::RValue);
             // expr_var is the variable returned, after decrementing
             // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             if !expr_var_type.is_scalar_type() {
                 return Err(MiddleEndError::InvalidOperation(
@@ -1358,11 +1370,12 @@ pub fn convert_expression_to_ir(
             }
             match expr_var {
                 Src::Var(var) => {
+                    let step = get_increment_step(&expr_var_type, prog)?;
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
                         var.to_owned(),
                         Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
+                        step,
                     ));
                     prog.add_var_type(dest.to_owned(), expr_var_type)?;
                     instrs.push(Instruction::SimpleAssignment(
@@ -1372,6 +1385,7 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 Src::StoreAddressVar(var) => {
+                    let step = get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
                     // load value to increment
                     let src_to_decrement = prog.new_var(ValueType::RValue);
                     prog.add_var_type(
@@ -1394,7 +1408,7 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         result.to_owned(),
                         Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
+                        step,
                     ));
 
                     debug!(
-- 
2.43.0


From 3adfbc82a9a5bb078499d3badbe8c9c4146e3b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 17/45] fix: the value of an assignment through a pointer is
 the value stored

---
 src/middle_end/ast_to_ir.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ae3e7fa..1e5e4d0 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2247,17 +2247,19 @@ pub fn convert_expression_to_ir(
             if is_store_to_address {
                 instrs.push(Instruction::StoreToAddress(
                     prog.new_instr_id(),
-                    dest.to_owned(),
-                    src_var,
+                    dest,
+                    src_var.to_owned(),
                 ));
+                // dest is the address, the value of the expression is what was stored there
+                Ok((instrs, src_var))
             } else {
                 instrs.push(Instruction::SimpleAssignment(
                     prog.new_instr_id(),
                     dest.to_owned(),
                     src_var,
                 ));
+                Ok((instrs, Src::Var(dest)))
             }
-            Ok((instrs, Src::Var(dest)))
         }
         Expression::Cast(cast_type_decl, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-- 
2.43.0


From cb33b85e1edb5befd9abbb42f0298c9ca577bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:48 +0000
Subject: [PATCH 18/45] fix: functions with more than one tail call, and tail
 calls while pointers to local variables may be in use

---
 .../middle_end_optimiser/tail_call_optimise.rs     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 5b2106c..42c156c 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -8,6 +8,17 @@ pub fn tail_call_optimise(
     param_var_mappings: &[VarId],
     prog_metadata: &mut ProgramMetadata,
 ) {
+    // the callee may access the variables of this function through a pointer, in which case
+    // they have to stay alive during the call
+    if fun_instrs.iter().any(|instr| {
+        matches!(
+            instr,
+            Instruction::AddressOf(..) | Instruction::AllocateVariable(..)
+        )
+    }) {
+        return;
+    }
+
     // find any call instructions that are the last instruction of a function
 
     // instr index, call instr parameters
@@ -97,7 +108,8 @@ pub fn tail_call_optimise(
         }
     }
 
-    for (replace_index, remove_count, new_instrs) in replace_instrs {
+    // replace from the last to the first, so that the remaining indices stay valid
+    for (replace_index, remove_count, new_instrs) in replace_instrs.into_iter().rev() {
         for _ in 0..remove_count {
             fun_instrs.remove(replace_index);
         }
-- 
2.43.0


From 97d7faa03967d5ca4576df5f600e67be5ee9043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:48 +0000
Subject: [PATCH 19/45] fix: ! of a negative constant

---
 src/middle_end/compile_time_eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 41dcc1f..5c64d78 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -58,10 +58,10 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 UnaryOperator::LogicalNot => match expr_result {
                     ConstantExpressionType::Int(i) => {
-                        Ok(ConstantExpressionType::Int(!(i > 0) as i128))
+                        Ok(ConstantExpressionType::Int((i == 0) as i128))
                     }
                     ConstantExpressionType::Float(f) => {
-                        Ok(ConstantExpressionType::Int(!(f > 0.) as i128))
+                        Ok(ConstantExpressionType::Int((f == 0.) as i128))
                     }
                 },
             }
-- 
2.43.0


From 2edde471b2fd540b8b53b8f17e0a0cdb8962a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:48 +0000
Subject: [PATCH 20/45] fix: sizeof of an array is its size in bytes

---
 src/middle_end/ast_to_ir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 1e5e4d0..688bcf5 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1629,7 +1629,7 @@ pub fn convert_expression_to_ir(
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
 
             let type_size = if expr_var_type.is_array_type() {
-                expr_var_type.get_array_size()?
+                expr_var_type.get_array_byte_size(&prog.program_metadata)?
             } else {
                 expr_var_type.get_byte_size(&prog.program_metadata)
             };
@@ -1657,7 +1657,7 @@ pub fn convert_expression_to_ir(
                 Some(x) => x,
             };
             let type_size = if type_info.is_array_type() {
-                type_info.get_array_size()?
+                type_info.get_array_byte_size(&prog.program_metadata)?
             } else {
                 type_info.get_byte_size(&prog.program_metadata)
             };
-- 
2.43.0


From f8be80f50ae44c8f9d316e301ee87b557799799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:48 +0000
Subject: [PATCH 21/45] fix: the difference of two pointers is a number of
 elements

---
 src/middle_end/ast_to_ir.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 688bcf5..e2b0735 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1870,8 +1870,36 @@ pub fn convert_expression_to_ir(
                         ));
                         left_var = Src::Var(temp_left_var);
                     } else {
-                        // pointer - pointer -> int
+                        // pointer - pointer -> int, the number of elements between them
                         prog.add_var_type(dest.to_owned(), IrType::I32)?;
+                        let byte_diff = prog.new_var(ValueType::RValue);
+                        prog.add_var_type(byte_diff.to_owned(), IrType::I32)?;
+                        instrs.push(Instruction::Sub(
+                            prog.new_instr_id(),
+                            byte_diff.to_owned(),
+                            left_var,
+                            right_var,
+                        ));
+                        let object_byte_size = match left_var_type
+                            .get_pointer_object_byte_size(&prog.program_metadata)?
+                        {
+                            TypeSize::CompileTime(size) => {
+                                Src::Constant(Constant::Int(size as i128))
+                            }
+                            TypeSize::Runtime(size_expr) => {
+                                let (mut size_expr_instrs, size_var) =
+                                    convert_expression_to_ir(size_expr, prog, context)?;
+                                instrs.append(&mut size_expr_instrs);
+                                size_var
+                            }
+                        };
+                        instrs.push(Instruction::Div(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Var(byte_diff),
+                            object_byte_size,
+                        ));
+                        return Ok((instrs, Src::Var(dest)));
                     }
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
-- 
2.43.0


From a1096b18168e72d8b9e40d7ebf666a3fa41daaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:29 +0000
Subject: [PATCH 22/45] fix: loops and nested statements inside a switch

---
 src/middle_end/ast_to_ir.rs | 37 +++++------------
 src/middle_end/context.rs   | 81 +++++--------------------------------
 2 files changed, 21 insertions(+), 97 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index e2b0735..2387e03 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -284,9 +284,9 @@ fn convert_statement_to_ir(
                 Src::Fun(_) | Src::StoreAddressVar(_) => unreachable!(),
             };
             context.push_switch(SwitchContext::new(switch_end_label.to_owned(), switch_var));
-            // convert switch body - ignore the return, because the instrs will
-            // be stored into the SwitchContext, and we'll get them from there after
-            convert_statement_to_ir(*body, prog, context)?;
+            // convert switch body - this also stores the conditions of its cases into the
+            // SwitchContext, and we'll get them from there after
+            let mut body_instrs = convert_statement_to_ir(*body, prog, context)?;
 
             let mut switch_context = context.pop_switch()?;
 
@@ -308,9 +308,7 @@ fn convert_statement_to_ir(
             }
 
             // add case bodies
-            for mut case_body_instrs in switch_context.case_blocks {
-                instrs.append(&mut case_body_instrs);
-            }
+            instrs.append(&mut body_instrs);
 
             // end of switch label
             instrs.push(Instruction::Label(prog.new_instr_id(), switch_end_label));
@@ -338,28 +336,18 @@ fn convert_statement_to_ir(
                         expr_var,
                         case_body_label.to_owned(),
                     ));
-                    context.new_switch_case_block(
-                        case_body_label,
-                        condition_instrs,
-                        &mut prog.program_metadata,
-                    )?;
-                    // start of case body - the result of this will be automatically pushed to
-                    // the case block we just created, because we're in a switch context
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    context.push_switch_case_condition(condition_instrs)?;
+                    // start of case body
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
                 LabelledStatement::Default(stmt) => {
                     let case_body_label = prog.new_label();
                     context.add_default_switch_block_label(case_body_label.to_owned())?;
                     // default case has no condition instruction to add, because it'll get added
                     // at the end of converting the whole switch statement
-                    context.new_switch_case_block(
-                        case_body_label,
-                        Vec::new(),
-                        &mut prog.program_metadata,
-                    )?;
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
             }
         }
@@ -707,11 +695,6 @@ fn convert_statement_to_ir(
         Statement::Empty => {}
     }
 
-    if context.is_in_switch_context() {
-        context.push_instrs_to_switch_case_block(instrs)?;
-        return Ok(Vec::new());
-    }
-
     Ok(instrs)
 }
 
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index b1d31ca..2505c39 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -121,66 +121,22 @@ impl Context {
         }
     }
 
-    pub fn new_switch_case_block(
+    pub fn push_switch_case_condition(
         &mut self,
-        case_body_label: LabelId,
         mut case_condition_instrs: Vec<Instruction>,
-        prog_metadata: &mut ProgramMetadata,
     ) -> Result<(), MiddleEndError> {
-        if self.loop_stack.is_empty() {
-            return Err(MiddleEndError::CaseOutsideSwitchContext);
-        }
-        let mut i = self.loop_stack.len() - 1;
-        loop {
-            match self.loop_stack.get_mut(i) {
-                None => return Err(MiddleEndError::CaseOutsideSwitchContext),
-                Some(loop_or_switch_context) => match loop_or_switch_context {
-                    LoopOrSwitchContext::Loop(_) => {}
-                    LoopOrSwitchContext::Switch(switch_context) => {
-                        // every case block must have a label so it can be jumped to,
-                        // so enforce that by adding it here
-                        let case_instrs = vec![Instruction::Label(
-                            prog_metadata.new_instr_id(),
-                            case_body_label,
-                        )];
-                        switch_context.case_blocks.push(case_instrs);
-                        switch_context
-                            .case_condition_instrs
-                            .append(&mut case_condition_instrs);
-                        return Ok(());
-                    }
-                },
-            }
-            if i == 0 {
-                return Err(MiddleEndError::CaseOutsideSwitchContext);
-            }
-            i -= 1;
-        }
-    }
-
-    pub fn push_instrs_to_switch_case_block(
-        &mut self,
-        instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        if self.loop_stack.is_empty() {
-            return Err(MiddleEndError::CaseOutsideSwitchContext);
-        }
-        let mut i = self.loop_stack.len() - 1;
-        loop {
-            match self.loop_stack.get_mut(i) {
-                None => return Err(MiddleEndError::CaseOutsideSwitchContext),
-                Some(loop_or_switch_context) => match loop_or_switch_context {
-                    LoopOrSwitchContext::Loop(_) => {}
-                    LoopOrSwitchContext::Switch(switch_context) => {
-                        return switch_context.push_instrs_to_last_case_block(instrs);
-                    }
-                },
-            }
-            if i == 0 {
-                return Err(MiddleEndError::CaseOutsideSwitchContext);
+        for loop_or_switch_context in self.loop_stack.iter_mut().rev() {
+            match loop_or_switch_context {
+                LoopOrSwitchContext::Loop(_) => {}
+                LoopOrSwitchContext::Switch(switch_context) => {
+                    switch_context
+                        .case_condition_instrs
+                        .append(&mut case_condition_instrs);
+                    return Ok(());
+                }
             }
-            i -= 1;
         }
+        Err(MiddleEndError::CaseOutsideSwitchContext)
     }
 
     pub fn add_default_switch_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
@@ -638,7 +594,6 @@ pub struct SwitchContext {
     pub end_label: LabelId,
     pub switch_var: VarId,
     pub case_condition_instrs: Vec<Instruction>,
-    pub case_blocks: Vec<Vec<Instruction>>,
     pub default_block_label: Option<LabelId>,
 }
 
@@ -648,24 +603,10 @@ impl SwitchContext {
             end_label,
             switch_var,
             case_condition_instrs: Vec::new(),
-            case_blocks: Vec::new(),
             default_block_label: None,
         }
     }
 
-    fn push_instrs_to_last_case_block(
-        &mut self,
-        mut instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        match self.case_blocks.last_mut() {
-            None => Err(MiddleEndError::NoCaseBlockToPushInstructionTo),
-            Some(block_instrs) => {
-                block_instrs.append(&mut instrs);
-                Ok(())
-            }
-        }
-    }
-
     fn add_default_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         match self.default_block_label {
             None => {
-- 
2.43.0


From b3858b83e42b3a6e28028421fb99060dd0d28a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 23/45] fix: goto to a label later in the function, labels are
 local to their function

---
 src/middle_end/ast_to_ir.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 2387e03..2c56d64 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -316,7 +316,10 @@ fn convert_statement_to_ir(
         Statement::Labelled(stmt) => {
             match stmt {
                 LabelledStatement::Named(Identifier(label_name), stmt) => {
-                    let label = prog.new_identifier_label(label_name);
+                    let label = match prog.resolve_identifier_to_label(&label_name) {
+                        Some(label) => label.to_owned(),
+                        None => prog.new_identifier_label(label_name),
+                    };
                     instrs.push(Instruction::Label(prog.new_instr_id(), label));
                     instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
@@ -685,6 +688,8 @@ fn convert_statement_to_ir(
                 IrType::Function(return_type, _, _) => Some(*return_type.to_owned()),
                 _ => None,
             };
+            // labels are only visible inside the function they're in
+            prog.program_metadata.label_ids.clear();
             let instrs = convert_statement_to_ir(*body, prog, context)?;
             context.function_return_type = None;
             // update function in program with full body
-- 
2.43.0


From c69c73458b91a807155d5e51863265ba86e4900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 24/45] fix: code after a branch or return that can't be
 reached

---
 src/relooper/soupify.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index 01131cd..131a1b8 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -17,6 +17,7 @@ pub fn soupify(
         !instrs.is_empty(),
         "List of instructions to soupify should be non-empty"
     );
+    remove_instrs_after_branch(&mut instrs);
     remove_label_fallthrough(&mut instrs, prog_metadata);
     add_block_gap_labels_after_conditionals(&mut instrs, prog_metadata);
     insert_entry_label_if_necessary(&mut instrs, prog_metadata);
@@ -28,6 +29,22 @@ pub fn soupify(
     instructions_to_soup_of_labels(instrs)
 }
 
+/// Remove instructions that can't be reached, because they're after an unconditional branch
+/// or return, and there's no label in between
+fn remove_instrs_after_branch(instrs: &mut Vec<Instruction>) {
+    let mut is_reachable = true;
+    instrs.retain(|instr| {
+        if let Instruction::Label(..) = instr {
+            is_reachable = true;
+        }
+        let keep_instr = is_reachable;
+        if let Instruction::Br(..) | Instruction::Ret(..) | Instruction::TailCall(..) = instr {
+            is_reachable = false;
+        }
+        keep_instr
+    });
+}
+
 /// Add a new label at the start of the instructions, to be our entry-point
 fn insert_entry_label_if_necessary(
     instrs: &mut Vec<Instruction>,
-- 
2.43.0


From ced43b0a631a3db850df91b2ef6da35b8ef1d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 25/45] fix: control flow that enters several labels, one of
 which can't be returned to

---
 src/relooper/relooper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index c4e42e2..7f7b5e3 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -492,9 +492,10 @@ fn create_loop_block(
 ) -> Block {
     let mut inner_labels: Labels = HashMap::new();
     let mut next_labels: Labels = HashMap::new();
-    // find the labels that can return to one of the entries, and those that can't
+    // find the labels that can return to one of the entries, and those that can't.
+    // the entries themselves always belong to the inner block
     for (label_id, label) in labels {
-        let mut can_return = false;
+        let mut can_return = entries.contains(&label_id);
         for entry in &entries {
             if reachability.get(&label_id).unwrap().contains(entry) {
                 can_return = true;
-- 
2.43.0


From cbd342e3aa4ba08e012962ba9302b92ed0424326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 26/45] fix: floating point conditions, (void) parameter lists

---
 src/back_end/memory_operations.rs   | 8 ++------
 src/middle_end/get_ast_type_info.rs | 5 +++++
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/back_end/memory_operations.rs b/src/back_end/memory_operations.rs
index 06bbbac..2761865 100644
--- a/src/back_end/memory_operations.rs
+++ b/src/back_end/memory_operations.rs
@@ -182,15 +182,11 @@ pub fn load_constant(
         },
         IrType::F32 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F32Const { z: z as f32 }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F32Const { z: n as f32 }),
         },
         IrType::F64 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F64Const { z }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F64Const { z: n as f64 }),
         },
         t => {
             debug!("{}", t);
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 837eace..287bd34 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -277,6 +277,11 @@ fn add_type_info_from_declarator(
                 }
             }
 
+            // a parameter list of just void means there are no parameters
+            if param_types == [IrType::Void] && param_bindings.is_empty() && !is_variadic {
+                param_types.clear();
+            }
+
             let (type_info, name, _) = add_type_info_from_declarator(
                 *d,
                 type_info.wrap_with_fun(param_types, is_variadic),
-- 
2.43.0


From 7c4777491211c37dbc51ff0f8e7d77a0450b4ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 27/45] fix: compare switch and case values in the promoted
 type of the switch value

---
 src/middle_end/ast_to_ir.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 2c56d64..f47f6b3 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -269,6 +269,9 @@ fn convert_statement_to_ir(
             let (mut expr_instrs, switch_src) =
                 convert_expression_to_ir(switch_expr, prog, context)?;
             instrs.append(&mut expr_instrs);
+            // the case values are compared to the promoted value
+            let (mut convert_instrs, switch_src) = unary_convert(switch_src, prog)?;
+            instrs.append(&mut convert_instrs);
             let switch_var = match switch_src {
                 Src::Var(var) => var,
                 Src::Constant(c) => {
@@ -330,12 +333,27 @@ fn convert_statement_to_ir(
                     }
                     let (mut condition_instrs, expr_var) =
                         convert_expression_to_ir(expr, prog, context)?;
+                    let switch_var = context.get_switch_variable().unwrap();
+                    // a constant gets compared as the type of the switch variable
+                    let expr_var = match expr_var {
+                        Src::Constant(_) => expr_var,
+                        _ => {
+                            let (mut convert_instrs, converted_var) = convert_type_for_assignment(
+                                expr_var.to_owned(),
+                                expr_var.get_type(&prog.program_metadata)?,
+                                prog.get_var_type(&switch_var)?,
+                                prog,
+                            )?;
+                            condition_instrs.append(&mut convert_instrs);
+                            converted_var
+                        }
+                    };
                     let case_body_label = prog.new_label();
                     // check if case condition matches the switch expression
                     // if so, jump to the corresponding block
                     condition_instrs.push(Instruction::BrIfEq(
                         prog.new_instr_id(),
-                        Src::Var(context.get_switch_variable().unwrap()),
+                        Src::Var(switch_var),
                         expr_var,
                         case_body_label.to_owned(),
                     ));
-- 
2.43.0


From 8630c6bfb6a7be89b9990f1340643f49f8ee465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:53 +0000
Subject: [PATCH 28/45] fix: static variables in functions keep their value

---
 src/middle_end/ast_to_ir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index f47f6b3..31c919d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1,7 +1,7 @@
 use log::{debug, trace};
 
 use crate::front_end::ast;
-use crate::front_end::ast::{
+use crate::front_end::ast::{StorageClassSpecifier, 
     BinaryOperator, DeclaratorInitialiser, Expression, ExpressionOrDeclaration, Identifier,
     Initialiser, LabelledStatement, Program as AstProgram, Statement, TypeSpecifier, UnaryOperator,
 };
@@ -653,6 +653,12 @@ fn convert_statement_to_ir(
                 }
                 is_initial_declarator = false;
             }
+            // a static variable in a function is initialised only once, at program start
+            if let (Some(StorageClassSpecifier::Static), Some(_)) =
+                (&sq.storage_class_specifier, &context.function_return_type)
+            {
+                prog.program_instructions.global_instrs.append(&mut instrs);
+            }
         }
         Statement::EmptyDeclaration(sq) => {
             match get_type_info(&sq, None, false, prog, context)? {
-- 
2.43.0


From 48d70b18708e55d34277654be3fb6025c4018842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:00 +0000
Subject: [PATCH 29/45] fix: addresses and contents of array members, struct
 members and nested aggregates

---
 src/middle_end/aggregate_type_initialisers.rs |   4 +-
 src/middle_end/ast_to_ir.rs                   | 319 ++++++++++--------
 src/middle_end/instructions.rs                |   4 +-
 src/middle_end/ir_types.rs                    |  40 ++-
 4 files changed, 207 insertions(+), 160 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 9719ab8..d068507 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -19,7 +19,9 @@ pub fn array_initialiser(
 
     let array_member_type = dest_type_info.unwrap_array_type()?;
     // sizes of array members must be known at compile time
-    let array_member_byte_size = match array_member_type.get_byte_size(&prog.program_metadata) {
+    let array_member_byte_size = match array_member_type
+        .get_object_byte_size(&prog.program_metadata)?
+    {
         TypeSize::CompileTime(size) => size,
         TypeSize::Runtime(_) => return Err(MiddleEndError::ArrayMemberSizeNotKnownAtCompileTime),
     };
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 31c919d..b31d8c4 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1,9 +1,10 @@
 use log::{debug, trace};
 
 use crate::front_end::ast;
-use crate::front_end::ast::{StorageClassSpecifier, 
+use crate::front_end::ast::{
     BinaryOperator, DeclaratorInitialiser, Expression, ExpressionOrDeclaration, Identifier,
-    Initialiser, LabelledStatement, Program as AstProgram, Statement, TypeSpecifier, UnaryOperator,
+    Initialiser, LabelledStatement, Program as AstProgram, Statement, StorageClassSpecifier,
+    TypeSpecifier, UnaryOperator,
 };
 use crate::middle_end::aggregate_type_initialisers::{
     array_initialiser, convert_string_literal_to_init_list_of_chars_ast, struct_initialiser,
@@ -17,8 +18,8 @@ use crate::middle_end::ir::{Function, Program};
 use crate::middle_end::ir_types::{array_to_pointer_type, IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
 use crate::middle_end::type_conversions::{
-    binary_convert, binary_convert_separately, convert_argument_type,
-    convert_type_for_assignment, get_type_conversion_instrs, shift_convert, unary_convert,
+    binary_convert, binary_convert_separately, convert_argument_type, convert_type_for_assignment,
+    get_type_conversion_instrs, shift_convert, unary_convert,
 };
 
 pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
@@ -811,6 +812,70 @@ fn convert_short_circuit_operator_to_ir(
     Ok((instrs, Src::Var(dest)))
 }
 
+/// Access the object that ptr points to: if we're on the left hand side of an assignment, the
+/// result is the address to store to, otherwise it's the value loaded from there.
+fn convert_object_access_to_ir(
+    ptr: VarId,
+    object_type: IrType,
+    is_directly_on_lhs_of_assignment: bool,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let mut instrs: Vec<Instruction> = Vec::new();
+    if is_directly_on_lhs_of_assignment && !object_type.is_array_type() {
+        return Ok((instrs, Src::StoreAddressVar(ptr)));
+    }
+    let dest = prog.new_var(ValueType::LValue);
+    prog.add_var_type(dest.to_owned(), object_type.to_owned())?;
+    if object_type.is_array_type() {
+        // the value of an array is the address of its first member
+        instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            Src::Var(ptr),
+        ));
+    } else {
+        instrs.push(Instruction::LoadFromAddress(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            Src::Var(ptr),
+        ));
+    }
+    Ok((instrs, Src::Var(dest)))
+}
+
+/// Get a pointer to an object, which has been converted as if it was on the left hand side of
+/// an assignment
+fn convert_address_of_to_ir(
+    object: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, VarId), MiddleEndError> {
+    let mut instrs: Vec<Instruction> = Vec::new();
+    if let Src::StoreAddressVar(ptr) = object {
+        return Ok((instrs, ptr));
+    }
+    let object_type = object.get_type(&prog.program_metadata)?;
+    let dest = prog.new_var(ValueType::RValue);
+    prog.add_var_type(
+        dest.to_owned(),
+        IrType::PointerTo(Box::new(object_type.to_owned())),
+    )?;
+    if object_type.is_array_type() {
+        // the variable of an array stores where the array is
+        instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            object,
+        ));
+    } else {
+        instrs.push(Instruction::AddressOf(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            object,
+        ));
+    }
+    Ok((instrs, dest))
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -898,7 +963,8 @@ pub fn convert_expression_to_ir(
             }
 
             // multiply index by size of element, to get number of bytes to advance ptr by
-            let element_byte_size = arr_inner_type.get_byte_size(&prog.program_metadata);
+            let element_byte_size =
+                arr_var_type.get_pointer_object_byte_size(&prog.program_metadata)?;
             let byte_size_var = match element_byte_size {
                 TypeSize::CompileTime(byte_size) => Src::Constant(Constant::Int(byte_size as i128)),
                 TypeSize::Runtime(byte_size_expr) => {
@@ -931,20 +997,14 @@ pub fn convert_expression_to_ir(
                 arr_var,
                 Src::Var(ptr_offset_var),
             ));
-            if this_expr_directly_on_lhs_of_assignment {
-                // store to array index
-                Ok((instrs, Src::StoreAddressVar(ptr)))
-            } else {
-                // read from array index
-                let dest = prog.new_var(ValueType::LValue);
-                prog.add_var_type(dest.to_owned(), arr_inner_type)?;
-                instrs.push(Instruction::LoadFromAddress(
-                    prog.new_instr_id(),
-                    dest.to_owned(),
-                    Src::Var(ptr),
-                ));
-                Ok((instrs, Src::Var(dest)))
-            }
+            let (mut access_instrs, dest) = convert_object_access_to_ir(
+                ptr,
+                arr_inner_type,
+                this_expr_directly_on_lhs_of_assignment,
+                prog,
+            )?;
+            instrs.append(&mut access_instrs);
+            Ok((instrs, dest))
         }
         Expression::FunctionCall(fun, params) => {
             context.in_function_name_expr = true;
@@ -986,23 +1046,16 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::DirectMemberSelection(obj, Identifier(member_name)) => {
+            // we need the address of the object
+            context.directly_on_lhs_of_assignment = true;
             let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut obj_instrs);
-            let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
+            let (mut obj_ptr_instrs, obj_ptr) = convert_address_of_to_ir(obj_var, prog)?;
+            instrs.append(&mut obj_ptr_instrs);
+            let obj_var_type = prog.get_var_type(&obj_ptr)?.dereference_pointer_type()?;
             obj_var_type.require_struct_or_union_type()?;
 
-            // obj_ptr = &obj_var
-            let obj_ptr = prog.new_var(obj_var.get_value_type());
-            prog.add_var_type(
-                obj_ptr.to_owned(),
-                IrType::PointerTo(Box::new(obj_var_type.to_owned())),
-            )?;
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                obj_ptr.to_owned(),
-                obj_var,
-            ));
-
             match obj_var_type {
                 IrType::Struct(struct_id) => {
                     let struct_type = prog.get_struct_type(&struct_id)?;
@@ -1022,41 +1075,39 @@ pub fn convert_expression_to_ir(
                         Src::Constant(Constant::Int(member_byte_offset as i128)),
                     ));
 
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to struct member
-                        Ok((instrs, Src::StoreAddressVar(ptr)))
-                    } else {
-                        // load from struct member
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
+                    let (mut access_instrs, dest) = convert_object_access_to_ir(
+                        ptr,
+                        member_type,
+                        this_expr_directly_on_lhs_of_assignment,
+                        prog,
+                    )?;
+                    instrs.append(&mut access_instrs);
+                    Ok((instrs, dest))
                 }
                 IrType::Union(union_id) => {
                     let union_type = prog.get_union_type(&union_id)?;
                     let member_type = union_type.get_member_type(&member_name)?;
 
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_ptr)))
-                    } else {
-                        // load from union
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *obj_ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(obj_ptr),
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
+                    // all members are at the start of the union
+                    let ptr = prog.new_var(ValueType::LValue);
+                    prog.add_var_type(
+                        ptr.to_owned(),
+                        IrType::PointerTo(Box::new(member_type.to_owned())),
+                    )?;
+                    instrs.push(Instruction::SimpleAssignment(
+                        prog.new_instr_id(),
+                        ptr.to_owned(),
+                        Src::Var(obj_ptr),
+                    ));
+
+                    let (mut access_instrs, dest) = convert_object_access_to_ir(
+                        ptr,
+                        member_type,
+                        this_expr_directly_on_lhs_of_assignment,
+                        prog,
+                    )?;
+                    instrs.append(&mut access_instrs);
+                    Ok((instrs, dest))
                 }
                 _ => unreachable!(),
             }
@@ -1087,41 +1138,39 @@ pub fn convert_expression_to_ir(
                         Src::Constant(Constant::Int(member_byte_offset as i128)),
                     ));
 
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to struct member
-                        Ok((instrs, Src::StoreAddressVar(ptr)))
-                    } else {
-                        // load from struct member
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
+                    let (mut access_instrs, dest) = convert_object_access_to_ir(
+                        ptr,
+                        member_type,
+                        this_expr_directly_on_lhs_of_assignment,
+                        prog,
+                    )?;
+                    instrs.append(&mut access_instrs);
+                    Ok((instrs, dest))
                 }
                 IrType::Union(union_id) => {
                     let union_type = prog.get_union_type(&union_id)?;
                     let member_type = union_type.get_member_type(&member_name)?;
 
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_var.unwrap_var()?)))
-                    } else {
-                        // load from union
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *obj_ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            obj_var,
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
+                    // all members are at the start of the union
+                    let ptr = prog.new_var(ValueType::LValue);
+                    prog.add_var_type(
+                        ptr.to_owned(),
+                        IrType::PointerTo(Box::new(member_type.to_owned())),
+                    )?;
+                    instrs.push(Instruction::SimpleAssignment(
+                        prog.new_instr_id(),
+                        ptr.to_owned(),
+                        obj_var,
+                    ));
+
+                    let (mut access_instrs, dest) = convert_object_access_to_ir(
+                        ptr,
+                        member_type,
+                        this_expr_directly_on_lhs_of_assignment,
+                        prog,
+                    )?;
+                    instrs.append(&mut access_instrs);
+                    Ok((instrs, dest))
                 }
                 _ => unreachable!(),
             }
@@ -1159,7 +1208,8 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 Src::StoreAddressVar(var) => {
-                    let step = get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
+                    let step =
+                        get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
                     // load value to increment
                     let src_to_increment = prog.new_var(ValueType::RValue);
                     prog.add_var_type(
@@ -1237,7 +1287,8 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 Src::StoreAddressVar(var) => {
-                    let step = get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
+                    let step =
+                        get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
                     // load value to decrement
                     let src_to_decrement = prog.new_var(ValueType::RValue);
                     prog.add_var_type(
@@ -1314,7 +1365,8 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 Src::StoreAddressVar(var) => {
-                    let step = get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
+                    let step =
+                        get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
                     // load value to increment
                     let src_to_increment = prog.new_var(ValueType::RValue);
                     prog.add_var_type(
@@ -1397,7 +1449,8 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 Src::StoreAddressVar(var) => {
-                    let step = get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
+                    let step =
+                        get_increment_step(&expr_var_type.dereference_pointer_type()?, prog)?;
                     // load value to increment
                     let src_to_decrement = prog.new_var(ValueType::RValue);
                     prog.add_var_type(
@@ -1449,53 +1502,35 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
+            context.directly_on_lhs_of_assignment = true;
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            let dest = prog.new_var(ValueType::RValue);
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                expr_var,
-            ));
-            // store type of dest
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(expr_var_type)))?;
+            let (mut address_instrs, dest) = convert_address_of_to_ir(expr_var, prog)?;
+            instrs.append(&mut address_instrs);
             Ok((instrs, Src::Var(dest)))
         }
         Expression::UnaryOp(UnaryOperator::Dereference, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if this_expr_directly_on_lhs_of_assignment {
-                // store to memory address
-                match expr_var_type {
-                    IrType::PointerTo(_) => {
-                        // prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                        match expr_var {
-                            Src::Var(expr_var) => Ok((instrs, Src::StoreAddressVar(expr_var))),
-                            _ => Err(MiddleEndError::AttemptToStoreToNonVariable),
-                        }
-                    }
-                    _ => Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
-                }
-            } else {
-                // dereference load from memory address
-                let dest = prog.new_var(ValueType::LValue);
-                instrs.push(Instruction::LoadFromAddress(
-                    prog.new_instr_id(),
-                    dest.to_owned(),
-                    expr_var,
-                ));
-                // check whether the var is allowed to be dereferenced;
-                // if so, store the type of dest
-                match expr_var_type {
-                    IrType::PointerTo(inner_type) => {
-                        prog.add_var_type(dest.to_owned(), *inner_type)?;
-                    }
-                    _ => return Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
-                }
-                Ok((instrs, Src::Var(dest)))
-            }
+            // pointer, or array that is converted to a pointer to its first member
+            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
+            instrs.append(&mut unary_convert_instrs);
+            let object_type = expr_var
+                .get_type(&prog.program_metadata)?
+                .dereference_pointer_type()?;
+            let ptr = match expr_var {
+                Src::Var(ptr) => ptr,
+                _ => return Err(MiddleEndError::AttemptToStoreToNonVariable),
+            };
+            let (mut access_instrs, dest) = convert_object_access_to_ir(
+                ptr,
+                object_type,
+                this_expr_directly_on_lhs_of_assignment,
+                prog,
+            )?;
+            instrs.append(&mut access_instrs);
+            Ok((instrs, dest))
         }
         Expression::UnaryOp(op, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
@@ -1640,11 +1675,7 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut expr_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
 
-            let type_size = if expr_var_type.is_array_type() {
-                expr_var_type.get_array_byte_size(&prog.program_metadata)?
-            } else {
-                expr_var_type.get_byte_size(&prog.program_metadata)
-            };
+            let type_size = expr_var_type.get_object_byte_size(&prog.program_metadata)?;
             let size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
                 TypeSize::Runtime(size_expr) => {
@@ -1668,11 +1699,7 @@ pub fn convert_expression_to_ir(
                 None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                 Some(x) => x,
             };
-            let type_size = if type_info.is_array_type() {
-                type_info.get_array_byte_size(&prog.program_metadata)?
-            } else {
-                type_info.get_byte_size(&prog.program_metadata)
-            };
+            let type_size = type_info.get_object_byte_size(&prog.program_metadata)?;
             let byte_size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
                 TypeSize::Runtime(size_expr) => {
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index a3c273d..7fb81db 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -84,7 +84,9 @@ impl Src {
 
     pub fn get_value_type(&self) -> ValueType {
         match self {
-            Src::Var(var) | Src::StoreAddressVar(var) => var.get_value_type(),
+            Src::Var(var) => var.get_value_type(),
+            // whatever the address is computed from, the object there is an lvalue
+            Src::StoreAddressVar(_) => ValueType::LValue,
             Src::Constant(_) => ValueType::RValue,
             Src::Fun(_) => ValueType::RValue,
         }
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 996c9cd..c180449 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -97,12 +97,22 @@ impl IrType {
         }
     }
 
+    /// The number of bytes the object itself takes up in memory. This is the same as
+    /// get_byte_size, except for arrays, the variables of which are pointers to the array.
+    pub fn get_object_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
+        if self.is_array_type() {
+            self.get_array_byte_size(prog)
+        } else {
+            Ok(self.get_byte_size(prog))
+        }
+    }
+
     pub fn get_pointer_object_byte_size(
         &self,
         prog: &ProgramMetadata,
     ) -> Result<TypeSize, MiddleEndError> {
         match self {
-            IrType::PointerTo(inner_type) => Ok(inner_type.get_byte_size(prog)),
+            IrType::PointerTo(inner_type) => inner_type.get_object_byte_size(prog),
             t => Err(MiddleEndError::DereferenceNonPointerType(t.to_owned())),
         }
     }
@@ -110,15 +120,21 @@ impl IrType {
     pub fn get_array_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
         match self {
             IrType::ArrayOf(inner_type, count) => match count {
-                Some(TypeSize::CompileTime(count)) => match inner_type.get_byte_size(prog) {
-                    TypeSize::CompileTime(t_size) => Ok(TypeSize::CompileTime(t_size * count)),
-                    TypeSize::Runtime(t_size_expr) => Ok(TypeSize::Runtime(Expression::BinaryOp(
-                        BinaryOperator::Mult,
-                        Box::new(t_size_expr),
-                        Box::new(Expression::Constant(Constant::Int(*count as u128))),
-                    ))),
-                },
-                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::CompileTime(count)) => {
+                    match inner_type.get_object_byte_size(prog)? {
+                        TypeSize::CompileTime(t_size) => Ok(TypeSize::CompileTime(t_size * count)),
+                        TypeSize::Runtime(t_size_expr) => {
+                            Ok(TypeSize::Runtime(Expression::BinaryOp(
+                                BinaryOperator::Mult,
+                                Box::new(t_size_expr),
+                                Box::new(Expression::Constant(Constant::Int(*count as u128))),
+                            )))
+                        }
+                    }
+                }
+                Some(TypeSize::Runtime(count_expr)) => match inner_type
+                    .get_object_byte_size(prog)?
+                {
                     TypeSize::CompileTime(t_size) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
                         Box::new(count_expr.to_owned()),
@@ -458,7 +474,7 @@ impl StructType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateStructMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        let byte_size = match member_type.get_object_byte_size(prog)? {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedStructMemberSize),
         };
@@ -578,7 +594,7 @@ impl UnionType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateUnionMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        let byte_size = match member_type.get_object_byte_size(prog)? {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedUnionMemberSize),
         };
-- 
2.43.0


From 3b7a5b675f31b93df4e0dc36a602c5a871b551d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 30/45] fix: limits.h values and isspace

---
 headers/ctype.h  |  2 +-
 headers/limits.h | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/headers/ctype.h b/headers/ctype.h
index 4e5d50e..97f0e26 100644
--- a/headers/ctype.h
+++ b/headers/ctype.h
@@ -56,7 +56,7 @@ int isupper(char c) {
 }
 
 int isspace(char c) {
-    return c == '\t' || c == '\r' || c == '\n' || c == ' ';
+    return c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f' || c == ' ';
 }
 
 char tolower(char c) {
diff --git a/headers/limits.h b/headers/limits.h
index a8ae41d..91f59b1 100644
--- a/headers/limits.h
+++ b/headers/limits.h
@@ -2,26 +2,26 @@
 #define _LIMITS_H
 
 #define CHAR_BIT 8
-#define SCHAR_MIN -128
+#define SCHAR_MIN (-128)
 #define SCHAR_MAX 127
 #define UCHAR_MAX 255
-#define CHAR_MIN -128
+#define CHAR_MIN (-128)
 #define CHAR_MAX 127
 
-#define SHRT_MIN -32768
+#define SHRT_MIN (-32768)
 #define SHRT_MAX 32767
 #define USHRT_MAX 65535
 
-#define INT_MIN -2147483648
+#define INT_MIN (-2147483647 - 1)
 #define INT_MAX 2147483647
-#define UINT_MAX 4294967296
+#define UINT_MAX 4294967295
 
-#define LONG_MIN -9223372036854775808
+#define LONG_MIN (-9223372036854775807 - 1)
 #define LONG_MAX 9223372036854775807
 #define ULONG_MAX 18446744073709551615
 
 // same as long
-#define LLONG_MIN -9223372036854775808
+#define LLONG_MIN (-9223372036854775807 - 1)
 #define LLONG_MAX 9223372036854775807
 #define ULLONG_MAX 18446744073709551615
 
-- 
2.43.0


From bef5f4e58d5d2852b82e0ec179bf37d2a4bae714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 31/45] fix: chars and strings with codes above 127, simple
 escape sequences

---
 src/back_end/initialise_memory.rs   |  2 +-
 src/front_end/interpret_string.rs   | 21 +++++++++++++++++----
 src/front_end/lexer.rs              |  3 ++-
 src/middle_end/ast_to_ir.rs         |  5 ++++-
 src/middle_end/compile_time_eval.rs |  3 ++-
 5 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 4e0c0db..68d03ac 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -35,7 +35,7 @@ pub fn initialise_memory(
             .string_literal_id_to_ptr_map
             .insert(string_literal_id.to_owned(), ptr_to_string as u32);
         // insert the string
-        data.append(&mut string.as_bytes().to_vec());
+        data.extend(string.chars().map(|c| c as u8));
         // null terminate the string
         data.push(0x00);
     }
diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 0b846ef..2d97f9f 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -4,8 +4,15 @@ use std::{iter::Peekable, str::Chars};
 #[path = "interpret_string_tests.rs"]
 mod interpret_string_tests;
 
+/// Every char of the resulting string stands for one byte
 pub fn interpret_string(s: &str) -> Result<String, Error> {
-    InterpretString::new(s).collect()
+    let source_bytes: String = s.bytes().map(char::from).collect();
+    InterpretString::new(&source_bytes).collect()
+}
+
+/// The code of a char must fit into a byte
+fn char_from_code(code: u32) -> Option<char> {
+    u8::try_from(code).ok().map(char::from)
 }
 
 struct InterpretString<'a> {
@@ -34,6 +41,10 @@ impl Iterator for InterpretString<'_> {
                     Some('n') => Ok('\n'),
                     Some('r') => Ok('\r'),
                     Some('t') => Ok('\t'),
+                    Some('a') => Ok('\x07'),
+                    Some('b') => Ok('\x08'),
+                    Some('v') => Ok('\x0b'),
+                    Some('f') => Ok('\x0c'),
                     Some('x') => {
                         // hex char code
                         // check whether the next digit is a valid hex digit,
@@ -54,8 +65,10 @@ impl Iterator for InterpretString<'_> {
                                 }
                                 // convert the hex code to an int, and then to
                                 // the corresponding char
-                                let hex_code = u32::from_str_radix(&buffer, 16).unwrap();
-                                match char::from_u32(hex_code) {
+                                match u32::from_str_radix(&buffer, 16)
+                                    .ok()
+                                    .and_then(char_from_code)
+                                {
                                     Some(c) => Ok(c),
                                     None => Err(Error::InvalidCharCode(buffer)),
                                 }
@@ -87,7 +100,7 @@ impl Iterator for InterpretString<'_> {
                         // convert the octal code to an int, and then to the
                         // corresponding char
                         let oct_code = u32::from_str_radix(&buffer, 8).unwrap();
-                        match char::from_u32(oct_code) {
+                        match char_from_code(oct_code) {
                             Some(c) => Ok(c),
                             None => Err(Error::InvalidCharCode(buffer)),
                         }
diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 687f9a2..b514f16 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -1024,7 +1024,8 @@ impl Fsm {
                 }),
             },
             State::Char2 => match input {
-                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'n' | c @ 'r' | c @ 't' => {
+                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'n' | c @ 'r' | c @ 't' | c @ 'a'
+                | c @ 'b' | c @ 'f' | c @ 'v' => {
                     match self.token {
                         Some(Token::CharConstant(mut s)) => {
                             s.push(c);
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index b31d8c4..543ea17 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -904,7 +904,10 @@ pub fn convert_expression_to_ir(
         Expression::Constant(c) => match c {
             ast::Constant::Int(i) => Ok((instrs, Src::Constant(Constant::Int(i as i128)))),
             ast::Constant::Float(f) => Ok((instrs, Src::Constant(Constant::Float(f)))),
-            ast::Constant::Char(ch) => Ok((instrs, Src::Constant(Constant::Int(ch as i128)))),
+            // chars are signed
+            ast::Constant::Char(ch) => {
+                Ok((instrs, Src::Constant(Constant::Int(ch as u8 as i8 as i128))))
+            }
         },
         Expression::StringLiteral(s) => {
             let string_id = prog.new_string_literal(s);
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 5c64d78..2b00ba9 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -32,7 +32,8 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
         Expression::Constant(c) => match c {
             AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
             AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
-            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as i128)),
+            // chars are signed
+            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as u8 as i8 as i128)),
         },
         Expression::StringLiteral(_) => Err(MiddleEndError::InvalidConstantExpression),
         Expression::Index(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
-- 
2.43.0


From cf342a0d842d03f8ad0057862970d2087a0070fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 32/45] fix: strtol and strtoul parse signs, prefixes, letters
 and values above 2^53, and saturate

---
 runtime/stdlib/stdlib.mjs | 88 ++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 28 deletions(-)

diff --git a/runtime/stdlib/stdlib.mjs b/runtime/stdlib/stdlib.mjs
index e15cdea..58c56e9 100644
--- a/runtime/stdlib/stdlib.mjs
+++ b/runtime/stdlib/stdlib.mjs
@@ -1,6 +1,49 @@
-import {I32_SIZE, I64_SIZE, NULL, PTR_SIZE} from "../memory_constants.mjs";
+import {I32_SIZE, I64_SIZE, MAX_I64, NULL, PTR_SIZE} from "../memory_constants.mjs";
 import {read_frame_ptr, read_int, read_ptr, read_string, store_int, store_ptr} from "../memory_operations.mjs";
-import {signed_to_unsigned_i64} from "../number_operations.mjs";
+
+const LONG_MAX = MAX_I64 / 2n - 1n;
+const LONG_MIN = -MAX_I64 / 2n;
+const ULONG_MAX = MAX_I64 - 1n;
+
+// the value of c as a digit, or 36 if it isn't one
+function digit_value(c) {
+    if (c >= "0" && c <= "9") return c.charCodeAt(0) - 48;
+    if (c >= "a" && c <= "z") return c.charCodeAt(0) - 97 + 10;
+    if (c >= "A" && c <= "Z") return c.charCodeAt(0) - 65 + 10;
+    return 36;
+}
+
+// parse the integer at the start of str
+// end is the index of the first character that isn't part of the number
+function parse_integer(str, base) {
+    let i = 0;
+    // skip initial whitespace
+    while (str[i] === " " || (str[i] >= "\t" && str[i] <= "\r")) {
+        i++;
+    }
+    let negative = false;
+    if (str[i] === "+" || str[i] === "-") {
+        negative = str[i] === "-";
+        i++;
+    }
+    const has_hex_prefix = str[i] === "0" && (str[i + 1] === "x" || str[i + 1] === "X")
+        && i + 2 < str.length && digit_value(str[i + 2]) < 16;
+    if (base === 0) {
+        base = has_hex_prefix ? 16 : str[i] === "0" ? 8 : 10;
+    }
+    if (base === 16 && has_hex_prefix) {
+        i += 2;
+    }
+    const start = i;
+    let magnitude = 0n;
+    while (i < str.length && digit_value(str[i]) < base) {
+        magnitude = magnitude * BigInt(base) + BigInt(digit_value(str[i]));
+        i++;
+    }
+    // if there are no digits then nothing is part of the number
+    const end = i === start ? 0 : i;
+    return {magnitude, negative, end};
+}
 
 // long strtol(const char *str, char **endptr, int base);
 export function strtol(wasm_memory) {
@@ -17,20 +60,16 @@ export function strtol(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = BigInt(parseInt(str, Number(base)));
+        const {magnitude, negative, end} = parse_integer(str, Number(base));
+        let result = negative ? -magnitude : magnitude;
+        if (result > LONG_MAX) {
+            result = LONG_MAX;
+        } else if (result < LONG_MIN) {
+            result = LONG_MIN;
+        }
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
-            store_ptr(end_ptr, end_ptr_value, memory);
+            store_ptr(end_ptr, str_ptr + end, memory);
         }
 
         // write return value
@@ -53,24 +92,17 @@ export function strtoul(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = parseInt(str, Number(base));
-        const unsigned_result = signed_to_unsigned_i64(BigInt(result));
+        const {magnitude, negative, end} = parse_integer(str, Number(base));
+        let result = negative ? -magnitude : magnitude;
+        if (magnitude > ULONG_MAX) {
+            result = ULONG_MAX;
+        }
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
-            store_ptr(end_ptr, end_ptr_value, memory);
+            store_ptr(end_ptr, str_ptr + end, memory);
         }
 
         // write return value
-        store_int(fp + PTR_SIZE, I64_SIZE, unsigned_result, memory);
+        store_int(fp + PTR_SIZE, I64_SIZE, result, memory);
     }
 }
-- 
2.43.0


From 025fa2be9061bb6d5358788f8693c7164da723a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 33/45] fix: printf returns the number of characters printed

---
 runtime/stdlib/stdio.mjs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 3837e47..99a247a 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -120,7 +120,7 @@ export function printf(wasm_memory) {
 
         process.stdout.write(str, "latin1"); // each char is one byte; only works in node.js, use console.log otherwise, but that prints newline
 
-        // write return value
-        store_int(fp + PTR_SIZE, I32_SIZE, 0n, memory);
+        // write return value: the number of bytes printed
+        store_int(fp + PTR_SIZE, I32_SIZE, BigInt(str.length), memory);
     };
 }
-- 
2.43.0


From 0799528b704e80d003100acfc179314a5af71cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 34/45] fix: printf %f prints six decimal places

---
 runtime/stdlib/stdio.mjs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 99a247a..005cb73 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -14,6 +14,38 @@ import {
 } from "../memory_operations.mjs";
 import {signed_to_unsigned_i16, signed_to_unsigned_i32, signed_to_unsigned_i64} from "../number_operations.mjs";
 
+// the "%f" representation of a double: six digits after the decimal point,
+// rounded half to even
+function format_double(value) {
+    if (Number.isNaN(value)) {
+        return "nan";
+    }
+    const sign = value < 0 || Object.is(value, -0) ? "-" : "";
+    if (!Number.isFinite(value)) {
+        return `${sign}inf`;
+    }
+    // split into an exact mantissa * 2^exponent
+    const bits = new BigUint64Array(new Float64Array([value]).buffer)[0];
+    const biased_exponent = (bits >> 52n) & 0x7ffn;
+    const fraction = bits & 0xf_ffff_ffff_ffffn;
+    const mantissa = biased_exponent === 0n ? fraction : fraction | (1n << 52n);
+    const exponent = (biased_exponent === 0n ? 1n : biased_exponent) - 1075n;
+
+    let millionths = mantissa * 1_000_000n;
+    if (exponent >= 0n) {
+        millionths <<= exponent;
+    } else {
+        const half = 1n << (-exponent - 1n);
+        const remainder = millionths & (2n * half - 1n);
+        millionths >>= -exponent;
+        if (remainder > half || (remainder === half && (millionths & 1n) === 1n)) {
+            millionths += 1n;
+        }
+    }
+    const digits = millionths.toString().padStart(7, "0");
+    return `${sign}${digits.slice(0, -6)}.${digits.slice(-6)}`;
+}
+
 // print a null-terminated string from memory to console
 // int printf(const char *format, ...);
 export function printf(wasm_memory) {
@@ -91,7 +123,7 @@ export function printf(wasm_memory) {
                             break;
                         case "f":
                             // double
-                            value = next_vararg_double();
+                            value = format_double(next_vararg_double());
                             break;
                         case "c":
                             // char
-- 
2.43.0


From f377d1881d329a07ca3895c9f9c28d6b44202fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:51 +0000
Subject: [PATCH 35/45] fix: constant arguments of optimised tail recursion
 have the parameter's type

---
 src/middle_end/middle_end_optimiser/tail_call_optimise.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 42c156c..9f30273 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -56,11 +56,11 @@ pub fn tail_call_optimise(
                                 for param_i in 0..params.len() {
                                     let new_param_src = params.get(param_i).unwrap();
                                     let temp_var = prog_metadata.new_var(ValueType::RValue);
+                                    // the type of the parameter, which a constant is smaller than
+                                    let param_var = param_var_mappings.get(param_i).unwrap();
+                                    let param_type = prog_metadata.get_var_type(param_var).unwrap();
                                     prog_metadata
-                                        .add_var_type(
-                                            temp_var.to_owned(),
-                                            new_param_src.get_type(prog_metadata).unwrap(),
-                                        )
+                                        .add_var_type(temp_var.to_owned(), param_type)
                                         .unwrap();
                                     temp_param_vars.push(temp_var.to_owned());
                                     new_instrs.push(Instruction::SimpleAssignment(
-- 
2.43.0


From eea914acbf260ed6b99c72d5eb5981baa10e210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:19 +0000
Subject: [PATCH 36/45] verification hooks behind --cfg vp_hooks

---
 src/back_end.rs            |  2 ++
 src/back_end/vp_hooks.rs   | 72 ++++++++++++++++++++++++++++++++++++++
 src/lib.rs                 |  7 ++++
 src/middle_end.rs          |  2 ++
 src/middle_end/vp_hooks.rs | 16 +++++++++
 5 files changed, 99 insertions(+)
 create mode 100644 src/back_end/vp_hooks.rs
 create mode 100644 src/middle_end/vp_hooks.rs

diff --git a/src/back_end.rs b/src/back_end.rs
index e77e9ac..bb56c48 100644
--- a/src/back_end.rs
+++ b/src/back_end.rs
@@ -17,3 +17,5 @@ mod wasm_indices;
 mod wasm_instructions;
 mod wasm_module;
 mod wasm_types;
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
diff --git a/src/back_end/vp_hooks.rs b/src/back_end/vp_hooks.rs
new file mode 100644
index 0000000..6cd7b0a
--- /dev/null
+++ b/src/back_end/vp_hooks.rs
@@ -0,0 +1,72 @@
+use crate::back_end::float_encoding::{encode_float, encode_float32};
+use crate::back_end::integer_encoding::{encode_signed_int, encode_unsigned_int};
+use crate::back_end::to_bytes::ToBytes;
+use crate::back_end::vector_encoding::encode_vector;
+use crate::back_end::wasm_instructions::{MemArg, WasmExpression, WasmInstruction};
+use crate::back_end::wasm_module::data_section::DataSegment;
+use crate::back_end::wasm_module::module::encode_section;
+use crate::back_end::wasm_types::Limits;
+
+pub fn unsigned(v: u128) -> Vec<u8> {
+    encode_unsigned_int(v)
+}
+
+pub fn signed(v: i128) -> Vec<u8> {
+    encode_signed_int(v)
+}
+
+pub fn float64(v: f64) -> Vec<u8> {
+    encode_float(v)
+}
+
+pub fn float32(v: f32) -> Vec<u8> {
+    encode_float32(v)
+}
+
+pub fn section(code: u8, body: Vec<u8>) -> Vec<u8> {
+    encode_section(code, body)
+}
+
+struct Bytes(Vec<u8>);
+
+impl ToBytes for Bytes {
+    fn to_bytes(&self) -> Vec<u8> {
+        self.0.clone()
+    }
+}
+
+pub fn vector(elements: Vec<Vec<u8>>) -> Vec<u8> {
+    encode_vector(&elements.into_iter().map(Bytes).collect())
+}
+
+pub fn i32_const(n: i32) -> Vec<u8> {
+    WasmInstruction::I32Const { n }.to_bytes()
+}
+
+pub fn i64_const(n: i64) -> Vec<u8> {
+    WasmInstruction::I64Const { n }.to_bytes()
+}
+
+pub fn f32_const(z: f32) -> Vec<u8> {
+    WasmInstruction::F32Const { z }.to_bytes()
+}
+
+pub fn f64_const(z: f64) -> Vec<u8> {
+    WasmInstruction::F64Const { z }.to_bytes()
+}
+
+pub fn mem_arg(align: u32, offset: u32) -> Vec<u8> {
+    MemArg { align, offset }.to_bytes()
+}
+
+pub fn limits(min: u32, max: Option<u32>) -> Vec<u8> {
+    Limits { min, max }.to_bytes()
+}
+
+pub fn data_segment(data: Vec<u8>) -> Vec<u8> {
+    DataSegment::ActiveSegmentMemIndexZero {
+        offset_expr: WasmExpression { instrs: Vec::new() },
+        data,
+    }
+    .to_bytes()
+}
diff --git a/src/lib.rs b/src/lib.rs
index f6aa0c0..293e151 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -30,6 +30,13 @@ mod preprocessor;
 mod program_config;
 mod relooper;
 
+/// Entry points for verification harnesses, only with `--cfg vp_hooks`
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub use crate::back_end::vp_hooks as back_end;
+    pub use crate::middle_end::vp_hooks as middle_end;
+}
+
 #[derive(ClapParser, Debug)]
 pub struct CliConfig {
     /// The path to the input file to compile
diff --git a/src/middle_end.rs b/src/middle_end.rs
index d1a94fa..57ed17a 100644
--- a/src/middle_end.rs
+++ b/src/middle_end.rs
@@ -10,3 +10,5 @@ pub mod ir_types;
 mod middle_end_error;
 pub mod middle_end_optimiser;
 mod type_conversions;
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
diff --git a/src/middle_end/vp_hooks.rs b/src/middle_end/vp_hooks.rs
new file mode 100644
index 0000000..20610e0
--- /dev/null
+++ b/src/middle_end/vp_hooks.rs
@@ -0,0 +1,16 @@
+use crate::middle_end::instructions::Constant;
+use crate::middle_end::ir_types::IrType;
+
+/// The type the compiler gives to an integer constant of at least int: (bits, signed)
+pub fn constant_type(n: i128) -> (u32, bool) {
+    let t = Constant::Int(n).get_type_minimum_i32();
+    let result = match &t {
+        IrType::I32 => (32, true),
+        IrType::U32 => (32, false),
+        IrType::I64 => (64, true),
+        IrType::U64 => (64, false),
+        _ => (0, false),
+    };
+    std::mem::forget(t);
+    result
+}
-- 
2.43.0


From 58dcf4e03693f0252d6531981e461a15745e621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 37/45] fix: the compiler runs on a stack large enough for
 deeply nested code

---
 src/main.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0c08733..b072895 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,11 @@ extern crate log;
 
 use c_to_wasm_compiler::CliConfig;
 use clap::Parser;
-use std::process;
+use std::{process, thread};
+
+/// The compiler is recursive over the structure of the source, so the stack it
+/// needs grows with how deeply the statements and expressions are nested.
+const STACK_SIZE: usize = 1 << 30;
 
 fn main() {
     pretty_env_logger::init();
@@ -16,8 +20,17 @@ fn main() {
     debug!("Cli arguments: {:?}", args);
 
     // run program and handle error
-    if let Err(e) = c_to_wasm_compiler::run(args) {
-        error!("Compile error: {e}");
-        process::exit(1);
+    let compiler = thread::Builder::new()
+        .stack_size(STACK_SIZE)
+        .spawn(move || {
+            if let Err(e) = c_to_wasm_compiler::run(args) {
+                error!("Compile error: {e}");
+                process::exit(1);
+            }
+        })
+        .expect("failed to start the compiler thread");
+    if compiler.join().is_err() {
+        // the compiler panicked, and has printed the reason
+        process::exit(101);
     }
 }
-- 
2.43.0


From 5ad06a7ae6bfbaf8622d873075815477f2a25bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 38/45] fix: ctype functions take and return int, codes above
 127 and EOF are classified as the standard says

---
 headers/ctype.h | 54 ++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/headers/ctype.h b/headers/ctype.h
index 97f0e26..c3aafb2 100644
--- a/headers/ctype.h
+++ b/headers/ctype.h
@@ -1,72 +1,72 @@
 #ifndef _CTYPE_H
 #define _CTYPE_H
 
-int isalnum(char c);
-int isalpha(char c);
-int iscntrl(char c);
-int isdigit(char c);
-int isxdigit(char c);
-int isgraph(char c);
-int ispunct(char c);
-int isprint(char c);
-int islower(char c);
-int isupper(char c);
-int isspace(char c);
-char tolower(char c);
-char toupper(char c);
+int isalnum(int c);
+int isalpha(int c);
+int iscntrl(int c);
+int isdigit(int c);
+int isxdigit(int c);
+int isgraph(int c);
+int ispunct(int c);
+int isprint(int c);
+int islower(int c);
+int isupper(int c);
+int isspace(int c);
+int tolower(int c);
+int toupper(int c);
 
-int isalnum(char c) {
+int isalnum(int c) {
     return isalpha(c) || isdigit(c);
 }
 
-int isalpha(char c) {
+int isalpha(int c) {
     return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
 }
 
-int iscntrl(char c) {
+int iscntrl(int c) {
     return (c >= 0 && c <= 31) || c == 127;
 }
 
-int isdigit(char c) {
+int isdigit(int c) {
     return (c >= '0' && c <= '9');
 }
 
-int isxdigit(char c) {
+int isxdigit(int c) {
     return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
 }
 
-int isgraph(char c) {
+int isgraph(int c) {
     return isprint(c) && (c != ' ');
 }
 
-int ispunct(char c) {
+int ispunct(int c) {
     return isgraph(c) && !isalnum(c);
 }
 
-int isprint(char c) {
-    return !iscntrl(c);
+int isprint(int c) {
+    return c >= 32 && c <= 126;
 }
 
-int islower(char c) {
+int islower(int c) {
     return c >= 'a' && c <= 'z';
 }
 
-int isupper(char c) {
+int isupper(int c) {
     return c >= 'A' && c <= 'Z';
 }
 
-int isspace(char c) {
+int isspace(int c) {
     return c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f' || c == ' ';
 }
 
-char tolower(char c) {
+int tolower(int c) {
     if (isupper(c)) {
         return c - 'A' + 'a';
     }
     return c;
 }
 
-char toupper(char c) {
+int toupper(int c) {
     if (islower(c)) {
         return c - 'a' + 'A';
     }
-- 
2.43.0


From a687013944d8fba9954e94e874cb0475510532a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 39/45] fix: size_t is an unsigned type

---
 headers/stddef.h          | 2 +-
 headers/string.h          | 2 +-
 runtime/stdlib/string.mjs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/headers/stddef.h b/headers/stddef.h
index bada4d3..ed0c76d 100644
--- a/headers/stddef.h
+++ b/headers/stddef.h
@@ -3,7 +3,7 @@
 
 #define NULL ((void*)0)
 
-typedef int size_t;
+typedef unsigned int size_t;
 typedef int ptrdiff_t;
 typedef int wchar_t;
 
diff --git a/headers/string.h b/headers/string.h
index 7bb19d1..c95403d 100644
--- a/headers/string.h
+++ b/headers/string.h
@@ -3,7 +3,7 @@
 
 #define NULL ((void*)0)
 
-typedef int size_t;
+typedef unsigned int size_t;
 
 size_t strlen(const char *s);
 
diff --git a/runtime/stdlib/string.mjs b/runtime/stdlib/string.mjs
index ffbe47f..2dec550 100644
--- a/runtime/stdlib/string.mjs
+++ b/runtime/stdlib/string.mjs
@@ -3,7 +3,7 @@
 import {NULL, PTR_SIZE, SIZE_T_SIZE} from "../memory_constants.mjs";
 import {read_frame_ptr, read_ptr, read_string, store_int, store_ptr} from "../memory_operations.mjs";
 
-// (size_t = int)
+// (size_t = unsigned int)
 export function strlen(wasm_memory) {
     return () => {
         const memory = new Uint8Array(wasm_memory.buffer);
-- 
2.43.0


From cd8d3e0740f4cb0b2ccc343e4d597d3d346296e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 40/45] fix: string.h and stddef.h can be included together

---
 headers/stddef.h | 3 +++
 headers/string.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/headers/stddef.h b/headers/stddef.h
index ed0c76d..1d87868 100644
--- a/headers/stddef.h
+++ b/headers/stddef.h
@@ -3,7 +3,10 @@
 
 #define NULL ((void*)0)
 
+#ifndef _SIZE_T
+#define _SIZE_T
 typedef unsigned int size_t;
+#endif
 typedef int ptrdiff_t;
 typedef int wchar_t;
 
diff --git a/headers/string.h b/headers/string.h
index c95403d..e37c222 100644
--- a/headers/string.h
+++ b/headers/string.h
@@ -3,7 +3,10 @@
 
 #define NULL ((void*)0)
 
+#ifndef _SIZE_T
+#define _SIZE_T
 typedef unsigned int size_t;
+#endif
 
 size_t strlen(const char *s);
 
-- 
2.43.0


From 963c652d17a34924503542bdd7be2eb4efb6fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 41/45] fix: intptr_t and uintptr_t have the width of a pointer

---
 headers/stdint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/headers/stdint.h b/headers/stdint.h
index 841aec8..c1dfe14 100644
--- a/headers/stdint.h
+++ b/headers/stdint.h
@@ -18,7 +18,7 @@ typedef signed long int_least64_t;
 
 typedef signed long intmax_t;
 
-typedef signed long intptr_t;
+typedef signed int intptr_t;
 
 typedef unsigned char uint8_t;
 typedef unsigned short uint16_t;
@@ -37,6 +37,6 @@ typedef unsigned long uint_least64_t;
 
 typedef unsigned long uintmax_t;
 
-typedef unsigned long uintptr_t;
+typedef unsigned int uintptr_t;
 
 #endif
-- 
2.43.0


From 65f109106f76a478f7954c23a5ba671fbdd3a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 42/45] fix: a pointer converts to uintptr_t

---
 src/middle_end/type_conversions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 2b8a94c..16289b2 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -827,9 +827,9 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
-        (IrType::PointerTo(_), IrType::I32) => {
+        (IrType::PointerTo(_), int_type @ (IrType::I32 | IrType::U32)) => {
             let dest = prog.new_var(src.get_value_type());
-            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            prog.add_var_type(dest.to_owned(), int_type)?;
             instrs.push(Instruction::PtrToI32(
                 prog.new_instr_id(),
                 dest.to_owned(),
-- 
2.43.0


From 47092643c503ffe3ad0d347829f7eab4092faf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 43/45] fix: control flow in the initialisers of global
 variables

---
 src/back_end/target_code_generation.rs         | 5 ++++-
 src/back_end/target_code_generation_context.rs | 5 ++---
 src/relooper/relooper.rs                       | 3 +++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index f43e98d..7862e39 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -117,7 +117,10 @@ pub fn generate_target_code(
         //     &prog.program_metadata,
         // );
 
-        let mut global_context = FunctionContext::global_context(global_var_addrs.to_owned());
+        let mut global_context = FunctionContext::global_context(
+            global_var_addrs.to_owned(),
+            prog.program_blocks.global_label_variable.unwrap(),
+        );
 
         global_wasm_instrs.append(&mut convert_block_to_wasm(
             global_block,
diff --git a/src/back_end/target_code_generation_context.rs b/src/back_end/target_code_generation_context.rs
index 7966938..802f122 100644
--- a/src/back_end/target_code_generation_context.rs
+++ b/src/back_end/target_code_generation_context.rs
@@ -1,7 +1,6 @@
 use std::collections::HashMap;
 
 use crate::back_end::wasm_indices::{FuncIdx, WasmIdx};
-use crate::id::Id;
 use crate::middle_end::ids::{FunId, StringLiteralId, VarId};
 use crate::program_config::enabled_profiling::EnabledProfiling;
 use crate::relooper::blocks::{LoopBlockId, MultipleBlockId};
@@ -90,11 +89,11 @@ impl FunctionContext {
         }
     }
 
-    pub fn global_context(global_var_addrs: HashMap<VarId, u32>) -> Self {
+    pub fn global_context(global_var_addrs: HashMap<VarId, u32>, label_variable: VarId) -> Self {
         FunctionContext {
             var_fp_offsets: HashMap::new(),
             global_var_addrs,
-            label_variable: VarId::initial_id(), // dummy var, because global instrs don't have any control flow
+            label_variable,
             control_flow_stack: Vec::new(),
         }
     }
diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index 7f7b5e3..a7e2c18 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -47,6 +47,7 @@ pub struct ReloopedFunction {
 pub struct ProgramBlocks {
     pub functions: HashMap<FunId, ReloopedFunction>,
     pub global_instrs: Option<Block>,
+    pub global_label_variable: Option<VarId>,
 }
 
 impl ProgramBlocks {
@@ -54,6 +55,7 @@ impl ProgramBlocks {
         ProgramBlocks {
             functions: HashMap::new(),
             global_instrs: None,
+            global_label_variable: None,
         }
     }
 }
@@ -141,6 +143,7 @@ pub fn reloop(mut prog: Program) -> ReloopedProgram {
                 info!("Created block for global instructions:\n{}", block);
                 assert_no_branch_instrs_left(&block);
                 program_blocks.global_instrs = Some(block);
+                program_blocks.global_label_variable = Some(label_var);
             }
             None => error!("No block created for global instructions, even though non-empty"),
         }
-- 
2.43.0


From 45e797b50bc66c970b8157ef272d8a2ea63deb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 44/45] fix: sizeof does not evaluate its operand, a constant
 operand has at least int size

---
 src/middle_end/ast_to_ir.rs         | 9 ++++++---
 src/middle_end/get_ast_type_info.rs | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 543ea17..7720cd4 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1674,9 +1674,12 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::SizeOfExpr(e) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*e, prog, context)?;
-            instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            // the operand isn't evaluated, so its instructions are not needed
+            let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
+            let expr_var_type = match &expr_var {
+                Src::Constant(c) => c.get_type_minimum_i32(),
+                _ => expr_var.get_type(&prog.program_metadata)?,
+            };
 
             let type_size = expr_var_type.get_object_byte_size(&prog.program_metadata)?;
             let size = match type_size {
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 287bd34..0eb4129 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -163,7 +163,7 @@ pub fn get_type_info(
                                 Enumerator::Simple(Identifier(name)) => {
                                     context
                                         .add_enum_constant(name.to_owned(), next_constant_value)?;
-                                    next_constant_value += 1;
+                                    next_constant_value = next_constant_value.wrapping_add(1);
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
                                     let value =
@@ -172,7 +172,7 @@ pub fn get_type_info(
                                     context.add_enum_constant(name.to_owned(), value)?;
                                     // value of next constant without explicit value is one more than
                                     // the last constant
-                                    next_constant_value = value + 1;
+                                    next_constant_value = value.wrapping_add(1);
                                 }
                             }
                         }
-- 
2.43.0


From 48397f4233b02421286b952b3de24504f26ca6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 45/45] fix: sizeof a string literal is the size of its array

---
 src/middle_end/ast_to_ir.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 7720cd4..53ef9c4 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1674,6 +1674,11 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::SizeOfExpr(e) => {
+            // a string literal is an array, with a null character at the end
+            let string_size = match e.as_ref() {
+                Expression::StringLiteral(s) => Some(s.chars().count() as u64 + 1),
+                _ => None,
+            };
             // the operand isn't evaluated, so its instructions are not needed
             let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
             let expr_var_type = match &expr_var {
@@ -1681,7 +1686,10 @@ pub fn convert_expression_to_ir(
                 _ => expr_var.get_type(&prog.program_metadata)?,
             };
 
-            let type_size = expr_var_type.get_object_byte_size(&prog.program_metadata)?;
+            let type_size = match string_size {
+                Some(size) => TypeSize::CompileTime(size),
+                None => expr_var_type.get_object_byte_size(&prog.program_metadata)?,
+            };
             let size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
                 TypeSize::Runtime(size_expr) => {
-- 
2.43.0

