From 7fc2000dca751943d5c2012a52766770fecc9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 01/72] fix: convert between every pair of arithmetic types,
 preserving negative char/short values

---
 .../dataflow_analysis/instruction_def_ref.rs  |   6 +
 .../stack_allocation/get_vars_from_block.rs   |   3 +
 src/back_end/target_code_generation.rs        |  57 +++++++
 src/middle_end/instructions.rs                |  11 +-
 src/middle_end/type_conversions.rs            | 149 ++++++++++++++----
 5 files changed, 191 insertions(+), 35 deletions(-)

diff --git a/src/back_end/dataflow_analysis/instruction_def_ref.rs b/src/back_end/dataflow_analysis/instruction_def_ref.rs
index 4205ad9..08cf389 100644
--- a/src/back_end/dataflow_analysis/instruction_def_ref.rs
+++ b/src/back_end/dataflow_analysis/instruction_def_ref.rs
@@ -56,7 +56,10 @@ pub fn def_set(instr: &Instruction) -> HashSet<VarId> {
         | Instruction::U64toF64(_, dest, _)
         | Instruction::I64toF64(_, dest, _)
         | Instruction::F32toF64(_, dest, _)
+        | Instruction::F64toF32(_, dest, _)
         | Instruction::F64toI32(_, dest, _)
+        | Instruction::F64toI64(_, dest, _)
+        | Instruction::F64toU64(_, dest, _)
         | Instruction::I32toI8(_, dest, _)
         | Instruction::U32toI8(_, dest, _)
         | Instruction::I64toI8(_, dest, _)
@@ -113,7 +116,10 @@ pub fn ref_set(instr: &Instruction) -> HashSet<VarId> {
         | Instruction::U64toF64(_, _, src)
         | Instruction::I64toF64(_, _, src)
         | Instruction::F32toF64(_, _, src)
+        | Instruction::F64toF32(_, _, src)
         | Instruction::F64toI32(_, _, src)
+        | Instruction::F64toI64(_, _, src)
+        | Instruction::F64toU64(_, _, src)
         | Instruction::I32toI8(_, _, src)
         | Instruction::U32toI8(_, _, src)
         | Instruction::I64toI8(_, _, src)
diff --git a/src/back_end/stack_allocation/get_vars_from_block.rs b/src/back_end/stack_allocation/get_vars_from_block.rs
index 06cba07..7484514 100644
--- a/src/back_end/stack_allocation/get_vars_from_block.rs
+++ b/src/back_end/stack_allocation/get_vars_from_block.rs
@@ -113,7 +113,10 @@ fn get_vars_from_instrs(
             | Instruction::U64toF64(_, dest, _)
             | Instruction::I64toF64(_, dest, _)
             | Instruction::F32toF64(_, dest, _)
+            | Instruction::F64toF32(_, dest, _)
             | Instruction::F64toI32(_, dest, _)
+            | Instruction::F64toI64(_, dest, _)
+            | Instruction::F64toU64(_, dest, _)
             | Instruction::I32toI8(_, dest, _)
             | Instruction::U32toI8(_, dest, _)
             | Instruction::I64toI8(_, dest, _)
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 887ba25..57dfddf 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -2177,6 +2177,63 @@ fn convert_ir_instr_to_wasm(
                 prog_metadata,
             );
         }
+        Instruction::F64toI64(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to i64
+            temp_instrs.push(WasmInstruction::I64TruncF64S);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
+        Instruction::F64toU64(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to u64
+            temp_instrs.push(WasmInstruction::I64TruncF64U);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
+        Instruction::F64toF32(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to f32
+            temp_instrs.push(WasmInstruction::F32DemoteF64);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
         Instruction::Nop(..) => {
             // do nothing
         }
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index dc5bfdd..ebb13e4 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -224,8 +224,13 @@ pub enum Instruction {
     // float promotion
     F32toF64(InstructionId, Dest, Src),
 
+    // double to float
+    F64toF32(InstructionId, Dest, Src),
+
     // double to int
     F64toI32(InstructionId, Dest, Src),
+    F64toI64(InstructionId, Dest, Src),
+    F64toU64(InstructionId, Dest, Src),
 
     // integer truncation
     I32toI8(InstructionId, Dest, Src),
@@ -323,7 +328,10 @@ impl Instruction {
             | Instruction::U64toF64(id, _, _)
             | Instruction::I64toF64(id, _, _)
             | Instruction::F32toF64(id, _, _)
+            | Instruction::F64toF32(id, _, _)
             | Instruction::F64toI32(id, _, _)
+            | Instruction::F64toI64(id, _, _)
+            | Instruction::F64toU64(id, _, _)
             | Instruction::I32toI8(id, _, _)
             | Instruction::U32toI8(id, _, _)
             | Instruction::I64toI8(id, _, _)
@@ -493,7 +501,8 @@ impl fmt::Display for Instruction {
             Instruction::U32toF32(id, dest, src)
             | Instruction::I32toF32(id, dest, src)
             | Instruction::U64toF32(id, dest, src)
-            | Instruction::I64toF32(id, dest, src) => {
+            | Instruction::I64toF32(id, dest, src)
+            | Instruction::F64toF32(id, dest, src) => {
                 write!(f, "[{id}] {dest} = (F32) {src}")
             }
             Instruction::U32toF64(id, dest, src)
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 5f140c9..538572e 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -320,23 +320,13 @@ pub fn get_type_conversion_instrs(
         // char promotions
         (IrType::I8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::I8toI16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I16;
-            } else {
-                // unsigned
-                instrs.push(Instruction::I8toU16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U16;
-            }
+            // the value is preserved by sign extending it, whatever it's then converted to
+            instrs.push(Instruction::I8toI16(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let intermediate_type = IrType::I16;
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -384,23 +374,13 @@ pub fn get_type_conversion_instrs(
         }
         (IrType::I16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::I16toI32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I32;
-            } else {
-                // unsigned
-                instrs.push(Instruction::I16toU32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U32;
-            }
+            // the value is preserved by sign extending it, whatever it's then converted to
+            instrs.push(Instruction::I16toI32(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let intermediate_type = IrType::I32;
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -760,6 +740,107 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        // narrowing/reinterpreting conversions where the src and dest are represented by the same
+        // wasm value type, so loading the src and storing it as the dest type is the conversion
+        (
+            IrType::I32 | IrType::U32,
+            dest_type @ (IrType::I16 | IrType::U16 | IrType::I32 | IrType::PointerTo(_)),
+        )
+        | (IrType::U64, dest_type @ IrType::I64)
+        | (IrType::PointerTo(_), dest_type @ IrType::U32) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), dest_type)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (
+            IrType::I64 | IrType::U64,
+            dest_type @ (IrType::I16 | IrType::U16 | IrType::U32 | IrType::PointerTo(_)),
+        ) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), dest_type)?;
+            instrs.push(Instruction::I64toI32(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::F64, IrType::F32) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::F32)?;
+            instrs.push(Instruction::F64toF32(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::F64, dest_type @ (IrType::I8 | IrType::U8 | IrType::I16 | IrType::U16)) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), dest_type)?;
+            instrs.push(Instruction::F64toI32(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::F64, dest_type @ (IrType::I64 | IrType::U32)) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::I64)?;
+            instrs.push(Instruction::F64toI64(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            let (mut convert_instrs, dest) =
+                get_type_conversion_instrs(Src::Var(dest), IrType::I64, dest_type, prog)?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
+        (IrType::F64, IrType::U64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::U64)?;
+            instrs.push(Instruction::F64toU64(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        // float to integer, via double
+        (IrType::F32, dest_type) if dest_type.is_integral_type() => {
+            let intermediate_var = prog.new_var(src.get_value_type());
+            prog.add_var_type(intermediate_var.to_owned(), IrType::F64)?;
+            instrs.push(Instruction::F32toF64(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let (mut convert_instrs, dest) = get_type_conversion_instrs(
+                Src::Var(intermediate_var),
+                IrType::F64,
+                dest_type,
+                prog,
+            )?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
+        (IrType::PointerTo(_), dest_type @ (IrType::I64 | IrType::U64)) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), dest_type)?;
+            instrs.push(Instruction::U32toU64(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
         (s, d) => Err(MiddleEndError::TypeConversionError(
             "Cannot convert type",
             s,
-- 
2.43.0


From 0a4d7c5cb0e5b1188b8e18b2d19e83f1edf1a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 02/72] fix: give integer constants their C types instead of
 the smallest unsigned type

---
 src/back_end/stack_frame_operations.rs |  4 ++--
 src/middle_end/instructions.rs         | 24 +++++-------------------
 2 files changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/back_end/stack_frame_operations.rs b/src/back_end/stack_frame_operations.rs
index d5b2e1b..72721f9 100644
--- a/src/back_end/stack_frame_operations.rs
+++ b/src/back_end/stack_frame_operations.rs
@@ -287,7 +287,7 @@ pub fn set_up_new_stack_frame(
                 load_stack_ptr(wasm_instrs);
 
                 let param_type = if param_index >= param_types.len() {
-                    constant.get_type_minimum_i32()
+                    constant.get_type(None)
                 } else {
                     param_types.get(param_index).unwrap().to_owned()
                 };
@@ -475,7 +475,7 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
                 load_stack_ptr(wasm_instrs);
 
                 let param_type = if param_index >= param_types.len() {
-                    constant.get_type_minimum_i32()
+                    constant.get_type(None)
                 } else {
                     param_types.get(param_index).unwrap().to_owned()
                 };
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index ebb13e4..d3eafe8 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -22,32 +22,18 @@ impl Constant {
                         return t;
                     }
                 }
+                // an integer constant has the first of the types int, unsigned int, long,
+                // unsigned long that can represent it
                 match i {
-                    0..=255 => IrType::U8,
-                    -128..=127 => IrType::I8,
-                    0..=65_535 => IrType::U16,
-                    -32_768..=32_767 => IrType::I16,
-                    0..=4_294_967_296 => IrType::U32,
                     -2_147_483_648..=2_147_483_647 => IrType::I32,
-                    0..=18_446_744_073_709_551_615 => IrType::U64,
-                    _ => IrType::I64,
+                    0..=4_294_967_295 => IrType::U32,
+                    -9_223_372_036_854_775_808..=9_223_372_036_854_775_807 => IrType::I64,
+                    _ => IrType::U64,
                 }
             }
             Constant::Float(_) => IrType::F64,
         }
     }
-
-    pub fn get_type_minimum_i32(&self) -> IrType {
-        match self {
-            Constant::Int(i) => match i {
-                0..=4_294_967_296 => IrType::U32,
-                -2_147_483_648..=2_147_483_647 => IrType::I32,
-                0..=18_446_744_073_709_551_615 => IrType::U64,
-                _ => IrType::I64,
-            },
-            Constant::Float(_) => IrType::F64,
-        }
-    }
 }
 
 impl fmt::Display for Constant {
-- 
2.43.0


From 16bf82b3e6191de055633cc0679067d74adfe121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 03/72] fix: unary operators and hex constants yield the type
 and value C gives them

---
 src/back_end/target_code_generation.rs |  9 +++--
 src/front_end/ast.rs                   | 14 +++++++
 src/front_end/c_parser.lalrpop         |  6 +--
 src/middle_end/ast_to_ir.rs            | 55 +++++++++++++++++---------
 src/middle_end/compile_time_eval.rs    |  8 ++--
 src/middle_end/instructions.rs         |  5 +--
 6 files changed, 66 insertions(+), 31 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 57dfddf..a1b2ab2 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -635,12 +635,12 @@ fn convert_ir_instr_to_wasm(
             // logical not is implemented as a test-for-zero and set
             //
             // load src
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let src_type = src.get_type(prog_metadata).unwrap();
 
             let mut temp_instrs = Vec::new();
             load_src(
                 src,
-                dest_type.to_owned(),
+                src_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
@@ -648,14 +648,15 @@ fn convert_ir_instr_to_wasm(
 
             // logical not
             // test if src is zero
-            match dest_type {
+            match src_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
                 | IrType::U16
                 | IrType::I32
                 | IrType::U32
-                | IrType::PointerTo(_) => {
+                | IrType::PointerTo(_)
+                | IrType::ArrayOf(_, _) => {
                     temp_instrs.push(WasmInstruction::I32Eqz);
                 }
                 IrType::I64 | IrType::U64 => {
diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 0d98dd7..0b451ad 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -39,14 +39,28 @@ impl AstNode for Identifier {
 #[derive(Debug, Clone, PartialEq)]
 pub enum Constant {
     Int(u128),
+    /// a constant of type unsigned int
+    UnsignedInt(u128),
     Float(f64),
     Char(char),
 }
 
+impl Constant {
+    /// Unlike a decimal constant, a binary, octal or hex constant can have type unsigned int,
+    /// if it's too large for an int
+    pub fn non_decimal(value: u128) -> Self {
+        match value {
+            2_147_483_648..=4_294_967_295 => Constant::UnsignedInt(value),
+            _ => Constant::Int(value),
+        }
+    }
+}
+
 impl AstNode for Constant {
     fn reconstruct_source(&self) -> String {
         match self {
             Constant::Int(i) => format!("{i}"),
+            Constant::UnsignedInt(i) => format!("{i:#x}"),
             Constant::Float(f) => format!("{f}"),
             Constant::Char(c) => format!("'{c}'"),
         }
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index b679a5a..5e6f045 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -138,13 +138,13 @@ CommaSepListWithTrailing<T>: Vec<T> = {
 pub Identifier: ast::Identifier = "Identifier" => ast::Identifier(<>.to_owned());
 
 pub Constant: ast::Constant = {
-  IntegerConstant => ast::Constant::Int(<>),
+  DecimalConstant => ast::Constant::Int(<>),
+  NonDecimalConstant => ast::Constant::non_decimal(<>),
   DecimalFloatingConstant => ast::Constant::Float(<>),
   CharConstant => ast::Constant::Char(<>),
 };
 
-IntegerConstant: u128 = {
-  DecimalConstant,
+NonDecimalConstant: u128 = {
   BinaryConstant,
   OctalConstant,
   HexConstant,
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6b59e47..dc280c7 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -726,6 +726,16 @@ pub fn convert_expression_to_ir(
         }
         Expression::Constant(c) => match c {
             ast::Constant::Int(i) => Ok((instrs, Src::Constant(Constant::Int(i as i128)))),
+            ast::Constant::UnsignedInt(i) => {
+                let temp = prog.new_var(ValueType::RValue);
+                prog.add_var_type(temp.to_owned(), IrType::U32)?;
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    temp.to_owned(),
+                    Src::Constant(Constant::Int(i as i128)),
+                ));
+                Ok((instrs, Src::Var(temp)))
+            }
             ast::Constant::Float(f) => Ok((instrs, Src::Constant(Constant::Float(f)))),
             ast::Constant::Char(ch) => Ok((instrs, Src::Constant(Constant::Int(ch as i128)))),
         },
@@ -1430,37 +1440,46 @@ pub fn convert_expression_to_ir(
                 //     }
                 // }
                 UnaryOperator::Plus => {
-                    let dest = prog.new_var(ValueType::RValue);
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
-                        expr_var,
-                    ));
                     if !expr_var_type.is_arithmetic_type() {
                         return Err(MiddleEndError::InvalidOperation(
                             "Unary plus of a non-arithmetic type",
                         ));
                     }
-                    // type of dest is same as type of src
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    Ok((instrs, Src::Var(dest)))
-                }
-                UnaryOperator::Minus => {
                     let dest = prog.new_var(ValueType::RValue);
-                    instrs.push(Instruction::Sub(
+                    instrs.push(Instruction::SimpleAssignment(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
                         expr_var,
                     ));
+                    // type of dest is same as type of src
+                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
+                    Ok((instrs, Src::Var(dest)))
+                }
+                UnaryOperator::Minus => {
                     if !expr_var_type.is_arithmetic_type() {
                         return Err(MiddleEndError::InvalidOperation(
                             "Unary minus of a non-arithmetic type",
                         ));
                     }
-                    let dest_type = expr_var_type.smallest_signed_equivalent()?;
-                    prog.add_var_type(dest.to_owned(), dest_type)?;
+                    let dest = prog.new_var(ValueType::RValue);
+                    // type of dest is same as type of src
+                    prog.add_var_type(dest.to_owned(), expr_var_type.to_owned())?;
+                    if expr_var_type.is_integral_type() {
+                        instrs.push(Instruction::Sub(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Constant(Constant::Int(0)),
+                            expr_var,
+                        ));
+                    } else {
+                        // multiply by -1 rather than subtracting from 0, so that -(0.0) is -0.0
+                        instrs.push(Instruction::Mult(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Constant(Constant::Float(-1.)),
+                            expr_var,
+                        ));
+                    }
                     Ok((instrs, Src::Var(dest)))
                 }
                 UnaryOperator::BitwiseNot => {
@@ -1491,8 +1510,8 @@ pub fn convert_expression_to_ir(
                             "Logical not of a non-scalar type",
                         ));
                     }
-                    // dest type is same as src
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
+                    // result is always int 0 or 1
+                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 _ => unreachable!("other cases handled separately"),
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 41dcc1f..5f71f83 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -30,7 +30,9 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
     match expr {
         Expression::Identifier(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::Constant(c) => match c {
-            AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
+            AstConstant::Int(i) | AstConstant::UnsignedInt(i) => {
+                Ok(ConstantExpressionType::Int(i as i128))
+            }
             AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
             AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as i128)),
         },
@@ -58,10 +60,10 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 UnaryOperator::LogicalNot => match expr_result {
                     ConstantExpressionType::Int(i) => {
-                        Ok(ConstantExpressionType::Int(!(i > 0) as i128))
+                        Ok(ConstantExpressionType::Int((i == 0) as i128))
                     }
                     ConstantExpressionType::Float(f) => {
-                        Ok(ConstantExpressionType::Int(!(f > 0.) as i128))
+                        Ok(ConstantExpressionType::Int((f == 0.) as i128))
                     }
                 },
             }
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index d3eafe8..c239c3c 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -22,11 +22,10 @@ impl Constant {
                         return t;
                     }
                 }
-                // an integer constant has the first of the types int, unsigned int, long,
-                // unsigned long that can represent it
+                // an integer constant has the first of the types int, long, unsigned long
+                // that can represent it
                 match i {
                     -2_147_483_648..=2_147_483_647 => IrType::I32,
-                    0..=4_294_967_295 => IrType::U32,
                     -9_223_372_036_854_775_808..=9_223_372_036_854_775_807 => IrType::I64,
                     _ => IrType::U64,
                 }
-- 
2.43.0


From 888af5d7606d20cb33bd7d6815ce4eca06a80e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 04/72] fix: convert arguments and return values to the
 declared types

---
 runtime/stdlib/stdio.mjs       | 10 +++++-----
 src/middle_end/ast_to_ir.rs    | 36 ++++++++++++++++++++++++++++++++--
 src/middle_end/context.rs      |  3 +++
 src/middle_end/instructions.rs | 10 ++++++++++
 4 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 19b5029..d1c35e1 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -1,9 +1,7 @@
 import {
     F64_SIZE,
-    I16_SIZE,
     I32_SIZE,
     I64_SIZE,
-    I8_SIZE,
     PTR_SIZE,
 } from "../memory_constants.mjs";
 import {
@@ -74,7 +72,8 @@ export function printf(wasm_memory) {
                             if (c != "i" && c != "d" && c != "u") {
                                 console.log("Error: invalid format specifier to printf");
                             }
-                            value = next_vararg_int(I16_SIZE);
+                            // shorts get promoted to int when passed as varargs
+                            value = BigInt.asIntN(16, next_vararg_int(I32_SIZE));
                             if (c === "u") {
                                 value = signed_to_unsigned_i16(value);
                             }
@@ -96,8 +95,9 @@ export function printf(wasm_memory) {
                             break;
                         case "c":
                             // char
-                            value = next_vararg_int(I8_SIZE);
-                            value = String.fromCharCode(value);
+                            // chars get promoted to int when passed as varargs
+                            value = next_vararg_int(I32_SIZE);
+                            value = String.fromCharCode(Number(value & 0xffn));
                             break;
                         case "s":
                             // string
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index dc280c7..eeb1960 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -76,8 +76,17 @@ fn convert_statement_to_ir(
                 instrs.push(Instruction::Ret(prog.new_instr_id(), None));
             }
             Some(expr) => {
-                let (mut expr_instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
+                let (mut expr_instrs, mut expr_var) =
+                    convert_expression_to_ir(expr, prog, context)?;
                 instrs.append(&mut expr_instrs);
+                // convert the value to the return type of the function
+                if let Some(return_type) = context.function_return_type.to_owned() {
+                    let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+                    let (mut convert_instrs, converted_var) =
+                        convert_type_for_assignment(expr_var, expr_var_type, return_type, prog)?;
+                    instrs.append(&mut convert_instrs);
+                    expr_var = converted_var;
+                }
                 instrs.push(Instruction::Ret(prog.new_instr_id(), Some(expr_var)));
             }
         },
@@ -681,6 +690,12 @@ fn convert_statement_to_ir(
             let fun_declaration = Function::declaration(type_info.to_owned());
             let fun_id = prog.new_fun_body(name.to_owned(), fun_declaration)?;
             context.add_function_declaration(name.to_owned(), fun_id)?;
+            context.function_return_type = match &type_info {
+                IrType::Function(return_type, _, _) if **return_type != IrType::Void => {
+                    Some(*return_type.to_owned())
+                }
+                _ => None,
+            };
             // function body instructions
             let instrs = convert_statement_to_ir(*body, prog, context)?;
             // update function in program with full body
@@ -856,12 +871,29 @@ pub fn convert_expression_to_ir(
             // must be a function name to be able to be called
             let fun_id = fun_var.require_function_id()?;
             let dest_type = fun_var.get_function_return_type(prog)?;
+            let param_types = fun_var.get_function_param_types(prog)?;
 
             let mut param_srcs: Vec<Src> = Vec::new();
             for param in params {
                 let (mut param_instrs, param_var) = convert_expression_to_ir(param, prog, context)?;
-                // todo function parameter passing type conversions
                 instrs.append(&mut param_instrs);
+                // convert the argument to the type of the parameter
+                let param_var_type = param_var.get_type(&prog.program_metadata)?;
+                let dest_param_type = match param_types.get(param_srcs.len()) {
+                    Some(param_type) => array_to_pointer_type(param_type.to_owned()),
+                    // default argument promotions
+                    None => match param_var_type.unary_convert() {
+                        IrType::F32 => IrType::F64,
+                        promoted_type => promoted_type,
+                    },
+                };
+                let (mut convert_instrs, param_var) = convert_type_for_assignment(
+                    param_var,
+                    param_var_type,
+                    dest_param_type,
+                    prog,
+                )?;
+                instrs.append(&mut convert_instrs);
                 param_srcs.push(param_var);
             }
             let dest = prog.new_var(ValueType::RValue);
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 364dd08..b1d31ca 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -15,6 +15,8 @@ pub struct Context {
     pub in_function_name_expr: bool,
     function_names: HashMap<String, FunId>,
     pub directly_on_lhs_of_assignment: bool,
+    /// return type of the function whose body is currently being converted
+    pub function_return_type: Option<IrType>,
 }
 
 pub enum IdentifierResolveResult {
@@ -30,6 +32,7 @@ impl Context {
             in_function_name_expr: false,
             function_names: HashMap::new(),
             directly_on_lhs_of_assignment: false,
+            function_return_type: None,
         }
     }
 
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index c239c3c..475ac7a 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -94,6 +94,16 @@ impl Src {
         }
     }
 
+    pub fn get_function_param_types(&self, prog: &Program) -> Result<Vec<IrType>, MiddleEndError> {
+        match self {
+            Src::Fun(fun_id) => match prog.get_fun_type(fun_id)? {
+                IrType::Function(_, param_types, _) => Ok(param_types),
+                _ => Err(MiddleEndError::UnwrapNonFunctionType),
+            },
+            _ => Err(MiddleEndError::UnwrapNonFunctionType),
+        }
+    }
+
     pub fn unwrap_var(&self) -> Result<VarId, MiddleEndError> {
         match self {
             Src::Var(var_id) | Src::StoreAddressVar(var_id) => Ok(var_id.to_owned()),
-- 
2.43.0


From 92b316ca42695c9ac1be59d87da62bf6244847e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 05/72] fix: printf writes raw bytes, %f digits and its byte
 count; strtol/strtoul parse as C specifies

---
 runtime/stdlib/stdio.mjs  | 24 ++++++++--
 runtime/stdlib/stdlib.mjs | 95 ++++++++++++++++++++++++++++-----------
 2 files changed, 89 insertions(+), 30 deletions(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index d1c35e1..b60f31b 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -92,6 +92,8 @@ export function printf(wasm_memory) {
                         case "f":
                             // double
                             value = next_vararg_double();
+                            // C prints 6 digits after the decimal point by default
+                            value = format_double(value);
                             break;
                         case "c":
                             // char
@@ -118,9 +120,25 @@ export function printf(wasm_memory) {
             c = next_char();
         }
 
-        process.stdout.write(str); // only works in node.js, use console.log otherwise, but that prints newline
+        // each char of str holds one byte, so write the bytes unchanged rather than UTF-8 encoding them
+        process.stdout.write(Buffer.from(str, "latin1")); // only works in node.js, use console.log otherwise, but that prints newline
 
-        // write return value
-        store_int(fp + PTR_SIZE, I32_SIZE, 0n, memory);
+        // write return value: the number of bytes printed
+        store_int(fp + PTR_SIZE, I32_SIZE, BigInt(str.length), memory);
     };
 }
+
+// the digits C's %f prints for a double
+function format_double(value) {
+    if (Number.isNaN(value)) {
+        return "nan";
+    }
+    if (!Number.isFinite(value)) {
+        return value < 0 ? "-inf" : "inf";
+    }
+    // toFixed() drops the sign of negative zero, and gives an exponent from 1e21 on (all of those are integers)
+    const magnitude = Math.abs(value);
+    const digits = magnitude < 1e21 ? magnitude.toFixed(6) : `${BigInt(magnitude)}.000000`;
+    const is_negative = value < 0 || Object.is(value, -0);
+    return is_negative ? `-${digits}` : digits;
+}
diff --git a/runtime/stdlib/stdlib.mjs b/runtime/stdlib/stdlib.mjs
index e15cdea..58afd1e 100644
--- a/runtime/stdlib/stdlib.mjs
+++ b/runtime/stdlib/stdlib.mjs
@@ -1,6 +1,55 @@
 import {I32_SIZE, I64_SIZE, NULL, PTR_SIZE} from "../memory_constants.mjs";
 import {read_frame_ptr, read_int, read_ptr, read_string, store_int, store_ptr} from "../memory_operations.mjs";
-import {signed_to_unsigned_i64} from "../number_operations.mjs";
+
+const LONG_MIN = -(2n ** 63n);
+const LONG_MAX = 2n ** 63n - 1n;
+const ULONG_MAX = 2n ** 64n - 1n;
+
+const digit_value = (char) => {
+    if (char >= "0" && char <= "9") {
+        return char.charCodeAt(0) - "0".charCodeAt(0);
+    }
+    const lowercase = (char ?? "").toLowerCase();
+    if (lowercase >= "a" && lowercase <= "z") {
+        return lowercase.charCodeAt(0) - "a".charCodeAt(0) + 10;
+    }
+    return Infinity;
+};
+
+// parse the longest prefix of str that's an integer in the given base.
+// returns its sign, its magnitude, and the index just after it (0 if there's no number)
+function parse_integer(str, base) {
+    let i = 0;
+    // skip initial whitespace
+    while (i < str.length && " \t\n\v\f\r".includes(str[i])) {
+        i++;
+    }
+    let is_negative = false;
+    if (str[i] === "+" || str[i] === "-") {
+        is_negative = str[i] === "-";
+        i++;
+    }
+    // a base of 0 means the prefix determines the base
+    const has_hex_prefix = str[i] === "0"
+        && (str[i + 1] === "x" || str[i + 1] === "X")
+        && digit_value(str[i + 2]) < 16;
+    if ((base === 0 || base === 16) && has_hex_prefix) {
+        i += 2;
+        base = 16;
+    } else if (base === 0) {
+        base = str[i] === "0" ? 8 : 10;
+    }
+    const digits_start = i;
+    let magnitude = 0n;
+    while (i < str.length && digit_value(str[i]) < base) {
+        magnitude = magnitude * BigInt(base) + BigInt(digit_value(str[i]));
+        i++;
+    }
+    if (i === digits_start) {
+        return {is_negative: false, magnitude: 0n, end: 0};
+    }
+    return {is_negative, magnitude, end: i};
+}
 
 // long strtol(const char *str, char **endptr, int base);
 export function strtol(wasm_memory) {
@@ -17,20 +66,16 @@ export function strtol(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = BigInt(parseInt(str, Number(base)));
+        const {is_negative, magnitude, end} = parse_integer(str, Number(base));
+        let result = is_negative ? -magnitude : magnitude;
+        if (result > LONG_MAX) {
+            result = LONG_MAX;
+        } else if (result < LONG_MIN) {
+            result = LONG_MIN;
+        }
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
-            store_ptr(end_ptr, end_ptr_value, memory);
+            store_ptr(end_ptr, str_ptr + end, memory);
         }
 
         // write return value
@@ -53,24 +98,20 @@ export function strtoul(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = parseInt(str, Number(base));
-        const unsigned_result = signed_to_unsigned_i64(BigInt(result));
+        const {is_negative, magnitude, end} = parse_integer(str, Number(base));
+        let result = magnitude;
+        if (magnitude > ULONG_MAX) {
+            result = ULONG_MAX;
+        } else if (is_negative) {
+            // C negates the value as an unsigned long
+            result = BigInt.asUintN(64, -magnitude);
+        }
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
-            store_ptr(end_ptr, end_ptr_value, memory);
+            store_ptr(end_ptr, str_ptr + end, memory);
         }
 
         // write return value
-        store_int(fp + PTR_SIZE, I64_SIZE, unsigned_result, memory);
+        store_int(fp + PTR_SIZE, I64_SIZE, result, memory);
     }
 }
-- 
2.43.0


From bc1de5d6c6e52f6f32ae22ebbc65c4ea9f2a9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 06/72] fix: accept unsigned, signed, short int and long int as
 type names

---
 src/front_end/ast.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 0b451ad..ebe33fb 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -615,18 +615,18 @@ impl ArithmeticType {
             0b00_00_0001 | 0b00_01_0001 => Ok(ArithmeticType::I8),
             // unsigned char
             0b00_10_0001 => Ok(ArithmeticType::U8),
-            // signed short
-            0b00_00_0010 | 0b00_01_0010 => Ok(ArithmeticType::I16),
+            // signed short (optionally followed by int)
+            0b00_00_0010 | 0b00_01_0010 | 0b00_00_0110 | 0b00_01_0110 => Ok(ArithmeticType::I16),
             // unsigned short
-            0b00_10_0010 => Ok(ArithmeticType::U16),
-            // signed int
-            0b00_00_0100 | 0b00_01_0100 => Ok(ArithmeticType::I32),
-            // unsigned int
-            0b00_10_0100 => Ok(ArithmeticType::U32),
-            // signed long
-            0b00_00_1000 | 0b00_01_1000 => Ok(ArithmeticType::I64),
+            0b00_10_0010 | 0b00_10_0110 => Ok(ArithmeticType::U16),
+            // signed int (signed by itself means signed int)
+            0b00_00_0100 | 0b00_01_0100 | 0b00_01_0000 => Ok(ArithmeticType::I32),
+            // unsigned int (unsigned by itself means unsigned int)
+            0b00_10_0100 | 0b00_10_0000 => Ok(ArithmeticType::U32),
+            // signed long (optionally followed by int)
+            0b00_00_1000 | 0b00_01_1000 | 0b00_00_1100 | 0b00_01_1100 => Ok(ArithmeticType::I64),
             // unsigned long
-            0b00_10_1000 => Ok(ArithmeticType::U64),
+            0b00_10_1000 | 0b00_10_1100 => Ok(ArithmeticType::U64),
             // float
             0b01_00_0000 => Ok(ArithmeticType::F32),
             // double
-- 
2.43.0


From 704b83c3650031e83b52c3d7c231dc15b4604fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 07/72] fix: tail calls: several in one function, frames whose
 addresses escape, parameters overlapping their temporaries

---
 src/back_end/stack_frame_operations.rs            | 13 ++++++++++++-
 .../middle_end_optimiser/tail_call_optimise.rs    | 15 ++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/back_end/stack_frame_operations.rs b/src/back_end/stack_frame_operations.rs
index 72721f9..4568020 100644
--- a/src/back_end/stack_frame_operations.rs
+++ b/src/back_end/stack_frame_operations.rs
@@ -385,10 +385,21 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
     // before we copy them to their new param position
     // use temp_fp to hold the stack ptr value, so we can offset from it while
     // constructing the new stack frame
-    // todo make sure this is definitely after the space for all the new params
     set_temp_frame_ptr_to_stack_ptr(wasm_instrs);
 
+    // leave a gap as big as all the params, so that the temp space is definitely after the space
+    // for all the new params
     let mut temp_stack_ptr_offset = 0;
+    for (param_index, param) in params.iter().enumerate() {
+        let param_type = match (param, param_types.get(param_index)) {
+            (Src::Constant(_), Some(param_type)) => param_type.to_owned(),
+            _ => param.get_type(prog_metadata).unwrap(),
+        };
+        temp_stack_ptr_offset += param_type
+            .get_byte_size(prog_metadata)
+            .get_compile_time_value()
+            .unwrap();
+    }
     let mut param_var_stack_ptr_offsets = HashMap::new();
     for param_index in 0..params.len() {
         let param = params.get(param_index).unwrap();
diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 5b2106c..39a055b 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -8,6 +8,18 @@ pub fn tail_call_optimise(
     param_var_mappings: &[VarId],
     prog_metadata: &mut ProgramMetadata,
 ) {
+    // a tail call reuses this function's stack frame, so we can't do it if the callee could
+    // still access the variables in the frame through a pointer
+    let frame_address_can_escape = fun_instrs.iter().any(|instr| {
+        matches!(
+            instr,
+            Instruction::AddressOf(..) | Instruction::AllocateVariable(..)
+        )
+    });
+    if frame_address_can_escape {
+        return;
+    }
+
     // find any call instructions that are the last instruction of a function
 
     // instr index, call instr parameters
@@ -97,7 +109,8 @@ pub fn tail_call_optimise(
         }
     }
 
-    for (replace_index, remove_count, new_instrs) in replace_instrs {
+    // replace the last call first, so that the indices of the others stay valid
+    for (replace_index, remove_count, new_instrs) in replace_instrs.into_iter().rev() {
         for _ in 0..remove_count {
             fun_instrs.remove(replace_index);
         }
-- 
2.43.0


From 6fc6aaf41975b2fa0271cfe44cebe4c3ef8656dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 08/72] fix: nested statements in a switch body, forward gotos,
 and unreachable code after jumps

---
 src/middle_end/ast_to_ir.rs        | 68 ++++++++++++++++--------------
 src/middle_end/context.rs          | 55 ++----------------------
 src/middle_end/ir.rs               |  4 ++
 src/middle_end/middle_end_error.rs |  1 -
 src/relooper/soupify.rs            | 25 +++++++++++
 5 files changed, 70 insertions(+), 83 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index eeb1960..9f3d6a1 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -267,6 +267,9 @@ fn convert_statement_to_ir(
             let (mut expr_instrs, switch_src) =
                 convert_expression_to_ir(switch_expr, prog, context)?;
             instrs.append(&mut expr_instrs);
+            // the integer promotions are done on the switch expression
+            let (mut unary_convert_instrs, switch_src) = unary_convert(switch_src, prog)?;
+            instrs.append(&mut unary_convert_instrs);
             let switch_var = match switch_src {
                 Src::Var(var) => var,
                 Src::Constant(c) => {
@@ -282,9 +285,8 @@ fn convert_statement_to_ir(
                 Src::Fun(_) | Src::StoreAddressVar(_) => unreachable!(),
             };
             context.push_switch(SwitchContext::new(switch_end_label.to_owned(), switch_var));
-            // convert switch body - ignore the return, because the instrs will
-            // be stored into the SwitchContext, and we'll get them from there after
-            convert_statement_to_ir(*body, prog, context)?;
+            // convert switch body, while collecting the case conditions in the SwitchContext
+            let mut body_instrs = convert_statement_to_ir(*body, prog, context)?;
 
             let mut switch_context = context.pop_switch()?;
 
@@ -305,10 +307,8 @@ fn convert_statement_to_ir(
                 }
             }
 
-            // add case bodies
-            for mut case_body_instrs in switch_context.case_blocks {
-                instrs.append(&mut case_body_instrs);
-            }
+            // add switch body, which contains the case labels
+            instrs.append(&mut body_instrs);
 
             // end of switch label
             instrs.push(Instruction::Label(prog.new_instr_id(), switch_end_label));
@@ -316,7 +316,11 @@ fn convert_statement_to_ir(
         Statement::Labelled(stmt) => {
             match stmt {
                 LabelledStatement::Named(Identifier(label_name), stmt) => {
-                    let label = prog.new_identifier_label(label_name);
+                    // the label already exists if there was a goto to it before this
+                    let label = match prog.resolve_identifier_to_label(&label_name) {
+                        Some(label) => label.to_owned(),
+                        None => prog.new_identifier_label(label_name),
+                    };
                     instrs.push(Instruction::Label(prog.new_instr_id(), label));
                     instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
@@ -325,39 +329,44 @@ fn convert_statement_to_ir(
                     if !context.is_in_switch_context() {
                         return Err(MiddleEndError::CaseOutsideSwitchContext);
                     }
-                    let (mut condition_instrs, expr_var) =
+                    let switch_var = Src::Var(context.get_switch_variable().unwrap());
+                    let (mut condition_instrs, mut expr_var) =
                         convert_expression_to_ir(expr, prog, context)?;
+                    // convert to the type of the switch expression (constants already take on
+                    // the type of the variable they're compared to)
+                    if let Src::Var(_) = expr_var {
+                        let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+                        let switch_var_type = switch_var.get_type(&prog.program_metadata)?;
+                        let (mut convert_instrs, converted_var) = convert_type_for_assignment(
+                            expr_var,
+                            expr_var_type,
+                            switch_var_type,
+                            prog,
+                        )?;
+                        condition_instrs.append(&mut convert_instrs);
+                        expr_var = converted_var;
+                    }
                     let case_body_label = prog.new_label();
                     // check if case condition matches the switch expression
                     // if so, jump to the corresponding block
                     condition_instrs.push(Instruction::BrIfEq(
                         prog.new_instr_id(),
-                        Src::Var(context.get_switch_variable().unwrap()),
+                        switch_var,
                         expr_var,
                         case_body_label.to_owned(),
                     ));
-                    context.new_switch_case_block(
-                        case_body_label,
-                        condition_instrs,
-                        &mut prog.program_metadata,
-                    )?;
-                    // start of case body - the result of this will be automatically pushed to
-                    // the case block we just created, because we're in a switch context
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    context.add_switch_case_condition(condition_instrs)?;
+                    // start of case body
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
                 LabelledStatement::Default(stmt) => {
                     let case_body_label = prog.new_label();
                     context.add_default_switch_block_label(case_body_label.to_owned())?;
                     // default case has no condition instruction to add, because it'll get added
                     // at the end of converting the whole switch statement
-                    context.new_switch_case_block(
-                        case_body_label,
-                        Vec::new(),
-                        &mut prog.program_metadata,
-                    )?;
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
             }
         }
@@ -696,6 +705,8 @@ fn convert_statement_to_ir(
                 }
                 _ => None,
             };
+            // label names are local to the function
+            prog.clear_identifier_labels();
             // function body instructions
             let instrs = convert_statement_to_ir(*body, prog, context)?;
             // update function in program with full body
@@ -706,11 +717,6 @@ fn convert_statement_to_ir(
         Statement::Empty => {}
     }
 
-    if context.is_in_switch_context() {
-        context.push_instrs_to_switch_case_block(instrs)?;
-        return Ok(Vec::new());
-    }
-
     Ok(instrs)
 }
 
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index b1d31ca..fdc306a 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -4,7 +4,6 @@ use log::trace;
 
 use crate::middle_end::ids::{FunId, LabelId, StructId, UnionId, VarId};
 use crate::middle_end::instructions::Instruction;
-use crate::middle_end::ir::ProgramMetadata;
 use crate::middle_end::ir_types::{EnumConstant, IrType};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
@@ -79,6 +78,9 @@ impl Context {
                 Some(LoopOrSwitchContext::Switch(_)) => {}
             }
             // if context was a switch context, keep looking backwards for the top loop context
+            if i == 0 {
+                return None;
+            }
             i -= 1;
         }
     }
@@ -121,11 +123,9 @@ impl Context {
         }
     }
 
-    pub fn new_switch_case_block(
+    pub fn add_switch_case_condition(
         &mut self,
-        case_body_label: LabelId,
         mut case_condition_instrs: Vec<Instruction>,
-        prog_metadata: &mut ProgramMetadata,
     ) -> Result<(), MiddleEndError> {
         if self.loop_stack.is_empty() {
             return Err(MiddleEndError::CaseOutsideSwitchContext);
@@ -137,13 +137,6 @@ impl Context {
                 Some(loop_or_switch_context) => match loop_or_switch_context {
                     LoopOrSwitchContext::Loop(_) => {}
                     LoopOrSwitchContext::Switch(switch_context) => {
-                        // every case block must have a label so it can be jumped to,
-                        // so enforce that by adding it here
-                        let case_instrs = vec![Instruction::Label(
-                            prog_metadata.new_instr_id(),
-                            case_body_label,
-                        )];
-                        switch_context.case_blocks.push(case_instrs);
                         switch_context
                             .case_condition_instrs
                             .append(&mut case_condition_instrs);
@@ -158,31 +151,6 @@ impl Context {
         }
     }
 
-    pub fn push_instrs_to_switch_case_block(
-        &mut self,
-        instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        if self.loop_stack.is_empty() {
-            return Err(MiddleEndError::CaseOutsideSwitchContext);
-        }
-        let mut i = self.loop_stack.len() - 1;
-        loop {
-            match self.loop_stack.get_mut(i) {
-                None => return Err(MiddleEndError::CaseOutsideSwitchContext),
-                Some(loop_or_switch_context) => match loop_or_switch_context {
-                    LoopOrSwitchContext::Loop(_) => {}
-                    LoopOrSwitchContext::Switch(switch_context) => {
-                        return switch_context.push_instrs_to_last_case_block(instrs);
-                    }
-                },
-            }
-            if i == 0 {
-                return Err(MiddleEndError::CaseOutsideSwitchContext);
-            }
-            i -= 1;
-        }
-    }
-
     pub fn add_default_switch_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         if self.loop_stack.is_empty() {
             return Err(MiddleEndError::DefaultOutsideSwitchContext);
@@ -638,7 +606,6 @@ pub struct SwitchContext {
     pub end_label: LabelId,
     pub switch_var: VarId,
     pub case_condition_instrs: Vec<Instruction>,
-    pub case_blocks: Vec<Vec<Instruction>>,
     pub default_block_label: Option<LabelId>,
 }
 
@@ -648,24 +615,10 @@ impl SwitchContext {
             end_label,
             switch_var,
             case_condition_instrs: Vec::new(),
-            case_blocks: Vec::new(),
             default_block_label: None,
         }
     }
 
-    fn push_instrs_to_last_case_block(
-        &mut self,
-        mut instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        match self.case_blocks.last_mut() {
-            None => Err(MiddleEndError::NoCaseBlockToPushInstructionTo),
-            Some(block_instrs) => {
-                block_instrs.append(&mut instrs);
-                Ok(())
-            }
-        }
-    }
-
     fn add_default_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         match self.default_block_label {
             None => {
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index ac8c163..ab46887 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -336,6 +336,10 @@ impl Program {
         self.program_metadata.new_identifier_label(name)
     }
 
+    pub fn clear_identifier_labels(&mut self) {
+        self.program_metadata.label_ids.clear();
+    }
+
     pub fn resolve_identifier_to_label(&self, name: &str) -> Option<&LabelId> {
         self.program_metadata.label_ids.get(name)
     }
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 11180d2..e63c39b 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -12,7 +12,6 @@ pub enum MiddleEndError {
     CaseOutsideSwitchContext,
     DefaultOutsideSwitchContext,
     MultipleDefaultCasesInSwitch,
-    NoCaseBlockToPushInstructionTo,
     /// in theory this should never occur
     LoopNestingError,
     UndeclaredIdentifier(String),
diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index 01131cd..d5e06d2 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -17,6 +17,7 @@ pub fn soupify(
         !instrs.is_empty(),
         "List of instructions to soupify should be non-empty"
     );
+    remove_dead_code_after_branches(&mut instrs);
     remove_label_fallthrough(&mut instrs, prog_metadata);
     add_block_gap_labels_after_conditionals(&mut instrs, prog_metadata);
     insert_entry_label_if_necessary(&mut instrs, prog_metadata);
@@ -28,6 +29,30 @@ pub fn soupify(
     instructions_to_soup_of_labels(instrs)
 }
 
+/// Remove the instructions between an unconditional branch or a return and the next label.
+/// They can't be executed, and a block must only contain branches at its end.
+/// Variable declarations still apply to the code after the label, so keep those.
+fn remove_dead_code_after_branches(instrs: &mut Vec<Instruction>) {
+    let mut declarations = Vec::new();
+    let mut is_dead_code = false;
+    instrs.retain(|instr| {
+        match instr {
+            Instruction::Label(..) => is_dead_code = false,
+            Instruction::DeclareVariable(..) if is_dead_code => {
+                declarations.push(instr.to_owned());
+                return false;
+            }
+            _ if is_dead_code => return false,
+            Instruction::Br(..) | Instruction::Ret(..) | Instruction::TailCall(..) => {
+                is_dead_code = true
+            }
+            _ => {}
+        }
+        true
+    });
+    instrs.splice(0..0, declarations);
+}
+
 /// Add a new label at the start of the instructions, to be our entry-point
 fn insert_entry_label_if_necessary(
     instrs: &mut Vec<Instruction>,
-- 
2.43.0


From f780b33232d77a056dbe2bdd18bb7ce9dbf42045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 09/72] fix: encode 32-bit float constants in 4 bytes

---
 src/back_end/wasm_instructions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/back_end/wasm_instructions.rs b/src/back_end/wasm_instructions.rs
index 91f1d49..d8e2ed5 100644
--- a/src/back_end/wasm_instructions.rs
+++ b/src/back_end/wasm_instructions.rs
@@ -745,7 +745,8 @@ impl ToBytes for WasmInstruction {
             }
             WasmInstruction::F32Const { z } => {
                 let mut bytes = vec![0x43];
-                bytes.append(&mut encode_float(*z as f64));
+                // 32-bit floats are encoded as 4 bytes
+                bytes.extend(z.to_le_bytes());
                 bytes
             }
             WasmInstruction::F64Const { z } => {
-- 
2.43.0


From 288be7f0a1ea4e1208f3364392c072f188f22328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 10/72] fix: short-circuit && and ||, and accept floating point
 conditions

---
 src/middle_end/ast_to_ir.rs | 128 ++++++++++++++++++++++++++----------
 1 file changed, 95 insertions(+), 33 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 9f3d6a1..d4f1b88 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -103,7 +103,7 @@ fn convert_statement_to_ir(
                 loop_end_label.to_owned(),
             ));
             // while condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // jump out of loop if condition false
             instrs.push(Instruction::BrIfEq(
@@ -138,7 +138,7 @@ fn convert_statement_to_ir(
             // continue label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_continue_label));
             // loop condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // jump back to start of loop if condition true
 
@@ -192,7 +192,7 @@ fn convert_statement_to_ir(
                     Src::Var(temp)
                 }
                 Some(e) => {
-                    let (mut expr_instrs, expr_var) = convert_expression_to_ir(e, prog, context)?;
+                    let (mut expr_instrs, expr_var) = convert_condition_to_ir(e, prog, context)?;
                     instrs.append(&mut expr_instrs);
                     expr_var
                 }
@@ -223,7 +223,7 @@ fn convert_statement_to_ir(
         }
         Statement::If(cond, body) => {
             // if statement condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // if condition is false, jump to after body
             let if_end_label = prog.new_label();
@@ -239,7 +239,7 @@ fn convert_statement_to_ir(
             instrs.push(Instruction::Label(prog.new_instr_id(), if_end_label));
         }
         Statement::IfElse(cond, true_body, false_body) => {
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // if condition is false, jump to else body
             let else_label = prog.new_label();
@@ -720,6 +720,88 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// convert an expression whose result is only tested for being equal to (integer) zero
+fn convert_condition_to_ir(
+    cond: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let (mut instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+    let (mut unary_convert_instrs, cond_var) = unary_convert(cond_var, prog)?;
+    instrs.append(&mut unary_convert_instrs);
+    let cond_var_type = cond_var.get_type(&prog.program_metadata)?;
+    cond_var_type.require_scalar_type()?;
+    match cond_var_type {
+        IrType::F32 | IrType::F64 => {
+            // floating point values can't be compared to integer zero
+            let dest = prog.new_var(ValueType::RValue);
+            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::NotEqual(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                cond_var,
+                Src::Constant(Constant::Float(0.)),
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        _ => Ok((instrs, cond_var)),
+    }
+}
+
+/// convert a logical AND or OR, which only evaluates the right operand if the left operand
+/// doesn't already determine the result
+fn convert_logical_operator_to_ir(
+    op: BinaryOperator,
+    left: Expression,
+    right: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let zero = Src::Constant(Constant::Int(0));
+    let is_and = op == BinaryOperator::LogicalAnd;
+    // the result if an operand makes us jump to the short circuit label is 0 for AND, 1 for OR
+    let short_circuit_label = prog.new_label();
+    let end_label = prog.new_label();
+    let dest = prog.new_var(ValueType::RValue);
+    // result is always int 0 or 1
+    prog.add_var_type(dest.to_owned(), IrType::I32)?;
+
+    let mut instrs = Vec::new();
+    for operand in [left, right] {
+        let (mut operand_instrs, operand_var) = convert_condition_to_ir(operand, prog, context)?;
+        instrs.append(&mut operand_instrs);
+        instrs.push(if is_and {
+            Instruction::BrIfEq(
+                prog.new_instr_id(),
+                operand_var,
+                zero.to_owned(),
+                short_circuit_label.to_owned(),
+            )
+        } else {
+            Instruction::BrIfNotEq(
+                prog.new_instr_id(),
+                operand_var,
+                zero.to_owned(),
+                short_circuit_label.to_owned(),
+            )
+        });
+    }
+    instrs.push(Instruction::SimpleAssignment(
+        prog.new_instr_id(),
+        dest.to_owned(),
+        Src::Constant(Constant::Int(if is_and { 1 } else { 0 })),
+    ));
+    instrs.push(Instruction::Br(prog.new_instr_id(), end_label.to_owned()));
+    instrs.push(Instruction::Label(prog.new_instr_id(), short_circuit_label));
+    instrs.push(Instruction::SimpleAssignment(
+        prog.new_instr_id(),
+        dest.to_owned(),
+        Src::Constant(Constant::Int(if is_and { 0 } else { 1 })),
+    ));
+    instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
+    Ok((instrs, Src::Var(dest)))
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -1611,14 +1693,17 @@ pub fn convert_expression_to_ir(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        Expression::BinaryOp(
+            op @ (BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr),
+            left,
+            right,
+        ) => convert_logical_operator_to_ir(op, *left, *right, prog, context),
         Expression::BinaryOp(op, left, right) => {
             let (mut left_instrs, left_var) = convert_expression_to_ir(*left, prog, context)?;
             instrs.append(&mut left_instrs);
             let (mut right_instrs, right_var) = convert_expression_to_ir(*right, prog, context)?;
             instrs.append(&mut right_instrs);
             let dest = prog.new_var(ValueType::RValue);
-            let left_var_type = left_var.get_type(&prog.program_metadata)?;
-            let right_var_type = right_var.get_type(&prog.program_metadata)?;
             match op {
                 BinaryOperator::Mult => {
                     let (mut convert_instrs, left_var, right_var) =
@@ -2025,37 +2110,14 @@ pub fn convert_expression_to_ir(
                         right_var,
                     ));
                 }
-                BinaryOperator::LogicalAnd => {
-                    // no binary conversion for logical AND and OR
-                    left_var_type.require_scalar_type()?;
-                    right_var_type.require_scalar_type()?;
-                    // result is always int 0 or 1
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LogicalAnd(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::LogicalOr => {
-                    // no binary conversion for logical AND and OR
-                    left_var_type.require_scalar_type()?;
-                    right_var_type.require_scalar_type()?;
-                    // result is always int 0 or 1
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LogicalOr(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
+                BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr => {
+                    unreachable!("handled separately")
                 }
             }
             Ok((instrs, Src::Var(dest)))
         }
         Expression::Ternary(cond, true_expr, false_expr) => {
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(*cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(*cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             let dest = prog.new_var(ValueType::RValue);
             let false_label = prog.new_label();
-- 
2.43.0


From 9073392d936e61f748ededcf4328b349d9832055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:43 +0000
Subject: [PATCH 11/72] fix: globals assigned in functions, zero-initialised
 and not overlapping argv; control flow in initialisers

---
 .../dataflow_analysis/dead_code_analysis.rs   | 15 +++++++++--
 src/back_end/initialise_memory.rs             | 25 ++++++++++++++----
 .../stack_allocation/allocate_vars.rs         | 26 +++++++++----------
 .../stack_allocation/naive_allocation.rs      | 26 +++++++------------
 .../stack_allocation/optimised_allocation.rs  | 11 ++++----
 src/back_end/target_code_generation.rs        | 19 ++++++--------
 .../target_code_generation_context.rs         |  4 +--
 src/relooper/relooper.rs                      |  4 +++
 8 files changed, 75 insertions(+), 55 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 699fa22..acedd4a 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -1,15 +1,20 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::debug;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
+use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
 
-pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata) -> Flowgraph {
+pub fn remove_dead_vars(
+    block: &mut Block,
+    global_vars: &HashSet<VarId>,
+    prog_metadata: &mut ProgramMetadata,
+) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
     let mut changes = true;
@@ -30,6 +35,12 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
 
             let mut at_least_one_def_is_live = false;
             for def_var in defs {
+                // globals are visible outside of this function
+                if global_vars.contains(&def_var) {
+                    at_least_one_def_is_live = true;
+                    break;
+                }
+
                 // if none of the defined vars are live at any of the successors of this instr,
                 // the instr is dead
 
diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 5c209bb..b6dcc94 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -1,6 +1,9 @@
 use log::info;
 
 use crate::back_end::memory_constants::{PTR_SIZE, STACK_PTR_ADDR};
+use crate::back_end::stack_allocation::allocate_vars::{
+    allocate_global_vars, VariableAllocationMap,
+};
 use crate::back_end::target_code_generation_context::ModuleContext;
 use crate::back_end::wasm_instructions::{WasmExpression, WasmInstruction};
 use crate::back_end::wasm_module::data_section::DataSegment;
@@ -11,15 +14,18 @@ use crate::middle_end::ir::ProgramMetadata;
 use crate::program_config::program_constants::{
     MEMORY_IMPORT_FIELD_NAME, MEMORY_IMPORT_MODULE_NAME,
 };
+use crate::relooper::blocks::Block;
 
+/// returns the addresses of the global variables
 pub fn initialise_memory(
     wasm_module: &mut WasmModule,
     module_context: &mut ModuleContext,
+    global_block: &Option<Block>,
     prog_metadata: &ProgramMetadata,
-) -> u32 {
-    // ----------------------------------------------------------
-    // | FP | temp FP | SP | String literals | ...stack frames...
-    // ----------------------------------------------------------
+) -> VariableAllocationMap {
+    // -----------------------------------------------------------------------------
+    // | FP | temp FP | SP | String literals | Global variables | ...stack frames...
+    // -----------------------------------------------------------------------------
     // initialise with placeholder values for frame ptr and stack ptr
     let mut data: Vec<u8> = vec![0x00; (3 * PTR_SIZE) as usize];
 
@@ -40,6 +46,15 @@ pub fn initialise_memory(
         data.push(0x00);
     }
 
+    // reserve zero-initialised space for global variables
+    let mut global_var_addrs = VariableAllocationMap::new();
+    if let Some(global_block) = global_block {
+        let (addrs, end_addr) =
+            allocate_global_vars(global_block, data.len() as u32, prog_metadata);
+        global_var_addrs = addrs;
+        data.resize(end_addr as usize, 0x00);
+    }
+
     // set stack ptr to point at top of stack
     let stack_ptr_value = data.len();
     info!("Setting stack ptr to {}", stack_ptr_value);
@@ -69,5 +84,5 @@ pub fn initialise_memory(
     };
     wasm_module.imports_section.imports.push(memory_import);
 
-    stack_ptr_value as u32
+    global_var_addrs
 }
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7832453..398783e 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::back_end::memory_constants::PTR_SIZE;
 use crate::back_end::stack_allocation::naive_allocation::{
@@ -20,6 +20,7 @@ pub fn allocate_local_vars(
     wasm_instrs: &mut Vec<WasmInstruction>,
     fun_type: IrType,
     fun_param_var_mappings: Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
     enabled_optimisations: &EnabledOptimisations,
@@ -55,10 +56,15 @@ pub fn allocate_local_vars(
         offset += param_byte_size as u32;
     }
 
+    let global_vars: HashSet<VarId> = global_var_addrs.keys().cloned().collect();
+    let mut vars_not_to_allocate = global_vars.to_owned();
+    vars_not_to_allocate.extend(fun_param_var_mappings);
+
     if enabled_optimisations.is_stack_allocation_optimisation_enabled() {
         optimised_allocate_local_vars(
             block,
-            &fun_param_var_mappings,
+            &vars_not_to_allocate,
+            &global_vars,
             offset,
             var_offsets,
             wasm_instrs,
@@ -68,7 +74,7 @@ pub fn allocate_local_vars(
     } else {
         naive_allocate_local_vars(
             block,
-            &fun_param_var_mappings,
+            &vars_not_to_allocate,
             offset,
             var_offsets,
             wasm_instrs,
@@ -80,16 +86,8 @@ pub fn allocate_local_vars(
 
 pub fn allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
+    start_addr: u32,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
-    naive_allocate_global_vars(
-        block,
-        initial_top_of_stack_addr,
-        wasm_instrs,
-        module_context,
-        prog_metadata,
-    )
+) -> (VariableAllocationMap, u32) {
+    naive_allocate_global_vars(block, start_addr, prog_metadata)
 }
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index 4e86782..f45d50f 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::back_end::stack_allocation::allocate_vars::VariableAllocationMap;
 use crate::back_end::stack_allocation::get_vars_from_block::get_vars_from_block;
@@ -12,7 +12,7 @@ use crate::relooper::blocks::Block;
 
 pub fn naive_allocate_local_vars(
     block: &Block,
-    param_vars_not_to_allocate_again: &Vec<VarId>,
+    vars_not_to_allocate: &HashSet<VarId>,
     start_offset: u32,
     mut var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
@@ -21,9 +21,9 @@ pub fn naive_allocate_local_vars(
 ) -> VariableAllocationMap {
     // get all vars used in this block -- all the variables to allocate
     let mut vars = get_vars_from_block(block, prog_metadata);
-    // remove param vars, cos we don't need to allocate them again
-    for param_var in param_vars_not_to_allocate_again {
-        vars.remove(param_var);
+    // remove param and global vars, cos they're already allocated
+    for var in vars_not_to_allocate {
+        vars.remove(var);
     }
 
     let mut offset = 0;
@@ -49,19 +49,16 @@ pub fn naive_allocate_local_vars(
     var_offsets
 }
 
+/// returns the address of each global var, and the address past the last one
 pub fn naive_allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
+    start_addr: u32,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
+) -> (VariableAllocationMap, u32) {
     let global_vars = get_vars_from_block(block, prog_metadata);
 
     let mut var_addrs = HashMap::new();
-    let mut addr = initial_top_of_stack_addr;
-    // how much to increment the stack pointer by when we've allocated all vars
-    let mut stack_ptr_increment = 0;
+    let mut addr = start_addr;
 
     // calculate addr of each global var
     for (var_id, var_type) in global_vars {
@@ -73,10 +70,7 @@ pub fn naive_allocate_global_vars(
         };
         var_addrs.insert(var_id, addr);
         addr += byte_size as u32;
-        stack_ptr_increment += byte_size as u32;
     }
 
-    increment_stack_ptr_by_known_offset(stack_ptr_increment, wasm_instrs, module_context);
-
-    var_addrs
+    (var_addrs, addr)
 }
diff --git a/src/back_end/stack_allocation/optimised_allocation.rs b/src/back_end/stack_allocation/optimised_allocation.rs
index 4ff43a9..8ae19cd 100644
--- a/src/back_end/stack_allocation/optimised_allocation.rs
+++ b/src/back_end/stack_allocation/optimised_allocation.rs
@@ -21,14 +21,15 @@ type VarAllocationStack = Vec<VarAndByteSizePair>;
 
 pub fn optimised_allocate_local_vars(
     block: &mut Block,
-    param_vars_not_to_allocate_again: &Vec<VarId>,
+    vars_not_to_allocate: &HashSet<VarId>,
+    global_vars: &HashSet<VarId>,
     start_offset: u32,
     var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
 ) -> VariableAllocationMap {
-    remove_dead_vars(block, prog_metadata);
+    remove_dead_vars(block, global_vars, prog_metadata);
 
     debug!("removed dead vars: {}", block);
 
@@ -38,9 +39,9 @@ pub fn optimised_allocate_local_vars(
 
     // get all vars used in this block -- all the variables to allocate
     let mut vars_to_allocate = get_vars_from_block(block, prog_metadata);
-    // remove param vars, cos we don't need to allocate them again
-    for param_var in param_vars_not_to_allocate_again {
-        vars_to_allocate.remove(param_var);
+    // remove param and global vars, cos they're already allocated
+    for var in vars_not_to_allocate {
+        vars_to_allocate.remove(var);
     }
 
     // pop vars from clash graph onto a stack
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index a1b2ab2..760c858 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -10,7 +10,7 @@ use crate::back_end::memory_operations::{
     load, load_constant, load_src, load_var, load_var_address, store, store_var,
 };
 use crate::back_end::profiler::initialise_profiler;
-use crate::back_end::stack_allocation::allocate_vars::{allocate_global_vars, allocate_local_vars};
+use crate::back_end::stack_allocation::allocate_vars::allocate_local_vars;
 use crate::back_end::stack_frame_operations::{
     increment_stack_ptr_by_known_offset, increment_stack_ptr_dynamic, load_frame_ptr,
     load_stack_ptr, overwrite_current_stack_frame_with_new_stack_frame, pop_stack_frame,
@@ -56,9 +56,10 @@ pub fn generate_target_code(
 
     module_context.calculate_func_idxs(&imported_functions, &defined_functions);
 
-    let initial_top_of_stack_addr = initialise_memory(
+    let global_var_addrs = initialise_memory(
         &mut wasm_module,
         &mut module_context,
+        &prog.program_blocks.global_instrs,
         &prog.program_metadata,
     );
 
@@ -99,15 +100,7 @@ pub fn generate_target_code(
     // set frame ptr to start of this frame
     set_frame_ptr_to_stack_ptr(&mut global_wasm_instrs);
 
-    let mut global_var_addrs = HashMap::new();
     if let Some(global_block) = prog.program_blocks.global_instrs {
-        global_var_addrs = allocate_global_vars(
-            &global_block,
-            initial_top_of_stack_addr,
-            &mut global_wasm_instrs,
-            &module_context,
-            &prog.program_metadata,
-        );
 
         // let var_offsets = allocate_local_vars(
         //     &global_block,
@@ -117,7 +110,10 @@ pub fn generate_target_code(
         //     &prog.program_metadata,
         // );
 
-        let mut global_context = FunctionContext::global_context(global_var_addrs.to_owned());
+        let mut global_context = FunctionContext::global_context(
+            global_var_addrs.to_owned(),
+            prog.program_blocks.global_label_variable.unwrap(),
+        );
 
         global_wasm_instrs.append(&mut convert_block_to_wasm(
             global_block,
@@ -262,6 +258,7 @@ pub fn generate_target_code(
                 &mut function_wasm_instrs,
                 function.type_info,
                 function.param_var_mappings,
+                &global_var_addrs,
                 &module_context,
                 &mut prog.program_metadata,
                 enabled_optimisations,
diff --git a/src/back_end/target_code_generation_context.rs b/src/back_end/target_code_generation_context.rs
index 7966938..d11ea39 100644
--- a/src/back_end/target_code_generation_context.rs
+++ b/src/back_end/target_code_generation_context.rs
@@ -90,11 +90,11 @@ impl FunctionContext {
         }
     }
 
-    pub fn global_context(global_var_addrs: HashMap<VarId, u32>) -> Self {
+    pub fn global_context(global_var_addrs: HashMap<VarId, u32>, label_variable: VarId) -> Self {
         FunctionContext {
             var_fp_offsets: HashMap::new(),
             global_var_addrs,
-            label_variable: VarId::initial_id(), // dummy var, because global instrs don't have any control flow
+            label_variable,
             control_flow_stack: Vec::new(),
         }
     }
diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index c4e42e2..aa1fbbc 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -47,6 +47,8 @@ pub struct ReloopedFunction {
 pub struct ProgramBlocks {
     pub functions: HashMap<FunId, ReloopedFunction>,
     pub global_instrs: Option<Block>,
+    // only None if global_instrs is None
+    pub global_label_variable: Option<VarId>,
 }
 
 impl ProgramBlocks {
@@ -54,6 +56,7 @@ impl ProgramBlocks {
         ProgramBlocks {
             functions: HashMap::new(),
             global_instrs: None,
+            global_label_variable: None,
         }
     }
 }
@@ -141,6 +144,7 @@ pub fn reloop(mut prog: Program) -> ReloopedProgram {
                 info!("Created block for global instructions:\n{}", block);
                 assert_no_branch_instrs_left(&block);
                 program_blocks.global_instrs = Some(block);
+                program_blocks.global_label_variable = Some(label_var);
             }
             None => error!("No block created for global instructions, even though non-empty"),
         }
-- 
2.43.0


From d13f9f05ae0ebae2f7e32262c74fce35173d770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 12/72] fix: stores to address-taken variables aren't dead code

---
 .../dataflow_analysis/dead_code_analysis.rs        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index acedd4a..781628d 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -6,7 +6,7 @@ use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgrap
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
 use crate::middle_end::ids::VarId;
-use crate::middle_end::instructions::Instruction;
+use crate::middle_end::instructions::{Instruction, Src};
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
 
@@ -17,6 +17,15 @@ pub fn remove_dead_vars(
 ) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
+    // vars that may be accessed other than by the instructions that name them: globals are
+    // visible outside of this function, and address-taken vars can be accessed by pointers
+    let mut escaping_vars = global_vars.to_owned();
+    for instr in flowgraph.instrs.values() {
+        if let Instruction::AddressOf(_, _, Src::Var(var)) = instr {
+            escaping_vars.insert(var.to_owned());
+        }
+    }
+
     let mut changes = true;
     while changes {
         changes = false;
@@ -35,8 +44,7 @@ pub fn remove_dead_vars(
 
             let mut at_least_one_def_is_live = false;
             for def_var in defs {
-                // globals are visible outside of this function
-                if global_vars.contains(&def_var) {
+                if escaping_vars.contains(&def_var) {
                     at_least_one_def_is_live = true;
                     break;
                 }
-- 
2.43.0


From 21ac59bab0de4b4cac42639a44a65ff78ecd298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 13/72] fix: a variable that is written but never read clashes
 with the variables live at the write

---
 src/back_end/dataflow_analysis/clash_graph.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/back_end/dataflow_analysis/clash_graph.rs b/src/back_end/dataflow_analysis/clash_graph.rs
index 431d579..56ae610 100644
--- a/src/back_end/dataflow_analysis/clash_graph.rs
+++ b/src/back_end/dataflow_analysis/clash_graph.rs
@@ -3,6 +3,7 @@ use std::fmt;
 use std::fmt::Formatter;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
+use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
 use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
@@ -108,7 +109,21 @@ pub fn generate_clash_graph(block: &Block) -> ClashGraph {
 
     let mut clash_graph = ClashGraph::new();
 
-    for (_instr, simultaneously_live_vars) in live_vars {
+    for (instr_id, simultaneously_live_vars) in &live_vars {
+        // an instr that defines a var overwrites the var's location while everything that is
+        // live after the instr is still needed, even if the var itself is never read
+        let mut live_after_instr: HashSet<VarId> = HashSet::new();
+        for successor in flowgraph.successors.get(instr_id).unwrap() {
+            live_after_instr.extend(live_vars.get(successor).unwrap().to_owned());
+        }
+        for def_var in def_set(flowgraph.instrs.get(instr_id).unwrap()) {
+            for live_var in &live_after_instr {
+                if *live_var != def_var {
+                    clash_graph.add_clash(def_var.to_owned(), live_var.to_owned());
+                }
+            }
+        }
+
         if simultaneously_live_vars.len() < 2 {
             // no clashes
             for var in simultaneously_live_vars {
-- 
2.43.0


From 90d887f51b1fc5935e8434fbbdc4cf4a66b756bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 14/72] fix: ++ and -- on narrow, floating point and pointer
 operands; assignment through an rvalue pointer

---
 src/middle_end/ast_to_ir.rs    | 419 +++++++++------------------------
 src/middle_end/instructions.rs |   4 +-
 2 files changed, 108 insertions(+), 315 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d4f1b88..2311665 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -802,6 +802,107 @@ fn convert_logical_operator_to_ir(
     Ok((instrs, Src::Var(dest)))
 }
 
+/// convert an increment (or decrement, if not is_increment) of a variable or of the value at an
+/// address. The result is the new value if is_prefix, or else the old value.
+fn convert_increment_to_ir(
+    expr: Expression,
+    is_increment: bool,
+    is_prefix: bool,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    context.directly_on_lhs_of_assignment = true;
+    let (mut instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
+    context.directly_on_lhs_of_assignment = false;
+
+    // load the old value
+    let old_value = prog.new_var(ValueType::RValue);
+    let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+    let value_type = match &expr_var {
+        Src::Var(var) => {
+            prog.add_var_type(old_value.to_owned(), expr_var_type.to_owned())?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                old_value.to_owned(),
+                Src::Var(var.to_owned()),
+            ));
+            expr_var_type
+        }
+        Src::StoreAddressVar(ptr) => {
+            let value_type = expr_var_type.dereference_pointer_type()?;
+            prog.add_var_type(old_value.to_owned(), value_type.to_owned())?;
+            instrs.push(Instruction::LoadFromAddress(
+                prog.new_instr_id(),
+                old_value.to_owned(),
+                Src::Var(ptr.to_owned()),
+            ));
+            value_type
+        }
+        Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidLValue),
+    };
+    // check type is valid to be incremented
+    if !value_type.is_scalar_type() {
+        return Err(MiddleEndError::InvalidOperation(if is_increment {
+            "Incrementing a non-scalar type"
+        } else {
+            "Decrementing a non-scalar type"
+        }));
+    }
+
+    // calculate the new value, in the promoted type
+    let (mut unary_convert_instrs, promoted_value) =
+        unary_convert(Src::Var(old_value.to_owned()), prog)?;
+    instrs.append(&mut unary_convert_instrs);
+    let promoted_type = promoted_value.get_type(&prog.program_metadata)?;
+    let step = match promoted_type {
+        IrType::F32 | IrType::F64 => Constant::Float(if is_increment { 1. } else { -1. }),
+        _ => {
+            let step_size = if promoted_type.is_pointer_type() {
+                // a pointer is moved by one whole object
+                promoted_type
+                    .get_pointer_object_byte_size(&prog.program_metadata)?
+                    .get_compile_time_value()? as i128
+            } else {
+                1
+            };
+            Constant::Int(if is_increment { step_size } else { -step_size })
+        }
+    };
+    let new_value = prog.new_var(ValueType::RValue);
+    prog.add_var_type(new_value.to_owned(), promoted_type.to_owned())?;
+    instrs.push(Instruction::Add(
+        prog.new_instr_id(),
+        new_value.to_owned(),
+        promoted_value,
+        Src::Constant(step),
+    ));
+    let (mut convert_instrs, new_value) =
+        convert_type_for_assignment(Src::Var(new_value), promoted_type, value_type, prog)?;
+    instrs.append(&mut convert_instrs);
+
+    // store the new value
+    match expr_var {
+        Src::Var(var) => instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            var,
+            new_value.to_owned(),
+        )),
+        Src::StoreAddressVar(ptr) => instrs.push(Instruction::StoreToAddress(
+            prog.new_instr_id(),
+            ptr,
+            new_value.to_owned(),
+        )),
+        Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidLValue),
+    }
+
+    let result = if is_prefix {
+        new_value
+    } else {
+        Src::Var(old_value)
+    };
+    Ok((instrs, result))
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -1136,326 +1237,16 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::PostfixIncrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    // the returned value is the variable before incrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_increment = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_increment.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_increment.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // the returned value is the variable before incrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(src_to_increment.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, true, false, prog, context)
         }
         Expression::PostfixDecrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Decrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    // the returned value is the variable before decrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to decrement
-                    let src_to_decrement = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_decrement.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_decrement.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // the returned value is the variable before decrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(src_to_decrement.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, false, false, prog, context)
         }
         Expression::PrefixIncrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            // make sure the result is an rvalue
-            let dest = prog.new_var(ValueType::RValue);
-            // expr_var is the variable returned, after incrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_increment = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_increment.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_increment.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    debug!(
-                        "VAR TYPE: {}, RESULT TYPE: {}",
-                        prog.get_var_type(&var)?,
-                        prog.get_var_type(&result)?
-                    );
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result.to_owned()),
-                    ));
-
-                    // store result to dest
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, true, true, prog, context)
         }
         Expression::PrefixDecrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            // make sure the result is an rvalue
-            let dest = prog.new_var(ValueType::RValue);
-            // expr_var is the variable returned, after decrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_decrement = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_decrement.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_decrement.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    debug!(
-                        "VAR TYPE: {}, RESULT TYPE: {}",
-                        prog.get_var_type(&var)?,
-                        prog.get_var_type(&result)?
-                    );
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result.to_owned()),
-                    ));
-
-                    // store result to dest
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, false, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index 475ac7a..34253f4 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -69,7 +69,9 @@ impl Src {
 
     pub fn get_value_type(&self) -> ValueType {
         match self {
-            Src::Var(var) | Src::StoreAddressVar(var) => var.get_value_type(),
+            Src::Var(var) => var.get_value_type(),
+            // whatever is stored at an address can be assigned to
+            Src::StoreAddressVar(_) => ValueType::LValue,
             Src::Constant(_) => ValueType::RValue,
             Src::Fun(_) => ValueType::RValue,
         }
-- 
2.43.0


From e04c39b69fc0edfb59c22c1db57971d8ea95b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 15/72] fix: shift operands are promoted separately

---
 src/middle_end/ast_to_ir.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 2311665..ce61564 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1676,13 +1676,20 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::LeftShift => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
+                    // operands are promoted separately, the result has the type of the left one
+                    let (mut convert_instrs, left_var) = unary_convert(left_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
                     let right_var_type = right_var.get_type(&prog.program_metadata)?;
                     left_var_type.require_integral_type()?;
                     right_var_type.require_integral_type()?;
+                    let (mut convert_instrs, right_var) = get_type_conversion_instrs(
+                        right_var,
+                        right_var_type,
+                        left_var_type.to_owned(),
+                        prog,
+                    )?;
+                    instrs.append(&mut convert_instrs);
                     prog.add_var_type(dest.to_owned(), left_var_type)?;
                     instrs.push(Instruction::LeftShift(
                         prog.new_instr_id(),
@@ -1692,13 +1699,20 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::RightShift => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
+                    // operands are promoted separately, the result has the type of the left one
+                    let (mut convert_instrs, left_var) = unary_convert(left_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
                     let right_var_type = right_var.get_type(&prog.program_metadata)?;
                     left_var_type.require_integral_type()?;
                     right_var_type.require_integral_type()?;
+                    let (mut convert_instrs, right_var) = get_type_conversion_instrs(
+                        right_var,
+                        right_var_type,
+                        left_var_type.to_owned(),
+                        prog,
+                    )?;
+                    instrs.append(&mut convert_instrs);
                     prog.add_var_type(dest.to_owned(), left_var_type)?;
                     instrs.push(Instruction::RightShift(
                         prog.new_instr_id(),
-- 
2.43.0


From a5af95dd080cf7ceaeb7df4b6c213a937e06fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 16/72] fix: pointer subtraction and differences, pointer
 offsets of any integer type

---
 src/middle_end/ast_to_ir.rs | 192 +++++++++++++++---------------------
 1 file changed, 79 insertions(+), 113 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ce61564..9abfb94 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1,4 +1,4 @@
-use log::{debug, trace};
+use log::trace;
 
 use crate::front_end::ast;
 use crate::front_end::ast::{
@@ -903,6 +903,48 @@ fn convert_increment_to_ir(
     Ok((instrs, result))
 }
 
+/// get the size in bytes of the objects that the given pointer type points to
+fn get_pointer_object_byte_size_src(
+    pointer_type: &IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    match pointer_type.get_pointer_object_byte_size(&prog.program_metadata)? {
+        TypeSize::CompileTime(size) => {
+            Ok((Vec::new(), Src::Constant(Constant::Int(size as i128))))
+        }
+        TypeSize::Runtime(size_expr) => convert_expression_to_ir(size_expr, prog, context),
+    }
+}
+
+/// convert a number of objects to the number of bytes (an int) to move a pointer by
+fn convert_pointer_offset_to_ir(
+    offset: Src,
+    pointer_type: &IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let mut instrs = Vec::new();
+    let offset_type = offset.get_type(&prog.program_metadata)?;
+    offset_type.require_integral_type()?;
+    // offset should be an int, so we can add it to a pointer
+    let (mut convert_instrs, offset) =
+        get_type_conversion_instrs(offset, offset_type, IrType::I32, prog)?;
+    instrs.append(&mut convert_instrs);
+    let (mut size_instrs, object_byte_size) =
+        get_pointer_object_byte_size_src(pointer_type, prog, context)?;
+    instrs.append(&mut size_instrs);
+    let byte_offset = prog.new_var(ValueType::RValue);
+    prog.add_var_type(byte_offset.to_owned(), IrType::I32)?;
+    instrs.push(Instruction::Mult(
+        prog.new_instr_id(),
+        byte_offset.to_owned(),
+        offset,
+        object_byte_size,
+    ));
+    Ok((instrs, Src::Var(byte_offset)))
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -964,65 +1006,15 @@ pub fn convert_expression_to_ir(
             // unary conversion
             let (mut unary_convert_arr_instrs, arr_var) = unary_convert(arr_var, prog)?;
             instrs.append(&mut unary_convert_arr_instrs);
-            let (mut unary_convert_index_instrs, mut index_var) = unary_convert(index_var, prog)?;
-            instrs.append(&mut unary_convert_index_instrs);
             let arr_var_type = arr_var.get_type(&prog.program_metadata)?;
             arr_var_type.require_pointer_type()?;
             // the type of the actual array elements
             let arr_inner_type = arr_var_type.dereference_pointer_type()?;
-            let index_var_type = index_var.get_type(&prog.program_metadata)?;
-            index_var_type.require_integral_type()?;
 
-            match index_var_type {
-                IrType::I64 => {
-                    // index should be int not long, so we can add it to ptr
-                    let temp_index_var = prog.new_var(index_var.get_value_type());
-                    prog.add_var_type(temp_index_var.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::U64toI32(
-                        prog.new_instr_id(),
-                        temp_index_var.to_owned(),
-                        index_var,
-                    ));
-                    index_var = Src::Var(temp_index_var);
-                }
-                IrType::U64 => {
-                    // index should be int not long, so we can add it to ptr
-                    let temp_index_var = prog.new_var(index_var.get_value_type());
-                    prog.add_var_type(temp_index_var.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::I64toI32(
-                        prog.new_instr_id(),
-                        temp_index_var.to_owned(),
-                        index_var,
-                    ));
-                    index_var = Src::Var(temp_index_var);
-                }
-                _ => {}
-            }
-
-            // multiply index by size of element, to get number of bytes to advance ptr by
-            let element_byte_size = arr_inner_type.get_byte_size(&prog.program_metadata);
-            let byte_size_var = match element_byte_size {
-                TypeSize::CompileTime(byte_size) => Src::Constant(Constant::Int(byte_size as i128)),
-                TypeSize::Runtime(byte_size_expr) => {
-                    let (mut byte_size_instrs, byte_size_var) =
-                        convert_expression_to_ir(byte_size_expr, prog, context)?;
-                    instrs.append(&mut byte_size_instrs);
-                    byte_size_var
-                }
-            };
-            let (mut binary_convert_instrs, left_var, right_var) =
-                binary_convert(index_var, byte_size_var, prog)?;
-            instrs.append(&mut binary_convert_instrs);
-            let ptr_offset_var = prog.new_var(ValueType::RValue);
-            // left and right vars have same type cos of binary conversion
-            let left_var_type = left_var.get_type(&prog.program_metadata)?;
-            prog.add_var_type(ptr_offset_var.to_owned(), left_var_type)?;
-            instrs.push(Instruction::Mult(
-                prog.new_instr_id(),
-                ptr_offset_var.to_owned(),
-                left_var,
-                right_var,
-            ));
+            // number of bytes to advance ptr by
+            let (mut ptr_offset_instrs, ptr_offset_var) =
+                convert_pointer_offset_to_ir(index_var, &arr_var_type, prog, context)?;
+            instrs.append(&mut ptr_offset_instrs);
 
             // array variable is a pointer to the start of the array
             let ptr = prog.new_var(ValueType::LValue);
@@ -1031,7 +1023,7 @@ pub fn convert_expression_to_ir(
                 prog.new_instr_id(),
                 ptr.to_owned(),
                 arr_var,
-                Src::Var(ptr_offset_var),
+                ptr_offset_var,
             ));
             if this_expr_directly_on_lhs_of_assignment {
                 // store to array index
@@ -1577,28 +1569,10 @@ pub fn convert_expression_to_ir(
                         // result is the pointer type
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
                         // add to pointer in multiples of the byte size of the type it points to
-                        let temp = prog.new_var(right_var.get_value_type());
-                        prog.add_var_type(temp.to_owned(), right_var_type)?;
-                        let ptr_object_byte_size = match left_var_type
-                            .get_pointer_object_byte_size(&prog.program_metadata)?
-                        {
-                            TypeSize::CompileTime(size) => {
-                                Src::Constant(Constant::Int(size as i128))
-                            }
-                            TypeSize::Runtime(size_expr) => {
-                                let (mut size_expr_instrs, size_var) =
-                                    convert_expression_to_ir(size_expr, prog, context)?;
-                                instrs.append(&mut size_expr_instrs);
-                                size_var
-                            }
-                        };
-                        instrs.push(Instruction::Mult(
-                            prog.new_instr_id(),
-                            temp.to_owned(),
-                            right_var,
-                            ptr_object_byte_size,
-                        ));
-                        right_var = Src::Var(temp);
+                        let (mut offset_instrs, offset_var) =
+                            convert_pointer_offset_to_ir(right_var, &left_var_type, prog, context)?;
+                        instrs.append(&mut offset_instrs);
+                        right_var = offset_var;
                     }
                     instrs.push(Instruction::Add(
                         prog.new_instr_id(),
@@ -1608,7 +1582,7 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::Sub => {
-                    let (mut convert_instrs, mut left_var, mut right_var) =
+                    let (mut convert_instrs, left_var, mut right_var) =
                         binary_convert(left_var, right_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
@@ -1626,54 +1600,46 @@ pub fn convert_expression_to_ir(
                         ));
                     }
                     if left_var_type.is_arithmetic_type() {
-                        prog.add_var_type(dest.to_owned(), left_var_type)?;
+                        prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
                     } else if right_var_type.is_integral_type() {
                         // pointer - integer
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
 
                         // subtract from pointer in multiples of the byte size it points to
-                        let temp_right_var = prog.new_var(right_var.get_value_type());
-                        prog.add_var_type(temp_right_var.to_owned(), right_var_type)?;
-                        let ptr_object_byte_size = match left_var_type
-                            .get_pointer_object_byte_size(&prog.program_metadata)?
-                        {
-                            TypeSize::CompileTime(size) => {
-                                Src::Constant(Constant::Int(size as i128))
-                            }
-                            TypeSize::Runtime(size_expr) => {
-                                let (mut size_expr_instrs, size_var) =
-                                    convert_expression_to_ir(size_expr, prog, context)?;
-                                instrs.append(&mut size_expr_instrs);
-                                size_var
-                            }
-                        };
-                        instrs.push(Instruction::Mult(
-                            prog.new_instr_id(),
-                            temp_right_var.to_owned(),
-                            right_var,
-                            ptr_object_byte_size,
-                        ));
-                        right_var = Src::Var(temp_right_var);
-
-                        // convert ptr to i32
-                        let temp_left_var = prog.new_var(left_var.get_value_type());
-                        prog.add_var_type(temp_left_var.to_owned(), IrType::I32)?;
-                        instrs.push(Instruction::PtrToI32(
-                            prog.new_instr_id(),
-                            temp_left_var.to_owned(),
-                            left_var,
-                        ));
-                        left_var = Src::Var(temp_left_var);
+                        let (mut offset_instrs, offset_var) =
+                            convert_pointer_offset_to_ir(right_var, &left_var_type, prog, context)?;
+                        instrs.append(&mut offset_instrs);
+                        right_var = offset_var;
                     } else {
                         // pointer - pointer -> int
                         prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     }
+                    // difference in bytes, if subtracting pointers
+                    let difference = if right_var_type.is_object_pointer_type() {
+                        let difference = prog.new_var(ValueType::RValue);
+                        prog.add_var_type(difference.to_owned(), IrType::I32)?;
+                        difference
+                    } else {
+                        dest.to_owned()
+                    };
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
-                        dest.to_owned(),
+                        difference.to_owned(),
                         left_var,
                         right_var,
                     ));
+                    if right_var_type.is_object_pointer_type() {
+                        // result is the number of objects between the pointers
+                        let (mut size_instrs, object_byte_size) =
+                            get_pointer_object_byte_size_src(&left_var_type, prog, context)?;
+                        instrs.append(&mut size_instrs);
+                        instrs.push(Instruction::Div(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Var(difference),
+                            object_byte_size,
+                        ));
+                    }
                 }
                 BinaryOperator::LeftShift => {
                     // operands are promoted separately, the result has the type of the left one
-- 
2.43.0


From ef087ef804384f78c558125b349fc9257fd6db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 17/72] fix: addresses of and members of any lvalue, nested
 arrays, sizeof an array, value of a store through a pointer

---
 src/middle_end/aggregate_type_initialisers.rs |   2 +-
 src/middle_end/ast_to_ir.rs                   | 338 ++++++++----------
 src/middle_end/ir_types.rs                    |  19 +-
 3 files changed, 164 insertions(+), 195 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 9719ab8..619d03f 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -19,7 +19,7 @@ pub fn array_initialiser(
 
     let array_member_type = dest_type_info.unwrap_array_type()?;
     // sizes of array members must be known at compile time
-    let array_member_byte_size = match array_member_type.get_byte_size(&prog.program_metadata) {
+    let array_member_byte_size = match array_member_type.get_object_byte_size(&prog.program_metadata)? {
         TypeSize::CompileTime(size) => size,
         TypeSize::Runtime(_) => return Err(MiddleEndError::ArrayMemberSizeNotKnownAtCompileTime),
     };
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 9abfb94..951aaa5 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -903,6 +903,93 @@ fn convert_increment_to_ir(
     Ok((instrs, result))
 }
 
+/// convert an lvalue expression to a pointer to the object it designates
+fn convert_expression_to_address(
+    expr: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    context.directly_on_lhs_of_assignment = true;
+    let (mut instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
+    context.directly_on_lhs_of_assignment = false;
+    match expr_var {
+        // we already have the address
+        Src::StoreAddressVar(ptr) => Ok((instrs, Src::Var(ptr))),
+        _ => {
+            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            let dest = prog.new_var(ValueType::RValue);
+            instrs.push(if expr_var_type.is_array_type() {
+                // an array variable holds the address of the array
+                Instruction::SimpleAssignment(prog.new_instr_id(), dest.to_owned(), expr_var)
+            } else {
+                Instruction::AddressOf(prog.new_instr_id(), dest.to_owned(), expr_var)
+            });
+            // store type of dest
+            prog.add_var_type(
+                dest.to_owned(),
+                IrType::PointerTo(Box::new(expr_var_type)),
+            )?;
+            Ok((instrs, Src::Var(dest)))
+        }
+    }
+}
+
+/// get a pointer to a member of the struct or union that the given pointer points to
+fn convert_member_address_to_ir(
+    obj_ptr: Src,
+    member_name: &str,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, VarId), MiddleEndError> {
+    let obj_type = obj_ptr
+        .get_type(&prog.program_metadata)?
+        .dereference_pointer_type()?;
+    obj_type.require_struct_or_union_type()?;
+    let (member_type, member_byte_offset) = match obj_type {
+        IrType::Struct(struct_id) => {
+            let struct_type = prog.get_struct_type(&struct_id)?;
+            (
+                struct_type.get_member_type(member_name)?,
+                struct_type.get_member_byte_offset(member_name)?,
+            )
+        }
+        IrType::Union(union_id) => {
+            // every member is at the start of the union
+            let union_type = prog.get_union_type(&union_id)?;
+            (union_type.get_member_type(member_name)?, 0)
+        }
+        _ => unreachable!(),
+    };
+
+    // ptr = obj_ptr + (byte offset)
+    let ptr = prog.new_var(ValueType::LValue);
+    prog.add_var_type(ptr.to_owned(), IrType::PointerTo(Box::new(member_type)))?;
+    let instrs = vec![Instruction::Add(
+        prog.new_instr_id(),
+        ptr.to_owned(),
+        obj_ptr,
+        Src::Constant(Constant::Int(member_byte_offset as i128)),
+    )];
+    Ok((instrs, ptr))
+}
+
+/// read the object that the given variable points to
+fn load_object_at_address(
+    ptr: VarId,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let object_type = prog.get_var_type(&ptr)?.dereference_pointer_type()?;
+    let dest = prog.new_var(ValueType::LValue);
+    prog.add_var_type(dest.to_owned(), object_type.to_owned())?;
+    let instrs = vec![if object_type.is_array_type() {
+        // the value of an array is its address
+        Instruction::SimpleAssignment(prog.new_instr_id(), dest.to_owned(), Src::Var(ptr))
+    } else {
+        // dest = *ptr
+        Instruction::LoadFromAddress(prog.new_instr_id(), dest.to_owned(), Src::Var(ptr))
+    }];
+    Ok((instrs, Src::Var(dest)))
+}
+
 /// get the size in bytes of the objects that the given pointer type points to
 fn get_pointer_object_byte_size_src(
     pointer_type: &IrType,
@@ -1008,8 +1095,6 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut unary_convert_arr_instrs);
             let arr_var_type = arr_var.get_type(&prog.program_metadata)?;
             arr_var_type.require_pointer_type()?;
-            // the type of the actual array elements
-            let arr_inner_type = arr_var_type.dereference_pointer_type()?;
 
             // number of bytes to advance ptr by
             let (mut ptr_offset_instrs, ptr_offset_var) =
@@ -1030,14 +1115,9 @@ pub fn convert_expression_to_ir(
                 Ok((instrs, Src::StoreAddressVar(ptr)))
             } else {
                 // read from array index
-                let dest = prog.new_var(ValueType::LValue);
-                prog.add_var_type(dest.to_owned(), arr_inner_type)?;
-                instrs.push(Instruction::LoadFromAddress(
-                    prog.new_instr_id(),
-                    dest.to_owned(),
-                    Src::Var(ptr),
-                ));
-                Ok((instrs, Src::Var(dest)))
+                let (mut load_instrs, dest) = load_object_at_address(ptr, prog)?;
+                instrs.append(&mut load_instrs);
+                Ok((instrs, dest))
             }
         }
         Expression::FunctionCall(fun, params) => {
@@ -1088,144 +1168,41 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::DirectMemberSelection(obj, Identifier(member_name)) => {
-            let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
+            let (mut obj_instrs, obj_ptr) = convert_expression_to_address(*obj, prog, context)?;
             instrs.append(&mut obj_instrs);
-            let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
-            obj_var_type.require_struct_or_union_type()?;
-
-            // obj_ptr = &obj_var
-            let obj_ptr = prog.new_var(obj_var.get_value_type());
-            prog.add_var_type(
-                obj_ptr.to_owned(),
-                IrType::PointerTo(Box::new(obj_var_type.to_owned())),
-            )?;
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                obj_ptr.to_owned(),
-                obj_var,
-            ));
-
-            match obj_var_type {
-                IrType::Struct(struct_id) => {
-                    let struct_type = prog.get_struct_type(&struct_id)?;
-                    let member_type = struct_type.get_member_type(&member_name)?;
-                    let member_byte_offset = struct_type.get_member_byte_offset(&member_name)?;
+            let (mut member_instrs, ptr) = convert_member_address_to_ir(obj_ptr, &member_name, prog)?;
+            instrs.append(&mut member_instrs);
 
-                    let ptr = prog.new_var(ValueType::LValue);
-                    prog.add_var_type(
-                        ptr.to_owned(),
-                        IrType::PointerTo(Box::new(member_type.to_owned())),
-                    )?;
-                    // ptr = obj_ptr + (byte offset)
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        ptr.to_owned(),
-                        Src::Var(obj_ptr),
-                        Src::Constant(Constant::Int(member_byte_offset as i128)),
-                    ));
-
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to struct member
-                        Ok((instrs, Src::StoreAddressVar(ptr)))
-                    } else {
-                        // load from struct member
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
-                }
-                IrType::Union(union_id) => {
-                    let union_type = prog.get_union_type(&union_id)?;
-                    let member_type = union_type.get_member_type(&member_name)?;
-
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_ptr)))
-                    } else {
-                        // load from union
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *obj_ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(obj_ptr),
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
-                }
-                _ => unreachable!(),
+            if this_expr_directly_on_lhs_of_assignment {
+                // store to struct/union member
+                Ok((instrs, Src::StoreAddressVar(ptr)))
+            } else {
+                // load from struct/union member
+                let (mut load_instrs, dest) = load_object_at_address(ptr, prog)?;
+                instrs.append(&mut load_instrs);
+                Ok((instrs, dest))
             }
         }
         Expression::IndirectMemberSelection(obj, Identifier(member_name)) => {
             let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
             instrs.append(&mut obj_instrs);
-            let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
-            obj_var_type.require_pointer_type()?;
-            let inner_type = obj_var_type.dereference_pointer_type()?;
-            inner_type.require_struct_or_union_type()?;
-            match inner_type {
-                IrType::Struct(struct_id) => {
-                    let struct_type = prog.get_struct_type(&struct_id)?;
-                    let member_type = struct_type.get_member_type(&member_name)?;
-                    let member_byte_offset = struct_type.get_member_byte_offset(&member_name)?;
-
-                    let ptr = prog.new_var(ValueType::LValue);
-                    prog.add_var_type(
-                        ptr.to_owned(),
-                        IrType::PointerTo(Box::new(member_type.to_owned())),
-                    )?;
-                    // ptr = (address of struct) + (byte offset)
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        ptr.to_owned(),
-                        obj_var,
-                        Src::Constant(Constant::Int(member_byte_offset as i128)),
-                    ));
-
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to struct member
-                        Ok((instrs, Src::StoreAddressVar(ptr)))
-                    } else {
-                        // load from struct member
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
-                }
-                IrType::Union(union_id) => {
-                    let union_type = prog.get_union_type(&union_id)?;
-                    let member_type = union_type.get_member_type(&member_name)?;
+            // unary conversion, in case it's an array
+            let (mut unary_convert_instrs, obj_var) = unary_convert(obj_var, prog)?;
+            instrs.append(&mut unary_convert_instrs);
+            obj_var
+                .get_type(&prog.program_metadata)?
+                .require_pointer_type()?;
+            let (mut member_instrs, ptr) = convert_member_address_to_ir(obj_var, &member_name, prog)?;
+            instrs.append(&mut member_instrs);
 
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_var.unwrap_var()?)))
-                    } else {
-                        // load from union
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *obj_ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            obj_var,
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
-                }
-                _ => unreachable!(),
+            if this_expr_directly_on_lhs_of_assignment {
+                // store to struct/union member
+                Ok((instrs, Src::StoreAddressVar(ptr)))
+            } else {
+                // load from struct/union member
+                let (mut load_instrs, dest) = load_object_at_address(ptr, prog)?;
+                instrs.append(&mut load_instrs);
+                Ok((instrs, dest))
             }
         }
         Expression::PostfixIncrement(expr) => {
@@ -1241,52 +1218,41 @@ pub fn convert_expression_to_ir(
             convert_increment_to_ir(*expr, false, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
+            let (mut expr_instrs, ptr) = convert_expression_to_address(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            // result isn't an lvalue
             let dest = prog.new_var(ValueType::RValue);
-            instrs.push(Instruction::AddressOf(
+            prog.add_var_type(dest.to_owned(), ptr.get_type(&prog.program_metadata)?)?;
+            instrs.push(Instruction::SimpleAssignment(
                 prog.new_instr_id(),
                 dest.to_owned(),
-                expr_var,
+                ptr,
             ));
-            // store type of dest
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(expr_var_type)))?;
             Ok((instrs, Src::Var(dest)))
         }
         Expression::UnaryOp(UnaryOperator::Dereference, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if this_expr_directly_on_lhs_of_assignment {
-                // store to memory address
-                match expr_var_type {
-                    IrType::PointerTo(_) => {
-                        // prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                        match expr_var {
-                            Src::Var(expr_var) => Ok((instrs, Src::StoreAddressVar(expr_var))),
-                            _ => Err(MiddleEndError::AttemptToStoreToNonVariable),
-                        }
-                    }
-                    _ => Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
-                }
-            } else {
-                // dereference load from memory address
-                let dest = prog.new_var(ValueType::LValue);
-                instrs.push(Instruction::LoadFromAddress(
-                    prog.new_instr_id(),
-                    dest.to_owned(),
-                    expr_var,
-                ));
-                // check whether the var is allowed to be dereferenced;
-                // if so, store the type of dest
-                match expr_var_type {
-                    IrType::PointerTo(inner_type) => {
-                        prog.add_var_type(dest.to_owned(), *inner_type)?;
+            // unary conversion, in case it's an array
+            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
+            instrs.append(&mut unary_convert_instrs);
+            // check whether the var is allowed to be dereferenced
+            expr_var
+                .get_type(&prog.program_metadata)?
+                .dereference_pointer_type()?;
+            match expr_var {
+                Src::Var(ptr) => {
+                    if this_expr_directly_on_lhs_of_assignment {
+                        // store to memory address
+                        Ok((instrs, Src::StoreAddressVar(ptr)))
+                    } else {
+                        // dereference load from memory address
+                        let (mut load_instrs, dest) = load_object_at_address(ptr, prog)?;
+                        instrs.append(&mut load_instrs);
+                        Ok((instrs, dest))
                     }
-                    _ => return Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
                 }
-                Ok((instrs, Src::Var(dest)))
+                _ => Err(MiddleEndError::AttemptToStoreToNonVariable),
             }
         }
         Expression::UnaryOp(op, expr) => {
@@ -1421,15 +1387,11 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::SizeOfExpr(e) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*e, prog, context)?;
-            instrs.append(&mut expr_instrs);
+            // the operand isn't evaluated, we only need its type
+            let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
 
-            let type_size = if expr_var_type.is_array_type() {
-                expr_var_type.get_array_size()?
-            } else {
-                expr_var_type.get_byte_size(&prog.program_metadata)
-            };
+            let type_size = expr_var_type.get_object_byte_size(&prog.program_metadata)?;
             let size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
                 TypeSize::Runtime(size_expr) => {
@@ -1453,11 +1415,7 @@ pub fn convert_expression_to_ir(
                 None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                 Some(x) => x,
             };
-            let type_size = if type_info.is_array_type() {
-                type_info.get_array_size()?
-            } else {
-                type_info.get_byte_size(&prog.program_metadata)
-            };
+            let type_size = type_info.get_object_byte_size(&prog.program_metadata)?;
             let byte_size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
                 TypeSize::Runtime(size_expr) => {
@@ -1999,17 +1957,19 @@ pub fn convert_expression_to_ir(
             if is_store_to_address {
                 instrs.push(Instruction::StoreToAddress(
                     prog.new_instr_id(),
-                    dest.to_owned(),
-                    src_var,
+                    dest,
+                    src_var.to_owned(),
                 ));
+                // the value of the assignment is the value stored
+                Ok((instrs, src_var))
             } else {
                 instrs.push(Instruction::SimpleAssignment(
                     prog.new_instr_id(),
                     dest.to_owned(),
                     src_var,
                 ));
+                Ok((instrs, Src::Var(dest)))
             }
-            Ok((instrs, Src::Var(dest)))
         }
         Expression::Cast(cast_type_decl, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 996c9cd..969f481 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -97,12 +97,21 @@ impl IrType {
         }
     }
 
+    /// Get the size in bytes of an object of this type: unlike an array variable, which is stored
+    /// as a pointer, an array object consists of its elements.
+    pub fn get_object_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
+        match self {
+            IrType::ArrayOf(..) => self.get_array_byte_size(prog),
+            t => Ok(t.get_byte_size(prog)),
+        }
+    }
+
     pub fn get_pointer_object_byte_size(
         &self,
         prog: &ProgramMetadata,
     ) -> Result<TypeSize, MiddleEndError> {
         match self {
-            IrType::PointerTo(inner_type) => Ok(inner_type.get_byte_size(prog)),
+            IrType::PointerTo(inner_type) => inner_type.get_object_byte_size(prog),
             t => Err(MiddleEndError::DereferenceNonPointerType(t.to_owned())),
         }
     }
@@ -110,7 +119,7 @@ impl IrType {
     pub fn get_array_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
         match self {
             IrType::ArrayOf(inner_type, count) => match count {
-                Some(TypeSize::CompileTime(count)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::CompileTime(count)) => match inner_type.get_object_byte_size(prog)? {
                     TypeSize::CompileTime(t_size) => Ok(TypeSize::CompileTime(t_size * count)),
                     TypeSize::Runtime(t_size_expr) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
@@ -118,7 +127,7 @@ impl IrType {
                         Box::new(Expression::Constant(Constant::Int(*count as u128))),
                     ))),
                 },
-                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_object_byte_size(prog)? {
                     TypeSize::CompileTime(t_size) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
                         Box::new(count_expr.to_owned()),
@@ -458,7 +467,7 @@ impl StructType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateStructMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        let byte_size = match member_type.get_object_byte_size(prog)? {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedStructMemberSize),
         };
@@ -578,7 +587,7 @@ impl UnionType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateUnionMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        let byte_size = match member_type.get_object_byte_size(prog)? {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedUnionMemberSize),
         };
-- 
2.43.0


From 4ff0ab3a515085026f733de5e2aeb732a790729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 18/72] fix: compound assignment evaluates its destination
 once; comma expressions

---
 src/front_end/ast.rs                |  7 +++++
 src/front_end/c_parser.lalrpop      | 20 ++++++-------
 src/middle_end/ast_to_ir.rs         | 44 +++++++++++++++++++++++++++--
 src/middle_end/compile_time_eval.rs |  3 +-
 4 files changed, 61 insertions(+), 13 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index ebe33fb..9af4a57 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -261,6 +261,7 @@ pub enum Expression {
     BinaryOp(BinaryOperator, Box<Expression>, Box<Expression>),
     Ternary(Box<Expression>, Box<Expression>, Box<Expression>),
     Assignment(Box<Expression>, Box<Expression>),
+    CompoundAssignment(BinaryOperator, Box<Expression>, Box<Expression>),
     Cast(TypeName, Box<Expression>),
     ExpressionList(Box<Expression>, Box<Expression>),
 }
@@ -316,6 +317,12 @@ impl AstNode for Expression {
             Expression::Assignment(l, r) => {
                 format!("{} = {}", l.reconstruct_source(), r.reconstruct_source())
             }
+            Expression::CompoundAssignment(op, l, r) => format!(
+                "{} {}= {}",
+                l.reconstruct_source(),
+                op.reconstruct_source(),
+                r.reconstruct_source()
+            ),
             Expression::Cast(t, e) => {
                 format!("({}) {}", t.reconstruct_source(), e.reconstruct_source())
             }
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index 5e6f045..5d7c2e5 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -370,25 +370,25 @@ AssignmentExpression: ast::Expression = {
   <dest:ConditionalExpression> "=" <src:AssignmentExpression>
     => ast::Expression::Assignment(Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "*=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Mult, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Mult, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "/=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Div, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Div, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "%=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Mod, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Mod, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "+=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Add, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Add, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "-=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Sub, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Sub, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "<<=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::LeftShift, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::LeftShift, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> ">>=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::RightShift, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::RightShift, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "&=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseAnd, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseAnd, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "^=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseXor, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseXor, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "|=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseOr, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseOr, Box::new(dest), Box::new(src)),
 }
 
 ConditionalExpression: ast::Expression = {
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 951aaa5..2b9ebcd 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1971,6 +1971,41 @@ pub fn convert_expression_to_ir(
                 Ok((instrs, Src::Var(dest)))
             }
         }
+        Expression::CompoundAssignment(op, dest_expr, src_expr) => {
+            if let Expression::Identifier(_) = *dest_expr {
+                // dest = dest op src
+                let value_expr =
+                    Expression::BinaryOp(op, Box::new((*dest_expr).to_owned()), src_expr);
+                return convert_expression_to_ir(
+                    Expression::Assignment(dest_expr, Box::new(value_expr)),
+                    prog,
+                    context,
+                );
+            }
+            // dest is only evaluated once: give its address a name that can't clash with any
+            // identifier in the source program, then convert  *ptr = *ptr op src
+            let (mut dest_instrs, dest_ptr) =
+                convert_expression_to_address(*dest_expr, prog, context)?;
+            instrs.append(&mut dest_instrs);
+            let ptr_type = dest_ptr.get_type(&prog.program_metadata)?;
+            let ptr = dest_ptr.unwrap_var()?;
+            let ptr_name = format!("address {ptr}");
+            context.push_scope();
+            context.add_variable_to_scope(ptr_name.to_owned(), ptr, ptr_type)?;
+            let dest_expr = Expression::UnaryOp(
+                UnaryOperator::Dereference,
+                Box::new(Expression::Identifier(Identifier(ptr_name))),
+            );
+            let value_expr = Expression::BinaryOp(op, Box::new(dest_expr.to_owned()), src_expr);
+            let (mut assign_instrs, result) = convert_expression_to_ir(
+                Expression::Assignment(Box::new(dest_expr), Box::new(value_expr)),
+                prog,
+                context,
+            )?;
+            instrs.append(&mut assign_instrs);
+            context.pop_scope();
+            Ok((instrs, result))
+        }
         Expression::Cast(cast_type_decl, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
@@ -1987,8 +2022,13 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut cast_instrs);
             Ok((instrs, dest))
         }
-        Expression::ExpressionList(_, _) => {
-            todo!("expression lists")
+        Expression::ExpressionList(first, second) => {
+            // the value of the first expression is discarded
+            let (mut first_instrs, _) = convert_expression_to_ir(*first, prog, context)?;
+            instrs.append(&mut first_instrs);
+            let (mut second_instrs, result) = convert_expression_to_ir(*second, prog, context)?;
+            instrs.append(&mut second_instrs);
+            Ok((instrs, result))
         }
     }
 }
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 5f71f83..2f4af73 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -280,6 +280,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
         | Expression::PostfixDecrement(_)
         | Expression::PrefixIncrement(_)
         | Expression::PrefixDecrement(_)
-        | Expression::Assignment(_, _) => Err(MiddleEndError::InvalidConstantExpression),
+        | Expression::Assignment(_, _)
+        | Expression::CompoundAssignment(_, _, _) => Err(MiddleEndError::InvalidConstantExpression),
     }
 }
-- 
2.43.0


From 6eaacac61418a58f9b2c1b972ef56fcde91c785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 19/72] fix: struct initialisers write through a pointer
 instead of over the struct's own slot; (void) parameter lists

---
 src/middle_end/aggregate_type_initialisers.rs | 12 +++----
 src/middle_end/ast_to_ir.rs                   | 32 ++++++++-----------
 src/middle_end/get_ast_type_info.rs           |  5 +++
 3 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 619d03f..be34d33 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -126,8 +126,9 @@ pub fn array_initialiser(
     Ok(instrs)
 }
 
+/// initialise the struct at the address in `dest_ptr`
 pub fn struct_initialiser(
-    dest: VarId,
+    dest_ptr: VarId,
     dest_type_info: IrType,
     initialiser_list: Vec<Initialiser>,
     prog: &mut Program,
@@ -153,16 +154,11 @@ pub fn struct_initialiser(
             member_ptr_var.to_owned(),
             IrType::PointerTo(Box::new(member_type.to_owned())),
         )?;
-        // member_ptr_var = &dest + byte_offset
-        instrs.push(Instruction::AddressOf(
-            prog.new_instr_id(),
-            member_ptr_var.to_owned(),
-            Src::Var(dest.to_owned()),
-        ));
+        // member_ptr_var = dest_ptr + byte_offset
         instrs.push(Instruction::Add(
             prog.new_instr_id(),
             member_ptr_var.to_owned(),
-            Src::Var(member_ptr_var.to_owned()),
+            Src::Var(dest_ptr.to_owned()),
             Src::Constant(Constant::Int(member_byte_offset as i128)),
         ));
 
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 2b9ebcd..d841532 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -608,29 +608,25 @@ fn convert_statement_to_ir(
                                                 dest_type.to_owned(),
                                             )?;
 
-                                            let byte_size = match dest_type
-                                                .get_byte_size(&prog.program_metadata)
-                                            {
-                                                TypeSize::CompileTime(size) => {
-                                                    Src::Constant(Constant::Int(size as i128))
-                                                }
-                                                TypeSize::Runtime(size_expr) => {
-                                                    let (mut size_expr_instrs, size_var) =
-                                                        convert_expression_to_ir(
-                                                            size_expr, prog, context,
-                                                        )?;
-                                                    instrs.append(&mut size_expr_instrs);
-                                                    size_var
-                                                }
-                                            };
-                                            instrs.push(Instruction::AllocateVariable(
+                                            instrs.push(Instruction::DeclareVariable(
                                                 prog.new_instr_id(),
                                                 dest.to_owned(),
-                                                byte_size,
+                                            ));
+
+                                            // initialise the struct through a pointer to it
+                                            let struct_ptr = prog.new_var(ValueType::LValue);
+                                            prog.add_var_type(
+                                                struct_ptr.to_owned(),
+                                                IrType::PointerTo(Box::new(dest_type.to_owned())),
+                                            )?;
+                                            instrs.push(Instruction::AddressOf(
+                                                prog.new_instr_id(),
+                                                struct_ptr.to_owned(),
+                                                Src::Var(dest),
                                             ));
 
                                             let mut init_instrs = struct_initialiser(
-                                                dest,
+                                                struct_ptr,
                                                 dest_type,
                                                 initialisers,
                                                 prog,
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 837eace..be7724a 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -265,12 +265,17 @@ fn add_type_info_from_declarator(
 
             let mut param_types: Vec<IrType> = Vec::new();
             let mut param_bindings: FunctionParameterBindings = Vec::new();
+            let is_only_param = param_decls.len() == 1 && !is_variadic;
             for p in param_decls {
                 let (param_type, param_name, _sub_param_bindings) =
                     match get_type_info(&p.0, p.1, false, prog, context)? {
                         None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                         Some(x) => x,
                     };
+                // an unnamed void parameter on its own means that there are no parameters
+                if is_only_param && param_name.is_none() && param_type == IrType::Void {
+                    continue;
+                }
                 param_types.push(param_type.to_owned());
                 if let Some(name) = param_name {
                     param_bindings.push((name, param_type));
-- 
2.43.0


From fa0f90dbc473431d64d8d4b20a039c67534a3d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 20/72] fix: limits.h values and types, isspace and isprint

---
 headers/ctype.h  |  4 ++--
 headers/limits.h | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/headers/ctype.h b/headers/ctype.h
index 4e5d50e..05d2c1a 100644
--- a/headers/ctype.h
+++ b/headers/ctype.h
@@ -44,7 +44,7 @@ int ispunct(char c) {
 }
 
 int isprint(char c) {
-    return !iscntrl(c);
+    return c >= 32 && c <= 126;
 }
 
 int islower(char c) {
@@ -56,7 +56,7 @@ int isupper(char c) {
 }
 
 int isspace(char c) {
-    return c == '\t' || c == '\r' || c == '\n' || c == ' ';
+    return c == ' ' || (c >= '\t' && c <= '\r');
 }
 
 char tolower(char c) {
diff --git a/headers/limits.h b/headers/limits.h
index a8ae41d..99b3a9b 100644
--- a/headers/limits.h
+++ b/headers/limits.h
@@ -2,27 +2,27 @@
 #define _LIMITS_H
 
 #define CHAR_BIT 8
-#define SCHAR_MIN -128
+#define SCHAR_MIN (-128)
 #define SCHAR_MAX 127
 #define UCHAR_MAX 255
-#define CHAR_MIN -128
+#define CHAR_MIN (-128)
 #define CHAR_MAX 127
 
-#define SHRT_MIN -32768
+#define SHRT_MIN (-32768)
 #define SHRT_MAX 32767
 #define USHRT_MAX 65535
 
-#define INT_MIN -2147483648
+#define INT_MIN (-2147483647 - 1)
 #define INT_MAX 2147483647
-#define UINT_MAX 4294967296
+#define UINT_MAX 0xFFFFFFFF
 
-#define LONG_MIN -9223372036854775808
+#define LONG_MIN (-9223372036854775807 - 1)
 #define LONG_MAX 9223372036854775807
-#define ULONG_MAX 18446744073709551615
+#define ULONG_MAX 0xFFFFFFFFFFFFFFFF
 
 // same as long
-#define LLONG_MIN -9223372036854775808
+#define LLONG_MIN (-9223372036854775807 - 1)
 #define LLONG_MAX 9223372036854775807
-#define ULLONG_MAX 18446744073709551615
+#define ULLONG_MAX 0xFFFFFFFFFFFFFFFF
 
 #endif
\ No newline at end of file
-- 
2.43.0


From 37a4e1c2d8645ef08fc600e3249546d0dd71f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 21/72] fix: relooper: loop entries always stay inside their
 loop, blocks that can't be reached are dropped

---
 src/relooper/relooper.rs |  5 +++--
 src/relooper/soupify.rs  | 29 ++++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index aa1fbbc..d72af53 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -496,9 +496,10 @@ fn create_loop_block(
 ) -> Block {
     let mut inner_labels: Labels = HashMap::new();
     let mut next_labels: Labels = HashMap::new();
-    // find the labels that can return to one of the entries, and those that can't
+    // find the labels that can return to one of the entries, and those that can't.
+    // the entries themselves always have to be inside the loop
     for (label_id, label) in labels {
-        let mut can_return = false;
+        let mut can_return = entries.contains(&label_id);
         for entry in &entries {
             if reachability.get(&label_id).unwrap().contains(entry) {
                 can_return = true;
diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index d5e06d2..a9103d6 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::trace;
 
@@ -26,7 +26,26 @@ pub fn soupify(
     for instr in &instrs {
         trace!("  {}", instr);
     }
-    instructions_to_soup_of_labels(instrs)
+    let (mut labels, entry) = instructions_to_soup_of_labels(instrs);
+    remove_unreachable_labels(&mut labels, &entry);
+    (labels, entry)
+}
+
+/// Remove the labels that can't be reached from the entry. The relooper only places labels
+/// that can be reached, but would still follow the branches from the ones that can't.
+fn remove_unreachable_labels(labels: &mut Labels, entry: &LabelId) {
+    let mut reachable = HashSet::new();
+    let mut to_visit = vec![entry.to_owned()];
+    while let Some(label_id) = to_visit.pop() {
+        if reachable.contains(&label_id) {
+            continue;
+        }
+        if let Some(label) = labels.get(&label_id) {
+            to_visit.append(&mut label.possible_branch_targets());
+        }
+        reachable.insert(label_id);
+    }
+    labels.retain(|label_id, _| reachable.contains(label_id));
 }
 
 /// Remove the instructions between an unconditional branch or a return and the next label.
@@ -173,7 +192,11 @@ fn remove_label_fallthrough(instrs: &mut Vec<Instruction>, prog_metadata: &mut P
                     ));
                 }
             }
-            Instruction::Br(..) | Instruction::BrIfEq(..) | Instruction::BrIfNotEq(..) => {
+            Instruction::Br(..)
+            | Instruction::BrIfEq(..)
+            | Instruction::BrIfNotEq(..)
+            | Instruction::Ret(..)
+            | Instruction::TailCall(..) => {
                 prev_instr_was_branch = true;
             }
             _ => {
-- 
2.43.0


From 28d0997ed48e85beb8006ac3d89355a1371ecd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:45 +0000
Subject: [PATCH 22/72] fix: struct and union tags are in scope in their own
 members and for later declarators

---
 src/middle_end/context.rs           | 41 +++++++++++++++++-
 src/middle_end/get_ast_type_info.rs | 67 +++++++++++++++++++++--------
 src/middle_end/ir.rs                | 12 ++++++
 src/middle_end/ir_types.rs          | 10 ++++-
 4 files changed, 108 insertions(+), 22 deletions(-)

diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index fdc306a..f307a7b 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -4,7 +4,8 @@ use log::trace;
 
 use crate::middle_end::ids::{FunId, LabelId, StructId, UnionId, VarId};
 use crate::middle_end::instructions::Instruction;
-use crate::middle_end::ir_types::{EnumConstant, IrType};
+use crate::middle_end::ir::ProgramMetadata;
+use crate::middle_end::ir_types::{EnumConstant, IrType, StructType, UnionType};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 #[derive(Debug)]
@@ -294,6 +295,25 @@ impl Context {
         }
     }
 
+    /// The id of the struct type with this tag in the innermost scope, which must still be incomplete;
+    /// an incomplete type is created if there is none.
+    pub fn begin_struct_definition(
+        &mut self,
+        name: &str,
+        prog: &mut ProgramMetadata,
+    ) -> Result<StructId, MiddleEndError> {
+        let scope = self.scope_stack.last().ok_or(MiddleEndError::ScopeError)?;
+        if let Ok(struct_id) = scope.resolve_struct_tag_to_struct_id(name) {
+            return match prog.get_struct_type(&struct_id)?.member_types.is_empty() {
+                true => Ok(struct_id),
+                false => Err(MiddleEndError::DuplicateTypeDeclaration(name.to_owned())),
+            };
+        }
+        let struct_id = prog.new_incomplete_struct_type(StructType::named(name.to_owned()));
+        self.add_struct_tag(name.to_owned(), struct_id.to_owned())?;
+        Ok(struct_id)
+    }
+
     pub fn add_struct_tag(
         &mut self,
         name: String,
@@ -331,6 +351,25 @@ impl Context {
         }
     }
 
+    /// The id of the union type with this tag in the innermost scope, which must still be incomplete;
+    /// an incomplete type is created if there is none.
+    pub fn begin_union_definition(
+        &mut self,
+        name: &str,
+        prog: &mut ProgramMetadata,
+    ) -> Result<UnionId, MiddleEndError> {
+        let scope = self.scope_stack.last().ok_or(MiddleEndError::ScopeError)?;
+        if let Ok(union_id) = scope.resolve_union_tag_to_union_id(name) {
+            return match prog.get_union_type(&union_id)?.member_types.is_empty() {
+                true => Ok(union_id),
+                false => Err(MiddleEndError::DuplicateTypeDeclaration(name.to_owned())),
+            };
+        }
+        let union_id = prog.new_incomplete_union_type(UnionType::named(name.to_owned()));
+        self.add_union_tag(name.to_owned(), union_id.to_owned())?;
+        Ok(union_id)
+    }
+
     pub fn add_union_tag(&mut self, name: String, union_id: UnionId) -> Result<(), MiddleEndError> {
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index be7724a..dddea1b 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -48,26 +48,35 @@ pub fn get_type_info(
                 match context.resolve_struct_tag_to_struct_id(struct_name) {
                     Ok(struct_id) => IrType::Struct(struct_id),
                     Err(MiddleEndError::UndeclaredStructTag(_)) => {
-                        let struct_type_id =
-                            prog.add_struct_type(StructType::named(struct_name.to_owned()))?;
-                        context
-                            .add_struct_tag(struct_name.to_owned(), struct_type_id.to_owned())?;
+                        let struct_type_id = context
+                            .begin_struct_definition(struct_name, &mut prog.program_metadata)?;
                         IrType::Struct(struct_type_id)
                     }
                     Err(e) => return Err(e),
                 }
             }
+            AstStructType::Definition(Some(Identifier(struct_name)), _) if is_duplicate_specifier => {
+                // already defined by an earlier declarator of the same declaration
+                IrType::Struct(context.resolve_struct_tag_to_struct_id(struct_name)?)
+            }
             AstStructType::Definition(struct_name, members) => {
+                // the tag is in scope for its own members
+                let tag_id = match struct_name {
+                    Some(Identifier(name)) => {
+                        Some(context.begin_struct_definition(name, &mut prog.program_metadata)?)
+                    }
+                    None => None,
+                };
                 let mut struct_type = match struct_name {
                     Some(Identifier(name)) => StructType::named(name.to_owned()),
                     None => StructType::unnamed(),
                 };
                 for member in members {
-                    for decl in &member.1 {
+                    for (i, decl) in member.1.iter().enumerate() {
                         let (member_type_info, member_name, _params) = match get_type_info(
                             &member.0,
                             Some(decl.to_owned()),
-                            false,
+                            i > 0,
                             prog,
                             context,
                         )? {
@@ -84,10 +93,15 @@ pub fn get_type_info(
                         )?;
                     }
                 }
-                let struct_type_id = prog.add_struct_type(struct_type)?;
-                if let Some(Identifier(name)) = struct_name {
-                    context.add_struct_tag(name.to_owned(), struct_type_id.to_owned())?;
-                }
+                let struct_type_id = match tag_id {
+                    Some(struct_id) => {
+                        prog.program_metadata
+                            .structs
+                            .insert(struct_id.to_owned(), struct_type);
+                        struct_id
+                    }
+                    None => prog.add_struct_type(struct_type)?,
+                };
                 IrType::Struct(struct_type_id)
             }
         },
@@ -97,25 +111,35 @@ pub fn get_type_info(
                 match context.resolve_union_tag_to_union_id(union_name) {
                     Ok(union_id) => IrType::Union(union_id),
                     Err(MiddleEndError::UndeclaredUnionTag(_)) => {
-                        let union_type_id =
-                            prog.add_union_type(UnionType::named(union_name.to_owned()))?;
-                        context.add_union_tag(union_name.to_owned(), union_type_id.to_owned())?;
+                        let union_type_id = context
+                            .begin_union_definition(union_name, &mut prog.program_metadata)?;
                         IrType::Union(union_type_id)
                     }
                     Err(e) => return Err(e),
                 }
             }
+            AstUnionType::Definition(Some(Identifier(union_name)), _) if is_duplicate_specifier => {
+                // already defined by an earlier declarator of the same declaration
+                IrType::Union(context.resolve_union_tag_to_union_id(union_name)?)
+            }
             AstUnionType::Definition(union_name, members) => {
+                // the tag is in scope for its own members
+                let tag_id = match union_name {
+                    Some(Identifier(name)) => {
+                        Some(context.begin_union_definition(name, &mut prog.program_metadata)?)
+                    }
+                    None => None,
+                };
                 let mut union_type = match union_name {
                     Some(Identifier(name)) => UnionType::named(name.to_owned()),
                     None => UnionType::unnamed(),
                 };
                 for member in members {
-                    for decl in &member.1 {
+                    for (i, decl) in member.1.iter().enumerate() {
                         let (member_type_info, member_name, _params) = match get_type_info(
                             &member.0,
                             Some(decl.to_owned()),
-                            false,
+                            i > 0,
                             prog,
                             context,
                         )? {
@@ -132,10 +156,15 @@ pub fn get_type_info(
                         )?;
                     }
                 }
-                let union_type_id = prog.add_union_type(union_type)?;
-                if let Some(Identifier(name)) = union_name {
-                    context.add_union_tag(name.to_owned(), union_type_id.to_owned())?;
-                }
+                let union_type_id = match tag_id {
+                    Some(union_id) => {
+                        prog.program_metadata
+                            .unions
+                            .insert(union_id.to_owned(), union_type);
+                        union_id
+                    }
+                    None => prog.add_union_type(union_type)?,
+                };
                 IrType::Union(union_type_id)
             }
         },
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index ab46887..b50811d 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -203,6 +203,12 @@ impl ProgramMetadata {
         }
     }
 
+    pub fn new_incomplete_struct_type(&mut self, struct_type: StructType) -> StructId {
+        let struct_id = self.struct_id_generator.new_id();
+        self.structs.insert(struct_id.to_owned(), struct_type);
+        struct_id
+    }
+
     pub fn add_struct_type(&mut self, struct_type: StructType) -> Result<StructId, MiddleEndError> {
         // check if the same struct type has already been stored in program
         for (existing_struct_id, existing_struct_type) in &self.structs {
@@ -222,6 +228,12 @@ impl ProgramMetadata {
         }
     }
 
+    pub fn new_incomplete_union_type(&mut self, union_type: UnionType) -> UnionId {
+        let union_id = self.union_id_generator.new_id();
+        self.unions.insert(union_id.to_owned(), union_type);
+        union_id
+    }
+
     pub fn add_union_type(&mut self, union_type: UnionType) -> Result<UnionId, MiddleEndError> {
         // check if the same union type has already been stored in program
         for (existing_union_id, existing_union_type) in &self.unions {
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 969f481..8225dda 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -468,8 +468,11 @@ impl StructType {
             return Err(MiddleEndError::DuplicateStructMember);
         }
         let byte_size = match member_type.get_object_byte_size(prog)? {
+            // an incomplete type has no size
+            TypeSize::CompileTime(0) | TypeSize::Runtime(_) => {
+                return Err(MiddleEndError::UndefinedStructMemberSize)
+            }
             TypeSize::CompileTime(size) => size,
-            TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedStructMemberSize),
         };
         self.members.push(member_name.to_owned());
         self.member_types
@@ -588,8 +591,11 @@ impl UnionType {
             return Err(MiddleEndError::DuplicateUnionMember);
         }
         let byte_size = match member_type.get_object_byte_size(prog)? {
+            // an incomplete type has no size
+            TypeSize::CompileTime(0) | TypeSize::Runtime(_) => {
+                return Err(MiddleEndError::UndefinedUnionMemberSize)
+            }
             TypeSize::CompileTime(size) => size,
-            TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedUnionMemberSize),
         };
         self.member_types.insert(member_name, member_type);
         // total size of union is the size of the largest member
-- 
2.43.0


From dc8750975a6d8b89b88bf09ef4cf0395a2a47741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:03 +0000
Subject: [PATCH 23/72] fix: one-letter typedef names, several typedef names in
 one declaration

---
 src/front_end/lexer.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 687f9a2..ef844fa 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -318,14 +318,13 @@ impl Lexer<'_> {
     fn parse_typedef_name(&mut self) -> Result<(), LexError> {
         let result = c_parser::DeclarationParser::new().parse(self.typedef_stmt_buffer.to_vec());
         if let Ok(ast::Statement::Declaration(_, ds)) = result {
-            if ds.len() == 1 {
-                if let Some(name) = ds[0].get_identifier_name() {
-                    trace!("Found typedef identifier: {:?}", name);
-                    self.typedef_names.push(name);
-                    trace!("Typedef names so far: {:?}", self.typedef_names);
-                    self.typedef_stmt_buffer = vec![];
-                    return Ok(());
-                }
+            let names: Option<Vec<_>> = ds.iter().map(|d| d.get_identifier_name()).collect();
+            if let Some(mut names) = names.filter(|names| !names.is_empty()) {
+                trace!("Found typedef identifiers: {:?}", names);
+                self.typedef_names.append(&mut names);
+                trace!("Typedef names so far: {:?}", self.typedef_names);
+                self.typedef_stmt_buffer = vec![];
+                return Ok(());
             }
         }
         self.typedef_stmt_buffer = vec![];
@@ -556,14 +555,9 @@ impl Fsm {
                     token: None,
                 }),
                 // identifiers only start with letters or underscore, not number
-                c if c.is_ascii_alphabetic() => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier(c.to_string())),
-                }),
-                '_' => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier("_".to_owned())),
-                }),
+                c if c.is_ascii_alphabetic() || c == '_' => {
+                    Some(lex_identifier(c.to_string(), typedef_names))
+                }
                 '0' => Some(Fsm {
                     state: State::Oct1,
                     token: Some(Token::OctalConstant("0".to_owned())),
-- 
2.43.0


From ad9b2c652aabede757ec5dcf3a18279818a90a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:24 +0000
Subject: [PATCH 24/72] fix: string.h and stddef.h can both be included

---
 headers/stddef.h | 3 +++
 headers/string.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/headers/stddef.h b/headers/stddef.h
index bada4d3..5cfded6 100644
--- a/headers/stddef.h
+++ b/headers/stddef.h
@@ -3,7 +3,10 @@
 
 #define NULL ((void*)0)
 
+#ifndef _SIZE_T
+#define _SIZE_T
 typedef int size_t;
+#endif
 typedef int ptrdiff_t;
 typedef int wchar_t;
 
diff --git a/headers/string.h b/headers/string.h
index 7bb19d1..96b590e 100644
--- a/headers/string.h
+++ b/headers/string.h
@@ -3,7 +3,10 @@
 
 #define NULL ((void*)0)
 
+#ifndef _SIZE_T
+#define _SIZE_T
 typedef int size_t;
+#endif
 
 size_t strlen(const char *s);
 
-- 
2.43.0


From 67d9cdd96b772c3d5711b6b1a416d0466abc4b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:12 +0000
Subject: [PATCH 25/72] fix: string literals and char constants are made of
 bytes; \a \b \f \v escapes

---
 src/back_end/initialise_memory.rs   |  2 +-
 src/front_end/interpret_string.rs   | 26 +++++++++++++++-----------
 src/middle_end/ast_to_ir.rs         |  6 +++++-
 src/middle_end/compile_time_eval.rs |  2 +-
 4 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index b6dcc94..095d8e0 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -41,7 +41,7 @@ pub fn initialise_memory(
             .string_literal_id_to_ptr_map
             .insert(string_literal_id.to_owned(), ptr_to_string as u32);
         // insert the string
-        data.append(&mut string.as_bytes().to_vec());
+        data.extend(string.chars().map(|c| c as u8));
         // null terminate the string
         data.push(0x00);
     }
diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 0b846ef..c9af7fe 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -1,21 +1,23 @@
-use std::{iter::Peekable, str::Chars};
+use std::{iter::Peekable, str::Bytes};
 
 #[cfg(test)]
 #[path = "interpret_string_tests.rs"]
 mod interpret_string_tests;
 
+/// Each char of the result is one byte of the string: either an escape sequence or a byte of the
+/// UTF-8 encoded source.
 pub fn interpret_string(s: &str) -> Result<String, Error> {
     InterpretString::new(s).collect()
 }
 
 struct InterpretString<'a> {
-    s: Peekable<Chars<'a>>,
+    s: Peekable<std::iter::Map<Bytes<'a>, fn(u8) -> char>>,
 }
 
 impl<'a> InterpretString<'a> {
     pub fn new(s: &'a str) -> Self {
         InterpretString {
-            s: s.chars().peekable(),
+            s: s.bytes().map(char::from as fn(u8) -> char).peekable(),
         }
     }
 }
@@ -31,6 +33,10 @@ impl Iterator for InterpretString<'_> {
                     Some('\"') => Ok('"'),
                     Some('?') => Ok('?'),
                     Some('\\') => Ok('\\'),
+                    Some('a') => Ok('\x07'),
+                    Some('b') => Ok('\x08'),
+                    Some('f') => Ok('\x0c'),
+                    Some('v') => Ok('\x0b'),
                     Some('n') => Ok('\n'),
                     Some('r') => Ok('\r'),
                     Some('t') => Ok('\t'),
@@ -54,10 +60,9 @@ impl Iterator for InterpretString<'_> {
                                 }
                                 // convert the hex code to an int, and then to
                                 // the corresponding char
-                                let hex_code = u32::from_str_radix(&buffer, 16).unwrap();
-                                match char::from_u32(hex_code) {
-                                    Some(c) => Ok(c),
-                                    None => Err(Error::InvalidCharCode(buffer)),
+                                match u8::from_str_radix(&buffer, 16) {
+                                    Ok(hex_code) => Ok(char::from(hex_code)),
+                                    Err(_) => Err(Error::InvalidCharCode(buffer)),
                                 }
                             }
                             Some(c) => Err(Error::InvalidEscapeChar(*c)),
@@ -86,10 +91,9 @@ impl Iterator for InterpretString<'_> {
                         }
                         // convert the octal code to an int, and then to the
                         // corresponding char
-                        let oct_code = u32::from_str_radix(&buffer, 8).unwrap();
-                        match char::from_u32(oct_code) {
-                            Some(c) => Ok(c),
-                            None => Err(Error::InvalidCharCode(buffer)),
+                        match u8::from_str_radix(&buffer, 8) {
+                            Ok(oct_code) => Ok(char::from(oct_code)),
+                            Err(_) => Err(Error::InvalidCharCode(buffer)),
                         }
                     }
                     Some(c) => Err(Error::InvalidEscapeChar(c)),
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d841532..05bb587 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1066,7 +1066,11 @@ pub fn convert_expression_to_ir(
                 Ok((instrs, Src::Var(temp)))
             }
             ast::Constant::Float(f) => Ok((instrs, Src::Constant(Constant::Float(f)))),
-            ast::Constant::Char(ch) => Ok((instrs, Src::Constant(Constant::Int(ch as i128)))),
+            // a char constant has the value of a (signed) char
+            ast::Constant::Char(ch) => Ok((
+                instrs,
+                Src::Constant(Constant::Int(ch as u8 as i8 as i128)),
+            )),
         },
         Expression::StringLiteral(s) => {
             let string_id = prog.new_string_literal(s);
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 2f4af73..852ebb1 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -34,7 +34,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 Ok(ConstantExpressionType::Int(i as i128))
             }
             AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
-            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as i128)),
+            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as u8 as i8 as i128)),
         },
         Expression::StringLiteral(_) => Err(MiddleEndError::InvalidConstantExpression),
         Expression::Index(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
-- 
2.43.0


From 46c4eac7e0b8db0fbfe81bcc17c7fc67af53d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 26/72] fix: only char arrays are initialised from a string in
 braces

---
 src/middle_end/aggregate_type_initialisers.rs | 2 +-
 src/middle_end/ast_to_ir.rs                   | 2 +-
 src/middle_end/ir_types.rs                    | 9 +++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index be34d33..5856732 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -163,7 +163,7 @@ pub fn struct_initialiser(
         ));
 
         // check for case of initialising a char array with a string literal
-        if member_type.is_array_type() {
+        if member_type.is_char_array_type() {
             match member_initialiser.to_owned() {
                 Initialiser::Expr(e) => {
                     if let Expression::StringLiteral(s) = e.to_owned() {
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 05bb587..5bdca2e 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -464,7 +464,7 @@ fn convert_statement_to_ir(
                         };
 
                         // check for case of initialising a char array with a string literal
-                        if dest_type_info.is_array_type() {
+                        if dest_type_info.is_char_array_type() {
                             match init_expr.to_owned() {
                                 Initialiser::Expr(e) => {
                                     if let Expression::StringLiteral(s) = e.to_owned() {
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 8225dda..ac348ea 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -259,6 +259,15 @@ impl IrType {
         }
     }
 
+    pub fn is_char_array_type(&self) -> bool {
+        match self {
+            IrType::ArrayOf(member_type, _) => {
+                matches!(**member_type, IrType::I8 | IrType::U8)
+            }
+            _ => false,
+        }
+    }
+
     pub fn is_array_type(&self) -> bool {
         matches!(self, IrType::ArrayOf(..))
     }
-- 
2.43.0


From c7f36302debc72febb5bcaf639298e83401a1dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 27/72] fix: printf %f rounds ties to an even digit

---
 runtime/stdlib/stdio.mjs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index b60f31b..904dfa6 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -138,7 +138,14 @@ function format_double(value) {
     }
     // toFixed() drops the sign of negative zero, and gives an exponent from 1e21 on (all of those are integers)
     const magnitude = Math.abs(value);
-    const digits = magnitude < 1e21 ? magnitude.toFixed(6) : `${BigInt(magnitude)}.000000`;
+    let digits = magnitude < 1e21 ? magnitude.toFixed(6) : `${BigInt(magnitude)}.000000`;
+    // toFixed() rounds a tie (only an odd multiple of 1/128 can be one) up, C rounds it to an even digit
+    if ((magnitude * 128) % 2 === 1) {
+        const truncated = magnitude.toFixed(7).slice(0, -1);
+        if (Number(truncated.slice(-1)) % 2 === 0) {
+            digits = truncated;
+        }
+    }
     const is_negative = value < 0 || Object.is(value, -0);
     return is_negative ? `-${digits}` : digits;
 }
-- 
2.43.0


From 31a190b27d77a9ee4dfed302d1c71e71f01c343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 28/72] fix: a variable declared in a for statement goes out of
 scope after the loop

---
 src/middle_end/ast_to_ir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 5bdca2e..186c001 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -156,6 +156,8 @@ fn convert_statement_to_ir(
             let loop_start_label = prog.new_label();
             let loop_end_label = prog.new_label();
             let loop_continue_label = prog.new_label();
+            // the scope of a declaration in the initialiser is the loop
+            context.push_scope();
             // optional initialiser statement - runs before the loop starts
             match init {
                 None => {}
@@ -220,6 +222,7 @@ fn convert_statement_to_ir(
             // end of loop label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_end_label));
             context.pop_loop();
+            context.pop_scope();
         }
         Statement::If(cond, body) => {
             // if statement condition
-- 
2.43.0


From bfdb3a0dd6e7b78898db3e61b0a3ceada1f595ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 29/72] fix: terminate argv with a null pointer

---
 runtime/init_memory.mjs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/init_memory.mjs b/runtime/init_memory.mjs
index 62c9b4d..460c586 100644
--- a/runtime/init_memory.mjs
+++ b/runtime/init_memory.mjs
@@ -1,4 +1,4 @@
-import {PTR_SIZE} from "./memory_constants.mjs";
+import {NULL, PTR_SIZE} from "./memory_constants.mjs";
 import {read_stack_ptr, store_ptr, store_stack_ptr} from "./memory_operations.mjs";
 
 // put the program arguments into wasm memory
@@ -10,8 +10,9 @@ export const put_args_into_memory = (args, wasm_memory) => {
     const argc = args.length;
     const argv = stack_ptr;
 
-    // allocate space for each pointer in argv
-    stack_ptr += PTR_SIZE * argc;
+    // allocate space for each pointer in argv, and the null pointer that terminates it
+    stack_ptr += PTR_SIZE * (argc + 1);
+    store_ptr(argv + (argc * PTR_SIZE), NULL, memory);
 
     // store each arg after each other in memory and null-terminate
     for (let i = 0; i < argc; i++) {
-- 
2.43.0


From 2a1d2d3a86f9ac12ebefdd0905900be712005f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 30/72] fix: report unreadable source lines instead of skipping
 them or looping forever

---
 src/preprocessor.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 5957077..d309b8a 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -38,15 +38,15 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
     match read_lines(filepath) {
         Ok(lines) => {
             for line in lines {
-                if let Ok(l) = line {
-                    // check if line is a #include directive
-                    if let Some(include) = check_for_include(&l) {
-                        includes.push(include);
-                        continue;
-                    }
-                    output.push_str(&l);
-                    output.push('\n');
+                // a line that can't be read (eg. of a directory, or that isn't UTF-8) is an error
+                let l = line.map_err(PreprocessorError::IoError)?;
+                // check if line is a #include directive
+                if let Some(include) = check_for_include(&l) {
+                    includes.push(include);
+                    continue;
                 }
+                output.push_str(&l);
+                output.push('\n');
             }
             Ok((output, includes))
         }
-- 
2.43.0


From 752d4727b7e41b3df3964e39ab17cf796d6d0781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 31/72] fix: several declarations of one function or global
 variable refer to the same one

---
 src/middle_end/ast_to_ir.rs        | 42 ++++++++++++++++++++++++------
 src/middle_end/context.rs          | 22 +++++++++++++++-
 src/middle_end/ir.rs               | 15 +++++++++--
 src/middle_end/middle_end_error.rs |  4 +++
 4 files changed, 72 insertions(+), 11 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 186c001..489500e 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -396,6 +396,11 @@ fn convert_statement_to_ir(
                                 // function declaration
                                 Some(name) => {
                                     trace!("Function declaration: {}", name);
+                                    // the same function can be declared any number of times
+                                    if prog.is_redeclaration_of_fun(&name, &type_info) {
+                                        is_initial_declarator = false;
+                                        continue;
+                                    }
                                     let fun_declaration =
                                         Function::declaration(type_info.to_owned());
                                     let fun_id =
@@ -413,6 +418,14 @@ fn convert_statement_to_ir(
                                 // non-function declaration (normal variable)
                                 Some(name) => {
                                     trace!("Variable declaration: {}", name);
+                                    // another declaration of the same global variable
+                                    if context
+                                        .get_declared_global_var(&name, &type_info)
+                                        .is_some()
+                                    {
+                                        is_initial_declarator = false;
+                                        continue;
+                                    }
                                     let var = prog.new_var(ValueType::LValue);
                                     context.add_variable_to_scope(
                                         name,
@@ -538,7 +551,9 @@ fn convert_statement_to_ir(
                                             src = converted_var;
                                         }
 
-                                        let dest = prog.new_var(ValueType::LValue);
+                                        let dest = context
+                                            .get_declared_global_var(&name, &dest_type_info)
+                                            .unwrap_or_else(|| prog.new_var(ValueType::LValue));
                                         prog.add_var_type(
                                             dest.to_owned(),
                                             src.get_type(&prog.program_metadata)?,
@@ -556,8 +571,13 @@ fn convert_statement_to_ir(
                                     }
                                     Initialiser::List(initialisers) => match dest_type_info {
                                         IrType::ArrayOf(member_type, size) => {
-                                            let dest = prog.new_var(ValueType::LValue);
                                             let dest_type = IrType::ArrayOf(member_type, size);
+                                            let declared_var = context
+                                                .get_declared_global_var(&name, &dest_type);
+                                            let is_declared = declared_var.is_some();
+                                            let dest = declared_var.unwrap_or_else(|| {
+                                                prog.new_var(ValueType::LValue)
+                                            });
                                             prog.add_var_type(
                                                 dest.to_owned(),
                                                 dest_type.to_owned(),
@@ -583,11 +603,13 @@ fn convert_statement_to_ir(
                                                     size_var
                                                 }
                                             };
-                                            instrs.push(Instruction::AllocateVariable(
-                                                prog.new_instr_id(),
-                                                dest.to_owned(),
-                                                array_byte_size,
-                                            ));
+                                            if !is_declared {
+                                                instrs.push(Instruction::AllocateVariable(
+                                                    prog.new_instr_id(),
+                                                    dest.to_owned(),
+                                                    array_byte_size,
+                                                ));
+                                            }
 
                                             let mut init_instrs = array_initialiser(
                                                 dest,
@@ -599,8 +621,12 @@ fn convert_statement_to_ir(
                                             instrs.append(&mut init_instrs);
                                         }
                                         IrType::Struct(struct_id) => {
-                                            let dest = prog.new_var(ValueType::LValue);
                                             let dest_type = IrType::Struct(struct_id);
+                                            let dest = context
+                                                .get_declared_global_var(&name, &dest_type)
+                                                .unwrap_or_else(|| {
+                                                    prog.new_var(ValueType::LValue)
+                                                });
                                             prog.add_var_type(
                                                 dest.to_owned(),
                                                 dest_type.to_owned(),
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index f307a7b..5ef1e7d 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -191,7 +191,27 @@ impl Context {
         trace!("adding variable \"{}\" to scope", name);
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
-            Some(scope) => scope.add_var(name, var, type_info),
+            Some(scope) => match scope.resolve_identifier_to_var(&name) {
+                Some(existing_var) if existing_var != var => {
+                    Err(MiddleEndError::DuplicateVariableDeclaration(name))
+                }
+                _ => scope.add_var(name, var, type_info),
+            },
+        }
+    }
+
+    /// Global variables can be declared more than once, always with the same type.
+    /// Find the variable that an earlier global declaration introduced.
+    pub fn get_declared_global_var(&self, name: &str, type_info: &IrType) -> Option<VarId> {
+        match self.scope_stack.as_slice() {
+            [global_scope] => {
+                let var = global_scope.resolve_identifier_to_var(name)?;
+                match global_scope.variable_types.get(&var) {
+                    Some(var_type) if var_type == type_info => Some(var),
+                    _ => None,
+                }
+            }
+            _ => None,
         }
     }
 
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index b50811d..1c456a2 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -189,8 +189,11 @@ impl ProgramMetadata {
 
     pub fn add_var_type(&mut self, var: VarId, var_type: IrType) -> Result<(), MiddleEndError> {
         trace!("Setting type {} = {}", var, var_type);
-        if self.var_types.contains_key(&var) {
-            return Err(MiddleEndError::RedeclaredVarType(var));
+        match self.var_types.get(&var) {
+            Some(existing_type) if *existing_type != var_type => {
+                return Err(MiddleEndError::RedeclaredVarType(var));
+            }
+            _ => {}
         }
         self.var_types.insert(var, var_type);
         Ok(())
@@ -373,6 +376,14 @@ impl Program {
         Ok(fun_id)
     }
 
+    /// Whether a function with this name has already been declared with the same type
+    pub fn is_redeclaration_of_fun(&self, name: &str, type_info: &IrType) -> bool {
+        match self.program_metadata.function_ids.get(name) {
+            Some(fun_id) => self.program_metadata.function_types.get(fun_id) == Some(type_info),
+            None => false,
+        }
+    }
+
     pub fn new_fun_body(&mut self, name: String, fun: Function) -> Result<FunId, MiddleEndError> {
         match self.program_metadata.function_ids.get(&name) {
             None => self.new_fun_declaration(name, fun),
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index e63c39b..1db62e7 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -21,6 +21,7 @@ pub enum MiddleEndError {
     UndeclaredUnionTag(String),
     InvalidLValue,
     DuplicateFunctionDeclaration(String),
+    DuplicateVariableDeclaration(String),
     DuplicateTypeDeclaration(String),
     DuplicateEnumConstantDeclaration(String),
     InvalidDeclaration,
@@ -120,6 +121,9 @@ impl fmt::Display for MiddleEndError {
             MiddleEndError::InvalidTypedefDeclaration => {
                 write!(f, "Invalid typedef declaration")
             }
+            MiddleEndError::DuplicateVariableDeclaration(name) => {
+                write!(f, "Duplicate variable declaration: \"{name}\"")
+            }
             MiddleEndError::DuplicateFunctionDeclaration(name) => {
                 write!(f, "Duplicate function declaration: \"{name}\"")
             }
-- 
2.43.0


From 534643b57dbafe169f7204f17913c132f2f56df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 32/72] fix: reject assignments to non-lvalues, wrong argument
 counts, redeclared variables and incomplete types

---
 src/middle_end/ast_to_ir.rs | 35 +++++++++++++++++++++++++++++++++++
 src/middle_end/ir.rs        |  2 +-
 src/middle_end/ir_types.rs  | 14 ++++++++++++++
 3 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 489500e..65fa8fb 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -73,6 +73,11 @@ fn convert_statement_to_ir(
         },
         Statement::Return(expr) => match expr {
             None => {
+                if context.function_return_type.is_some() {
+                    return Err(MiddleEndError::InvalidOperation(
+                        "Returning no value from a non-void function",
+                    ));
+                }
                 instrs.push(Instruction::Ret(prog.new_instr_id(), None));
             }
             Some(expr) => {
@@ -86,6 +91,10 @@ fn convert_statement_to_ir(
                         convert_type_for_assignment(expr_var, expr_var_type, return_type, prog)?;
                     instrs.append(&mut convert_instrs);
                     expr_var = converted_var;
+                } else if expr_var.get_type(&prog.program_metadata)? != IrType::Void {
+                    return Err(MiddleEndError::InvalidOperation(
+                        "Returning a value from a void function",
+                    ));
                 }
                 instrs.push(Instruction::Ret(prog.new_instr_id(), Some(expr_var)));
             }
@@ -426,6 +435,10 @@ fn convert_statement_to_ir(
                                         is_initial_declarator = false;
                                         continue;
                                     }
+                                    // only an object of a complete type can be declared
+                                    if type_info.is_incomplete_type(&prog.program_metadata)? {
+                                        return Err(MiddleEndError::InvalidDeclaration);
+                                    }
                                     let var = prog.new_var(ValueType::LValue);
                                     context.add_variable_to_scope(
                                         name,
@@ -840,6 +853,11 @@ fn convert_increment_to_ir(
     let (mut instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
     context.directly_on_lhs_of_assignment = false;
 
+    // check that we're modifying an lvalue
+    if !expr_var.get_value_type().is_lvalue() {
+        return Err(MiddleEndError::AttemptToModifyNonLValue);
+    }
+
     // load the old value
     let old_value = prog.new_var(ValueType::RValue);
     let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
@@ -940,6 +958,8 @@ fn convert_expression_to_address(
     match expr_var {
         // we already have the address
         Src::StoreAddressVar(ptr) => Ok((instrs, Src::Var(ptr))),
+        // only an lvalue has an address
+        _ if !expr_var.get_value_type().is_lvalue() => Err(MiddleEndError::InvalidLValue),
         _ => {
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             let dest = prog.new_var(ValueType::RValue);
@@ -1162,6 +1182,17 @@ pub fn convert_expression_to_ir(
             let fun_id = fun_var.require_function_id()?;
             let dest_type = fun_var.get_function_return_type(prog)?;
             let param_types = fun_var.get_function_param_types(prog)?;
+            let is_variadic = matches!(
+                fun_var.get_type(&prog.program_metadata)?,
+                IrType::Function(_, _, true)
+            );
+            if params.len() < param_types.len()
+                || (params.len() > param_types.len() && !is_variadic)
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Calling a function with the wrong number of arguments",
+                ));
+            }
 
             let mut param_srcs: Vec<Src> = Vec::new();
             for param in params {
@@ -1966,6 +1997,10 @@ pub fn convert_expression_to_ir(
                 }
                 Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidAssignment),
             }
+            // an array can't be assigned to as a whole
+            if dest_var_type.is_array_type() {
+                return Err(MiddleEndError::InvalidAssignment);
+            }
 
             if src_var_type != dest_var_type {
                 let (mut convert_instrs, converted_var) =
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index 1c456a2..cee0b22 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -395,7 +395,7 @@ impl Program {
                     .functions
                     .get(existing_fun_id)
                     .unwrap();
-                if existing_fun.type_info != fun.type_info {
+                if existing_fun.type_info != fun.type_info || existing_fun.body_is_defined {
                     return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
                 }
                 self.program_metadata
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index ac348ea..65d688e 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -145,6 +145,20 @@ impl IrType {
         }
     }
 
+    /// Whether this is a type that no object can have, such as void or an undeclared struct
+    pub fn is_incomplete_type(&self, prog: &ProgramMetadata) -> Result<bool, MiddleEndError> {
+        match self {
+            IrType::Void => Ok(true),
+            IrType::ArrayOf(_, None) => Ok(true),
+            IrType::ArrayOf(member_type, _) => member_type.is_incomplete_type(prog),
+            IrType::Struct(struct_id) => Ok(prog.get_struct_type(struct_id)?.members.is_empty()),
+            IrType::Union(union_id) => {
+                Ok(prog.get_union_type(union_id)?.member_types.is_empty())
+            }
+            _ => Ok(false),
+        }
+    }
+
     pub fn wrap_with_pointer(self) -> Self {
         IrType::PointerTo(Box::new(self))
     }
-- 
2.43.0


From e2a227cffa3326ac916ab108b38bed3edaf4e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 33/72] fix: evaluate the sizes of a variable length array once

---
 src/middle_end/ast_to_ir.rs | 48 +++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 65fa8fb..e7e5892 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -439,6 +439,9 @@ fn convert_statement_to_ir(
                                     if type_info.is_incomplete_type(&prog.program_metadata)? {
                                         return Err(MiddleEndError::InvalidDeclaration);
                                     }
+                                    let (type_info, mut size_instrs) =
+                                        evaluate_array_sizes(type_info, prog, context)?;
+                                    instrs.append(&mut size_instrs);
                                     let var = prog.new_var(ValueType::LValue);
                                     context.add_variable_to_scope(
                                         name,
@@ -842,6 +845,51 @@ fn convert_logical_operator_to_ir(
 
 /// convert an increment (or decrement, if not is_increment) of a variable or of the value at an
 /// address. The result is the new value if is_prefix, or else the old value.
+/// Evaluate the sizes of a variable length array once, where it's declared.
+/// The size expressions in the returned type refer to variables holding the evaluated sizes.
+fn evaluate_array_sizes(
+    type_info: IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(IrType, Vec<Instruction>), MiddleEndError> {
+    let mut instrs: Vec<Instruction> = Vec::new();
+    let type_info = match type_info {
+        IrType::ArrayOf(member_type, size) => {
+            let size = match size {
+                Some(TypeSize::Runtime(size_expr)) => {
+                    let (mut size_instrs, size_src) =
+                        convert_expression_to_ir(size_expr, prog, context)?;
+                    instrs.append(&mut size_instrs);
+                    let size_type = size_src.get_type(&prog.program_metadata)?;
+                    let (mut convert_instrs, size_src) =
+                        convert_type_for_assignment(size_src, size_type, IrType::I32, prog)?;
+                    instrs.append(&mut convert_instrs);
+                    let size_var = prog.new_var(ValueType::LValue);
+                    prog.add_var_type(size_var.to_owned(), IrType::I32)?;
+                    instrs.push(Instruction::SimpleAssignment(
+                        prog.new_instr_id(),
+                        size_var.to_owned(),
+                        size_src,
+                    ));
+                    // not a valid C identifier, so can't clash with a name in the program
+                    let size_name = format!("sizeof {size_var}");
+                    context.add_variable_to_scope(size_name.to_owned(), size_var, IrType::I32)?;
+                    Some(TypeSize::Runtime(Expression::Identifier(Identifier(
+                        size_name,
+                    ))))
+                }
+                size => size,
+            };
+            let (member_type, mut member_instrs) =
+                evaluate_array_sizes(*member_type, prog, context)?;
+            instrs.append(&mut member_instrs);
+            IrType::ArrayOf(Box::new(member_type), size)
+        }
+        type_info => type_info,
+    };
+    Ok((type_info, instrs))
+}
+
 fn convert_increment_to_ir(
     expr: Expression,
     is_increment: bool,
-- 
2.43.0


From 523b9dfe52da194e065a0ce203149866398b8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 34/72] fix: reject switches on non-integers and gotos to
 labels not defined exactly once

---
 src/middle_end/ast_to_ir.rs        | 15 +++++++++++++++
 src/middle_end/middle_end_error.rs |  6 +++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index e7e5892..6a7d1c9 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -282,6 +282,14 @@ fn convert_statement_to_ir(
             // the integer promotions are done on the switch expression
             let (mut unary_convert_instrs, switch_src) = unary_convert(switch_src, prog)?;
             instrs.append(&mut unary_convert_instrs);
+            if !switch_src
+                .get_type(&prog.program_metadata)?
+                .is_integral_type()
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Switch on a non-integer value",
+                ));
+            }
             let switch_var = match switch_src {
                 Src::Var(var) => var,
                 Src::Constant(c) => {
@@ -750,6 +758,13 @@ fn convert_statement_to_ir(
             prog.clear_identifier_labels();
             // function body instructions
             let instrs = convert_statement_to_ir(*body, prog, context)?;
+            // every label that's used must be defined exactly once in the function
+            for label in prog.program_metadata.label_ids.values() {
+                let is_label = |i: &&Instruction| matches!(i, Instruction::Label(_, l) if l == label);
+                if instrs.iter().filter(is_label).count() != 1 {
+                    return Err(MiddleEndError::LabelNotDefinedOnce(label.to_owned()));
+                }
+            }
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 1db62e7..7c6543a 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -2,7 +2,7 @@ use std::error::Error;
 use std::fmt;
 use std::fmt::Formatter;
 
-use crate::middle_end::ids::{FunId, VarId};
+use crate::middle_end::ids::{FunId, LabelId, VarId};
 use crate::middle_end::ir_types::IrType;
 
 #[derive(Debug)]
@@ -22,6 +22,7 @@ pub enum MiddleEndError {
     InvalidLValue,
     DuplicateFunctionDeclaration(String),
     DuplicateVariableDeclaration(String),
+    LabelNotDefinedOnce(LabelId),
     DuplicateTypeDeclaration(String),
     DuplicateEnumConstantDeclaration(String),
     InvalidDeclaration,
@@ -121,6 +122,9 @@ impl fmt::Display for MiddleEndError {
             MiddleEndError::InvalidTypedefDeclaration => {
                 write!(f, "Invalid typedef declaration")
             }
+            MiddleEndError::LabelNotDefinedOnce(label) => {
+                write!(f, "Label not defined exactly once: {label}")
+            }
             MiddleEndError::DuplicateVariableDeclaration(name) => {
                 write!(f, "Duplicate variable declaration: \"{name}\"")
             }
-- 
2.43.0


From 87bd2b20f278c5a955d8714b317c69952c5a8351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 35/72] fix: recognise include directives however they are
 spaced

---
 src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index d309b8a..311a85c 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -63,7 +63,7 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
 /// If so, returns the name of the header file included, or None otherwise
 fn check_for_include(line: &str) -> Option<String> {
     lazy_static! {
-        static ref INCLUDE_RE: Regex = Regex::new(r#"^#include\s[<"](.*)[>"]"#).unwrap();
+        static ref INCLUDE_RE: Regex = Regex::new(r#"^\s*#\s*include\s*[<"]([^>"]*)[>"]"#).unwrap();
     }
 
     if let Some(captures) = INCLUDE_RE.captures(line) {
-- 
2.43.0


From 06689b0ae440abfebe81de9d1a019d910326c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 36/72] fix: size_t and sizeof are unsigned

---
 headers/stddef.h            | 2 +-
 headers/string.h            | 2 +-
 src/middle_end/ast_to_ir.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/headers/stddef.h b/headers/stddef.h
index 5cfded6..1d87868 100644
--- a/headers/stddef.h
+++ b/headers/stddef.h
@@ -5,7 +5,7 @@
 
 #ifndef _SIZE_T
 #define _SIZE_T
-typedef int size_t;
+typedef unsigned int size_t;
 #endif
 typedef int ptrdiff_t;
 typedef int wchar_t;
diff --git a/headers/string.h b/headers/string.h
index 96b590e..e37c222 100644
--- a/headers/string.h
+++ b/headers/string.h
@@ -5,7 +5,7 @@
 
 #ifndef _SIZE_T
 #define _SIZE_T
-typedef int size_t;
+typedef unsigned int size_t;
 #endif
 
 size_t strlen(const char *s);
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6a7d1c9..a7227b7 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1525,7 +1525,7 @@ pub fn convert_expression_to_ir(
                 }
             };
             let dest = prog.new_var(ValueType::RValue);
-            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            prog.add_var_type(dest.to_owned(), IrType::U32)?;
             instrs.push(Instruction::SimpleAssignment(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -1549,7 +1549,7 @@ pub fn convert_expression_to_ir(
                 }
             };
             let dest = prog.new_var(ValueType::RValue);
-            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            prog.add_var_type(dest.to_owned(), IrType::U32)?;
             instrs.push(Instruction::SimpleAssignment(
                 prog.new_instr_id(),
                 dest.to_owned(),
-- 
2.43.0


From c0f24c60c788a03c41132f85487a1a38db8f1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:34 +0000
Subject: [PATCH 37/72] fix: a typedef name can also name a tag, a member or a
 label

---
 src/front_end/c_parser.lalrpop | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index 5d7c2e5..11cf670 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -137,6 +137,12 @@ CommaSepListWithTrailing<T>: Vec<T> = {
 
 pub Identifier: ast::Identifier = "Identifier" => ast::Identifier(<>.to_owned());
 
+// the name of a tag, member or label. These are in different name spaces than typedef names
+AnyIdentifier: ast::Identifier = {
+  Identifier,
+  TypeName,
+};
+
 pub Constant: ast::Constant = {
   DecimalConstant => ast::Constant::Int(<>),
   NonDecimalConstant => ast::Constant::non_decimal(<>),
@@ -182,12 +188,12 @@ OpenStatement: ast::Statement = {
   "switch" "(" <e:Expression> ")" <s:OpenStatement> => ast::Statement::Switch(e, Box::new(s)),
   "case" <e:ConditionalExpression> ":" <s:OpenStatement> => ast::Statement::Labelled(ast::LabelledStatement::Case(e, Box::new(s))),
   "default" ":" <OpenStatement> => ast::Statement::Labelled(ast::LabelledStatement::Default(Box::new(<>))),
-  <i:Identifier> ":" <s:OpenStatement> => ast::Statement::Labelled(ast::LabelledStatement::Named(i, Box::new(s))),
+  <i:AnyIdentifier> ":" <s:OpenStatement> => ast::Statement::Labelled(ast::LabelledStatement::Named(i, Box::new(s))),
 };
 
 ClosedStatement: ast::Statement = {
   "if" "(" <e:Expression> ")" <s1:ClosedStatement> "else" <s2:ClosedStatement> => ast::Statement::IfElse(e, Box::new(s1), Box::new(s2)),
-  "goto" <Identifier> ";" => ast::Statement::Goto(<>),
+  "goto" <AnyIdentifier> ";" => ast::Statement::Goto(<>),
   "continue" ";" => ast::Statement::Continue,
   "break" ";" => ast::Statement::Break,
   "return" <Expression?> ";" => ast::Statement::Return(<>),
@@ -200,7 +206,7 @@ ClosedStatement: ast::Statement = {
   <Declaration>,
   "case" <e:ConditionalExpression> ":" <s:ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Case(e, Box::new(s))),
   "default" ":" <ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Default(Box::new(<>))),
-  <i:Identifier> ":" <s:ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Named(i, Box::new(s))),
+  <i:AnyIdentifier> ":" <s:ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Named(i, Box::new(s))),
   ";" => ast::Statement::Empty,
 };
 
@@ -271,8 +277,8 @@ ArithmeticTypeSpecifier: ast::ArithmeticTypeSpecifierToken = {
 };
 
 StructDeclaration: ast::StructType = {
-  "struct" <Identifier> => ast::StructType::Declaration(<>),
-  "struct" <Identifier?> "{" <StructMemberDeclaration+> "}" => ast::StructType::Definition(<>),
+  "struct" <AnyIdentifier> => ast::StructType::Declaration(<>),
+  "struct" <AnyIdentifier?> "{" <StructMemberDeclaration+> "}" => ast::StructType::Definition(<>),
 };
 
 StructMemberDeclaration: ast::StructMemberDeclaration = {
@@ -280,13 +286,13 @@ StructMemberDeclaration: ast::StructMemberDeclaration = {
 };
 
 UnionDeclaration: ast::UnionType = {
-  "union" <Identifier> => ast::UnionType::Declaration(<>),
-  "union" <Identifier?> "{" <StructMemberDeclaration+> "}" => ast::UnionType::Definition(<>),
+  "union" <AnyIdentifier> => ast::UnionType::Declaration(<>),
+  "union" <AnyIdentifier?> "{" <StructMemberDeclaration+> "}" => ast::UnionType::Definition(<>),
 };
 
 EnumDeclaration: ast::EnumType = {
-  "enum" <Identifier> => ast::EnumType::Declaration(<>),
-  "enum" <Identifier?> "{" <EnumeratorList> "}" => ast::EnumType::Definition(<>),
+  "enum" <AnyIdentifier> => ast::EnumType::Declaration(<>),
+  "enum" <AnyIdentifier?> "{" <EnumeratorList> "}" => ast::EnumType::Definition(<>),
 };
 
 EnumeratorList = CommaSepListAllowTrailing<Enumerator>;
@@ -505,8 +511,8 @@ PostfixExpression: ast::Expression = {
         None => ast::Expression::FunctionCall(Box::new(e), vec![]),
     }
   },
-  <e:PostfixExpression> "." <i:Identifier> => ast::Expression::DirectMemberSelection(Box::new(e), i),
-  <e:PostfixExpression> "->" <i:Identifier> => ast::Expression::IndirectMemberSelection(Box::new(e), i),
+  <e:PostfixExpression> "." <i:AnyIdentifier> => ast::Expression::DirectMemberSelection(Box::new(e), i),
+  <e:PostfixExpression> "->" <i:AnyIdentifier> => ast::Expression::IndirectMemberSelection(Box::new(e), i),
   <PostfixExpression> "++" => ast::Expression::PostfixIncrement(Box::new(<>)),
   <PostfixExpression> "--" => ast::Expression::PostfixDecrement(Box::new(<>)),
 };
-- 
2.43.0


From 4ca9921d62e3acbb06a14d2c95e5c625fb24836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 38/72] fix: a typedef in a block is visible until the end of
 that block

---
 src/front_end/lexer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index ef844fa..dc9f947 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -216,6 +216,8 @@ type TypedefName = String;
 pub struct Lexer<'input> {
     chars: Peekable<CharIndices<'input>>,
     typedef_names: Vec<TypedefName>,
+    /// how many typedef names were visible at the start of each block we're inside
+    block_start_typedef_counts: Vec<usize>,
     inside_typedef_stmt: bool,
     typedef_stmt_nesting_depth: u32,
     typedef_stmt_buffer: Vec<Spanned<Token, usize, LexError>>,
@@ -226,6 +228,7 @@ impl<'input> Lexer<'input> {
         Lexer {
             chars: input.char_indices().peekable(),
             typedef_names: vec![],
+            block_start_typedef_counts: vec![],
             inside_typedef_stmt: false,
             typedef_stmt_nesting_depth: 0,
             typedef_stmt_buffer: vec![],
@@ -286,6 +289,16 @@ impl<'input> Iterator for Lexer<'input> {
                         }
                         Some(t) => {
                             trace!("Lexed token: {:?}", t);
+                            match t {
+                                Token::LeftCurly => self
+                                    .block_start_typedef_counts
+                                    .push(self.typedef_names.len()),
+                                // typedefs are visible until the end of the block they're in
+                                Token::RightCurly => self.typedef_names.truncate(
+                                    self.block_start_typedef_counts.pop().unwrap_or(0),
+                                ),
+                                _ => {}
+                            }
                             if self.inside_typedef_stmt {
                                 self.typedef_stmt_buffer.push(Ok((
                                     start.unwrap(),
-- 
2.43.0


From 381c1d7910c515f1092ad7ee5e551a1b7afa994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 39/72] fix: static local variables live as long as the program

---
 src/middle_end/ast_to_ir.rs | 8 +++++++-
 src/middle_end/context.rs   | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a7227b7..2619c66 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -3,7 +3,8 @@ use log::trace;
 use crate::front_end::ast;
 use crate::front_end::ast::{
     BinaryOperator, DeclaratorInitialiser, Expression, ExpressionOrDeclaration, Identifier,
-    Initialiser, LabelledStatement, Program as AstProgram, Statement, TypeSpecifier, UnaryOperator,
+    Initialiser, LabelledStatement, Program as AstProgram, Statement, StorageClassSpecifier,
+    TypeSpecifier, UnaryOperator,
 };
 use crate::middle_end::aggregate_type_initialisers::{
     array_initialiser, convert_string_literal_to_init_list_of_chars_ast, struct_initialiser,
@@ -700,6 +701,11 @@ fn convert_statement_to_ir(
                 }
                 is_initial_declarator = false;
             }
+            // a static local variable lives as long as a global one, and is initialised once
+            let is_static = sq.storage_class_specifier == Some(StorageClassSpecifier::Static);
+            if is_static && !context.is_in_global_scope() {
+                prog.program_instructions.global_instrs.append(&mut instrs);
+            }
         }
         Statement::EmptyDeclaration(sq) => {
             match get_type_info(&sq, None, false, prog, context)? {
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 5ef1e7d..214caec 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -182,6 +182,10 @@ impl Context {
         self.scope_stack.pop();
     }
 
+    pub fn is_in_global_scope(&self) -> bool {
+        self.scope_stack.len() == 1
+    }
+
     pub fn add_variable_to_scope(
         &mut self,
         name: String,
-- 
2.43.0


From 54336d07fba6097279895995800c1f8f976be0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 40/72] fix: reject a local variable with the name of a
 parameter

---
 src/middle_end/ast_to_ir.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 2619c66..07d09dc 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -763,7 +763,16 @@ fn convert_statement_to_ir(
             // label names are local to the function
             prog.clear_identifier_labels();
             // function body instructions
-            let instrs = convert_statement_to_ir(*body, prog, context)?;
+            let mut instrs = Vec::new();
+            match *body {
+                // the outermost block of the body is the scope of the parameters
+                Statement::Block(stmts) => {
+                    for s in stmts {
+                        instrs.append(&mut convert_statement_to_ir(s, prog, context)?);
+                    }
+                }
+                body => instrs.append(&mut convert_statement_to_ir(body, prog, context)?),
+            }
             // every label that's used must be defined exactly once in the function
             for label in prog.program_metadata.label_ids.values() {
                 let is_label = |i: &&Instruction| matches!(i, Instruction::Label(_, l) if l == label);
-- 
2.43.0


From 7a10ce8960c2fcce2031dc2accb8c0eceb0477cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 41/72] fix: an extern declaration in a block refers to the
 global variable

---
 src/middle_end/ast_to_ir.rs | 35 ++++++++++++++++++++++++++++++++---
 src/middle_end/context.rs   | 28 ++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 07d09dc..fce30a1 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -451,7 +451,27 @@ fn convert_statement_to_ir(
                                     let (type_info, mut size_instrs) =
                                         evaluate_array_sizes(type_info, prog, context)?;
                                     instrs.append(&mut size_instrs);
+                                    // an extern declaration in a block refers to a global variable
+                                    let is_extern = sq.storage_class_specifier
+                                        == Some(StorageClassSpecifier::Extern)
+                                        && !context.is_in_global_scope();
+                                    if is_extern {
+                                        if let Some(var) =
+                                            context.get_global_var(&name, &type_info)?
+                                        {
+                                            context.add_variable_to_scope(name, var, type_info)?;
+                                            is_initial_declarator = false;
+                                            continue;
+                                        }
+                                    }
                                     let var = prog.new_var(ValueType::LValue);
+                                    if is_extern {
+                                        context.add_variable_to_global_scope(
+                                            name.to_owned(),
+                                            var.to_owned(),
+                                            type_info.to_owned(),
+                                        )?;
+                                    }
                                     context.add_variable_to_scope(
                                         name,
                                         var.to_owned(),
@@ -503,6 +523,11 @@ fn convert_statement_to_ir(
                             None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                             Some(x) => x,
                         };
+                        if sq.storage_class_specifier == Some(StorageClassSpecifier::Extern)
+                            && !context.is_in_global_scope()
+                        {
+                            return Err(MiddleEndError::InvalidDeclaration);
+                        }
 
                         // check for case of initialising a char array with a string literal
                         if dest_type_info.is_char_array_type() {
@@ -701,9 +726,13 @@ fn convert_statement_to_ir(
                 }
                 is_initial_declarator = false;
             }
-            // a static local variable lives as long as a global one, and is initialised once
-            let is_static = sq.storage_class_specifier == Some(StorageClassSpecifier::Static);
-            if is_static && !context.is_in_global_scope() {
+            // a static local variable lives as long as a global one, and is initialised once;
+            // an extern one is global
+            let is_global = matches!(
+                sq.storage_class_specifier,
+                Some(StorageClassSpecifier::Static | StorageClassSpecifier::Extern)
+            );
+            if is_global && !context.is_in_global_scope() {
                 prog.program_instructions.global_instrs.append(&mut instrs);
             }
         }
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 214caec..59636fb 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -219,6 +219,34 @@ impl Context {
         }
     }
 
+    /// The global variable with this name, which must have this type
+    pub fn get_global_var(
+        &self,
+        name: &str,
+        type_info: &IrType,
+    ) -> Result<Option<VarId>, MiddleEndError> {
+        let global_scope = self.scope_stack.first().ok_or(MiddleEndError::ScopeError)?;
+        match global_scope.resolve_identifier_to_var(name) {
+            None => Ok(None),
+            Some(var) if global_scope.variable_types.get(&var) == Some(type_info) => Ok(Some(var)),
+            Some(_) => Err(MiddleEndError::DuplicateVariableDeclaration(
+                name.to_owned(),
+            )),
+        }
+    }
+
+    pub fn add_variable_to_global_scope(
+        &mut self,
+        name: String,
+        var: VarId,
+        type_info: IrType,
+    ) -> Result<(), MiddleEndError> {
+        match self.scope_stack.first_mut() {
+            None => Err(MiddleEndError::ScopeError),
+            Some(scope) => scope.add_var(name, var, type_info),
+        }
+    }
+
     // pub fn resolve_identifier_to_var(
     //     &self,
     //     identifier_name: &str,
-- 
2.43.0


From 5085f3bfba928103e12d82572928bfc251d20fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 42/72] fix: a function defined by the program is never
 replaced by a library import

---
 src/back_end/profiler.rs                |  6 +-----
 src/back_end/target_code_generation.rs  | 14 ++++++++++----
 src/middle_end/ir.rs                    |  5 +++++
 src/program_config/program_constants.rs |  2 +-
 4 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/back_end/profiler.rs b/src/back_end/profiler.rs
index 7b2dd4d..bc47404 100644
--- a/src/back_end/profiler.rs
+++ b/src/back_end/profiler.rs
@@ -1,7 +1,6 @@
 use crate::back_end::target_code_generation_context::ModuleContext;
 use crate::back_end::wasm_instructions::WasmInstruction;
 use crate::middle_end::ir_types::IrType;
-use crate::program_config::program_constants::LOG_STACK_PTR_IMPORT_NAME;
 use crate::relooper::relooper::{ReloopedFunction, ReloopedProgram};
 
 pub fn initialise_profiler(module_context: &mut ModuleContext, prog: &mut ReloopedProgram) {
@@ -11,10 +10,7 @@ pub fn initialise_profiler(module_context: &mut ModuleContext, prog: &mut Reloop
         .is_stack_ptr_logging_enabled()
     {
         // declare new fun for log fun
-        let log_stack_ptr_fun_id = prog
-            .program_metadata
-            .new_fun_declaration(LOG_STACK_PTR_IMPORT_NAME.to_owned())
-            .unwrap();
+        let log_stack_ptr_fun_id = prog.program_metadata.new_unnamed_fun_declaration();
 
         // insert function stub to program
         prog.program_blocks.functions.insert(
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 760c858..04a1f02 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -34,7 +34,7 @@ use crate::program_config::enabled_optimisations::EnabledOptimisations;
 use crate::program_config::enabled_profiling::EnabledProfiling;
 use crate::program_config::program_constants::MAIN_FUNCTION_EXPORT_NAME;
 use crate::program_config::program_constants::{
-    get_imported_function_names, MAIN_FUNCTION_SOURCE_NAME,
+    get_imported_function_names, LOG_STACK_PTR_IMPORT_NAME, MAIN_FUNCTION_SOURCE_NAME,
 };
 use crate::relooper::blocks::{Block, MultipleBlockId};
 use crate::relooper::relooper::{ReloopedFunction, ReloopedProgram};
@@ -52,6 +52,7 @@ pub fn generate_target_code(
     let (imported_functions, defined_functions) = separate_imported_and_defined_functions(
         &prog.program_metadata,
         prog.program_blocks.functions,
+        &module_context,
     );
 
     module_context.calculate_func_idxs(&imported_functions, &defined_functions);
@@ -322,6 +323,7 @@ pub fn generate_target_code(
 fn separate_imported_and_defined_functions(
     prog_metadata: &ProgramMetadata,
     functions: HashMap<FunId, ReloopedFunction>,
+    module_context: &ModuleContext,
 ) -> (
     Vec<(FunId, String, ReloopedFunction)>,
     Vec<(FunId, ReloopedFunction)>,
@@ -343,13 +345,17 @@ fn separate_imported_and_defined_functions(
         }
     }
 
+    if let Some(fun_id) = &module_context.log_stack_ptr_fun_id {
+        imported_function_ids.insert(fun_id.to_owned(), LOG_STACK_PTR_IMPORT_NAME.to_owned());
+    }
+
     for (fun_id, function) in functions {
-        // check if this function is an imported one
+        // check if this function is an imported one, unless the program has its own
         match imported_function_ids.get(&fun_id) {
-            Some(fun_name) => {
+            Some(fun_name) if !function.body_is_defined => {
                 imported_functions.push((fun_id, fun_name.to_owned(), function));
             }
-            None => {
+            _ => {
                 defined_functions.push((fun_id, function));
             }
         }
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index cee0b22..0606452 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -175,6 +175,11 @@ impl ProgramMetadata {
         Ok(fun_id)
     }
 
+    /// a function that the source program can't refer to, because it has no name
+    pub fn new_unnamed_fun_declaration(&mut self) -> FunId {
+        self.fun_id_generator.new_id()
+    }
+
     pub fn new_var(&mut self, value_type: ValueType) -> VarId {
         let mut new_var = self.var_id_generator.new_id();
         new_var.set_value_type(value_type);
diff --git a/src/program_config/program_constants.rs b/src/program_config/program_constants.rs
index db87635..ad29b69 100644
--- a/src/program_config/program_constants.rs
+++ b/src/program_config/program_constants.rs
@@ -12,6 +12,7 @@ pub const MEMORY_IMPORT_MODULE_NAME: &str = "runtime";
 /// import in `runtime/run.mjs`.
 pub const MEMORY_IMPORT_FIELD_NAME: &str = "memory";
 
+/// The name of the imported function that logs the stack pointer, when stack profiling is enabled
 pub const LOG_STACK_PTR_IMPORT_NAME: &str = "log_stack_ptr";
 
 /// A list of the standard library functions that I've implemented in the JavaScript
@@ -23,6 +24,5 @@ pub fn get_imported_function_names() -> Vec<String> {
         "strtol".to_owned(),
         "strlen".to_owned(),
         "strstr".to_owned(),
-        LOG_STACK_PTR_IMPORT_NAME.to_owned(),
     ]
 }
-- 
2.43.0


From 92dab1c58ef1d16b4c6311535a4c6010c4dd6618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 43/72] fix: an enumerator with the largest value of its type
 ends the enumeration

---
 src/middle_end/get_ast_type_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index dddea1b..cea62be 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -192,7 +192,7 @@ pub fn get_type_info(
                                 Enumerator::Simple(Identifier(name)) => {
                                     context
                                         .add_enum_constant(name.to_owned(), next_constant_value)?;
-                                    next_constant_value += 1;
+                                    next_constant_value = next_constant_value.wrapping_add(1);
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
                                     let value =
@@ -201,7 +201,7 @@ pub fn get_type_info(
                                     context.add_enum_constant(name.to_owned(), value)?;
                                     // value of next constant without explicit value is one more than
                                     // the last constant
-                                    next_constant_value = value + 1;
+                                    next_constant_value = value.wrapping_add(1);
                                 }
                             }
                         }
-- 
2.43.0


From cd2a4510f5fb46d355bc09feffde09827fd2136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:38 +0000
Subject: [PATCH 44/72] fix: && and || in constant expressions evaluate their
 right operand only when needed

---
 src/middle_end/compile_time_eval.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 852ebb1..d0f8b73 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -72,6 +72,16 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
         Expression::SizeOfType(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::BinaryOp(op, left, right) => {
             let left_result = eval(*left)?;
+            // the right operand of && and || is only evaluated if it decides the result
+            match (&op, &left_result) {
+                (BinaryOperator::LogicalAnd, ConstantExpressionType::Int(0)) => {
+                    return Ok(ConstantExpressionType::Int(0));
+                }
+                (BinaryOperator::LogicalOr, ConstantExpressionType::Int(l)) if *l != 0 => {
+                    return Ok(ConstantExpressionType::Int(1));
+                }
+                _ => {}
+            }
             let right_result = eval(*right)?;
             match op {
                 BinaryOperator::Mult => match (left_result, right_result) {
-- 
2.43.0


From 23933e2be3006035f5c0b596bb72615b0e750710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 45/72] fix: a variable is in scope in its own initialiser

---
 src/middle_end/ast_to_ir.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index fce30a1..c73f6d3 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -561,6 +561,20 @@ fn convert_statement_to_ir(
                             Some(name) => {
                                 match init_expr {
                                     Initialiser::Expr(e) => {
+                                        // the variable is in scope in its own initialiser
+                                        let dest = context
+                                            .get_declared_global_var(&name, &dest_type_info)
+                                            .unwrap_or_else(|| prog.new_var(ValueType::LValue));
+                                        prog.add_var_type(
+                                            dest.to_owned(),
+                                            dest_type_info.to_owned(),
+                                        )?;
+                                        context.add_variable_to_scope(
+                                            name,
+                                            dest.to_owned(),
+                                            dest_type_info.to_owned(),
+                                        )?;
+
                                         let (mut expr_instrs, expr_var) =
                                             convert_expression_to_ir(e, prog, context)?;
                                         instrs.append(&mut expr_instrs);
@@ -601,23 +615,11 @@ fn convert_statement_to_ir(
                                             src = converted_var;
                                         }
 
-                                        let dest = context
-                                            .get_declared_global_var(&name, &dest_type_info)
-                                            .unwrap_or_else(|| prog.new_var(ValueType::LValue));
-                                        prog.add_var_type(
-                                            dest.to_owned(),
-                                            src.get_type(&prog.program_metadata)?,
-                                        )?;
                                         instrs.push(Instruction::SimpleAssignment(
                                             prog.new_instr_id(),
                                             dest.to_owned(),
                                             src,
                                         ));
-                                        context.add_variable_to_scope(
-                                            name,
-                                            dest.to_owned(),
-                                            dest_type_info.to_owned(),
-                                        )?;
                                     }
                                     Initialiser::List(initialisers) => match dest_type_info {
                                         IrType::ArrayOf(member_type, size) => {
-- 
2.43.0


From 4971ce09a054ebf8e851109b1d44c0bb532fccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 46/72] fix: arrays of constant size are allocated once per
 call

---
 src/middle_end/ast_to_ir.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index c73f6d3..23232c6 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -804,6 +804,17 @@ fn convert_statement_to_ir(
                 }
                 body => instrs.append(&mut convert_statement_to_ir(body, prog, context)?),
             }
+            // arrays of constant size are allocated once per call, on entry to the function, however
+            // often control reaches their declaration or jumps past it
+            let (mut fixed_size_allocations, mut instrs): (Vec<_>, Vec<_>) =
+                instrs.into_iter().partition(|instr| {
+                    matches!(
+                        instr,
+                        Instruction::AllocateVariable(_, _, Src::Constant(_))
+                    )
+                });
+            fixed_size_allocations.append(&mut instrs);
+            let instrs = fixed_size_allocations;
             // every label that's used must be defined exactly once in the function
             for label in prog.program_metadata.label_ids.values() {
                 let is_label = |i: &&Instruction| matches!(i, Instruction::Label(_, l) if l == label);
-- 
2.43.0


From 7d0bb483efc97d850b7d43c59e640b4b25cc6889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 47/72] fix: character functions take and return int

---
 headers/ctype.h | 52 ++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/headers/ctype.h b/headers/ctype.h
index 05d2c1a..442a716 100644
--- a/headers/ctype.h
+++ b/headers/ctype.h
@@ -1,72 +1,72 @@
 #ifndef _CTYPE_H
 #define _CTYPE_H
 
-int isalnum(char c);
-int isalpha(char c);
-int iscntrl(char c);
-int isdigit(char c);
-int isxdigit(char c);
-int isgraph(char c);
-int ispunct(char c);
-int isprint(char c);
-int islower(char c);
-int isupper(char c);
-int isspace(char c);
-char tolower(char c);
-char toupper(char c);
+int isalnum(int c);
+int isalpha(int c);
+int iscntrl(int c);
+int isdigit(int c);
+int isxdigit(int c);
+int isgraph(int c);
+int ispunct(int c);
+int isprint(int c);
+int islower(int c);
+int isupper(int c);
+int isspace(int c);
+int tolower(int c);
+int toupper(int c);
 
-int isalnum(char c) {
+int isalnum(int c) {
     return isalpha(c) || isdigit(c);
 }
 
-int isalpha(char c) {
+int isalpha(int c) {
     return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
 }
 
-int iscntrl(char c) {
+int iscntrl(int c) {
     return (c >= 0 && c <= 31) || c == 127;
 }
 
-int isdigit(char c) {
+int isdigit(int c) {
     return (c >= '0' && c <= '9');
 }
 
-int isxdigit(char c) {
+int isxdigit(int c) {
     return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
 }
 
-int isgraph(char c) {
+int isgraph(int c) {
     return isprint(c) && (c != ' ');
 }
 
-int ispunct(char c) {
+int ispunct(int c) {
     return isgraph(c) && !isalnum(c);
 }
 
-int isprint(char c) {
+int isprint(int c) {
     return c >= 32 && c <= 126;
 }
 
-int islower(char c) {
+int islower(int c) {
     return c >= 'a' && c <= 'z';
 }
 
-int isupper(char c) {
+int isupper(int c) {
     return c >= 'A' && c <= 'Z';
 }
 
-int isspace(char c) {
+int isspace(int c) {
     return c == ' ' || (c >= '\t' && c <= '\r');
 }
 
-char tolower(char c) {
+int tolower(int c) {
     if (isupper(c)) {
         return c - 'A' + 'a';
     }
     return c;
 }
 
-char toupper(char c) {
+int toupper(int c) {
     if (islower(c)) {
         return c - 'a' + 'A';
     }
-- 
2.43.0


From d97d7231033597fece4c41a44523d739440d4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 48/72] fix: a header that includes itself is included once

---
 src/preprocessor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 311a85c..363da71 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -120,6 +120,8 @@ fn include_headers(
             };
         let (header_source, mut new_includes) = header;
         info!("New includes: {:?}", new_includes);
+        // a header that includes itself is already there, so don't keep including it forever
+        new_includes.retain(|new_include| *new_include != include_name);
         includes.append(&mut new_includes);
         source.insert(0, '\n');
         source.insert_str(0, header_source.as_str())
-- 
2.43.0


From bac0a21f3c1674e03ffc3d5fb3530585148f05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 49/72] fix: the escapes \a \b \f \v in character constants

---
 src/front_end/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index dc9f947..ddb77c6 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -1031,7 +1031,8 @@ impl Fsm {
                 }),
             },
             State::Char2 => match input {
-                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'n' | c @ 'r' | c @ 't' => {
+                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'a' | c @ 'b' | c @ 'f' | c @ 'n'
+                | c @ 'r' | c @ 't' | c @ 'v' => {
                     match self.token {
                         Some(Token::CharConstant(mut s)) => {
                             s.push(c);
-- 
2.43.0


From fa3eeeb6a89fd5cc931523bd56795e0297f37c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 50/72] fix: floating constants that start with 0 and contain 8
 or 9

---
 src/front_end/lexer.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index ddb77c6..7db174f 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -426,6 +426,7 @@ enum State {
     Float4,
     Oct1,
     Oct2,
+    OctOrFloat(String),
     Bin1,
     Bin2,
     Hex1,
@@ -906,6 +907,10 @@ impl Fsm {
                         token: Some(Token::OctalConstant(s)),
                     })
                 }
+                c if c.is_ascii_digit() => Some(Fsm {
+                    state: State::OctOrFloat(format!("0{c}")),
+                    token: None,
+                }),
                 _ => None,
             },
             State::Oct2 => match input {
@@ -939,6 +944,41 @@ impl Fsm {
                     }
                     _ => None,
                 },
+                c if c.is_ascii_digit() => match self.token {
+                    Some(Token::OctalConstant(mut s)) => {
+                        s.push(c);
+                        Some(Fsm {
+                            state: State::OctOrFloat(s),
+                            token: None,
+                        })
+                    }
+                    _ => None,
+                },
+                _ => None,
+            },
+            // has a digit that can't be in an octal constant, so must turn out to be floating
+            State::OctOrFloat(mut s) => match input {
+                '.' => {
+                    s.push('.');
+                    Some(Fsm {
+                        state: State::Float1,
+                        token: Some(Token::FloatingConstant(s)),
+                    })
+                }
+                'e' | 'E' => {
+                    s.push('e');
+                    Some(Fsm {
+                        state: State::Float2,
+                        token: Some(Token::FloatingConstant(s)),
+                    })
+                }
+                c if c.is_ascii_digit() => {
+                    s.push(c);
+                    Some(Fsm {
+                        state: State::OctOrFloat(s),
+                        token: None,
+                    })
+                }
                 _ => None,
             },
             State::Bin1 | State::Bin2 => match input {
-- 
2.43.0


From 45ebee1b15d1f3c6d4476e4bfe785ee82730e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 51/72] fix: arrays are cast as pointers to their first element

---
 src/middle_end/ast_to_ir.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 23232c6..eeb8b41 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2199,6 +2199,15 @@ pub fn convert_expression_to_ir(
                     None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                     Some(x) => x,
                 };
+            // an array is cast as a pointer to its first element
+            let expr_var = match expr_var.get_type(&prog.program_metadata)? {
+                IrType::ArrayOf(..) => {
+                    let (mut convert_instrs, ptr) = unary_convert(expr_var, prog)?;
+                    instrs.append(&mut convert_instrs);
+                    ptr
+                }
+                _ => expr_var,
+            };
             // get conversion instrs into cast type
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             let (mut cast_instrs, dest) =
-- 
2.43.0


From 5dbc185956b12c9ab5a0ceae56f59fb8d8ab9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 52/72] fix: output that waits for its reader isn't lost at
 exit

---
 runtime/run.mjs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/run.mjs b/runtime/run.mjs
index 6811ef9..ec7a1c2 100755
--- a/runtime/run.mjs
+++ b/runtime/run.mjs
@@ -52,5 +52,6 @@ if (args.length < 1) {
 } else {
     const filename = args[0];
     const exit_code = await run(filename, args);
-    process.exit(exit_code);
+    // exit once all output has been passed on, some may still be waiting for its reader
+    process.stdout.write("", () => process.exit(exit_code));
 }
-- 
2.43.0


From 8aaea683cfb734dd5c80c4b0734000835be1f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 53/72] fix: a header is included where the directive stands

---
 src/preprocessor.rs | 145 +++++++++++++++++++++-----------------------
 1 file changed, 68 insertions(+), 77 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 363da71..c49db23 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -1,7 +1,7 @@
 use std::error::Error;
 use std::io;
 use std::io::{BufRead, ErrorKind, Write};
-use std::path::{Path, PathBuf};
+use std::path::Path;
 use std::process::{Command, Stdio};
 use std::{fmt, fs};
 
@@ -12,11 +12,7 @@ use regex::Regex;
 pub fn preprocess(filepath: &Path) -> Result<String, PreprocessorError> {
     info!("Running preprocessor");
 
-    let (mut file_contents, includes) = remove_include_directives(filepath)?;
-
-    info!("Includes: {:?}", includes);
-
-    file_contents = include_headers(file_contents, includes, filepath)?;
+    let file_contents = include_headers(filepath, filepath, &mut Vec::new())?;
 
     info!("Included headers:\n{file_contents}");
 
@@ -30,10 +26,15 @@ pub fn preprocess(filepath: &Path) -> Result<String, PreprocessorError> {
     Ok(processed_source)
 }
 
-fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), PreprocessorError> {
-    // store the includes we remove from the file
-    let mut includes: Vec<String> = Vec::new();
+/// Reads the given file, and replaces each #include directive with the contents of the header.
+/// `open_headers` are the headers whose contents we're currently in the middle of.
+fn include_headers(
+    filepath: &Path,
+    source_filepath: &Path,
+    open_headers: &mut Vec<String>,
+) -> Result<String, PreprocessorError> {
     let mut output = String::new();
+    let mut in_comment = false;
 
     match read_lines(filepath) {
         Ok(lines) => {
@@ -41,14 +42,21 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
                 // a line that can't be read (eg. of a directory, or that isn't UTF-8) is an error
                 let l = line.map_err(PreprocessorError::IoError)?;
                 // check if line is a #include directive
-                if let Some(include) = check_for_include(&l) {
-                    includes.push(include);
-                    continue;
+                match check_for_include(&l) {
+                    Some(include) if !in_comment => {
+                        // a header that includes itself is already there, so don't keep including it forever
+                        if !open_headers.contains(&include) {
+                            open_headers.push(include.to_owned());
+                            output.push_str(&load_header(&include, source_filepath, open_headers)?);
+                            open_headers.pop();
+                        }
+                    }
+                    _ => output.push_str(&l),
                 }
-                output.push_str(&l);
                 output.push('\n');
+                in_comment = ends_in_comment(&l, in_comment);
             }
-            Ok((output, includes))
+            Ok(output)
         }
         Err(e) => match e.kind() {
             ErrorKind::NotFound => Err(PreprocessorError::FileNotFound(
@@ -59,6 +67,37 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
     }
 }
 
+/// Whether a block comment is still open at the end of the given line
+fn ends_in_comment(line: &str, mut in_comment: bool) -> bool {
+    let mut quote = None;
+    let mut chars = line.chars().peekable();
+    while let Some(c) = chars.next() {
+        match (c, chars.peek()) {
+            ('*', Some('/')) if in_comment => {
+                chars.next();
+                in_comment = false;
+            }
+            _ if in_comment => {}
+            ('\\', _) => {
+                chars.next();
+            }
+            _ if quote.is_some() => {
+                if quote == Some(c) {
+                    quote = None;
+                }
+            }
+            ('"' | '\'', _) => quote = Some(c),
+            ('/', Some('/')) => break,
+            ('/', Some('*')) => {
+                chars.next();
+                in_comment = true;
+            }
+            _ => {}
+        }
+    }
+    in_comment
+}
+
 /// Checks if the given line is a #include directive.
 /// If so, returns the name of the header file included, or None otherwise
 fn check_for_include(line: &str) -> Option<String> {
@@ -82,72 +121,24 @@ fn read_lines(filepath: &Path) -> io::Result<io::Lines<io::BufReader<fs::File>>>
     Ok(io::BufReader::new(file).lines())
 }
 
-fn include_headers(
-    mut source: String,
-    mut includes: Vec<String>,
-    filepath: &Path,
+fn load_header(
+    header_name: &str,
+    source_filepath: &Path,
+    open_headers: &mut Vec<String>,
 ) -> Result<String, PreprocessorError> {
-    loop {
-        if includes.is_empty() {
-            break;
+    let is_program_header =
+        header_name == format!("{}.h", source_filepath.file_stem().unwrap().to_str().unwrap());
+    let path = if is_program_header {
+        source_filepath.with_file_name(header_name)
+    } else {
+        Path::new("headers").join(header_name)
+    };
+    match include_headers(&path, source_filepath, open_headers) {
+        Err(PreprocessorError::FileNotFound(f)) => {
+            Err(PreprocessorError::UnsupportedHeaderInclude(f))
         }
-        let include_name = includes.pop().unwrap();
-        let header =
-            if include_name == format!("{}.h", filepath.file_stem().unwrap().to_str().unwrap()) {
-                match load_program_header(filepath, &include_name) {
-                    Err(e) => {
-                        return match e {
-                            PreprocessorError::FileNotFound(f) => {
-                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
-                            }
-                            _ => Err(e),
-                        }
-                    }
-                    Ok(s) => s,
-                }
-            } else {
-                match load_header_file(&include_name) {
-                    Err(e) => {
-                        return match e {
-                            PreprocessorError::FileNotFound(f) => {
-                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
-                            }
-                            _ => Err(e),
-                        }
-                    }
-                    Ok(s) => s,
-                }
-            };
-        let (header_source, mut new_includes) = header;
-        info!("New includes: {:?}", new_includes);
-        // a header that includes itself is already there, so don't keep including it forever
-        new_includes.retain(|new_include| *new_include != include_name);
-        includes.append(&mut new_includes);
-        source.insert(0, '\n');
-        source.insert_str(0, header_source.as_str())
+        result => result,
     }
-    Ok(source)
-}
-
-fn load_program_header(
-    source_filepath: &Path,
-    header_name: &String,
-) -> Result<(String, Vec<String>), PreprocessorError> {
-    let path = match source_filepath.parent() {
-        Some(p) => {
-            let mut path = PathBuf::from(p);
-            path.push(header_name);
-            path
-        }
-        None => PathBuf::from(&header_name),
-    };
-    remove_include_directives(path.as_path())
-}
-
-fn load_header_file(header_name: &String) -> Result<(String, Vec<String>), PreprocessorError> {
-    let mut path = PathBuf::from("headers");
-    path.push(header_name);
-    remove_include_directives(path.as_path())
 }
 
 /// Runs the C preprocessor over the given source.
-- 
2.43.0


From 5b32b87a1cb4bbece0a5bd9e8f3d7b877b59c411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 54/72] fix: a type specifier is not given twice in a
 declaration

---
 src/front_end/ast.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 9af4a57..a317852 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -594,17 +594,18 @@ impl ArithmeticType {
     fn create_from_type_specifiers(types: Vec<TypeSpecifierToken>) -> Result<Self, AstError> {
         // bitfield: double float | unsigned signed | long int short char
         let mut bitfield = 0;
+        let mut long_count = 0;
         for t in types {
-            match t {
+            let bit = match t {
                 TypeSpecifierToken::ArithmeticType(at) => match at {
-                    ArithmeticTypeSpecifierToken::Char => bitfield |= 0b1,
-                    ArithmeticTypeSpecifierToken::Short => bitfield |= 0b10,
-                    ArithmeticTypeSpecifierToken::Int => bitfield |= 0b100,
-                    ArithmeticTypeSpecifierToken::Long => bitfield |= 0b1000,
-                    ArithmeticTypeSpecifierToken::Signed => bitfield |= 0b1_0000,
-                    ArithmeticTypeSpecifierToken::Unsigned => bitfield |= 0b10_0000,
-                    ArithmeticTypeSpecifierToken::Float => bitfield |= 0b100_0000,
-                    ArithmeticTypeSpecifierToken::Double => bitfield |= 0b1000_0000,
+                    ArithmeticTypeSpecifierToken::Char => 0b1,
+                    ArithmeticTypeSpecifierToken::Short => 0b10,
+                    ArithmeticTypeSpecifierToken::Int => 0b100,
+                    ArithmeticTypeSpecifierToken::Long => 0b1000,
+                    ArithmeticTypeSpecifierToken::Signed => 0b1_0000,
+                    ArithmeticTypeSpecifierToken::Unsigned => 0b10_0000,
+                    ArithmeticTypeSpecifierToken::Float => 0b100_0000,
+                    ArithmeticTypeSpecifierToken::Double => 0b1000_0000,
                 },
                 TypeSpecifierToken::Void
                 | TypeSpecifierToken::Struct(_)
@@ -615,7 +616,17 @@ impl ArithmeticType {
                         "Conflicting types declared",
                     ))
                 }
+            };
+            // only long may be repeated, and only once
+            if bit == 0b1000 {
+                long_count += 1;
             }
+            if (bitfield & bit != 0 && bit != 0b1000) || long_count > 2 {
+                return Err(AstError::InvalidTypeDeclaration(
+                    "Conflicting types declared",
+                ));
+            }
+            bitfield |= bit;
         }
         match bitfield {
             // signed char (make char by itself be signed, like GCC)
-- 
2.43.0


From 52d7162164dc065f4887508d925098cdd3bdd750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 55/72] fix: functions return no arrays or functions and arrays
 hold no functions

---
 src/middle_end/get_ast_type_info.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index cea62be..68ed625 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -270,6 +270,9 @@ fn add_type_info_from_declarator(
             Ok((type_info.wrap_with_pointer(), None, None))
         }
         Declarator::ArrayDeclarator(d, size_expr) => {
+            if let IrType::Function(..) = type_info {
+                return Err(MiddleEndError::InvalidDeclaration);
+            }
             let size = match size_expr {
                 None => None,
                 Some(size_expr) => match eval_integral_constant_expression(*size_expr.to_owned()) {
@@ -280,6 +283,9 @@ fn add_type_info_from_declarator(
             add_type_info_from_declarator(*d, type_info.wrap_with_array(size), prog, context)
         }
         Declarator::FunctionDeclarator(d, params) => {
+            if let IrType::Function(..) | IrType::ArrayOf(..) = type_info {
+                return Err(MiddleEndError::InvalidFunctionDeclaration);
+            }
             let mut is_variadic = false;
             let param_decls = match params {
                 None => Vec::new(),
-- 
2.43.0


From cd0b84d547c3806bb910988658042e29250d2420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 56/72] fix: void is no type for a parameter among others or
 with a name

---
 src/middle_end/get_ast_type_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 68ed625..be3ff05 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -311,6 +311,9 @@ fn add_type_info_from_declarator(
                 if is_only_param && param_name.is_none() && param_type == IrType::Void {
                     continue;
                 }
+                if param_type == IrType::Void {
+                    return Err(MiddleEndError::InvalidFunctionDeclaration);
+                }
                 param_types.push(param_type.to_owned());
                 if let Some(name) = param_name {
                     param_bindings.push((name, param_type));
-- 
2.43.0


From 2f3049e55b2f77c20e3927535933e6210d7d4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 57/72] fix: a character constant without its closing quote is
 an error

---
 src/front_end/lexer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 7db174f..f085717 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -251,7 +251,7 @@ impl<'input> Iterator for Lexer<'input> {
                     return match fsm.state {
                         // EOF
                         State::Start => None,
-                        _ => match fsm.token {
+                        _ => match fsm.completed_token() {
                             Some(t) => Some(Ok((start.unwrap(), t, end.unwrap() + 1))),
                             None => Some(Err(LexError::InvalidEOF)),
                         },
@@ -267,7 +267,7 @@ impl<'input> Iterator for Lexer<'input> {
                 start = Some(i.to_owned());
             }
             end = Some(i.to_owned());
-            let current_token = fsm.token.to_owned();
+            let current_token = fsm.completed_token();
             let new_state = fsm.step(c.to_owned(), &self.typedef_names);
             match new_state {
                 Some(f) => {
@@ -461,6 +461,15 @@ impl Fsm {
         }
     }
 
+    /// the token read so far, unless its end is still missing
+    fn completed_token(&self) -> Option<Token> {
+        match (&self.token, &self.state) {
+            (Some(Token::CharConstant(_)), State::Char10) => self.token.to_owned(),
+            (Some(Token::CharConstant(_)), _) => None,
+            _ => self.token.to_owned(),
+        }
+    }
+
     fn step(self, input: char, typedef_names: &[String]) -> Option<Self> {
         match self.state {
             State::Start => match input {
-- 
2.43.0


From a16acb2c609f5ceea4027ec564be8bfb2e1e9f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 58/72] fix: storage classes stand only where C lets them

---
 src/front_end/ast.rs           | 23 +++++++++++++++++++++++
 src/front_end/c_parser.lalrpop | 10 +++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index a317852..8ca711e 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -448,6 +448,29 @@ impl SpecifierQualifier {
     }
 }
 
+impl SpecifierQualifier {
+    /// The specifiers of something that is not a declaration of its own (a member, a parameter, a type
+    /// name, the first part of a for statement): only the storage classes listed can stand there.
+    pub fn create_restricted(
+        sqs: Vec<SpecifierQualifierToken>,
+        storage_classes: &[StorageClassSpecifier],
+    ) -> Result<Self, AstError> {
+        let specifier = Self::create(sqs)?;
+        match &specifier.storage_class_specifier {
+            Some(s) if !storage_classes.contains(s) => {
+                return Err(AstError::InvalidTypeDeclaration(
+                    "Storage class not allowed here",
+                ));
+            }
+            _ => {}
+        }
+        if specifier.inline {
+            return Err(AstError::InvalidTypeDeclaration("inline not allowed here"));
+        }
+        Ok(specifier)
+    }
+}
+
 impl AstNode for SpecifierQualifier {
     fn reconstruct_source(&self) -> String {
         let mut st = String::new();
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index 11cf670..ad1f4c6 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -219,7 +219,7 @@ Block: ast::Statement = {
 #[inline]
 ExpressionOrDeclaration: ast::ExpressionOrDeclaration = {
   <Expression> => ast::ExpressionOrDeclaration::Expression(<>),
-  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> => ast::ExpressionOrDeclaration::Declaration(Box::new(ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs).unwrap(), d))),
+  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> => ast::ExpressionOrDeclaration::Declaration(Box::new(ast::Statement::Declaration(ast::SpecifierQualifier::create_restricted(sqs, &[ast::StorageClassSpecifier::Auto, ast::StorageClassSpecifier::Register]).unwrap(), d))),
 };
 
 // DECLARATIONS -----------------------------
@@ -282,7 +282,7 @@ StructDeclaration: ast::StructType = {
 };
 
 StructMemberDeclaration: ast::StructMemberDeclaration = {
-  <sqs:SpecifierQualifier+> <d:DeclaratorList> ";" => ast::StructMemberDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d),
+  <sqs:SpecifierQualifier+> <d:DeclaratorList> ";" => ast::StructMemberDeclaration(ast::SpecifierQualifier::create_restricted(sqs, &[]).unwrap(), d),
 };
 
 UnionDeclaration: ast::UnionType = {
@@ -335,7 +335,7 @@ ParameterList = CommaSepList<ParameterDeclaration>;
 
 ParameterDeclaration: ast::ParameterDeclaration = {
   <sqs:SpecifierQualifier+> <d:Declarator?> => {
-    ast::ParameterDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d)
+    ast::ParameterDeclaration(ast::SpecifierQualifier::create_restricted(sqs, &[ast::StorageClassSpecifier::Register]).unwrap(), d)
   }
 };
 
@@ -481,7 +481,7 @@ MultiplicativeExpression: ast::Expression = {
 
 CastExpression: ast::Expression = {
   UnaryExpression,
-  "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" <e:CastExpression> => ast::Expression::Cast(ast::TypeName(ast::SpecifierQualifier::create(sqs).unwrap(), d), Box::new(e)),
+  "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" <e:CastExpression> => ast::Expression::Cast(ast::TypeName(ast::SpecifierQualifier::create_restricted(sqs, &[]).unwrap(), d), Box::new(e)),
 };
 
 UnaryExpression: ast::Expression = {
@@ -490,7 +490,7 @@ UnaryExpression: ast::Expression = {
   "--" <UnaryExpression> => ast::Expression::PrefixDecrement(Box::new(<>)),
   <op:UnaryOperator> <e:CastExpression> => ast::Expression::UnaryOp(op, Box::new(e)),
   "sizeof" <UnaryExpression> => ast::Expression::SizeOfExpr(Box::new(<>)),
-   "sizeof" "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" => ast::Expression::SizeOfType(ast::TypeName(ast::SpecifierQualifier::create(sqs).unwrap(), d)),
+   "sizeof" "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" => ast::Expression::SizeOfType(ast::TypeName(ast::SpecifierQualifier::create_restricted(sqs, &[]).unwrap(), d)),
 };
 
 UnaryOperator: ast::UnaryOperator = {
-- 
2.43.0


From 9d897f708d627dab076b44b85a706c1b89f27e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:41 +0000
Subject: [PATCH 59/72] fix: file scope has no automatic objects and only
 functions are inline

---
 src/middle_end/ast_to_ir.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index eeb8b41..4e5598f 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -396,6 +396,15 @@ fn convert_statement_to_ir(
             instrs.append(&mut expr_instrs);
         }
         Statement::Declaration(sq, declarators) => {
+            // nothing at file scope is automatic
+            if context.is_in_global_scope()
+                && matches!(
+                    sq.storage_class_specifier,
+                    Some(StorageClassSpecifier::Auto | StorageClassSpecifier::Register)
+                )
+            {
+                return Err(MiddleEndError::InvalidDeclaration);
+            }
             let mut is_initial_declarator = true;
             for declarator in declarators {
                 match declarator {
@@ -436,6 +445,9 @@ fn convert_statement_to_ir(
                                 // non-function declaration (normal variable)
                                 Some(name) => {
                                     trace!("Variable declaration: {}", name);
+                                    if sq.inline {
+                                        return Err(MiddleEndError::InvalidDeclaration);
+                                    }
                                     // another declaration of the same global variable
                                     if context
                                         .get_declared_global_var(&name, &type_info)
@@ -513,6 +525,9 @@ fn convert_statement_to_ir(
                         };
                     }
                     DeclaratorInitialiser::Init(d, mut init_expr) => {
+                        if sq.inline {
+                            return Err(MiddleEndError::InvalidDeclaration);
+                        }
                         let (dest_type_info, name, _) = match get_type_info(
                             &sq,
                             Some(d),
@@ -755,6 +770,12 @@ fn convert_statement_to_ir(
             }
         }
         Statement::FunctionDeclaration(sq, decl, body) => {
+            if !matches!(
+                sq.storage_class_specifier,
+                None | Some(StorageClassSpecifier::Extern | StorageClassSpecifier::Static)
+            ) {
+                return Err(MiddleEndError::InvalidFunctionDeclaration);
+            }
             let (type_info, name, param_bindings) =
                 match get_type_info(&sq, Some(decl), false, prog, context)? {
                     None => return Err(MiddleEndError::InvalidTypedefDeclaration),
-- 
2.43.0


From 3c5e633ca0e70a38ce0f2cad6718f6ae4e45183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 60/72] fix: an enumeration has at least one constant

---
 src/middle_end/get_ast_type_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index be3ff05..f2baeb4 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -176,6 +176,9 @@ pub fn get_type_info(
                     IrType::I32
                 }
                 EnumType::Definition(enum_name, enum_constants) => {
+                    if enum_constants.is_empty() {
+                        return Err(MiddleEndError::InvalidDeclaration);
+                    }
                     let mut skip_constant_definition = false;
                     if let Some(Identifier(enum_name)) = enum_name {
                         if is_duplicate_specifier {
-- 
2.43.0


From 6cf4cb7f1478ead0a7d30621681da4d9afadd4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 61/72] fix: the operands of a conditional expression determine
 its type

---
 src/middle_end/ast_to_ir.rs | 84 +++++++++++++++++++++++++++++++------
 1 file changed, 71 insertions(+), 13 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 4e5598f..b9f3221 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -882,6 +882,16 @@ fn convert_condition_to_ir(
     }
 }
 
+/// Whether the expression is the constant 0, or that constant cast to another type (which must be
+/// a pointer to void for the result to be a null pointer constant)
+fn is_null_constant(expr: &Expression) -> bool {
+    match expr {
+        Expression::Cast(_, inner) => is_null_constant(inner),
+        Expression::Constant(ast::Constant::Int(0) | ast::Constant::UnsignedInt(0)) => true,
+        _ => false,
+    }
+}
+
 /// convert a logical AND or OR, which only evaluates the right operand if the left operand
 /// doesn't already determine the result
 fn convert_logical_operator_to_ir(
@@ -2060,6 +2070,7 @@ pub fn convert_expression_to_ir(
                 false_label.to_owned(),
             ));
             // if condition true, fall through to the true instructions
+            let is_true_null = is_null_constant(&true_expr);
             let (mut true_instrs, true_var) = convert_expression_to_ir(*true_expr, prog, context)?;
             instrs.append(&mut true_instrs);
             // unary convert result of the expression
@@ -2069,6 +2080,7 @@ pub fn convert_expression_to_ir(
 
             // convert the false expr already, so we can do type checking and conversion, but don't insert
             // the instructions just yet
+            let is_false_null = is_null_constant(&false_expr);
             let (mut false_instrs, false_var) =
                 convert_expression_to_ir(*false_expr, prog, context)?;
             // unary convert result of the expression
@@ -2076,7 +2088,9 @@ pub fn convert_expression_to_ir(
             let false_var_type = false_var.get_type(&prog.program_metadata)?;
 
             let mut false_binary_convert_instrs = Vec::new();
-            if true_var_type != false_var_type {
+            let dest_type = if true_var_type == false_var_type {
+                true_var_type
+            } else if true_var_type.is_arithmetic_type() && false_var_type.is_arithmetic_type() {
                 let (
                     mut true_binary_convert_instrs,
                     false_convert_instrs,
@@ -2087,15 +2101,57 @@ pub fn convert_expression_to_ir(
                 false_var = converted_false_var;
                 false_binary_convert_instrs = false_convert_instrs;
                 instrs.append(&mut true_binary_convert_instrs);
-            }
-            prog.add_var_type(dest.to_owned(), true_var.get_type(&prog.program_metadata)?)?;
+                true_var.get_type(&prog.program_metadata)?
+            } else {
+                // a null pointer constant takes the type of the other operand, and
+                // a pointer to void otherwise determines the type
+                let void_ptr_type = IrType::Void.wrap_with_pointer();
+                let is_true_null =
+                    is_true_null && (true_var_type.is_integral_type() || true_var_type == void_ptr_type);
+                let is_false_null = is_false_null
+                    && (false_var_type.is_integral_type() || false_var_type == void_ptr_type);
+                let dest_type = if true_var_type.is_pointer_type() && is_false_null {
+                    true_var_type.to_owned()
+                } else if false_var_type.is_pointer_type() && is_true_null {
+                    false_var_type.to_owned()
+                } else if !true_var_type.is_pointer_type() || !false_var_type.is_pointer_type() {
+                    return Err(MiddleEndError::InvalidOperation(
+                        "Incompatible types of the operands of a conditional expression",
+                    ));
+                } else if false_var_type == void_ptr_type {
+                    void_ptr_type
+                } else {
+                    true_var_type.to_owned()
+                };
+                let (mut true_convert_instrs, converted_true_var) = get_type_conversion_instrs(
+                    true_var,
+                    true_var_type,
+                    dest_type.to_owned(),
+                    prog,
+                )?;
+                true_var = converted_true_var;
+                instrs.append(&mut true_convert_instrs);
+                let (false_convert_instrs, converted_false_var) = get_type_conversion_instrs(
+                    false_var,
+                    false_var_type,
+                    dest_type.to_owned(),
+                    prog,
+                )?;
+                false_var = converted_false_var;
+                false_binary_convert_instrs = false_convert_instrs;
+                dest_type
+            };
+            let is_void = dest_type == IrType::Void;
+            prog.add_var_type(dest.to_owned(), dest_type)?;
 
             // assign the result to dest
-            instrs.push(Instruction::SimpleAssignment(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                true_var,
-            ));
+            if !is_void {
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    true_var,
+                ));
+            }
             // jump over the false instructions
             instrs.push(Instruction::Br(prog.new_instr_id(), end_label.to_owned()));
             // false instructions
@@ -2104,11 +2160,13 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut unary_convert_false_instrs);
             instrs.append(&mut false_binary_convert_instrs);
             // assign the result to dest
-            instrs.push(Instruction::SimpleAssignment(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                false_var,
-            ));
+            if !is_void {
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    false_var,
+                ));
+            }
             instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
 
             Ok((instrs, Src::Var(dest)))
-- 
2.43.0


From 4110defab53e8e1c617ca0235ef44174f27af7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:20 +0000
Subject: [PATCH 62/72] fix: an integer compared to a pointer is converted to
 its type

---
 src/middle_end/ast_to_ir.rs | 44 +++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index b9f3221..0c88a22 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1953,7 +1953,7 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::Equal => {
-                    let (mut convert_instrs, left_var, right_var) =
+                    let (mut convert_instrs, mut left_var, mut right_var) =
                         binary_convert(left_var, right_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
@@ -1968,6 +1968,26 @@ pub fn convert_expression_to_ir(
                             "Invalid equality comparison operand types",
                         ));
                     }
+                    // an integer compared to a pointer is converted to its type
+                    if left_var_type.is_pointer_type() && right_var_type.is_integral_type() {
+                        let (mut convert_instrs, converted_var) = get_type_conversion_instrs(
+                            right_var,
+                            right_var_type,
+                            left_var_type,
+                            prog,
+                        )?;
+                        instrs.append(&mut convert_instrs);
+                        right_var = converted_var;
+                    } else if left_var_type.is_integral_type() && right_var_type.is_pointer_type() {
+                        let (mut convert_instrs, converted_var) = get_type_conversion_instrs(
+                            left_var,
+                            left_var_type,
+                            right_var_type,
+                            prog,
+                        )?;
+                        instrs.append(&mut convert_instrs);
+                        left_var = converted_var;
+                    }
                     // result of comparison is always int
                     prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     instrs.push(Instruction::Equal(
@@ -1978,7 +1998,7 @@ pub fn convert_expression_to_ir(
                     ));
                 }
                 BinaryOperator::NotEqual => {
-                    let (mut convert_instrs, left_var, right_var) =
+                    let (mut convert_instrs, mut left_var, mut right_var) =
                         binary_convert(left_var, right_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
@@ -1993,6 +2013,26 @@ pub fn convert_expression_to_ir(
                             "Invalid equality comparison operand types",
                         ));
                     }
+                    // an integer compared to a pointer is converted to its type
+                    if left_var_type.is_pointer_type() && right_var_type.is_integral_type() {
+                        let (mut convert_instrs, converted_var) = get_type_conversion_instrs(
+                            right_var,
+                            right_var_type,
+                            left_var_type,
+                            prog,
+                        )?;
+                        instrs.append(&mut convert_instrs);
+                        right_var = converted_var;
+                    } else if left_var_type.is_integral_type() && right_var_type.is_pointer_type() {
+                        let (mut convert_instrs, converted_var) = get_type_conversion_instrs(
+                            left_var,
+                            left_var_type,
+                            right_var_type,
+                            prog,
+                        )?;
+                        instrs.append(&mut convert_instrs);
+                        left_var = converted_var;
+                    }
                     // result of comparison is always int
                     prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     instrs.push(Instruction::NotEqual(
-- 
2.43.0


From df9444ae57ca73eec51e38d365a28577e999085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:12 +0000
Subject: [PATCH 63/72] fix: a string literal is not a modifiable object but
 has an address

---
 src/middle_end/ast_to_ir.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 0c88a22..003757e 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1103,6 +1103,17 @@ fn convert_expression_to_address(
     prog: &mut Program,
     context: &mut Context,
 ) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    if let Expression::StringLiteral(string) = expr {
+        let string_type = string_literal_type(&string);
+        let dest = prog.new_var(ValueType::RValue);
+        prog.add_var_type(dest.to_owned(), string_type.wrap_with_pointer())?;
+        let instrs = vec![Instruction::PointerToStringLiteral(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            prog.new_string_literal(string),
+        )];
+        return Ok((instrs, Src::Var(dest)));
+    }
     context.directly_on_lhs_of_assignment = true;
     let (mut instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
     context.directly_on_lhs_of_assignment = false;
@@ -1130,6 +1141,14 @@ fn convert_expression_to_address(
     }
 }
 
+/// a string literal is an array of its characters and the null character
+fn string_literal_type(string: &str) -> IrType {
+    IrType::ArrayOf(
+        Box::new(IrType::I8),
+        Some(TypeSize::CompileTime(string.chars().count() as u64 + 1)),
+    )
+}
+
 /// get a pointer to a member of the struct or union that the given pointer points to
 fn convert_member_address_to_ir(
     obj_ptr: Src,
@@ -1274,7 +1293,7 @@ pub fn convert_expression_to_ir(
         },
         Expression::StringLiteral(s) => {
             let string_id = prog.new_string_literal(s);
-            let dest = prog.new_var(ValueType::LValue);
+            let dest = prog.new_var(ValueType::RValue);
             instrs.push(Instruction::PointerToStringLiteral(
                 prog.new_instr_id(),
                 dest.to_owned(),
-- 
2.43.0


From 81593291d9620e27d041ebe4038f4f06427f815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:30 +0000
Subject: [PATCH 64/72] fix: the size of a string literal is that of its array

---
 src/middle_end/ast_to_ir.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 003757e..8a377f1 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1618,8 +1618,14 @@ pub fn convert_expression_to_ir(
         }
         Expression::SizeOfExpr(e) => {
             // the operand isn't evaluated, we only need its type
-            let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            let expr_var_type = match *e {
+                // not converted to a pointer here
+                Expression::StringLiteral(s) => string_literal_type(&s),
+                e => {
+                    let (_, expr_var) = convert_expression_to_ir(e, prog, context)?;
+                    expr_var.get_type(&prog.program_metadata)?
+                }
+            };
 
             let type_size = expr_var_type.get_object_byte_size(&prog.program_metadata)?;
             let size = match type_size {
-- 
2.43.0


From ceddc37992e7c8d8993c5e2e3b5233958e5d0c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:54 +0000
Subject: [PATCH 65/72] fix: only pointers to the same type are subtracted from
 one another

---
 src/middle_end/ast_to_ir.rs |  4 ++--
 src/middle_end/ir_types.rs  | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 8a377f1..aa64447 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1782,12 +1782,12 @@ pub fn convert_expression_to_ir(
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
                     let right_var_type = right_var.get_type(&prog.program_metadata)?;
                     // must be either arithmetic - arithmetic, or pointer - integer, or pointer - pointer
-                    // todo check for pointers being compatible types
                     if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
                         && !(left_var_type.is_object_pointer_type()
                             && right_var_type.is_integral_type())
                         && !(left_var_type.is_object_pointer_type()
-                            && right_var_type.is_object_pointer_type())
+                            && right_var_type.is_object_pointer_type()
+                            && left_var_type.is_compatible_with(&right_var_type))
                     {
                         return Err(MiddleEndError::InvalidOperation(
                             "Invalid addition operand types",
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 65d688e..39e507a 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -293,6 +293,22 @@ impl IrType {
         }
     }
 
+    /// Whether the types are the same, where an array size that isn't known until runtime may be
+    /// the same as any other size
+    pub fn is_compatible_with(&self, other: &IrType) -> bool {
+        match (self, other) {
+            (IrType::PointerTo(t1), IrType::PointerTo(t2)) => t1.is_compatible_with(t2),
+            (IrType::ArrayOf(t1, size1), IrType::ArrayOf(t2, size2)) => {
+                let is_size_compatible = match (size1, size2) {
+                    (Some(TypeSize::CompileTime(n1)), Some(TypeSize::CompileTime(n2))) => n1 == n2,
+                    _ => true,
+                };
+                is_size_compatible && t1.is_compatible_with(t2)
+            }
+            (t1, t2) => t1 == t2,
+        }
+    }
+
     pub fn is_pointer_type(&self) -> bool {
         matches!(self, IrType::PointerTo(_))
     }
-- 
2.43.0


From 0affd2f89f6539eb42cff5e84cd40c6361826829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:22 +0000
Subject: [PATCH 66/72] fix: an array size is an integer

---
 src/middle_end/ast_to_ir.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index aa64447..ab2b834 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -964,6 +964,7 @@ fn evaluate_array_sizes(
                         convert_expression_to_ir(size_expr, prog, context)?;
                     instrs.append(&mut size_instrs);
                     let size_type = size_src.get_type(&prog.program_metadata)?;
+                    size_type.require_integral_type()?;
                     let (mut convert_instrs, size_src) =
                         convert_type_for_assignment(size_src, size_type, IrType::I32, prog)?;
                     instrs.append(&mut convert_instrs);
-- 
2.43.0


From 4d2b06ffa95055ae5b5c90e92cfea27155f953d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 67/72] fix: case labels are integer constant expressions

---
 src/middle_end/ast_to_ir.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ab2b834..baf2035 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -351,8 +351,14 @@ fn convert_statement_to_ir(
                         return Err(MiddleEndError::CaseOutsideSwitchContext);
                     }
                     let switch_var = Src::Var(context.get_switch_variable().unwrap());
+                    if !is_constant_expression(&expr, context) {
+                        return Err(MiddleEndError::InvalidConstantExpression);
+                    }
                     let (mut condition_instrs, mut expr_var) =
                         convert_expression_to_ir(expr, prog, context)?;
+                    expr_var
+                        .get_type(&prog.program_metadata)?
+                        .require_integral_type()?;
                     // convert to the type of the switch expression (constants already take on
                     // the type of the variable they're compared to)
                     if let Src::Var(_) = expr_var {
@@ -882,6 +888,31 @@ fn convert_condition_to_ir(
     }
 }
 
+/// Whether the value of the expression only depends on constants
+fn is_constant_expression(expr: &Expression, context: &Context) -> bool {
+    match expr {
+        Expression::Constant(_) | Expression::SizeOfExpr(_) | Expression::SizeOfType(_) => true,
+        Expression::Identifier(Identifier(name)) => matches!(
+            context.resolve_identifier_to_var_or_const(name),
+            Ok(IdentifierResolveResult::EnumConst(_))
+        ),
+        Expression::UnaryOp(op, e) => {
+            !matches!(op, UnaryOperator::AddressOf | UnaryOperator::Dereference)
+                && is_constant_expression(e, context)
+        }
+        Expression::Cast(_, e) => is_constant_expression(e, context),
+        Expression::BinaryOp(_, left, right) => {
+            is_constant_expression(left, context) && is_constant_expression(right, context)
+        }
+        Expression::Ternary(cond, true_expr, false_expr) => {
+            is_constant_expression(cond, context)
+                && is_constant_expression(true_expr, context)
+                && is_constant_expression(false_expr, context)
+        }
+        _ => false,
+    }
+}
+
 /// Whether the expression is the constant 0, or that constant cast to another type (which must be
 /// a pointer to void for the result to be a null pointer constant)
 fn is_null_constant(expr: &Expression) -> bool {
-- 
2.43.0


From 64dafe9a33fd3e6fc712e1e1a57fbb17c9779767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:31 +0000
Subject: [PATCH 68/72] fix: a pointer can be cast to any integer type

---
 src/middle_end/type_conversions.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 538572e..cfc905d 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -740,6 +740,19 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        // pointer to an integer that is smaller than the pointer, via int
+        (
+            src_type @ IrType::PointerTo(_),
+            dest_type @ (IrType::I8 | IrType::U8 | IrType::I16 | IrType::U16),
+        ) => {
+            let (mut convert_instrs, intermediate) =
+                get_type_conversion_instrs(src, src_type, IrType::I32, prog)?;
+            instrs.append(&mut convert_instrs);
+            let (mut convert_instrs, dest) =
+                get_type_conversion_instrs(intermediate, IrType::I32, dest_type, prog)?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
         // narrowing/reinterpreting conversions where the src and dest are represented by the same
         // wasm value type, so loading the src and storing it as the dest type is the conversion
         (
-- 
2.43.0


From ae46ed3c7a329b5d387e6212092115d156353586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 69/72] fix: an enumeration without a tag can have several
 declarators

---
 src/middle_end/get_ast_type_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index f2baeb4..af64604 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -179,11 +179,11 @@ pub fn get_type_info(
                     if enum_constants.is_empty() {
                         return Err(MiddleEndError::InvalidDeclaration);
                     }
-                    let mut skip_constant_definition = false;
+                    // the constants are defined by the first declarator
+                    let skip_constant_definition = is_duplicate_specifier;
                     if let Some(Identifier(enum_name)) = enum_name {
                         if is_duplicate_specifier {
                             context.resolve_identifier_to_enum_tag(enum_name)?;
-                            skip_constant_definition = true;
                         } else {
                             context.add_enum_tag(enum_name.to_owned())?;
                         }
-- 
2.43.0


From 2841dd5f65ce376999d44a76daff8a7dc05a14d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 70/72] fix: enumeration constants in constant expressions

---
 src/middle_end/compile_time_eval.rs | 45 +++++++++++++++++++++++++++--
 src/middle_end/get_ast_type_info.rs | 17 ++++++-----
 2 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index d0f8b73..ff3ee6a 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -1,12 +1,16 @@
-use crate::front_end::ast::{BinaryOperator, Expression};
+use crate::front_end::ast::{BinaryOperator, Expression, Identifier};
 use crate::front_end::ast::{Constant as AstConstant, UnaryOperator};
+use crate::middle_end::context::{Context, IdentifierResolveResult};
 use crate::middle_end::instructions::Constant as IrConstant;
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 /// constant expression used for array bounds, explicit enum values,
 /// values of case labels. Must evaluate to an integer
-pub fn eval_integral_constant_expression(expr: Expression) -> Result<i128, MiddleEndError> {
-    match eval(expr)? {
+pub fn eval_integral_constant_expression(
+    expr: Expression,
+    context: &Context,
+) -> Result<i128, MiddleEndError> {
+    match eval(replace_enum_constants(expr, context))? {
         ConstantExpressionType::Int(i) => Ok(i),
         _ => Err(MiddleEndError::InvalidConstantExpression),
     }
@@ -21,6 +25,41 @@ pub fn eval_initialiser_constant_expression(
     }
 }
 
+/// replace the enumeration constants in the expression with their values
+fn replace_enum_constants(expr: Expression, context: &Context) -> Expression {
+    match expr {
+        Expression::Identifier(Identifier(name)) => {
+            match context.resolve_identifier_to_var_or_const(&name) {
+                Ok(IdentifierResolveResult::EnumConst(value)) => {
+                    let magnitude = Expression::Constant(AstConstant::Int(
+                        value.unsigned_abs().into(),
+                    ));
+                    if value < 0 {
+                        Expression::UnaryOp(UnaryOperator::Minus, Box::new(magnitude))
+                    } else {
+                        magnitude
+                    }
+                }
+                _ => Expression::Identifier(Identifier(name)),
+            }
+        }
+        Expression::UnaryOp(op, e) => {
+            Expression::UnaryOp(op, Box::new(replace_enum_constants(*e, context)))
+        }
+        Expression::BinaryOp(op, left, right) => Expression::BinaryOp(
+            op,
+            Box::new(replace_enum_constants(*left, context)),
+            Box::new(replace_enum_constants(*right, context)),
+        ),
+        Expression::Ternary(cond, true_expr, false_expr) => Expression::Ternary(
+            Box::new(replace_enum_constants(*cond, context)),
+            Box::new(replace_enum_constants(*true_expr, context)),
+            Box::new(replace_enum_constants(*false_expr, context)),
+        ),
+        expr => expr,
+    }
+}
+
 enum ConstantExpressionType {
     Int(i128),
     Float(f64),
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index af64604..273f285 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -198,9 +198,10 @@ pub fn get_type_info(
                                     next_constant_value = next_constant_value.wrapping_add(1);
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
-                                    let value =
-                                        eval_integral_constant_expression(value_expr.to_owned())?
-                                            as EnumConstant;
+                                    let value = eval_integral_constant_expression(
+                                        value_expr.to_owned(),
+                                        context,
+                                    )? as EnumConstant;
                                     context.add_enum_constant(name.to_owned(), value)?;
                                     // value of next constant without explicit value is one more than
                                     // the last constant
@@ -278,10 +279,12 @@ fn add_type_info_from_declarator(
             }
             let size = match size_expr {
                 None => None,
-                Some(size_expr) => match eval_integral_constant_expression(*size_expr.to_owned()) {
-                    Ok(size) => Some(TypeSize::CompileTime(size as u64)),
-                    Err(_) => Some(TypeSize::Runtime(*size_expr)),
-                },
+                Some(size_expr) => {
+                    match eval_integral_constant_expression(*size_expr.to_owned(), context) {
+                        Ok(size) => Some(TypeSize::CompileTime(size as u64)),
+                        Err(_) => Some(TypeSize::Runtime(*size_expr)),
+                    }
+                }
             };
             add_type_info_from_declarator(*d, type_info.wrap_with_array(size), prog, context)
         }
-- 
2.43.0


From 77d4038da31c1502f591a1ae2f921a228e677368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:06 +0000
Subject: [PATCH 71/72] fix: an array is only initialised by a list or a string
 literal

---
 src/middle_end/ast_to_ir.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index baf2035..ffc1e44 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -582,6 +582,10 @@ fn convert_statement_to_ir(
                             Some(name) => {
                                 match init_expr {
                                     Initialiser::Expr(e) => {
+                                        // an array is initialised by a list or a string literal
+                                        if dest_type_info.is_array_type() {
+                                            return Err(MiddleEndError::InvalidInitialiserExpression);
+                                        }
                                         // the variable is in scope in its own initialiser
                                         let dest = context
                                             .get_declared_global_var(&name, &dest_type_info)
-- 
2.43.0


From cd7d8f35870d54fcd30275b7b98326893026d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 72/72] fix: casts, assignments and lists of expressions are
 not lvalues

---
 src/middle_end/ast_to_ir.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ffc1e44..0c65267 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -892,6 +892,19 @@ fn convert_condition_to_ir(
     }
 }
 
+/// Whether this form of expression can designate an object, whatever its operands are
+fn may_be_lvalue(expr: &Expression) -> bool {
+    matches!(
+        expr,
+        Expression::Identifier(_)
+            | Expression::StringLiteral(_)
+            | Expression::Index(..)
+            | Expression::DirectMemberSelection(..)
+            | Expression::IndirectMemberSelection(..)
+            | Expression::UnaryOp(UnaryOperator::Dereference, _)
+    )
+}
+
 /// Whether the value of the expression only depends on constants
 fn is_constant_expression(expr: &Expression, context: &Context) -> bool {
     match expr {
@@ -1036,6 +1049,9 @@ fn convert_increment_to_ir(
     prog: &mut Program,
     context: &mut Context,
 ) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    if !may_be_lvalue(&expr) {
+        return Err(MiddleEndError::AttemptToModifyNonLValue);
+    }
     context.directly_on_lhs_of_assignment = true;
     let (mut instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
     context.directly_on_lhs_of_assignment = false;
@@ -1484,6 +1500,9 @@ pub fn convert_expression_to_ir(
             convert_increment_to_ir(*expr, false, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
+            if !may_be_lvalue(&expr) {
+                return Err(MiddleEndError::InvalidLValue);
+            }
             let (mut expr_instrs, ptr) = convert_expression_to_address(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
             // result isn't an lvalue
@@ -2273,6 +2292,9 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::Assignment(dest_expr, src_expr) => {
+            if !may_be_lvalue(&dest_expr) {
+                return Err(MiddleEndError::AttemptToModifyNonLValue);
+            }
             let (mut src_expr_instrs, mut src_var) =
                 convert_expression_to_ir(*src_expr, prog, context)?;
             instrs.append(&mut src_expr_instrs);
@@ -2346,6 +2368,9 @@ pub fn convert_expression_to_ir(
                     context,
                 );
             }
+            if !may_be_lvalue(&dest_expr) {
+                return Err(MiddleEndError::AttemptToModifyNonLValue);
+            }
             // dest is only evaluated once: give its address a name that can't clash with any
             // identifier in the source program, then convert  *ptr = *ptr op src
             let (mut dest_instrs, dest_ptr) =
-- 
2.43.0

