From 78357b57ef19e892f0bc8d7bd8387c58ad21569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 01/15] fix: report a merge tool that fails without a message

The exit status of the merge tool was ignored: when it was killed by a
signal or exited with a failure without printing anything, merge returned
Ok with an empty or truncated module.
---
 wasm-merge/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 94bbfb9..50f4195 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -140,6 +140,12 @@ impl MergeOptions<'_> {
             let std_err_string = String::from_utf8_lossy(&command_output.stderr).to_string();
             return Err(Error::MergeExecutionFailedReason(std_err_string));
         }
+        // The tool may also fail without a message, e.g. when it is killed
+        if !command_output.status.success() {
+            return Err(Error::MergeExecutionFailedReason(
+                command_output.status.to_string(),
+            ));
+        }
 
         let mut result = Vec::new();
         output_file
-- 
2.43.0


From 75ab797d168fea0b12ec9ae09ba018b00f9b509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 02/15] fix: hand namespaces and paths to the merge tool
 verbatim

The command line was built as text and run by a shell, which split, expanded
and even executed parts of namespaces and temporary paths.
---
 wasm-merge/src/lib.rs | 40 +++++++++++-----------------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 50f4195..5a0e045 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -87,7 +87,7 @@ impl MergeOptions<'_> {
             ..
         } = self;
 
-        let merges: Vec<(&InputModule, String, NamedTempFile)> = primary
+        let merges: Vec<(&InputModule, NamedTempFile)> = primary
             .as_ref()
             .map_or(vec![], |p| vec![p])
             .iter()
@@ -98,38 +98,20 @@ impl MergeOptions<'_> {
                 input_module
                     .write_all(module)
                     .map_err(Error::TempInputFileWriteFailed)?;
-                let input_module_path = input_module.path().to_string_lossy().to_string();
-                Ok((*im, input_module_path, input_module))
+                Ok((*im, input_module))
             })
-            .collect::<Result<Vec<(&InputModule, String, NamedTempFile)>, Error>>()?;
-
-        let merge_name_combinations = merges
-            .iter()
-            .map(|(InputModule { namespace, .. }, input_module_path, ..)| {
-                format!("{input_module_path} {namespace}")
-            })
-            .collect::<Vec<String>>()
-            .join(" ");
+            .collect::<Result<Vec<(&InputModule, NamedTempFile)>, Error>>()?;
 
         let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;
-        let output_file_path = output_file.path().to_string_lossy().to_string();
-
-        let merge_command = format!(
-            concat!(
-                "wasm-merge",
-                " {bash_arguments} ",
-                "{merge_name_combinations} -o {output_file_path}",
-            ),
-            bash_arguments = self.as_bash_arguments(),
-            merge_name_combinations = merge_name_combinations,
-            output_file_path = output_file_path,
-        );
 
-        // FIXME: move this to separate file, splitting up functionality
-        // FIXME: this implementation shares constructs with wastrumentation-instr-lib (code-dupe)
-
-        let mut command_merge = Command::new("bash");
-        command_merge.args(["-c", &merge_command]);
+        // The tool is started without a shell in between: namespaces and paths
+        // may contain any character and are handed over verbatim.
+        let mut command_merge = Command::new("wasm-merge");
+        command_merge.args(self.as_bash_arguments().split_whitespace());
+        for (InputModule { namespace, .. }, input_module) in &merges {
+            command_merge.arg(input_module.path()).arg(namespace);
+        }
+        command_merge.arg("-o").arg(output_file.path());
 
         // Kick off command, i.e. merge
         let command_output = command_merge
-- 
2.43.0


From 5ad312c8ffecbdacd23c4fcc7dd7f5042f26f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 03/15] fix: end a guest block at its delimiter, whatever the
 guest code holds

Comments of the wasp language were skipped inside guest blocks, so that a
'#|' in guest code swallowed the end of the block and following advice.
---
 wasp-compiler/wasp.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wasp-compiler/wasp.pest b/wasp-compiler/wasp.pest
index 185c18b..8a57e32 100644
--- a/wasp-compiler/wasp.pest
+++ b/wasp-compiler/wasp.pest
@@ -9,7 +9,8 @@ wasp_input = { SOI ~ wasp ~ EOI }
 wasp       = { "(" ~ "aspect" ~ ("(" ~ advice_definition ~ ")")* ~ ")" }
 
 // Guest language block, currently hardcoded AssemblyScript
-GUEST_BLOCK = { ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
+// Atomic: a `#|` in guest code is guest code, it must not hide the end of the block
+GUEST_BLOCK = @{ ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
 
 // Advice definitions
 advice_definition = { advice_global | advice_trap }
-- 
2.43.0


From 6226b38a7259e4f1131be89470fdf3da72d04c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 04/15] fix: reject repeated parameter names in every kind of
 advice

A name shared by the function and an argument of a specialised apply, or by
the two parameters of br_if, br_table and call_indirect, was accepted.
---
 wasp-compiler/src/ast/wasp.rs | 53 +++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/wasp-compiler/src/ast/wasp.rs b/wasp-compiler/src/ast/wasp.rs
index 5b94043..2dff27c 100644
--- a/wasp-compiler/src/ast/wasp.rs
+++ b/wasp-compiler/src/ast/wasp.rs
@@ -306,6 +306,14 @@ impl TryFrom<pest_ast::AdviceDefinition> for AdviceDefinition {
     }
 }
 
+fn distinct_parameters(parameter_1: &str, parameter_2: &str) -> Result<(), Error> {
+    if parameter_1 == parameter_2 {
+        let parameters = vec![parameter_1.to_string(), parameter_2.to_string()];
+        return Err(Error::NonUniqueParameters(parameters));
+    }
+    Ok(())
+}
+
 impl TryFrom<pest_ast::TrapSignature> for TrapSignature {
     type Error = crate::Error;
 
@@ -331,11 +339,14 @@ impl TryFrom<pest_ast::TrapSignature> for TrapSignature {
                 formal_table,
                 formal_index,
                 body,
-            }) => Ok(TrapSignature::TrapCallIndirectPre(TrapCallIndirectPre {
-                formal_table: formal_table.into(),
-                formal_index: formal_index.into(),
-                body,
-            })),
+            }) => {
+                distinct_parameters(&formal_table.0, &formal_index.0)?;
+                Ok(TrapSignature::TrapCallIndirectPre(TrapCallIndirectPre {
+                    formal_table: formal_table.into(),
+                    formal_index: formal_index.into(),
+                    body,
+                }))
+            }
             pest_ast::TrapSignature::TrapCallIndirectPost(pest_ast::TrapCallIndirectPost {
                 formal_table,
                 body,
@@ -361,20 +372,26 @@ impl TryFrom<pest_ast::TrapSignature> for TrapSignature {
                 branch_formal_condition,
                 branch_formal_label,
                 body,
-            }) => Ok(TrapSignature::TrapBrIf(TrapBrIf {
-                branch_formal_condition: branch_formal_condition.into(),
-                branch_formal_label: branch_formal_label.into(),
-                body,
-            })),
+            }) => {
+                distinct_parameters(&branch_formal_condition.0, &branch_formal_label.0)?;
+                Ok(TrapSignature::TrapBrIf(TrapBrIf {
+                    branch_formal_condition: branch_formal_condition.into(),
+                    branch_formal_label: branch_formal_label.into(),
+                    body,
+                }))
+            }
             pest_ast::TrapSignature::TrapBrTable(pest_ast::TrapBrTable {
                 branch_formal_target,
                 branch_formal_default,
                 body,
-            }) => Ok(TrapSignature::TrapBrTable(TrapBrTable {
-                branch_formal_target: branch_formal_target.into(),
-                branch_formal_default: branch_formal_default.into(),
-                body,
-            })),
+            }) => {
+                distinct_parameters(&branch_formal_target.0, &branch_formal_default.0)?;
+                Ok(TrapSignature::TrapBrTable(TrapBrTable {
+                    branch_formal_target: branch_formal_target.into(),
+                    branch_formal_default: branch_formal_default.into(),
+                    body,
+                }))
+            }
             pest_ast::TrapSignature::TrapBlockPre(pest_ast::TrapBlockPre { body }) => {
                 Ok(TrapSignature::TrapBlockPre(TrapBlockPre { body }))
             }
@@ -536,6 +553,9 @@ impl TryFrom<pest_ast::ApplySpeInter> for ApplySpe {
         let WasmParameterVec(parameters_results) =
             WasmParameterVec::try_from(formal_arguments_results)?;
         WasmParameterVec::distinct_arguments(&parameters_arguments, &parameters_results)?;
+        for parameter in parameters_arguments.iter().chain(&parameters_results) {
+            distinct_parameters(&apply_parameter, &parameter.identifier)?;
+        }
         Ok(ApplySpe {
             mutable_signature: false,
             apply_parameter,
@@ -559,6 +579,9 @@ impl TryFrom<pest_ast::ApplySpeIntro> for ApplySpe {
         let WasmParameterVec(parameters_results) =
             WasmParameterVec::try_from(formal_arguments_results)?;
         WasmParameterVec::distinct_arguments(&parameters_arguments, &parameters_results)?;
+        for parameter in parameters_arguments.iter().chain(&parameters_results) {
+            distinct_parameters(&apply_parameter, &parameter.identifier)?;
+        }
         Ok(ApplySpe {
             mutable_signature: true,
             apply_parameter,
-- 
2.43.0


From a8c2fa75767d13aeb90a609bc93ca0576a184bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 05/15] fix: trap on memory accesses whose effective address
 wraps

---
 wastrumentation/src/instrument/memory.rs | 81 ++++++++++++++++--------
 1 file changed, 53 insertions(+), 28 deletions(-)

diff --git a/wastrumentation/src/instrument/memory.rs b/wastrumentation/src/instrument/memory.rs
index e485df2..51ddd31 100644
--- a/wastrumentation/src/instrument/memory.rs
+++ b/wastrumentation/src/instrument/memory.rs
@@ -370,8 +370,43 @@ impl Serialize for LoadOp {
     }
 }
 
+/// The effective address `ptr + offset` is a 33-bit sum: when it does not fit
+/// in 32 bits the access is out of bounds of any memory. This computes the sum
+/// onto the stack and raises the out of bounds trap itself in that case.
+fn effective_address(ptr: u32, offset: u32) -> Vec<wasabi_wasm::Instr> {
+    use wasabi_wasm::BinaryOp::{I32Add, I32LtU};
+    use wasabi_wasm::Instr::{Binary, Const, Drop, End, If, Load, Local};
+
+    let mut out_of_bounds = Memarg::default(LoadOp::I32Load8U);
+    out_of_bounds.offset = u32::MAX;
+
+    vec![
+        // []
+        Local(LocalOp::Get, ptr.into()),
+        // [ptr]
+        Local(LocalOp::Get, offset.into()),
+        // [ptr, offset]
+        Binary(I32Add),
+        // [ptr + offset]
+        Local(LocalOp::Get, ptr.into()),
+        // [ptr + offset, ptr]
+        Binary(I32LtU),
+        // [wraps]
+        If(FunctionType::new(&[], &[])),
+        Const(Val::I32(-1)),
+        Load(LoadOp::I32Load8U, out_of_bounds),
+        Drop,
+        End,
+        // []
+        Local(LocalOp::Get, ptr.into()),
+        Local(LocalOp::Get, offset.into()),
+        Binary(I32Add),
+        // [ptr + offset]
+    ]
+}
+
 pub fn inject_memory_loads(module: &mut Module) {
-    use wasabi_wasm::Instr::{Binary, Const, End, Load, Local};
+    use wasabi_wasm::Instr::{Const, End, Load};
     use wasabi_wasm::LoadOp::{F32Load, F64Load, I32Load, I64Load}; // Regular
     use wasabi_wasm::LoadOp::{I32Load16S, I32Load16U, I32Load8S, I32Load8U}; // I32 Specialized
     use wasabi_wasm::LoadOp::{
@@ -414,18 +449,13 @@ pub fn inject_memory_loads(module: &mut Module) {
                 End,
             ]
         } else {
-            vec![
-                // []
-                Local(LocalOp::Get, 0_u32.into()),
-                // [ptr]
-                Local(LocalOp::Get, 1_u32.into()),
-                // [ptr, offset]
-                Binary(wasabi_wasm::BinaryOp::I32Add),
-                // [ptr + offset]
-                Load(load_op, Memarg::default(load_op)),
-                // [value]
-                End,
-            ]
+            // []
+            let mut body = effective_address(0, 1);
+            // [ptr + offset]
+            body.push(Load(load_op, Memarg::default(load_op)));
+            // [value]
+            body.push(End);
+            body
         };
 
         let memory_function_idx = module.add_function(function_type, vec![], body);
@@ -437,7 +467,7 @@ pub fn inject_memory_loads(module: &mut Module) {
 }
 
 pub fn inject_memory_stores(module: &mut Module) {
-    use wasabi_wasm::Instr::{Binary, End, Local, Store};
+    use wasabi_wasm::Instr::{End, Local, Store};
     use wasabi_wasm::StoreOp::{F32Store, F64Store, I32Store, I64Store}; // Regular
     use wasabi_wasm::StoreOp::{I32Store16, I32Store8}; // I32 Specialized
     use wasabi_wasm::StoreOp::{I64Store16, I64Store32, I64Store8}; // I64 Specialized
@@ -462,20 +492,15 @@ pub fn inject_memory_stores(module: &mut Module) {
         let body = if module.memories.is_empty() {
             vec![End]
         } else {
-            vec![
-                // []
-                Local(LocalOp::Get, 0_u32.into()),
-                // [ptr]
-                Local(LocalOp::Get, 2_u32.into()),
-                // [ptr, offset]
-                Binary(wasabi_wasm::BinaryOp::I32Add),
-                // [ptr + offset]
-                Local(LocalOp::Get, 1_u32.into()),
-                // [ptr + offset, value]
-                Store(store_op, Memarg::default(store_op)),
-                // []
-                End,
-            ]
+            // []
+            let mut body = effective_address(0, 2);
+            // [ptr + offset]
+            body.push(Local(LocalOp::Get, 1_u32.into()));
+            // [ptr + offset, value]
+            body.push(Store(store_op, Memarg::default(store_op)));
+            // []
+            body.push(End);
+            body
         };
 
         let memory_function_idx: Idx<Function> = module.add_function(function_type, vec![], body);
-- 
2.43.0


From 5bdecc33c58ab87ca2b14843ac95d7445429782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 06/15] fix: the Rust instrumentation library traps when memory
 for a frame cannot be obtained

---
 .../rust/src/generate/instrumentation/mod.rs         | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/supported-languages/rust/src/generate/instrumentation/mod.rs b/supported-languages/rust/src/generate/instrumentation/mod.rs
index 5397b69..1c96a19 100644
--- a/supported-languages/rust/src/generate/instrumentation/mod.rs
+++ b/supported-languages/rust/src/generate/instrumentation/mod.rs
@@ -574,11 +574,19 @@ const RUNTIME_TYPE_LAYOUT: Layout = unsafe {
     Layout::from_size_align_unchecked(size_of::<RuntimeType>(), align_of::<RuntimeType>())
 };
 
+#[inline(always)] #[allow(unused)]
+fn stack_allocate(layout: Layout) -> usize {
+    let ptr = unsafe { ALLOC.alloc(layout) };
+    // If allocation failed, trap
+    assert!(!ptr.is_null());
+    ptr as usize
+}
+
 #[inline(always)] #[allow(unused)]
 fn stack_allocate_types(count: usize) -> usize {
     let size = size_of::<RuntimeType>() * count;
     let layout = unsafe { Layout::from_size_align_unchecked(size, RUNTIME_TYPE_LAYOUT.align()) };
-    unsafe { ALLOC.alloc(layout) as usize }
+    stack_allocate(layout)
 }
 
 #[inline(always)] #[allow(unused)]
@@ -597,7 +605,7 @@ const WASM_VALUE_LAYOUT: Layout =
 fn stack_allocate_values(num_values: usize) -> usize {
     let size = num_values * WASM_VALUE_LAYOUT.size();
     let layout = unsafe { Layout::from_size_align_unchecked(size, WASM_VALUE_LAYOUT.align()) };
-    (unsafe { ALLOC.alloc(layout) } as usize)
+    stack_allocate(layout)
 }
 
 #[inline(always)] #[allow(unused)]
-- 
2.43.0


From 017c3bc4c5cfac79151856b8ce6be24ba9a0ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:05 +0000
Subject: [PATCH 07/15] fix: report the progress of the static analysis on
 stderr

Its result may be asked for on stdout (-o -), where the progress lines
made it unreadable.
---
 wastrumentation-static-analysis/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/lib.rs b/wastrumentation-static-analysis/src/lib.rs
index 5334756..2defc3e 100644
--- a/wastrumentation-static-analysis/src/lib.rs
+++ b/wastrumentation-static-analysis/src/lib.rs
@@ -99,7 +99,7 @@ pub fn immutable_functions(module: &Module) -> HashSet<u32> {
             break;
         } else {
             iteration += 1;
-            println!("New finding, iteration {iteration}");
+            eprintln!("New finding, iteration {iteration}");
         }
     }
 
-- 
2.43.0


From f658538d3fcc68f036d9e344e457954986b3be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:05 +0000
Subject: [PATCH 08/15] fix: write the whole static analysis result, or fail

A single write may be short, and what stdout still buffers at the end is
lost without a word if it cannot be written.
---
 wastrumentation-static-analysis/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/main.rs b/wastrumentation-static-analysis/src/main.rs
index 6a500ce..459c286 100644
--- a/wastrumentation-static-analysis/src/main.rs
+++ b/wastrumentation-static-analysis/src/main.rs
@@ -48,6 +48,7 @@ fn main() -> anyhow::Result<()> {
                     .expect("Cannot convert to usize")
         });
     }
-    let _ = output_path.write(&serde_json::ser::to_vec(&results)?)?;
+    output_path.write_all(&serde_json::ser::to_vec(&results)?)?;
+    output_path.flush()?;
     Ok(())
 }
-- 
2.43.0


From 70cb7a49ee9e5752e902a6835ca3a1073241d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:05 +0000
Subject: [PATCH 09/15] fix: fail when the instrumented module does not reach
 stdout

What stdout still buffers at the end is lost without a word if it cannot
be written.
---
 cli/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 1e8bef1..16a05eb 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -143,6 +143,7 @@ fn main() -> anyhow::Result<()> {
     .expect("Instrumenting failed");
 
     output_path.write_all(&instrumented_wasm_module)?;
+    output_path.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 985433c28db1c29d9e0a4a50fb96431a18b6c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 10/15] fix: say why the input module could not be parsed

The message spoke of instrumenting an import and left the reason out.
---
 wastrumentation/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation/src/error.rs b/wastrumentation/src/error.rs
index c5ae3e6..250e3e4 100644
--- a/wastrumentation/src/error.rs
+++ b/wastrumentation/src/error.rs
@@ -18,7 +18,7 @@ pub enum Error<AnalysisLangauge, InstrumentationLanguage> {
 
 #[derive(thiserror::Error, Debug)]
 pub enum InstrumentationError {
-    #[error("attempt to instrument an `import` function")]
+    #[error("input module could not be parsed: {0}")]
     ParseModuleError(ParseError),
     #[error("attempt to instrument inner code of an `import` function")]
     AttemptInnerInstrumentImport,
-- 
2.43.0


From 669b512caf8989bd94af2968a1e9f908460fdf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 11/15] fix: block-profiling counts the first execution of a
 target, too

---
 .../input-analyses/rust/block-profiling/src/lib.rs              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs b/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs
index 9c47b43..a9b02f6 100644
--- a/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs
@@ -15,7 +15,7 @@ fn add_block_enter(location: Location, runtime_target: i32) {
     coverage
         .entry((function_index, instruction_index, runtime_target))
         .and_modify(|c| *c += 1)
-        .or_insert(0);
+        .or_insert(1);
 }
 
 #[no_mangle]
-- 
2.43.0


From c99687d5f2f4c12e214b5889aceb30320304f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 12/15] fix: loops counts the first iteration, too

---
 benchmarking-node/input-analyses/rust/loops/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarking-node/input-analyses/rust/loops/src/lib.rs b/benchmarking-node/input-analyses/rust/loops/src/lib.rs
index c29ce85..d52149a 100644
--- a/benchmarking-node/input-analyses/rust/loops/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/loops/src/lib.rs
@@ -16,7 +16,7 @@ fn inc_instr(loc: Location) {
         .borrow_mut()
         .entry((loc.function_index(), loc.instruction_index()))
         .and_modify(|c| *c += 1)
-        .or_insert(0);
+        .or_insert(1);
 }
 
 #[no_mangle]
-- 
2.43.0


From 3fb6547812b527e28f731a4ea804cbe86f5e2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 13/15] fix: globals counts the first access of each global,
 too

---
 .../input-analyses/rust/globals/src/lib.rs    | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/benchmarking-node/input-analyses/rust/globals/src/lib.rs b/benchmarking-node/input-analyses/rust/globals/src/lib.rs
index 8476ca6..ee49653 100644
--- a/benchmarking-node/input-analyses/rust/globals/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/globals/src/lib.rs
@@ -11,17 +11,15 @@ struct AccessCount {
 
 fn inc_count(index: GlobalIndex, op: GlobalOp) {
     let globals = unsafe { addr_of!(GLOBALS).as_ref().unwrap() };
-    globals
-        .borrow_mut()
-        .entry(index.value())
-        .and_modify(|mana| match op {
-            GlobalOp::Get => mana.read_count += 1,
-            GlobalOp::Set => mana.write_count += 1,
-        })
-        .or_insert(AccessCount {
-            read_count: 0,
-            write_count: 0,
-        });
+    let mut globals = globals.borrow_mut();
+    let mana = globals.entry(index.value()).or_insert(AccessCount {
+        read_count: 0,
+        write_count: 0,
+    });
+    match op {
+        GlobalOp::Get => mana.read_count += 1,
+        GlobalOp::Set => mana.write_count += 1,
+    }
 }
 
 const READ_WRITE_SERIALIZATION_FAILED: i32 = -1;
-- 
2.43.0


From 17785fc180bb3f501e34db8418d435f678e3535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 14/15] fix: icount counts the first instruction of each
 function and reports each kind's own count

---
 benchmarking-node/input-analyses/rust/icount/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/benchmarking-node/input-analyses/rust/icount/src/lib.rs b/benchmarking-node/input-analyses/rust/icount/src/lib.rs
index 6866f31..828174e 100644
--- a/benchmarking-node/input-analyses/rust/icount/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/icount/src/lib.rs
@@ -16,8 +16,7 @@ fn inc_instr(loc: Location, instruction_kind: Instruction) {
     counts
         .borrow_mut()
         .entry(loc.function_index())
-        .and_modify(|map| map[instruction_kind] += 1)
-        .or_insert(EnumMap::new_default());
+        .or_insert_with(EnumMap::new_default)[instruction_kind] += 1;
 }
 
 #[rustfmt::skip]
@@ -40,8 +39,7 @@ pub fn get_count_for(f_idx: i64, serialized_index: i32) -> i32 {
         .get(&f_idx)
         .map(|map| {
             *map.iter()
-                .step_by(serialized_index as usize)
-                .next()
+                .nth(serialized_index as usize)
                 .unwrap_or(&ERROR_INSTRUCTION_INDEX_DOES_NOT_EXIST)
         })
         .unwrap_or(ERROR_FUNCTION_INDEX_DOES_NOT_EXIST)
-- 
2.43.0


From 46a33433422b183bd11650ddd3cf9c39f1fc6419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 15/15] fix: call-stack analyses take the location the advice
 passes, so that they compile

---
 .../rust/call-stack-eq-wasabi/src/lib.rs           | 14 +++++++++-----
 .../rust/call-stack-wastrumentation/src/lib.rs     | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs b/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs
index 86cfbcb..089ea9f 100644
--- a/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs
@@ -1,7 +1,7 @@
 #![no_std]
 
 extern crate wastrumentation_rs_stdlib;
-use wastrumentation_rs_stdlib::{advice, FunctionIndex, FunctionTable, FunctionTableIndex};
+use wastrumentation_rs_stdlib::{advice, FunctionIndex, FunctionTable, FunctionTableIndex, Location};
 
 #[no_mangle]
 pub extern "C" fn get_number_of_calls() -> i32 {
@@ -24,8 +24,9 @@ static mut CALL_STACK: i32 = 0;
 
 advice! {
     call pre
-    (f: FunctionIndex) {
+    (f: FunctionIndex, location: Location) {
         let _ = f;
+        let _ = location;
         unsafe {
             /* [1] */
             CALL_STACK += 1
@@ -43,8 +44,9 @@ advice! {
 
 advice! {
     call post
-    (f: FunctionIndex) {
+    (f: FunctionIndex, location: Location) {
         let _ = f;
+        let _ = location;
         unsafe {
             CALL_STACK -= 1;
         };
@@ -53,8 +55,9 @@ advice! {
 
 advice! {
     call_indirect pre
-    (table_f_idx: FunctionTableIndex, table: FunctionTable) {
+    (table_f_idx: FunctionTableIndex, table: FunctionTable, location: Location) {
         let _ = table;
+        let _ = location;
         unsafe {
             /* [1] */
             CALL_STACK += 1
@@ -73,8 +76,9 @@ advice! {
 
 advice! {
     call_indirect post
-    (table: FunctionTable) {
+    (table: FunctionTable, location: Location) {
         let _ = table;
+        let _ = location;
         unsafe {
             CALL_STACK -= 1;
         };
diff --git a/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs b/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs
index 9e6b38f..7d72312 100644
--- a/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs
@@ -2,7 +2,7 @@
 
 extern crate wastrumentation_rs_stdlib;
 use wastrumentation_rs_stdlib::{
-    advice, FunctionIndex, FunctionTable, FunctionTableIndex, MutDynArgs, MutDynResults,
+    advice, FunctionIndex, FunctionTable, FunctionTableIndex, Location, MutDynArgs, MutDynResults,
     WasmFunction,
 };
 
@@ -44,8 +44,9 @@ static mut CALL_STACK: i32 = 0;
 
 advice! {
     call pre
-    (f: FunctionIndex) {
+    (f: FunctionIndex, location: Location) {
         let _ = f;
+        let _ = location;
         unsafe {
             /* [1] */
             CALL_STACK += 1
@@ -63,8 +64,9 @@ advice! {
 
 advice! {
     call post
-    (f: FunctionIndex) {
+    (f: FunctionIndex, location: Location) {
         let _ = f;
+        let _ = location;
         unsafe {
             CALL_STACK -= 1;
         }
@@ -73,8 +75,9 @@ advice! {
 
 advice! {
     call_indirect pre
-    (table_f_idx: FunctionTableIndex, table: FunctionTable) {
+    (table_f_idx: FunctionTableIndex, table: FunctionTable, location: Location) {
         let _ = table;
+        let _ = location;
         unsafe {
             /* [1] */
             CALL_STACK += 1
@@ -93,8 +96,9 @@ advice! {
 
 advice! {
     call_indirect post
-    (table: FunctionTable) {
+    (table: FunctionTable, location: Location) {
         let _ = table;
+        let _ = location;
         unsafe {
             CALL_STACK -= 1;
         };
-- 
2.43.0

