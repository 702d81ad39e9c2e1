From de5a2120d470026404dcee7de280996ebc113575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 01/59] fix: Resume at EOF when ON ERROR RESUME NEXT runs out
 of statements

The last statement of a program has no successor, so the VM jumped past the end
of the image and panicked on the next instruction fetch.
---
 core/src/vm/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 6b6490b..f450d1b 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -350,7 +350,8 @@ impl Vm {
                 true
             }
             ErrorHandler::ResumeNext => {
-                let mut next_pc = image.code.len();
+                // If there are no more statements, resume at the EOF instruction.
+                let mut next_pc = image.code.len() - 1;
                 for (idx, meta) in image.debug_info.instrs.iter().enumerate().skip(pc + 1) {
                     if meta.is_stmt_start {
                         next_pc = idx;
-- 
2.43.0


From 228827df6eabd8b93b08e4db2903920d4efe06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 02/59] fix: Make ON ERROR RESUME NEXT resume within the
 enclosing block

When the last statement of a block failed, the next statement start was found in
whatever code followed the block: an ELSE branch, another CASE body, the code
after a loop, or the body of a following SUB.  Mark the instructions that leave
or repeat blocks as statement boundaries so that execution resumes there.
---
 core/src/compiler/top.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 670dba7..0815f34 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -477,7 +477,9 @@ fn compile_select(
         }
 
         if case.has_next_case {
-            end_jumps.push(ctx.codegen.emit(bytecode::make_nop(), end_pos));
+            let end_jump = ctx.codegen.emit(bytecode::make_nop(), end_pos);
+            ctx.codegen.mark_statement_start(end_jump);
+            end_jumps.push(end_jump);
         }
     }
 
@@ -518,7 +520,8 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             let end_pos = LineCol { line: 0, col: 0 };
             let target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(end_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(target), end_pos);
+            let loop_pc = ctx.codegen.emit(bytecode::make_jump(target), end_pos);
+            ctx.codegen.mark_statement_start(loop_pc);
             ctx.codegen.next_pc()
         }
 
@@ -537,7 +540,8 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             }
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            let loop_pc = ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            ctx.codegen.mark_statement_start(loop_pc);
             let end_addr = ctx.codegen.next_pc();
             let end_target =
                 u16::try_from(end_addr).map_err(|_| Error::TargetTooFar(guard_pos, end_addr))?;
@@ -555,7 +559,8 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             }
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-            ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            let loop_pc = ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+            ctx.codegen.mark_statement_start(loop_pc);
             let end_addr = ctx.codegen.next_pc();
             let end_target =
                 u16::try_from(end_addr).map_err(|_| Error::TargetTooFar(guard_pos, end_addr))?;
@@ -568,7 +573,9 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             for stmt in span.body {
                 compile_stmt(ctx, symtable, stmt)?;
             }
+            let guard_pc = ctx.codegen.next_pc();
             let (cond_reg, guard_pos) = compile_guard(ctx, symtable, guard)?;
+            ctx.codegen.mark_statement_start(guard_pc);
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
             ctx.codegen.emit(bytecode::make_jump_if_false(cond_reg, start_target), guard_pos);
@@ -580,7 +587,9 @@ fn compile_do(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: DoSpan)
             for stmt in span.body {
                 compile_stmt(ctx, symtable, stmt)?;
             }
+            let guard_pc = ctx.codegen.next_pc();
             let (cond_reg, guard_pos) = compile_guard(ctx, symtable, guard)?;
+            ctx.codegen.mark_statement_start(guard_pc);
             let jump_end_pc = ctx.codegen.emit(bytecode::make_nop(), guard_pos);
             let start_target =
                 u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
@@ -651,11 +660,13 @@ fn compile_for(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: ForSpa
         compile_stmt(ctx, symtable, stmt)?;
     }
 
+    let next_pc = ctx.codegen.next_pc();
     compile_assignment(
         &mut ctx.codegen,
         symtable,
         AssignmentSpan { vref: span.iter, vref_pos: span.iter_pos, expr: span.next },
     )?;
+    ctx.codegen.mark_statement_start(next_pc);
 
     let start_target =
         u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(cond_pos, start_pc))?;
@@ -704,6 +715,7 @@ fn compile_if(ctx: &mut Context, symtable: &mut LocalSymtable<'_>, span: IfSpan)
 
         if !is_last {
             let end_pc = ctx.codegen.emit(bytecode::make_nop(), guard_pos);
+            ctx.codegen.mark_statement_start(end_pc);
             end_pcs.push(end_pc);
         }
 
@@ -746,7 +758,8 @@ fn compile_while(
 
     let start_target =
         u16::try_from(start_pc).map_err(|_| Error::TargetTooFar(guard_pos, start_pc))?;
-    ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+    let loop_pc = ctx.codegen.emit(bytecode::make_jump(start_target), guard_pos);
+    ctx.codegen.mark_statement_start(loop_pc);
 
     let end_addr = ctx.codegen.next_pc();
     let end_target =
@@ -1124,6 +1137,7 @@ fn compile_user_callable(
     }
 
     let skip_pc = ctx.codegen.emit(bytecode::make_nop(), callable.name_pos);
+    ctx.codegen.mark_statement_start(skip_pc);
 
     let start_pc = ctx.codegen.next_pc();
 
@@ -1173,6 +1187,7 @@ fn compile_user_callable(
     }
 
     let return_addr = ctx.codegen.emit(bytecode::make_return(), callable.end_pos);
+    ctx.codegen.mark_statement_start(return_addr);
     for (addr, pos) in ctx.callable_exit_jumps.drain(..) {
         let target =
             u16::try_from(return_addr).map_err(|_| Error::TargetTooFar(pos, return_addr))?;
-- 
2.43.0


From 093ace8443dd7d80394474a3e4ba4997e9ee7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 03/59] fix: Do not clobber caller registers when calling
 argless functions

Argless user-defined functions were called with their frame on top of the
destination register of the expression, so the callee overwrote all variables of
the caller that came after it (and could not be assigned to a global at all).
---
 core/src/compiler/exprs.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/exprs.rs b/core/src/compiler/exprs.rs
index d965243..c59ebec 100644
--- a/core/src/compiler/exprs.rs
+++ b/core/src/compiler/exprs.rs
@@ -709,8 +709,23 @@ pub(super) fn compile_expr(
                 }
 
                 if md.is_user_defined() {
+                    // The frame of the callee starts at the register that receives the return
+                    // value and extends past it, so this register must come after all other
+                    // registers in use by the caller.
+                    let mut scope = symtable.temp_scope();
+                    let first = scope.first().map_err(|e| Error::from_syms(e, span.pos))?;
+                    let (is_global, index) = reg.to_parts();
+                    let (_, first_index) = first.to_parts();
+                    let ret_reg = if !is_global && index + 1 == first_index {
+                        reg
+                    } else {
+                        scope.alloc().map_err(|e| Error::from_syms(e, span.pos))?
+                    };
                     let addr = codegen.emit(bytecode::make_nop(), span.pos);
-                    codegen.add_fixup(addr, Fixup::Call(reg, key));
+                    codegen.add_fixup(addr, Fixup::Call(ret_reg, key));
+                    if ret_reg != reg {
+                        codegen.emit(bytecode::make_move(reg, ret_reg), span.pos);
+                    }
                 } else {
                     let upcall = codegen.get_upcall(key, Some(etype), span.pos)?;
                     let (is_global, _) = reg.to_parts();
-- 
2.43.0


From d465997e9d68864a6bb1cbb408c1b3776c6ab759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 04/59] fix: Unwind callable frames when errors or END abandon
 them

An END or an uncaught error within a callable left its frame active, so code
executed afterwards in the same session accessed the wrong variables.  The same
happened to ON ERROR GOTO handlers, which ran in the scope of the callable that
failed instead of in the scope that defined the handler.
---
 core/src/vm/context.rs | 26 ++++++++++++++++++++++++++
 core/src/vm/mod.rs     |  2 ++
 2 files changed, 28 insertions(+)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index c7ef659..8c8eac5 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -179,6 +179,9 @@ pub(super) struct Context {
     /// Current error handler configuration.
     err_handler: ErrorHandler,
 
+    /// Number of callable frames in `call_stack` when `err_handler` was set.
+    err_handler_calls: usize,
+
     /// Register values.  The first N registers hold global variables.  After those, we find
     /// the registers for all local variables and for all scopes.
     regs: Vec<u64>,
@@ -207,6 +210,7 @@ impl Context {
             fp: usize::from(Register::MAX_GLOBAL),
             stop: None,
             err_handler: ErrorHandler::None,
+            err_handler_calls: 0,
             regs: vec![0; usize::from(Register::MAX)],
             call_stack: vec![],
             max_call_stack,
@@ -245,6 +249,27 @@ impl Context {
         self.regs[index] = value;
     }
 
+    /// Unwinds all frames so that execution continues in the program scope.
+    pub(super) fn unwind(&mut self) {
+        self.call_stack.clear();
+        self.fp = usize::from(Register::MAX_GLOBAL);
+    }
+
+    /// Unwinds the frames of the callables entered after the current jump-based error handler
+    /// was set so that the handler runs in the scope where it was defined.
+    pub(super) fn unwind_to_error_handler(&mut self) {
+        let is_call = |frame: &Frame| frame.ret_reg.is_some();
+        let calls = self.call_stack.iter().filter(|frame| is_call(frame)).count();
+        for _ in self.err_handler_calls..calls {
+            while let Some(frame) = self.call_stack.pop() {
+                if is_call(&frame) {
+                    self.fp = frame.old_fp;
+                    break;
+                }
+            }
+        }
+    }
+
     /// Sets the program counter to `pc`.
     pub(super) fn set_pc(&mut self, pc: Address) {
         self.pc = pc;
@@ -1080,6 +1105,7 @@ impl Context {
             }
             ErrorHandlerMode::ResumeNext => ErrorHandler::ResumeNext,
         };
+        self.err_handler_calls = self.call_stack.iter().filter(|f| f.ret_reg.is_some()).count();
         self.pc += 1;
     }
 
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index f450d1b..1ca2515 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -298,6 +298,7 @@ impl Vm {
     /// Parks execution at the current EOF instruction so later appended code can resume.
     fn park_at_eof(&mut self, image: &Image) {
         debug_assert!(!image.code.is_empty());
+        self.context.unwind();
         self.context.set_pc(image.code.len() - 1);
     }
 
@@ -346,6 +347,7 @@ impl Vm {
             ErrorHandler::Jump { active: true, .. } => false,
             ErrorHandler::Jump { active: false, addr } => {
                 self.context.set_error_handler_active();
+                self.context.unwind_to_error_handler();
                 self.context.set_pc(addr);
                 true
             }
-- 
2.43.0


From 3ee73eec8a8bd86546d4316947608346ec6d7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 05/59] fix: Yield when an ON ERROR GOTO handler jumps
 backwards

A handler placed before the failing statement can form a loop just like GOTO
does, and that loop could not be interrupted.
---
 core/src/vm/context.rs | 8 ++++++++
 core/src/vm/mod.rs     | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 8c8eac5..2562bf6 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -275,6 +275,14 @@ impl Context {
         self.pc = pc;
     }
 
+    /// Continues execution at `addr` after a jump from `pc`, yielding if the jump goes backwards.
+    pub(super) fn jump_to(&mut self, pc: Address, addr: Address) {
+        self.pc = addr;
+        if addr <= pc {
+            self.yield_pending = true;
+        }
+    }
+
     /// Returns the current error handler configuration.
     pub(super) fn error_handler(&self) -> ErrorHandler {
         self.err_handler
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 1ca2515..e5b3eb7 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -348,7 +348,7 @@ impl Vm {
             ErrorHandler::Jump { active: false, addr } => {
                 self.context.set_error_handler_active();
                 self.context.unwind_to_error_handler();
-                self.context.set_pc(addr);
+                self.context.jump_to(pc, addr);
                 true
             }
             ErrorHandler::ResumeNext => {
-- 
2.43.0


From 537c30632e8384a6a2e3965964b667cc31dc3873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 06/59] fix: Yield after returning from functions and
 subroutines

Recursive callables can run for an unbounded amount of time without any loops
and, unlike GOSUB, they could not be interrupted.
---
 core/src/vm/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 2562bf6..dc7b803 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -1099,8 +1099,8 @@ impl Context {
         } else {
             self.pc = frame.old_pc + 1;
             self.fp = frame.old_fp;
-            self.yield_pending = true;
         }
+        self.yield_pending = true;
     }
 
     /// Implements the `SetErrorHandler` opcode.
-- 
2.43.0


From fb715db0232ac38f37f2396a97399ef5eeb8625f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 07/59] fix: Report the first unknown label in program order

Fixups were drained in hash order so programs with more than one bad reference
failed with a different error in each run.
---
 core/src/compiler/codegen.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 45505bf..0399a1f 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -23,7 +23,7 @@ use crate::compiler::{Error, Result, SymbolKey};
 use crate::image::{GlobalVarInfo, Image, ImageDelta, InstrMetadata};
 use crate::mem::ConstantDatum;
 use crate::reader::LineCol;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 
 /// Alias for instruction addresses in the generated code.
@@ -56,7 +56,7 @@ pub(super) struct Codegen {
     constants: HashMapWithIds<ConstantDatum, ExprType, u16>,
 
     /// Collection of fixups to apply after code generation.
-    fixups: HashMap<Address, Fixup>,
+    fixups: BTreeMap<Address, Fixup>,
 
     /// Per-instruction metadata for every instruction in `code`.
     instrs: Vec<InstrMetadata>,
@@ -199,7 +199,7 @@ impl Codegen {
 
     /// Applies all registered fixups to the generated code.
     fn apply_fixups(&mut self) -> Result<()> {
-        for (addr, fixup) in self.fixups.drain() {
+        for (addr, fixup) in std::mem::take(&mut self.fixups) {
             let pos = self.instrs[addr].linecol;
             let instr = match fixup {
                 Fixup::Call(reg, key) => {
-- 
2.43.0


From 41bec31d18135e70b099d9db6b2085fda3662caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 08/59] fix: Report calls to declared but undefined callables

Calling a callable that had only been DECLAREd panicked the compiler.
---
 core/src/compiler/codegen.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 0399a1f..1080097 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -16,7 +16,7 @@
 
 //! Code generation for the EndBASIC compiler.
 
-use crate::ast::ExprType;
+use crate::ast::{ExprType, VarRef};
 use crate::bytecode::{self, ErrorHandlerMode, Register};
 use crate::compiler::ids::HashMapWithIds;
 use crate::compiler::{Error, Result, SymbolKey};
@@ -203,8 +203,10 @@ impl Codegen {
             let pos = self.instrs[addr].linecol;
             let instr = match fixup {
                 Fixup::Call(reg, key) => {
-                    let (target, _end) =
-                        self.user_callables_addresses.get(&key).expect("Must be present");
+                    let Some((target, _end)) = self.user_callables_addresses.get(&key) else {
+                        let vref = VarRef::new(key.to_string(), None);
+                        return Err(Error::UndefinedSymbol(pos, vref));
+                    };
                     bytecode::make_call(reg, Self::make_target(*target, pos)?)
                 }
                 Fixup::Gosub(label) => {
-- 
2.43.0


From f9c501b397d95f1ad0e81c243e4626feca8f04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 09/59] fix: Reject callables with duplicate parameter names

A parameter that repeated the name of another parameter, or the name of the
function itself, panicked the compiler.
---
 core/src/compiler/top.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 0815f34..f9ccba2 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1173,7 +1173,10 @@ fn compile_user_callable(
         ctx.codegen.emit(bytecode::make_load_integer(ret_reg, value), key_pos);
     }
     for param in callable.params {
-        let key = SymbolKey::from(param.name);
+        let key = SymbolKey::from(&param.name);
+        if symtable.contains_local(&key) {
+            return Err(Error::AlreadyDefined(key_pos, param));
+        }
         symtable
             .put_local(
                 key.clone(),
-- 
2.43.0


From 651351ae28fb54a29aed89f032b92405aee29e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 10/59] fix: Report out of range negative literals in DATA and
 STEP

Negating &x80000000 overflowed in the parser.
---
 core/src/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 30e75d6..bc73a2e 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -43,6 +43,11 @@ impl From<(LineCol, io::Error)> for Error {
 /// Result for parser return values.
 pub type Result<T> = std::result::Result<T, Error>;
 
+/// Negates the integer literal `i` located at `pos`.
+fn negate_literal(i: i32, pos: LineCol) -> Result<i32> {
+    i.checked_neg().ok_or_else(|| Error::Bad(pos, format!("Bad integer -{}: out of range", i)))
+}
+
 /// Transforms a `VarRef` into an unannotated name.
 ///
 /// This is only valid for references that have no annotations in them.
@@ -479,7 +484,7 @@ impl<'a> Parser<'a> {
                             pos: token_span.pos,
                         }))),
                         Token::Integer(i) => values.push(Some(Expr::Integer(IntegerSpan {
-                            value: -i,
+                            value: negate_literal(i, token_span.pos)?,
                             pos: token_span.pos,
                         }))),
                         _ => {
@@ -1234,9 +1239,10 @@ impl<'a> Parser<'a> {
                     }
                     Token::Integer(i) => {
                         let peeked = self.lexer.consume_peeked();
+                        let i = negate_literal(i, peeked.pos)?;
                         Ok((
-                            Expr::Integer(IntegerSpan { value: -i, pos: peeked.pos }),
-                            (-i).cmp(&0),
+                            Expr::Integer(IntegerSpan { value: i, pos: peeked.pos }),
+                            i.cmp(&0),
                             false,
                         ))
                     }
-- 
2.43.0


From 60541e3f5484a8f489dafcd587a6d461446ae66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 11/59] fix: Reject dimension 0 in LBOUND and UBOUND

Dimensions are 1-indexed and UBOUND panicked when asked for dimension 0.
---
 std/src/arrays.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/arrays.rs b/std/src/arrays.rs
index 9b806f4..19ccff2 100644
--- a/std/src/arrays.rs
+++ b/std/src/arrays.rs
@@ -37,7 +37,7 @@ fn parse_bound_args(scope: &Scope<'_>) -> CallResult<(Vec<usize>, usize)> {
     if scope.nargs() == 2 {
         let i = scope.get_integer(1);
 
-        if i < 0 {
+        if i <= 0 {
             return Err(CallError::Syntax(
                 scope.get_pos(1),
                 format!("Dimension {} must be positive", i),
-- 
2.43.0


From 4f265ecde945166567923116b3930ab88e3a08f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 12/59] fix: Report arrays that do not fit in memory as errors

The total size of an array could overflow, and failing to allocate it aborted
the whole process.
---
 core/src/vm/context.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index dc7b803..baabd38 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -22,7 +22,7 @@ use crate::bytecode::{
     self, ErrorHandlerMode, ExitCode, Opcode, Register, TaggedRegisterRef, opcode_of,
 };
 use crate::image::Image;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum};
+use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError};
 use crate::num::unchecked_usize_as_u8;
 use crate::reader::LineCol;
 
@@ -663,9 +663,20 @@ impl Context {
                 Ok(n) => n,
             };
             dimensions.push(dim);
-            total *= dim;
+            total = match total.checked_mul(dim) {
+                Some(total) => total,
+                None => {
+                    self.set_exception(HeapOverflowError.to_string());
+                    return;
+                }
+            };
         }
 
+        // Check that the memory is available first because `vec!` aborts when it is not.
+        if Vec::<u64>::new().try_reserve_exact(total).is_err() {
+            self.set_exception(HeapOverflowError.to_string());
+            return;
+        }
         let values = match subtype {
             ExprType::Boolean | ExprType::Double | ExprType::Integer => {
                 vec![0; total]
-- 
2.43.0


From bdccca965d3c273e1dd6460578e4501ba37e0867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 13/59] fix: Hide partial results of shared variables from
 user-defined functions

Assignments to a shared variable computed their expression directly on it, so a
function called from within that expression saw and could alter partial results.
---
 core/src/compiler/top.rs | 48 +++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index f9ccba2..b329f40 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -105,18 +105,19 @@ fn static_end_code(expr: &Expr) -> Option<(i32, LineCol)> {
     }
 }
 
-/// Returns true if `expr` references `target_key`.
-fn expr_references_symbol(expr: &Expr, target_key: &SymbolKey) -> bool {
+/// Returns true if any part of `expr` satisfies `predicate`.
+fn any_subexpr<P: Fn(&Expr) -> bool>(expr: &Expr, predicate: P) -> bool {
     let mut stack = vec![expr];
     while let Some(expr) = stack.pop() {
+        if predicate(expr) {
+            return true;
+        }
         match expr {
-            Expr::Boolean(..) | Expr::Double(..) | Expr::Integer(..) | Expr::Text(..) => {}
-
-            Expr::Symbol(span) => {
-                if SymbolKey::from(&span.vref.name) == *target_key {
-                    return true;
-                }
-            }
+            Expr::Boolean(..)
+            | Expr::Double(..)
+            | Expr::Integer(..)
+            | Expr::Symbol(..)
+            | Expr::Text(..) => {}
 
             Expr::Negate(span) | Expr::Not(span) => {
                 stack.push(&span.expr);
@@ -155,6 +156,27 @@ fn expr_references_symbol(expr: &Expr, target_key: &SymbolKey) -> bool {
     false
 }
 
+/// Returns true if `expr` references `target_key`.
+fn expr_references_symbol(expr: &Expr, target_key: &SymbolKey) -> bool {
+    any_subexpr(expr, |expr| match expr {
+        Expr::Symbol(span) => SymbolKey::from(&span.vref.name) == *target_key,
+        _ => false,
+    })
+}
+
+/// Returns true if `expr` calls any user-defined callables.
+fn expr_calls_user_callable(expr: &Expr, symtable: &LocalSymtable<'_>) -> bool {
+    any_subexpr(expr, |expr| {
+        let vref = match expr {
+            Expr::Call(span) => &span.vref,
+            Expr::Symbol(span) => &span.vref,
+            _ => return false,
+        };
+        let key = SymbolKey::from(&vref.name);
+        symtable.get_callable(&key).is_some_and(|md| md.is_user_defined())
+    })
+}
+
 /// Compiles an assignment statement `span` into the `codegen` block.
 fn compile_assignment(
     codegen: &mut Codegen,
@@ -190,7 +212,13 @@ fn compile_assignment(
         Err(e) => return Err(Error::from_syms(e, vref_pos)),
     };
 
-    let has_self_reference = was_defined && expr_references_symbol(&expr, &key);
+    // User-defined callables can access global variables, so they must not see partial results
+    // when they are called from within a larger expression.
+    let (is_global, _) = reg.to_parts();
+    let is_compound = !matches!(expr, Expr::Call(..) | Expr::Symbol(..));
+    let has_self_reference = was_defined
+        && (expr_references_symbol(&expr, &key)
+            || (is_global && is_compound && expr_calls_user_callable(&expr, symtable)));
 
     if let Some(etype) = etype {
         // The destination variable already exists.  Try to compile the expression into its target
-- 
2.43.0


From 435fab8081e8853e386ff9e6e54b2d7b55c5ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 14/59] fix: Match callable declarations case-insensitively

The names of the parameters in a DECLARE had to match the definition in case even
though identifiers are case-insensitive.
---
 core/src/compiler/syms.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/syms.rs b/core/src/compiler/syms.rs
index d780b99..4e8849e 100644
--- a/core/src/compiler/syms.rs
+++ b/core/src/compiler/syms.rs
@@ -206,8 +206,11 @@ impl GlobalSymtable {
         if self.globals.get(&key).is_some() {
             return Err(Error::AlreadyDefined(vref.clone()));
         }
+        // Parameter names are part of the signature but, like any other identifier, they are
+        // case-insensitive.
         if let Some(previous_md) = self.user_callables.insert(key.clone(), md.clone())
-            && previous_md != md
+            && (previous_md.return_type() != md.return_type()
+                || !previous_md.syntax().eq_ignore_ascii_case(&md.syntax()))
         {
             return Err(Error::AlreadyDefined(vref.clone()));
         }
-- 
2.43.0


From 4299c04ecd33f80385d2ce8cdfbccdc379712231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 15/59] fix: Drop pending GOSUB frames when reaching the end of
 the program

A RETURN in a later chunk executed code from an earlier one if the latter reached its
end from within a GOSUB.
---
 core/src/vm/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index e5b3eb7..82981d7 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -456,7 +456,10 @@ impl Vm {
                     self.park_at_eof(image);
                     return StopReason::End(code);
                 }
-                InternalStopReason::Eof => return StopReason::Eof,
+                InternalStopReason::Eof => {
+                    self.context.unwind();
+                    return StopReason::Eof;
+                }
                 InternalStopReason::Exception(pc, e) => {
                     let pos = image.debug_info.instrs[pc].linecol;
                     if !self.handle_exception(image, pc, pos, e.clone()) {
-- 
2.43.0


From 1461e61761c33bc8898ba00e155dd2442d967c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:32 +0000
Subject: [PATCH 16/59] fix: Report the first error within IF and SELECT
 statements

---
 core/src/parser.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index bc73a2e..024c4e0 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -1181,14 +1181,17 @@ impl<'a> Parser<'a> {
     }
 
     /// Advances until the next statement after failing to parse an `IF` statement.
-    fn reset_if(&mut self, if_pos: LineCol) -> Result<()> {
+    fn reset_if(&mut self) -> Result<()> {
         loop {
             match self.lexer.peek()?.token {
                 Token::Eof => break,
                 Token::End => {
+                    // The statement may contain END statements, so look for its own end.
                     self.lexer.consume_peeked();
-                    self.expect_and_consume_with_pos(Token::If, if_pos, "IF without END IF")?;
-                    break;
+                    if self.lexer.peek()?.token == Token::If {
+                        self.lexer.consume_peeked();
+                        break;
+                    }
                 }
                 _ => {
                     self.lexer.consume_peeked();
@@ -1790,18 +1793,17 @@ impl<'a> Parser<'a> {
     }
 
     /// Advances until the next statement after failing to parse a `SELECT` statement.
-    fn reset_select(&mut self, select_pos: LineCol) -> Result<()> {
+    fn reset_select(&mut self) -> Result<()> {
         loop {
             match self.lexer.peek()?.token {
                 Token::Eof => break,
                 Token::End => {
+                    // The statement may contain END statements, so look for its own end.
                     self.lexer.consume_peeked();
-                    self.expect_and_consume_with_pos(
-                        Token::Select,
-                        select_pos,
-                        "SELECT without END SELECT",
-                    )?;
-                    break;
+                    if self.lexer.peek()?.token == Token::Select {
+                        self.lexer.consume_peeked();
+                        break;
+                    }
                 }
                 _ => {
                     self.lexer.consume_peeked();
@@ -1905,7 +1907,7 @@ impl<'a> Parser<'a> {
             Token::If => {
                 let result = self.parse_if(token_span.pos);
                 if result.is_err() {
-                    self.reset_if(token_span.pos)?;
+                    self.reset_if()?;
                 }
                 Ok(Some(result?))
             }
@@ -1947,7 +1949,7 @@ impl<'a> Parser<'a> {
             Token::Select => {
                 let result = self.parse_select(token_span.pos);
                 if result.is_err() {
-                    self.reset_select(token_span.pos)?;
+                    self.reset_select()?;
                 }
                 Ok(Some(result?))
             }
-- 
2.43.0


From 860d0c7785033fc1ab491344e8bdcef79559f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 17/59] fix: Make MAX and MIN handle infinities and NaN

---
 std/src/numerics.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index ff527fb..36a3142 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -648,12 +648,9 @@ impl Callable for MaxFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut max = f64::MIN;
-        for i in 0..(scope.nargs() as u8) {
-            let n = scope.get_double(i);
-            if n > max {
-                max = n;
-            }
+        let mut max = scope.get_double(0);
+        for i in 1..(scope.nargs() as u8) {
+            max = max.max(scope.get_double(i));
         }
         scope.return_double(max)
     }
@@ -693,12 +690,9 @@ impl Callable for MinFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut min = f64::MAX;
-        for i in 0..(scope.nargs() as u8) {
-            let n = scope.get_double(i);
-            if n < min {
-                min = n;
-            }
+        let mut min = scope.get_double(0);
+        for i in 1..(scope.nargs() as u8) {
+            min = min.min(scope.get_double(i));
         }
         scope.return_double(min)
     }
-- 
2.43.0


From 43af97102f11f25dfb846c3753f58f28d9371b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 18/59] fix: Make ROUND handle positions beyond the range of
 doubles

---
 std/src/numerics.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index 36a3142..1f53255 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -948,7 +948,17 @@ impl Callable for RoundFunction {
             debug_assert_eq!(2, scope.nargs());
             let decimals = scope.get_integer(1);
             let factor = 10f64.powi(decimals);
-            scope.return_double((value * factor).round() / factor)
+            let scaled = value * factor;
+            let rounded = if !scaled.is_finite() {
+                // All digits of the value are more significant than the requested position.
+                value
+            } else if factor == 0.0 {
+                // All digits of the value are less significant than the requested position.
+                0.0
+            } else {
+                scaled.round() / factor
+            };
+            scope.return_double(rounded)
         }
     }
 }
-- 
2.43.0


From 03ff41c067c770d80390272d89bd92d92949ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:50 +0000
Subject: [PATCH 19/59] fix: Do not create the target of a drive that cannot be
 mounted

Mounting a file:// target under an invalid or already-used drive name failed
but left the target directory behind.
---
 std/src/storage/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/std/src/storage/mod.rs b/std/src/storage/mod.rs
index 9b64ee4..488506d 100644
--- a/std/src/storage/mod.rs
+++ b/std/src/storage/mod.rs
@@ -443,6 +443,15 @@ impl Storage {
     ///
     /// The `name` must be valid and must not yet have been registered.
     fn attach(&mut self, name: &str, uri: &str, drive: Box<dyn Drive>) -> io::Result<()> {
+        let key = self.new_key(name)?;
+        let mounted_drive = MountedDrive { uri: uri.to_owned(), drive };
+        self.drives.insert(key, mounted_drive);
+        Ok(())
+    }
+
+    /// Returns the key for a new drive `name`, which must be valid and must not yet have been
+    /// registered.
+    fn new_key(&self, name: &str) -> io::Result<DriveKey> {
         let key = DriveKey::new(name)?;
         if self.drives.contains_key(&key) {
             return Err(io::Error::new(
@@ -450,9 +459,7 @@ impl Storage {
                 format!("Drive '{}' is already mounted", name),
             ));
         }
-        let mounted_drive = MountedDrive { uri: uri.to_owned(), drive };
-        self.drives.insert(DriveKey::new(name)?, mounted_drive);
-        Ok(())
+        Ok(key)
     }
 
     /// Instantiates and attaches a new `drive` with `name` that points to `uri`.
@@ -460,6 +467,8 @@ impl Storage {
     /// The `name` must be valid and must not yet have been registered.
     pub fn mount(&mut self, name: &str, uri: &str) -> io::Result<()> {
         let (scheme, path) = split_uri(uri)?;
+        // Creating a drive can have side-effects, so make sure we can attach it first.
+        self.new_key(name)?;
         let drive = match self.factories.get(&scheme.to_lowercase()) {
             Some(factory) => factory.create(path)?,
             None => {
-- 
2.43.0


From 1c164b870554417cfcb33fc6f9a8b647178a54a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:50 +0000
Subject: [PATCH 20/59] fix: Tolerate odd symlinks when listing directory
 drives

A single dangling symlink made the whole drive impossible to list, and symlinks
to directories were listed as files.
---
 std/src/storage/fs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/std/src/storage/fs.rs b/std/src/storage/fs.rs
index f725938..faa2107 100644
--- a/std/src/storage/fs.rs
+++ b/std/src/storage/fs.rs
@@ -74,7 +74,15 @@ impl Drive for DirectoryDrive {
                     // This follows symlinks for cross-platform simplicity, but it is ugly.  I don't
                     // expect symlinks in the programs directory anyway.  If we want to handle this
                     // better, we'll have to add a way to report file types.
-                    let metadata = fs::metadata(de.path())?;
+                    let metadata = match fs::metadata(de.path()) {
+                        Ok(metadata) => metadata,
+                        // Dangling symlink or file deleted since we read the directory.
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => continue,
+                        Err(e) => return Err(e),
+                    };
+                    if metadata.is_dir() {
+                        continue;
+                    }
                     let offset = match time::UtcOffset::current_local_offset() {
                         Ok(offset) => offset,
                         Err(_) => time::UtcOffset::UTC,
-- 
2.43.0


From c1e9d82c0bc26961dbe9ab7612ab1031fc433614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:32 +0000
Subject: [PATCH 21/59] fix: Measure the prompt of interactive input in
 characters

Prompts with non-ASCII characters were measured and cut in bytes, which caused a
panic when the cut split a character and misplaced the line otherwise.
---
 std/src/console/readline.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index a7fedfb..3ea21a4 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -349,15 +349,15 @@ impl<'a, 'h> Readline<'a, 'h> {
         };
 
         let mut prompt = Cow::from(prompt);
-        let mut prompt_len = prompt.len();
+        let mut prompt_len = prompt.chars().count();
         if prompt_len >= console_width {
-            // TODO(jmmv): This slices by bytes and can split non-ASCII prompts.
             if console_width >= 5 {
-                prompt = Cow::from(format!("{}...", &prompt[0..console_width - 5]));
+                let start = prompt.chars().take(console_width - 5).collect::<String>();
+                prompt = Cow::from(format!("{}...", start));
             } else {
                 prompt = Cow::from("");
             }
-            prompt_len = prompt.len();
+            prompt_len = prompt.chars().count();
         }
 
         let input_width = {
-- 
2.43.0


From 9369a86867470f1a20e353a020e70a14f3386326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:32 +0000
Subject: [PATCH 22/59] fix: Do not record aborted lines in the history

Interrupting the edition of a line left the entry used to track it behind.
---
 std/src/console/readline.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index 3ea21a4..ef32e3d 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -441,7 +441,18 @@ async fn read_line_interactive(
     mut history: Option<&mut Vec<String>>,
     echo: bool,
 ) -> io::Result<String> {
-    Readline::new(console, prompt, previous, history.take(), echo)?.run().await
+    let history_len = history.as_ref().map(|history| history.len());
+    let result = match Readline::new(console, prompt, previous, history.as_deref_mut(), echo) {
+        Ok(readline) => readline.run().await,
+        Err(e) => Err(e),
+    };
+    if result.is_err()
+        && let (Some(history), Some(history_len)) = (history, history_len)
+    {
+        // Discard the entry that tracked the line being edited.
+        history.truncate(history_len);
+    }
+    result
 }
 
 /// Reads a line of text interactively from the console, which is not expected to be a TTY.
-- 
2.43.0


From 1ca3ea5f2ed201727302b180dd19659ee1ac3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 23/59] fix: Keep the cursor in place when there is no room to
 edit a line

If the prompt leaves no space for the line, moving through the line or its
history moved the cursor out of bounds and hit a debug assertion.
---
 std/src/console/readline.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index ef32e3d..79b13d9 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -59,7 +59,7 @@ impl<'a, 'h> Readline<'a, 'h> {
 
     /// Returns the cursor offset within the currently-rendered viewport.
     fn current_pos(&self) -> usize {
-        self.pos - self.view_start
+        if self.input_width == 0 { 0 } else { self.pos - self.view_start }
     }
 
     /// Returns the text to render for the current viewport.
@@ -269,9 +269,11 @@ impl<'a, 'h> Readline<'a, 'h> {
         let old_pos = self.current_pos();
         let new_view_start = self.adjust_view(new_pos, self.view_start);
         if new_view_start == self.view_start {
-            let delta = new_pos as i16 - self.pos as i16;
-            self.console.move_within_line(delta)?;
             self.pos = new_pos;
+            let delta = self.current_pos() as i16 - old_pos as i16;
+            if delta != 0 {
+                self.console.move_within_line(delta)?;
+            }
         } else {
             let clear_len = self.rendered_len;
             self.pos = new_pos;
-- 
2.43.0


From 1088d11fc97253e3cd4f00a5591770729dbe840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:55 +0000
Subject: [PATCH 24/59] fix: Measure the indentation of new lines in characters

Copying an indentation with non-ASCII blanks placed the cursor at the wrong
column.
---
 repl/src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repl/src/editor.rs b/repl/src/editor.rs
index 2224690..417262b 100644
--- a/repl/src/editor.rs
+++ b/repl/src/editor.rs
@@ -458,7 +458,7 @@ impl Editor {
 
                 Key::NewLine | Key::CarriageReturn => {
                     let indent = copy_indent(&self.content[self.file_pos.line]);
-                    let indent_len = indent.len();
+                    let indent_len = indent.chars().count();
 
                     let appending = (self.file_pos.line + 1 == self.content.len())
                         && (self.file_pos.col == self.content[self.file_pos.line].len());
-- 
2.43.0


From be5ef3aecbaa9b3191bfe21afc4d39cf077f560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 25/59] fix: Do not draw the graphical cursor past the last
 column

---
 std/src/console/graphics.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 60f693d..30bbbe1 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -385,7 +385,9 @@ where
     ///
     /// Does not present the canvas.
     fn draw_cursor(&mut self) -> io::Result<()> {
-        if !self.cursor_visible {
+        // The cursor is past the last column right after filling a line, in which case there is no
+        // cell to draw it in.
+        if !self.cursor_visible || self.cursor_pos.x >= self.size_chars.x {
             return Ok(());
         }
 
-- 
2.43.0


From 62ddb1882c1b898f750d88537ae83c9c9613d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 26/59] fix: Do not clear empty regions of the graphical
 console

---
 std/src/console/graphics.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 30bbbe1..ef624f2 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -528,12 +528,13 @@ where
                 let pos = self.cursor_pos.clamped_mul(self.glyph_size);
                 debug_assert!(pos.x >= 0, "Inputs to pos are unsigned");
                 debug_assert!(pos.y >= 0, "Inputs to pos are unsigned");
-                let size = SizeInPixels::new(
-                    (i32::from(self.size_pixels.width) - i32::from(pos.x)).clamped_into(),
-                    self.glyph_size.height,
-                );
-                self.raster_ops.set_draw_color(self.bg_color);
-                self.raster_ops.draw_rect_filled(pos, size)?;
+                let width = (i32::from(self.size_pixels.width) - i32::from(pos.x)).clamped_into();
+                // There is nothing to clear if the cursor is past the last column.
+                if width > 0 {
+                    let size = SizeInPixels::new(width, self.glyph_size.height);
+                    self.raster_ops.set_draw_color(self.bg_color);
+                    self.raster_ops.draw_rect_filled(pos, size)?;
+                }
             }
         }
         self.draw_cursor()?;
-- 
2.43.0


From f67adbc6eacdcfe63d7757d4fb36e8a142aa08ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 27/59] fix: Do not panic when clearing the character before
 the first column

---
 std/src/console/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index ef624f2..cf20c61 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -514,8 +514,8 @@ where
                 self.cursor_pos.x = 0;
             }
             ClearType::PreviousChar => {
+                self.clear_cursor()?;
                 if self.cursor_pos.x > 0 {
-                    self.clear_cursor()?;
                     let previous_pos = CharsXY::new(self.cursor_pos.x - 1, self.cursor_pos.y);
                     let origin = previous_pos.clamped_mul(self.glyph_size);
                     self.raster_ops.set_draw_color(self.bg_color);
-- 
2.43.0


From ed09ed9a8bf8a998a4f8d4808270aec7b8d9edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 28/59] fix: Do not leave a ghost cursor behind the alternate
 console

---
 std/src/console/graphics.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index cf20c61..7a3b721 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -561,6 +561,9 @@ where
             ));
         }
 
+        // The backup must not include the cursor because the cursor is redrawn on leaving.
+        self.clear_cursor()?;
+
         let pixels = self.raster_ops.read_pixels(PixelsXY::new(0, 0), self.size_pixels)?;
         self.alt_backup = Some((
             pixels,
-- 
2.43.0


From 934c596f6d1ef9f876ee0a3fdbbda757ccd9770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 29/59] fix: Do not loop forever when filling with a color
 alias

---
 std/src/console/drawing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index e0cc905..f0ca765 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -143,6 +143,12 @@ where
 
         rasops.draw_pixel(xy)?;
 
+        // Different colors may look the same (e.g. the palette contains duplicates), in which case
+        // there is nothing to fill and we would never terminate.
+        if rasops.peek_pixel(xy)? == Some(seed_color) {
+            return Ok(());
+        }
+
         if xy.x > i16::MIN {
             pending.push(PixelsXY::new(xy.x - 1, xy.y));
         }
-- 
2.43.0


From de9a59e59e4a892b1cdad55cd803780497d3e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 30/59] fix: Avoid overflows when filling large polygons

---
 std/src/console/drawing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index f0ca765..9644a69 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -321,7 +321,9 @@ fn edge_intersection(y: i32, p1: PixelsXY, p2: PixelsXY) -> Option<i32> {
 
     let x1 = i32::from(p1.x);
     let x2 = i32::from(p2.x);
-    Some(x1 + (y - y1) * (x2 - x1) / (y2 - y1))
+    // The product of two coordinate differences may not fit in an i32.
+    let dx = i64::from(y - y1) * i64::from(x2 - x1) / i64::from(y2 - y1);
+    Some(x1 + i32::try_from(dx).expect("Intersection must be within the edge"))
 }
 
 /// Fills the poligon defined by `points` using a scanline intersection algorithm.
-- 
2.43.0


From e75c4b8d524ddb3f364e17c222bb77a3bf4fa56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 31/59] fix: Do not overflow when drawing circles near the
 coordinate limits

---
 std/src/console/drawing.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 9644a69..c4c51f8 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -199,14 +199,20 @@ where
     let mut e: i16 = tx - diameter;
 
     while x >= y {
-        point(rasops, center.x + x, center.y - y)?;
-        point(rasops, center.x + x, center.y + y)?;
-        point(rasops, center.x - x, center.y - y)?;
-        point(rasops, center.x - x, center.y + y)?;
-        point(rasops, center.x + y, center.y - x)?;
-        point(rasops, center.x + y, center.y + x)?;
-        point(rasops, center.x - y, center.y - x)?;
-        point(rasops, center.x - y, center.y + x)?;
+        // Coordinates that do not fit in the coordinate space are never visible.
+        let (xl, xr) = (center.x.saturating_sub(x), center.x.saturating_add(x));
+        let (xu, xd) = (center.y.saturating_sub(x), center.y.saturating_add(x));
+        let (yl, yr) = (center.x.saturating_sub(y), center.x.saturating_add(y));
+        let (yu, yd) = (center.y.saturating_sub(y), center.y.saturating_add(y));
+
+        point(rasops, xr, yu)?;
+        point(rasops, xr, yd)?;
+        point(rasops, xl, yu)?;
+        point(rasops, xl, yd)?;
+        point(rasops, yr, xu)?;
+        point(rasops, yr, xd)?;
+        point(rasops, yl, xu)?;
+        point(rasops, yl, xd)?;
 
         if e <= 0 {
             y += 1;
@@ -258,10 +264,16 @@ where
     let mut e: i16 = tx - diameter;
 
     while x >= y {
-        line(rasops, center.x + x, center.y - y, center.x + x, center.y + y)?;
-        line(rasops, center.x - x, center.y - y, center.x - x, center.y + y)?;
-        line(rasops, center.x + y, center.y - x, center.x + y, center.y + x)?;
-        line(rasops, center.x - y, center.y - x, center.x - y, center.y + x)?;
+        // Coordinates that do not fit in the coordinate space are never visible.
+        let (xl, xr) = (center.x.saturating_sub(x), center.x.saturating_add(x));
+        let (xu, xd) = (center.y.saturating_sub(x), center.y.saturating_add(x));
+        let (yl, yr) = (center.x.saturating_sub(y), center.x.saturating_add(y));
+        let (yu, yd) = (center.y.saturating_sub(y), center.y.saturating_add(y));
+
+        line(rasops, xr, yu, xr, yd)?;
+        line(rasops, xl, yu, xl, yd)?;
+        line(rasops, yr, xu, yr, xd)?;
+        line(rasops, yl, xu, yl, xd)?;
 
         if e <= 0 {
             y += 1;
-- 
2.43.0


From 67d991ee9878ccd7f3e59936587b59d3dbc44b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 32/59] fix: Do not paint LCD rectangles that lie past the
 right or bottom edges

---
 std/src/gfx/lcd/buffered/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index 683e16a..9caabe6 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -486,6 +486,13 @@ where
     }
 
     fn draw_rect_filled(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
+        // Clamping below would paint the last row or column if the rectangle is past them.
+        if i32::from(xy.x) >= self.size_pixels.width as i32
+            || i32::from(xy.y) >= self.size_pixels.height as i32
+        {
+            return Ok(());
+        }
+
         let x1y1 = self.clamp_xy(xy);
         let x2y2 = self.clip_x2y2(xy, size);
         match x2y2 {
-- 
2.43.0


From 2d4121375bba67ada8b0117e4a7b09541e2a1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 33/59] fix: Align PRINT fields by characters instead of bytes

---
 std/src/console/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/cmds.rs b/std/src/console/cmds.rs
index c6b1786..4971762 100644
--- a/std/src/console/cmds.rs
+++ b/std/src/console/cmds.rs
@@ -590,7 +590,7 @@ impl Callable for PrintCommand {
                 ArgSep::End => break,
                 ArgSep::Long => {
                     text += " ";
-                    while !text.len().is_multiple_of(14) {
+                    while !text.chars().count().is_multiple_of(14) {
                         text += " ";
                     }
                 }
-- 
2.43.0


From 6112c1da3898fc66f9310b80149cd97150ad12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 34/59] fix: Do not overflow when refilling text on narrow
 consoles

---
 std/src/console/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/format.rs b/std/src/console/format.rs
index 971d4cf..88b0d66 100644
--- a/std/src/console/format.rs
+++ b/std/src/console/format.rs
@@ -89,7 +89,7 @@ fn refill_many<S: AsRef<str>, P: IntoIterator<Item = S>>(
             }
         }
 
-        let lines = refill(paragraph, width - 4 - indent.len() - extra_indent.len());
+        let lines = refill(paragraph, width.saturating_sub(4 + indent.len() + extra_indent.len()));
         for line in lines {
             if line.is_empty() {
                 formatted.push(String::new());
-- 
2.43.0


From a73e95b46931ef2c63c645c45dfdb88e431b59b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 35/59] fix: Report SLEEP times that are out of range as errors

---
 std/src/datetime.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/std/src/datetime.rs b/std/src/datetime.rs
index eaa2a74..3217f92 100644
--- a/std/src/datetime.rs
+++ b/std/src/datetime.rs
@@ -153,10 +153,11 @@ impl Callable for SleepCommand {
             ));
         }
 
-        self.datetime
-            .sleep(Duration::from_secs_f64(n))
-            .await
-            .map_err(|e| CallError::Syntax(scope.get_pos(0), e))
+        let duration = Duration::try_from_secs_f64(n).map_err(|_| {
+            CallError::Syntax(scope.get_pos(0), "Sleep time out of range".to_owned())
+        })?;
+
+        self.datetime.sleep(duration).await.map_err(|e| CallError::Syntax(scope.get_pos(0), e))
     }
 }
 
-- 
2.43.0


From 56671c8f31e95aad2da881a31b5ee709991e8714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 36/59] fix: Report SOUND durations that are out of range as
 errors

---
 std/src/sound/cmds.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/std/src/sound/cmds.rs b/std/src/sound/cmds.rs
index ab3d3ef..6f1acd0 100644
--- a/std/src/sound/cmds.rs
+++ b/std/src/sound/cmds.rs
@@ -138,11 +138,10 @@ impl Callable for SoundCommand {
                 "Duration must be positive".to_owned(),
             ));
         }
+        let duration = Duration::try_from_secs_f64(duration)
+            .map_err(|_| CallError::Syntax(scope.get_pos(1), "Duration out of range".to_owned()))?;
 
-        self.console
-            .borrow_mut()
-            .play_tone(Tone::square(pitch, Duration::from_secs_f64(duration)))
-            .await?;
+        self.console.borrow_mut().play_tone(Tone::square(pitch, duration)).await?;
         Ok(())
     }
 }
-- 
2.43.0


From 895a2e6af3e7a2270fd2759707788185c4e26f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 37/59] fix: Limit the nesting of statements and expressions

---
 core/src/parser.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 024c4e0..9939f6f 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -265,16 +265,35 @@ impl ExprOpSpan {
     }
 }
 
+/// Maximum number of nested statements and expressions.  As these are parsed and compiled
+/// recursively, this limit prevents exhausting the native stack.
+const MAX_NESTING: usize = 200;
+
 /// Parser that converts a token stream into an AST of statements.
 pub struct Parser<'a> {
     /// The lexer providing tokens for parsing.
     lexer: PeekableLexer<'a>,
+
+    /// Number of nested statements and expressions being parsed.
+    nesting: usize,
 }
 
 impl<'a> Parser<'a> {
     /// Creates a new parser from the given readable.
     fn from(input: &'a mut dyn io::Read) -> Self {
-        Self { lexer: Lexer::from(input).peekable() }
+        Self { lexer: Lexer::from(input).peekable(), nesting: 0 }
+    }
+
+    /// Runs `parse` one nesting level below the current one.  Fails if that is too deep.
+    fn parse_nested<T>(&mut self, parse: fn(&mut Self) -> Result<T>) -> Result<T> {
+        if self.nesting >= MAX_NESTING {
+            let pos = self.lexer.peek()?.pos;
+            return Err(Error::Bad(pos, "Too many nested statements or expressions".to_owned()));
+        }
+        self.nesting += 1;
+        let result = parse(self);
+        self.nesting -= 1;
+        result
     }
 
     /// Expects the peeked token to be `t` and consumes it.  Otherwise, leaves the token in the
@@ -739,7 +758,7 @@ impl<'a> Parser<'a> {
 
         // The first expression is optional to support calls to functions without arguments.
         let mut is_first = true;
-        let mut prev_expr = self.parse_expr(None)?;
+        let mut prev_expr = self.parse_nested(|parser| parser.parse_expr(None))?;
 
         loop {
             let peeked = self.lexer.peek()?;
@@ -767,7 +786,7 @@ impl<'a> Parser<'a> {
                         return Err(Error::Bad(pos, "Missing expression".to_owned()));
                     }
 
-                    prev_expr = self.parse_expr(None)?;
+                    prev_expr = self.parse_nested(|parser| parser.parse_expr(None))?;
                 }
                 t => return Err(Error::Bad(pos, format!("Unexpected {}", t))),
             }
@@ -2018,7 +2037,7 @@ impl<'a> Parser<'a> {
     ///
     /// The stream is always left in a position where the next statement extraction can be tried.
     fn parse_one_safe(&mut self) -> Result<Option<Statement>> {
-        let result = self.parse_one();
+        let result = self.parse_nested(Self::parse_one);
         if result.is_err() {
             self.reset()?;
         }
-- 
2.43.0


From 6572d8bd6397976543ff13e4d12807aabcdf436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 38/59] fix: Reject missing arguments where a value of any type
 is required

---
 core/src/compiler/args.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/compiler/args.rs b/core/src/compiler/args.rs
index 5b19204..ccb9290 100644
--- a/core/src/compiler/args.rs
+++ b/core/src/compiler/args.rs
@@ -346,6 +346,9 @@ pub(super) fn compile_args(
                 let temp_tag = scope.alloc().map_err(|e| Error::from_syms(e, arg_pos))?;
                 arg_linecols.push(arg_pos);
                 let tag = match expr {
+                    None if !details.allow_missing => {
+                        return Err(Error::CallableSyntax(key_pos, md.as_ref().clone()));
+                    }
                     None => bytecode::VarArgTag::Missing(sep),
                     Some(expr) => {
                         let temp_value = scope.alloc().map_err(|e| Error::from_syms(e, arg_pos))?;
-- 
2.43.0


From 6c923fdee62d67033cdaaccdf6550567bf5e804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 39/59] fix: Reject undefined variables passed by reference to
 functions

---
 core/src/compiler/args.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/src/compiler/args.rs b/core/src/compiler/args.rs
index ccb9290..d69337f 100644
--- a/core/src/compiler/args.rs
+++ b/core/src/compiler/args.rs
@@ -465,14 +465,13 @@ pub(super) fn compile_args(
                                         md.as_ref().clone(),
                                     ));
                                 }
-                                Err(syms::Error::UndefinedSymbol(..)) => {
+                                Err(e @ syms::Error::UndefinedSymbol(..)) => {
                                     let key = SymbolKey::from(&span.vref.name);
                                     if symtable.get_callable(&key).is_some() {
                                         return Err(Error::NotAFunction(span.pos, span.vref));
                                     }
-                                    unreachable!(
-                                        "Caller must use define_new_args first for commands"
-                                    );
+                                    // Only commands can define new variables.
+                                    return Err(Error::from_syms(e, span.pos));
                                 }
                                 Err(e) => return Err(Error::from_syms(e, span.pos)),
                             };
-- 
2.43.0


From d103e802e0093a5348fdddb5650fce656a7b74a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 40/59] fix: Handle screens that fit one row of text or no text
 at all

---
 sdl/src/host.rs             | 16 +++++++++++++---
 std/src/console/graphics.rs | 16 ++++++++++++++--
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/sdl/src/host.rs b/sdl/src/host.rs
index 9d12157..c2a24f7 100644
--- a/sdl/src/host.rs
+++ b/sdl/src/host.rs
@@ -766,9 +766,19 @@ pub(crate) fn run(
     let mut ctx = SharedContext(Rc::from(RefCell::from(ctx)));
 
     let input = NoopInputOps {};
-    let mut console =
-        GraphicsConsole::new(input, ctx.clone(), NoopAudioOps, default_fg_color, default_bg_color)
-            .expect("Console initialization must succeed");
+    let mut console = match GraphicsConsole::new(
+        input,
+        ctx.clone(),
+        NoopAudioOps,
+        default_fg_color,
+        default_bg_color,
+    ) {
+        Ok(console) => console,
+        Err(e) => {
+            response_tx.send(Response::Empty(Err(e))).expect("Channel must be alive");
+            return;
+        }
+    };
 
     response_tx.send(Response::Empty(Ok(()))).expect("Channel must be alive");
 
diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 7a3b721..3cb2848 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -345,6 +345,12 @@ where
         default_bg_color: Option<u8>,
     ) -> io::Result<Self> {
         let info = raster_ops.get_info();
+        if info.size_chars.x == 0 || info.size_chars.y == 0 {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "Screen too small to display any text",
+            ));
+        }
 
         let default_fg_color = default_fg_color.unwrap_or(DEFAULT_FG_COLOR);
         let default_bg_color = default_bg_color.unwrap_or(DEFAULT_BG_COLOR);
@@ -433,10 +439,16 @@ where
         let text_height: u16 = self.size_chars.y.clamped_mul(self.glyph_size.height);
         let x1y1 = PixelsXY::new(0, self.glyph_size.height.clamped_into());
         let x2y2 = PixelsXY::new(0, 0);
-        let size = SizeInPixels::new(self.size_pixels.width, text_height - self.glyph_size.height);
 
         self.raster_ops.set_draw_color(self.bg_color);
-        self.raster_ops.move_pixels(x1y1, x2y2, size)?;
+        if text_height > self.glyph_size.height {
+            let size =
+                SizeInPixels::new(self.size_pixels.width, text_height - self.glyph_size.height);
+            self.raster_ops.move_pixels(x1y1, x2y2, size)?;
+        } else {
+            let size = SizeInPixels::new(self.size_pixels.width, text_height);
+            self.raster_ops.draw_rect_filled(x2y2, size)?;
+        }
         if text_height < self.size_pixels.height {
             let xy = PixelsXY::new(0, text_height.clamped_into());
             let size =
-- 
2.43.0


From b2c1077b722f9c9d23114021594502a157cdc7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 41/59] fix: Keep the graphical cursor within the line when
 moving it

---
 std/src/console/graphics.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 3cb2848..ad4f686 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -642,11 +642,7 @@ where
     fn move_within_line(&mut self, off: i16) -> io::Result<()> {
         let previous = self.set_sync(false)?;
         self.clear_cursor()?;
-        if off < 0 {
-            self.cursor_pos.x -= -off as u16;
-        } else {
-            self.cursor_pos.x += off as u16;
-        }
+        self.cursor_pos.x = self.cursor_pos.x.saturating_add_signed(off).min(self.size_chars.x);
         self.draw_cursor()?;
         self.set_sync(previous)?;
         Ok(())
-- 
2.43.0


From 4a3b0445c3a7651fc5f9527f20708dd94823a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:34 +0000
Subject: [PATCH 42/59] fix: Do not crash after failing to draw the graphical
 cursor

---
 std/src/console/graphics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index ad4f686..b4da139 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -400,14 +400,16 @@ where
         let x1y1 = self.cursor_pos.clamped_mul(self.glyph_size);
 
         assert!(self.cursor_backup.is_none());
-        self.cursor_backup = Some(self.raster_ops.read_pixels(x1y1, self.glyph_size)?);
+        let backup = self.raster_ops.read_pixels(x1y1, self.glyph_size)?;
 
         // TODO(jmmv): It would be nice to draw the cursor with alpha blending so that the letters
         // under it are visible.  This was done before in the HTML canvas but was lost when I added
         // the GraphicsConsole abstraction.  Maybe all RGB colors should switch to RGBA.  Or maybe
         // we should special-case the cursor drawing.
         self.raster_ops.set_draw_color(self.fg_color);
-        self.raster_ops.draw_rect_filled(x1y1, self.glyph_size)
+        self.raster_ops.draw_rect_filled(x1y1, self.glyph_size)?;
+        self.cursor_backup = Some(backup);
+        Ok(())
     }
 
     /// Clears the cursor at the current position by restoring the contents of the screen saved by
-- 
2.43.0


From 1aa670f353dafba38ee04ffb879aed9dc95b262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 43/59] fix: Restore the color when HELP is interrupted

---
 std/src/help.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/std/src/help.rs b/std/src/help.rs
index 4a98957..3c28f7b 100644
--- a/std/src/help.rs
+++ b/std/src/help.rs
@@ -499,11 +499,15 @@ impl Callable for HelpCommand {
 
         if scope.nargs() == 0 {
             let mut console = self.console.borrow_mut();
+            let previous = console.color();
             let result = {
                 let mut pager =
                     Pager::new(&mut *console, self.yielder.clone()).map_err(CallError::from)?;
                 self.summary(&topics, &mut pager).await
             };
+            if result.is_err() {
+                console.set_color(previous.0, previous.1)?;
+            }
             result.map_err(CallError::from)?;
         } else {
             debug_assert_eq!(1, scope.nargs());
@@ -511,11 +515,15 @@ impl Callable for HelpCommand {
 
             let topic = topics.find(&t, &scope, 0)?;
             let mut console = self.console.borrow_mut();
+            let previous = console.color();
             let result = {
                 let mut pager =
                     Pager::new(&mut *console, self.yielder.clone()).map_err(CallError::from)?;
                 topic.describe(&mut pager).await
             };
+            if result.is_err() {
+                console.set_color(previous.0, previous.1)?;
+            }
             result.map_err(CallError::from)?;
         }
 
-- 
2.43.0


From 1924469269e17b61faf4e445806046ce80633be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 44/59] fix: Escape user and file names in cloud requests

---
 client/src/cloud.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/client/src/cloud.rs b/client/src/cloud.rs
index 112c421..25f09fc 100644
--- a/client/src/cloud.rs
+++ b/client/src/cloud.rs
@@ -107,6 +107,12 @@ impl CloudService {
             }
         };
 
+        if url.cannot_be_a_base() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "Invalid base API address: cannot be extended with a path".to_owned(),
+            ));
+        }
         if !(url.path().is_empty() || url.path() == "/") {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
@@ -119,12 +125,15 @@ impl CloudService {
         Ok(Self { api_address: url, client: reqwest::Client::default(), auth_data })
     }
 
-    /// Generates a service URL with the given `path`.
-    fn make_url(&self, path: &str) -> Url {
-        assert!(path.starts_with("api/"));
+    /// Generates a service URL with the given path `segments`, which are escaped as necessary.
+    fn make_url(&self, segments: &[&str]) -> Url {
         let mut url = self.api_address.clone();
         assert!(url.path().is_empty() || url.path() == "/");
-        url.set_path(path);
+        url.path_segments_mut()
+            .expect("API address was validated during construction")
+            .clear()
+            .push("api")
+            .extend(segments);
         url
     }
 
@@ -157,7 +166,7 @@ impl Service for CloudService {
     async fn signup(&mut self, request: &SignupRequest) -> io::Result<()> {
         let response = self
             .client
-            .post(self.make_url("api/signup"))
+            .post(self.make_url(&["signup"]))
             .headers(self.default_headers())
             .header("Content-Type", "application/json")
             .body(serde_json::to_vec(&request)?)
@@ -178,7 +187,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .post(self.make_url("api/login"))
+            .post(self.make_url(&["login"]))
             .headers(self.default_headers())
             .header("Authorization", basic_auth)
             .header("Content-Length", 0)
@@ -205,7 +214,7 @@ impl Service for CloudService {
         let response = {
             let auth_data = Self::require_auth_data(auth_data.as_ref())?;
             self.client
-                .post(self.make_url(&format!("api/users/{}/logout", auth_data.username)))
+                .post(self.make_url(&["users", &auth_data.username, "logout"]))
                 .headers(self.default_headers())
                 .header("Content-Length", 0)
                 .bearer_auth(auth_data.access_token.as_str())
@@ -233,7 +242,7 @@ impl Service for CloudService {
     async fn get_files(&mut self, username: &str) -> io::Result<GetFilesResponse> {
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files", username)))
+            .get(self.make_url(&["users", username, "files"]))
             .headers(self.default_headers());
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -252,7 +261,7 @@ impl Service for CloudService {
     async fn get_file(&mut self, username: &str, filename: &str) -> io::Result<Vec<u8>> {
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .get(self.make_url(&["users", username, "files", filename]))
             .headers(self.default_headers());
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -272,7 +281,7 @@ impl Service for CloudService {
         headers.insert("X-EndBASIC-GetReaders", "true".parse().unwrap());
         let mut builder = self
             .client
-            .get(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .get(self.make_url(&["users", username, "files", filename]))
             .headers(headers);
         if let Some(auth_data) = self.auth_data.borrow().as_ref() {
             builder = builder.bearer_auth(auth_data.access_token.as_str());
@@ -312,7 +321,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .patch(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .patch(self.make_url(&["users", username, "files", filename]))
             .headers(self.default_headers())
             .header("Content-Type", "application/octet-stream")
             .header("X-EndBASIC-PatchContent", "true")
@@ -338,7 +347,7 @@ impl Service for CloudService {
 
         let mut builder = self
             .client
-            .patch(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .patch(self.make_url(&["users", username, "files", filename]))
             .headers(self.default_headers())
             .header("Content-Type", "application/octet-stream")
             // Ensure we have at least one header to go through the header-based request handler.
@@ -367,7 +376,7 @@ impl Service for CloudService {
 
         let response = self
             .client
-            .delete(self.make_url(&format!("api/users/{}/files/{}", username, filename)))
+            .delete(self.make_url(&["users", username, "files", filename]))
             .headers(self.default_headers())
             .header("Content-Length", 0)
             .bearer_auth(Self::require_auth_data(auth_data.as_ref())?.access_token.as_str())
-- 
2.43.0


From d8e4762ee3465e3cdd31d8d784310d21782fc69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 45/59] fix: Do not crash on ACLs that end in a non-ASCII
 character

---
 client/src/cmds.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index 3eb12d9..26ff975 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -307,7 +307,11 @@ among users of the EndBASIC service.",
 impl ShareCommand {
     /// Parses a textual ACL specification and adds it to `add` or `remove.
     fn parse_acl(mut acl: String, add: &mut FileAcls, remove: &mut FileAcls) -> Result<(), String> {
-        let change = if acl.len() < 3 { String::new() } else { acl.split_off(acl.len() - 2) };
+        let change = if acl.len() < 3 || !acl.is_char_boundary(acl.len() - 2) {
+            String::new()
+        } else {
+            acl.split_off(acl.len() - 2)
+        };
         let username = acl; // For clarity after splitting off the ACL change request.
         match (username, change.as_str()) {
             (username, "+r") if !username.is_empty() => add.add_reader(username),
-- 
2.43.0


From 8c3972292c1668a7587d99152f391080a23c8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 46/59] fix: Do not include the drive in the URLs that SHARE
 prints

---
 client/src/cmds.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index 26ff975..a144520 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -385,10 +385,11 @@ impl Callable for ShareCommand {
             .map_err(CallError::from)?;
 
         if Self::has_public_acl(&add) {
-            let filename = match filename.split_once('/') {
+            let filename = match filename.split_once(':') {
                 Some((_drive, path)) => path,
                 None => &filename,
             };
+            let filename = filename.strip_prefix('/').unwrap_or(filename);
 
             let mut console = self.console.borrow_mut();
             console.print("").map_err(CallError::from)?;
-- 
2.43.0


From 19f3d8541313c726013336f3c6443d5eeb0abdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 47/59] fix: Keep the CLOUD drive mounted when LOGOUT fails

---
 client/src/cmds.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index a144520..8684377 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -209,6 +209,7 @@ impl Callable for LogoutCommand {
             return Err(CallError::Precondition("Must LOGIN first".to_owned()));
         }
 
+        let uri = self.storage.borrow().mounted().get("CLOUD").map(|uri| (*uri).to_owned());
         let unmounted = match self.storage.borrow_mut().unmount("CLOUD") {
             Ok(()) => true,
             Err(e) if e.kind() == io::ErrorKind::NotFound => false,
@@ -225,7 +226,13 @@ impl Callable for LogoutCommand {
             }
         };
 
-        self.service.borrow_mut().logout().await.map_err(CallError::from)?;
+        let result = self.service.borrow_mut().logout().await;
+        if let Err(e) = result {
+            if unmounted && let Some(uri) = uri {
+                self.storage.borrow_mut().mount("CLOUD", &uri).map_err(CallError::from)?;
+            }
+            return Err(CallError::from(e));
+        }
 
         {
             let mut console = self.console.borrow_mut();
-- 
2.43.0


From 179d4397e5674f32d14375ea6bdc3aee26a13eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:17 +0000
Subject: [PATCH 48/59] fix: Do not crash when sharing a file of a local drive

---
 client/src/cmds.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index 8684377..822ce8a 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -391,7 +391,11 @@ impl Callable for ShareCommand {
             .await
             .map_err(CallError::from)?;
 
-        if Self::has_public_acl(&add) {
+        // Only files in the cloud, which require a login to be shared, have a public URL.
+        let username = self.service.borrow().logged_in_username();
+        if let Some(username) = username
+            && Self::has_public_acl(&add)
+        {
             let filename = match filename.split_once(':') {
                 Some((_drive, path)) => path,
                 None => &filename,
@@ -405,15 +409,7 @@ impl Callable for ShareCommand {
                 [
                     "You have made the file publicly readable.  As a result, other people can now \
 auto-run your public file by visiting:",
-                    &format!(
-                        "{}?run={}/{}",
-                        self.exec_base_url,
-                        self.service
-                            .borrow()
-                            .logged_in_username()
-                            .expect("SHARE can only succeed against logged in cloud drives"),
-                        filename
-                    ),
+                    &format!("{}?run={}/{}", self.exec_base_url, username, filename),
                 ],
                 "    ",
             )
-- 
2.43.0


From efc3198b6619a037b8e89cce54bcca06f2611a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 49/59] fix: Do not crash on scripts whose second line is not
 ASCII

---
 cli/src/propline.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cli/src/propline.rs b/cli/src/propline.rs
index 72edfbb..41bb833 100644
--- a/cli/src/propline.rs
+++ b/cli/src/propline.rs
@@ -43,14 +43,10 @@ fn strip_newline(s: &mut String) {
 fn parse_propline(line: &str) -> io::Result<PropLine> {
     let without_comment = match line.strip_prefix("' ") {
         Some(line) => Some(line),
-        None => {
-            if line.len() <= 4 {
-                None
-            } else {
-                let token = line[0..4].to_ascii_lowercase();
-                if token == "rem " { Some(&line[4..]) } else { None }
-            }
-        }
+        None => match line.split_at_checked(4) {
+            Some((token, payload)) if token.eq_ignore_ascii_case("rem ") => Some(payload),
+            _ => None,
+        },
     };
     let Some(payload) = without_comment else {
         return Ok(PropLine::default());
-- 
2.43.0


From 3d0a615647175dae2b18a8b2511dacc22bd5271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 50/59] fix: Do not crash on an empty --console flag

---
 cli/src/console.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/src/console.rs b/cli/src/console.rs
index e24ce59..7536b46 100644
--- a/cli/src/console.rs
+++ b/cli/src/console.rs
@@ -100,7 +100,14 @@ pub fn setup_console(
     console_spec: Option<&str>,
     signals_tx: Sender<Signal>,
 ) -> io::Result<ConsoleHandles> {
-    let mut console_spec = ConsoleSpec::init(console_spec.unwrap_or("text"));
+    let console_spec = console_spec.unwrap_or("text");
+    if console_spec.is_empty() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid --console flag: missing console specification",
+        ));
+    }
+    let mut console_spec = ConsoleSpec::init(console_spec);
     let handles: ConsoleHandles = match console_spec.driver {
         "sdl" => setup_sdl_console(&mut console_spec, signals_tx)?,
         "st7735s" => setup_st7735s_console(&mut console_spec, signals_tx)?,
-- 
2.43.0


From 9cfa15fc3a3d2b9d0071059e930646b3da466dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 51/59] fix: Report why a program could not be read

---
 core/src/parser.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 9939f6f..b13cf83 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -1915,7 +1915,7 @@ impl<'a> Parser<'a> {
             Token::Do => {
                 let result = self.parse_do(token_span.pos);
                 if result.is_err() {
-                    self.reset_do()?;
+                    let _ = self.reset_do();
                 }
                 Ok(Some(result?))
             }
@@ -1926,21 +1926,21 @@ impl<'a> Parser<'a> {
             Token::If => {
                 let result = self.parse_if(token_span.pos);
                 if result.is_err() {
-                    self.reset_if()?;
+                    let _ = self.reset_if();
                 }
                 Ok(Some(result?))
             }
             Token::For => {
                 let result = self.parse_for(token_span.pos);
                 if result.is_err() {
-                    self.reset_for()?;
+                    let _ = self.reset_for();
                 }
                 Ok(Some(result?))
             }
             Token::Function => {
                 let result = self.parse_function(token_span.pos);
                 if result.is_err() {
-                    self.reset_callable(Token::Function)?;
+                    let _ = self.reset_callable(Token::Function);
                 }
                 Ok(Some(result?))
             }
@@ -1968,14 +1968,14 @@ impl<'a> Parser<'a> {
             Token::Select => {
                 let result = self.parse_select(token_span.pos);
                 if result.is_err() {
-                    self.reset_select()?;
+                    let _ = self.reset_select();
                 }
                 Ok(Some(result?))
             }
             Token::Sub => {
                 let result = self.parse_sub(token_span.pos);
                 if result.is_err() {
-                    self.reset_callable(Token::Sub)?;
+                    let _ = self.reset_callable(Token::Sub);
                 }
                 Ok(Some(result?))
             }
@@ -1991,7 +1991,7 @@ impl<'a> Parser<'a> {
             Token::While => {
                 let result = self.parse_while(token_span.pos);
                 if result.is_err() {
-                    self.reset_while()?;
+                    let _ = self.reset_while();
                 }
                 Ok(Some(result?))
             }
@@ -2039,7 +2039,8 @@ impl<'a> Parser<'a> {
     fn parse_one_safe(&mut self) -> Result<Option<Statement>> {
         let result = self.parse_nested(Self::parse_one);
         if result.is_err() {
-            self.reset()?;
+            // If the reader fails, the first error is the one to report.
+            let _ = self.reset();
         }
         result
     }
-- 
2.43.0


From 9d46249058a364025d9a45467bc47e9a7677237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 52/59] fix: Allocate the return register of functions without
 arguments

Registers are allocated when they are first written to, but the calls to
functions without arguments (such as ERRMSG or INKEY) do not write to their
return register before the function itself does.  Calling one from a deep
enough frame crashed the interpreter.
---
 core/src/vm/context.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index baabd38..1a68222 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -397,13 +397,18 @@ impl Context {
     ) -> Scope<'a> {
         let (is_global, index) = reg.to_parts();
         assert!(!is_global);
-        let index = usize::from(index);
+        let index = self.fp + usize::from(index);
+        if index >= self.regs.len() {
+            // Functions without arguments write their return value to a register that may not
+            // have been touched by any instruction yet.
+            self.regs.resize(index + 1, 0);
+        }
 
         Scope {
             regs: &mut self.regs,
             constants,
             heap,
-            fp: self.fp + index,
+            fp: index,
             arg_offset: if is_function { 1 } else { 0 },
             arg_linecols,
             last_error,
-- 
2.43.0


From 1ee798ff0fe3add1cf98d6e1ebcb5da4effb1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:00 +0000
Subject: [PATCH 53/59] fix: Report uses of arrays that were never dimensioned
 as errors

The DIM statement of an array may not run, because the program jumps over it,
because it fails, or because an earlier statement of the same line entered at
the prompt fails.  Using the array afterwards crashed the interpreter.
---
 core/src/callable.rs   | 24 +++++++++++++++---------
 core/src/mem.rs        | 39 ++++++++++++++++++++++++++++++++-------
 core/src/vm/context.rs | 10 +++++++---
 core/src/vm/mod.rs     |  5 +++--
 std/src/arrays.rs      |  6 ++++++
 5 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/core/src/callable.rs b/core/src/callable.rs
index 985077b..7a41c77 100644
--- a/core/src/callable.rs
+++ b/core/src/callable.rs
@@ -21,7 +21,7 @@ use crate::ast::ExprType;
 use crate::bytecode::TaggedRegisterRef;
 use crate::bytecode::VarArgTag;
 use crate::mem::HeapOverflowError;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum};
+use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, UNDIMENSIONED_ARRAY};
 use crate::reader::LineCol;
 use async_trait::async_trait;
 use std::borrow::Cow;
@@ -748,20 +748,24 @@ fn deref_string<'a>(
     ptr.resolve_string(constants, heap)
 }
 
-/// Dereferences this register reference as an array and returns its contents.
-fn array_data<'a>(regs: &'a [u64], index: usize, heap: &'a Heap) -> &'a ArrayData {
-    let ptr = DatumPtr::from(regs[index]);
-    let heap_idx = ptr.heap_index();
+/// Dereferences this register reference as an array and returns its contents, or `None` if the
+/// array has not been dimensioned yet.
+fn array_data<'a>(regs: &'a [u64], index: usize, heap: &'a Heap) -> Option<&'a ArrayData> {
+    let heap_idx = DatumPtr::array_index(regs[index])?;
     let HeapDatum::Array(a) = heap.get(heap_idx) else {
         panic!("Scalar variable does not point to an array on the heap");
     };
-    a
+    Some(a)
 }
 
 /// Dereferences this register reference as an array and returns its dimensions.
+///
+/// An array that has not been dimensioned yet has no dimensions.
 fn array_dimensions<'a>(regs: &'a [u64], index: usize, heap: &'a Heap) -> &'a [usize] {
-    let a = array_data(regs, index, heap);
-    &a.dimensions
+    match array_data(regs, index, heap) {
+        Some(a) => &a.dimensions,
+        None => &[],
+    }
 }
 
 /// Dereferences an integer from an array element in this register reference.
@@ -773,7 +777,9 @@ fn deref_array_integer(
     subscripts: &[i32],
 ) -> Result<i32, String> {
     assert_eq!(ExprType::Integer, vtype);
-    let a = array_data(regs, index, heap);
+    let Some(a) = array_data(regs, index, heap) else {
+        return Err(UNDIMENSIONED_ARRAY.to_owned());
+    };
     let flat_idx = a.flat_index(subscripts)?;
     Ok(a.values[flat_idx] as i32)
 }
diff --git a/core/src/mem.rs b/core/src/mem.rs
index dda7538..2c23fe8 100644
--- a/core/src/mem.rs
+++ b/core/src/mem.rs
@@ -256,8 +256,12 @@ impl Heap {
         if self.len() >= unchecked_u24_as_usize(self.max_entries) {
             return Err(HeapOverflowError);
         }
+        let ptr = match &datum {
+            HeapDatum::Array(_) => DatumPtr::for_array(u32::from(index)),
+            HeapDatum::Text(_) => DatumPtr::for_heap(u32::from(index)),
+        };
         self.data.push(datum);
-        Ok(DatumPtr::for_heap(u32::from(index)))
+        Ok(ptr)
     }
 
     /// Returns the heap entry at `index`.
@@ -271,6 +275,15 @@ impl Heap {
     }
 }
 
+/// Upper bits of the pointers to arrays.
+///
+/// Scalar registers never hold this value: integers and pointers to text are sign-extended, and
+/// doubles in this range are NaNs with a payload that computations do not produce.
+const ARRAY_TAG: u64 = 0xffff_a44a;
+
+/// Error message for accesses to arrays whose `DIM` statement has not been executed.
+pub(crate) const UNDIMENSIONED_ARRAY: &str = "Array has not been dimensioned";
+
 /// Tagged pointers for constant and heap addresses.
 ///
 /// A `DatumPtr` indexes into the constant pool or the heap, where datum values live.
@@ -327,13 +340,25 @@ impl DatumPtr {
         }
     }
 
-    /// Extracts the heap index from this pointer.
+    /// Creates a new pointer for an array at heap `index` and returns its `u64` representation.
     ///
-    /// Panics if this is not a heap pointer.
-    pub(crate) fn heap_index(&self) -> usize {
-        match self {
-            DatumPtr::Heap(index) => unchecked_u24_as_usize(*index),
-            DatumPtr::Constant(_) => panic!("Expected a heap pointer"),
+    /// The upper bits hold a tag that no other register contents carry, so that the register of
+    /// an array that has not been dimensioned is not confused with a pointer to another array.
+    fn for_array(index: u32) -> u64 {
+        (ARRAY_TAG << 32) | (Self::for_heap(index) & 0xffff_ffff)
+    }
+
+    /// Extracts the heap index of the array that the `raw` register contents refer to.
+    ///
+    /// Returns `None` if this does not point to an array, which is the case for array variables
+    /// whose `DIM` statement has not been executed (or has failed).
+    pub(crate) fn array_index(raw: u64) -> Option<usize> {
+        if raw >> 32 != ARRAY_TAG {
+            return None;
+        }
+        match DatumPtr::from(raw) {
+            DatumPtr::Heap(index) => Some(unchecked_u24_as_usize(index)),
+            DatumPtr::Constant(_) => unreachable!("Array pointers always refer to the heap"),
         }
     }
 }
diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 1a68222..778e2ce 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -22,7 +22,9 @@ use crate::bytecode::{
     self, ErrorHandlerMode, ExitCode, Opcode, Register, TaggedRegisterRef, opcode_of,
 };
 use crate::image::Image;
-use crate::mem::{ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError};
+use crate::mem::{
+    ArrayData, ConstantDatum, DatumPtr, Heap, HeapDatum, HeapOverflowError, UNDIMENSIONED_ARRAY,
+};
 use crate::num::unchecked_usize_as_u8;
 use crate::reader::LineCol;
 
@@ -337,8 +339,10 @@ impl Context {
         first_sub_reg: Register,
         heap: &Heap,
     ) -> Option<(usize, usize)> {
-        let arr_ptr = DatumPtr::from(self.get_reg(arr_reg));
-        let heap_idx = arr_ptr.heap_index();
+        let Some(heap_idx) = DatumPtr::array_index(self.get_reg(arr_reg)) else {
+            self.set_exception(UNDIMENSIONED_ARRAY);
+            return None;
+        };
         let array = match heap.get(heap_idx) {
             HeapDatum::Array(a) => a,
             _ => unreachable!("Register must point to an array"),
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 82981d7..256ef77 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -219,8 +219,9 @@ impl Vm {
             return Err(GetGlobalError::IsScalar(key.to_string()));
         }
         let raw = read_raw(&self.context, info.reg);
-        let ptr = DatumPtr::from(raw);
-        let heap_idx = ptr.heap_index();
+        let Some(heap_idx) = DatumPtr::array_index(raw) else {
+            return Ok(None);
+        };
         let HeapDatum::Array(a) = self.heap.get(heap_idx) else {
             panic!("Array variable does not point to an array on the heap");
         };
diff --git a/std/src/arrays.rs b/std/src/arrays.rs
index 19ccff2..d3ff5cc 100644
--- a/std/src/arrays.rs
+++ b/std/src/arrays.rs
@@ -33,6 +33,12 @@ const CATEGORY: &str = "Array functions";
 fn parse_bound_args(scope: &Scope<'_>) -> CallResult<(Vec<usize>, usize)> {
     let array = scope.get_ref(0);
     let dimensions = array.array_dimensions();
+    if dimensions.is_empty() {
+        return Err(CallError::Syntax(
+            scope.get_pos(0),
+            "Array has not been dimensioned".to_owned(),
+        ));
+    }
 
     if scope.nargs() == 2 {
         let i = scope.get_integer(1);
-- 
2.43.0


From 05a1d669bace4f7de7990ff2993446fb74e16937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 54/59] fix: Reject NOT after an operand in expressions

---
 core/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index b13cf83..47647e0 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -921,6 +921,12 @@ impl<'a> Parser<'a> {
                 }
 
                 Token::Not => {
+                    if !need_operand {
+                        return Err(Error::Bad(
+                            ts.pos,
+                            format!("Unexpected {} in expression", ts.token),
+                        ));
+                    }
                     op_spans.push(ExprOpSpan::new(ExprOp::Not, ts.pos));
                     need_operand = true;
                 }
-- 
2.43.0


From 711e88dfeec250e1130749cc6bbe500978db18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 55/59] fix: Report screens too small for the editor as errors

---
 repl/src/editor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repl/src/editor.rs b/repl/src/editor.rs
index 417262b..39f6b80 100644
--- a/repl/src/editor.rs
+++ b/repl/src/editor.rs
@@ -273,6 +273,10 @@ impl Editor {
     /// Internal implementation of the interactive editor, which interacts with the `console`.
     async fn edit_interactively(&mut self, console: &mut dyn Console) -> io::Result<()> {
         let console_size = console.size_chars()?;
+        if console_size.x == 0 || console_size.y < 2 {
+            // We need at least one line for the text and another for the status bar.
+            return Err(io::Error::other("Screen too small to run the editor"));
+        }
 
         if self.content.is_empty() {
             self.content.push(LineBuffer::default());
-- 
2.43.0


From 46f2c7b5bf954739aa46a867a41885a8b3ba650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 56/59] fix: Ignore empty sizes of terminals

---
 std/src/console/mod.rs |  7 ++++---
 terminal/src/lib.rs    | 12 +++++++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/std/src/console/mod.rs b/std/src/console/mod.rs
index 76aec1e..37493b4 100644
--- a/std/src/console/mod.rs
+++ b/std/src/console/mod.rs
@@ -441,11 +441,12 @@ pub fn remove_control_chars<S: Into<String>>(s: S) -> String {
     o
 }
 
-/// Gets the value of the environment variable `name` and interprets it as a `u16`.  Returns
-/// `None` if the variable is not set or if its contents are invalid.
+/// Gets the value of the environment variable `name` and interprets it as a `u16` that represents
+/// a size.  Returns `None` if the variable is not set or if its contents are invalid, which is
+/// also the case for empty sizes.
 pub fn get_env_var_as_u16(name: &str) -> Option<u16> {
     match env::var_os(name) {
-        Some(value) => value.as_os_str().to_string_lossy().parse::<u16>().map(Some).unwrap_or(None),
+        Some(value) => value.as_os_str().to_string_lossy().parse::<u16>().ok().filter(|n| *n > 0),
         None => None,
     }
 }
diff --git a/terminal/src/lib.rs b/terminal/src/lib.rs
index 3cc0d86..b9e34f6 100644
--- a/terminal/src/lib.rs
+++ b/terminal/src/lib.rs
@@ -33,6 +33,12 @@ use std::collections::VecDeque;
 use std::io::{self, StdoutLock, Write};
 use std::thread;
 
+/// Number of columns to assume when the terminal does not know its own size.
+const DEFAULT_COLUMNS: u16 = 80;
+
+/// Number of lines to assume when the terminal does not know its own size.
+const DEFAULT_LINES: u16 = 24;
+
 /// Converts a crossterm `KeyEvent` given in `ev` for key presses to our own `Key` type.
 fn parse_key_event(ev: KeyEvent) -> Option<Key> {
     if ev.kind != KeyEventKind::Press {
@@ -411,7 +417,11 @@ impl Console for TerminalConsole {
         let size = match (lines, columns) {
             (Some(l), Some(c)) => CharsXY::new(c, l),
             (l, c) => {
-                let (actual_columns, actual_lines) = terminal::size()?;
+                let (actual_columns, actual_lines) = match terminal::size()? {
+                    // Some terminals, such as serial lines, do not know their own size.
+                    (0, _) | (_, 0) => (DEFAULT_COLUMNS, DEFAULT_LINES),
+                    size => size,
+                };
                 CharsXY::new(c.unwrap_or(actual_columns), l.unwrap_or(actual_lines))
             }
         };
-- 
2.43.0


From b4876bb512975e4ba7f9c374c29fb25ac3df1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 57/59] fix: Do not let EXIT leave a callable for the loop
 around its definition

---
 core/src/compiler/top.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index b329f40..f3eccf5 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1178,6 +1178,10 @@ fn compile_user_callable(
     });
     debug_assert!(ctx.callable_exit_jumps.is_empty());
 
+    // Loops around the definition are not visible to the `EXIT`s in the body of the callable.
+    let do_exit_stack = std::mem::take(&mut ctx.do_exit_stack);
+    let for_exit_stack = std::mem::take(&mut ctx.for_exit_stack);
+
     let mut symtable = symtable.enter_scope();
 
     // The call protocol expects the return value to be in the first local variable
@@ -1225,6 +1229,8 @@ fn compile_user_callable(
         ctx.codegen.patch(addr, bytecode::make_jump(target));
     }
     ctx.current_callable = None;
+    ctx.do_exit_stack = do_exit_stack;
+    ctx.for_exit_stack = for_exit_stack;
     let skip_addr = ctx.codegen.next_pc();
     ctx.codegen.define_user_callable(key, start_pc, skip_addr);
 
-- 
2.43.0


From ac54f01ab3b5194685553bd9bef36c16e1f90d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 58/59] fix: Reject jumps into the body of a callable

---
 core/src/compiler/codegen.rs | 42 +++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 1080097..5afd067 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -197,6 +197,27 @@ impl Codegen {
         }
     }
 
+    /// Returns the start of the user-defined callable whose body contains `addr`, if any.
+    fn enclosing_callable(&self, addr: Address) -> Option<Address> {
+        self.user_callables_addresses
+            .values()
+            .find(|(start, end)| (*start..*end).contains(&addr))
+            .map(|(start, _end)| *start)
+    }
+
+    /// Looks up the address of `label` for a jump at `addr`, which cannot enter the body of a
+    /// user-defined callable from outside of it because there is no call to return from.
+    fn find_label(&self, addr: Address, label: String, pos: LineCol) -> Result<Address> {
+        let Some(target) = self.labels.get(&SymbolKey::from(&label)) else {
+            return Err(Error::UnknownLabel(pos, label));
+        };
+        let callable = self.enclosing_callable(*target);
+        if callable.is_some() && callable != self.enclosing_callable(addr) {
+            return Err(Error::UnknownLabel(pos, label));
+        }
+        Ok(*target)
+    }
+
     /// Applies all registered fixups to the generated code.
     fn apply_fixups(&mut self) -> Result<()> {
         for (addr, fixup) in std::mem::take(&mut self.fixups) {
@@ -210,27 +231,18 @@ impl Codegen {
                     bytecode::make_call(reg, Self::make_target(*target, pos)?)
                 }
                 Fixup::Gosub(label) => {
-                    let key = SymbolKey::from(&label);
-                    let Some(target) = self.labels.get(&key) else {
-                        return Err(Error::UnknownLabel(pos, label));
-                    };
-                    bytecode::make_gosub(Self::make_target(*target, pos)?)
+                    let target = self.find_label(addr, label, pos)?;
+                    bytecode::make_gosub(Self::make_target(target, pos)?)
                 }
                 Fixup::Goto(label) => {
-                    let key = SymbolKey::from(&label);
-                    let Some(target) = self.labels.get(&key) else {
-                        return Err(Error::UnknownLabel(pos, label));
-                    };
-                    bytecode::make_jump(Self::make_target(*target, pos)?)
+                    let target = self.find_label(addr, label, pos)?;
+                    bytecode::make_jump(Self::make_target(target, pos)?)
                 }
                 Fixup::OnErrorGoto(label) => {
-                    let key = SymbolKey::from(&label);
-                    let Some(target) = self.labels.get(&key) else {
-                        return Err(Error::UnknownLabel(pos, label));
-                    };
+                    let target = self.find_label(addr, label, pos)?;
                     bytecode::make_set_error_handler(
                         ErrorHandlerMode::Jump,
-                        Self::make_target(*target, pos)?,
+                        Self::make_target(target, pos)?,
                     )
                 }
             };
-- 
2.43.0


From 7eb45b7d03e901717ad13ed3be47afd0537c06df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:38 +0000
Subject: [PATCH 59/59] fix: Drop the error handler of a callable when it
 returns

---
 core/src/vm/context.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 778e2ce..34448db 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -272,6 +272,17 @@ impl Context {
         }
     }
 
+    /// Clears the current jump-based error handler if the callable that set it has returned, as
+    /// the handler can only run in the scope where it was defined.
+    fn drop_error_handler_of_callee(&mut self) {
+        if let ErrorHandler::Jump { .. } = self.err_handler {
+            let calls = self.call_stack.iter().filter(|frame| frame.ret_reg.is_some()).count();
+            if self.err_handler_calls > calls {
+                self.err_handler = ErrorHandler::None;
+            }
+        }
+    }
+
     /// Sets the program counter to `pc`.
     pub(super) fn set_pc(&mut self, pc: Address) {
         self.pc = pc;
@@ -1116,6 +1127,7 @@ impl Context {
             self.pc = frame.old_pc + 1;
             self.fp = frame.old_fp;
             self.set_reg(ret_reg, return_value);
+            self.drop_error_handler_of_callee();
         } else {
             self.pc = frame.old_pc + 1;
             self.fp = frame.old_fp;
-- 
2.43.0

