From 813b732ec01756f9a27a0af3a236103cdea6273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 001/159] fix: restore the enclosing block after parsing a
 range-based for loop

A variable declared after 'for a..b' was rejected with 'cannot define a local
variable outside a block statement'.
---
 src/compiler/parser/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index c6178de..5261fc4 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1378,7 +1378,11 @@ static ASTNode_T* parse_for(Parser_T* p, bool needs_semicolon)
             loop->init_stmt = init_stmt;
 
             if(tok_is_operator(p, ".."))
-                return parse_for_range(p, loop, needs_semicolon);
+            {
+                parse_for_range(p, loop, needs_semicolon);
+                p->cur_block = prev_block;
+                return loop;
+            }
             parser_consume(p, TOKEN_SEMICOLON, "expect `;` after for-loop initializer");
         }
     } 
-- 
2.43.0


From 11c9438a167d9df600957c9f47a88b81f1d0fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 002/159] fix: keep the stack balanced in the else-operator of
 the assembly backend

'a else b' pushed its left operand twice but popped it once, so every use
shifted the stack pointer.
---
 src/compiler/codegen/asm/asm_codegen.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index dc999d6..ad91cbe 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2158,14 +2158,10 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             u64 pc = cg->cur_count;
             u64 c = cg->cur_count = cg->max_count++;
             asm_gen_expr(cg, node->left);
-            asm_push(cg);
-            asm_push(cg);
             asm_cmp_zero(cg, node->left->data_type);
             asm_println(cg, "  je .L.else.%ld", c);
-            asm_pop(cg, "%rax");
             asm_println(cg, "  jmp .L.end.%ld", c);
             asm_println(cg, ".L.else.%ld:", c);
-            asm_pop(cg, "%rax");
             asm_gen_expr(cg, node->right);
             asm_println(cg, ".L.end.%ld:", c);
             cg->cur_count = pc;
-- 
2.43.0


From 23ef4525c0834f2d5703fbdd2219249cbb569d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 003/159] fix: choose operand width by the underlying type of
 an alias

Binary operators on values of an aliased type ('type T: i32;') were emitted at
the wrong width: i32 division trapped, f32 arithmetic used double instructions.
---
 src/compiler/codegen/asm/asm_codegen.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index ad91cbe..a927841 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2247,7 +2247,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_popf(cg, 1);
             }
 
-            char* sz = node->left->data_type->kind == TY_F32 ? "ss" : "sd";
+            char* sz = unpack(node->left->data_type)->kind == TY_F32 ? "ss" : "sd";
 
             switch(node->kind)
             {
@@ -2369,7 +2369,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
     char* ax, * di, * dx;
 
-    if(node->left->data_type->kind == TY_I64 || node->left->data_type->kind == TY_U64 || node->left->data_type->base)
+    ASTType_T* left_type = unpack(node->left->data_type);
+
+    if(left_type->kind == TY_I64 || left_type->kind == TY_U64 || left_type->base)
     {
         ax = "%rax";
         di = "%rdi";
@@ -2402,7 +2404,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             }
             else
             {
-                if(node->left->data_type->size == 8)
+                if(left_type->size == 8)
                     asm_println(cg, "  cqo");
                 else
                     asm_println(cg, "  cdq");
-- 
2.43.0


From 700fef57ccee2cc7d414716aaa97666dbd66b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 004/159] fix: zero-extend u32 values when they are loaded

u32 variables were sign-extended into 64-bit registers, so comparing a u32
above 0x7fffffff with an i64 gave the wrong answer.
---
 src/compiler/codegen/asm/asm_codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index a927841..f4d9ef3 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1338,6 +1338,8 @@ static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty) {
         asm_println(cg, "  %sbl (%%rax), %%eax", insn);
     else if (ty->size == 2)
         asm_println(cg, "  %swl (%%rax), %%eax", insn);
+    else if (ty->size == 4 && is_unsigned(ty))
+        asm_println(cg, "  mov (%%rax), %%eax");
     else if (ty->size == 4)
         asm_println(cg, "  movsxd (%%rax), %%rax");
     else
-- 
2.43.0


From 67a6402a84ab9083f7739d7e2dc660148f45b8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 005/159] fix: NaN != NaN is true in the assembly backend

---
 src/compiler/codegen/asm/asm_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f4d9ef3..7f828d6 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2276,8 +2276,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 case ND_NE:
                     asm_println(cg, "  ucomi%s %%xmm0, %%xmm1", sz);
                     asm_println(cg, "  setne %%al");
-                    asm_println(cg, "  setnp %%dl");
-                    asm_println(cg, "  and %%dl, %%al");
+                    asm_println(cg, "  setp %%dl");
+                    asm_println(cg, "  or %%dl, %%al");
                     asm_println(cg, "  and $1, %%al");
                     asm_println(cg, "  movzb %%al, %%rax");
                     return;
-- 
2.43.0


From c37ad95938b12ae13cea80e77c68691b97c05c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 006/159] fix: evaluate comparisons, bitwise operators and
 modulo at the wider operand's type

Only + - * / converted operands of different widths; the other operators were
emitted at the width of the left operand, so 'i32 & i64', 'f32 < f64',
'f32 < i32', 'i32 << i64' and 'i32 % i64' computed wrong results.
---
 src/compiler/parser/typechecker.c | 38 ++++++++++++++++++++++++++++++-
 src/compiler/parser/validator.c   |  2 +-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 0f8efad..04f959d 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -37,6 +37,7 @@ static void typecheck_lambda_entry(ASTNode_T* lambda, va_list args);
 static void typecheck_lambda_exit(ASTNode_T* lambda, va_list args);
 static void typecheck_return(ASTNode_T* ret, va_list args);
 static void typecheck_binop(ASTNode_T* op, va_list args);
+static void typecheck_operand_width(ASTNode_T* op, va_list args);
 
 static void typecheck_dyn_type(ASTType_T* dyn_type, va_list args);
 
@@ -66,7 +67,19 @@ static const ASTIteratorList_T iterator = {
         [ND_ADD] = typecheck_binop,
         [ND_SUB] = typecheck_binop,
         [ND_MUL] = typecheck_binop,
-        [ND_DIV] = typecheck_binop
+        [ND_DIV] = typecheck_binop,
+        [ND_MOD] = typecheck_operand_width,
+        [ND_EQ] = typecheck_operand_width,
+        [ND_NE] = typecheck_operand_width,
+        [ND_LT] = typecheck_operand_width,
+        [ND_LE] = typecheck_operand_width,
+        [ND_GT] = typecheck_operand_width,
+        [ND_GE] = typecheck_operand_width,
+        [ND_LSHIFT] = typecheck_operand_width,
+        [ND_RSHIFT] = typecheck_operand_width,
+        [ND_BIT_AND] = typecheck_operand_width,
+        [ND_BIT_OR] = typecheck_operand_width,
+        [ND_XOR] = typecheck_operand_width
     },
     .type_fns = {
         [TY_DYN] = typecheck_dyn_type
@@ -542,6 +555,29 @@ static void typecheck_binop(ASTNode_T* op, va_list args)
     );
 }
 
+// comparisons, bitwise operators and modulo are evaluated at the type of the wider operand
+static void typecheck_operand_width(ASTNode_T* op, va_list args)
+{
+    GET_TYPECHECKER(args);
+
+    ASTType_T* left = unpack(op->left->data_type);
+    ASTType_T* right = unpack(op->right->data_type);
+    if(!left || !right || !is_numeric(left) || !is_numeric(right))
+        return;
+
+    bool widen_left;
+    if(is_flonum(left) != is_flonum(right))
+        widen_left = is_flonum(right);
+    else if(left->size == right->size)
+        return;
+    else
+        widen_left = left->size < right->size;
+
+    if(widen_left)
+        op->left = implicit_cast(t, op->tok, op->left, right, CAST_OK);
+    else if(op->kind != ND_LSHIFT && op->kind != ND_RSHIFT)
+        op->right = implicit_cast(t, op->tok, op->right, left, CAST_OK);
+}
 
 void typecheck_dyn_type(ASTType_T* dyn_type, va_list args) {
     GET_TYPECHECKER(args);
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 719fa7f..f73474f 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1450,7 +1450,7 @@ static void iter_validate_modulo(ASTNode_T* mod, va_list args)
     if(!is_integer(unpack(mod->right->data_type)))
         throw_error(v->context, ERR_TYPE_ERROR_UNCR, mod->tok, "right: expect integer type for modulo operation");
 
-    mod->data_type = mod->left->data_type;
+    mod->data_type = mod->right->data_type->size > mod->left->data_type->size ? mod->right->data_type : mod->left->data_type;
 }
 
 static void iter_validate_negation(ASTNode_T* neg, va_list args)
-- 
2.43.0


From 1f7b534bc774f1b1114ba39eb60b2e0428990202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 007/159] fix: skip a match statement without a default case
 when no case matches

The assembly backend fell through into the body of the first case.
---
 src/compiler/codegen/asm/asm_codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 7f828d6..66966d7 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2745,6 +2745,8 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 node->default_case->long_val = node->cases->size;
                 asm_println(cg, "  jmp .L.case.%lu.%lu", node->cases->size, c);
             }
+            else
+                asm_println(cg, "  jmp .L.break.%lu", c);
             
             for(size_t i = 0; i < node->cases->size; i++)
                 asm_gen_stmt(cg, node->cases->items[i]);
-- 
2.43.0


From 16d6d2a1a7e84211642849c92481789d3b00b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 008/159] fix: keep the stack balanced on break and continue in
 range-based for loops

Both left the saved loop bounds on the stack in the assembly backend, so a
continue went on with clobbered bounds and a break corrupted the bounds of an
enclosing range loop.
---
 src/compiler/codegen/asm/asm_codegen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 66966d7..a8d01b0 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2617,18 +2617,20 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             
             asm_println(cg, ".L.begin.%lu:", c);
             asm_println(cg, "  cmp %%rdx, %%rdi");
-            asm_println(cg, "  jge .L.break.%lu", c);
+            asm_println(cg, "  jge .L.range_end.%lu", c);
 
             asm_println(cg, "  push %%rdi");
             asm_println(cg, "  push %%rdx");
             asm_gen_stmt(cg, node->body);
+            asm_println(cg, ".L.continue.%lu:", c);
             asm_println(cg, "  pop %%rdx");
             asm_println(cg, "  pop %%rdi");
             
-            asm_println(cg, ".L.continue.%lu:", c);
             asm_println(cg, "  inc %%rdi");
             asm_println(cg, "  jmp .L.begin.%lu", c);
             asm_println(cg, ".L.break.%lu:", c);
+            asm_println(cg, "  add $16, %%rsp");
+            asm_println(cg, ".L.range_end.%lu:", c);
 
             cg->cur_count = pc;
             cg->cur_brk_id = pbrk;
-- 
2.43.0


From b533f8e8f93e49cb45291981e4d9cf629fa84aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 009/159] fix: compare unsigned operands of match cases
 unsigned

---
 src/compiler/codegen/asm/asm_codegen.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index a8d01b0..a537d15 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -65,6 +65,15 @@ static const char* jmp_mode[TOKEN_EOF] = {
     [ND_GE] = "jge",
 };
 
+static const char* unsigned_jmp_mode[TOKEN_EOF] = {
+    [ND_EQ] = "je",
+    [ND_NE] = "jne",
+    [ND_LT] = "jb",
+    [ND_LE] = "jbe",
+    [ND_GT] = "ja",
+    [ND_GE] = "jae",
+};
+
 static const char* argreg8[]  = {"%dil", "%sil", "%dl", "%cl", "%r8b", "%r9b"};
 static const char* argreg16[] = {"%di", "%si", "%dx", "%cx", "%r8w", "%r9w"};
 static const char* argreg32[] = {"%edi", "%esi", "%edx", "%ecx", "%r8d", "%r9d"};
@@ -2727,6 +2736,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             u64 c = cg->cur_count = cg->cur_brk_id = cg->max_count++;
             char* ax = (node->condition->data_type->size == 8) ? "%rax" : "%eax";
             char* di = (node->condition->data_type->size == 8) ? "%rdi" : "%edi";
+            const char** jmp = is_unsigned(unpack(node->condition->data_type)) ? unsigned_jmp_mode : jmp_mode;
             
             for(size_t i = 0; i < node->cases->size; i++)
             {
@@ -2739,7 +2749,7 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 asm_println(cg, "  cmp %s, %s", ax, di);
                 asm_pop(cg, "%rax");
 
-                asm_println(cg, "  %s .L.case.%ld.%lu", jmp_mode[_case->mode], i, c);
+                asm_println(cg, "  %s .L.case.%ld.%lu", jmp[_case->mode], i, c);
             }
             
             if(node->default_case) 
-- 
2.43.0


From c37054eb23f2d95bb12925b3bfdc08cbdd16e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 010/159] fix: compare match cases in the right direction and
 type in the C backend

Cases with a range mode were evaluated as 'case < value' instead of
'value < case', and every value was converted to u64 first.
---
 src/compiler/codegen/transpiler/c_codegen.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 39e3af8..0c42f6d 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1868,17 +1868,22 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
 
     case ND_MATCH:
     {
-        u64 uid = cg->unique_id;
-        c_print(cg, "{\n%s " UNIQUE_ID_FMT " =", c_primitive_types[TY_U64], uid);
+        u64 uid = cg->unique_id++;
+        char unique_name[128] = {0};
+        sprintf(unique_name, UNIQUE_ID_FMT, uid);
+
+        c_println(cg, "{");
+        c_gen_typed_name_str(cg, unique_name, node->condition->data_type);
+        c_putc(cg, '=');
         c_gen_expr(cg, node->condition, true);
         c_println(cg, ";");
         
         for(size_t i = 0; i < node->cases->size; i++)
         {
             ASTNode_T* _case = node->cases->items[i];
-            c_print(cg, "%sif((", i == 0 ? "" : "else ");
+            c_print(cg, "%sif(" UNIQUE_ID_FMT " %s (", i == 0 ? "" : "else ", uid, cmp_mode[_case->mode]);
             c_gen_expr(cg, _case->condition, true);
-            c_println(cg, ") %s " UNIQUE_ID_FMT "){", cmp_mode[_case->mode], uid);
+            c_println(cg, ")){");
             c_gen_stmt(cg, _case->body);
             c_println(cg, "}");
         }
-- 
2.43.0


From 7436dcbfe4e26ed830ccbfe94e0c52df3b17f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 011/159] fix: use signed bounds for range-based for loops in
 the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 0c42f6d..b577b66 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1857,9 +1857,9 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
     case ND_FOR_RANGE:
     {
         u64 low_id = cg->unique_id++, high_id = cg->unique_id++;
-        c_print(cg, "for(%s " UNIQUE_ID_FMT " = ", c_primitive_types[TY_U64], low_id);
+        c_print(cg, "for(%s " UNIQUE_ID_FMT " = ", c_primitive_types[TY_I64], low_id);
         c_gen_expr(cg, node->left, true);
-        c_print(cg, ", " UNIQUE_ID_FMT " = (%s)", high_id, c_primitive_types[TY_U64]);
+        c_print(cg, ", " UNIQUE_ID_FMT " = (%s)", high_id, c_primitive_types[TY_I64]);
         c_gen_expr(cg, node->right, true);
         c_println(cg, "; " UNIQUE_ID_FMT " < " UNIQUE_ID_FMT "; " UNIQUE_ID_FMT "++){", low_id, high_id, low_id);
         c_gen_stmt(cg, node->body);
-- 
2.43.0


From 3f591f091a41f31e9544eb0ca5a37d96537f50de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 012/159] fix: convert between u64 and floating point above
 2^63

u64 to f32 was converted as a signed value, and f32/f64 to u64 overflowed
the signed conversion.
---
 src/compiler/codegen/asm/asm_codegen.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index a537d15..40f15f8 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -100,7 +100,10 @@ static const char i64f32[] = "cvtsi2ssq %rax, %xmm0";
 static const char i64f64[] = "cvtsi2sdq %rax, %xmm0";
 static const char i64f80[] = "movq %rax, -8(%rsp); fildll -8(%rsp)";
 
-static const char u64f32[] = "cvtsi2ssq %rax, %xmm0";
+static const char u64f32[] =
+  "test %rax,%rax; js 1f; pxor %xmm0,%xmm0; cvtsi2ssq %rax,%xmm0; jmp 2f; "
+  "1: mov %rax,%rdi; and $1,%eax; pxor %xmm0,%xmm0; shr %rdi; "
+  "or %rax,%rdi; cvtsi2ssq %rdi,%xmm0; addss %xmm0,%xmm0; 2:";
 static const char u64f64[] =
   "test %rax,%rax; js 1f; pxor %xmm0,%xmm0; cvtsi2sd %rax,%xmm0; jmp 2f; "
   "1: mov %rax,%rdi; and $1,%eax; pxor %xmm0,%xmm0; shr %rdi; "
@@ -116,7 +119,10 @@ static const char f32u16[] = "cvttss2sil %xmm0, %eax; movzwl %ax, %eax";
 static const char f32i32[] = "cvttss2sil %xmm0, %eax";
 static const char f32u32[] = "cvttss2siq %xmm0, %rax";
 static const char f32i64[] = "cvttss2siq %xmm0, %rax";
-static const char f32u64[] = "cvttss2siq %xmm0, %rax";
+static const char f32u64[] =
+  "mov $0x5f000000,%eax; movd %eax,%xmm1; comiss %xmm1,%xmm0; jae 1f; "
+  "cvttss2siq %xmm0,%rax; jmp 2f; "
+  "1: subss %xmm1,%xmm0; cvttss2siq %xmm0,%rax; btc $63,%rax; 2:";
 static const char f32f64[] = "cvtss2sd %xmm0, %xmm0";
 static const char f32f80[] = "movss %xmm0, -4(%rsp); flds -4(%rsp)";
 
@@ -127,7 +133,10 @@ static const char f64u16[] = "cvttsd2sil %xmm0, %eax; movzwl %ax, %eax";
 static const char f64i32[] = "cvttsd2sil %xmm0, %eax";
 static const char f64u32[] = "cvttsd2siq %xmm0, %rax";
 static const char f64i64[] = "cvttsd2siq %xmm0, %rax";
-static const char f64u64[] = "cvttsd2siq %xmm0, %rax";
+static const char f64u64[] =
+  "movabs $0x43e0000000000000,%rax; movq %rax,%xmm1; comisd %xmm1,%xmm0; jae 1f; "
+  "cvttsd2siq %xmm0,%rax; jmp 2f; "
+  "1: subsd %xmm1,%xmm0; cvttsd2siq %xmm0,%rax; btc $63,%rax; 2:";
 static const char f64f32[] = "cvtsd2ss %xmm0, %xmm0";
 static const char f64f80[] = "movsd %xmm0, -8(%rsp); fldl -8(%rsp)";
 
-- 
2.43.0


From 2b8578b91847486dd39c2fb354f1d98ada0f12a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 013/159] fix: lay out structs with the alignment of their
 members

---
 src/compiler/parser/validator.c | 67 +++++++++++++++------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index f73474f..3767f2a 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -20,7 +20,6 @@
 #include <asm-generic/errno-base.h>
 #include <assert.h>
 #include <ctype.h>
-#include <math.h>
 #include <stdio.h>
 #include <stdarg.h>
 #include <string.h>
@@ -2309,18 +2308,6 @@ static void iter_validate_dyn_type(ASTType_T* dyn_type, va_list args)
 //    GET_VALIDATOR(args);
 }
 
-static i32 align_type(ASTType_T* ty)
-{
-    switch(ty->kind)
-    {
-        case TY_C_ARRAY:
-        case TY_PTR:
-            return MAX(pow(2, floor(log(ty->base->size)/log(2))), 8);
-        default:
-            return MAX(pow(2, floor(log(ty->size)/log(2))), 1);
-    }
-}
-
 static void iter_validate_type(ASTType_T* type, va_list args)
 {
     GET_VALIDATOR(args);
@@ -2328,25 +2315,14 @@ static void iter_validate_type(ASTType_T* type, va_list args)
 
     if(exp->kind != TY_INTERFACE) {
         type->size = get_type_size(v, exp);
-        type->align = align_type(exp);
+        type->align = get_type_align(v, exp);
     }
     exp->align = type->align;
 }
 
 static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_types);
 
-static i32 get_union_size(ASTType_T* u_type)
-{
-    i32 biggest = 0;
-    for(size_t i = 0; i < u_type->members->size; i++)
-    {
-        ASTNode_T* member = u_type->members->items[i];
-        if(member->data_type->size > biggest)
-            biggest = member->data_type->size;
-    }
-    return biggest;
-}
-
+// computes the member offsets, the size and the alignment of a struct or union
 static i32 get_struct_size(Validator_T* v, ASTType_T* struct_type, List_T** struct_types)
 {
     if(!*struct_types)
@@ -2360,19 +2336,28 @@ static i32 get_struct_size(Validator_T* v, ASTType_T* struct_type, List_T** stru
 
     list_push(*struct_types, struct_type);
 
-    i64 bits = 0;
+    i32 size = 0, struct_align = 1;
     for(size_t i = 0; i < struct_type->members->size; i++)
     {
         ASTNode_T* member = struct_type->members->items[i];
         member->data_type->size = get_type_size_impl(v, member->data_type, struct_types);
-        bits = align_to(bits, get_type_align(v, member->data_type) * 8);
-        member->offset = bits / 8;
-        bits += member->data_type->size * 8;
+
+        i32 align = get_type_align(v, member->data_type);
+        struct_align = MAX(struct_align, align);
+
+        if(struct_type->is_union)
+            size = MAX(size, member->data_type->size);
+        else 
+        {
+            member->offset = align_to(size, align);
+            size = member->offset + member->data_type->size;
+        }
     }
 
     list_pop(*struct_types);
 
-    return align_to(bits, get_type_align(v, struct_type) * 8) / 8;
+    struct_type->align = struct_align;
+    return align_to(size, struct_align);
 };
 
 static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_types)
@@ -2425,10 +2410,7 @@ static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_t
         case TY_ARRAY:
                 return get_type_size_impl(v, type->base, struct_types) * calculate_array_size(v, type) + PTR_S;
         case TY_STRUCT:
-            if(type->is_union)
-                return get_union_size(type);
-            else
-                return get_struct_size(v, type, struct_types);
+            return get_struct_size(v, type, struct_types);
         case TY_INTERFACE:
             throw_error(v->context, ERR_TYPE_ERROR_UNCR, type->tok, "cannot get size of type interface");
             return 0;
@@ -2451,17 +2433,28 @@ static i32 get_type_size(Validator_T* v, ASTType_T* type)
     return size;
 }
 
+// requires the size of the type to be known
 static i32 get_type_align(Validator_T* v, ASTType_T* type)
 {
     switch(type->kind)
     {
+        case TY_UNDEF:
+            return get_type_align(v, unpack(type));
+        case TY_TYPEOF:
+            return get_type_align(v, type->num_indices_node->data_type);
+        case TY_STRUCT:
+            return MAX(type->align, 1);
         case TY_C_ARRAY:
+            return get_type_align(v, type->base);
         case TY_PTR:
-            return MAX(pow(2, floor(log(type->base->size)/log(2))), 8);
+        case TY_FN:
+        case TY_VLA:
         case TY_ARRAY:
+        case TY_DYN:
+        case TY_F80:
             return PTR_S;
         default:
-            return MAX(pow(2, floor(log(type->size)/log(2))), 1);
+            return MAX(type->size, 1);
     }
 }
 
-- 
2.43.0


From 78499731b0b7afe13317fdbf366701a47d844ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 014/159] fix: pass and return structs according to one
 classification

---
 src/compiler/codegen/asm/asm_codegen.c | 103 +++++++++++--------------
 1 file changed, 46 insertions(+), 57 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 40f15f8..30b4ffe 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -184,6 +184,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs);
 static bool asm_has_flonum(ASTType_T* ty, i32 lo, i32 hi, i32 offset);
 static bool asm_has_flonum_1(ASTType_T* ty);
 static bool asm_has_flonum_2(ASTType_T* ty);
+static bool asm_struct_in_regs(ASTType_T* ty, i32* gp, i32* fp);
 static void asm_store_fp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_store_gp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
@@ -442,7 +443,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
                 continue;
 
             i32 top = 16, bottom = 0;
-            i32 gp = 0, fp = 0;
+            i32 gp = obj->return_ptr ? 1 : 0, fp = 0;
 
             // Assign offsets to pass-by-stack parameters
             for(size_t j = 0; j < obj->args->size; j++)
@@ -453,17 +454,9 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
                 {
                 case TY_DYN:
                 case TY_STRUCT:
-                    if(ty->size <= 16)
-                    {
-                        bool fp1 = asm_has_flonum(ty, 0, 8, 0);
-                        bool fp2 = asm_has_flonum(ty, 8, 16, 8);
-                        if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
-                        {
-                            fp = fp + fp1 + fp2;
-                            gp = gp + !fp1 + fp2;
-                            continue;
-                        }
-                    } break;
+                    if(asm_struct_in_regs(ty, &gp, &fp))
+                        continue;
+                    break;
                 
                 case TY_F32:
                 case TY_F64:
@@ -479,7 +472,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
 
                 top = align_to(top, 8);
                 var->offset = top;
-                top += var->data_type->size;
+                top += ty->size;
             }
 
             // va_area
@@ -1112,7 +1105,25 @@ static bool asm_has_flonum_1(ASTType_T* ty)
 
 static bool asm_has_flonum_2(ASTType_T* ty)
 {
-    return asm_has_flonum(ty, 0, 16, 0);
+    return asm_has_flonum(ty, 8, 16, 0);
+}
+
+// Assigns registers to a struct passed by value, if enough of them are left.
+// Returns false if it has to be passed on the stack.
+static bool asm_struct_in_regs(ASTType_T* ty, i32* gp, i32* fp)
+{
+    if(ty->size > 16)
+        return false;
+
+    i32 num_fp = asm_has_flonum_1(ty) + (ty->size > 8 && asm_has_flonum_2(ty));
+    i32 num_gp = (ty->size > 8 ? 2 : 1) - num_fp;
+
+    if((num_fp && *fp + num_fp > ASM_FP_MAX) || (num_gp && *gp + num_gp > ASM_GP_MAX))
+        return false;
+
+    *fp += num_fp;
+    *gp += num_gp;
+    return true;
 }
 
 static void asm_push_struct(ASMCodegenData_T* cg, ASTType_T* ty)
@@ -1157,10 +1168,10 @@ static void asm_copy_struct_reg(ASMCodegenData_T* cg)
 
     if(ty->size > 8)
     {
-        if(asm_has_flonum(ty, 8, 16, 0) && ty->kind != TY_STRUCT)
+        if(asm_has_flonum(ty, 8, 16, 0))
         {
             assert(ty->size == 12 || ty->size == 16);
-            if(ty->size == 4)
+            if(ty->size == 12)
                 asm_println(cg, "  movss 8(%%rdi), %%xmm%d", fp);
             else
                 asm_println(cg, "  movsd 8(%%rdi), %%xmm%d", fp);
@@ -1181,7 +1192,7 @@ static void asm_copy_struct_reg(ASMCodegenData_T* cg)
 
 static void asm_copy_struct_mem(ASMCodegenData_T* cg, ASTNode_T* val)
 {
-    ASTType_T* ty = cg->current_fn->return_type;
+    ASTType_T* ty = unpack(cg->current_fn->return_type);
     assert(ty != NULL);
     assert(cg->current_fn->return_ptr != NULL);
     asm_println(cg, "  mov %d(%%rbp), %%rdi", cg->current_fn->return_ptr->offset);
@@ -1191,6 +1202,8 @@ static void asm_copy_struct_mem(ASMCodegenData_T* cg, ASTNode_T* val)
         asm_println(cg, "  mov %d(%%rax), %%dl", i);
         asm_println(cg, "  mov %%dl, %d(%%rdi)", i);
     }
+
+    asm_println(cg, "  mov %%rdi, %%rax");
 }
 
 static void asm_copy_ret_buffer(ASMCodegenData_T* cg, ASTObj_T* var)
@@ -1504,27 +1517,12 @@ static i32 asm_push_args(ASMCodegenData_T* cg, ASTNode_T* node)
         ASTType_T* ty = unpack(arg->data_type);
         switch(ty->kind)
         {
+            case TY_DYN:
             case TY_STRUCT:
-                if(ty->size > 16)
+                if(!asm_struct_in_regs(ty, &gp, &fp))
                 {
                     arg->pass_by_stack = true;
                     stack += align_to(ty->size, 8) / 8;
-                }
-                else
-                {
-                    bool fp1 = asm_has_flonum_1(ty);
-                    bool fp2 = asm_has_flonum_2(ty);
-
-                    if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
-                    {
-                        fp += fp1 + fp2;
-                        gp += !fp1 + !fp2;
-                    }
-                    else
-                    {
-                        arg->pass_by_stack = true;
-                        stack += align_to(ty->size, 8) / 8;
-                    }
                 } break;
             case TY_F32:
             case TY_F64:
@@ -1569,47 +1567,38 @@ static i32 asm_pop_args(ASMCodegenData_T* cg, ASTNode_T* node)
 {
     i32 gp = 0, fp = 0;
 
-    if(node->data_type->kind != TY_VOID && node->data_type->size > 16)
+    if(node->return_buffer && node->data_type->size > 16)
         asm_pop(cg, argreg64[gp++]);
     for(u64 i = 0; i < node->args->size; i++)
     {
         ASTNode_T* arg = node->args->items[i];
+        if(arg->pass_by_stack)
+            continue;
+
         ASTType_T* ty = unpack(arg->data_type);
         switch(ty->kind)
         {
             case TY_STRUCT:
             case TY_DYN:
-                if(ty->size > 16)
-                    continue;
-                
-                bool fp1 = asm_has_flonum_1(ty);
-                bool fp2 = asm_has_flonum_2(ty);
-                if(fp + fp1 + fp2 < ASM_FP_MAX && gp + !fp1 + !fp2 < ASM_GP_MAX)
+                if(asm_has_flonum_1(ty))
+                    asm_popf(cg, fp++);
+                else
+                    asm_pop(cg, argreg64[gp++]);
+
+                if(ty->size > 8)
                 {
-                    if(fp1)
+                    if(asm_has_flonum_2(ty))
                         asm_popf(cg, fp++);
                     else
                         asm_pop(cg, argreg64[gp++]);
-                    
-                    if(ty->size > 8) 
-                    {
-                        if(fp2)
-                            asm_popf(cg, fp++);
-                        else
-                            asm_pop(cg, argreg64[gp++]);    
-                    }
                 }
                 break;
             case TY_F32:
             case TY_F64:
-                if(fp < ASM_FP_MAX)
-                    asm_popf(cg, fp++);
-                break;
-            case TY_F80:
+                asm_popf(cg, fp++);
                 break;
             default:
-                if(gp < ASM_GP_MAX)
-                    asm_pop(cg, argreg64[gp++]);
+                asm_pop(cg, argreg64[gp++]);
         }
     }
 
@@ -2209,7 +2198,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             // It looks like the most significant 48 or 56 bits in RAX may
 		    // contain garbage if a function return type is short or bool/char,
 		    // respectively. We clear the upper bits here.
-            switch(node->data_type->kind)
+            switch(unpack(node->data_type)->kind)
             {
                 case TY_BOOL:
                     asm_println(cg, "  movzx %%al, %%eax");
-- 
2.43.0


From bfed425054bd97d653e2f7fc1912a6b2bd9ea90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 015/159] fix: return structs from lambdas

---
 src/compiler/codegen/asm/asm_codegen.c | 2 ++
 src/compiler/parser/validator.c        | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 30b4ffe..0431013 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2059,6 +2059,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 ASTObj_T* impl = init_ast_obj(&cg->context->raw_allocator, OBJ_LAMBDA, node->tok);
                 impl->body = node;
+                impl->return_type = node->data_type->base;
+                impl->return_ptr = node->return_ptr;
                 list_push(cg->ast->objs, impl);
             } return;
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 3767f2a..5f1c402 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1864,6 +1864,9 @@ static void iter_leave_lambda(ASTNode_T* lambda, va_list args)
         lambda->return_ptr->data_type->base = lambda->data_type->base;
         lambda->return_ptr->data_type->size = get_type_size(v, lambda->return_ptr->data_type);
         lambda->return_ptr->data_type->align = 8;
+
+        if(in_function(v))
+            list_push(in_function(v)->objs, lambda->return_ptr);
     }
 }
 
-- 
2.43.0


From 063da9cf85a4bf57839203555e1043480cb28caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 016/159] fix: keep the stack balanced when a lambda returns
 out of a range-based for loop

---
 src/compiler/codegen/asm/asm_codegen.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 0431013..8d3cad2 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2630,7 +2630,9 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_println(cg, "  push %%rdi");
             asm_println(cg, "  push %%rdx");
+            cg->depth += 2;
             asm_gen_stmt(cg, node->body);
+            cg->depth -= 2;
             asm_println(cg, ".L.continue.%lu:", c);
             asm_println(cg, "  pop %%rdx");
             asm_println(cg, "  pop %%rdi");
@@ -2806,6 +2808,10 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 }
             }
 
+            // lambdas don't have a stack frame of their own, so that values which are still pushed have to be removed here
+            if(cg->current_fn->kind == OBJ_LAMBDA && cg->depth > 0)
+                asm_println(cg, "  add $%d, %%rsp", cg->depth * 8);
+
             asm_println(cg, "  jmp .L.return.%s", cg->current_fn_name);
             return;
         
-- 
2.43.0


From 7ff3f2a70905af2fc3ce60352782f07671324bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 017/159] fix: return dyn values from functions

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 5f1c402..3d90355 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1254,7 +1254,7 @@ static void iter_validate_call(ASTNode_T* call, va_list args)
     }
 
     // if we compile using the assembly compiler, a buffer for the return value is needed when handling big structs
-    if(v->context->ct == CT_ASM && call->data_type && unpack(call->data_type)->kind == TY_STRUCT)
+    if(v->context->ct == CT_ASM && call->data_type && (unpack(call->data_type)->kind == TY_STRUCT || unpack(call->data_type)->kind == TY_DYN))
     {
         ASTObj_T* ret_buf = init_ast_obj(&v->context->raw_allocator, OBJ_LOCAL, call->tok);
         ret_buf->data_type = call->data_type;
-- 
2.43.0


From 2b657dea32de29b942efe8a0f21573dcf5e14e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 018/159] fix: scale pointer arithmetic by the size of the base
 type

---
 src/compiler/codegen/asm/asm_codegen.c | 104 ++++++++++++-------------
 1 file changed, 51 insertions(+), 53 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 8d3cad2..f6c6a45 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -871,6 +871,14 @@ static void asm_popf(ASMCodegenData_T* cg, i32 reg)
     cg->depth--;
 }
 
+// sign-extend an index of a type smaller than 64 bits, since it gets multiplied with the element size at 64 bits
+static void asm_extend_index(ASMCodegenData_T* cg, ASTType_T* ty)
+{
+    ty = unpack(ty);
+    if(is_integer(ty) && !unsigned_type(ty) && ty->size < 8)
+        asm_println(cg, "  movslq %%eax, %%rax");
+}
+
 static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_address)
 {
     asm_gen_expr(cg, index->left);
@@ -881,12 +889,14 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
         case TY_PTR:
         case TY_FN:
             asm_gen_expr(cg, index->expr);
+            asm_extend_index(cg, index->expr->data_type);
             asm_pop(cg, "%rdi");
             asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
             break;
 
         case TY_C_ARRAY:
             asm_gen_expr(cg, index->expr);
+            asm_extend_index(cg, index->expr->data_type);
             asm_pop(cg, "%rdi");
             if(index->from_back)
             {
@@ -904,6 +914,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
                 asm_load(cg, (ASTType_T*) primitives[TY_U64]);
                 asm_push(cg);
                 asm_gen_expr(cg, index->expr);
+                asm_extend_index(cg, index->expr->data_type);
                 asm_pop(cg, "%rcx"); // length
                 asm_pop(cg, "%rdi"); // pointer
 
@@ -914,6 +925,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
             else
             {
                 asm_gen_expr(cg, index->expr);
+                asm_extend_index(cg, index->expr->data_type);
                 asm_pop(cg, "%rdi");
                 asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
             }
@@ -1660,6 +1672,40 @@ static void asm_gen_id_ptr(ASMCodegenData_T* cg, ASTNode_T* id)
     }
 }
 
+static void asm_gen_ptr_scale(ASMCodegenData_T* cg, ASTNode_T* operand, i32 base_size)
+{
+    if(ptr_type(operand->data_type))
+        return;
+
+    asm_extend_index(cg, operand->data_type);
+    asm_println(cg, "  imul $%d, %%rax", base_size);
+}
+
+// a + b -> a + b * sizeof *a
+// a - b -> a - b * sizeof *a if b is a number, (a - b) / sizeof *a if b is a pointer
+static void asm_gen_ptr_arith(ASMCodegenData_T* cg, ASTNode_T* node)
+{
+    bool diff = node->kind == ND_SUB && ptr_type(node->right->data_type);
+    ASTType_T* type = unpack(ptr_type(node->left->data_type) ? node->left->data_type : node->right->data_type);
+    i32 base_size = MAX(type->base->size, 1);
+
+    asm_gen_expr(cg, node->right);
+    asm_gen_ptr_scale(cg, node->right, base_size);
+    asm_push(cg);
+
+    asm_gen_expr(cg, node->left);
+    asm_gen_ptr_scale(cg, node->left, base_size);
+    asm_pop(cg, "%rdi");
+    asm_println(cg, "  %s %%rdi, %%rax", node->kind == ND_ADD ? "add" : "sub");
+
+    if(diff && base_size > 1)
+    {
+        asm_println(cg, "  mov $%d, %%rdi", base_size);
+        asm_println(cg, "  cqo");
+        asm_println(cg, "  idiv %%rdi");
+    }
+}
+
 static void asm_gen_struct_lit(ASMCodegenData_T* cg, ASTNode_T* node)
 {
     ASTType_T* struct_type = unpack(node->data_type);
@@ -1846,65 +1892,17 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         case ND_ADD:
             if(unpack(node->left->data_type)->base && unpack(node->right->data_type)->base)
                 throw_error(cg->context, ERR_SYNTAX_ERROR, node->tok, "cannot add two pointer types together");
-            if(ptr_type(node->left->data_type) && unpack(node->left->data_type)->base->size > 1)
+            if(ptr_type(node->left->data_type) || ptr_type(node->right->data_type))
             {
-                // if we add a number to a pointer, multiply the second argument with the base type size
-                // a + b -> a + b * sizeof *a
-                ASTNode_T new_right = {
-                    .kind = ND_MUL,
-                    .data_type = node->right->data_type,
-                    .left = node->right,
-                    .right = &(ASTNode_T) {
-                        .kind = ND_LONG,
-                        .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->base->size
-                    }
-                };
-
-                node->right = &new_right;
+                asm_gen_ptr_arith(cg, node);
+                return;
             }
             break;
         
         case ND_SUB:
-            if(ptr_type(node->left->data_type) && is_integer(node->right->data_type))
+            if(ptr_type(node->left->data_type))
             {
-                // if we subtract a number from a pointer, multiply the second argument with the base type size
-                // a - b -> a - b * sizeof *a
-
-                node->bool_val = true;
-
-                ASTNode_T new_right = {
-                    .kind = ND_MUL,
-                    .data_type = node->right->data_type,
-                    .left = node->right,
-                    .right = &(ASTNode_T) {
-                        .kind = ND_LONG,
-                        .data_type = (ASTType_T*) primitives[TY_U64],
-                        .long_val = unpack(node->left->data_type)->size
-                    }
-                };
-
-                node->right = &new_right;
-            }
-            else if(ptr_type(node->left->data_type) && ptr_type(node->left->data_type) && !node->bool_val)
-            {
-                // if both subtraction arguments are pointers, return the number of elements in between
-                // a - b -> (a - b) / sizeof *a
-
-                node->bool_val = true;
-
-                ASTNode_T converted = {
-                    .kind = ND_DIV,
-                    .data_type = (ASTType_T*) primitives[TY_I64],
-                    .left = node,
-                    .right = &(ASTNode_T) {
-                        .kind = ND_LONG,
-                        .data_type = (ASTType_T*) primitives[TY_I64],
-                        .int_val = unpack(node->left->data_type)->base->size
-                    }
-                };
-
-                asm_gen_expr(cg, &converted);
+                asm_gen_ptr_arith(cg, node);
                 return;
             }
             break;
-- 
2.43.0


From b6485c8e802b7a555de788d43aeef691fa99c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 019/159] fix: keep the piped value on the stack instead of in
 a register which calls overwrite

---
 src/compiler/codegen/asm/asm_codegen.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f6c6a45..b57976e 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -79,7 +79,6 @@ static const char* argreg16[] = {"%di", "%si", "%dx", "%cx", "%r8w", "%r9w"};
 static const char* argreg32[] = {"%edi", "%esi", "%edx", "%ecx", "%r8d", "%r9d"};
 static const char* argreg64[] = {"%rdi", "%rsi", "%rdx", "%rcx", "%r8", "%r9"};
 static const char call_reg[] = "%r10";
-static const char pipe_reg[] = "%r15";
 
 // The table for type casts
 static const char i32i8[]  = "movsbl %al, %eax";
@@ -185,6 +184,7 @@ static bool asm_has_flonum(ASTType_T* ty, i32 lo, i32 hi, i32 offset);
 static bool asm_has_flonum_1(ASTType_T* ty);
 static bool asm_has_flonum_2(ASTType_T* ty);
 static bool asm_struct_in_regs(ASTType_T* ty, i32* gp, i32* fp);
+static void asm_gen_hole(ASMCodegenData_T* cg, ASTNode_T* hole);
 static void asm_store_fp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_store_gp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
@@ -1060,7 +1060,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
             asm_gen_index(cg, node, true);
             return;
         case ND_HOLE:
-            asm_println(cg, "  mov %s, %%rax", pipe_reg);
+            asm_gen_hole(cg, node);
             return;
         case ND_TERNARY:
         case ND_ELSE_EXPR:
@@ -1727,6 +1727,16 @@ static void asm_gen_struct_lit(ASMCodegenData_T* cg, ASTNode_T* node)
     }
 }
 
+// loads the piped value, which was pushed by the enclosing pipe expression
+static void asm_gen_hole(ASMCodegenData_T* cg, ASTNode_T* hole)
+{
+    i64 offset = (cg->depth - hole->expr->long_val) * 8;
+
+    asm_println(cg, "  mov %ld(%%rsp), %%rax", offset);
+    if(is_flonum(unpack(hole->data_type)))
+        asm_println(cg, "  movsd %ld(%%rsp), %%xmm0", offset);
+}
+
 static void asm_gen_inline_strlen(ASMCodegenData_T* cg)
 {
     asm_println(cg, "  mov %%rax, %%rdi");
@@ -1847,12 +1857,19 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_PIPE:
             asm_gen_expr(cg, node->left);
-            asm_println(cg, "  mov %%rax, %s", pipe_reg);
+            if(is_flonum(unpack(node->left->data_type)))
+                asm_pushf(cg);
+            else
+                asm_push(cg);
+            node->long_val = cg->depth;
+
             asm_gen_expr(cg, node->right);
+            asm_println(cg, "  add $8, %%rsp");
+            cg->depth--;
             return;
         
         case ND_HOLE:
-            asm_println(cg, "  mov %s, %%rax", pipe_reg);
+            asm_gen_hole(cg, node);
             return;
 
         case ND_NEG:
-- 
2.43.0


From d4b5fe2b2f31480ec824419cd80a29c1f540c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 020/159] fix: look through type aliases in casts to bool and
 in negations

---
 src/compiler/codegen/asm/asm_codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index b57976e..4946d10 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1295,6 +1295,7 @@ static void asm_cmp_zero(ASMCodegenData_T* cg, ASTType_T* ty)
 
 static void asm_cast(ASMCodegenData_T* cg, ASTType_T* from, ASTType_T* to) 
 {
+    to = unpack(to);
     if(to->kind == TY_VOID)
         return;
     
@@ -1874,7 +1875,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
         case ND_NEG:
             asm_gen_expr(cg, node->right);
-            switch(node->data_type->kind)
+            switch(unpack(node->data_type)->kind)
             {
                 case TY_F32:
                     asm_println(cg, "  mov $1, %%rax");
-- 
2.43.0


From c20574da8e41db7ce3dc425dc2a8b145bd513d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 021/159] fix: convert constant initializers of globals to the
 type they are stored as

---
 src/compiler/codegen/asm/asm_codegen.c |   4 +-
 src/compiler/codegen/asm/relocation.c  | 128 +++++++++++++++++++++++--
 src/compiler/codegen/asm/relocation.h  |   1 +
 3 files changed, 120 insertions(+), 13 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 4946d10..646516f 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -538,9 +538,7 @@ static void asm_assign_lvar_offsets(ASMCodegenData_T* cg, List_T* objs)
 
 static void asm_gen_relocation(ASMCodegenData_T* cg, ASTObj_T* var)
 {
-    ASTNode_T* value = var->value;
-    size_t target_size = var->data_type->size;
-    gen_relocation(cg, value, target_size);
+    gen_typed_relocation(cg, var->value, var->data_type);
 }
 
 static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
diff --git a/src/compiler/codegen/asm/relocation.c b/src/compiler/codegen/asm/relocation.c
index e7fbafd..f7d0b75 100644
--- a/src/compiler/codegen/asm/relocation.c
+++ b/src/compiler/codegen/asm/relocation.c
@@ -72,6 +72,120 @@ u8 escape_sequence(char c, const char* str, size_t* i)
     }
 }
 
+typedef struct {
+    enum { NUM_SIGNED, NUM_UNSIGNED, NUM_FLOAT } kind;
+    union {
+        i64 i;
+        u64 u;
+        f64 f;
+    };
+} ConstNumber_T;
+
+static ConstNumber_T cast_const_number(ConstNumber_T n, ASTType_T* type)
+{
+    if(is_flonum(type))
+    {
+        f64 f = n.kind == NUM_FLOAT ? n.f : n.kind == NUM_UNSIGNED ? (f64) n.u : (f64) n.i;
+        return (ConstNumber_T){.kind = NUM_FLOAT, .f = type->kind == TY_F32 ? (f32) f : f};
+    }
+
+    if(type->kind == TY_BOOL)
+        return (ConstNumber_T){.kind = NUM_UNSIGNED, .u = n.kind == NUM_FLOAT ? n.f != 0.0 : n.u != 0};
+
+    if(n.kind == NUM_FLOAT)
+        n.u = is_unsigned_integer_type(type) && n.f >= 0.0 ? (u64) n.f : (u64) (i64) n.f;
+
+    switch(type->kind)
+    {
+        case TY_I8:
+        case TY_CHAR:
+            return (ConstNumber_T){.kind = NUM_SIGNED, .i = (i8) n.i};
+        case TY_I16:
+            return (ConstNumber_T){.kind = NUM_SIGNED, .i = (i16) n.i};
+        case TY_I32:
+        case TY_ENUM:
+            return (ConstNumber_T){.kind = NUM_SIGNED, .i = (i32) n.i};
+        case TY_U8:
+            return (ConstNumber_T){.kind = NUM_UNSIGNED, .u = (u8) n.u};
+        case TY_U16:
+            return (ConstNumber_T){.kind = NUM_UNSIGNED, .u = (u16) n.u};
+        case TY_U32:
+            return (ConstNumber_T){.kind = NUM_UNSIGNED, .u = (u32) n.u};
+        case TY_U64:
+            return (ConstNumber_T){.kind = NUM_UNSIGNED, .u = n.u};
+        default:
+            return (ConstNumber_T){.kind = NUM_SIGNED, .i = n.i};
+    }
+}
+
+// get the value of a number literal, converted by all the casts around it
+static bool const_number(ASTNode_T* node, ConstNumber_T* dest)
+{
+    switch(node->kind)
+    {
+        case ND_INT:
+        case ND_CHAR:
+            *dest = (ConstNumber_T){.kind = NUM_SIGNED, .i = node->int_val};
+            return true;
+        case ND_LONG:
+            *dest = (ConstNumber_T){.kind = NUM_SIGNED, .i = node->long_val};
+            return true;
+        case ND_ULONG:
+            *dest = (ConstNumber_T){.kind = NUM_UNSIGNED, .u = node->ulong_val};
+            return true;
+        case ND_BOOL:
+            *dest = (ConstNumber_T){.kind = NUM_UNSIGNED, .u = node->bool_val};
+            return true;
+        case ND_FLOAT:
+            *dest = (ConstNumber_T){.kind = NUM_FLOAT, .f = node->float_val};
+            return true;
+        case ND_DOUBLE:
+            *dest = (ConstNumber_T){.kind = NUM_FLOAT, .f = node->double_val};
+            return true;
+        case ND_CAST:
+            if(!const_number(node->left, dest))
+                return false;
+            *dest = cast_const_number(*dest, unpack(node->data_type));
+            return true;
+        case ND_NEG:
+            if(!const_number(node->right, dest))
+                return false;
+            if(dest->kind == NUM_FLOAT)
+                dest->f = -dest->f;
+            else
+                dest->i = -dest->i;
+            return true;
+        default:
+            return false;
+    }
+}
+
+// generate a relocation for a value which gets stored as `type`
+size_t gen_typed_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* type)
+{
+    type = unpack(type);
+
+    ConstNumber_T n;
+    if(!node || type->kind == TY_F80 || !(is_numeric(type) || type->kind == TY_BOOL || type->kind == TY_CHAR) || !const_number(node, &n))
+        return gen_relocation(cg, node, type->size);
+
+    n = cast_const_number(n, type);
+    size_t size_generated = asm_gen_const_data(cg, type->size);
+    if(type->kind == TY_F32)
+    {
+        union {
+            f32 in;
+            uint32_t out;
+        } conv = {.in = (f32) n.f};
+        asm_println(cg, "%u", conv.out);
+    }
+    else if(n.kind == NUM_UNSIGNED)
+        asm_println(cg, "%lu", n.u);
+    else // also prints the bits of 64 bit floats
+        asm_println(cg, "%ld", n.i);
+    return size_generated;
+}
+
 size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
 {
     if(!node)
@@ -145,9 +259,8 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
         {
             size_generated = asm_gen_const_data(cg, PTR_S);
             asm_println(cg, "%zu", node->data_type->num_indices);
-            size_t index_size = node->data_type->base->size;
             for(size_t i = 0; i < node->args->size; i++)
-                size_generated += gen_relocation(cg, node->args->items[i], index_size);
+                size_generated += gen_typed_relocation(cg, node->args->items[i], node->data_type->base);
         } break;
 
         case ND_STRUCT:
@@ -160,7 +273,7 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
 
                 if(size_generated < offset)
                     asm_println(cg, "  .zero %zu", offset - size_generated); // pad correctly
-                size_generated += gen_relocation(cg, arg, arg->data_type->size);
+                size_generated += gen_typed_relocation(cg, arg, ((ASTNode_T*) struct_type->members->items[i])->data_type);
             }  
         } break;
         
@@ -168,15 +281,10 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
             size_generated = gen_relocation(cg, node->expr, target_size);
             break;
         
-        case ND_NEG:
-            node->right->int_val = -node->right->int_val; // temporary
-            size_generated = gen_relocation(cg, node->right, target_size);
-            break;
-
         case ND_CAST:
-            size_generated = gen_relocation(cg, node->left, node->data_type->size);
+            size_generated = const_number(node, &(ConstNumber_T){}) ? gen_typed_relocation(cg, node, node->data_type) : gen_relocation(cg, node->left, node->data_type->size);
             break;
-        
+
         case ND_ID:
             if(target_size <= 8)
             {
diff --git a/src/compiler/codegen/asm/relocation.h b/src/compiler/codegen/asm/relocation.h
index 3e14763..9ca34eb 100644
--- a/src/compiler/codegen/asm/relocation.h
+++ b/src/compiler/codegen/asm/relocation.h
@@ -7,5 +7,6 @@
 
 u8 escape_sequence(char c, const char* str, size_t* i);
 size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size);
+size_t gen_typed_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* type);
 
 #endif
-- 
2.43.0


From 9cc72f55c70ae4535a6a217f475044a0da218496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 022/159] fix: read integer literals above the i64 range as u64

---
 src/compiler/lexer/lexer.c   | 2 +-
 src/compiler/parser/parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 923ff82..15016e8 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -308,7 +308,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
         lexer_advance(lexer);
     }
 
-    u64 decimal = strtoll(lexer->tmp_buffer, NULL, base);
+    u64 decimal = strtoull(lexer->tmp_buffer, NULL, base);
     sprintf(lexer->tmp_buffer, "%lu", decimal);
 
     Token_T* token = init_token(&lexer->context->raw_allocator, lexer->tmp_buffer, lexer->line, lexer->pos, TOKEN_INT, lexer->file);
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 5261fc4..713883e 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1938,7 +1938,7 @@ static ASTNode_T* parse_int_lit(Parser_T* p)
 {
     ASTNode_T* lit = init_ast_node(&p->context->raw_allocator, ND_INT, p->tok);
     parser_consume(p, TOKEN_INT, "expect integer literal (0, 1, 2, ...)");
-    i64 num = atoll(lit->tok->value);
+    u64 num = strtoull(lit->tok->value, NULL, 10);
     if(num <= INT_MAX)
     {
         lit->kind = ND_INT;
-- 
2.43.0


From 6b412dcaf651232d1f85ffabecdcd1576a1b8ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 023/159] fix: divide in constant expressions

---
 src/compiler/optimizer/constexpr.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index 778efd2..f85e53c 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -54,9 +54,13 @@ static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
         case ND_MOD:
-            return a % b;
+            if(b == 0)
+            {
+                throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero in constant expression");
+                return 0;
+            }
+            return node->kind == ND_DIV ? a / b : a % b;
         case ND_EQ:
             return a == b;
         case ND_NE:
@@ -91,7 +95,7 @@ static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
 
 static i64 const_i64_prefix(Context_T* context, ASTNode_T* node)
 {
-    i64 a = const_u64(context, node->right);
+    i64 a = const_i64(context, node->right);
 
     switch(node->kind)
     {
@@ -165,9 +169,13 @@ static i64 const_i64_infix(Context_T* context, ASTNode_T* node)
         case ND_MUL:
             return a * b;
         case ND_DIV:
-            return a - b;
         case ND_MOD:
-            return a % b;
+            if(b == 0)
+            {
+                throw_error(context, ERR_CONSTEXPR, node->tok, "division by zero in constant expression");
+                return 0;
+            }
+            return node->kind == ND_DIV ? a / b : a % b;
         case ND_EQ:
             return a == b;
         case ND_NE:
-- 
2.43.0


From b8a06eee9373d188c43a6adf4852b171ec88fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 024/159] fix: define structs in the C backend before structs
 which contain them

---
 src/compiler/codegen/transpiler/c_codegen.c | 38 +++++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index b577b66..1d84634 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -591,42 +591,50 @@ static void c_gen_struct(CCodegenData_T* cg, ASTType_T* type, const char* name)
     c_putc(cg, '}');
 }
 
+static void c_predefine_dependant_structs(CCodegenData_T* cg, ASTType_T* type);
+
+// emits the definitions of all structs which have to be complete before `type` can be used by value
 static void c_predefine_struct(CCodegenData_T* cg, ASTType_T* type)
 {
     switch(type->kind)
     {
     case TY_ARRAY:
-    case TY_PTR:
+    case TY_C_ARRAY:
     case TY_VLA:
         c_predefine_struct(cg, type->base);
         break;
-    
-    case TY_FN:
-        for(size_t i = 0; i < type->arg_types->size; i++)
-            c_predefine_struct(cg, type->arg_types->items[i]);
-        c_predefine_struct(cg, type->base);
+
+    case TY_STRUCT:
+        c_predefine_dependant_structs(cg, type);
         break;
 
     case TY_UNDEF:
-        if(type->referenced_obj && type->referenced_obj->generated && type->base->kind == TY_STRUCT)
+    {
+        ASTObj_T* obj = type->referenced_obj;
+        if(!obj || obj->kind != OBJ_TYPEDEF)
+            break;
+        
+        if(obj->data_type->kind != TY_STRUCT)
+            c_predefine_struct(cg, obj->data_type);
+        else if(obj->generated)
         {
-            type->referenced_obj->generated = false;
-            c_gen_struct(cg, type->base, c_gen_identifier(cg->context, type->id));
+            obj->generated = false;
+            c_predefine_dependant_structs(cg, obj->data_type);
+            c_gen_struct(cg, obj->data_type, c_gen_identifier(cg->context, obj->id));
             c_println(cg, ";");
         }
-        break;
+    } break;
 
     default:
         break;
     }
 }
 
-static void c_predefine_dependant_structs(CCodegenData_T* cg, ASTObj_T* obj)
+static void c_predefine_dependant_structs(CCodegenData_T* cg, ASTType_T* type)
 {
-    ASTType_T* s_type = obj->data_type;
-    for(size_t i = 0; i < s_type->members->size; i++)
+    for(size_t i = 0; i < type->members->size; i++)
     {
-        ASTNode_T* member = s_type->members->items[i];
+        ASTNode_T* member = type->members->items[i];
         c_predefine_struct(cg, member->data_type);
     }
 }
@@ -645,7 +653,7 @@ static void c_gen_structs(CCodegenData_T* cg, List_T* objs)
             if(obj->generated && obj->data_type->kind == TY_STRUCT)
             {
                 obj->generated = false;
-                c_predefine_dependant_structs(cg, obj);
+                c_predefine_dependant_structs(cg, obj->data_type);
                 c_gen_struct(cg, obj->data_type, c_gen_identifier(cg->context, obj->id));
                 c_println(cg, ";");
             }
-- 
2.43.0


From 0793cd5f89f5eee0cad56c9c8e95889b80b9b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 025/159] fix: scale pointer arithmetic and do not cast
 operands of pointer comparisons to bool in the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 53 +++++++++++++++------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 1d84634..91ae01a 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1326,9 +1326,42 @@ static ssize_t get_vtable_index(CCodegenData_T* cg, ASTType_T* interface, const
     return -1;
 }
 
+static void c_gen_ptr_operand(CCodegenData_T* cg, ASTNode_T* operand, bool as_ptr, const char* int_type)
+{
+    c_putc(cg, '(');
+    c_putc(cg, '(');
+    if(as_ptr)
+        c_gen_type(cg, operand->data_type, true);
+    else
+        c_print(cg, "%s", int_type);
+    c_print(cg, ") (");
+    c_gen_expr(cg, operand, true);
+    c_print(cg, "))");
+}
+
+// binary operators of which at least one operand is a pointer
+static void c_gen_ptr_op(CCodegenData_T* cg, ASTNode_T* node)
+{
+    bool left = is_pointer(unpack(node->left->data_type)), right = is_pointer(unpack(node->right->data_type));
+    // the addition and subtraction of pointers are scaled by the size of the base type
+    bool scaled = node->kind == ND_ADD ? left != right : node->kind == ND_SUB && left;
+    const char* int_type = scaled ? "intptr_t" : "uintptr_t";
+
+    c_print(cg, "((");
+    c_gen_type(cg, node->data_type, true);
+    c_print(cg, ") (");
+    if(scaled && left && right)
+        c_print(cg, "(intptr_t) (");
+    c_gen_ptr_operand(cg, node->left, scaled && left, int_type);
+    c_print(cg, "%s", op_symbols[node->kind]);
+    c_gen_ptr_operand(cg, node->right, scaled && right, int_type);
+    if(scaled && left && right)
+        c_putc(cg, ')');
+    c_print(cg, "))");
+}
+
 static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
 {
-    bool cast_to_int = false;
     switch(node->kind)
     {
         case ND_FLOAT:
@@ -1431,25 +1464,17 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
         case ND_XOR:
         case ND_BIT_OR:
         case ND_BIT_AND:
-            cast_to_int = is_pointer(unpack(node->left->data_type)) || is_pointer(unpack(node->right->data_type)) ;
+            if(is_pointer(unpack(node->left->data_type)) || is_pointer(unpack(node->right->data_type)))
+            {
+                c_gen_ptr_op(cg, node);
+                break;
+            }
             // fall through
         case ND_ASSIGN:
             c_putc(cg, '(');
-            if(cast_to_int)
-            {
-                c_print(cg, "((");
-                c_gen_type(cg, node->data_type, true);
-                c_print(cg, ") ((uintptr_t)(");
-            }
             c_gen_expr(cg, node->left, true);
-            if(cast_to_int)
-                c_print(cg, "))");
             c_print(cg, "%s", op_symbols[node->kind]);
-            if(cast_to_int)
-                c_print(cg, "((uintptr_t)(");
             c_gen_expr(cg, node->right, true);
-            if(cast_to_int)
-                c_print(cg, ")))");
             c_putc(cg, ')');
             break;
         case ND_ARRAY:
-- 
2.43.0


From 7a84b3a6b9951ab248bb872aaafc7ee720707356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 026/159] fix: do not confuse [^i] arguments with arguments
 passed on the stack

---
 src/compiler/ast/ast.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ast/ast.h b/src/compiler/ast/ast.h
index b824f02..a0fc184 100644
--- a/src/compiler/ast/ast.h
+++ b/src/compiler/ast/ast.h
@@ -150,12 +150,14 @@ struct AST_NODE_STRUCT
 
     union { 
         bool is_default_case : 1; // case
-        bool pass_by_stack   : 1; // call
         bool from_back       : 1; // index
     };
 
     UnpackMode_T unpack_mode : 2;
 
+    // call argument
+    bool pass_by_stack   : 1;
+
     // assignment expression
     bool is_assigning    : 1;
     bool output          : 1;
-- 
2.43.0


From da5dc3905055ffa68df3d3fdfe5b29f1c54b5c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 027/159] fix: index arrays from the back and take their length
 by their declared size

---
 src/compiler/codegen/asm/asm_codegen.c      | 21 ++++++++---
 src/compiler/codegen/transpiler/c_codegen.c | 39 ++++++++++++++++-----
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 646516f..7f2e533 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -899,7 +899,7 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
             if(index->from_back)
             {
                 asm_println(cg, "  imul $%d, %%rax", -index->data_type->size);
-                asm_println(cg, "  add $%d, %%rax", index->left->data_type->size + index->data_type->size);
+                asm_println(cg, "  add $%zu, %%rax", unpack(index->left->data_type)->num_indices * index->data_type->size);
             }
             else
                 asm_println(cg, "  imul $%d, %%rax", index->data_type->size);
@@ -908,8 +908,11 @@ static void asm_gen_index(ASMCodegenData_T* cg, ASTNode_T* index, bool gen_addre
         case TY_VLA:
         case TY_ARRAY:
             if(index->from_back)
-            {                
-                asm_load(cg, (ASTType_T*) primitives[TY_U64]);
+            {
+                if(unpack(index->left->data_type)->kind == TY_ARRAY)
+                    asm_println(cg, "  mov $%lu, %%rax", unpack(index->left->data_type)->num_indices);
+                else
+                    asm_load(cg, (ASTType_T*) primitives[TY_U64]);
                 asm_push(cg);
                 asm_gen_expr(cg, index->expr);
                 asm_extend_index(cg, index->expr->data_type);
@@ -1831,10 +1834,10 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                 switch(ty->kind)
                 {
                     case TY_C_ARRAY:
+                    case TY_ARRAY:
                         asm_println(cg, "  mov $%lu, %%rax", ty->num_indices);
                         break;
                     
-                    case TY_ARRAY:
                     case TY_VLA:
                         asm_gen_addr(cg, node->expr);
                         asm_println(cg, "  mov (%%rax), %%rax");
@@ -2001,6 +2004,16 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
         case ND_REF:
             asm_gen_addr(cg, node->right);
+            // a fixed-size array which is passed as an array of any size has to carry its length
+            if(unpack(node->data_type)->kind == TY_VLA && unpack(node->right->data_type)->kind == TY_ARRAY)
+            {
+                u64 c = cg->max_count++;
+                size_t length = unpack(node->right->data_type)->num_indices;
+                asm_println(cg, "  cmpq $%lu, (%%rax)", length);
+                asm_println(cg, "  je .L.len.%lu", c);
+                asm_println(cg, "  movq $%lu, (%%rax)", length);
+                asm_println(cg, ".L.len.%lu:", c);
+            }
             return;
         
         case ND_DEREF:
diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 91ae01a..ba63672 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -124,6 +124,11 @@ static const char c_header_text[] =
     "  for(l = 0; s[l]; l++);\n"
     "  return l;\n"
     "}\n"
+    "\n"
+    "static inline void* _array_ref(void* a, uint64_t l) {\n"
+    "  if(*(uint64_t*) a != l) *(uint64_t*) a = l;\n"
+    "  return a;\n"
+    "}\n"
     "\n";
 
 /*
@@ -1253,9 +1258,10 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
     c_print(cg, "\n)");
 }
 
-static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
+static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index, bool from_back)
 {
-    ASTTypeKind_T ty = unpack(node->data_type)->kind;
+    ASTType_T* type = unpack(node->data_type);
+    ASTTypeKind_T ty = type->kind;
     switch(ty)
     {
         case TY_PTR:
@@ -1264,6 +1270,8 @@ static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
             c_putc(cg, '(');
             c_gen_expr(cg, node, true);
             c_print(cg, ")[");
+            if(from_back && ty == TY_C_ARRAY)
+                c_print(cg, "%lu - ", type->num_indices);
             c_gen_expr(cg, index, true);
             c_print(cg, "]");
             break;
@@ -1273,6 +1281,14 @@ static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
             c_putc(cg, '(');
             c_gen_expr(cg, node, true);
             c_print(cg, ")%s__v[", ty == TY_ARRAY ? "." : "->");
+            if(from_back && ty == TY_ARRAY)
+                c_print(cg, "%lu - ", type->num_indices);
+            else if(from_back)
+            {
+                c_putc(cg, '(');
+                c_gen_expr(cg, node, true);
+                c_print(cg, ")->__s - ");
+            }
             c_gen_expr(cg, index, true);
             c_putc(cg, ']');
             break;
@@ -1284,7 +1300,7 @@ static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index)
 
 static void c_gen_index(CCodegenData_T* cg, ASTNode_T* node)
 {
-    c_gen_index2(cg, node->left, node->expr);
+    c_gen_index2(cg, node->left, node->expr, node->from_back);
 }
 
 static void c_gen_unpack_arg(CCodegenData_T* cg, ASTNode_T* arg)
@@ -1303,7 +1319,7 @@ static void c_gen_unpack_arg(CCodegenData_T* cg, ASTNode_T* arg)
             c_print(cg, ")." ID_PREFIX "%s", ((ASTNode_T*)arg_type->members->items[i])->id->callee);
         }
         else
-            c_gen_index2(cg, arg, &(ASTNode_T){.kind = ND_LONG, .data_type = (ASTType_T*) primitives[TY_U64], .long_val = index});
+            c_gen_index2(cg, arg, &(ASTNode_T){.kind = ND_LONG, .data_type = (ASTType_T*) primitives[TY_U64], .long_val = index}, false);
         if(num_indices - i > 1)
             c_putc(cg, ',');
     }
@@ -1403,12 +1419,8 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
                 switch(ty->kind)
                 {
                 case TY_C_ARRAY:
-                    c_print(cg, "%lu", ty->num_indices);
-                    break;
                 case TY_ARRAY:
-                    c_putc(cg, '(');
-                    c_gen_expr(cg, node->expr, true);
-                    c_print(cg, ".__s)");
+                    c_print(cg, "%luul", ty->num_indices);
                     break;
                 case TY_VLA:
                     c_putc(cg, '(');
@@ -1435,6 +1447,15 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
         case ND_BIT_NEG:
         case ND_NOT:
         case ND_REF:
+            // a fixed-size array which is passed as an array of any size has to carry its length
+            if(unpack(node->data_type)->kind == TY_VLA && unpack(node->right->data_type)->kind == TY_ARRAY)
+            {
+                c_print(cg, "_array_ref(&");
+                c_gen_expr(cg, node->right, true);
+                c_print(cg, ",%luul)", unpack(node->right->data_type)->num_indices);
+                break;
+            }
+            // fall through
         case ND_DEREF:
             c_print(cg, "(%s", op_symbols[node->kind]);
             c_gen_expr(cg, node->right, true);
-- 
2.43.0


From 2d60cec1b06e4d740e809f0ac26522fea7d18d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 028/159] fix: keep the name of the struct type in return
 statements

---
 src/compiler/parser/typechecker.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 04f959d..13935a8 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -477,7 +477,11 @@ static void typecheck_return(ASTNode_T* ret, va_list args)
 
 patch_anon_struct:
     if(expected->kind == TY_STRUCT)
-        unpack_closure_and_casts(ret->return_val)->data_type = expected;
+    {
+        ASTNode_T* value = unpack_closure_and_casts(ret->return_val);
+        if(value->data_type->kind == TY_STRUCT)
+            value->data_type = current_return_type(t);
+    }
 }
 
 static void typecheck_binop(ASTNode_T* op, va_list args)
-- 
2.43.0


From db5befb15ee5600b390d6678f6268bfea410e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 029/159] fix: evaluate struct and array literals before
 assigning them to an existing variable

---
 src/compiler/codegen/asm/asm_codegen.c | 2 +-
 src/compiler/parser/parser.c           | 3 ---
 src/compiler/parser/validator.c        | 3 ++-
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 7f2e533..9bb558e 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2022,7 +2022,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             return;
         
         case ND_ASSIGN:
-            switch(node->right->kind)
+            switch(node->right->is_assigning ? node->right->kind : ND_NOOP)
             {
             case ND_ARRAY:
                 asm_gen_addr(cg, node->left);
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 713883e..d4f9990 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2294,10 +2294,7 @@ static ASTNode_T* parse_assignment(Parser_T* p, ASTNode_T* left)
 
     ASTNode_T* right = parse_expr(p, PREC_LOWEST, TOKEN_EOF);
     if(is_operator(op, "="))
-    {
         assign->right = right;
-        assign->right->is_assigning = assign->right->kind == ND_ARRAY || assign->right->kind == ND_STRUCT;
-    }
     else
     {
         Token_T* assign_op_tok = duplicate_token(&p->context->raw_allocator, op);
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 3d90355..7299688 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1605,7 +1605,8 @@ static void local_initializer(Validator_T* v, ASTNode_T* assign, ASTObj_T* local
 
 static void iter_enter_assignment(ASTNode_T* assign, va_list args)
 {
-    if(assign->right->kind == ND_ARRAY || assign->right->kind == ND_STRUCT)
+    // only new variables can be built in place, since the literal could refer to the old value of the variable
+    if(assign->is_initializing && (assign->right->kind == ND_ARRAY || assign->right->kind == ND_STRUCT))
         assign->right->is_assigning = true;
 }
 
-- 
2.43.0


From 2fee9892e62289a8cf62d7db3b74050a5fc88367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 030/159] fix: treat a type alias as equal to the type it
 stands for

---
 src/compiler/parser/typechecker.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 13935a8..f8797e6 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -616,8 +616,27 @@ bool types_equal_strict(Context_T* context, ASTType_T* a, ASTType_T* b)
     return true;
 }
 
+static bool is_named_type(ASTType_T* type)
+{
+    return type->kind == TY_STRUCT || type->kind == TY_ENUM || type->kind == TY_INTERFACE;
+}
+
+// a type alias is the type it stands for; only names of structs, enums etc. remain
+static ASTType_T* unpack_alias(ASTType_T* type)
+{
+    while(type && type->kind == TY_UNDEF && type->base && type->base->kind == TY_UNDEF)
+        type = type->base;
+
+    if(type && type->kind == TY_UNDEF && type->base && !is_named_type(type->base))
+        type = type->base;
+    return type;
+}
+
 bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b)
 {
+    a = unpack_alias(a);
+    b = unpack_alias(b);
+
     if(!a || !b || a->kind != b->kind || a->is_constant != b->is_constant)
         return false;
     
-- 
2.43.0


From ee68ad6f53708aec91be6a42eabcdf30264a81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 031/159] fix: compare the length and base type of arrays and
 convert array literals on assignment

---
 src/compiler/parser/typechecker.c | 35 ++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index f8797e6..6875714 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -179,6 +179,32 @@ static void typecheck_for_range(ASTNode_T* loop, va_list args)
     loop->right = implicit_cast(t, loop->right->tok, loop->right, (ASTType_T*) primitives[TY_I64], CAST_OK);
 }
 
+// converts the elements of array literals to the base type of the array the literal gets assigned to
+static bool convert_array_lit(TypeChecker_T* t, ASTType_T* expected, ASTNode_T* a_lit)
+{
+    expected = unpack(expected);
+    if(a_lit->kind != ND_ARRAY || expected->kind != TY_ARRAY || expected->num_indices != a_lit->data_type->num_indices)
+        return false;
+
+    for(size_t i = 0; i < a_lit->args->size; i++)
+    {
+        ASTNode_T* arg = a_lit->args->items[i];
+        if(arg->unpack_mode || implicitly_castable(t, arg->tok, arg->data_type, expected->base) != CAST_OK)
+            return false;
+    }
+
+    for(size_t i = 0; i < a_lit->args->size; i++)
+    {
+        ASTNode_T* arg = a_lit->args->items[i];
+        if(!types_equal(t->context, arg->data_type, expected->base))
+            a_lit->args->items[i] = implicit_cast(t, arg->tok, arg, expected->base, CAST_OK);
+    }
+
+    a_lit->data_type->base = expected->base;
+    a_lit->data_type->size = expected->size;
+    return true;
+}
+
 static void typecheck_assignment(ASTNode_T* assignment, va_list args)
 {
     GET_TYPECHECKER(args);
@@ -196,6 +222,9 @@ static void typecheck_assignment(ASTNode_T* assignment, va_list args)
     if(types_equal(t->context, assignment->left->data_type, assignment->right->data_type))
         return;
 
+    if(convert_array_lit(t, assignment->left->data_type, assignment->right))
+        return;
+
     ImplicitCastResult_T result = implicitly_castable(t, assignment->tok, assignment->right->data_type, assignment->left->data_type);
     if(!(result & CAST_ERR))
     {
@@ -642,7 +671,11 @@ bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b)
     
     switch(a->kind)
     {
+        case TY_ARRAY:
         case TY_C_ARRAY:
+            return a->num_indices == b->num_indices && types_equal(context, a->base, b->base);
+
+        case TY_VLA:
         case TY_DYN:
         case TY_PTR:
             return types_equal(context, a->base, b->base);
@@ -742,7 +775,7 @@ ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType
     if((from->kind == TY_PTR || from->kind == TY_C_ARRAY) && to->kind == TY_PTR)
         return CAST_OK;
     if(from->kind == TY_ARRAY && to->kind == TY_VLA)
-        return CAST_OK;
+        return types_equal(t->context, from->base, to->base) ? CAST_OK : CAST_ERR;
     if(from->kind == TY_PTR && unpack(from->base)->kind == TY_ARRAY && to->kind == TY_VLA)
         return types_equal(t->context, unpack(from->base)->base, to->base) ? CAST_OK : CAST_ERR;
     if(from->kind == TY_STRUCT && to->kind == TY_STRUCT)
-- 
2.43.0


From 75ea5a301acd9a3527fed6104fadcf947423204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 032/159] fix: set members without a value in struct literals
 to zero

---
 src/compiler/codegen/asm/asm_codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 9bb558e..d61f0fa 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -188,6 +188,7 @@ static void asm_gen_hole(ASMCodegenData_T* cg, ASTNode_T* hole);
 static void asm_store_fp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_store_gp(ASMCodegenData_T* cg, i32 r, i32 offset, i32 sz);
 static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node);
+static void asm_init_zero(ASMCodegenData_T* cg, ASTObj_T* var);
 static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node);
 static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda);
 static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty);
@@ -1996,6 +1997,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         }
         
         case ND_STRUCT:
+            // members without a value are zero
+            if(node->args->size < unpack(node->data_type)->members->size)
+                asm_init_zero(cg, node->buffer);
             asm_println(cg, "  lea %d(%%rbp), %%rax", node->buffer->offset);
             asm_push(cg);
             asm_gen_struct_lit(cg, node);
-- 
2.43.0


From 979dd587b937efbf9ec99ce5e35f3fef8c4a3331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 033/159] fix: print float literals exactly in the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index ba63672..c32504b 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1381,10 +1381,10 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
     switch(node->kind)
     {
         case ND_FLOAT:
-            c_print(cg, "%ff", node->float_val);
+            c_print(cg, "%af", node->float_val);
             break;
         case ND_DOUBLE:
-            c_print(cg, "%f", node->double_val);
+            c_print(cg, "%a", node->double_val);
             break;
         case ND_INT:
             c_print(cg, "%d", node->int_val);
-- 
2.43.0


From f5167387ce32d5ddb72d23a745f6881d3e7c0c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 034/159] fix: let break leave match statements in the C
 backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index c32504b..0f24189 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1926,7 +1926,8 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         char unique_name[128] = {0};
         sprintf(unique_name, UNIQUE_ID_FMT, uid);
 
-        c_println(cg, "{");
+        // `break` leaves the match statement, `continue` belongs to the enclosing loop
+        c_println(cg, "switch(0){default:{");
         c_gen_typed_name_str(cg, unique_name, node->condition->data_type);
         c_putc(cg, '=');
         c_gen_expr(cg, node->condition, true);
@@ -1944,12 +1945,12 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
 
         if(node->default_case)
         {
-            c_println(cg, "else{");
+            c_println(cg, "%s{", node->cases->size ? "else" : "");
             c_gen_stmt(cg, node->default_case->body);
             c_putc(cg, '}');
         }
 
-        c_println(cg, "}");
+        c_println(cg, "}}");
     } break;
 
     case ND_WITH:
-- 
2.43.0


From fc18e67230f7ccf303ec5070e18c838136e82380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 035/159] fix: give arrays of type aliases the same C type as
 arrays of the types they stand for

---
 src/compiler/codegen/transpiler/c_codegen.c | 15 ++++++++++++++-
 src/compiler/parser/typechecker.c           |  2 +-
 src/compiler/parser/typechecker.h           |  1 +
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 0f24189..72d0263 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -19,6 +19,7 @@
 #include "ast/ast_iterator.h"
 #include "ast/types.h"
 #include "error/error.h"
+#include "parser/typechecker.h"
 #include "hashmap.h"
 #include "list.h"
 #include "util.h"
@@ -703,7 +704,19 @@ static void c_gen_vtables(CCodegenData_T* cg, List_T* impls) {
 
 static void c_hash_array(CCodegenData_T* cg, char buffer[BUFSIZ], ASTType_T* type)
 {
-    ast_type_to_str(cg->context, buffer, type, BUFSIZ);
+    // aliases of the same type share one array type
+    type = unpack_alias(type);
+    if(type->kind == TY_ARRAY || type->kind == TY_VLA || type->kind == TY_C_ARRAY || type->kind == TY_PTR)
+    {
+        c_hash_array(cg, buffer, type->base);
+        size_t len = strlen(buffer);
+        if(type->kind == TY_PTR || type->kind == TY_VLA)
+            snprintf(buffer + len, BUFSIZ - len, type->kind == TY_PTR ? "&" : "[]");
+        else
+            snprintf(buffer + len, BUFSIZ - len, type->kind == TY_ARRAY ? "[%lu]" : " 'c[%lu]", type->num_indices);
+    }
+    else
+        ast_type_to_str(cg->context, buffer, type, BUFSIZ);
 }
 
 static void c_gen_array_typedef(ASTType_T* type, va_list custom_args)
diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 6875714..ba06526 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -651,7 +651,7 @@ static bool is_named_type(ASTType_T* type)
 }
 
 // a type alias is the type it stands for; only names of structs, enums etc. remain
-static ASTType_T* unpack_alias(ASTType_T* type)
+ASTType_T* unpack_alias(ASTType_T* type)
 {
     while(type && type->kind == TY_UNDEF && type->base && type->base->kind == TY_UNDEF)
         type = type->base;
diff --git a/src/compiler/parser/typechecker.h b/src/compiler/parser/typechecker.h
index 0c5f6d9..9176cd6 100644
--- a/src/compiler/parser/typechecker.h
+++ b/src/compiler/parser/typechecker.h
@@ -28,6 +28,7 @@ void typecheck_obj(TypeChecker_T* t, ASTObj_T* obj);
 
 bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b);
 
+ASTType_T* unpack_alias(ASTType_T* type);
 ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType_T* from, ASTType_T* to);
 ASTNode_T* implicit_cast(TypeChecker_T* t, Token_T* tok, ASTNode_T* expr, ASTType_T* to, ImplicitCastResult_T result);
 
-- 
2.43.0


From 779ffe85f21686f89911e03072792b0b88019c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 036/159] fix: wrap signed integers on overflow in the C
 backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 72d0263..70f4c3b 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -382,6 +382,8 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
             cg->context->cc,
             c_source_file,
             "-std=c99",
+            "-fwrapv", // integers wrap around and memory may be accessed through pointers of different types
+            "-fno-strict-aliasing",
             "-o",
             target,
             "-Wno-builtin-declaration-mismatch", // disable warnings for "extern "C"" function declarations
@@ -453,6 +455,8 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
             "-c",
             c_source_file,
             "-std=c99",
+            "-fwrapv", // integers wrap around and memory may be accessed through pointers of different types
+            "-fno-strict-aliasing",
             "-o",
             obj_file,
         };
-- 
2.43.0


From a35fa82b2e54f233bbbc3c729bab3bcbe8ce9b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 037/159] fix: evaluate operands of the same size and different
 signs at the left operand's type in both backends

---
 src/compiler/parser/typechecker.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index ba06526..2335d95 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -588,7 +588,8 @@ static void typecheck_binop(ASTNode_T* op, va_list args)
     );
 }
 
-// comparisons, bitwise operators and modulo are evaluated at the type of the wider operand
+// comparisons, bitwise operators and modulo are evaluated at the type of the wider operand;
+// the left operand decides if operands of the same size have a different sign
 static void typecheck_operand_width(ASTNode_T* op, va_list args)
 {
     GET_TYPECHECKER(args);
@@ -602,7 +603,11 @@ static void typecheck_operand_width(ASTNode_T* op, va_list args)
     if(is_flonum(left) != is_flonum(right))
         widen_left = is_flonum(right);
     else if(left->size == right->size)
-        return;
+    {
+        if(is_flonum(left) || unsigned_type(left) == unsigned_type(right))
+            return;
+        widen_left = false;
+    }
     else
         widen_left = left->size < right->size;
 
-- 
2.43.0


From 64f188b0c82c5d4f61e8a21c92b584d85baf43b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 038/159] fix: read arguments passed on the stack in lambdas

---
 src/compiler/codegen/asm/asm_codegen.c | 50 ++++++++++++++++++++------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index d61f0fa..2e0e6ac 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2943,39 +2943,67 @@ static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda_obj)
     if(lambda->return_ptr)
         asm_store_gp(cg, gp++, lambda->return_ptr->offset, lambda->return_ptr->data_type->size);
 
+    // pass-by-stack arguments lie above the return address and the saved base pointer
+    i32 stack_offsets[lambda->args->size + 1];
+    i32 top = 16;
+
     for(size_t j = 0; j < lambda->args->size; j++)
     {
         ASTObj_T* arg = lambda->args->items[j];
-        if(arg->offset > 0)
-            continue;
-                        
         ASTType_T* ty = unpack(arg->data_type);
+        i32 arg_gp = gp, arg_fp = fp;
 
+        stack_offsets[j] = 0;
         switch(ty->kind)
         {
             case TY_DYN:
             case TY_STRUCT:
-                assert(ty->size <= 16);
+                if(!asm_struct_in_regs(ty, &gp, &fp))
+                    break;
+
                 if(asm_has_flonum(ty, 0, 8, 0))
-                    asm_store_fp(cg, fp++, arg->offset, MIN(8, ty->size));
+                    asm_store_fp(cg, arg_fp++, arg->offset, MIN(8, ty->size));
                 else
-                    asm_store_gp(cg, gp++, arg->offset, MIN(8, ty->size));
+                    asm_store_gp(cg, arg_gp++, arg->offset, MIN(8, ty->size));
                                 
                 if(ty->size > 8)
                 {
                     if(asm_has_flonum(ty, 8, 16, 0))
-                        asm_store_fp(cg, fp++, arg->offset + 8, ty->size - 8);
+                        asm_store_fp(cg, arg_fp, arg->offset + 8, ty->size - 8);
                     else
-                        asm_store_gp(cg, gp++, arg->offset + 8, ty->size - 8);
+                        asm_store_gp(cg, arg_gp, arg->offset + 8, ty->size - 8);
                 }
-                break;
+                continue;
             case TY_F32:
             case TY_F64:
-                asm_store_fp(cg, fp++, arg->offset, ty->size);
+                if(fp++ >= ASM_FP_MAX)
+                    break;
+                asm_store_fp(cg, arg_fp, arg->offset, ty->size);
+                continue;
+            case TY_F80:
                 break;
             default:
-                asm_store_gp(cg, gp++, arg->offset, ty->size);
+                if(gp++ >= ASM_GP_MAX)
+                    break;
+                asm_store_gp(cg, arg_gp, arg->offset, ty->size);
+                continue;
         }
+
+        top = align_to(top, 8);
+        stack_offsets[j] = top;
+        top += ty->size;
+    }
+
+    for(size_t j = 0; j < lambda->args->size; j++)
+    {
+        ASTObj_T* arg = lambda->args->items[j];
+        if(!stack_offsets[j])
+            continue;
+
+        asm_println(cg, "  lea %d(%%rsp), %%rsi", stack_offsets[j]);
+        asm_println(cg, "  lea %d(%%rbp), %%rdi", arg->offset);
+        asm_println(cg, "  mov $%d, %%rcx", unpack(arg->data_type)->size);
+        asm_println(cg, "  rep movsb");
     }
 
     ASTObj_T* prev = cg->current_fn;
-- 
2.43.0


From 559ada54290db7818fac6377d9cf2e97149404d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 039/159] fix: find variadic arguments behind named arguments
 which are structs or passed on the stack

---
 src/compiler/codegen/asm/asm_codegen.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 2e0e6ac..2627ccf 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -702,13 +702,18 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
     // save arg registers if function is variadic
     if(is_variadic(obj->data_type))
     {
-        i32 gp = 0, fp = 0;
+        i32 gp = 0, fp = 0, top = 16;
         if(obj->return_ptr)
             gp++;
         for(size_t j = 0; j < obj->args->size; j++)
         {
             ASTObj_T* arg = obj->args->items[j];
-            if(is_flonum(unpack(arg->data_type)))
+            ASTType_T* ty = unpack(arg->data_type);
+            if(arg->offset > 0)
+                top = align_to(arg->offset + ty->size, 8);
+            else if(ty->kind == TY_STRUCT || ty->kind == TY_DYN)
+                asm_struct_in_regs(ty, &gp, &fp);
+            else if(is_flonum(ty))
                 fp++;
             else
                 gp++;
@@ -720,7 +725,7 @@ static void asm_gen_function(ASMCodegenData_T* cg, ASTObj_T* obj)
 		asm_println(cg, "  movl $%d, %d(%%rbp)", gp * 8, off);          // gp_offset
 		asm_println(cg, "  movl $%d, %d(%%rbp)", fp * 8 + 48, off + 4); // fp_offset
 		asm_println(cg, "  movq %%rbp, %d(%%rbp)", off + 8);            // overflow_arg_area
-		asm_println(cg, "  addq $16, %d(%%rbp)", off + 8);
+		asm_println(cg, "  addq $%d, %d(%%rbp)", top, off + 8);
 		asm_println(cg, "  movq %%rbp, %d(%%rbp)", off + 16);           // reg_save_area
 		asm_println(cg, "  addq $%d, %d(%%rbp)", off + 24, off + 16);
             
-- 
2.43.0


From 40a194391a847f067cfa8f7162c9df303d04ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 040/159] fix: pass variadic floats to C functions as doubles

---
 src/compiler/parser/typechecker.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 2335d95..dd28e6e 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -168,6 +168,9 @@ static void typecheck_call(ASTNode_T* call, va_list args)
                 if(!is_const_len_array(arg->data_type) && unpack(arg->data_type)->kind != TY_STRUCT)
                     throw_error(t->context, ERR_TYPE_ERROR_UNCR, arg->tok, "unpacking with `...` is not supported for type `%s`", ast_type_to_str(t->context, buf, arg->data_type, LEN(buf)));
             }
+            // C functions expect variadic floats as doubles
+            else if(call->called_obj && call->called_obj->is_extern && unpack(arg->data_type)->kind == TY_F32)
+                call->args->items[i] = implicit_cast(t, arg->tok, arg, (ASTType_T*) primitives[TY_F64], CAST_OK);
         }
     }
 }
-- 
2.43.0


From 6575e880af55b9659ee9987ac44b6d25c83c8714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 041/159] fix: check returned values in lambdas against the
 return type of the lambda

---
 src/compiler/parser/parser.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index d4f9990..de3f956 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -33,6 +33,7 @@ typedef struct PARSER_STRUCT
     Token_T* tok;
     ASTNode_T* cur_block;
     ASTObj_T* cur_obj;
+    const ASTType_T* cur_return_type;
 
     size_t cur_lambda_id;
     size_t cur_tuple_id;
@@ -1100,6 +1101,9 @@ static ASTObj_T* parse_fn(Parser_T* p)
 
     ASTObj_T* last_obj = p->cur_obj;
     p->cur_obj = fn;
+
+    const ASTType_T* last_return_type = p->cur_return_type;
+    p->cur_return_type = fn->return_type;
     
     if(tok_is_operator(p, "="))
     {
@@ -1117,6 +1121,7 @@ static ASTObj_T* parse_fn(Parser_T* p)
     collect_locals(fn->body, fn->objs);
 
     p->cur_obj = last_obj;
+    p->cur_return_type = last_return_type;
     
     return fn;
 }
@@ -1287,7 +1292,7 @@ static ASTNode_T* parse_return(Parser_T* p, bool needs_semicolon)
 
     if(!tok_is(p, TOKEN_SEMICOLON) && !tok_is(p, TOKEN_UNLESS) && !tok_is(p, TOKEN_WHILE))
     {
-        if((p->cur_obj && p->cur_obj->return_type->kind == TY_VOID))
+        if(p->cur_return_type && p->cur_return_type->kind == TY_VOID)
             throw_error(p->context, ERR_TYPE_ERROR_UNCR, ret->tok, "cannot return value from function with type `void`, expect `;`");
         ret->return_val = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
     }
@@ -2122,7 +2127,11 @@ static ASTNode_T* parse_lambda_lit(Parser_T* p)
     else
     {
         parser_consume(p, TOKEN_ARROW, "expect `=>` after definition");
+
+        const ASTType_T* last_return_type = p->cur_return_type;
+        p->cur_return_type = lambda->data_type->base;
         lambda->body = parse_stmt(p, false);
+        p->cur_return_type = last_return_type;
     }
 
     return lambda;
@@ -2197,7 +2206,11 @@ static ASTNode_T* parse_const_lambda(Parser_T* p)
     else
     {
         parser_consume(p, TOKEN_ARROW, "expect `=>` after definition");
+
+        const ASTType_T* last_return_type = p->cur_return_type;
+        p->cur_return_type = lambda_fn->return_type;
         lambda_fn->body = parse_stmt(p, false);
+        p->cur_return_type = last_return_type;
     }
 
     collect_locals(lambda_fn->body, lambda_fn->objs);
-- 
2.43.0


From 00bdb9f2b92c8c321bd6fcf5d406f191b90c7b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 042/159] fix: evaluate mixed operands, comparisons, recursion,
 loops and nested calls correctly at compile time

---
 src/compiler/interpreter/interpreter.c | 147 +++++++++++++++++++++++--
 src/compiler/interpreter/value.c       |  43 +++++++-
 src/compiler/interpreter/value.h       |   3 +-
 src/compiler/parser/validator.c        |   2 +-
 4 files changed, 181 insertions(+), 14 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 421fe7e..130afee 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -89,9 +89,12 @@
 #define COMPARISON_OP_CASE(node_kind, op) case node_kind: do {      \
     InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
     InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
+    balance_operands(ictx, &left_value, &right_value);              \
     switch(left_value.type->kind) {                                 \
         case TY_F32: case TY_F64: case TY_F80:                      \
             return BOOL_VALUE(interpreter_value_f80(&left_value) op interpreter_value_f80(&right_value)); \
+        case TY_U64:                                                \
+            return BOOL_VALUE((u64) interpreter_value_i64(&left_value) op (u64) interpreter_value_i64(&right_value)); \
         default:                                                    \
             return BOOL_VALUE(interpreter_value_i64(&left_value) op interpreter_value_i64(&right_value)); \
     }} while(0)
@@ -99,6 +102,8 @@
 #define INTEGER_INFIX_OP_CASE(node_kind, op) case node_kind: do {       \
         InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
         InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
+        if((node_kind) != ND_LSHIFT && (node_kind) != ND_RSHIFT)        \
+            balance_operands(ictx, &left_value, &right_value);          \
         switch(left_value.type->kind) {                                 \
             INTLIKE_INFIX_OP_CASES(left_value, right_value, op);        \
             default: unreachable();                                     \
@@ -284,6 +289,63 @@ i32 interpreter_pass(Context_T* context, ASTProg_T* ast)
     return (i32) exit_code;
 }
 
+static InterpreterValue_T convert_operand(InterpreterContext_T* ictx, InterpreterValue_T value, const ASTType_T* type)
+{
+    if(!type)
+        return value;
+    
+    type = unpack((ASTType_T*) type);
+    if(type->kind == value.type->kind || !is_numeric((ASTType_T*) type) || !is_numeric((ASTType_T*) value.type))
+        return value;
+    
+    return type_cast_map[value.type->kind][type->kind](ictx, &value);
+}
+
+// operands of different types are evaluated at the wider one, or at the left one if both are of the same size
+static void balance_operands(InterpreterContext_T* ictx, InterpreterValue_T* left, InterpreterValue_T* right)
+{
+    if(right->type->size > left->type->size)
+        *left = convert_operand(ictx, *left, right->type);
+    else
+        *right = convert_operand(ictx, *right, left->type);
+}
+
+static bool case_matches(InterpreterContext_T* ictx, ASTNodeKind_T mode, InterpreterValue_T* condition, InterpreterValue_T* case_condition)
+{
+    InterpreterValue_T value = convert_operand(ictx, *case_condition, condition->type);
+
+    bool equal = interpreter_values_equal(*condition, value), less, unordered = false;
+    switch(condition->type->kind)
+    {
+        case TY_F32:
+        case TY_F64:
+        case TY_F80:
+            less = interpreter_value_f80(condition) < interpreter_value_f80(&value);
+            unordered = !less && !equal && !(interpreter_value_f80(condition) > interpreter_value_f80(&value));
+            break;
+        case TY_U64:
+            less = (u64) interpreter_value_i64(condition) < (u64) interpreter_value_i64(&value);
+            break;
+        default:
+            less = interpreter_value_i64(condition) < interpreter_value_i64(&value);
+            break;
+    }
+
+    switch(mode)
+    {
+        case ND_LT:
+            return less;
+        case ND_LE:
+            return less || equal;
+        case ND_GT:
+            return !less && !equal && !unordered;
+        case ND_GE:
+            return !less && !unordered;
+        default:
+            return equal;
+    }
+}
+
 static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
 {
 //    printf(">> stmt %d\n", stmt->kind);
@@ -292,8 +354,8 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
         case ND_NOOP:
             break;
         case ND_RETURN:
-            ictx->returned = true;
             ictx->return_value = stmt->return_val ? interpreter_eval_expr(ictx, stmt->return_val) : VOID_VALUE;
+            ictx->returned = true;
             break;
         case ND_EXPR_STMT:
             interpreter_eval_expr(ictx, stmt->expr);
@@ -308,7 +370,10 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
         break;
         case ND_IF:
             if(interpreter_value_is_falsy(interpreter_eval_expr(ictx, stmt->condition)))
-                eval_stmt(ictx, stmt->else_branch);
+            {
+                if(stmt->else_branch)
+                    eval_stmt(ictx, stmt->else_branch);
+            }
             else
                 eval_stmt(ictx, stmt->if_branch);
             break;
@@ -323,6 +388,7 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
             };
+            ictx->broken = ictx->continued = false;
             break;
         case ND_WHILE:
             ictx->broken = false;
@@ -331,6 +397,7 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
             }
+            ictx->broken = ictx->continued = false;
             break;
         case ND_DO_WHILE:
             ictx->broken = false;
@@ -338,19 +405,22 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
             } while(!ictx->broken && !ictx->returned && interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)));
+            ictx->broken = ictx->continued = false;
             break;
         case ND_FOR:
             ictx->broken = false;
             if(stmt->init_stmt)
                 eval_stmt(ictx, stmt->init_stmt);
-            while(interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
+            while(!stmt->condition || interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
             {
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
                 if(ictx->broken || ictx->returned)
                     break;
-                interpreter_eval_expr(ictx, stmt->expr);
+                if(stmt->expr)
+                    interpreter_eval_expr(ictx, stmt->expr);
             }
+            ictx->broken = ictx->continued = false;
             break;
         // TODO: ND_FOR_RANGE
         case ND_CONTINUE:
@@ -367,15 +437,17 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
             {
                 ASTNode_T* case_stmt = stmt->cases->items[i];
                 InterpreterValue_T case_condition = interpreter_eval_expr(ictx, case_stmt->condition);
-                if(interpreter_values_equal(condition, case_condition))
+                if(case_matches(ictx, case_stmt->mode, &condition, &case_condition))
                 {
                     eval_stmt(ictx, case_stmt->body);
+                    ictx->broken = false;
                     return;
                 }
             }
 
             if(stmt->default_case)
                 eval_stmt(ictx, stmt->default_case->body);
+            ictx->broken = false;
             break;
         }
         case ND_MATCH_TYPE:
@@ -402,6 +474,7 @@ static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T*
         return left_value;
     }
 
+    balance_operands(ictx, &left_value, &right_value);
     switch(left_value.type->kind)
     {
         NUMERIC_INFIX_OP_CASES(left_value, right_value, +);
@@ -430,6 +503,7 @@ static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T*
         return left_value;
     }
 
+    balance_operands(ictx, &left_value, &right_value);
     switch(left_value.type->kind)
     {
         NUMERIC_INFIX_OP_CASES(left_value, right_value, -);
@@ -439,6 +513,28 @@ static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T*
     return left_value;
 }
 
+static void check_divisor(InterpreterContext_T* ictx, ASTNode_T* expr, InterpreterValue_T* left, InterpreterValue_T* right)
+{
+    switch(left->type->kind)
+    {
+        case TY_F32:
+        case TY_F64:
+        case TY_F80:
+            return;
+        case TY_I32:
+        case TY_I64:
+            if(interpreter_value_i64(right) == -1 && interpreter_value_i64(left) == (left->type->kind == TY_I32 ? INT32_MIN : INT64_MIN))
+            {
+                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "division overflows in constant expression");
+                return;
+            }
+            // fall through
+        default:
+            if(interpreter_value_i64(right) == 0)
+                throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "division by zero in constant expression");
+    }
+}
+
 static inline InterpreterValue_T cast_to_ptr(InterpreterContext_T* ictx, InterpreterValue_T* value, const ASTType_T* ptr_type, Token_T* tok)
 {
 #define CAST_IMPL_CASE(ty, field)                                                           \
@@ -569,6 +665,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            balance_operands(ictx, &left_value, &right_value);
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, *);
@@ -580,6 +677,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            balance_operands(ictx, &left_value, &right_value);
+            check_divisor(ictx, expr, &left_value, &right_value);
             switch(left_value.type->kind)
             {
                 NUMERIC_INFIX_OP_CASES(left_value, right_value, /);
@@ -587,7 +686,19 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             }
             return left_value;
         }
-        INTEGER_INFIX_OP_CASE(ND_MOD, %);
+        case ND_MOD:
+        {
+            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
+            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            balance_operands(ictx, &left_value, &right_value);
+            check_divisor(ictx, expr, &left_value, &right_value);
+            switch(left_value.type->kind)
+            {
+                INTLIKE_INFIX_OP_CASES(left_value, right_value, %);
+                default: unreachable();
+            }
+            return left_value;
+        }
         case ND_ID:
         {
             ASTObj_T* obj = expr->referenced_obj;
@@ -616,8 +727,9 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         }
         case ND_ASSIGN:
         {
-            LValue_T dest = eval_lvalue(ictx, expr->left);
+            // the right side may move the stack
             InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            LValue_T dest = eval_lvalue(ictx, expr->left);
             assign_lvalue(dest, &value);
             return value;
         }
@@ -675,12 +787,14 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            balance_operands(ictx, &left_value, &right_value);
             return BOOL_VALUE(interpreter_values_equal(left_value, right_value));
         }
         case ND_NE:
         {
             InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
             InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            balance_operands(ictx, &left_value, &right_value);
             return BOOL_VALUE(!interpreter_values_equal(left_value, right_value));
         }
         COMPARISON_OP_CASE(ND_LT, <);
@@ -708,6 +822,11 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
     return VOID_VALUE;
 }
 
+static inline ASTObj_T* fn_obj_at(const ASTObj_T* fn, size_t i)
+{
+    return i < fn->args->size ? fn->args->items[i] : fn->objs->items[i - fn->args->size];
+}
+
 static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn, const InterpreterValueList_T* args)
 {
     assert(args->size == fn->args->size);
@@ -721,6 +840,12 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
 
     //    printf(COLOR_BOLD_CYAN ">>> Entering %s(%zu)\n" COLOR_RESET, fn->id->callee, args->size);
     
+    // the offsets of the caller's variables, if this call is recursive (and 0 for the code generator afterwards)
+    const size_t num_objs = fn->args->size + fn->objs->size;
+    i32* saved_offsets = malloc((num_objs + 1) * sizeof(i32));
+    for(size_t i = 0; i < num_objs; i++)
+        saved_offsets[i] = fn_obj_at(fn, i)->offset;
+
     const size_t stack_size_before = ictx->stack->size;
     for(size_t i = 0; i < args->size; i++) {
         const InterpreterValue_T* arg_value = &args->data[i];
@@ -737,13 +862,19 @@ static InterpreterValue_T call_fn(InterpreterContext_T* ictx, const ASTObj_T* fn
         local->offset = stack_size;
         stack_size += local->data_type->size;
     }
-    interpreter_stack_grow(&ictx->stack, stack_size - stack_size_before);
+    const size_t locals_begin = ictx->stack->size;
+    interpreter_stack_grow(&ictx->stack, stack_size - locals_begin);
+    memset(&ictx->stack->data[locals_begin], 0, stack_size - locals_begin);
 
 //    dump_stack(ictx->stack);
     
     eval_stmt(ictx, fn->body);
 
     interpreter_stack_shrink_to(ictx->stack, stack_size_before);
+
+    for(size_t i = 0; i < num_objs; i++)
+        fn_obj_at(fn, i)->offset = saved_offsets[i];
+    free(saved_offsets);
 //    printf(COLOR_BOLD_CYAN "<<<\n" COLOR_RESET);
     ictx->recursion_depth--;
 
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 3c84f0b..70e4479 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -71,13 +71,12 @@ bool interpreter_value_is_falsy(InterpreterValue_T value)
         case TY_I16:
         case TY_I32:
         case TY_I64:
-            return value.value.integer.i64 == 0;
-
         case TY_U8:
         case TY_U16:
         case TY_U32:
         case TY_U64:
-            return value.value.uinteger.u64 == 0;
+        case TY_ENUM:
+            return interpreter_value_i64(&value) == 0;
 
         case TY_F32:
             return value.value.flt.f32 == 0;
@@ -106,22 +105,60 @@ bool interpreter_value_is_falsy(InterpreterValue_T value)
     }
 }
 
+bool interpreter_values_equal(InterpreterValue_T a, InterpreterValue_T b)
+{
+    switch(a.type->kind)
+    {
+        case TY_I8:
+        case TY_I16:
+        case TY_I32:
+        case TY_I64:
+        case TY_U8:
+        case TY_U16:
+        case TY_U32:
+        case TY_U64:
+        case TY_BOOL:
+        case TY_CHAR:
+        case TY_ENUM:
+        case TY_PTR:
+            return interpreter_value_i64(&a) == interpreter_value_i64(&b);
+
+        case TY_F32:
+        case TY_F64:
+        case TY_F80:
+            return interpreter_value_f80(&a) == interpreter_value_f80(&b);
+
+        default:
+            return memcmp(&a.value, &b.value, sizeof(InterpreterValueUnion_T)) == 0;
+    }
+}
+
 i64 interpreter_value_i64(InterpreterValue_T* value)
 {
     switch(value->type->kind)
     {
         case TY_I8:
+            return value->value.integer.i8;
         case TY_I16:
+            return value->value.integer.i16;
         case TY_I32:
+        case TY_ENUM:
+            return value->value.integer.i32;
         case TY_I64:
             return value->value.integer.i64;
 
         case TY_U8:
+            return value->value.uinteger.u8;
         case TY_U16:
+            return value->value.uinteger.u16;
         case TY_U32:
+            return value->value.uinteger.u32;
         case TY_U64:
             return (i64) value->value.uinteger.u64;
 
+        case TY_BOOL:
+            return value->value.boolean;
+
         case TY_PTR:
             return (i64) value->value.ptr;
 
diff --git a/src/compiler/interpreter/value.h b/src/compiler/interpreter/value.h
index db902e5..6d209c3 100644
--- a/src/compiler/interpreter/value.h
+++ b/src/compiler/interpreter/value.h
@@ -87,6 +87,7 @@ typedef struct INTERPRETER_VALUE_STRUCT
 
 void interpreter_value_to_str(InterpreterValue_T* value, char* dst, size_t len);
 bool interpreter_value_is_falsy(InterpreterValue_T value);
+bool interpreter_values_equal(InterpreterValue_T a, InterpreterValue_T b);
 i64 interpreter_value_i64(InterpreterValue_T* value);
 f80 interpreter_value_f80(InterpreterValue_T* value);
 
@@ -94,8 +95,6 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
 
 #define interpreter_value_is_truthy(value) (!interpreter_value_is_falsy((value)))
 
-#define interpreter_values_equal(a, b) (memcmp(&(a).value, &(b).value, sizeof(InterpreterValueUnion_T)) == 0)
-
 #define ConstInterpreterValueList_M(sz) struct { \
         size_t size;                             \
         size_t allocated;                        \
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 7299688..2d4dbcb 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -583,7 +583,7 @@ static void validate_ident_expr(ASTNode_T* node, va_list args)
         node->id->outer->outer = result.obj->id->outer;
     }
 
-    if(v->current_obj && v->current_obj->constexpr && !node->referenced_obj->constexpr && node->referenced_obj->kind != OBJ_FN_ARG)
+    if(v->current_obj && v->current_obj->constexpr && !node->referenced_obj->constexpr && node->referenced_obj->kind != OBJ_FN_ARG && node->referenced_obj->kind != OBJ_LOCAL)
     {
         char buf[BUFSIZ] = {'\0'};
         throw_error(v->context, ERR_CONSTEXPR, node->tok, "%s `%s` is not marked as `[constexpr]`", obj_kind_to_str(node->referenced_obj->kind), ast_id_to_str(buf, node->referenced_obj->id, LEN(buf)));
-- 
2.43.0


From 89461e0479129176e6584d495c04949bcbd4f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 043/159] fix: set locals to zero whenever their block is
 entered at compile time

---
 src/compiler/interpreter/interpreter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 130afee..c5b3ad2 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -365,6 +365,12 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 eval_stmt(ictx, stmt->body);
             break;
         case ND_BLOCK:
+            for(size_t i = 0; i < stmt->locals->size; i++)
+            {
+                ASTObj_T* local = stmt->locals->items[i];
+                if(local->offset)
+                    memset(&ictx->stack->data[local->offset], 0, local->data_type->size);
+            }
             for(size_t i = 0; i < stmt->stmts->size && !ictx->returned && !ictx->broken && !ictx->continued; i++)
                 eval_stmt(ictx, stmt->stmts->items[i]);
         break;
-- 
2.43.0


From 462cb858ab884f99a9192fd1a1b879091ab4c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 044/159] fix: lex `a!=b` as a comparison instead of a macro
 call

---
 src/compiler/lexer/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 15016e8..211446c 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -275,7 +275,7 @@ static Token_T* lexer_get_id(Lexer_T* lexer)
     }
 
     bool is_macro = false;
-    if(lexer->c == '!')
+    if(lexer->c == '!' && lexer_peek(lexer, 1) != '=') // `a!=b` is a comparison, not a macro call
     {
         lexer_advance(lexer);
         is_macro = true;
-- 
2.43.0


From acb4af92affd1b91402bfc3cb9ec10f3f44ddf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 045/159] fix: stop at the end of the file after a number
 prefix

---
 src/compiler/lexer/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 211446c..bbd403a 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -296,7 +296,7 @@ static Token_T* lexer_get_int(Lexer_T* lexer, const char* digits, i32 base)
 
     *lexer->tmp_buffer = '\0';
 
-    while(strchr(digits, lexer->c))
+    while(lexer->c != '\0' && strchr(digits, lexer->c))
     {
         if(lexer->c == '_')
         {
-- 
2.43.0


From 4441c974c36e119de31bfb9d0d141be2c6b8d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 046/159] fix: find the end of string literals behind escaped
 backslashes, grow the buffer of long ones in time

---
 src/compiler/lexer/lexer.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index bbd403a..04461a9 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -379,12 +379,17 @@ static Token_T* lexer_get_str(Lexer_T* lexer)
 
     lexer_advance(lexer);
 
-    while(lexer->c != '"' || (lexer_peek(lexer, -1) == '\\' && lexer_peek(lexer, -2) != '\\'))
+    u64 size = 0;
+    bool escaped = false;
+
+    while(lexer->c != '"' || escaped)
     {
-        if(strlen(buffer) - 3 >= length)
+        if(size + 1 >= length)
             buffer = realloc(buffer, length *= 2);
 
-        strcat(buffer, (char[2]){lexer->c, '\0'});
+        buffer[size++] = lexer->c;
+        buffer[size] = '\0';
+        escaped = lexer->c == '\\' && !escaped;
 
         lexer_advance(lexer);
 
-- 
2.43.0


From 0067ab2a1c190fbd1cc3ee821781071e4dc56628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 047/159] fix: write string literals in the C backend with
 unambiguous escape sequences

---
 src/compiler/codegen/transpiler/c_codegen.c | 26 ++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 70f4c3b..52ba590 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -15,6 +15,7 @@
 #include "io/log.h"
 #include "io/io.h"
 #include "../codegen_utils.h"
+#include "../asm/relocation.h"
 #include "ast/ast.h"
 #include "ast/ast_iterator.h"
 #include "ast/types.h"
@@ -483,6 +484,29 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
     timer_stop(cg->context);
 }
 
+static void c_gen_string(CCodegenData_T* cg, const char* str)
+{
+    c_putc(cg, '"');
+
+    for(size_t i = 0; str[i]; i++)
+    {
+        u8 c = str[i];
+        if(c == '\\')
+        {
+            i++;
+            c = escape_sequence(str[i], &str[i], &i);
+        }
+
+        // always three octal digits, so that following digits don't belong to the escape sequence
+        if(isalnum(c) || c == ' ')
+            c_putc(cg, c);
+        else
+            c_print(cg, "\\%03o", c);
+    }
+
+    c_putc(cg, '"');
+}
+
 static char* c_gen_identifier(Context_T* context, ASTIdentifier_T* id)
 {
     char* str = gen_identifier(id, "_", ID_PREFIX);
@@ -1419,7 +1443,7 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_print(cg, "((char) %d)", node->int_val);
             break;
         case ND_STR:
-            c_print(cg, "\"%s\"", node->str_val);
+            c_gen_string(cg, node->str_val);
             break;
         case ND_NIL:
             c_print(cg, "((void*) 0)");
-- 
2.43.0


From d682f173b72fa1d0e54f3e49726bfcf0f10ec6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 048/159] fix: create new tokens when joining identifiers in
 macros instead of changing the macro body

---
 src/compiler/preprocessor/preprocessor.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index ad063e1..24f6c5c 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -486,9 +486,16 @@ static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_
             list_pop(dest_list);
             list_pop(dest_list);
 
-            u64 prev_size = sizeof(Token_T) + strlen(id->value) * sizeof(char);
-            dest_list->items[dest_list->size - 1] = id = allocator_realloc(&pp->context->raw_allocator, id, prev_size + (strlen(current->value) + 1) * sizeof(char));
-            strcat(id->value, current->value);
+            // create a new token, the tokens of a macro body are used again by its next call
+            char* value = calloc(strlen(id->value) + strlen(current->value) + 1, sizeof(char));
+            strcat(value, id->value);
+            strcat(value, current->value);
+
+            Token_T* joined = init_token(&pp->context->raw_allocator, value, id->line, id->pos, id->type, id->source);
+            joined->in_macro_expansion = id->in_macro_expansion;
+            dest_list->items[dest_list->size - 1] = joined;
+
+            free(value);
         }
     }
 }
-- 
2.43.0


From 7f83cb58dd70d5194ad79c3352d9617edcc8821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 049/159] fix: replace macro arguments which are used in macro
 calls inside the macro body

---
 src/compiler/preprocessor/preprocessor.c | 162 +++++++++++------------
 1 file changed, 80 insertions(+), 82 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 24f6c5c..09688fa 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -417,86 +417,96 @@ static bool concatenateable(Token_T* tok) {
     }
 }
 
-static void expand_macro_call(Preprocessor_T* pp, MacroCall_T call, List_T* src_list, List_T* dest_list)
+static void push_expanded(Preprocessor_T* pp, List_T* dest_list, Token_T* tok)
 {
-    if(pp->macro_call_depth++ > pp->context->max_macro_call_depth)
-        throw_error(pp->context, ERR_SYNTAX_ERROR, call.tok, "too many macro calls, maximum is %d.\nIf you need a larger call depth, use --set-mmcd", pp->context->max_macro_call_depth);
-    
-    for(size_t i = 0; i < call.macro->replacing_tokens->size; i++)
+    list_push(dest_list, tok);
+
+    // handle situations where an identifier should be concatenated
+    Token_T* id;
+    if(dest_list->size < 3 ||
+        ((Token_T*) dest_list->items[dest_list->size - 2])->type != TOKEN_AT ||
+        (id = dest_list->items[dest_list->size - 3])->type != TOKEN_ID
+    )
+        return;
+
+    if(!concatenateable(tok)) {
+        throw_error(pp->context, ERR_SYNTAX_ERROR, tok, "cannot concatenate token `%s` to identifier using `@`", tok->value);
+        return;
+    }
+
+    list_pop(dest_list);
+    list_pop(dest_list);
+
+    // create a new token, the tokens of a macro body are used again by its next call
+    char* value = calloc(strlen(id->value) + strlen(tok->value) + 1, sizeof(char));
+    strcat(value, id->value);
+    strcat(value, tok->value);
+
+    Token_T* joined = init_token(&pp->context->raw_allocator, value, id->line, id->pos, id->type, id->source);
+    joined->in_macro_expansion = id->in_macro_expansion;
+    dest_list->items[dest_list->size - 1] = joined;
+
+    free(value);
+}
+
+// expands the tokens from `start` to `end` of `src_list` into `dest_list`; `call` is the macro call these tokens 
+// are the body of (or NULL), and `call_args` are its arguments, which are already expanded
+static void expand_tokens(Preprocessor_T* pp, MacroCall_T* call, List_T** call_args, List_T* src_list, size_t start, size_t end, List_T* dest_list)
+{
+    for(size_t i = start; i < end; i++)
     {
-        Token_T* tok = call.macro->replacing_tokens->items[i];
-        tok->in_macro_expansion = true;
+        Token_T* tok = src_list->items[i];
 
-        switch(tok->type) {
-            case TOKEN_ID:
-            {
-                i32 arg_idx = find_macro_arg(call.macro, tok->value);
-                if(arg_idx != -1)
-                    for(size_t j = call.args[arg_idx].start_idx; j <= call.args[arg_idx].end_idx; j++)
-                    {
-                        Token_T* tok = src_list->items[j];
-                        if(tok->type == TOKEN_MACRO_CALL)
-                        {
-                            MacroCall_T macro_call;
-                            parse_macro_call(pp, &macro_call, src_list, &j, call.args[arg_idx].end_idx);
-                            expand_macro_call(pp, macro_call, src_list, dest_list);
-                        }
-                        else
-                            list_push(dest_list, src_list->items[j]);
-                    }
-                else if(strcmp(tok->value, "__line__") == 0)
-                {
-                    char linestr[BUFSIZ] = { '\0' };
-                    sprintf(linestr, "%u", call.tok->line + 1);
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, linestr, tok->line, tok->pos, TOKEN_INT, tok->source));
-                }
-                else if(strcmp(tok->value, "__file__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, (char*) call.tok->source->path, tok->line, tok->pos, TOKEN_STRING, tok->source));
-                else if(strcmp(tok->value, "__func__") == 0)
-                    list_push(dest_list, init_token(&pp->context->raw_allocator, "", tok->line, tok->pos, TOKEN_CURRENT_FN, tok->source));
-                else
-                    list_push(dest_list, tok);
-            } break;
+        if(tok->type == TOKEN_MACRO_CALL)
+        {
+            if(pp->macro_call_depth++ > pp->context->max_macro_call_depth)
+                throw_error(pp->context, ERR_SYNTAX_ERROR, tok, "too many macro calls, maximum is %d.\nIf you need a larger call depth, use --set-mmcd", pp->context->max_macro_call_depth);
 
-            case TOKEN_MACRO_CALL:
+            MacroCall_T macro_call;
+            parse_macro_call(pp, &macro_call, src_list, &i, end);
+
+            List_T* args[__CSP_MAX_FN_NUM_ARGS];
+            for(size_t j = 0; j < macro_call.argc; j++)
             {
-                // FIXME: segfaults (macro doesn't get correctly parsed?)
-                MacroCall_T macro_call;
-                parse_macro_call(pp, &macro_call, call.macro->replacing_tokens, &i, call.macro->replacing_tokens->size);
-                expand_macro_call(pp, macro_call, call.macro->replacing_tokens, dest_list);
-            } break;
+                args[j] = init_list();
+                expand_tokens(pp, call, call_args, src_list, macro_call.args[j].start_idx, macro_call.args[j].end_idx + 1, args[j]);
+            }
 
-            default:
-                list_push(dest_list, tok);
-                break;
-        }
+            List_T* body = macro_call.macro->replacing_tokens;
+            expand_tokens(pp, &macro_call, args, body, 0, body->size, dest_list);
 
-        // handle situations where an identifier should be concatenated
-        Token_T *at, *id;
-        if(dest_list->size >= 3 &&
-            (at = dest_list->items[dest_list->size - 2])->type == TOKEN_AT &&
-            (id = dest_list->items[dest_list->size - 3])->type == TOKEN_ID
-        ){
-            Token_T* current = dest_list->items[dest_list->size - 1];
-            if(!concatenateable(current)) {
-                throw_error(pp->context, ERR_SYNTAX_ERROR, current, "cannot concatenate token `%s` to identifier using `@`", current->value);
-                continue;
-            }
+            for(size_t j = 0; j < macro_call.argc; j++)
+                free_list(args[j]);
 
-            list_pop(dest_list);
-            list_pop(dest_list);
+            continue;
+        }
 
-            // create a new token, the tokens of a macro body are used again by its next call
-            char* value = calloc(strlen(id->value) + strlen(current->value) + 1, sizeof(char));
-            strcat(value, id->value);
-            strcat(value, current->value);
+        if(!call)
+        {
+            list_push(dest_list, tok);
+            continue;
+        }
 
-            Token_T* joined = init_token(&pp->context->raw_allocator, value, id->line, id->pos, id->type, id->source);
-            joined->in_macro_expansion = id->in_macro_expansion;
-            dest_list->items[dest_list->size - 1] = joined;
+        tok->in_macro_expansion = true;
 
-            free(value);
+        i32 arg_idx;
+        if(tok->type != TOKEN_ID)
+            push_expanded(pp, dest_list, tok);
+        else if((arg_idx = find_macro_arg(call->macro, tok->value)) != -1)
+            for(size_t j = 0; j < call_args[arg_idx]->size; j++)
+                push_expanded(pp, dest_list, call_args[arg_idx]->items[j]);
+        else if(strcmp(tok->value, "__line__") == 0)
+        {
+            char linestr[BUFSIZ] = { '\0' };
+            sprintf(linestr, "%u", call->tok->line + 1);
+            push_expanded(pp, dest_list, init_token(&pp->context->raw_allocator, linestr, tok->line, tok->pos, TOKEN_INT, tok->source));
         }
+        else if(strcmp(tok->value, "__file__") == 0)
+            push_expanded(pp, dest_list, init_token(&pp->context->raw_allocator, (char*) call->tok->source->path, tok->line, tok->pos, TOKEN_STRING, tok->source));
+        else if(strcmp(tok->value, "__func__") == 0)
+            push_expanded(pp, dest_list, init_token(&pp->context->raw_allocator, "", tok->line, tok->pos, TOKEN_CURRENT_FN, tok->source));
+        else
+            push_expanded(pp, dest_list, tok);
     }
 }
 
@@ -552,20 +562,8 @@ i32 preprocessor_pass(Context_T* context, ASTProg_T* ast)
     **************************************/
 
     List_T* token_stage_3 = init_list(); //q init a new list for stage 3
-    for(size_t i = 0; i < token_stage_2->size; i++)
-    {
-        tok = token_stage_2->items[i];
-        if(tok->type == TOKEN_MACRO_CALL)
-        {
-            pp.macro_call_depth = 0;
-
-            MacroCall_T macro_call;
-            parse_macro_call(&pp, &macro_call, token_stage_2, &i, token_stage_2->size);
-            expand_macro_call(&pp, macro_call, token_stage_2, token_stage_3);
-            continue;
-        }
-        list_push(token_stage_3, tok);
-    }
+    pp.macro_call_depth = 0;
+    expand_tokens(&pp, NULL, NULL, token_stage_2, 0, token_stage_2->size, token_stage_3);
 
     free_list(pp.tokens);     // free from stage 0 & 1
     free_list(token_stage_2); // free from stage 2
-- 
2.43.0


From c89ed9c78bff70d2bc3261a1d84cd0c5afb9afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 050/159] fix: count nested macro calls only for the macro call
 depth

---
 src/compiler/preprocessor/preprocessor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 09688fa..eb83c3e 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -478,6 +478,7 @@ static void expand_tokens(Preprocessor_T* pp, MacroCall_T* call, List_T** call_a
             for(size_t j = 0; j < macro_call.argc; j++)
                 free_list(args[j]);
 
+            pp->macro_call_depth--;
             continue;
         }
 
-- 
2.43.0


From 35ae9dc98ab352a68d9197a73ab519b8c73b4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 051/159] fix: check the number of arguments of macro calls
 before storing the last one

---
 src/compiler/lexer/token.c               | 1 +
 src/compiler/preprocessor/preprocessor.c | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/compiler/lexer/token.c b/src/compiler/lexer/token.c
index 1d3de98..22a6ba9 100644
--- a/src/compiler/lexer/token.c
+++ b/src/compiler/lexer/token.c
@@ -15,6 +15,7 @@ Token_T* init_token(Allocator_T* alloc, char* value, u32 line, u32 pos, TokenTyp
     token->pos = pos;
     token->type = type;
     token->source = source;
+    token->in_macro_expansion = false;
 
     strcpy(token->value, value);
 
diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index eb83c3e..b2c22db 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -386,6 +386,9 @@ static void parse_macro_call(Preprocessor_T* pp, MacroCall_T* call, List_T* toke
 
                 if(has_arg) 
                 {
+                    if(call->argc >= __CSP_MAX_FN_NUM_ARGS)
+                        throw_error(pp->context, ERR_SYNTAX_ERROR, next, "too many arguments for macro call");
+
                     call->args[call->argc].start_idx = arg_start;
                     call->args[call->argc++].end_idx = arg_end - 1;
                 }
-- 
2.43.0


From 19102a09b606cfbb41de59422b5357e37775d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 052/159] fix: give the tokens of builtin macros a location,
 name the right function in every __func__!

---
 src/compiler/parser/parser.c             | 4 +---
 src/compiler/preprocessor/preprocessor.c | 9 +++++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index de3f956..6f93e7c 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2679,9 +2679,7 @@ static ASTNode_T* parse_pow_3(Parser_T* p, ASTNode_T* left)
 
 static ASTNode_T* parse_current_fn_token(Parser_T* p)
 {
-    p->tok->type = TOKEN_STRING;
-    p->tok = allocator_realloc(&p->context->raw_allocator, p->tok, sizeof(Token_T) + strlen(p->cur_obj->id->callee) + 1);
-    strcpy(p->tok->value, p->cur_obj->id->callee);
+    p->tok = init_token(&p->context->raw_allocator, p->cur_obj ? p->cur_obj->id->callee : "", p->tok->line, p->tok->pos, TOKEN_STRING, p->tok->source);
 
     return parse_str_lit(p);
 }
diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index b2c22db..838bfdb 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -491,6 +491,15 @@ static void expand_tokens(Preprocessor_T* pp, MacroCall_T* call, List_T** call_a
             continue;
         }
 
+        // the tokens of builtin macros have no location, they get the one of the macro call
+        if(!tok->source)
+        {
+            tok = duplicate_token(&pp->context->raw_allocator, tok);
+            tok->line = call->tok->line;
+            tok->pos = call->tok->pos;
+            tok->source = call->tok->source;
+        }
+
         tok->in_macro_expansion = true;
 
         i32 arg_idx;
-- 
2.43.0


From 214b79172dccf3010ac1ce5b408f02de8b2220a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 053/159] fix: don't mix up namespace members and underscores
 in the names of the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 52ba590..ee99e79 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -509,7 +509,8 @@ static void c_gen_string(CCodegenData_T* cg, const char* str)
 
 static char* c_gen_identifier(Context_T* context, ASTIdentifier_T* id)
 {
-    char* str = gen_identifier(id, "_", ID_PREFIX);
+    // `$$` never occurs in an escaped identifier, so `a::b` and `a_b` get different names
+    char* str = gen_identifier(id, "$$", ID_PREFIX);
     CONTEXT_ALLOC_REGISTER(context, (void*) str);
     return str;
 }
-- 
2.43.0


From 35a26c0289d989151e6b0866c8740ddd01b369f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 054/159] fix: allocate enough memory for escaped identifiers

---
 src/compiler/codegen/codegen_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/codegen_utils.c b/src/compiler/codegen/codegen_utils.c
index bbc2959..5cc0d63 100644
--- a/src/compiler/codegen/codegen_utils.c
+++ b/src/compiler/codegen/codegen_utils.c
@@ -61,7 +61,7 @@ char* gen_identifier(ASTIdentifier_T* id, const char* combiner, const char* pref
     }
     else
     {
-        new_c = calloc(strlen(id->callee) + strlen(prefix) + 16, sizeof(char));
+        new_c = calloc(strlen(id->callee) * 3 + strlen(prefix) + 1, sizeof(char)); // an escaped character needs 3 characters
         strcat(new_c, prefix);
         escape_callee(new_c, id);
     }
-- 
2.43.0


From 39b918afff100e1a25b07a9cfbf5eaf929238480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 055/159] fix: import a file only once when it is imported
 using different paths

---
 src/compiler/preprocessor/preprocessor.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 838bfdb..788eef0 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -201,7 +201,9 @@ static void parse_import_def(Preprocessor_T* pp, List_T* token_list, size_t* i)
     next = token_list->items[(*i)];
 
     // generate the full path to the import
-    imp->import_path = get_full_import_path(pp->context, (char*) imp->tok->source->path, imp->tok);
+    char* full_path = get_full_import_path(pp->context, (char*) imp->tok->source->path, imp->tok);
+    imp->import_path = get_absolute_path(full_path); // different paths can lead to the same file
+    free(full_path);
 
     // check if the file was already included
     if(find_import(pp, imp))
-- 
2.43.0


From 024d6523fc2efbd13a7ed9fe3ad3f3cf9db411df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 056/159] fix: don't include the main file again when it is
 imported

---
 src/compiler/preprocessor/preprocessor.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index 788eef0..af809b9 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -176,6 +176,14 @@ static char* get_full_import_path(Context_T* context, char* origin, Token_T* imp
     return full_import_path;
 }
 
+static bool is_main_file(Preprocessor_T* pp, Import_T* imp)
+{
+    char* main_path = get_absolute_path((char*) ((File_T*) pp->files->items[0])->path);
+    bool result = main_path && strcmp(main_path, imp->import_path) == 0;
+    free(main_path);
+    return result;
+}
+
 static Import_T* find_import(Preprocessor_T* pp, Import_T* imp)
 {
     for(size_t i = 0; i < pp->imports->size; i++)
@@ -205,8 +213,8 @@ static void parse_import_def(Preprocessor_T* pp, List_T* token_list, size_t* i)
     imp->import_path = get_absolute_path(full_path); // different paths can lead to the same file
     free(full_path);
 
-    // check if the file was already included
-    if(find_import(pp, imp))
+    // check if the file was already included, the main file always is
+    if(find_import(pp, imp) || is_main_file(pp, imp))
     {   
         // file is already included
         free_import(imp);
-- 
2.43.0


From 2d4265daa787f657f3eccfb952b0c0f11bf48973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 057/159] fix: exit with an error whenever compiling failed,
 even with --silent

---
 src/compiler/error/default.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 75012fe..259d8a3 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -75,14 +75,14 @@ void default_panic_handler(Context_T* context)
         if(context->emitted_errors && context->emitted_warnings)
         {
             LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " %u error%s and %u warning%s thrown during code validation; aborting.\n", context->emitted_errors, context->emitted_errors == 1 ? "" : "s", context->emitted_warnings, context->emitted_warnings == 1 ? "" : "s");
-            exit(1);
         }
         else if(context->emitted_errors)
         {
             LOG_ERROR_F(COLOR_BOLD_RED "[Error]" COLOR_RESET COLOR_RED " %u error%s thrown during code validation; aborting.\n", context->emitted_errors, context->emitted_errors == 1 ? "" : "s");
-            exit(1);
         }
         else if(context->emitted_warnings)
             LOG_WARN_F(COLOR_BOLD_YELLOW "[Warning]" COLOR_RESET COLOR_YELLOW " %u warning%s thrown during code validation\n", context->emitted_warnings, context->emitted_warnings == 1 ? "" : "s");
     }
+
+    exit(1);
 }
-- 
2.43.0


From 9a81a75e6a7e629458042e67fd29f3faa4ca704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 058/159] fix: report break and continue outside of loops

---
 src/compiler/parser/parser.c | 58 ++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 6f93e7c..7261bd2 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -44,6 +44,10 @@ typedef struct PARSER_STRUCT
 
     bool holes_enabled;
     bool holes_used;
+
+    // number of loops (and match statements) around the current statement, for checking `continue` and `break`
+    size_t loop_depth;
+    size_t break_depth;
 } Parser_T;
 
 typedef enum 
@@ -1320,13 +1324,43 @@ static ASTNode_T* parse_if(Parser_T* p, bool needs_semicolon)
     return if_stmt;
 }
 
+static ASTNode_T* parse_loop_body(Parser_T* p, bool needs_semicolon)
+{
+    p->loop_depth++;
+    p->break_depth++;
+    ASTNode_T* body = parse_stmt(p, needs_semicolon);
+    p->loop_depth--;
+    p->break_depth--;
+    return body;
+}
+
+static ASTNode_T* parse_case_body(Parser_T* p)
+{
+    p->break_depth++;
+    ASTNode_T* body = parse_stmt(p, true);
+    p->break_depth--;
+    return body;
+}
+
+// `break` and `continue` cannot leave functions
+static ASTNode_T* parse_lambda_body(Parser_T* p)
+{
+    size_t loop_depth = p->loop_depth;
+    size_t break_depth = p->break_depth;
+    p->loop_depth = p->break_depth = 0;
+    ASTNode_T* body = parse_stmt(p, false);
+    p->loop_depth = loop_depth;
+    p->break_depth = break_depth;
+    return body;
+}
+
 static ASTNode_T* parse_loop(Parser_T* p, bool needs_semicolon)
 {
     ASTNode_T* loop = init_ast_node(&p->context->raw_allocator, ND_LOOP, p->tok);
 
     parser_consume(p, TOKEN_LOOP, "expect `loop` keyword for a endless loop");
 
-    loop->body = parse_stmt(p, needs_semicolon);
+    loop->body = parse_loop_body(p, needs_semicolon);
 
     return loop;
 }
@@ -1338,7 +1372,7 @@ static ASTNode_T* parse_while(Parser_T* p, bool needs_semicolon)
     parser_consume(p, TOKEN_WHILE, "expect `while` for a while loop statement");
 
     loop->condition = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
-    loop->body = parse_stmt(p, needs_semicolon);
+    loop->body = parse_loop_body(p, needs_semicolon);
 
     return loop;
 }
@@ -1351,7 +1385,7 @@ static ASTNode_T* parse_for_range(Parser_T* p, ASTNode_T* stmt, bool needs_semic
     stmt->left = stmt->init_stmt->expr;
     stmt->right = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
 
-    stmt->body = parse_stmt(p, needs_semicolon);
+    stmt->body = parse_loop_body(p, needs_semicolon);
 
     return stmt;
 }
@@ -1402,7 +1436,7 @@ static ASTNode_T* parse_for(Parser_T* p, bool needs_semicolon)
         loop->expr = parse_expr(p, PREC_LOWEST, TOKEN_SEMICOLON);
     parser_advance(p);
 
-    loop->body = parse_stmt(p, needs_semicolon);
+    loop->body = parse_loop_body(p, needs_semicolon);
 
     p->cur_block = prev_block;
 
@@ -1448,7 +1482,7 @@ static ASTNode_T* parse_case(Parser_T* p)
     }
 
     parser_consume(p, TOKEN_ARROW, "expect `=>` after case condition");
-    case_stmt->body = parse_stmt(p, true);
+    case_stmt->body = parse_case_body(p);
 
     return case_stmt;
 }
@@ -1466,7 +1500,7 @@ static ASTNode_T* parse_type_case(Parser_T* p)
         case_stmt->data_type = parse_type(p);
     
     parser_consume(p, TOKEN_ARROW, "expect `=>` after case condition");
-    case_stmt->body = parse_stmt(p, true);
+    case_stmt->body = parse_case_body(p);
 
     return case_stmt;
 }
@@ -1615,6 +1649,9 @@ static ASTNode_T* parse_break(Parser_T* p, bool needs_semicolon)
 {
     ASTNode_T* break_stmt = init_ast_node(&p->context->raw_allocator, ND_BREAK, p->tok);
     parser_consume(p, TOKEN_BREAK, "expect `break` keyword");
+
+    if(!p->break_depth)
+        throw_error(p->context, ERR_SYNTAX_ERROR_UNCR, break_stmt->tok, "unexpected `break` outside of a loop or match statement");
    
     if(needs_semicolon) 
         parser_consume(p, TOKEN_SEMICOLON, "expect `;` after break statement");
@@ -1627,6 +1664,9 @@ static ASTNode_T* parse_continue(Parser_T* p, bool needs_semicolon)
     ASTNode_T* continue_stmt = init_ast_node(&p->context->raw_allocator, ND_CONTINUE, p->tok);
     parser_consume(p, TOKEN_CONTINUE, "expect `continue` keyword");
 
+    if(!p->loop_depth)
+        throw_error(p->context, ERR_SYNTAX_ERROR_UNCR, continue_stmt->tok, "unexpected `continue` outside of a loop");
+
     if(needs_semicolon)
         parser_consume(p, TOKEN_SEMICOLON, "expect `;` after continue statement");
 
@@ -1671,7 +1711,7 @@ static ASTNode_T* parse_do(Parser_T* p, bool needs_semicolon)
 {
     parser_consume(p, TOKEN_DO, "expect `do` keyword");
 
-    ASTNode_T* body = parse_stmt(p, false);
+    ASTNode_T* body = parse_loop_body(p, false);
 
     ASTNode_T* do_stmt = NULL;
     switch(p->tok->type) 
@@ -2130,7 +2170,7 @@ static ASTNode_T* parse_lambda_lit(Parser_T* p)
 
         const ASTType_T* last_return_type = p->cur_return_type;
         p->cur_return_type = lambda->data_type->base;
-        lambda->body = parse_stmt(p, false);
+        lambda->body = parse_lambda_body(p);
         p->cur_return_type = last_return_type;
     }
 
@@ -2209,7 +2249,7 @@ static ASTNode_T* parse_const_lambda(Parser_T* p)
 
         const ASTType_T* last_return_type = p->cur_return_type;
         p->cur_return_type = lambda_fn->return_type;
-        lambda_fn->body = parse_stmt(p, false);
+        lambda_fn->body = parse_lambda_body(p);
         p->cur_return_type = last_return_type;
     }
 
-- 
2.43.0


From c13b352f8cb18c8c3bd8b2d2261419a619e899eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 059/159] fix: print diagnostics for tokens without text and
 empty source lines

---
 src/compiler/error/default.c | 4 ++--
 src/compiler/lexer/lexer.c   | 6 +++---
 src/compiler/util.c          | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 259d8a3..2958246 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -59,10 +59,10 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
 
     fprintf(ERR_OUTPUT_STREAM, err_tmp1, source_file_path, (long) line, (long) character, is_error ? COLOR_BOLD_RED : COLOR_BOLD_YELLOW, error_str);
     vfprintf(ERR_OUTPUT_STREAM, format, args);
-    fprintf(ERR_OUTPUT_STREAM, err_tmp2, ERR_LINE_NUMBER_SPACES, line, src_line, src_line[strlen(src_line) - 1] == '\n' ? "" : "\n ", 
+    fprintf(ERR_OUTPUT_STREAM, err_tmp2, ERR_LINE_NUMBER_SPACES, line, src_line, *src_line && src_line[strlen(src_line) - 1] == '\n' ? "" : "\n ", 
             ERR_LINE_NUMBER_SPACES, "", (int) (character - strlen(tok->value) - trim_offset), "");
 
-    for(u32 i = 0; i < strlen(tok->value) - 1; i++)
+    for(u32 i = 0; i + 1 < strlen(tok->value); i++)
         putc('~', ERR_OUTPUT_STREAM);
     fprintf(ERR_OUTPUT_STREAM, err_tmp3);
 }
diff --git a/src/compiler/lexer/lexer.c b/src/compiler/lexer/lexer.c
index 04461a9..04be5ce 100644
--- a/src/compiler/lexer/lexer.c
+++ b/src/compiler/lexer/lexer.c
@@ -339,7 +339,7 @@ static Token_T* lexer_get_decimal(Lexer_T* lexer)
             }
 
             if(type == TOKEN_FLOAT)
-                throw_error(lexer->context, ERR_SYNTAX_ERROR,  &(Token_T){.line = lexer->line, .pos = lexer->pos, .source = lexer->file}, "multiple `.` found in number literal");
+                throw_error(lexer->context, ERR_SYNTAX_ERROR,  init_token(&lexer->context->raw_allocator, lexer->tmp_buffer, lexer->line, lexer->pos, TOKEN_FLOAT, lexer->file), "multiple `.` found in number literal");
 
             type = TOKEN_FLOAT;
         }
@@ -409,7 +409,7 @@ static Token_T* lexer_get_char(Lexer_T* lexer)
 
     if(lexer->c == '\'')
     {
-        throw_error(lexer->context, ERR_SYNTAX_ERROR,  &(Token_T){.line = lexer->line, .pos = lexer->pos, .source = lexer->file}, "empty char literal");
+        throw_error(lexer->context, ERR_SYNTAX_ERROR,  init_token(&lexer->context->raw_allocator, "''", lexer->line, lexer->pos, TOKEN_CHAR, lexer->file), "empty char literal");
         return init_token(&lexer->context->raw_allocator, "EOF", lexer->line, lexer->pos, TOKEN_EOF, lexer->file);
     }
 
@@ -545,7 +545,7 @@ static Token_T* lexer_get_symbol(Lexer_T* lexer)
                 return init_token(&lexer->context->raw_allocator, "EOF", lexer->line, lexer->pos, TOKEN_EOF, lexer->file);
             }
             else
-                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, &lexer->c, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "unknown token `%c` (id: %d)", lexer->c, lexer->c);
+                throw_error(lexer->context, ERR_SYNTAX_ERROR, init_token(&lexer->context->raw_allocator, (char[]){lexer->c, '\0'}, lexer->line, lexer->pos, TOKEN_ERROR, lexer->file), "unknown token `%c` (id: %d)", lexer->c, lexer->c);
         }
     }
     // satisfy -Wall
diff --git a/src/compiler/util.c b/src/compiler/util.c
index 1f14ef6..fbf66c0 100644
--- a/src/compiler/util.c
+++ b/src/compiler/util.c
@@ -95,8 +95,8 @@ char *trim(char* string)
 
     // trim right
     char* back = string + strlen(string);
-    while(isspace(*--back));
-    back[1] = '\0';
+    while(back > string && isspace(back[-1])) back--;
+    *back = '\0';
 
     return string;
 }
-- 
2.43.0


From 6f15d84586db8fbcc2aded8133af3381175357d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 060/159] fix: embed structs into structs

---
 src/compiler/parser/validator.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 2d4dbcb..ff5d6b5 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -422,7 +422,11 @@ static void enter_type_scope(ASTType_T* type, va_list args)
     case TY_STRUCT:
         begin_scope(v, NULL);
         for(size_t i = 0; i < type->members->size; i++)
-            scope_register_node(v, type->members->items[i]);
+        {
+            ASTNode_T* member = type->members->items[i];
+            if(member->kind == ND_STRUCT_MEMBER) // embedded structs have no name
+                scope_register_node(v, member);
+        }
         break;
     default:
         break;
@@ -2226,7 +2230,12 @@ static void resolve_struct_embeds(Validator_T* v, ASTType_T* struct_type)
 
                 resolve_struct_embeds(v, embedded_type);
                 for(size_t i = 0; i < embedded_type->members->size; i++)
-                    list_push(resolved_fields, embedded_type->members->items[i]);
+                {
+                    // the member has another offset in this struct
+                    ASTNode_T* embedded = init_ast_node(&v->context->raw_allocator, ND_STRUCT_MEMBER, member->tok);
+                    *embedded = *(ASTNode_T*) embedded_type->members->items[i];
+                    list_push(resolved_fields, embedded);
+                }
             } break;
             default:
                 unreachable();
-- 
2.43.0


From 7fe33793011330a21a44ee6598303b313ab3cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 061/159] fix: report struct literals of types which are no
 structs

---
 src/compiler/parser/validator.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index ff5d6b5..67a055d 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1705,6 +1705,11 @@ static void iter_validate_struct_lit(ASTNode_T* struct_lit, va_list args)
 
     if(!struct_lit->data_type)
         validate_anon_struct_lit(v, struct_lit);
+    else if(unpack(struct_lit->data_type)->kind != TY_STRUCT)
+    {
+        char buf[BUFSIZ] = {'\0'};
+        throw_error(v->context, ERR_TYPE_ERROR, struct_lit->tok, "struct literal of type `%s`, expect a struct", ast_type_to_str(v->context, buf, struct_lit->data_type, LEN(buf)));
+    }
 
     if(v->context->ct == CT_ASM && !struct_lit->is_assigning && in_function(v))
     {
-- 
2.43.0


From 040a111333228dda57405f91c39d755b2c030026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 062/159] fix: report lambdas which do not return a value

---
 src/compiler/parser/validator.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 67a055d..e1eb905 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1850,6 +1850,9 @@ static void iter_leave_lambda(ASTNode_T* lambda, va_list args)
 {
     GET_VALIDATOR(args);
 
+    if(unpack(lambda->data_type->base)->kind != TY_VOID && !stmt_returns_value(v, lambda->body))
+        throw_error(v->context, ERR_NORETURN, lambda->tok, "lambda function does not return a value");
+
     if(v->context->ct != CT_ASM)
         return;
     ASTObj_T* lambda_stack_ptr = init_ast_obj(&v->context->raw_allocator, OBJ_GLOBAL, lambda->tok);
-- 
2.43.0


From 281b021dc492f990492a8f09e7c6cf368f3cb36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 063/159] fix: give diagnostics of void members, embedded types
 and default cases the right location

---
 src/compiler/parser/parser.c    | 4 ++--
 src/compiler/parser/validator.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 7261bd2..dc30bed 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -1523,7 +1523,7 @@ static ASTNode_T* parse_type_match(Parser_T* p, ASTNode_T* match)
         if(case_stmt->is_default_case)
         {
             if(match->default_case)
-                throw_error(p->context, ERR_REDEFINITION, p->tok, "redefinition of default case `_`.");
+                throw_error(p->context, ERR_REDEFINITION, case_stmt->tok, "redefinition of default case `_`.");
             
             match->default_case = case_stmt;
             continue;
@@ -1559,7 +1559,7 @@ static ASTNode_T* parse_match(Parser_T* p)
         if(case_stmt->is_default_case)
         {
             if(match->default_case)
-                throw_error(p->context, ERR_REDEFINITION, p->tok, "redefinition of default case `_`.");
+                throw_error(p->context, ERR_REDEFINITION, case_stmt->tok, "redefinition of default case `_`.");
 
             match->default_case = case_stmt;
             continue;
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index e1eb905..a46e855 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2232,7 +2232,7 @@ static void resolve_struct_embeds(Validator_T* v, ASTType_T* struct_type)
                 ASTType_T* embedded_type = unpack(member->data_type);
                 if(embedded_type->kind != TY_STRUCT)
                 {
-                    throw_error(v->context, ERR_TYPE_ERROR, member->data_type->tok, "embedding types is only supported for structs, got `%s`", ast_type_to_str(v->context, buf, embedded_type, LEN(buf)));
+                    throw_error(v->context, ERR_TYPE_ERROR, EITHER(member->data_type->tok, member->tok), "embedding types is only supported for structs, got `%s`", ast_type_to_str(v->context, buf, embedded_type, LEN(buf)));
                     break;
                 }
 
@@ -2266,7 +2266,7 @@ static void iter_validate_struct_type(ASTType_T* struct_type, va_list args)
         {
             case ND_STRUCT_MEMBER:
                 if(expanded->kind == TY_VOID)
-                    throw_error(v->context, ERR_TYPE_ERROR_UNCR, member->data_type->tok, "struct member cannot be of type `void`");
+                    throw_error(v->context, ERR_TYPE_ERROR_UNCR, EITHER(member->data_type->tok, member->tok), "struct member cannot be of type `void`");
 
                 break;
             case ND_EMBED_STRUCT:
-- 
2.43.0


From bbbff5fe234bdd7503ffb7bfe749cd6da4551452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 064/159] fix: report local variables of type void without an
 initializer

---
 src/compiler/parser/validator.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index a46e855..be6020d 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1099,6 +1099,8 @@ static void iter_enter_block(ASTNode_T* block, va_list args)
     {
         ASTObj_T* var = block->locals->items[i];
         var->constexpr = v->current_obj->constexpr;
+        if(var->data_type && unpack(var->data_type)->kind == TY_VOID)
+            throw_error(v->context, ERR_TYPE_ERROR, var->tok, "`void` type is not allowed for variables");
     }
 }
 
-- 
2.43.0


From 7fd07abf45eaf49d3547dab84e961364c85b3bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 065/159] fix: check the type of initial values of globals

---
 src/compiler/parser/typechecker.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index dd28e6e..bb9a989 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -37,6 +37,7 @@ static void typecheck_lambda_entry(ASTNode_T* lambda, va_list args);
 static void typecheck_lambda_exit(ASTNode_T* lambda, va_list args);
 static void typecheck_return(ASTNode_T* ret, va_list args);
 static void typecheck_binop(ASTNode_T* op, va_list args);
+static void typecheck_global(ASTObj_T* global, va_list args);
 static void typecheck_operand_width(ASTNode_T* op, va_list args);
 
 static void typecheck_dyn_type(ASTType_T* dyn_type, va_list args);
@@ -48,7 +49,8 @@ static const ASTIteratorList_T iterator = {
         [OBJ_FUNCTION] = set_fn
     },
     .obj_end_fns = {
-        [OBJ_FUNCTION] = unset_fn
+        [OBJ_FUNCTION] = unset_fn,
+        [OBJ_GLOBAL] = typecheck_global
     },
     .node_start_fns = {
         [ND_LAMBDA] = typecheck_lambda_entry,
@@ -247,6 +249,29 @@ static void typecheck_assignment(ASTNode_T* assignment, va_list args)
     );
 }
 
+static void typecheck_global(ASTObj_T* global, va_list args)
+{
+    GET_TYPECHECKER(args);
+
+    ASTNode_T* value = global->value;
+    if(!value || !value->data_type || value->kind == ND_ARRAY || types_equal(t->context, global->data_type, value->data_type))
+        return;
+
+    // `nil` is a value of every function type
+    if(unpack(global->data_type)->kind == TY_FN && is_pointer(unpack(value->data_type)))
+        return;
+
+    if(!(implicitly_castable(t, value->tok, value->data_type, global->data_type) & CAST_ERR))
+        return;
+
+    char buf1[BUFSIZ] = {'\0'};
+    char buf2[BUFSIZ] = {'\0'};
+    throw_error(t->context, ERR_TYPE_ERROR_UNCR, value->tok, "assignment type missmatch: cannot assign `%s` to `%s`", 
+        ast_type_to_str(t->context, buf1, value->data_type, LEN(buf1)),
+        ast_type_to_str(t->context, buf2, global->data_type, LEN(buf2))
+    );
+}
+
 static ASTNode_T* typecheck_arg_pass(TypeChecker_T* t, ASTType_T* expected, ASTNode_T* received)
 {
     if(received->unpack_mode)
-- 
2.43.0


From e4808072d9de862a4ef9e0d66fb6025084db4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 066/159] fix: escape the registers of an assembly line which
 is printed with a format

---
 src/compiler/codegen/asm/asm_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 2627ccf..e5cbc98 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -421,9 +421,9 @@ static void asm_gen_entry_point(ASMCodegenData_T* cg)
         asm_pop(cg, "%rdi");
     }
     else
-        asm_println(cg, "  movq %rax, %rdi");
+        asm_println(cg, "  movq %%rax, %%rdi");
 
-    asm_println(cg, "  movq $60, %rax");
+    asm_println(cg, "  movq $60, %%rax");
     asm_println(cg, "  syscall");
 }
 
-- 
2.43.0


From f5f99f1bc5219f7a23343e7e208f032e21aa041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 067/159] fix: keep the parser inside of its tables and token
 list at the end of a file

---
 src/compiler/ast/ast.c       | 2 +-
 src/compiler/ast/types.h     | 2 +-
 src/compiler/error/default.c | 2 +-
 src/compiler/parser/parser.c | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compiler/ast/ast.c b/src/compiler/ast/ast.c
index b5cebad..44037d3 100644
--- a/src/compiler/ast/ast.c
+++ b/src/compiler/ast/ast.c
@@ -113,7 +113,7 @@ char* ast_id_to_str(char* dest, ASTIdentifier_T* id, size_t size)
         strcat(dest, "::");
     }
     
-    if(size - strlen(dest) - 1 - strlen(id->callee) > 0) // concatenate the callee, if enough memory is left
+    if(size > strlen(dest) + 1 + strlen(id->callee)) // concatenate the callee, if enough memory is left
         strcat(dest, id->callee);
     return dest;
 }
diff --git a/src/compiler/ast/types.h b/src/compiler/ast/types.h
index 1b43863..d401435 100644
--- a/src/compiler/ast/types.h
+++ b/src/compiler/ast/types.h
@@ -4,7 +4,7 @@
 #include "ast.h"
 #include "memory/allocator.h"
 
-#define NUM_TYPES TY_UNDEF + 1 // TY_UNDEF is the last item in the ASTDataType_T enum. TY_UNDEF should never occur
+#define NUM_TYPES TY_KIND_LEN // tables are indexed by every type kind, TY_UNDEF is not the last one
 
 #define I8_S   1
 #define I16_S  2
diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index 2958246..b2df6ab 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -11,7 +11,7 @@
 
 static void print_current_fn(Context_T* context) {
     static ASTObj_T* last_obj = NULL; // remember the last function to eliminate duplication in multiple errors of the same function
-    if(context->current_obj && *context->current_obj && *context->current_obj != last_obj) 
+    if(context->current_obj && *context->current_obj && (*context->current_obj)->id && *context->current_obj != last_obj) 
     {
         char buf[BUFSIZ] = {};
         fprintf(
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index dc30bed..9702b51 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -392,7 +392,7 @@ inline Token_T* parser_peek(Parser_T* p, i32 level)
     if(level == 0)
         return p->tok;
     if(p->token_i + level >= p->tokens->size || p->token_i + level <= 0)
-        return NULL;
+        return p->tokens->items[p->tokens->size - 1]; // TOKEN_EOF
     return p->tokens->items[p->token_i + level];
 }
 
@@ -1001,7 +1001,7 @@ List_T* parse_argument_list(Parser_T* p, TokenType_T end_tok, ASTIdentifier_T**
 {
     List_T* arg_list = init_list();
 
-    while(p->tok->type != end_tok)
+    while(p->tok->type != end_tok && !tok_is(p, TOKEN_EOF))
     {
         if(parser_peek(p, 2)->type == TOKEN_VA_LIST)
         {
-- 
2.43.0


From e1ab7f2873a58a5e73a298e825d77eb74713ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 068/159] fix: report uses of a local variable in its own
 initializer, lambdas in globals and files which end too early

---
 src/compiler/parser/parser.c    | 3 +++
 src/compiler/parser/validator.c | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 9702b51..798cba6 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -371,6 +371,9 @@ static inline bool streq(char* s1, char* s2)
 
 static inline Token_T* parser_advance(Parser_T* p)
 {
+    if(p->tok->type == TOKEN_EOF)
+        throw_error(p->context, ERR_SYNTAX_ERROR, p->tok, "unexpected end of file");
+
     p->tok = p->tokens->items[++p->token_i];
     if(p->tok->type == TOKEN_SEMICOLON && streq(p->tok->value, ";"))
         throw_error(p->context, ERR_SYNTAX_WARNING, p->tok, "found `;` (greek question mark) instead of `;` (semicolon)");
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index be6020d..2753691 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -988,7 +988,7 @@ static void iter_enter_fn_arg(ASTObj_T* arg, va_list args)
 {
     GET_VALIDATOR(args);
 
-    if(v->current_obj->constexpr)
+    if(v->current_obj && v->current_obj->constexpr)
         arg->constexpr = true;
 
     validator_push_obj(v, arg);
@@ -1303,6 +1303,10 @@ static void iter_validate_identifier(ASTNode_T* id, va_list args)
     }
 
     id->data_type = id->referenced_obj->data_type;
+
+    // the type of a local variable without a type annotation is not known before its initializer
+    if(!id->data_type && id->referenced_obj->kind == OBJ_LOCAL && !id->is_initializing)
+        throw_error(v->context, ERR_TYPE_ERROR, id->id->tok, "type of `%s` is not known before it gets initialized", id->id->callee);
 }
 
 static void iter_validate_closure(ASTNode_T* closure, va_list args)
@@ -1612,6 +1616,8 @@ static void local_initializer(Validator_T* v, ASTNode_T* assign, ASTObj_T* local
 static void iter_enter_assignment(ASTNode_T* assign, va_list args)
 {
     // only new variables can be built in place, since the literal could refer to the old value of the variable
+    if(assign->is_initializing && assign->referenced_obj)
+        assign->left->is_initializing = true;
     if(assign->is_initializing && (assign->right->kind == ND_ARRAY || assign->right->kind == ND_STRUCT))
         assign->right->is_assigning = true;
 }
-- 
2.43.0


From 7f33dd329e979030dcb9a920ef738f5f31da62f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 069/159] fix: shift the items of a list in the right direction
 when inserting

---
 src/compiler/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/list.c b/src/compiler/list.c
index 114c9c5..ed177dd 100755
--- a/src/compiler/list.c
+++ b/src/compiler/list.c
@@ -74,7 +74,7 @@ void list_insert(List_T* list, void* item, size_t index)
 
     list_push(list, NULL);
 
-    for(size_t i = list->size - 1; i > index; i++)
+    for(size_t i = list->size - 1; i > index; i--)
         list->items[i] = list->items[i - 1];
     
     list->items[index] = item;
-- 
2.43.0


From bdca80170897f26ac42b16219a4f7943b63bf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 070/159] fix: count the elements of every unpacked array in
 array literals

---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 2753691..3eb5a28 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1760,7 +1760,7 @@ static void iter_validate_array_lit(ASTNode_T* array_lit, va_list args)
             continue;
         }
 
-        array_lit->data_type->num_indices += unpack(first_arg->data_type)->num_indices;
+        array_lit->data_type->num_indices += unpack(arg->data_type)->num_indices;
     }
 
     array_lit->data_type->size = get_type_size(v, array_lit->data_type);
-- 
2.43.0


From 40cb43d7cf11d83b6618ba305aa01b4dd5e4244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 071/159] fix: evaluate char literals once, so constants made
 of them have their value

---
 src/compiler/optimizer/constexpr.c |  4 +-
 src/compiler/parser/parser.c       | 48 +++++++++++++++++++--
 src/compiler/parser/validator.c    | 67 ++++--------------------------
 3 files changed, 53 insertions(+), 66 deletions(-)

diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index f85e53c..cf90f05 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -131,7 +131,7 @@ u64 const_u64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
@@ -227,7 +227,7 @@ i64 const_i64(Context_T* context, ASTNode_T* node)
         case ND_BOOL:
             return node->bool_val;
         case ND_CHAR:
-            return node->str_val[0];
+            return node->int_val;
         case ND_NIL:
             return 0;
         case ND_ADD...ND_MOD:
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 798cba6..46be7b0 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2059,11 +2059,51 @@ static ASTNode_T* parse_char_lit(Parser_T* p)
 {
     ASTNode_T* char_lit = init_ast_node(&p->context->raw_allocator, ND_CHAR, p->tok);
 
+    // evaluate escape sequences
+    char c = p->tok->value[0];
     if(strlen(p->tok->value) > 1)
-        char_lit->str_val = strdup((char[]){'\\', p->tok->value[1], '\0'});
-    else 
-        char_lit->str_val = strdup((char[]){p->tok->value[0], '\0'});
-    
+    {
+        switch(p->tok->value[1])
+        {
+            case 'a':
+                c = '\a';
+                break;
+            case 'b':
+                c = '\b';
+                break;
+            case 't':
+                c = '\t';
+                break;
+            case 'v':
+                c = '\v';
+                break;
+            case 'n':
+                c = '\n';
+                break;
+            case 'r':
+                c = '\r';
+                break;
+            case 'f':
+                c = '\f';
+                break;
+            case '\'':
+                c = '\'';
+                break;
+            case '"':
+                c = '"';
+                break;
+            case '\\':
+                c = '\\';
+                break;  
+            case '0':
+                c = '\0';
+                break;
+            default:
+                throw_error(p->context, ERR_SYNTAX_ERROR_UNCR, p->tok, "invalid escape sequence `\\%c` found in char literal", p->tok->value[1]);
+        }
+    }
+
+    char_lit->int_val = c;
     char_lit->is_constant = true; 
     char_lit->data_type = (ASTType_T*) primitives[TY_CHAR];
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 3eb5a28..a0015d4 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -100,7 +100,7 @@ static ASTObj_T* in_function(Validator_T* v)
     for(ssize_t i = v->obj_stack->size - 1; i >= 0; i--)
     {
         ASTObj_T* obj = v->obj_stack->items[i];
-        if(obj->kind == OBJ_FUNCTION || obj->kind == OBJ_LAMBDA)
+        if(obj && (obj->kind == OBJ_FUNCTION || obj->kind == OBJ_LAMBDA))
             return obj;
     }
     return NULL;
@@ -838,7 +838,7 @@ static void validate_return_type(Validator_T* v, ASTType_T* type, Token_T* tok)
 
 static u64 calculate_array_size(Validator_T* v, ASTType_T* type)
 {
-    if(type->num_indices)
+    if(type->num_indices || !type->num_indices_node)
         return type->num_indices;
     ASTNode_T* result = eval_constexpr(&v->constexpr_resolver, type->num_indices_node);
     type->num_indices = const_u64(v->context, result);
@@ -1183,6 +1183,7 @@ static void iter_validate_with(ASTNode_T* with, va_list args)
         throw_error(v->context, ERR_TYPE_ERROR_UNCR, with->obj->tok, "type `%s` does not have a registered exit function.\nRegister one by using the `exit_fn` compiler directive",
             ast_type_to_str(v->context, buf, with->condition->data_type, BUFSIZ));
         free(buf);
+        return;
     }
     with->exit_fn = handle->fn;
 }
@@ -1743,7 +1744,7 @@ static void iter_validate_array_lit(ASTNode_T* array_lit, va_list args)
     {
         ASTType_T* base_type = unpack(first_arg->data_type)->base;
         if(!base_type) {
-            throw_error(v->context, ERR_TYPE_ERROR_UNCR, first_arg->tok, "unpacking with `...` is only supported for array types\n");
+            throw_error(v->context, ERR_TYPE_ERROR, first_arg->tok, "unpacking with `...` is only supported for array types\n");
         }
         array_lit->data_type->base = base_type;
     }
@@ -1929,60 +1930,6 @@ static void iter_validate_string_lit(ASTNode_T* str, va_list args)
     }
 }
 
-static void iter_validate_char_lit(ASTNode_T* ch, va_list args)
-{
-     GET_VALIDATOR(args);
-
-    // check for invalid escape sequences and evaluate them
-    char c = ch->str_val[0];
-
-    if(c == '\\')
-    {
-        switch(ch->str_val[1])
-        {
-            case 'a':
-                c = '\a';
-                break;
-            case 'b':
-                c = '\b';
-                break;
-            case 't':
-                c = '\t';
-                break;
-            case 'v':
-                c = '\v';
-                break;
-            case 'n':
-                c = '\n';
-                break;
-            case 'r':
-                c = '\r';
-                break;
-            case 'f':
-                c = '\f';
-                break;
-            case '\'':
-                c = '\'';
-                break;
-            case '"':
-                c = '"';
-                break;
-            case '\\':
-                c = '\\';
-                break;  
-            case '0':
-                c = '\0';
-                break;
-            default:
-                throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, ch->tok, "invalid escape sequence `\\%c` found in char literal", ch->str_val[1]);
-                return;
-        }
-    }
-    
-    free(ch->str_val);
-    ch->int_val = c;
-}
-
 static void iter_validate_sizeof(ASTNode_T* expr, va_list args)
 {
     GET_VALIDATOR(args);
@@ -2168,7 +2115,6 @@ static void validate_obj_deep(Validator_T* v, ASTObj_T* obj)
             [ND_HOLE] = iter_validate_hole,
             [ND_LAMBDA] = iter_leave_lambda,
             [ND_STR] = iter_validate_string_lit,
-            [ND_CHAR] = iter_validate_char_lit,
             [ND_SIZEOF] = iter_validate_sizeof,
             [ND_TYPE_EXPR] = iter_validate_type_expr,
         },
@@ -2427,6 +2373,8 @@ static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_t
         case TY_FN:
             return PTR_S;
         case TY_TYPEOF:
+            if(!type->num_indices_node->data_type)
+                throw_error(v->context, ERR_TYPE_ERROR, type->tok, "data type of `typeof` expression is not known here");
             return get_type_size_impl(v, unpack(type->num_indices_node->data_type), struct_types);
         case TY_UNDEF:
             return get_type_size_impl(v, unpack(type), struct_types);
@@ -2500,7 +2448,6 @@ static void validate_vtable(Validator_T* v, ASTType_T* base_type, ASTVTable_T* v
             break;
         }
     }
-    assert(any_impl);
 
     for(size_t i = 0; i < interface->func_decls->size; i++) {
         ASTObj_T* decl = interface->func_decls->items[i];
@@ -2512,7 +2459,7 @@ static void validate_vtable(Validator_T* v, ASTType_T* base_type, ASTVTable_T* v
             throw_error(
                 v->context,
                 ERR_TYPE_ERROR_UNCR,
-                EITHER(base_type->tok, any_impl),
+                EITHER(base_type->tok, EITHER(any_impl, interface->tok)),
                 "type `%s` does not fully implement interface defined in " COLOR_BOLD_WHITE "`%s`" COLOR_RESET " line " COLOR_BOLD_WHITE "`%ld`" COLOR_RESET ":\n"
                 "Missing implementation for interface function `%s`.", 
                 ast_type_to_str(v->context, buf, base_type, BUFSIZ),
-- 
2.43.0


From f07f6d2857933c7c056d64955552758b35383547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 072/159] fix: keep strings of constexpr functions valid and
 check calls in constant expressions

---
 src/compiler/interpreter/interpreter.c | 20 ++++++++++----------
 src/compiler/interpreter/value.c       |  4 ++--
 src/compiler/parser/validator.c        |  2 +-
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index c5b3ad2..6edff53 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -216,8 +216,10 @@ void free_interpreter_context(InterpreterContext_T* ictx)
 
 static inline InterpreterValue_T push_str_lit(InterpreterContext_T* ictx, const char* str_lit)
 {
-    size_t stack_addr = interpreter_stack_push(&ictx->global_storage, str_lit, strlen(str_lit) + 1);
-    return PTR_VALUE(&ictx->global_storage[stack_addr], char_ptr_type);
+    // global storage may get moved, pointers to it don't stay valid
+    char* str = strdup(str_lit);
+    CONTEXT_ALLOC_REGISTER(ictx->context, (void*) str);
+    return PTR_VALUE(str, char_ptr_type);
 }
 
 static inline InterpreterValue_T push_argv(InterpreterContext_T* ictx)
@@ -710,14 +712,9 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             ASTObj_T* obj = expr->referenced_obj;
             assert(obj != NULL);
 
-            return load_value(lvalue_from_id(ictx, obj, expr->data_type, expr->tok));
+            return load_value(lvalue_from_id(ictx, obj, unpack(EITHER(expr->data_type, obj->data_type)), expr->tok));
         }
-        // TODO: ND_MEMBER
-        case ND_ARRAY:
-        {
-            
-        }
-        // TODO: ND_STRUCT
+        // TODO: ND_MEMBER, ND_ARRAY, ND_STRUCT
         case ND_REF:
         {
             LValue_T lvalue = eval_lvalue(ictx, expr->right);
@@ -816,6 +813,9 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
                 interpreter_value_list_push(&args, &arg);
             }
 
+            if(callee.type->kind != TY_FN || args->size != callee.value.fn_obj->args->size || !callee.value.fn_obj->body)
+                throw_error(ictx->context, ERR_CALL_ERROR, expr->tok, "cannot call this expression with %zu arguments", args->size);
+
             InterpreterValue_T result = call_fn(ictx, callee.value.fn_obj, args);
             free_interpreter_value_list(args);
             return result;
@@ -992,7 +992,7 @@ static InterpreterValue_T load_value(LValue_T lvalue)
         case TY_VOID:
             return VOID_VALUE;
         case TY_PTR:
-            return PTR_VALUE(*(void**) lvalue.ptr, lvalue.type->base);
+            return PTR_VALUE(*(void**) lvalue.ptr, lvalue.type);
         case TY_FN:
             return (InterpreterValue_T){.type = lvalue.type, .value = (InterpreterValueUnion_T){.fn_obj = lvalue.ptr} };
         default:
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 70e4479..24c4d43 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -250,9 +250,9 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
             node->referenced_obj = (ASTObj_T*) value->value.fn_obj;
             break;
         case TY_PTR:
-            if(unpack(node->data_type->base)->kind == TY_CHAR)
+            if(unpack(node->data_type->base)->kind == TY_CHAR && value->value.ptr)
             {
-                node->kind = ND_CHAR;
+                node->kind = ND_STR;
                 node->str_val = strdup((const char*) value->value.ptr);
                 break;
             }
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index a0015d4..8c108ea 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2418,7 +2418,7 @@ static i32 get_type_align(Validator_T* v, ASTType_T* type)
         case TY_UNDEF:
             return get_type_align(v, unpack(type));
         case TY_TYPEOF:
-            return get_type_align(v, type->num_indices_node->data_type);
+            return get_type_align(v, unpack(type->num_indices_node->data_type));
         case TY_STRUCT:
             return MAX(type->align, 1);
         case TY_C_ARRAY:
-- 
2.43.0


From f8a4a878e9bc62e09ecc57f6740f783871a6a12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 073/159] fix: report functions whose signature depends on
 itself, constants without a value

---
 src/compiler/interpreter/interpreter.c |  2 ++
 src/compiler/interpreter/value.c       |  3 +++
 src/compiler/parser/queue.c            | 16 ++++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 6edff53..511081f 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -913,6 +913,8 @@ static void push_global(InterpreterContext_T* ictx, ASTObj_T* global)
     if(global->value) 
     {
         InterpreterValue_T value = interpreter_eval_expr(ictx, global->value);
+        if(!value.type)
+            throw_error(ictx->context, ERR_CONSTEXPR, global->value->tok, "cannot evaluate this value at compile time");
         interpreter_stack_push(&ictx->global_storage, &value.value, MIN(global->data_type->size, value.type->size));
     }
     else
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 24c4d43..fdf4c43 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -192,6 +192,9 @@ f80 interpreter_value_f80(InterpreterValue_T* value)
 
 ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_T* value, Token_T* tok)
 {
+    if(!value->type)
+        throw_error(context, ERR_CONSTEXPR, tok, "cannot evaluate this value at compile time");
+
     ASTNode_T* node = init_ast_node(&context->raw_allocator, ND_INT, tok);
     node->data_type = (ASTType_T*) value->type;
 
diff --git a/src/compiler/parser/queue.c b/src/compiler/parser/queue.c
index 736a074..9b73d1c 100644
--- a/src/compiler/parser/queue.c
+++ b/src/compiler/parser/queue.c
@@ -134,6 +134,15 @@ static void leave_type(ASTType_T* type, va_list args)
 }     
 
 
+// counts how many times `obj` is currently being resolved
+static size_t resolve_depth(Validator_T* v, ASTObj_T* obj)
+{
+    size_t depth = v->current_obj == obj;
+    for(size_t i = 0; i < v->obj_stack->size; i++)
+        depth += v->obj_stack->items[i] == obj;
+    return depth;
+}
+
 static void resolve_obj_enqueue(Validator_T* v, ResolveQueue_T* queue, ASTObj_T* obj, ResolveMethod_T method)
 {
     assert(method != RESOLVE_ANYHOW);
@@ -165,6 +174,13 @@ static void resolve_obj_enqueue(Validator_T* v, ResolveQueue_T* queue, ASTObj_T*
     }
     else
     {
+        // the body of a function may use the function itself, its signature may not
+        if(resolve_depth(v, obj) > 2)
+        {
+            report_recursive_dependency(v, obj);
+            goto finish;
+        }
+
         iter.iterate_only_objs = obj->kind == OBJ_FUNCTION;
     }
 
-- 
2.43.0


From bb39696f107da11abb9e73632e6675fefb87a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 074/159] fix: evaluate constants of enum types, check enum
 values and targets of assignments

---
 src/compiler/interpreter/interpreter.c | 7 ++++++-
 src/compiler/interpreter/value.c       | 1 +
 src/compiler/parser/validator.c        | 7 +++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 511081f..2c2626f 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -766,7 +766,12 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
                 case NO_CAST_INT: // no cast needed
                     return value;
                 default:
-                    return cast_fn(ictx, &value);
+                {
+                    InterpreterValue_T result = cast_fn(ictx, &value);
+                    if(to->kind == TY_ENUM)
+                        result.type = to;
+                    return result;
+                }
             }
         }
         case ND_NOT:
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index fdf4c43..857d225 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -207,6 +207,7 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
             node->int_val = value->value.integer.i16;
             break;
         case TY_I32:
+        case TY_ENUM:
             node->int_val = value->value.integer.i32;
             break;
         case TY_I64:
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 8c108ea..2d1c0a6 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1632,7 +1632,8 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
         local_initializer(v, assign, assign->referenced_obj);
 
 
-    switch(expand_closure(assign->left)->kind)
+    ASTNode_T* left = expand_closure(assign->left);
+    switch(left->kind)
     {
         case ND_MEMBER:
         case ND_INDEX:
@@ -1642,7 +1643,7 @@ static void iter_leave_assignment(ASTNode_T* assign, va_list args)
             break;
         case ND_ID: 
         {
-            ASTObj_T* assigned_obj = assign->left->referenced_obj;
+            ASTObj_T* assigned_obj = left->referenced_obj;
             if(!assigned_obj)
                 return;
 
@@ -2267,6 +2268,8 @@ static void iter_validate_enum_type(ASTType_T* enum_type, va_list args)
         ASTObj_T* member = enum_type->members->items[i];
         if(member->value->kind != ND_NOOP)
         {
+            if(!is_integer(unpack(member->value->data_type)) && unpack(member->value->data_type)->kind != TY_ENUM && unpack(member->value->data_type)->kind != TY_CHAR)
+                throw_error(v->context, ERR_TYPE_ERROR, member->value->tok, "the value of an enum member has to be an integer");
             member->value->int_val = (i32) const_i64(v->context, eval_constexpr(&v->constexpr_resolver, member->value));
             member->value->kind = ND_INT;
         }
-- 
2.43.0


From 8e8002db75ac7a9910a9cf66f2491538062003e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 075/159] fix: report operands, alignments and locals which
 constants cannot use

---
 src/compiler/interpreter/interpreter.c | 71 +++++++++++++++-----------
 src/compiler/parser/typechecker.c      |  6 ++-
 src/compiler/parser/validator.c        |  3 ++
 3 files changed, 48 insertions(+), 32 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 2c2626f..da87bfb 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -87,8 +87,8 @@
     FP_INFIX_OP_CASES(left_value, right_value, op)
 
 #define COMPARISON_OP_CASE(node_kind, op) case node_kind: do {      \
-    InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
-    InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
+    InterpreterValue_T left_value = eval_operand(ictx, expr->left);    \
+    InterpreterValue_T right_value = eval_operand(ictx, expr->right);  \
     balance_operands(ictx, &left_value, &right_value);              \
     switch(left_value.type->kind) {                                 \
         case TY_F32: case TY_F64: case TY_F80:                      \
@@ -100,8 +100,8 @@
     }} while(0)
 
 #define INTEGER_INFIX_OP_CASE(node_kind, op) case node_kind: do {       \
-        InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);    \
-        InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);  \
+        InterpreterValue_T left_value = eval_operand(ictx, expr->left);    \
+        InterpreterValue_T right_value = eval_operand(ictx, expr->right);  \
         if((node_kind) != ND_LSHIFT && (node_kind) != ND_RSHIFT)        \
             balance_operands(ictx, &left_value, &right_value);          \
         switch(left_value.type->kind) {                                 \
@@ -304,6 +304,14 @@ static InterpreterValue_T convert_operand(InterpreterContext_T* ictx, Interprete
 }
 
 // operands of different types are evaluated at the wider one, or at the left one if both are of the same size
+static InterpreterValue_T eval_operand(InterpreterContext_T* ictx, ASTNode_T* operand)
+{
+    InterpreterValue_T value = interpreter_eval_expr(ictx, operand);
+    if(!value.type)
+        throw_error(ictx->context, ERR_CONSTEXPR, operand->tok, "cannot evaluate this value at compile time");
+    return value;
+}
+
 static void balance_operands(InterpreterContext_T* ictx, InterpreterValue_T* left, InterpreterValue_T* right)
 {
     if(right->type->size > left->type->size)
@@ -472,8 +480,8 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
 
 static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T* expr)
 {
-    InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-    InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+    InterpreterValue_T left_value = eval_operand(ictx, expr->left);
+    InterpreterValue_T right_value = eval_operand(ictx, expr->right);
     
     ASTType_T* left_type = unpack(expr->left->data_type);
     if(PTR_TYPE(left_type)) {
@@ -494,8 +502,8 @@ static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T*
 
 static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T* expr)
 {
-    InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-    InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+    InterpreterValue_T left_value = eval_operand(ictx, expr->left);
+    InterpreterValue_T right_value = eval_operand(ictx, expr->right);
     
     ASTType_T* left_type = unpack(expr->left->data_type);
     ASTType_T* right_type = unpack(expr->right->data_type);
@@ -633,8 +641,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_ALIGNOF:
             return I64_VALUE(expr->the_type->align);
         case ND_PIPE:
-            ictx->pipe_value = interpreter_eval_expr(ictx, expr->left);
-            return interpreter_eval_expr(ictx, expr->right);
+            ictx->pipe_value = eval_operand(ictx, expr->left);
+            return eval_operand(ictx, expr->right);
         case ND_HOLE:
             return ictx->pipe_value;    
         case ND_TERNARY:
@@ -643,18 +651,18 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             return interpreter_eval_expr(ictx, expr->if_branch);
         case ND_ELSE_EXPR:
         {
-            InterpreterValue_T left = interpreter_eval_expr(ictx, expr->left);
+            InterpreterValue_T left = eval_operand(ictx, expr->left);
             if(interpreter_value_is_falsy(left))
-                return interpreter_eval_expr(ictx, expr->right);
+                return eval_operand(ictx, expr->right);
             return left;
         }
         case ND_OR:
-            return BOOL_VALUE(interpreter_value_is_truthy(interpreter_eval_expr(ictx, expr->left)) || interpreter_value_is_truthy(interpreter_eval_expr(ictx, expr->right)));
+            return BOOL_VALUE(interpreter_value_is_truthy(eval_operand(ictx, expr->left)) || interpreter_value_is_truthy(eval_operand(ictx, expr->right)));
         case ND_AND:
-            return BOOL_VALUE(interpreter_value_is_truthy(interpreter_eval_expr(ictx, expr->left)) && interpreter_value_is_truthy(interpreter_eval_expr(ictx, expr->right)));
+            return BOOL_VALUE(interpreter_value_is_truthy(eval_operand(ictx, expr->left)) && interpreter_value_is_truthy(eval_operand(ictx, expr->right)));
         case ND_NEG:
         {
-            InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T value = eval_operand(ictx, expr->right);
             switch(value.type->kind)
             {
                 NUMERIC_PREFIX_OP_CASES(value, -);
@@ -671,8 +679,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             return eval_sub(ictx, expr);
         case ND_MUL:
         {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T left_value = eval_operand(ictx, expr->left);
+            InterpreterValue_T right_value = eval_operand(ictx, expr->right);
             balance_operands(ictx, &left_value, &right_value);
             switch(left_value.type->kind)
             {
@@ -683,8 +691,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         }
         case ND_DIV:
         {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T left_value = eval_operand(ictx, expr->left);
+            InterpreterValue_T right_value = eval_operand(ictx, expr->right);
             balance_operands(ictx, &left_value, &right_value);
             check_divisor(ictx, expr, &left_value, &right_value);
             switch(left_value.type->kind)
@@ -696,8 +704,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         }
         case ND_MOD:
         {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T left_value = eval_operand(ictx, expr->left);
+            InterpreterValue_T right_value = eval_operand(ictx, expr->right);
             balance_operands(ictx, &left_value, &right_value);
             check_divisor(ictx, expr, &left_value, &right_value);
             switch(left_value.type->kind)
@@ -722,7 +730,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         } 
         case ND_DEREF:
         {
-            InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T value = eval_operand(ictx, expr->right);
             return load_value((LValue_T) {
                 .type = expr->data_type,
                 .ptr = (void*) value.value.ptr
@@ -731,7 +739,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_ASSIGN:
         {
             // the right side may move the stack
-            InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T value = eval_operand(ictx, expr->right);
             LValue_T dest = eval_lvalue(ictx, expr->left);
             assign_lvalue(dest, &value);
             return value;
@@ -740,7 +748,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         // TODO: ND_LAMBDA
         case ND_CAST:
         {
-            InterpreterValue_T value = interpreter_eval_expr(ictx, expr->left);
+            InterpreterValue_T value = eval_operand(ictx, expr->left);
             const ASTType_T* to = unpack(expr->data_type), *from = value.type;
 
             if(to->kind == TY_PTR)
@@ -775,10 +783,10 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
             }
         }
         case ND_NOT:
-            return BOOL_VALUE(interpreter_value_is_falsy(interpreter_eval_expr(ictx, expr->right)));
+            return BOOL_VALUE(interpreter_value_is_falsy(eval_operand(ictx, expr->right)));
         case ND_BIT_NEG:
         {
-            InterpreterValue_T value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T value = eval_operand(ictx, expr->right);
             switch(value.type->kind)
             {
                 INTLIKE_PREFIX_OP_CASES(value, ~);
@@ -793,15 +801,15 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         INTEGER_INFIX_OP_CASE(ND_XOR, ^);
         case ND_EQ:
         {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T left_value = eval_operand(ictx, expr->left);
+            InterpreterValue_T right_value = eval_operand(ictx, expr->right);
             balance_operands(ictx, &left_value, &right_value);
             return BOOL_VALUE(interpreter_values_equal(left_value, right_value));
         }
         case ND_NE:
         {
-            InterpreterValue_T left_value = interpreter_eval_expr(ictx, expr->left);
-            InterpreterValue_T right_value = interpreter_eval_expr(ictx, expr->right);
+            InterpreterValue_T left_value = eval_operand(ictx, expr->left);
+            InterpreterValue_T right_value = eval_operand(ictx, expr->right);
             balance_operands(ictx, &left_value, &right_value);
             return BOOL_VALUE(!interpreter_values_equal(left_value, right_value));
         }
@@ -939,7 +947,8 @@ static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTTyp
         case OBJ_LOCAL: 
         case OBJ_FN_ARG:
         {
-            assert(obj->offset != 0);
+            if(obj->offset == 0)
+                throw_error(ictx->context, ERR_CONSTEXPR, tok, "%s `%s` has no value at compile time", obj_kind_to_str(obj->kind), obj->id->callee);
             return (LValue_T) {
                 .ptr = &ictx->stack->data[obj->offset],
                 .type = ty
diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index bb9a989..eb21ffc 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -550,7 +550,11 @@ static void typecheck_binop(ASTNode_T* op, va_list args)
 
     ASTType_T* from = types_equal(t->context, op->data_type, op->right->data_type) ? op->left->data_type : op->right->data_type;
     ASTType_T* to = types_equal(t->context, op->data_type, op->right->data_type) ? op->right->data_type : op->left->data_type;
-    assert(from != to && "binop typecheck error"); // should never happen
+    if(from == to)
+    {
+        throw_error(t->context, ERR_TYPE_ERROR_UNCR, op->tok, "wrong operand types for this operator");
+        return;
+    }
 
     ASTNode_T* from_node = from == op->left->data_type ? op->left : op->right;
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 2d1c0a6..ca074dd 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2416,6 +2416,9 @@ static i32 get_type_size(Validator_T* v, ASTType_T* type)
 // requires the size of the type to be known
 static i32 get_type_align(Validator_T* v, ASTType_T* type)
 {
+    if(!type)
+        return 1;
+
     switch(type->kind)
     {
         case TY_UNDEF:
-- 
2.43.0


From acfbae11248b2bc783ce6571f9f8d4c1654da661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 076/159] fix: reject pointer calculations in constant
 expressions

---
 src/compiler/interpreter/interpreter.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index da87bfb..f829e97 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -478,12 +478,20 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
     }
 }
 
+// addresses are not known at compile time
+static void check_pointer_operands(InterpreterContext_T* ictx, ASTNode_T* expr, const ASTType_T* left, const ASTType_T* right)
+{
+    if(ictx->constexpr_only && (PTR_TYPE(left) || PTR_TYPE(right)))
+        throw_error(ictx->context, ERR_CONSTEXPR, expr->tok, "cannot calculate pointers at compile time");
+}
+
 static inline InterpreterValue_T eval_add(InterpreterContext_T* ictx, ASTNode_T* expr)
 {
     InterpreterValue_T left_value = eval_operand(ictx, expr->left);
     InterpreterValue_T right_value = eval_operand(ictx, expr->right);
     
-    ASTType_T* left_type = unpack(expr->left->data_type);
+    const ASTType_T* left_type = unpack((ASTType_T*) EITHER(expr->left->data_type, left_value.type));
+    check_pointer_operands(ictx, expr, left_value.type, right_value.type);
     if(PTR_TYPE(left_type)) {
         left_value.type = left_type;
         left_value.value.ptr += interpreter_value_i64(&right_value) * left_type->base->size;
@@ -505,8 +513,9 @@ static inline InterpreterValue_T eval_sub(InterpreterContext_T* ictx, ASTNode_T*
     InterpreterValue_T left_value = eval_operand(ictx, expr->left);
     InterpreterValue_T right_value = eval_operand(ictx, expr->right);
     
-    ASTType_T* left_type = unpack(expr->left->data_type);
-    ASTType_T* right_type = unpack(expr->right->data_type);
+    const ASTType_T* left_type = unpack((ASTType_T*) EITHER(expr->left->data_type, left_value.type));
+    const ASTType_T* right_type = unpack((ASTType_T*) EITHER(expr->right->data_type, right_value.type));
+    check_pointer_operands(ictx, expr, left_value.type, right_value.type);
     if(PTR_TYPE(left_type) && PTR_TYPE(right_type))
     {
         left_value.type = primitives[TY_I64];
@@ -663,6 +672,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_NEG:
         {
             InterpreterValue_T value = eval_operand(ictx, expr->right);
+            check_pointer_operands(ictx, expr, value.type, value.type);
             switch(value.type->kind)
             {
                 NUMERIC_PREFIX_OP_CASES(value, -);
@@ -731,6 +741,8 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_DEREF:
         {
             InterpreterValue_T value = eval_operand(ictx, expr->right);
+            if(!expr->data_type || !PTR_TYPE(value.type))
+                throw_error(ictx->context, ERR_TYPE_ERROR, expr->tok, "can only dereference pointers");
             return load_value((LValue_T) {
                 .type = expr->data_type,
                 .ptr = (void*) value.value.ptr
-- 
2.43.0


From 5d933b91348313039ae0c4f3273f396154f77e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 077/159] fix: grow the allocation of a string when appending
 to it

---
 src/std/string.csp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/std/string.csp b/src/std/string.csp
index bb87245..da3eb9f 100644
--- a/src/std/string.csp
+++ b/src/std/string.csp
@@ -135,11 +135,12 @@ namespace std {
         fn append(dest: &String, c: char)
         {
             let str_data = get_data(*dest);
-            str_data.alloc++;
             str_data.size++;
 
-            if(!has_space(str_data))
-                str_data = memory::realloc(str_data, sizeof StringData + (str_data.alloc *= 2) + 1);
+            if(!has_space(str_data)) {
+                str_data.alloc = str_data.size * 2;
+                str_data = memory::realloc(str_data, sizeof StringData + str_data.alloc + 1);
+            }
             str_data.buff[str_data.size - 1] = c;
             str_data.buff[str_data.size] = '\0';
             *dest = &(str_data.buff[0]);
-- 
2.43.0


From 52ccb049a0f470dd735665c282469483d1849a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 078/159] fix: store the values of hashmaps whose keys are
 narrower than the values

---
 src/std/hashmap.csp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/std/hashmap.csp b/src/std/hashmap.csp
index e145971..6f9d25f 100644
--- a/src/std/hashmap.csp
+++ b/src/std/hashmap.csp
@@ -38,6 +38,7 @@ macro hashmap_init(key_type, val_type) {
         }),
         sizeof (key_type),
         sizeof (val_type),
+        alignof (val_type),
         type::((key_type) == &char) || type::((key_type) == &const char)
     ): &struct {
         pairs: &struct {
@@ -53,6 +54,7 @@ macro hashmap_init(map) {
     (::std::hashmap::init((map), 
         sizeof typeof (map).pairs.key, 
         sizeof typeof (map).pairs.val,
+        alignof typeof (map).pairs.val,
         type::((typeof (map).pairs.key) == &char) || type::((typeof (map).pairs.key) == &const char)
     ): typeof (map))
 }
@@ -106,6 +108,7 @@ namespace std {
             size: u64,
             ksize: u16,
             vsize: u16,
+            voffset: u16, # offset of the value in the pairs given to `put`
             use_str_hashing: bool
         };
 
@@ -117,10 +120,11 @@ namespace std {
         const HASHMAP_INIT_SIZE: i32 = 32;
         const HASHMAP_MULTIPLIER: i32 = 2;
 
-        fn init(map: &Template, ksize: u64, vsize: u64, key_is_str: bool): &Template {
+        fn init(map: &Template, ksize: u64, vsize: u64, valign: u64, key_is_str: bool): &Template {
             map.data = Data::{
                 0, 0,
                 ksize, vsize,
+                (ksize + valign - 1) / valign * valign,
                 key_is_str
             };
 
@@ -201,7 +205,8 @@ namespace std {
 
             let addr = find_pair(map, pair, true);
             if addr {
-                memory::copy(addr, pair, map.data.ksize + map.data.vsize);
+                memory::copy(addr, pair, map.data.ksize);
+                memory::copy(addr + (map.data.ksize: u64), pair + (map.data.voffset: u64), map.data.vsize);
             }
         }
 
-- 
2.43.0


From ec6da11465b27627116a59d263f170cf364b6b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 079/159] fix: don't read past the old allocation in
 memory::realloc

---
 src/std/memory.csp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/std/memory.csp b/src/std/memory.csp
index 7fbe03b..d447c16 100644
--- a/src/std/memory.csp
+++ b/src/std/memory.csp
@@ -116,7 +116,8 @@ namespace std {
         fn realloc(ptr: &void, size: usize): &void
         {
             let new = alloc(size);
-            move(new, ptr, size);
+            let old_size = (ptr: &usize)[-1] - sizeof usize;
+            move(new, ptr, if old_size < size => old_size else size);
             free(ptr);
             <- new;
             #let plen = &(ptr: &usize)[-1];
-- 
2.43.0


From 0253a770468ca4d1dfd79f07d41c1c7df9078da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 080/159] fix: allocate as many items as a vector claims to
 have

---
 src/std/vec.csp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/std/vec.csp b/src/std/vec.csp
index 57e5aed..8a86742 100644
--- a/src/std/vec.csp
+++ b/src/std/vec.csp
@@ -19,7 +19,7 @@ macro vec(datatype) {
 }
 
 macro vec(datatype, size) {
-    (std::vec::init((size), sizeof (datatype)): &(datatype))
+    (std::vec::init(sizeof (datatype), (size)): &(datatype))
 }
 
 # macro to get the size of the vector
@@ -220,6 +220,7 @@ namespace std {
             let copy: &VecData = memory::alloc(alloc_size);
             
             memory::copy(copy, v_data, alloc_size);
+            copy.alloc = size; # free space is not copied
             <- &copy.buff;
         }
 
-- 
2.43.0


From 275674804530b1a94be015f9d592571f84d4b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 081/159] fix: make the string functions find, copy and
 terminate as their C counterparts do

---
 src/std/c_str.csp | 64 ++++++++++++++++++-----------------------------
 1 file changed, 25 insertions(+), 39 deletions(-)

diff --git a/src/std/c_str.csp b/src/std/c_str.csp
index 1d04346..99070b3 100644
--- a/src/std/c_str.csp
+++ b/src/std/c_str.csp
@@ -28,12 +28,18 @@ namespace std {
         }
 
         fn strlen(str: &const char): usize = len str;
-        fn strnlen(s: &const char, _n: usize): usize = strlen(s);
+        fn strnlen(s: &const char, n: usize): usize
+        {
+            let length: usize = 0;
+            while length < n && s[length] != '\0'
+                length++;
+            <- length;
+        }
 
         # similar to c_str::copy
         fn copy(dest: &char, src: &const char)
         {
-            memory::move(dest, src, strlen(src));
+            memory::move(dest, src, strlen(src) + 1);
         }
 
         fn strcpy(dest: &char, src: &const char)
@@ -57,7 +63,11 @@ namespace std {
 
         fn strncat(dest: &char, src: &const char, n: usize): &char
         {
-            strncpy(dest + strlen(dest), src, n);
+            let end = dest + strlen(dest);
+            let i: usize;
+            for i = 0; i < n && src[i] != '\0'; i++;
+                end[i] = src[i];
+            end[i] = '\0';
             <- dest;
         }
 
@@ -93,6 +103,9 @@ namespace std {
                 <- *b == '\0';
             };
 
+            if *substr == '\0'
+                <- str;
+
             while *str {
                 if *str == *substr && compare(str, substr) {
                     <- str;
@@ -107,11 +120,11 @@ namespace std {
             let begin = *stringp;
             if begin == nil ret nil;
 
-            let end: &char = begin + strspn(begin, delim);
+            let end: &char = begin + strcspn(begin, delim);
 
             if (*end) != 0 {
-                (*end)++;
-                (*stringp) = end;
+                (*end) = '\0';
+                (*stringp) = end + 1;
             }
             else
                 (*stringp) = nil;
@@ -126,12 +139,12 @@ namespace std {
             let n: usize = 0;
             let p: &char = nil;
 
-            for n = 0; *s; n++; {
-                s++;
-                for p = accept; (*p) != '\0' && (*p) != *s; p++;
+            while s[n] != '\0' {
+                for p = accept; (*p) != '\0' && (*p) != s[n]; p++;
                     noop;
-                if ! *p
+                if (*p) == '\0'
                     break;
+                n++;
             }
 
             <- n;
@@ -163,7 +176,7 @@ namespace std {
                 <- nil;
         
             let s_len = strlen(s);
-            for let i: usize = 0; i < s_len; i++;
+            for let i: usize = 0; i <= s_len; i++;
                 if (c_in: char) == s[i]
                     <- &s[i];
 
@@ -234,38 +247,11 @@ namespace std {
         fn memchr(s: &const void, c_in: i32, n: usize): &void
         {
             let c = c_in: u8;
-            let ch_ptr: &u8;
 
-            for ch_ptr = (s: &const u8); n > 0 && (ch_ptr: u64 % sizeof LongWord) != 0; n--; {
-                ch_ptr++;
+            for let ch_ptr: &u8 = s: &u8; n > 0; n--; {
                 if (*ch_ptr) == c
                     <- ch_ptr: &void;
-            }
-
-            let longword_ptr = ch_ptr: &LongWord;
-            let repeated_one: LongWord = 0x01010101;
-            let repeated_c: LongWord = c | (c << 8);
-            if 0xffffffff: u64 < (-1: LongWord) {
-                repeated_one |= repeated_one << 31 << 1;
-                repeated_c |= repeated_c << 31 << 1;
-            }
-
-            while n >= sizeof LongWord {
-                let longword1: LongWord = (*longword_ptr) ^ repeated_c;
-
-                if (((longword1 - repeated_one) & ~longword1) & (repeated_one << 7)) != 0
-                    break;
-
-                longword_ptr++;
-                n -= sizeof LongWord;
-            }
-
-            ch_ptr = longword_ptr: &const u8;
-
-            for ; n > 0; n--; {
                 ch_ptr++;
-                if (*ch_ptr) == c
-                    <- ch_ptr: &void;
             }
 
             <- nil;
-- 
2.43.0


From d875112a9214b27998b5af29f2b09e2a5f3690a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 082/159] fix: convert extreme numbers, trim and fill strings,
 and convert to upper case correctly

---
 src/std/c_str.csp     | 33 +++++----------------------------
 src/std/character.csp |  2 +-
 src/std/string.csp    | 10 ++++++----
 3 files changed, 12 insertions(+), 33 deletions(-)

diff --git a/src/std/c_str.csp b/src/std/c_str.csp
index 99070b3..81cdce1 100644
--- a/src/std/c_str.csp
+++ b/src/std/c_str.csp
@@ -274,35 +274,12 @@ namespace std {
 
         fn from_int(num: i64, str: &char, base: i32): &char 
         {
-            let i: i64 = 0;
-            let is_negative: bool = false;
+            if num >= 0 || base != 10
+                <- from_uint(num: u64, str, base);
 
-            if num == 0 {
-                str[i++] = '0';
-                str[i] = '\0';
-                <- str;
-            }
-
-            if num < 0 && base == 10 {
-                is_negative = true;
-                num = -num;
-            }
-
-            while num != 0 {
-                let rem: i64 = num % base;
-                if rem > 9 
-                    str[i++] = ((rem - 10) + 'a');
-                else
-                    str[i++] = rem + '0';
-                num = num / base;
-            }
-
-            if is_negative
-                str[i++] = '-';
-
-            str[i] = '\0';
-            reverse(str);
-            
+            # the negated number may only fit into an unsigned integer
+            str[0] = '-';
+            from_uint(-num: u64, &str[1], base);
             <- str;
         }
 
diff --git a/src/std/character.csp b/src/std/character.csp
index ad4aa6f..076081a 100644
--- a/src/std/character.csp
+++ b/src/std/character.csp
@@ -27,7 +27,7 @@ namespace std {
         
         fn toascii(c: i32): i32 = c & 0x7f;
         fn tolower(c: i32): i32 = if isupper(c) != 0 => c | 32 else c;
-        fn toupper(c: i32): i32 = if islower(c) != 0 => c | 0x05 else c;
+        fn toupper(c: i32): i32 = if islower(c) != 0 => c & 0x5f else c;
 
         fn ismetachar(c: i32): i32 = c == 's' || c == 'S' || c == 'w' || c == 'W' || c == 'd' || c == 'D';
     }
diff --git a/src/std/string.csp b/src/std/string.csp
index da3eb9f..42b6005 100644
--- a/src/std/string.csp
+++ b/src/std/string.csp
@@ -98,6 +98,7 @@ namespace std {
             str_data.alloc = size + 1;
             let str_ptr = &(*str_data.buff);
             memory::set(str_ptr, fill, size);
+            str_data.size = size;
             <- str_ptr;
         }
 
@@ -229,8 +230,8 @@ namespace std {
             while(character::isspace(*str)) str++;
 
             let back = &str[len str];
-            while(character::isspace(*back)) back--;
-            back[1] = '\0';
+            while(back > str && character::isspace(back[-1])) back--;
+            *back = '\0';
 
             <- str;
         }
@@ -251,8 +252,9 @@ namespace std {
 
         fn from_char(c: char): String
         {
-            let buf: u16 = c << 8 | '\0';
-            <- str!{(&buf): &char};
+            let buf: char 'c[2];
+            buf[0] = c;
+            <- str!{buf};
         }
         
         fn from_f32(float: f32): String
-- 
2.43.0


From 1e506e4dac12255550a6739b01958842832c7113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 083/159] fix: format negative floating-point numbers and
 terminate them

---
 src/std/c_str.csp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/std/c_str.csp b/src/std/c_str.csp
index 81cdce1..74da5d8 100644
--- a/src/std/c_str.csp
+++ b/src/std/c_str.csp
@@ -356,6 +356,12 @@ namespace std {
 
         fn from_f32(float: f32, ndigits: i32, buf: &char)
         {
+            if float < 0 {
+                *buf = '-';
+                buf++;
+                float = -float;
+            }
+
             let whole = float: i32;
             from_int(whole, buf, 10);
 
@@ -374,10 +380,17 @@ namespace std {
                 buf[i++] = digit + '0';
                 float -= digit;
             }
+            buf[i] = '\0';
         }
 
         fn from_f64(float: f64, ndigits: i32, buf: &char)
         {
+            if float < 0 {
+                *buf = '-';
+                buf++;
+                float = -float;
+            }
+
             let whole = float: i64;
             from_int(whole, buf, 10);
 
@@ -396,6 +409,7 @@ namespace std {
                 buf[i++] = digit + '0';
                 float -= digit;
             }
+            buf[i] = '\0';
         }
     }
 }
-- 
2.43.0


From 1f94463f5fd79e0f7a9d2c9036466e3f19eb7926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 084/159] fix: format u32 and u64 values as documented, and
 stop at a format ending in a percent sign

---
 src/compiler/parser/typechecker.c |  1 +
 src/std/fmt.csp                   | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index eb21ffc..cf88be2 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -329,6 +329,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
             return; // skip pointer-identical anonymous structs
 
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_CAST_WARN, cast->tok, "unnecessary type cast: expression is already of type `%s`",
             ast_type_to_str(t->context, buf1, cast->data_type, BUFSIZ)
         );
diff --git a/src/std/fmt.csp b/src/std/fmt.csp
index 103b89a..679f195 100644
--- a/src/std/fmt.csp
+++ b/src/std/fmt.csp
@@ -50,6 +50,10 @@ namespace std {
             for ; (*fmt) != '\0'; fmt++; {
                 if (*fmt) == '%' {
                     fmt++;
+                    if (*fmt) == '\0' {
+                        &str `append` 37;
+                        break;
+                    }
                     
                     let r = __internal::fmt(fmt, &str, args);
                     if r ret r;
@@ -85,6 +89,10 @@ namespace std {
             for ; (*fmt) != '\0'; fmt++; {
                 if (*fmt) == '%' {
                     fmt++;
+                    if (*fmt) == '\0' {
+                        &str `append` 37;
+                        break;
+                    }
                     
                     __internal::fmt_time(fmt, &str, &time);
                 }
@@ -131,6 +139,10 @@ namespace std {
                         concat(str, buf);
                     }
                     'u' => {
+                        c_str::from_uint(va_arg!{args, u32}, buf, 10);
+                        concat(str, buf);
+                    }
+                    'U' => {
                         c_str::from_uint(va_arg!{args, u64}, buf, 10);
                         concat(str, buf);
                     }
-- 
2.43.0


From f7160b7d3296b9d623324020f24ace05f5c19a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 085/159] fix: convert values of every type with to_str,
 booleans and characters as such

---
 src/std/string.csp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/std/string.csp b/src/std/string.csp
index 42b6005..07a8236 100644
--- a/src/std/string.csp
+++ b/src/std/string.csp
@@ -37,20 +37,20 @@ macro concat(a, b) {
 # convert any given value to a string
 macro to_str(v) {
     (
-        if type::is_int(typeof (v))
-            => ::std::string::from_int(v)
+        if type::((typeof (v)) == bool)
+            => (if ((v): bool) => str!{"true"} else str!{"false"})
+        else if type::((typeof (v)) == char)
+            => ::std::string::from_char((v): char)
+        else if type::is_int(typeof (v))
+            => ::std::string::from_int((v): i64)
         else if type::is_uint(typeof (v))
-            => ::std::string::from_uint(v)
-        else if type::( (typeof (v)) == bool)
-            => if (v) => str!{"true"} else str!{"false"}
+            => ::std::string::from_uint((v): u64)
         else if type::((typeof (v)) == void)
             => str!{"void"}
-        else if type::((typeof (v)) == char)
-            => ::std::string::from_char(v)
         else if type::((typeof (v)) == ::std::String)
-            => (v)
+            => ((v): ::std::String)
         else if type::((typeof (v)) == &char)
-            => ::std::string::init(v)
+            => ::std::string::init((v): &char)
         else str! {nil}
     )
 }
-- 
2.43.0


From f0bdd60b4d53ba359db90748f1424ba9458b2d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 086/159] fix: return the whole string from string::substr,
 reject ranges outside of it

---
 src/std/string.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/string.csp b/src/std/string.csp
index 07a8236..80cb50d 100644
--- a/src/std/string.csp
+++ b/src/std/string.csp
@@ -212,7 +212,7 @@ namespace std {
 
         fn substr(str: String, from: i64, to: i64): String 
         {
-            if to - from < 0 || to - from >= size(str)
+            if from < 0 || to < from || to > (size(str): i64)
                  ret nil;
 
             let ch_arr: &char = memory::alloc((to - from + 2) * sizeof char);
-- 
2.43.0


From 435aa8e9b068d043d8a4cb5d1f5ebf35fe99a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 087/159] fix: keep pairs whose key consists of zero bytes in
 hashmaps

---
 src/std/hashmap.csp | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/std/hashmap.csp b/src/std/hashmap.csp
index 6f9d25f..cb0665c 100644
--- a/src/std/hashmap.csp
+++ b/src/std/hashmap.csp
@@ -92,12 +92,21 @@ macro hashmap_values(map) {
     (::std::hashmap::values((map)): &typeof (map).pairs.val)
 }
 
+# size of an entry: the key, the value, and a byte which is set if the entry is used
+macro hashmap_pair_size(map) {
+    ((map).data.ksize + (map).data.vsize + 1)
+}
+
+macro hashmap_used(map, pair) {
+    ((pair)[(map).data.ksize + (map).data.vsize])
+}
+
 macro hashmap_size_mod(map, val) {
-    ((val) & ((map).data.alloc / ((map).data.ksize + (map).data.vsize) - 1))
+    ((val) & ((map).data.alloc / (hashmap_pair_size!(map)) - 1))
 }
 
 macro hashmap_num_allocated(map) {
-    ((map).data.alloc / ((map).data.ksize + (map).data.vsize))
+    ((map).data.alloc / (hashmap_pair_size!(map)))
 }
 
 # hashmap implementation
@@ -133,7 +142,7 @@ namespace std {
         }
 
         fn allocate(map: &Template) {
-            map.data.alloc = ((map.data.ksize + map.data.vsize) * HASHMAP_INIT_SIZE);
+            map.data.alloc = hashmap_pair_size!(map) * HASHMAP_INIT_SIZE;
             map.pairs = memory::alloc(map.data.alloc);
         }
 
@@ -143,7 +152,7 @@ namespace std {
         }
 
         fn has_space(map: &Template): bool {
-            <- map.data.size < map.data.alloc / (map.data.ksize + map.data.vsize);
+            <- map.data.size < hashmap_num_allocated!(map);
         }
 
         fn grow(map: &Template) {
@@ -163,10 +172,10 @@ namespace std {
 
         fn rehash(map: &Template, old_alloc: u64, old_pairs: &u8) {
             for let ptr = old_pairs; ptr < old_pairs + old_alloc; 
-                ptr += ((map.data.ksize + map.data.vsize): u64); {
-                if !memory::is_zero(ptr, map.data.ksize + map.data.vsize) {
+                ptr += (hashmap_pair_size!(map): u64); {
+                if hashmap_used!(map, ptr) != 0 {
                     let new = find_pair(map, ptr, true);
-                    memory::copy(new, ptr, map.data.ksize + map.data.vsize);
+                    memory::copy(new, ptr, hashmap_pair_size!(map));
                 }
             }
         }
@@ -185,14 +194,14 @@ namespace std {
 
             # linear probing
             for 0..hashmap_num_allocated!(map) {
-                let pair = &map.pairs[index * (map.data.ksize + map.data.vsize)];
+                let pair = &map.pairs[index * hashmap_pair_size!(map)];
+                
+                if hashmap_used!(map, pair) == 0
+                    <- if find_empty => pair else nil: &u8;
                 
                 if memory::eq(key, pair, map.data.ksize) || (map.data.use_str_hashing && string::equal(*(key: &&const char), *(pair: &&const char)))
                     <- pair;
 
-                if memory::is_zero(pair, map.data.ksize)
-                    <- if find_empty => pair else nil: &u8;
-                
                 index = hashmap_size_mod!(map, index + 1);
             }
 
@@ -207,6 +216,7 @@ namespace std {
             if addr {
                 memory::copy(addr, pair, map.data.ksize);
                 memory::copy(addr + (map.data.ksize: u64), pair + (map.data.voffset: u64), map.data.vsize);
+                hashmap_used!(map, addr) = 1;
             }
         }
 
@@ -215,8 +225,8 @@ namespace std {
         fn keys(map: &Template): &u8 {
             let v = vec!{u8};
 
-            for let i: u64 = 0; i < map.data.alloc; i += (map.data.ksize + map.data.vsize); {
-                if !memory::is_zero(&map.pairs[i], map.data.ksize)
+            for let i: u64 = 0; i < map.data.alloc; i += hashmap_pair_size!(map); {
+                if map.pairs[i + map.data.ksize + map.data.vsize] != 0
                     memory::copy(vec::__internal_add(&v, map.data.ksize), &map.pairs[i], map.data.ksize);
             }
 
@@ -226,8 +236,8 @@ namespace std {
         fn values(map: &Template): &u8 {
             let v = vec!{u8};
 
-            for let i: u64 = 0; i < map.data.alloc; i += (map.data.ksize + map.data.vsize); {
-                if !memory::is_zero(&map.pairs[i], map.data.ksize)
+            for let i: u64 = 0; i < map.data.alloc; i += hashmap_pair_size!(map); {
+                if map.pairs[i + map.data.ksize + map.data.vsize] != 0
                     memory::copy(vec::__internal_add(&v, map.data.vsize), &map.pairs[i] + map.data.ksize, map.data.vsize);
             }
 
-- 
2.43.0


From 5decc5442a57df85570f6d94c1bcc17fbd25ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 088/159] fix: write to the standard error output with
 std::stderr, no zero bytes with writeln

---
 src/std/io.csp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/std/io.csp b/src/std/io.csp
index 7a5ea76..3a6e318 100644
--- a/src/std/io.csp
+++ b/src/std/io.csp
@@ -84,7 +84,7 @@ namespace std {
 
     const stdin: i32 = stdin!;
     const stdout: i32 = stdout!;
-    const stderr: i32 = stdout!;
+    const stderr: i32 = stderr!;
 
     namespace io {
         const O_RDONLY: i32   = 0;
@@ -226,13 +226,13 @@ namespace std {
 
         fn writeln(fd: i32, buf: &const char)
         {
-            if syscall::write(fd, buf, c_str::strlen(buf) + 1) <= 0
+            if syscall::write(fd, buf, c_str::strlen(buf)) < 0
             {
                 # todo: fail assertion
                 ret;
             }
 
-            if syscall::write(fd, "\n", 2) <= 0
+            if syscall::write(fd, "\n", 1) <= 0
             {
                 # todo: fail assertion
                 ret;
-- 
2.43.0


From 716ad5ac21d98f7d302623103665aa6b1b01e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 089/159] fix: format unix seconds with %u in time formats as
 documented

---
 src/std/fmt.csp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/std/fmt.csp b/src/std/fmt.csp
index 679f195..26d3b91 100644
--- a/src/std/fmt.csp
+++ b/src/std/fmt.csp
@@ -243,6 +243,7 @@ namespace std {
                     'h' => uint_two_digits(time.hour, buf);
                     'm' => uint_two_digits(time.minute, buf);
                     's' => uint_two_digits(time.second, buf);
+                    'u' => from_int(time.ts.tv_sec, buf, 10);
                     _ => {}
                 }
 
-- 
2.43.0


From 5068c5b7eca26bfd5df2033798cc8758599db3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:01 +0000
Subject: [PATCH 090/159] fix: lay out Stat as the kernel does

---
 src/std/io.csp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/std/io.csp b/src/std/io.csp
index 3a6e318..0cbc352 100644
--- a/src/std/io.csp
+++ b/src/std/io.csp
@@ -44,19 +44,20 @@ namespace std {
     type Stat: struct {
         dev: dev_t,         # Device
         ino: ino_t,         # File serial number
-        mode: mode_t,       # File mode
         nlink: nlink_t,     # Link count
+        mode: mode_t,       # File mode
         uid: uid_t,         # User ID of the file's owner
         gid: gid_t,         # Group ID of the file's owner
+        __pad0: u32,
         rdev: dev_t,        # Device number, if device
         size: Offset,        # Sote of the file (in bytes)
         blksize: blksize_t, # Optimal blocksize for IO
         blocks: blkcnt_t,   # Number 512-byte blocks allocated
-        atime: TimeVal,
+        atime: i64,         # Seconds and nanoseconds of the last access,
         atimensec: u64,
-        mtime: TimeVal,
+        mtime: i64,         # of the last modification,
         mtimensec: u64,
-        ctime: TimeVal,
+        ctime: i64,         # and of the last status change
         ctimensec: u64,
         __glibc_reserved: u64 'c[3]
     };
-- 
2.43.0


From c31ddea95b8032f54634c6f96fc704f9b88e0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 091/159] fix: read every entry of a directory, and only its
 entries

---
 src/std/directory.csp | 14 ++++++++------
 src/std/syscall.csp   |  7 +++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/std/directory.csp b/src/std/directory.csp
index af11488..74751c6 100644
--- a/src/std/directory.csp
+++ b/src/std/directory.csp
@@ -70,8 +70,8 @@ namespace std {
         {
             using io;
 
-            let fd = 0;
-            if fd = syscall::open(name, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0) < 0
+            let fd = syscall::open(name, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
+            if fd < 0
             {
                 error::new(Errno::IO, "could not open directory");
                 <- nil;
@@ -129,17 +129,19 @@ namespace std {
 
         fn read(dir: &Directory): &DirEntry
         {
-            if dir.buf_pos > dir.buf_end {
-                let length = syscall::getdents(dir.fd, dir.buf, sizeof typeof dir.buf);
+            if dir.buf_pos >= dir.buf_end {
+                let length = syscall::getdents64(dir.fd, dir.buf, sizeof typeof dir.buf);
                 if length < 0 {
-                    error::new(Errno::IO, "error in `std::syscall::getdents()`");
+                    error::new(Errno::IO, "error in `std::syscall::getdents64()`");
                     <- nil;
                 }
+                if length == 0
+                    <- nil; # end of the directory
                 dir.buf_end = length;
                 dir.buf_pos = 0;
             }
 
-            let de = (&(dir.buf) + dir.buf_pos): &DirEntry;
+            let de = (&(dir.buf[dir.buf_pos])): &DirEntry;
             dir.buf_pos += de.reclen;
             dir.tell = de.off;
             <- de;
diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index e508adb..b19df51 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -838,6 +838,13 @@ namespace std {
             <- res;
         }
         
+        fn getdents64(fd: u32, dirp: &void, count: u32): i64
+        {
+            let res: i64;
+            syscall_r!(res, Syscall::GETDENTS64, fd, dirp, count);
+            <- res;
+        }
+
         fn getdents(fd: u32, dirp: &void, count: u32): i64
         {
             let res: i64;
-- 
2.43.0


From 3aecc093451085520f2c8d49a25a20af4c06df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 092/159] fix: open files as requested and keep track of their
 offsets

---
 src/std/file.csp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/std/file.csp b/src/std/file.csp
index d8c6532..1cc162a 100644
--- a/src/std/file.csp
+++ b/src/std/file.csp
@@ -20,7 +20,7 @@ import "string.csp";
 import "fmt.csp";
 
 macro file(path) {
-    (::File::open((path), ::File::READ_WRITE))
+    (::std::file::open((path), ::std::file::READ_WRITE))
 }
 
 namespace std {
@@ -47,7 +47,7 @@ namespace std {
 
             if mode & CREATE
                 sys_flags |= io::O_CREAT;
-            if mode & READ_WRITE
+            if (mode & READ_WRITE) == READ_WRITE
                 sys_flags |= io::O_RDWR;
             else if mode & READ
                 sys_flags |= io::O_RDONLY;
@@ -83,7 +83,7 @@ namespace std {
         fn write(file: &File, data: &const void, count: usize): i64
         {
             let written = syscall::write(file.desc, data, count);
-            if written == -1 
+            if written < 0
                 error::new(Errno::IO, "could not write to file");
             else
                 file.offset += written;
@@ -95,12 +95,9 @@ namespace std {
         fn vwritef(file: &File, fmt: &const char, args: &VAList): i64
         {
             using std::fmt;
-            let written = -1;
+            let written: i64 = -1;
             with formatted = va_format(fmt, args): &void
-                written = syscall::write(file.desc, formatted, c_str::strlen(formatted));
-            
-            if written == -1
-                error::new(Errno::IO, "could not write to file");
+                written = write(file, formatted, c_str::strlen(formatted));
             
             <- written;
         }
@@ -108,7 +105,7 @@ namespace std {
         fn read(file: &File, buffer: &void, count: usize): &void
         {
             let bytes_read = syscall::read(file.desc, buffer, count);
-            if bytes_read == -1 
+            if bytes_read < 0
                 error::new(Errno::IO, "could not read file");
             else
                 file.offset += bytes_read;
@@ -122,10 +119,11 @@ namespace std {
                 <- -1;
             } unless file;
             let c = '\0';
-            if syscall::read(file.desc, &c, 1) == -1 
+            let bytes_read = syscall::read(file.desc, &c, 1);
+            if bytes_read < 0
                 error::new(Errno::IO, "could not read file");
             else
-                file.offset++;
+                file.offset += bytes_read;
             <- c;
         }
 
@@ -135,7 +133,7 @@ namespace std {
             do
                 <- error::new(Errno::NILPTR, "`file` is nil")
             unless file;
-            if syscall::close(file.desc) == -1
+            if syscall::close(file.desc) < 0
                 <- error::new(Errno::IO, "could not close file");
             memory::free(file);
 
-- 
2.43.0


From 3ee8c4933786039eb9ff6bc349d36272d452d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 093/159] fix: make the system calls stat and ioctl, number
 setresgid and getresuid correctly

---
 src/std/syscall.csp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index b19df51..1245315 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -207,7 +207,7 @@ namespace std {
         GETPGRP, 
         SETSID, SETREUID, SETREGID,
         GETGROUPS, SETGROUPS, 
-        SETRESUID, SETRESGID, GETRESUID, GETRESGID,
+        SETRESUID, GETRESUID, SETRESGID, GETRESGID,
         GETPGID,
         SETFSUID, SETFSGID, 
         GETSID,
@@ -370,7 +370,7 @@ namespace std {
         fn stat(filename: &const char, buf: &Stat): i32
         {
             let res: i64;
-            syscall_r!(res, res, Syscall::STAT, filename, buf);
+            syscall_r!(res, Syscall::STAT, filename, buf);
             <- res;
         }
 
@@ -440,7 +440,7 @@ namespace std {
         fn ioctl(fd: i32, cmd: i32, arg: u64): i32
         {
             let res: i64;
-            syscall_r!(res, res, Syscall::IOCTL, fd, cmd, arg);
+            syscall_r!(res, Syscall::IOCTL, fd, cmd, arg);
             <- res;
         }
         
-- 
2.43.0


From 0d2571c6832f3d39edb74a0b45d2d96c232b18bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 094/159] fix: pass 64-bit arguments to system calls which take
 them

---
 src/std/syscall.csp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index 1245315..deb12fe 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -402,7 +402,7 @@ namespace std {
             <- res;
         }
 
-        fn mmap(addr: &void, length: usize, prot: i64, flags: i32, fd: i32, off: Offset): &void
+        fn mmap(addr: &void, length: usize, prot: i64, flags: i64, fd: i32, off: Offset): &void
         {
             let res: &void;
             syscall_r!(res, Syscall::MMAP, addr, length, prot, flags, fd, off);
@@ -500,7 +500,7 @@ namespace std {
             <- res;
         }
         
-        fn mremap(old_addr: &void, old_size: usize, new_size: usize, flags: i32): &void
+        fn mremap(old_addr: &void, old_size: usize, new_size: usize, flags: i64): &void
         {
             let res: &void;
             syscall_r!(res, Syscall::MREMAP, old_addr, old_size, new_size, flags);
@@ -710,7 +710,7 @@ namespace std {
         fn exit(status: i32)
             syscall!(Syscall::EXIT, status);
         
-        fn wait4(pid: pid_t, wstatus: &i32, options: i32, arg: i32): pid_t
+        fn wait4(pid: pid_t, wstatus: &i32, options: i32, arg: i64): pid_t
         {
             let res: i64;
             syscall_r!(res, Syscall::WAIT4, pid, wstatus, options, arg);
@@ -796,7 +796,7 @@ namespace std {
             <- res;
         }
         
-        fn fcntl2(fd: i32, cmd: i32, arg: i32): i32
+        fn fcntl2(fd: i32, cmd: i32, arg: i64): i32
         {
             let res: i64;
             syscall_r!(res, Syscall::FCNTL, fd, cmd, arg);
-- 
2.43.0


From 396b8f3467a8d1b1ab2798cc443767156826e00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 095/159] fix: send to connected sockets without a destination
 address

---
 src/std/syscall.csp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/std/syscall.csp b/src/std/syscall.csp
index deb12fe..7c3ea18 100644
--- a/src/std/syscall.csp
+++ b/src/std/syscall.csp
@@ -608,7 +608,8 @@ namespace std {
         fn sendto(sockfd: i32, buf: &const void, length: usize, flags: i32): ssize_t
         {
             let res: ssize_t;
-            syscall_r!(res, Syscall::SENDTO, sockfd, buf, length, flags);
+            let none: u64 = 0; # no destination address
+            syscall_r!(res, Syscall::SENDTO, sockfd, buf, length, flags, none, none);
             <- res;
         }
 
-- 
2.43.0


From 36c4bd579f983862f784e690c01482884db51f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 096/159] fix: report calloc of more bytes than there are,
 allocate with realloc of nil

---
 src/std/memory.csp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/std/memory.csp b/src/std/memory.csp
index d447c16..e690f63 100644
--- a/src/std/memory.csp
+++ b/src/std/memory.csp
@@ -108,7 +108,15 @@ namespace std {
 
         fn calloc(nmemb: usize, size: usize): &void
         {
+            if size != 0 && nmemb > u64_max! / size {
+                error::new(Errno::NOMEM, "allocation too big");
+                <- nil;
+            }
+
             let ptr = alloc(nmemb * size);
+            if ptr == nil
+                <- nil;
+
             zero(ptr, nmemb * size);
             <- ptr;
         }
@@ -116,6 +124,9 @@ namespace std {
         fn realloc(ptr: &void, size: usize): &void
         {
             let new = alloc(size);
+            if ptr == nil || new == nil
+                <- new;
+
             let old_size = (ptr: &usize)[-1] - sizeof usize;
             move(new, ptr, if old_size < size => old_size else size);
             free(ptr);
-- 
2.43.0


From 2f9bd8df1d8afad36e9d29817c5737e7b57b23bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 097/159] fix: correct std's random state, powers, moduli,
 delays, array sums, limits, swaps and unix seconds

---
 src/std/array.csp  | 12 ++++++------
 src/std/math.csp   | 10 +++++-----
 src/std/random.csp |  3 ++-
 src/std/time.csp   |  4 ++--
 src/std/types.csp  |  4 ++--
 src/std/utils.csp  |  8 ++++++--
 6 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/std/array.csp b/src/std/array.csp
index 4eebabc..7360dd4 100644
--- a/src/std/array.csp
+++ b/src/std/array.csp
@@ -29,17 +29,17 @@ macro sum(__a) {
         else if type::((typeof (__a)[0]) == u32) =>
             ::std::array::sum_u32(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i64) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i64(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u64) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u64(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i16) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i16(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u16) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u16(&__a[0], len (__a)): i64
         else if type::((typeof (__a)[0]) == i8) =>
-            ::std::array::sum_i32(&__a[0], len (__a))
+            ::std::array::sum_i8(&__a[0], len (__a))
         else if type::((typeof (__a)[0]) == u8) =>
-            ::std::array::sum_u32(&__a[0], len (__a)): i64
+            ::std::array::sum_u8(&__a[0], len (__a)): i64
         else 0: i64
     )
     else 0: i64)
diff --git a/src/std/math.csp b/src/std/math.csp
index 869d5c2..697d844 100644
--- a/src/std/math.csp
+++ b/src/std/math.csp
@@ -57,10 +57,10 @@ namespace std {
         fn pow(a: i32, b: i32): i64 
         {
             match b {
-                0 => ret 0;
+                0 => ret 1;
                 1 => ret a;
-                2 => ret a²;
-                3 => ret a³;
+                2 => ret (a: i64)²;
+                3 => ret (a: i64)³;
                 _ => {
                     let c: i64 = 1;
 
@@ -88,8 +88,8 @@ namespace std {
         fn mod(num: i64, den: i64): i64
         {
             let result = num % den;
-            while result < 0
-                result += den;
+            if result < 0
+                result += if den < 0 => -den else den;
             <- result;
         }
 
diff --git a/src/std/random.csp b/src/std/random.csp
index 292fc41..b587b12 100644
--- a/src/std/random.csp
+++ b/src/std/random.csp
@@ -117,7 +117,8 @@ namespace std {
             ];
 
             fn __init() {
-                do x = &init + 1 unless x;
+                if !x
+                    x = &init[1];
             }
         }
     }
diff --git a/src/std/time.csp b/src/std/time.csp
index 5d2c9e2..48fe46f 100644
--- a/src/std/time.csp
+++ b/src/std/time.csp
@@ -80,7 +80,7 @@ namespace std {
 
         namespace unix {
             # gets the current unix-time (time in seconds since 01.01.1970)
-            fn secs(): TimeVal = *syscall::time(nil);
+            fn secs(): TimeVal = clock::get_time_of_day();
         }
     }
 
@@ -127,7 +127,7 @@ namespace std {
 
         # delay further execution by `millis` milliseconds
         fn delay(millis: i64): TimeSpec {
-            let req = TimeSpec::{millis / 1_000, (millis % 1000) * 1000};
+            let req = TimeSpec::{millis / 1_000, (millis % 1000) * 1_000_000};
             let rem = TimeSpec::{};
             syscall::nanosleep(&req, &rem);
             <- rem;
diff --git a/src/std/types.csp b/src/std/types.csp
index 04db3f5..c9a6134 100644
--- a/src/std/types.csp
+++ b/src/std/types.csp
@@ -18,7 +18,7 @@ macro i16_min { (-32768: i16) }
 macro i32_max { (2147483647: i32) }
 macro i32_min { (-2147483648: i32) }
 macro i64_max { (9223372036854775807: i64) }
-macro i64_min { (-9223372036854775808: i32) }
+macro i64_min { (-9223372036854775808: i64) }
 
 # unsigned integer data type limits
 macro u8_max  { (255: u8) }
@@ -28,7 +28,7 @@ macro u16_min { (0: u16) }
 macro u32_max { (4294967295: u32) }
 macro u32_min { (0: u32) }
 macro u64_max { (18446744073709551615: u64) }
-macro u64_min { (0: u32) }
+macro u64_min { (0: u64) }
 
 # char data type limits
 macro char_min { i8_min! }
diff --git a/src/std/utils.csp b/src/std/utils.csp
index 1446a3d..2f2d6a0 100644
--- a/src/std/utils.csp
+++ b/src/std/utils.csp
@@ -36,7 +36,11 @@ macro range(i, lo, hi) {
 
 # swaps two variables with each other without creating a third variable
 macro xor_swap(a, b) {
-    ((a) ^= (b) |> (b) ^= (a) |> (a) ^= (b))
+    do {
+        (a) ^= (b);
+        (b) ^= (a);
+        (a) ^= (b);
+    } while (false)
 }
 
 # swaps two variables with a third buffer variable
@@ -54,7 +58,7 @@ macro either(a, b) {
 
 # converts any type to a string
 macro ttos(ty) {
-    (type::__to_str(ty))
+    (type::to_str(ty))
 }
 
 # checks if the bit of v at position p is 1
-- 
2.43.0


From b4f5c990ba2cce8397a60673e71cc07b20cd7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 098/159] fix: call functions through globals, members,
 elements and pointers

---
 src/compiler/codegen/asm/asm_codegen.c | 24 ++++--------------------
 src/std/types.csp                      |  2 +-
 2 files changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index e5cbc98..d3066da 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1010,7 +1010,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
                 case OBJ_GLOBAL:
                 case OBJ_ENUM_MEMBER:
-                    asm_println(cg, "  %s %s(%%rip), %%rax", node->call ? "movq" : "lea", node->referenced_obj->is_extern_c ? node->id->callee : asm_gen_identifier(cg->context, node->id));
+                    asm_println(cg, "  lea %s(%%rip), %%rax", node->referenced_obj->is_extern_c ? node->id->callee : asm_gen_identifier(cg->context, node->id));
                     return;
                 
                 case OBJ_FUNCTION:
@@ -1060,8 +1060,6 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node->left);
             asm_println(cg, "  add $%ld, %%rax", node->body->offset);
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
         } return;
         case ND_INDEX:
             asm_gen_index(cg, node, true);
@@ -1367,7 +1365,6 @@ static void asm_load(ASMCodegenData_T* cg, ASTType_T *ty) {
         case TY_DYN:
         case TY_ARRAY:
         case TY_VLA:
-        case TY_FN:
             return;
         case TY_F32:
             asm_println(cg, "  movss (%%rax), %%xmm0");
@@ -1934,13 +1931,8 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         
         case ND_ID:
             asm_gen_addr(cg, node);
-            asm_load(cg, node->data_type);
-
-            if(unpack(node->data_type)->kind == TY_FN && 
-                node->referenced_obj && 
-                (node->referenced_obj->kind == OBJ_LOCAL || node->referenced_obj->kind == OBJ_FN_ARG)
-            )
-                    asm_println(cg, "  mov (%%rax), %%rax");
+            if(!node->referenced_obj || node->referenced_obj->kind != OBJ_FUNCTION)
+                asm_load(cg, node->data_type);
             return;
 
         case ND_MEMBER: {
@@ -1953,10 +1945,6 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
             asm_gen_addr(cg, node);
             asm_load(cg, node->data_type);
-
-            if(unpack(node->data_type)->kind == TY_FN)
-                asm_println(cg, "  mov (%%rax), %%rax");
-
         } return;
         
         case ND_ARRAY:
@@ -2219,11 +2207,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
             List_T* packed_args = node->args;
             node->args = unpack_call_args(cg, node);
             i32 stack_args = asm_push_args(cg, node);
-            asm_gen_addr(cg, node->expr);
-
-            if(!node->called_obj || node->called_obj->kind == OBJ_LOCAL || node->called_obj->kind == OBJ_FN_ARG)
-                asm_println(cg, "  mov (%%rax), %%rax");
-
+            asm_gen_expr(cg, node->expr);
             i32 fp = asm_pop_args(cg, node);
 
             asm_println(cg, "  mov %%rax, %s", call_reg);
diff --git a/src/std/types.csp b/src/std/types.csp
index c9a6134..d530be2 100644
--- a/src/std/types.csp
+++ b/src/std/types.csp
@@ -27,7 +27,7 @@ macro u16_max { (65535: u16) }
 macro u16_min { (0: u16) }
 macro u32_max { (4294967295: u32) }
 macro u32_min { (0: u32) }
-macro u64_max { (18446744073709551615: u64) }
+macro u64_max { (18446744073709551615) }
 macro u64_min { (0: u64) }
 
 # char data type limits
-- 
2.43.0


From 4948733959c129eb6b18e1a03376b3eadec87960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 099/159] fix: don't take other fields of a callee for the
 object it refers to

---
 src/compiler/codegen/asm/asm_codegen.c | 3 +--
 src/compiler/parser/validator.c        | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index d3066da..f9cc2a4 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1043,8 +1043,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
             return;
         
         case ND_CALL:
-            if(node->referenced_obj)
-                asm_gen_expr(cg, node);
+            asm_gen_expr(cg, node);
             return;
 
         case ND_DEREF:
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index ca074dd..fcbca1f 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1225,7 +1225,7 @@ static void iter_validate_call(ASTNode_T* call, va_list args)
             call->data_type = call_type->base;
         else
             call->data_type = (ASTType_T*) primitives[TY_VOID];
-        call->called_obj = call->expr->referenced_obj;
+        call->called_obj = call->expr->kind == ND_ID ? call->expr->referenced_obj : NULL;
         if(call->expr->kind == ND_MEMBER && call->expr->body && call->expr->body->referenced_obj && call->expr->body->referenced_obj->interface_func) {
             list_insert(call->args, call->expr->left, 0);
         }
-- 
2.43.0


From 64f9a4d40b0ad6af6c3e22973e1150de5c8f2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 100/159] fix: report an error with error::is_some() when there
 is one

---
 src/std/error.csp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std/error.csp b/src/std/error.csp
index e622556..df940ec 100644
--- a/src/std/error.csp
+++ b/src/std/error.csp
@@ -228,6 +228,6 @@ namespace std {
             }
         }
 
-        fn is_some(): bool = __static::__error.kind == Errno::NONE;
+        fn is_some(): bool = __static::__error.kind != Errno::NONE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From aa786da94732b14297d206c4b9bfa37a3f9f28ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 101/159] fix: pass up to 254 errors of a test to its parent,
 name SIGWINCH

---
 src/std/process.csp | 2 +-
 src/std/testing.csp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/std/process.csp b/src/std/process.csp
index a0285da..19fbee6 100644
--- a/src/std/process.csp
+++ b/src/std/process.csp
@@ -229,7 +229,7 @@ namespace std {
                 SIGPROF => ret "SIGPROF";
                 SIGUSR1 => ret "SIGUSR1";
                 SIGUSR2 => ret "SIGUSR2";
-                SIGWINCH => ret "SINGINCH";
+                SIGWINCH => ret "SIGWINCH";
                 _ => ret "<unknown>";
             }
         }
diff --git a/src/std/testing.csp b/src/std/testing.csp
index 587ed7f..4fbf42c 100644
--- a/src/std/testing.csp
+++ b/src/std/testing.csp
@@ -72,7 +72,8 @@ namespace std {
                 0 => {
                     # new child process
                     test.func(t);
-                    exit(t.errors + 1); # pass the number of errors through the exit status to the parent process
+                    # pass the number of errors through the exit status to the parent process; it has 8 bits
+                    exit(if t.errors < 255 => t.errors + 1 else 255);
                 }
                 _ => {
                     # parent process
-- 
2.43.0


From 0e0655be45eecf4f40ddfd7876edc09280a8fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 102/159] fix: keep tuples of different named types, array
 lengths or function signatures apart

---
 src/compiler/parser/parser.c | 76 +++++++++++++++++++++++++++++-------
 1 file changed, 62 insertions(+), 14 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 46be7b0..e3c2650 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -456,27 +456,75 @@ static inline bool is_executable(ASTNode_T* n)
     return n->kind == ND_CALL || n->kind == ND_ASSIGN || n->kind == ND_INC || n->kind == ND_DEC || n->kind == ND_CAST || n->kind == ND_MEMBER || n->kind == ND_ASM;
 }
 
-static bool check_type(ASTType_T* a, ASTType_T* b)
+// compares the lengths of two array types, which are not evaluated at this point
+static bool check_array_length(ASTNode_T* a, ASTNode_T* b)
+{
+    if(!a || !b || a->kind != b->kind)
+        return a == b;
+
+    switch(a->kind)
+    {
+        case ND_INT:
+            return a->int_val == b->int_val;
+        case ND_LONG:
+            return a->long_val == b->long_val;
+        case ND_ULONG:
+            return a->ulong_val == b->ulong_val;
+        case ND_ID:
+            return identifiers_equal(a->id, b->id);
+        default:
+            return false;
+    }
+}
+
+static bool check_type(ASTType_T* a, ASTType_T* b);
+
+static bool check_type_list(List_T* a, List_T* b, bool members)
 {
-    if(a->kind != b->kind)
+    if(a->size != b->size)
         return false;
-    
-    /*if(a->callee != NULL && b->callee != NULL && strcmp(a->callee, b->callee) != 0)
-        return false;
-    
-    if((a->callee == NULL && b->callee != NULL) || (a->callee != NULL && b->callee == NULL))
-        return false;*/
-    
-    if(a->is_primitive != b->is_primitive)
+
+    for(size_t i = 0; i < a->size; i++)
+    {
+        ASTType_T* at = members ? ((ASTNode_T*) a->items[i])->data_type : a->items[i];
+        ASTType_T* bt = members ? ((ASTNode_T*) b->items[i])->data_type : b->items[i];
+        if(!check_type(at, bt))
+            return false;
+        if(members && !identifiers_equal(((ASTNode_T*) a->items[i])->id, ((ASTNode_T*) b->items[i])->id))
+            return false;
+    }
+    return true;
+}
+
+static bool check_type(ASTType_T* a, ASTType_T* b)
+{
+    if(a->kind != b->kind || a->is_primitive != b->is_primitive || a->is_constant != b->is_constant)
         return false;
-    
+
     if((a->base == NULL && b->base != NULL) || (a->base != NULL && b->base == NULL))
         return false;
 
-    if(a->base && b->base)
-        return check_type(a->base, b->base);
+    if(a->base && b->base && !check_type(a->base, b->base))
+        return false;
 
-    return true;
+    switch(a->kind)
+    {
+        case TY_UNDEF:
+            return identifiers_equal(a->id, b->id);
+        case TY_ARRAY:
+        case TY_C_ARRAY:
+            return check_array_length(a->num_indices_node, b->num_indices_node);
+        case TY_FN:
+            return a->is_variadic == b->is_variadic && check_type_list(a->arg_types, b->arg_types, false);
+        case TY_STRUCT:
+            return a->is_union == b->is_union && check_type_list(a->members, b->members, true);
+        case TY_ENUM:
+        case TY_INTERFACE:
+        case TY_TYPEOF:
+            return a == b;
+        default:
+            return true;
+    }
 }
 
 static ASTObj_T* get_compatible_tuple(Parser_T* p, ASTType_T* tuple)
-- 
2.43.0


From aa7ce5f59af9216ccd3a9830ef82fdb9be3ad15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 103/159] fix: count the padding of nested struct constants in
 global initializers

---
 src/compiler/codegen/asm/relocation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/codegen/asm/relocation.c b/src/compiler/codegen/asm/relocation.c
index f7d0b75..1ab6777 100644
--- a/src/compiler/codegen/asm/relocation.c
+++ b/src/compiler/codegen/asm/relocation.c
@@ -272,7 +272,10 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
                 size_t offset = ((ASTNode_T*) struct_type->members->items[i])->offset;
 
                 if(size_generated < offset)
+                {
                     asm_println(cg, "  .zero %zu", offset - size_generated); // pad correctly
+                    size_generated = offset;
+                }
                 size_generated += gen_typed_relocation(cg, arg, ((ASTNode_T*) struct_type->members->items[i])->data_type);
             }  
         } break;
@@ -333,7 +336,10 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
     }
 
     if(size_generated < target_size)
+    {
         asm_println(cg, "  .zero %zu", target_size - size_generated);
+        size_generated = target_size;
+    }
 
     return size_generated;
 }
-- 
2.43.0


From 974ff250345983ae4ebc7f9a98a360263a5a557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 104/159] fix: compute the sizes of types before comparing
 them, and pass functions in integer registers

---
 src/compiler/parser/validator.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index fcbca1f..45461d3 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1960,16 +1960,16 @@ static void iter_validate_type_expr(ASTNode_T* cmp, va_list args)
             result = !types_equal(v->context, cmp->l_type, cmp->r_type);
             break;
         case ND_GT:
-            result = cmp->l_type->size > cmp->r_type->size;
+            result = get_type_size(v, cmp->l_type) > get_type_size(v, cmp->r_type);
             break;
         case ND_GE:
-            result = cmp->l_type->size >= cmp->r_type->size;
+            result = get_type_size(v, cmp->l_type) >= get_type_size(v, cmp->r_type);
             break;
         case ND_LT:
-            result = cmp->l_type->size < cmp->r_type->size;
+            result = get_type_size(v, cmp->l_type) < get_type_size(v, cmp->r_type);
             break;
         case ND_LE:
-            result = cmp->l_type->size <= cmp->r_type->size;
+            result = get_type_size(v, cmp->l_type) <= get_type_size(v, cmp->r_type);
             break;
         case ND_BUILTIN_REG_CLASS:
             {
@@ -1977,7 +1977,7 @@ static void iter_validate_type_expr(ASTNode_T* cmp, va_list args)
                 cmp->int_val = 2;
 
                 ASTType_T* expanded = unpack(cmp->r_type);
-                if(is_integer(expanded) || is_ptr(expanded))
+                if(is_integer(expanded) || is_ptr(expanded) || (expanded && expanded->kind == TY_FN))
                     cmp->int_val = 0;
                 else if(is_flonum(expanded))
                     cmp->int_val = 1;
-- 
2.43.0


From 002612fe12d0a05bc2c6d2f59a33208fac2179b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 105/159] fix: honour const on type aliases, and let constant
 and anonymous aggregates initialize variables

---
 src/compiler/parser/typechecker.c | 58 ++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index cf88be2..4b55669 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -43,6 +43,7 @@ static void typecheck_operand_width(ASTNode_T* op, va_list args);
 static void typecheck_dyn_type(ASTType_T* dyn_type, va_list args);
 
 bool types_equal_strict(Context_T* context, ASTType_T* a, ASTType_T* b);
+static bool value_types_equal(Context_T* context, ASTType_T* a, ASTType_T* b);
 
 static const ASTIteratorList_T iterator = {
     .obj_start_fns = {
@@ -201,7 +202,7 @@ static bool convert_array_lit(TypeChecker_T* t, ASTType_T* expected, ASTNode_T*
     for(size_t i = 0; i < a_lit->args->size; i++)
     {
         ASTNode_T* arg = a_lit->args->items[i];
-        if(!types_equal(t->context, arg->data_type, expected->base))
+        if(!value_types_equal(t->context, arg->data_type, expected->base))
             a_lit->args->items[i] = implicit_cast(t, arg->tok, arg, expected->base, CAST_OK);
     }
 
@@ -210,13 +211,26 @@ static bool convert_array_lit(TypeChecker_T* t, ASTType_T* expected, ASTNode_T*
     return true;
 }
 
+// `const` may be said of a type itself or of any alias leading to it
+static bool is_constant_type(ASTType_T* type)
+{
+    for(; type; type = type->base)
+    {
+        if(type->is_constant)
+            return true;
+        if(type->kind != TY_UNDEF)
+            break;
+    }
+    return false;
+}
+
 static void typecheck_assignment(ASTNode_T* assignment, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf1[BUFSIZ] = {'\0'};
     char buf2[BUFSIZ] = {'\0'};
 
-    if(unpack(assignment->left->data_type)->is_constant && !assignment->is_initializing)
+    if(is_constant_type(assignment->left->data_type) && !assignment->is_initializing)
         throw_error(t->context, 
             ERR_TYPE_ERROR_UNCR, 
             assignment->tok, 
@@ -224,7 +238,7 @@ static void typecheck_assignment(ASTNode_T* assignment, va_list args)
             ast_type_to_str(t->context, buf1, assignment->left->data_type, LEN(buf1))
         );
 
-    if(types_equal(t->context, assignment->left->data_type, assignment->right->data_type))
+    if(value_types_equal(t->context, assignment->left->data_type, assignment->right->data_type))
         return;
 
     if(convert_array_lit(t, assignment->left->data_type, assignment->right))
@@ -254,7 +268,7 @@ static void typecheck_global(ASTObj_T* global, va_list args)
     GET_TYPECHECKER(args);
 
     ASTNode_T* value = global->value;
-    if(!value || !value->data_type || value->kind == ND_ARRAY || types_equal(t->context, global->data_type, value->data_type))
+    if(!value || !value->data_type || value->kind == ND_ARRAY || value_types_equal(t->context, global->data_type, value->data_type))
         return;
 
     // `nil` is a value of every function type
@@ -262,7 +276,11 @@ static void typecheck_global(ASTObj_T* global, va_list args)
         return;
 
     if(!(implicitly_castable(t, value->tok, value->data_type, global->data_type) & CAST_ERR))
+    {
+        if(value->kind == ND_STRUCT && value->data_type->kind == TY_STRUCT)
+            value->data_type = global->data_type;
         return;
+    }
 
     char buf1[BUFSIZ] = {'\0'};
     char buf2[BUFSIZ] = {'\0'};
@@ -284,7 +302,7 @@ static ASTNode_T* typecheck_arg_pass(TypeChecker_T* t, ASTType_T* expected, ASTN
         return received;
     }
 
-    if(types_equal(t->context, expected, received->data_type))
+    if(value_types_equal(t->context, expected, received->data_type))
         return received;
     
     ImplicitCastResult_T result = implicitly_castable(t, received->tok, received->data_type, expected);
@@ -415,7 +433,7 @@ static void typecheck_array_lit(ASTNode_T* a_lit, va_list args)
             arg_type = unpack(arg_type)->base;
         }
 
-        if(types_equal(t->context, arg_type, base_ty))
+        if(value_types_equal(t->context, arg_type, base_ty))
             continue;
 
         ImplicitCastResult_T result = implicitly_castable(t, arg->tok, arg_type, base_ty);
@@ -452,7 +470,7 @@ static void typecheck_struct_lit(ASTNode_T* s_lit, va_list args)
         ASTNode_T* arg = s_lit->args->items[i];
         ASTType_T* expected_ty = ((ASTNode_T*) unpack(s_lit->data_type)->members->items[i])->data_type;
 
-        if(types_equal(t->context, arg->data_type, expected_ty))
+        if(value_types_equal(t->context, arg->data_type, expected_ty))
             continue;
 
         ImplicitCastResult_T result = implicitly_castable(t, arg->tok, arg->data_type, expected_ty);
@@ -474,7 +492,7 @@ static void typecheck_inc(ASTNode_T* inc, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf[BUFSIZ] = {'\0'};
-    if(inc->data_type->is_constant)
+    if(is_constant_type(inc->data_type))
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, inc->tok, "cannot increment constant type `%s`", ast_type_to_str(t->context, buf, inc->data_type, LEN(buf)));
 }
 
@@ -482,7 +500,7 @@ static void typecheck_dec(ASTNode_T* dec, va_list args)
 {
     GET_TYPECHECKER(args);
     char buf[BUFSIZ] = {'\0'};
-    if(dec->data_type->is_constant)
+    if(is_constant_type(dec->data_type))
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, dec->tok, "cannot decrement constant type `%s`", ast_type_to_str(t->context, buf, dec->data_type, LEN(buf)));
 }
 
@@ -517,7 +535,7 @@ static void typecheck_return(ASTNode_T* ret, va_list args)
         throw_error(t->context, ERR_INTERNAL, ret_tok, "no type");
     }
 
-    if(types_equal(t->context, expected, ret->return_val->data_type))
+    if(value_types_equal(t->context, expected, ret->return_val->data_type))
         goto patch_anon_struct;
     
     ImplicitCastResult_T result = implicitly_castable(t,ret_tok, ret->return_val->data_type, expected);
@@ -700,11 +718,17 @@ ASTType_T* unpack_alias(ASTType_T* type)
 }
 
 bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b)
+{
+    return is_constant_type(a) == is_constant_type(b) && value_types_equal(context, a, b);
+}
+
+// a constant and a variable hold the same values, so they can be copied to one another
+static bool value_types_equal(Context_T* context, ASTType_T* a, ASTType_T* b)
 {
     a = unpack_alias(a);
     b = unpack_alias(b);
 
-    if(!a || !b || a->kind != b->kind || a->is_constant != b->is_constant)
+    if(!a || !b || a->kind != b->kind)
         return false;
     
     switch(a->kind)
@@ -778,7 +802,7 @@ ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType
     if(!from || !to)
         return CAST_ERR;
 
-    if(from->base && to->base && from->base->is_constant && !to->base->is_constant)
+    if(from->base && to->base && is_constant_type(from->base) && !is_constant_type(to->base))
         return CAST_DELETING_CONST;
     
     // Buffer for warnings and errors
@@ -817,7 +841,7 @@ ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType
     if(from->kind == TY_PTR && unpack(from->base)->kind == TY_ARRAY && to->kind == TY_VLA)
         return types_equal(t->context, unpack(from->base)->base, to->base) ? CAST_OK : CAST_ERR;
     if(from->kind == TY_STRUCT && to->kind == TY_STRUCT)
-        return types_equal(t->context, from, to) ? CAST_OK : CAST_ERR;
+        return value_types_equal(t->context, from, to) ? CAST_OK : CAST_ERR;
     return CAST_ERR;
 }
 
@@ -846,6 +870,14 @@ ASTNode_T* implicit_cast(TypeChecker_T* t, Token_T* tok, ASTNode_T* expr, ASTTyp
         return ref;
     }
 
+    // a struct literal without a type of its own takes the one it gets converted to
+    if(expr->kind == ND_STRUCT)
+    {
+        if(expr->data_type->kind == TY_STRUCT)
+            expr->data_type = to;
+        return expr;
+    }
+
     ASTNode_T* cast = init_ast_node(&t->context->raw_allocator, ND_CAST, tok);
     cast->data_type = to;
     cast->left = expr;
-- 
2.43.0


From e8c07a1051b4ddb1a37cb42eb065c0a301b4cadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 106/159] fix: emit parenthesized constants and anonymous
 literals in global initializers with the type they are stored as

---
 src/compiler/codegen/asm/relocation.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/relocation.c b/src/compiler/codegen/asm/relocation.c
index 1ab6777..9b19b58 100644
--- a/src/compiler/codegen/asm/relocation.c
+++ b/src/compiler/codegen/asm/relocation.c
@@ -142,6 +142,8 @@ static bool const_number(ASTNode_T* node, ConstNumber_T* dest)
         case ND_DOUBLE:
             *dest = (ConstNumber_T){.kind = NUM_FLOAT, .f = node->double_val};
             return true;
+        case ND_CLOSURE:
+            return const_number(list_last(node->exprs), dest);
         case ND_CAST:
             if(!const_number(node->left, dest))
                 return false;
@@ -165,6 +167,10 @@ size_t gen_typed_relocation(ASMCodegenData_T* cg, ASTNode_T* node, ASTType_T* ty
 {
     type = unpack(type);
 
+    // literals without a type of their own are laid out like the type they get stored as
+    if(node && ((node->kind == ND_STRUCT && type->kind == TY_STRUCT) || (node->kind == ND_ARRAY && type->kind == TY_ARRAY)))
+        node->data_type = type;
+
     ConstNumber_T n;
     if(!node || type->kind == TY_F80 || !(is_numeric(type) || type->kind == TY_BOOL || type->kind == TY_CHAR) || !const_number(node, &n))
         return gen_relocation(cg, node, type->size);
@@ -281,7 +287,7 @@ size_t gen_relocation(ASMCodegenData_T* cg, ASTNode_T* node, size_t target_size)
         } break;
         
         case ND_CLOSURE:
-            size_generated = gen_relocation(cg, node->expr, target_size);
+            size_generated = gen_relocation(cg, list_last(node->exprs), target_size);
             break;
         
         case ND_CAST:
-- 
2.43.0


From 45225d22c09815f845bb4e9385af7a805241eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 107/159] fix: access the elements of spread arrays by their
 size and convert them one by one

---
 src/compiler/codegen/asm/asm_codegen.c | 41 +++++++++++++-------------
 src/compiler/parser/validator.c        | 13 ++++++--
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index f9cc2a4..a74e76e 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1753,6 +1753,25 @@ static void asm_gen_inline_strlen(ASMCodegenData_T* cg)
     asm_println(cg, "  mov %%rcx, %%rax");
 }
 
+// one element of an array that gets spread in an array literal with elements of type `base`
+static void asm_gen_spread_element(ASMCodegenData_T* cg, ASTNode_T* array, size_t index, ASTType_T* base)
+{
+    ASTType_T* element_type = unpack(array->data_type)->base;
+    asm_gen_expr(cg, &(ASTNode_T){
+        .kind = ND_INDEX,
+        .left = array,
+        .expr = &(ASTNode_T){
+            .kind = ND_LONG,
+            .long_val = index,
+            .data_type = (ASTType_T*) primitives[TY_U64]
+        },
+        .data_type = element_type
+    });
+
+    if(unpack(element_type)->kind != TY_STRUCT && unpack(element_type)->kind != TY_ARRAY && unpack(element_type)->kind != TY_C_ARRAY)
+        asm_cast(cg, element_type, base);
+}
+
 static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 {
     if(node->tok && cg->embed_file_locations)
@@ -1960,16 +1979,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                         asm_println(cg, "  lea %ld(%%rbp), %%rax", node->buffer->offset + 8 + (current++ * node->data_type->base->size));
                         asm_push(cg);
 
-                        asm_gen_expr(cg, &(ASTNode_T){
-                            .kind = ND_INDEX,
-                            .left = arg,
-                            .expr = &(ASTNode_T) {
-                                .kind = ND_LONG,
-                                .long_val = index,
-                                .data_type = (ASTType_T*) primitives[TY_U64]
-                            },
-                            .data_type = arg_type->base
-                        });
+                        asm_gen_spread_element(cg, arg, index, node->data_type->base);
 
                         asm_store(cg, node->data_type->base);
                     }
@@ -2034,16 +2044,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
                         {
                             size_t index = arg->unpack_mode == UMODE_FTOB ? j : num_indices - j - 1;
                             asm_push(cg);
-                            asm_gen_expr(cg, &(ASTNode_T){
-                                .kind = ND_INDEX,
-                                .left = arg,
-                                .expr = &(ASTNode_T){
-                                    .kind = ND_LONG,
-                                    .long_val = index,
-                                    .data_type = (ASTType_T*) primitives[TY_U64]
-                                },
-                                .data_type = unpack(arg->data_type)->base
-                            });
+                            asm_gen_spread_element(cg, arg, index, node->right->data_type->base);
                             asm_store(cg, node->right->data_type->base);
                             asm_println(cg, "  mov %%rdi, %%rax");
                             asm_println(cg, "  add $%d, %%rax", node->right->data_type->base->size);
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 45461d3..0b08932 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2338,6 +2338,15 @@ static i32 get_struct_size(Validator_T* v, ASTType_T* struct_type, List_T** stru
     return align_to(size, struct_align);
 };
 
+// the elements of an array get accessed by the size of its base type, so that has to be known as well
+static i32 get_base_size(Validator_T* v, ASTType_T* type, List_T** struct_types)
+{
+    i32 size = get_type_size_impl(v, type->base, struct_types);
+    if(type->base->size != size)
+        type->base->size = size;
+    return size;
+}
+
 static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_types)
 {
     switch(type->kind)
@@ -2384,11 +2393,11 @@ static i32 get_type_size_impl(Validator_T* v, ASTType_T* type, List_T** struct_t
         case TY_C_ARRAY:
             if(type->num_indices == 0)
                 return 0;
-            return get_type_size_impl(v, type->base, struct_types) * calculate_array_size(v, type);
+            return get_base_size(v, type, struct_types) * calculate_array_size(v, type);
         case TY_VLA:
             return PTR_S;
         case TY_ARRAY:
-                return get_type_size_impl(v, type->base, struct_types) * calculate_array_size(v, type) + PTR_S;
+            return get_base_size(v, type, struct_types) * calculate_array_size(v, type) + PTR_S;
         case TY_STRUCT:
             return get_struct_size(v, type, struct_types);
         case TY_INTERFACE:
-- 
2.43.0


From 3e8450b2b2ed0a65e4db07e100aababb25cab668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 108/159] fix: check the types of array literals in globals,
 and leave spread operands uncast

---
 src/compiler/parser/typechecker.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 4b55669..2cda5e7 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -268,7 +268,10 @@ static void typecheck_global(ASTObj_T* global, va_list args)
     GET_TYPECHECKER(args);
 
     ASTNode_T* value = global->value;
-    if(!value || !value->data_type || value->kind == ND_ARRAY || value_types_equal(t->context, global->data_type, value->data_type))
+    if(!value || !value->data_type || value_types_equal(t->context, global->data_type, value->data_type))
+        return;
+
+    if(convert_array_lit(t, global->data_type, value))
         return;
 
     // `nil` is a value of every function type
@@ -438,7 +441,11 @@ static void typecheck_array_lit(ASTNode_T* a_lit, va_list args)
 
         ImplicitCastResult_T result = implicitly_castable(t, arg->tok, arg_type, base_ty);
         if(result & CAST_OK)
-            a_lit->args->items[i] = implicit_cast(t, arg->tok, arg, base_ty, result);
+        {
+            // the elements of unpacked arrays get converted one by one
+            if(!arg->unpack_mode)
+                a_lit->args->items[i] = implicit_cast(t, arg->tok, arg, base_ty, result);
+        }
         else {
             memset(buf1, 0, LEN(buf1));
             memset(buf2, 0, LEN(buf2));
-- 
2.43.0


From fda1d4a69d4e87922c04d776329d938811f7174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:16 +0000
Subject: [PATCH 109/159] fix: pass the data pointer of a dynamic value to its
 methods in the asm backend

---
 src/compiler/codegen/asm/asm_codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index a74e76e..cc39abc 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2121,8 +2121,9 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
         } return;
 
         case ND_DYNUNCAST:
+            // load the data pointer
             asm_gen_addr(cg, node->left);
-            //asm_println(cg, "  add $%ld, %%rax", PTR_S);
+            asm_println(cg, "  mov (%%rax), %%rax");
             return;
 
         case ND_NOT:
-- 
2.43.0


From 9b7fa22bc9661f012689c3abc30f2feba7de3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:16 +0000
Subject: [PATCH 110/159] fix: name the results of va_arg as the C backend
 mangles them

---
 src/std/utils.csp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/std/utils.csp b/src/std/utils.csp
index 2f2d6a0..7f12243 100644
--- a/src/std/utils.csp
+++ b/src/std/utils.csp
@@ -171,12 +171,12 @@ namespace std {
         {
             if size <= 4 {
                 extern "C"(
-                    "__csp_std_va___static_integer64 = va_arg(*(va_list*)__csp__ap, int);"
+                    "__csp_std$$va$$__static$$integer64 = va_arg(*(va_list*)__csp__ap, int);"
                 );
             }
             else {
                 extern "C"(
-                    "__csp_std_va___static_integer64 = va_arg(*(va_list*)__csp__ap, long);"
+                    "__csp_std$$va$$__static$$integer64 = va_arg(*(va_list*)__csp__ap, long);"
                 );
             }
 
@@ -189,19 +189,19 @@ namespace std {
             match size {
                 sizeof f32 => {
                     extern "C"(
-                        "__csp_std_va___static_float32 = (float) va_arg(*(va_list*)__csp__ap, double);"
+                        "__csp_std$$va$$__static$$float32 = (float) va_arg(*(va_list*)__csp__ap, double);"
                     );
                     <- &__static::float32;
                 }
                 sizeof f64 => {
                     extern "C"(
-                        "__csp_std_va___static_float64 = va_arg(*(va_list*)__csp__ap, double);"
+                        "__csp_std$$va$$__static$$float64 = va_arg(*(va_list*)__csp__ap, double);"
                     );
                     <- &__static::float64;
                 }
                 sizeof f80 => {
                     extern "C"(
-                        "__csp_std_va___static_float80 = va_arg(*(va_list*)__csp__ap, long double);"
+                        "__csp_std$$va$$__static$$float80 = va_arg(*(va_list*)__csp__ap, long double);"
                     );
                     <- &__static::float80;
                 }
-- 
2.43.0


From 487f25c34846f1a0352d1f4b9b9a73f4aaa1225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:16 +0000
Subject: [PATCH 111/159] fix: declare what inline assembly overwrites in the C
 backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 58 ++++++++++++++-------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index ee99e79..e40acf0 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1176,6 +1176,31 @@ static void c_gen_functions(CCodegenData_T* cg, List_T* objs)
     }
 }
 
+// index of the 64-bit register a register name (without `%`) is a part of, or -1
+static i32 c_find_register(const char* name, u64 len)
+{
+    static const char* sub_names[][5] = {
+        {"rax", "eax", "ax", "al", "ah"}, {"rbx", "ebx", "bx", "bl", "bh"},
+        {"rcx", "ecx", "cx", "cl", "ch"}, {"rdx", "edx", "dx", "dl", "dh"},
+        {"rdi", "edi", "di", "dil"}, {"rsi", "esi", "si", "sil"}
+    };
+
+    for(i32 i = 0; i < (i32) LEN(sub_names); i++)
+        for(i32 j = 0; j < (i32) LEN(sub_names[i]) && sub_names[i][j]; j++)
+            if(strlen(sub_names[i][j]) == len && strncmp(sub_names[i][j], name, len) == 0)
+                return i;
+
+    // r8d, r8w, r8b
+    if(len > 2 && name[0] == 'r' && isdigit(name[1]) && strchr("dwb", name[len - 1]))
+        len--;
+
+    for(i32 i = LEN(sub_names); i < C_NUM_REGISTERS; i++)
+        if(strlen(reg_names[i]) == len + 1 && strncmp(reg_names[i] + 1, name, len) == 0)
+            return i;
+
+    return -1;
+}
+
 static char* c_detect_registers(CCodegenData_T* cg, const char* str, bool used_registers[C_NUM_REGISTERS])
 {
     u64 num_percent = 0;
@@ -1188,20 +1213,9 @@ static char* c_detect_registers(CCodegenData_T* cg, const char* str, bool used_r
         u64 reg_len = 1;
         for(; isalnum(str[i]); i++, reg_len++);
 
-        Register_T reg = DEBUGGER_REG_NUM;
-        for(i32 j = 0; j < C_NUM_REGISTERS; j++)
-        {
-            if(strncmp(reg_names[j], &str[i - reg_len], reg_len) == 0)
-            {
-                used_registers[j] = true;
-                reg = j;
-            }
-        }
-        if(reg == DEBUGGER_REG_NUM)
-        {
-            LOG_ERROR_F("Unknown register `%s`", strndup(&str[i - reg_len], reg_len));
-            unreachable();
-        }
+        i32 reg = c_find_register(&str[i - reg_len + 1], reg_len - 1);
+        if(reg >= 0)
+            used_registers[reg] = true;
     }
 
     char* copy = calloc(strlen(str) + num_percent + 1, sizeof(char));
@@ -1275,7 +1289,7 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
         ASTNode_T* arg = node->args->items[i];
         if(arg->kind != ND_ID || !arg->output)
             continue;
-        c_print(cg, "\"=r\"(%s)%c", c_gen_identifier(cg->context, arg->id), --num_output_vars ? ',' : '\n');
+        c_print(cg, "\"+&r\"(%s)%c", c_gen_identifier(cg->context, arg->id), --num_output_vars ? ',' : '\n');
     }
 
     c_putc(cg, ':');
@@ -1284,7 +1298,7 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
         ASTNode_T* arg = node->args->items[i];
         if(arg->kind != ND_ID || arg->output)
             continue;
-        c_print(cg, "\"r\"((uint64_t)%s)%c", c_gen_identifier(cg->context, arg->id), --num_input_vars ? ',' : '\n');
+        c_print(cg, "\"rm\"((uint64_t)%s)%c", c_gen_identifier(cg->context, arg->id), --num_input_vars ? ',' : '\n');
     }
 
     c_print(cg, "  :");
@@ -1293,11 +1307,19 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
         if(!used_registers[i])
             continue;
         
+        // the frame registers can't be clobbered
+        if(i == DEBUGGER_REG_RBP || i == DEBUGGER_REG_RSP || i == DEBUGGER_REG_RIP)
+            continue;
+
         c_print(cg, "\"%s\",", reg_names[i]);
     }
 
-    c_rewind(cg, -1);
-    c_print(cg, "\n)");
+    // `syscall` overwrites %rcx and %r11, and the kernel or the code itself may access any memory
+    if(!used_registers[DEBUGGER_REG_RCX])
+        c_print(cg, "\"%%rcx\",");
+    if(!used_registers[DEBUGGER_REG_R11])
+        c_print(cg, "\"%%r11\",");
+    c_print(cg, "\"memory\",\"cc\"\n)");
 }
 
 static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index, bool from_back)
-- 
2.43.0


From ceb90edb6190eae8c800382690f32fad6faefc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 112/159] fix: let the C backend pass operands of inline
 assembly in memory

---
 src/compiler/codegen/transpiler/c_codegen.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index e40acf0..fd6f39f 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1228,6 +1228,15 @@ static char* c_detect_registers(CCodegenData_T* cg, const char* str, bool used_r
 
 static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
 {
+    // all operands are in memory, as the code itself may use any register
+    c_print(cg, "{\n");
+    for(size_t i = 0; i < node->args->size; i++)
+    {
+        ASTNode_T* arg = node->args->items[i];
+        if(arg->kind == ND_ID && !arg->output)
+            c_print(cg, "uint64_t _asm_arg_%zu=(uint64_t)%s;\n", i, c_gen_identifier(cg->context, arg->id));
+    }
+
     c_print(cg, "__asm__ volatile(\n  ");
 
     bool used_registers[C_NUM_REGISTERS] = {0};
@@ -1289,7 +1298,7 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
         ASTNode_T* arg = node->args->items[i];
         if(arg->kind != ND_ID || !arg->output)
             continue;
-        c_print(cg, "\"+&r\"(%s)%c", c_gen_identifier(cg->context, arg->id), --num_output_vars ? ',' : '\n');
+        c_print(cg, "\"+m\"(%s)%c", c_gen_identifier(cg->context, arg->id), --num_output_vars ? ',' : '\n');
     }
 
     c_putc(cg, ':');
@@ -1298,7 +1307,7 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
         ASTNode_T* arg = node->args->items[i];
         if(arg->kind != ND_ID || arg->output)
             continue;
-        c_print(cg, "\"rm\"((uint64_t)%s)%c", c_gen_identifier(cg->context, arg->id), --num_input_vars ? ',' : '\n');
+        c_print(cg, "\"m\"(_asm_arg_%zu)%c", i, --num_input_vars ? ',' : '\n');
     }
 
     c_print(cg, "  :");
@@ -1319,7 +1328,7 @@ static void c_gen_inline_asm(CCodegenData_T* cg, ASTNode_T* node)
         c_print(cg, "\"%%rcx\",");
     if(!used_registers[DEBUGGER_REG_R11])
         c_print(cg, "\"%%r11\",");
-    c_print(cg, "\"memory\",\"cc\"\n)");
+    c_print(cg, "\"memory\",\"cc\"\n);\n}");
 }
 
 static void c_gen_index2(CCodegenData_T* cg, ASTNode_T* node, ASTNode_T* index, bool from_back)
@@ -1839,7 +1848,6 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
     {
     case ND_ASM:
         c_gen_inline_asm(cg, node);
-        c_println(cg, ";");
         break;
 
     case ND_BLOCK:
-- 
2.43.0


From af44e5291f4f963cea8047a98b6d5bcc2824e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 113/159] fix: don't depend on the order of evaluation when
 parsing an UUID

---
 src/std/algorithm.csp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/std/algorithm.csp b/src/std/algorithm.csp
index 5ac5381..dd45a15 100644
--- a/src/std/algorithm.csp
+++ b/src/std/algorithm.csp
@@ -112,7 +112,11 @@ namespace std {
                 using __internal;
                 match in[i] {
                     '-' => i++;
-                    _ => (*dest)[j++] = (hex_2_dec(in[i++]) | hex_2_dec(in[i++]) << 4);
+                    _ => {
+                        let high = hex_2_dec(in[i++]);
+                        let low = hex_2_dec(in[i++]);
+                        (*dest)[j++] = (low | high << 4);
+                    }
                 }
             } while j < 16 && i < 36;
         }
-- 
2.43.0


From 1802449e3af4d059d01676bea4960cd96b81a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 114/159] fix: name and order all types in the C backend, and
 let lambdas share the variables they capture

---
 src/compiler/codegen/transpiler/c_codegen.c | 712 +++++++++++---------
 src/compiler/codegen/transpiler/c_codegen.h |  17 +-
 2 files changed, 404 insertions(+), 325 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index fd6f39f..2df0934 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -37,8 +37,8 @@
 #define GET_CG(args) CCodegenData_T* cg = va_arg(args, CCodegenData_T*)
 
 static void c_gen_entry_point(CCodegenData_T* cg);
-static void c_gen_typedefs(CCodegenData_T* cg, List_T* objs);
-static void c_gen_structs(CCodegenData_T* cg, List_T* objs);
+static void c_find_named_structs(CCodegenData_T* cg, List_T* objs);
+static void c_gen_types(CCodegenData_T* cg);
 static void c_gen_vtables(CCodegenData_T* cg, List_T* impls);
 static void c_gen_globals(CCodegenData_T* cg, List_T* objs);
 static void c_gen_function_definitions(CCodegenData_T* cg, List_T* objs);
@@ -47,10 +47,8 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts);
 static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* stmt);
 static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr);
 static void c_gen_typed_name(CCodegenData_T* cg, ASTIdentifier_T* id, ASTType_T* type);
-static void c_predefine_dependant_types(CCodegenData_T* cg, ASTType_T* type);
 static void c_gen_pipe_buffers(CCodegenData_T* cg);
 static void c_gen_lambdas(CCodegenData_T* cg);
-static void c_gen_array_types(CCodegenData_T* cg);
 static void c_gen_typed_name_str(CCodegenData_T* cg, const char* id, ASTType_T* type);
 
 static const char* reg_names[C_NUM_REGISTERS] = {
@@ -236,23 +234,53 @@ void init_c_cg(CCodegenData_T* cg, Context_T* context, ASTProg_T* ast)
     cg->silent = context->flags.silent;
     cg->code_buffer = open_memstream(&cg->buf, &cg->buf_len);
     cg->unique_id = 0;
-    cg->blocks = init_list();
-    cg->arrays = hashmap_init();
-    cg->anon_structs = hashmap_init();
+    cg->unnamed_types = hashmap_init();
+    cg->unnamed_type_list = init_list();
+    cg->named_structs = hashmap_init();
+    cg->defined = hashmap_init();
+    cg->captures = hashmap_init();
+}
+
+// the hash maps have strings as keys
+static void* c_get_by_pointer(HashMap_T* map, const void* pointer)
+{
+    char key[32];
+    snprintf(key, sizeof key, "%p", pointer);
+    return hashmap_get(map, key);
+}
+
+static void c_put_by_pointer(HashMap_T* map, const void* pointer, void* value)
+{
+    char key[32];
+    snprintf(key, sizeof key, "%p", pointer);
+    hashmap_put(map, strdup(key), value);
+}
+
+static void c_free_pointer_keys(HashMap_T* map)
+{
+    List_T* keys = hashmap_keys(map);
+    for(size_t i = 0; i < keys->size; i++)
+        free(keys->items[i]);
+    free_list(keys);
+    hashmap_free(map);
 }
 
 void free_c_cg(CCodegenData_T* cg)
 {
     free(cg->buf);
-    free_list(cg->blocks);
 
-    List_T* arrays = hashmap_keys(cg->arrays);
-    for(size_t i = 0; i < arrays->size; i++)
-        free(arrays->items[i]);
-    free_list(arrays);
+    for(size_t i = 0; i < cg->unnamed_type_list->size; i++)
+    {
+        CUnnamedType_T* unnamed = cg->unnamed_type_list->items[i];
+        free(unnamed->key);
+        free(unnamed);
+    }
+    free_list(cg->unnamed_type_list);
+    hashmap_free(cg->unnamed_types);
 
-    hashmap_free(cg->arrays);
-    hashmap_free(cg->anon_structs);
+    c_free_pointer_keys(cg->named_structs);
+    c_free_pointer_keys(cg->defined);
+    c_free_pointer_keys(cg->captures);
 }
 
 #ifdef __GNUC__
@@ -283,11 +311,6 @@ static void c_putc(CCodegenData_T* cg, int c)
     fputc(c, cg->code_buffer);
 }
 
-static void c_rewind(CCodegenData_T* cg, i64 amount)
-{
-    fseek(cg->code_buffer, amount, SEEK_END);
-}
-
 static void write_code(CCodegenData_T* cg, const char* target, bool cachefile)
 {
     char file_path[BUFSIZ * 2] = {'\0'};
@@ -342,10 +365,7 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
     }
 
     // generate the c code
-    c_print(cg, "%s", c_header_text);
-    c_gen_typedefs(cg, cg->ast->objs);
-    c_gen_array_types(cg);
-    c_gen_structs(cg, cg->ast->objs);
+    c_find_named_structs(cg, cg->ast->objs);
     c_gen_function_definitions(cg, cg->ast->objs);
     c_gen_vtables(cg, cg->ast->impls);
     c_gen_globals(cg, cg->ast->objs);
@@ -353,6 +373,7 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
     c_gen_lambdas(cg);
     c_gen_functions(cg, cg->ast->objs);
     c_gen_entry_point(cg);
+    c_gen_types(cg);
     write_code(cg, target, cg->context->flags.do_assembling);
 
     if(cg->print)
@@ -548,71 +569,6 @@ static void c_gen_entry_point(CCodegenData_T* cg)
     c_println(cg, "}");
 }
 
-static void c_gen_array_typedef(ASTType_T* type, va_list custom_args);
-inline static void c_predefine_array(ASTType_T* type, ...)
-{
-    va_list ap;
-    va_start(ap, type);
-    c_gen_array_typedef(type, ap);
-    va_end(ap);
-}
-
-static void c_gen_typedef(CCodegenData_T* cg, ASTObj_T* obj)
-{
-    if(obj->generated)
-        return;
-
-    if(obj->data_type->kind == TY_ARRAY || obj->data_type->kind == TY_VLA)
-        c_predefine_array(obj->data_type, cg);
-
-    char* callee = c_gen_identifier(cg->context, obj->id);
-    obj->generated = true;
-    c_predefine_dependant_types(cg, obj->data_type);
-    c_print(cg, "typedef ");
-    if(obj->data_type->kind == TY_STRUCT)
-    {
-        char* keyword = obj->data_type->is_union ? "union" : "struct";
-        c_println(cg, "%s %s %s;", keyword, callee, callee);
-    }
-    else
-    {
-        c_gen_typed_name(cg, obj->id, obj->data_type);
-        c_println(cg, ";");
-    }
-}
-
-static void c_predefine_dependant_types(CCodegenData_T* cg, ASTType_T* type)
-{
-    switch(type->kind)
-    {
-    case TY_UNDEF:
-        if(type->referenced_obj && !type->referenced_obj->generated)
-            c_gen_typedef(cg, type->referenced_obj);
-        break;
-    default:
-        break;
-    }
-}
-
-static void c_gen_typedefs(CCodegenData_T* cg, List_T* objs)
-{
-    for(size_t i = 0; i < objs->size; i++)
-    {
-        ASTObj_T* obj = objs->items[i];
-        switch(obj->kind)
-        {
-        case OBJ_NAMESPACE:
-            c_gen_typedefs(cg, obj->objs);
-            break;
-        case OBJ_TYPEDEF:
-            c_gen_typedef(cg, obj);
-            break;
-        default:
-            break;
-        }
-    }
-}
-
 static void c_gen_struct(CCodegenData_T* cg, ASTType_T* type, const char* name)
 {
     c_println(cg, "%s %s{", type->is_union ? "union" : "struct", name ? name : "");
@@ -626,79 +582,6 @@ static void c_gen_struct(CCodegenData_T* cg, ASTType_T* type, const char* name)
     c_putc(cg, '}');
 }
 
-static void c_predefine_dependant_structs(CCodegenData_T* cg, ASTType_T* type);
-
-// emits the definitions of all structs which have to be complete before `type` can be used by value
-static void c_predefine_struct(CCodegenData_T* cg, ASTType_T* type)
-{
-    switch(type->kind)
-    {
-    case TY_ARRAY:
-    case TY_C_ARRAY:
-    case TY_VLA:
-        c_predefine_struct(cg, type->base);
-        break;
-
-    case TY_STRUCT:
-        c_predefine_dependant_structs(cg, type);
-        break;
-
-    case TY_UNDEF:
-    {
-        ASTObj_T* obj = type->referenced_obj;
-        if(!obj || obj->kind != OBJ_TYPEDEF)
-            break;
-        
-        if(obj->data_type->kind != TY_STRUCT)
-            c_predefine_struct(cg, obj->data_type);
-        else if(obj->generated)
-        {
-            obj->generated = false;
-            c_predefine_dependant_structs(cg, obj->data_type);
-            c_gen_struct(cg, obj->data_type, c_gen_identifier(cg->context, obj->id));
-            c_println(cg, ";");
-        }
-    } break;
-
-    default:
-        break;
-    }
-}
-
-static void c_predefine_dependant_structs(CCodegenData_T* cg, ASTType_T* type)
-{
-    for(size_t i = 0; i < type->members->size; i++)
-    {
-        ASTNode_T* member = type->members->items[i];
-        c_predefine_struct(cg, member->data_type);
-    }
-}
-
-static void c_gen_structs(CCodegenData_T* cg, List_T* objs)
-{
-    for(size_t i = 0; i < objs->size; i++)
-    {
-        ASTObj_T* obj = objs->items[i];
-        switch(obj->kind)
-        {
-        case OBJ_NAMESPACE:
-            c_gen_structs(cg, obj->objs);
-            break;
-        case OBJ_TYPEDEF:
-            if(obj->generated && obj->data_type->kind == TY_STRUCT)
-            {
-                obj->generated = false;
-                c_predefine_dependant_structs(cg, obj->data_type);
-                c_gen_struct(cg, obj->data_type, c_gen_identifier(cg->context, obj->id));
-                c_println(cg, ";");
-            }
-            break;
-        default:
-            break;
-        }
-    }
-}
-
 static void c_gen_vtable(CCodegenData_T* cg, ASTType_T* base_type, ASTVTable_T* vtable) {
     c_println(cg, "static const void* __vtable_%zu[] = {", vtable->id);
 
@@ -731,91 +614,281 @@ static void c_gen_vtables(CCodegenData_T* cg, List_T* impls) {
     }
 }
 
-static void c_hash_array(CCodegenData_T* cg, char buffer[BUFSIZ], ASTType_T* type)
+// writes a description of the type; two types have the same one if they are the same type in C
+static void c_type_key(CCodegenData_T* cg, FILE* key, ASTType_T* type)
 {
-    // aliases of the same type share one array type
-    type = unpack_alias(type);
-    if(type->kind == TY_ARRAY || type->kind == TY_VLA || type->kind == TY_C_ARRAY || type->kind == TY_PTR)
+    ASTObj_T* obj = type->kind == TY_UNDEF ? type->referenced_obj : c_get_by_pointer(cg->named_structs, type);
+    if(obj)
     {
-        c_hash_array(cg, buffer, type->base);
-        size_t len = strlen(buffer);
-        if(type->kind == TY_PTR || type->kind == TY_VLA)
-            snprintf(buffer + len, BUFSIZ - len, type->kind == TY_PTR ? "&" : "[]");
-        else
-            snprintf(buffer + len, BUFSIZ - len, type->kind == TY_ARRAY ? "[%lu]" : " 'c[%lu]", type->num_indices);
+        switch(obj->data_type->kind)
+        {
+        case TY_STRUCT:
+        case TY_ENUM:
+        case TY_INTERFACE:
+            fprintf(key, "%s", c_gen_identifier(cg->context, obj->id));
+            break;
+        default:
+            c_type_key(cg, key, obj->data_type);
+        }
+        return;
+    }
+
+    switch(type->kind)
+    {
+    case TY_PTR:
+        fputc('&', key);
+        c_type_key(cg, key, type->base);
+        break;
+    case TY_ARRAY:
+    case TY_C_ARRAY:
+        fprintf(key, "%s%lu]", type->kind == TY_ARRAY ? "[" : "['c", (u64) type->num_indices);
+        c_type_key(cg, key, type->base);
+        break;
+    case TY_VLA:
+        fprintf(key, "[]");
+        c_type_key(cg, key, type->base);
+        break;
+    case TY_FN:
+        fprintf(key, type->is_constant ? "fn(" : "lambda(");
+        for(size_t i = 0; i < type->arg_types->size; i++)
+        {
+            c_type_key(cg, key, type->arg_types->items[i]);
+            fputc(',', key);
+        }
+        fputc(')', key);
+        c_type_key(cg, key, type->base);
+        break;
+    case TY_STRUCT:
+        fprintf(key, type->is_union ? "union{" : "struct{");
+        for(size_t i = 0; i < type->members->size; i++)
+        {
+            ASTNode_T* member = type->members->items[i];
+            fprintf(key, "%s:", member->id->callee);
+            c_type_key(cg, key, member->data_type);
+            fputc(',', key);
+        }
+        fputc('}', key);
+        break;
+    case TY_UNDEF:
+        fprintf(key, "%s", c_gen_identifier(cg->context, type->id));
+        break;
+    default:
+        fprintf(key, "#%d", type->kind);
+        break;
     }
-    else
-        ast_type_to_str(cg->context, buffer, type, BUFSIZ);
 }
 
-static void c_gen_array_typedef(ASTType_T* type, va_list custom_args)
+static bool c_is_unnamed_type(CCodegenData_T* cg, ASTType_T* type)
 {
-    static u64 array_uid = 1;
-    GET_CG(custom_args);
+    return type->kind == TY_ARRAY || type->kind == TY_VLA ||
+        (type->kind == TY_STRUCT && !c_get_by_pointer(cg->named_structs, type));
+}
+
+// arrays and structs without a name get one each on their first use
+static CUnnamedType_T* c_get_unnamed_type(CCodegenData_T* cg, ASTType_T* type)
+{
+    char* key = NULL;
+    size_t key_len = 0;
+    FILE* key_buffer = open_memstream(&key, &key_len);
+    c_type_key(cg, key_buffer, type);
+    fclose(key_buffer);
+
+    CUnnamedType_T* unnamed = hashmap_get(cg->unnamed_types, key);
+    if(unnamed)
+    {
+        free(key);
+        return unnamed;
+    }
+
+    unnamed = calloc(1, sizeof(CUnnamedType_T));
+    unnamed->type = type;
+    unnamed->key = key;
+    snprintf(unnamed->name, sizeof unnamed->name, "%s_%zx", type->kind == TY_STRUCT ? "_anon_struct" : "_array", cg->unnamed_type_list->size);
+
+    hashmap_put(cg->unnamed_types, key, unnamed);
+    list_push(cg->unnamed_type_list, unnamed);
+    return unnamed;
+}
+
+static void c_find_named_structs(CCodegenData_T* cg, List_T* objs)
+{
+    for(size_t i = 0; i < objs->size; i++)
+    {
+        ASTObj_T* obj = objs->items[i];
+        if(obj->kind == OBJ_NAMESPACE)
+            c_find_named_structs(cg, obj->objs);
+        else if(obj->kind == OBJ_TYPEDEF && obj->data_type->kind == TY_STRUCT)
+            c_put_by_pointer(cg->named_structs, obj->data_type, obj);
+    }
+}
+
+// true, if it was not yet defined; it has to be now
+static bool c_define_once(CCodegenData_T* cg, const void* definition)
+{
+    if(c_get_by_pointer(cg->defined, definition))
+        return false;
+    c_put_by_pointer(cg->defined, definition, (void*) definition);
+    return true;
+}
+
+static void c_require_names(CCodegenData_T* cg, ASTType_T* type);
+static void c_require_complete(CCodegenData_T* cg, ASTType_T* type);
 
-    if(type->generated)
+static void c_define_struct(CCodegenData_T* cg, ASTType_T* type, const char* name)
+{
+    for(size_t i = 0; i < type->members->size; i++)
+        c_require_complete(cg, ((ASTNode_T*) type->members->items[i])->data_type);
+    c_gen_struct(cg, type, name);
+    c_println(cg, ";");
+}
+
+static void c_define_unnamed_type(CCodegenData_T* cg, CUnnamedType_T* unnamed)
+{
+    ASTType_T* type = unnamed->type;
+    if(!c_define_once(cg, unnamed))
         return;
-    
-    char buffer[BUFSIZ] = {0};
-    c_hash_array(cg, buffer, type);
 
-    if(hashmap_get(cg->arrays, buffer))
+    if(type->kind == TY_STRUCT)
+    {
+        c_define_struct(cg, type, unnamed->name);
         return;
-    
-    hashmap_put(cg->arrays, strdup(buffer), (void*) array_uid);
-    type->generated = true;
-    
-    c_predefine_struct(cg, type->base);
+    }
 
-    c_println(cg, "typedef struct {");
+    c_require_complete(cg, type->base);
+    c_println(cg, "struct %s {", unnamed->name);
     c_println(cg, "  uint64_t __s;");
     c_print(cg, "  ");
     c_gen_typed_name_str(cg, "__v", type->base);
     if(type->kind == TY_VLA)
-        c_println(cg, "[];\n} _array_%" PRIx64 ";", array_uid);
+        c_println(cg, "[];\n};");
     else
-        c_println(cg, "[%lu];\n} _array_%" PRIx64 ";", type->num_indices, array_uid);
+        c_println(cg, "[%lu];\n};", (u64) type->num_indices);
+}
 
-    array_uid++;
+static void c_define_typedef(CCodegenData_T* cg, ASTObj_T* obj)
+{
+    if(!c_define_once(cg, obj))
+        return;
+
+    if(obj->data_type->kind == TY_STRUCT)
+        c_define_struct(cg, obj->data_type, c_gen_identifier(cg->context, obj->id));
+    else
+    {
+        c_require_names(cg, obj->data_type);
+        c_print(cg, "typedef ");
+        c_gen_typed_name(cg, obj->id, obj->data_type);
+        c_println(cg, ";");
+    }
 }
 
-static void c_hash_struct(CCodegenData_T* cg, char buffer[BUFSIZ], ASTType_T* type)
+// defines everything that has to be known before the type can be named
+static void c_require_names(CCodegenData_T* cg, ASTType_T* type)
 {
-    ast_type_to_str(cg->context, buffer, type, BUFSIZ);
+    switch(type->kind)
+    {
+    case TY_UNDEF:
+        if(type->referenced_obj && type->referenced_obj->kind == OBJ_TYPEDEF && type->referenced_obj->data_type->kind != TY_STRUCT)
+            c_define_typedef(cg, type->referenced_obj);
+        break;
+    case TY_PTR:
+        c_require_names(cg, type->base);
+        break;
+    case TY_C_ARRAY:
+        c_require_complete(cg, type->base);
+        break;
+    case TY_FN:
+        c_require_names(cg, type->base);
+        for(size_t i = 0; i < type->arg_types->size; i++)
+            c_require_names(cg, type->arg_types->items[i]);
+        break;
+    default:
+        break;
+    }
 }
 
-static void c_gen_anon_struct_typedef(CCodegenData_T* cg, ASTType_T* type)
+// defines everything that has to be known before there can be a variable of the type
+static void c_require_complete(CCodegenData_T* cg, ASTType_T* type)
 {
-    static u64 anon_struct_uuid = 1;
-    if(type->generated)
-        return;
-    
-    char buffer[BUFSIZ] = {0};
-    c_hash_struct(cg, buffer, type);
+    c_require_names(cg, type);
 
-    if(hashmap_get(cg->anon_structs, buffer))
-        return;
-    
-    hashmap_put(cg->anon_structs, strdup(buffer), (void*) anon_struct_uuid);
-    type->generated = true;
+    ASTObj_T* obj = type->kind == TY_UNDEF ? type->referenced_obj : c_get_by_pointer(cg->named_structs, type);
+    if(obj && obj->kind == OBJ_TYPEDEF)
+    {
+        if(obj->data_type->kind == TY_STRUCT)
+            c_define_typedef(cg, obj);
+        else
+            c_require_complete(cg, obj->data_type);
+    }
+    else if(type->kind != TY_VLA && c_is_unnamed_type(cg, type))
+        c_define_unnamed_type(cg, c_get_unnamed_type(cg, type));
+}
 
-    c_print(cg, "typedef ");
-    c_gen_type(cg, type, false);
-    c_println(cg, " _anon_struct_%" PRIx64 ";", anon_struct_uuid);
+static void c_declare_structs(CCodegenData_T* cg, List_T* objs)
+{
+    for(size_t i = 0; i < objs->size; i++)
+    {
+        ASTObj_T* obj = objs->items[i];
+        if(obj->kind == OBJ_NAMESPACE)
+            c_declare_structs(cg, obj->objs);
+        else if(obj->kind == OBJ_TYPEDEF && obj->data_type->kind == TY_STRUCT)
+        {
+            const char* id = c_gen_identifier(cg->context, obj->id);
+            c_println(cg, "typedef %s %s %s;", obj->data_type->is_union ? "union" : "struct", id, id);
+        }
+    }
+}
 
-    anon_struct_uuid++;
+static void c_define_typedefs(CCodegenData_T* cg, List_T* objs)
+{
+    for(size_t i = 0; i < objs->size; i++)
+    {
+        ASTObj_T* obj = objs->items[i];
+        if(obj->kind == OBJ_NAMESPACE)
+            c_define_typedefs(cg, obj->objs);
+        else if(obj->kind == OBJ_TYPEDEF)
+            c_define_typedef(cg, obj);
+    }
 }
 
-static void c_gen_array_types(CCodegenData_T* cg)
+// puts the definitions of all types used in front of the code generated so far
+static void c_gen_types(CCodegenData_T* cg)
 {
-    ASTIteratorList_T iter = {
-        .type_fns = {
-            [TY_ARRAY] = c_gen_array_typedef,
-            [TY_VLA] = c_gen_array_typedef,
+    fclose(cg->code_buffer);
+    char* code = cg->buf;
+    size_t code_len = cg->buf_len;
+
+    // a definition may use another type for the first time
+    size_t num_unnamed_types;
+    do {
+        num_unnamed_types = cg->unnamed_type_list->size;
+
+        c_free_pointer_keys(cg->defined);
+        cg->defined = hashmap_init();
+        cg->buf = NULL;
+        cg->code_buffer = open_memstream(&cg->buf, &cg->buf_len);
+
+        c_print(cg, "%s", c_header_text);
+        c_declare_structs(cg, cg->ast->objs);
+        for(size_t i = 0; i < cg->unnamed_type_list->size; i++)
+        {
+            CUnnamedType_T* unnamed = cg->unnamed_type_list->items[i];
+            const char* keyword = unnamed->type->kind == TY_STRUCT && unnamed->type->is_union ? "union" : "struct";
+            c_println(cg, "typedef %s %s %s;", keyword, unnamed->name, unnamed->name);
         }
-    };
+        c_define_typedefs(cg, cg->ast->objs);
+        for(size_t i = 0; i < cg->unnamed_type_list->size; i++)
+            c_define_unnamed_type(cg, cg->unnamed_type_list->items[i]);
 
-    ast_iterate(&iter, cg->ast, cg);
+        if(cg->unnamed_type_list->size != num_unnamed_types)
+        {
+            fclose(cg->code_buffer);
+            free(cg->buf);
+        }
+    } while(cg->unnamed_type_list->size != num_unnamed_types);
+
+    fwrite(code, code_len, 1, cg->code_buffer);
+    fflush(cg->code_buffer);
+    free(code);
 }
 
 static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
@@ -832,31 +905,30 @@ static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
     switch(type->kind)
     {
     case TY_PTR:
-        c_gen_type(cg, type->base, c_arr_as_ptr);
+        c_gen_type(cg, type->base, false);
         c_putc(cg, '*');
         break;
     case TY_VLA:
-    {
-        char buffer[BUFSIZ] = {0};
-        c_hash_array(cg, buffer, type);
-        c_print(cg, "_array_%" PRIx64 "*", (u64) hashmap_get(cg->arrays, buffer));
-    } break;
+        c_print(cg, "%s*", c_get_unnamed_type(cg, type)->name);
+        break;
     case TY_ARRAY:
-    {
-        char buffer[BUFSIZ] = {0};
-        c_hash_array(cg, buffer, type);
-        c_print(cg, "_array_%" PRIx64, (u64) hashmap_get(cg->arrays, buffer));
-    } break;
+        c_print(cg, "%s", c_get_unnamed_type(cg, type)->name);
+        break;
     case TY_C_ARRAY:
-        c_gen_type(cg, type->base, c_arr_as_ptr);
         if(c_arr_as_ptr)
+        {
+            c_gen_type(cg, type->base, false);
             c_print(cg, "*");
-        else
-            c_print(cg, "[%ld]", type->num_indices);
+            break;
+        }
+        c_print(cg, "__typeof__(");
+        c_gen_type(cg, type->base, false);
+        c_print(cg, "[%ld])", type->num_indices);
         break;
     case TY_FN:
         if(type->is_constant)
         {
+            c_print(cg, "__typeof__(");
             c_gen_type(cg, type->base, false);
             c_print(cg, "(*)(");
             for(size_t i = 0; i < type->arg_types->size; i++)
@@ -865,17 +937,19 @@ static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
                 if(type->arg_types->size - i > 1)
                     c_putc(cg, ',');
             }
-            c_print(cg, ")");
+            c_print(cg, "))");
         }
         else
             c_print(cg, "struct _lambda*");
         break;
     case TY_UNDEF:
-        c_print(cg, "%s", c_gen_identifier(cg->context, type->id));
+        c_print(cg, "%s", c_gen_identifier(cg->context, type->referenced_obj ? type->referenced_obj->id : type->id));
         break;
     case TY_STRUCT:
-        c_gen_struct(cg, type, NULL);
-        break;
+    {
+        ASTObj_T* obj = c_get_by_pointer(cg->named_structs, type);
+        c_print(cg, "%s", obj ? c_gen_identifier(cg->context, obj->id) : c_get_unnamed_type(cg, type)->name);
+    } break;
     case TY_ENUM:
         c_print(cg, "int");
         break;
@@ -984,26 +1058,12 @@ static void c_gen_globals(CCodegenData_T* cg, List_T* objs)
 
 static void c_gen_function_declaration(CCodegenData_T* cg, ASTObj_T* obj)
 {
-    if(obj->return_type->kind == TY_STRUCT)
-        c_gen_anon_struct_typedef(cg, obj->return_type);
-
 //    if(cg->context->flags.embed_debug_info && obj->tok)
 //        c_println(cg, "#line %zu \"%s\"", obj->tok->line + 1, obj->tok->source->path);
 
     c_print(cg, obj->is_extern || obj->exported ? "extern " : "static ");
     
-    if(obj->return_type->kind == TY_STRUCT)
-    {
-        char buffer[BUFSIZ] = {0};
-        c_hash_struct(cg, buffer, obj->return_type);
-        u64 anon_struct_id = (u64) hashmap_get(cg->anon_structs, buffer);
-        if(anon_struct_id)
-            c_print(cg, "_anon_struct_%" PRIx64, anon_struct_id);
-        else
-            c_gen_type(cg, obj->return_type, false);
-    }
-    else
-        c_gen_type(cg, obj->return_type, false);
+    c_gen_type(cg, obj->return_type, false);
     c_print(cg, " %s(", obj->is_extern ? EITHER(obj->exported, obj->id->callee) : c_gen_identifier(cg->context, obj->id));
     
     for(size_t i = 0; i < obj->args->size; i++)
@@ -1043,6 +1103,69 @@ static void c_gen_function_definitions(CCodegenData_T* cg, List_T* objs)
     }
 }
 
+static void c_add_object(ASTObj_T* obj, va_list args)
+{
+    List_T* declared = va_arg(args, List_T*);
+    list_push(declared, obj);
+}
+
+static void c_add_used_object(ASTNode_T* id, va_list args)
+{
+    va_arg(args, List_T*);
+    List_T* used = va_arg(args, List_T*);
+    ASTObj_T* obj = id->referenced_obj;
+    if(obj && (obj->kind == OBJ_LOCAL || obj->kind == OBJ_FN_ARG) && !list_contains(used, obj))
+        list_push(used, obj);
+}
+
+// a lambda captures all variables it uses, but does not declare
+static void c_find_captures(ASTNode_T* lambda, va_list custom_args)
+{
+    GET_CG(custom_args);
+
+    ASTIteratorList_T iter = {
+        .obj_start_fns = {
+            [OBJ_LOCAL] = c_add_object,
+            [OBJ_FN_ARG] = c_add_object
+        },
+        .node_start_fns = {
+            [ND_ID] = c_add_used_object
+        }
+    };
+
+    List_T* declared = init_list();
+    List_T* used = init_list();
+    List_T* captures = init_list();
+    CONTEXT_ALLOC_REGISTER(cg->context, captures);
+    ast_iterate_expr(&iter, lambda, declared, used);
+
+    for(size_t i = 0; i < used->size; i++)
+        if(!list_contains(declared, used->items[i]))
+            list_push(captures, used->items[i]);
+
+    free_list(declared);
+    free_list(used);
+    c_put_by_pointer(cg->captures, lambda, captures);
+}
+
+// local variables and arguments
+static void c_gen_variable(CCodegenData_T* cg, ASTObj_T* obj)
+{
+    List_T* captures = cg->current_lambda ? c_get_by_pointer(cg->captures, cg->current_lambda) : NULL;
+    for(size_t i = 0; captures && i < captures->size; i++)
+    {
+        if(captures->items[i] != obj)
+            continue;
+
+        c_print(cg, "(*(");
+        c_gen_type(cg, obj->data_type, false);
+        c_print(cg, "*)__args[%zu])", i);
+        return;
+    }
+
+    c_print(cg, "%s", c_gen_identifier(cg->context, obj->id));
+}
+
 static void c_gen_lambda(ASTNode_T* node, va_list custom_args)
 {
     GET_CG(custom_args);
@@ -1065,61 +1188,22 @@ static void c_gen_lambda(ASTNode_T* node, va_list custom_args)
     }
     c_println(cg, "){");
 
-    u64 index = 0;
-    for(size_t i = 0; i < cg->blocks->size; i++)
-    {
-        ASTNode_T* block = cg->blocks->items[i];
-        // TODO: check for name collisions
-        for(size_t j = 0; j < block->locals->size; j++)
-        {
-            ASTObj_T* local = block->locals->items[j];
-            c_gen_typed_name(cg, local->id, local->data_type);
-            c_print(cg, "=*((");
-            c_gen_type(cg, local->data_type, true);
-            c_println(cg, "*)__args[%lu]);", index++);
-        }
-    }
-
+    ASTNode_T* outer_lambda = cg->current_lambda;
+    cg->current_lambda = node;
     c_gen_stmt(cg, node->body);
-
-    index = 0;
-    for(size_t i = 0; i < cg->blocks->size; i++)
-    {
-        ASTNode_T* block = cg->blocks->items[i];
-        // TODO: check for name collisions
-        for(size_t j = 0; j < block->locals->size; j++)
-        {
-            ASTObj_T* local = block->locals->items[j];
-            c_print(cg, "(*((");
-            c_gen_type(cg, local->data_type, true);
-            c_println(cg, "*)__args[%lu]))=%s;", index++, c_gen_identifier(cg->context, local->id));
-        }
-    }
+    cg->current_lambda = outer_lambda;
 
     c_println(cg, "}");
 }
 
-static void c_gen_lambda_block_start(ASTNode_T* node, va_list custom_args)
-{
-    GET_CG(custom_args);
-    list_push(cg->blocks, node);
-}
-
-static void c_gen_lambda_block_end(ASTNode_T* node, va_list custom_args)
-{
-    GET_CG(custom_args);
-    list_pop(cg->blocks);
-}
-
 static void c_gen_lambdas(CCodegenData_T* cg)
 {
     ASTIteratorList_T iter = {
         .node_start_fns = {
-            [ND_BLOCK] = c_gen_lambda_block_start
+            [ND_LAMBDA] = c_find_captures
         },
         .node_end_fns = {
-            [ND_LAMBDA] = c_gen_lambda,
-            [ND_BLOCK] = c_gen_lambda_block_end
+            [ND_LAMBDA] = c_gen_lambda
         }
     };
 
@@ -1573,10 +1657,8 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             break;
         case ND_ARRAY:
         {
-            char buffer[BUFSIZ] = {0};
-            c_hash_array(cg, buffer, node->data_type);
             if(with_casts)
-                c_print(cg, "(_array_%" PRIx64 ")", (u64) hashmap_get(cg->arrays, buffer));
+                c_print(cg, "(%s)", c_get_unnamed_type(cg, unpack(node->data_type))->name);
             c_print(cg, "{%lu,{", (u64) unpack(node->data_type)->num_indices);
             for(size_t i = 0; i < node->args->size; i++)
             {
@@ -1596,21 +1678,9 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_print(cg, "}}");
         } break;
         case ND_STRUCT:
-            // if(with_casts)
-            // {
-                if(node->data_type->kind == TY_UNDEF)
-                    c_print(cg, "(%s)", c_gen_identifier(cg->context, node->data_type->id));
-                else  if(node->referenced_obj) {
-                    
-                }
-                else {
-                    char buffer[BUFSIZ] = {0};
-                    c_hash_struct(cg, buffer, node->data_type);
-                    u64 anon_struct_id = (u64) hashmap_get(cg->anon_structs, buffer);
-                   // if(anon_struct_id)
-                        c_print(cg, "(_anon_struct_%" PRIx64 ")", anon_struct_id);
-                }
-            // }
+            c_putc(cg, '(');
+            c_gen_type(cg, node->data_type, false);
+            c_putc(cg, ')');
 
             if(node->args->size == 0)
             {
@@ -1643,7 +1713,10 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_putc(cg, ')');
             break;
         case ND_ID:
-            c_print(cg, "%s", node->referenced_obj && node->referenced_obj->is_extern ? EITHER(node->referenced_obj->exported, node->id->callee) : c_gen_identifier(cg->context, node->id));
+            if(node->referenced_obj && (node->referenced_obj->kind == OBJ_LOCAL || node->referenced_obj->kind == OBJ_FN_ARG))
+                c_gen_variable(cg, node->referenced_obj);
+            else
+                c_print(cg, "%s", node->referenced_obj && node->referenced_obj->is_extern ? EITHER(node->referenced_obj->exported, node->id->callee) : c_gen_identifier(cg->context, node->id));
             break;
         case ND_CALL:
         {
@@ -1752,18 +1825,15 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_println(cg, "&(struct _lambda){");
             c_print(cg, "  (void*[]){");
 
-            for(size_t i = 0; i < cg->blocks->size; i++)
+            List_T* captures = c_get_by_pointer(cg->captures, node);
+            for(size_t i = 0; i < captures->size; i++)
             {
-                ASTNode_T* block = cg->blocks->items[i];
-                for(size_t j = 0; j < block->locals->size; j++)
-                {
-                    ASTObj_T* local = block->locals->items[j];
-                    c_print(cg, "&%s,", c_gen_identifier(cg->context, local->id));
-                }
+                c_putc(cg, '&');
+                c_gen_variable(cg, captures->items[i]);
+                c_putc(cg, ',');
             }
 
-            c_rewind(cg, -1);
-            c_println(cg, "},");
+            c_println(cg, "NULL},");
             c_println(cg, "  (void(*)(void**, ...))" UNIQUE_ID_FMT, node->long_val);
             c_print(cg, "}");
         } break;
@@ -1852,7 +1922,6 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
 
     case ND_BLOCK:
     {
-        list_push(cg->blocks, node);
         c_println(cg, "{");
 
         for(size_t i = 0; i < node->locals->size; i++)
@@ -1868,7 +1937,6 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         }
 
         c_println(cg, "}");
-        list_pop(cg->blocks);
     } break;
 
     case ND_IF:
diff --git a/src/compiler/codegen/transpiler/c_codegen.h b/src/compiler/codegen/transpiler/c_codegen.h
index 09cdb97..0ebf05e 100644
--- a/src/compiler/codegen/transpiler/c_codegen.h
+++ b/src/compiler/codegen/transpiler/c_codegen.h
@@ -10,6 +10,14 @@
 extern char* cc;
 extern char* cc_flags;
 
+// an array or a struct without a name of its own
+typedef struct C_UNNAMED_TYPE_STRUCT
+{
+    ASTType_T* type;
+    char* key;
+    char name[32];
+} CUnnamedType_T;
+
 typedef struct C_CODEGEN_DATA_STRUCT
 {
     Context_T* context;
@@ -19,9 +27,12 @@ typedef struct C_CODEGEN_DATA_STRUCT
     bool silent;
     u64 unique_id;
     
-    HashMap_T* arrays;
-    HashMap_T* anon_structs;
-    List_T* blocks;
+    HashMap_T* unnamed_types; // CUnnamedType_T* by key
+    List_T* unnamed_type_list;
+    HashMap_T* named_structs; // the typedef a struct type belongs to
+    HashMap_T* defined;       // all types defined so far
+    HashMap_T* captures;      // List_T* of objects by lambda
+    ASTNode_T* current_lambda;
 
     char* buf;
     size_t buf_len;
-- 
2.43.0


From c285a27c503684f17dd245c599c0c24c734671cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 115/159] fix: let functions be used as lambdas in the C
 backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 92 +++++++++++++++++++++
 src/compiler/codegen/transpiler/c_codegen.h |  3 +
 2 files changed, 95 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 2df0934..33540d2 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -239,6 +239,8 @@ void init_c_cg(CCodegenData_T* cg, Context_T* context, ASTProg_T* ast)
     cg->named_structs = hashmap_init();
     cg->defined = hashmap_init();
     cg->captures = hashmap_init();
+    cg->adapters = hashmap_init();
+    cg->adapter_list = init_list();
 }
 
 // the hash maps have strings as keys
@@ -281,6 +283,8 @@ void free_c_cg(CCodegenData_T* cg)
     c_free_pointer_keys(cg->named_structs);
     c_free_pointer_keys(cg->defined);
     c_free_pointer_keys(cg->captures);
+    c_free_pointer_keys(cg->adapters);
+    free_list(cg->adapter_list);
 }
 
 #ifdef __GNUC__
@@ -710,6 +714,53 @@ static CUnnamedType_T* c_get_unnamed_type(CCodegenData_T* cg, ASTType_T* type)
     return unnamed;
 }
 
+// the number of the function with which a function of this type can be called as a lambda
+static u64 c_get_adapter(CCodegenData_T* cg, ASTType_T* type)
+{
+    char* key = NULL;
+    size_t key_len = 0;
+    FILE* key_buffer = open_memstream(&key, &key_len);
+    c_type_key(cg, key_buffer, type);
+    fclose(key_buffer);
+
+    u64 id = (u64) hashmap_get(cg->adapters, key);
+    if(id)
+    {
+        free(key);
+        return id;
+    }
+
+    list_push(cg->adapter_list, type);
+    hashmap_put(cg->adapters, key, (void*) cg->adapter_list->size);
+    return cg->adapter_list->size;
+}
+
+static void c_gen_adapter(CCodegenData_T* cg, ASTType_T* type, u64 id)
+{
+    c_print(cg, "static ");
+    c_gen_type(cg, type->base, false);
+    c_print(cg, " _adapter_%zu(void** __args", id);
+    for(size_t i = 0; i < type->arg_types->size; i++)
+    {
+        c_print(cg, ", ");
+        c_gen_type(cg, type->arg_types->items[i], false);
+        c_print(cg, " __arg_%zu", i);
+    }
+    c_print(cg, "){%s((", unpack(type->base)->kind == TY_VOID ? "" : "return ");
+    c_gen_type(cg, type->base, false);
+    c_print(cg, "(*)(");
+    for(size_t i = 0; i < type->arg_types->size; i++)
+    {
+        if(i)
+            c_putc(cg, ',');
+        c_gen_type(cg, type->arg_types->items[i], false);
+    }
+    c_print(cg, "))__args[0])(");
+    for(size_t i = 0; i < type->arg_types->size; i++)
+        c_print(cg, i ? ",__arg_%zu" : "__arg_%zu", i);
+    c_println(cg, ");}");
+}
+
 static void c_find_named_structs(CCodegenData_T* cg, List_T* objs)
 {
     for(size_t i = 0; i < objs->size; i++)
@@ -878,6 +929,8 @@ static void c_gen_types(CCodegenData_T* cg)
         c_define_typedefs(cg, cg->ast->objs);
         for(size_t i = 0; i < cg->unnamed_type_list->size; i++)
             c_define_unnamed_type(cg, cg->unnamed_type_list->items[i]);
+        for(size_t i = 0; i < cg->adapter_list->size; i++)
+            c_gen_adapter(cg, cg->adapter_list->items[i], i + 1);
 
         if(cg->unnamed_type_list->size != num_unnamed_types)
         {
@@ -1166,6 +1219,35 @@ static void c_gen_variable(CCodegenData_T* cg, ASTObj_T* obj)
     c_print(cg, "%s", c_gen_identifier(cg->context, obj->id));
 }
 
+static bool c_is_function_type(ASTType_T* type)
+{
+    type = unpack(type);
+    return type->kind == TY_FN && type->is_constant;
+}
+
+static bool c_is_lambda_type(ASTType_T* type)
+{
+    type = unpack(type);
+    return type->kind == TY_FN && !type->is_constant;
+}
+
+static void c_gen_function_as_lambda(CCodegenData_T* cg, ASTNode_T* fn)
+{
+    u64 adapter = c_get_adapter(cg, unpack(fn->data_type));
+    if(cg->in_function && fn->kind == ND_ID && fn->referenced_obj->kind == OBJ_FUNCTION)
+    {
+        // may be used after the current block
+        c_print(cg, "({static void* _args[]={(void*)");
+        c_gen_expr(cg, fn, true);
+        c_print(cg, "};static struct _lambda _fn={_args,(void(*)(void**,...))_adapter_%zu};&_fn;})", adapter);
+        return;
+    }
+
+    c_print(cg, "&(struct _lambda){(void*[]){(void*)");
+    c_gen_expr(cg, fn, true);
+    c_print(cg, "},(void(*)(void**,...))_adapter_%zu}", adapter);
+}
+
 static void c_gen_lambda(ASTNode_T* node, va_list custom_args)
 {
     GET_CG(custom_args);
@@ -1190,7 +1272,9 @@ static void c_gen_lambda(ASTNode_T* node, va_list custom_args)
 
     ASTNode_T* outer_lambda = cg->current_lambda;
     cg->current_lambda = node;
+    cg->in_function = true;
     c_gen_stmt(cg, node->body);
+    cg->in_function = false;
     cg->current_lambda = outer_lambda;
 
     c_println(cg, "}");
@@ -1215,6 +1299,7 @@ static void c_gen_function(CCodegenData_T* cg, ASTObj_T* fn)
     c_gen_function_declaration(cg, fn);
     c_println(cg, "{");
 
+    cg->in_function = true;
     if(fn->va_area)
     {
         char* ap_id = c_gen_identifier(cg->context, fn->va_area->id);
@@ -1234,6 +1319,7 @@ static void c_gen_function(CCodegenData_T* cg, ASTObj_T* fn)
     else
         c_gen_stmt(cg, fn->body);
     
+    cg->in_function = false;
     c_println(cg, "}");
 }   
 
@@ -1706,6 +1792,12 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
                 break;
             }
 
+            if(c_is_function_type(node->left->data_type) && c_is_lambda_type(node->data_type))
+            {
+                c_gen_function_as_lambda(cg, node->left);
+                break;
+            }
+
             c_print(cg, "((");
             c_gen_type(cg, node->data_type, true);
             c_putc(cg, ')');
diff --git a/src/compiler/codegen/transpiler/c_codegen.h b/src/compiler/codegen/transpiler/c_codegen.h
index 0ebf05e..9c5689b 100644
--- a/src/compiler/codegen/transpiler/c_codegen.h
+++ b/src/compiler/codegen/transpiler/c_codegen.h
@@ -33,6 +33,9 @@ typedef struct C_CODEGEN_DATA_STRUCT
     HashMap_T* defined;       // all types defined so far
     HashMap_T* captures;      // List_T* of objects by lambda
     ASTNode_T* current_lambda;
+    HashMap_T* adapters;      // function types by key, of functions called as lambdas
+    List_T* adapter_list;
+    bool in_function;
 
     char* buf;
     size_t buf_len;
-- 
2.43.0


From 93c49098e0221870d8fa543a6ea65a3fd1438e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:14 +0000
Subject: [PATCH 116/159] fix: generate the matching case of a match statement
 on a type in the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 33540d2..31d9955 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -2185,6 +2185,11 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         c_println(cg, "}}");
     } break;
 
+    case ND_MATCH_TYPE:
+        if(node->body)
+            c_gen_stmt(cg, node->body);
+        break;
+
     case ND_WITH:
     {
         c_println(cg, "{");
-- 
2.43.0


From c8e701dfdf056aa3c5e92a4417f4729824bb41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 117/159] fix: treat pointers to arrays of any size like the
 arrays in the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 31d9955..928e3a0 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -959,7 +959,8 @@ static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr)
     {
     case TY_PTR:
         c_gen_type(cg, type->base, false);
-        c_putc(cg, '*');
+        if(unpack(type->base)->kind != TY_VLA) // already is a pointer
+            c_putc(cg, '*');
         break;
     case TY_VLA:
         c_print(cg, "%s*", c_get_unnamed_type(cg, type)->name);
@@ -1700,6 +1701,13 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             }
             // fall through
         case ND_DEREF:
+            // arrays of any size always are pointers
+            if(unpack(node->kind == ND_DEREF ? node->data_type : node->right->data_type)->kind == TY_VLA)
+            {
+                c_gen_expr(cg, node->right, true);
+                break;
+            }
+
             c_print(cg, "(%s", op_symbols[node->kind]);
             c_gen_expr(cg, node->right, true);
             c_putc(cg, ')');
-- 
2.43.0


From 0237975509c3829182262a811a555792d884b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:32 +0000
Subject: [PATCH 118/159] fix: build literals apart from the variables they are
 assigned to in the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 928e3a0..f0c2722 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1746,6 +1746,8 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_putc(cg, '(');
             c_gen_expr(cg, node->left, true);
             c_print(cg, "%s", op_symbols[node->kind]);
+            if(node->right->kind == ND_ARRAY || node->right->kind == ND_STRUCT)
+                c_print(cg, "*&"); // the literal may use the old value, so gcc must not build it in place
             c_gen_expr(cg, node->right, true);
             c_putc(cg, ')');
             break;
-- 
2.43.0


From 7bc05320e19592f3e143ef8557fb5f9dc52a772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:24 +0000
Subject: [PATCH 119/159] fix: let array literals of the C backend contain
 structs of an equal type with another name

---
 src/compiler/codegen/transpiler/c_codegen.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index f0c2722..f746506 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1767,16 +1767,19 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
                     continue;
                 }
 
-                c_gen_expr(cg, arg, true);
+                c_gen_expr(cg, arg, arg->kind != ND_STRUCT); // the type of the literal may be another than the array's
                 if(node->args->size - i > 1)
                     c_putc(cg, ',');
             }
             c_print(cg, "}}");
         } break;
         case ND_STRUCT:
-            c_putc(cg, '(');
-            c_gen_type(cg, node->data_type, false);
-            c_putc(cg, ')');
+            if(with_casts)
+            {
+                c_putc(cg, '(');
+                c_gen_type(cg, node->data_type, false);
+                c_putc(cg, ')');
+            }
 
             if(node->args->size == 0)
             {
-- 
2.43.0


From 8ceeb90b4cfc1b2c799e60670de104b1d4c62d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:50 +0000
Subject: [PATCH 120/159] fix: emit the members of an enum only once when it
 has aliases

---
 src/compiler/codegen/asm/asm_codegen.c      | 2 +-
 src/compiler/codegen/transpiler/c_codegen.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index cc39abc..e9b340b 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -555,7 +555,7 @@ static void asm_gen_data(ASMCodegenData_T* cg, List_T* objs)
             
             case OBJ_TYPEDEF:
             {
-                ASTType_T* ty = unpack(obj->data_type);
+                ASTType_T* ty = obj->data_type; // aliases of the enum share its members
                 if(!ty)
                     continue;
                 if(ty->kind == TY_ENUM)
diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index f746506..ab4845e 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1070,7 +1070,7 @@ static void c_gen_globals(CCodegenData_T* cg, List_T* objs)
             
             case OBJ_TYPEDEF:
             {
-                ASTType_T* ty = unpack(obj->data_type);
+                ASTType_T* ty = obj->data_type; // aliases of the enum share its members
                 if(!ty)
                     continue;
                 if(ty->kind == TY_ENUM)
-- 
2.43.0


From 980db16d81c7ea98e18786dd18a64ea45885c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:20 +0000
Subject: [PATCH 121/159] fix: don't take for granted that the body of a while
 or for loop is executed

---
 src/compiler/parser/validator.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 0b08932..68c4db3 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -799,9 +799,12 @@ static bool stmt_returns_value(Validator_T* v, ASTNode_T* node)
             return false;
         case ND_IF:
             return stmt_returns_value(v, node->if_branch) && node->else_branch ? stmt_returns_value(v, node->else_branch) : false;
-        case ND_LOOP:
         case ND_FOR:
         case ND_WHILE:
+            // the body may not be executed at all
+            return stmt_returns_value(v, node->body) && 
+                (!node->condition || (node->condition->kind == ND_BOOL && node->condition->bool_val));
+        case ND_LOOP:
         case ND_DO_WHILE:
             return stmt_returns_value(v, node->body);
         case ND_MATCH:
@@ -817,7 +820,8 @@ static bool stmt_returns_value(Validator_T* v, ASTNode_T* node)
                 return cases_return == node->cases->size && stmt_returns_value(v, node->default_case->body);
             }
         case ND_FOR_RANGE:
-            return stmt_returns_value(v, node->body);
+            stmt_returns_value(v, node->body);
+            return false;
         case ND_EXPR_STMT:
             return stmt_returns_value(v, node->expr);
         default: 
-- 
2.43.0


From b6efaafd8f29c20efb263444170fa4b2b7e79c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:19 +0000
Subject: [PATCH 122/159] fix: let types of the same layout implement an
 interface each

---
 src/compiler/ast/vtable.c         | 8 +++-----
 src/compiler/parser/typechecker.c | 3 +--
 src/compiler/parser/typechecker.h | 1 +
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/compiler/ast/vtable.c b/src/compiler/ast/vtable.c
index a6de0e3..d1e534c 100644
--- a/src/compiler/ast/vtable.c
+++ b/src/compiler/ast/vtable.c
@@ -27,8 +27,6 @@ ASTVTable_T* ast_vtable_init(Context_T* context, ASTType_T* interface) {
 }
 
 ASTImpl_T* ast_impl_init(Context_T* context, ASTType_T* impl_base) {
-    assert(impl_base->kind != TY_UNDEF);
-
     ASTImpl_T* impl = allocator_malloc(&context->raw_allocator, sizeof(struct AST_IMPL_STRUCT));
     impl->base_type = impl_base;
     impl->vtables = init_list();
@@ -56,13 +54,13 @@ void vtable_register(Context_T* context, ASTProg_T* ast, ASTType_T* interface, A
 }
 
 ASTVTable_T* vtable_get(Context_T* context, ASTProg_T* ast, ASTType_T* interface, ASTType_T* impl_base, bool create) {
-    ASTType_T* impl_base_ext = unpack(impl_base);
     ASTType_T* interface_ext = unpack(interface);
 
     for(size_t i = 0; i < ast->impls->size; i++) {
         ASTImpl_T* impl = ast->impls->items[i];
 
-        if(!types_equal(context, impl_base_ext, impl->base_type))
+        // structs of different names are different types, whatever their members are
+        if(!value_types_equal(context, impl_base, impl->base_type))
             continue;
 
         for(size_t j = 0; j < impl->vtables->size; j++) {
@@ -84,7 +82,7 @@ ASTVTable_T* vtable_get(Context_T* context, ASTProg_T* ast, ASTType_T* interface
     }
 
     if(create) {
-        ASTImpl_T* impl = ast_impl_init(context, impl_base_ext);
+        ASTImpl_T* impl = ast_impl_init(context, impl_base);
         
         ASTVTable_T* vtable = ast_vtable_init(context, interface_ext);
         list_push(impl->vtables, vtable);
diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 2cda5e7..19c36b3 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -43,7 +43,6 @@ static void typecheck_operand_width(ASTNode_T* op, va_list args);
 static void typecheck_dyn_type(ASTType_T* dyn_type, va_list args);
 
 bool types_equal_strict(Context_T* context, ASTType_T* a, ASTType_T* b);
-static bool value_types_equal(Context_T* context, ASTType_T* a, ASTType_T* b);
 
 static const ASTIteratorList_T iterator = {
     .obj_start_fns = {
@@ -730,7 +729,7 @@ bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b)
 }
 
 // a constant and a variable hold the same values, so they can be copied to one another
-static bool value_types_equal(Context_T* context, ASTType_T* a, ASTType_T* b)
+bool value_types_equal(Context_T* context, ASTType_T* a, ASTType_T* b)
 {
     a = unpack_alias(a);
     b = unpack_alias(b);
diff --git a/src/compiler/parser/typechecker.h b/src/compiler/parser/typechecker.h
index 9176cd6..dec4e50 100644
--- a/src/compiler/parser/typechecker.h
+++ b/src/compiler/parser/typechecker.h
@@ -27,6 +27,7 @@ void typechecker_free(TypeChecker_T* t);
 void typecheck_obj(TypeChecker_T* t, ASTObj_T* obj);
 
 bool types_equal(Context_T* context, ASTType_T* a, ASTType_T* b);
+bool value_types_equal(Context_T* context, ASTType_T* a, ASTType_T* b);
 
 ASTType_T* unpack_alias(ASTType_T* type);
 ImplicitCastResult_T implicitly_castable(TypeChecker_T* t, Token_T* tok, ASTType_T* from, ASTType_T* to);
-- 
2.43.0


From 55a503b25459f9988ebe9ce345994f8a1cb30a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:35 +0000
Subject: [PATCH 123/159] fix: check the signatures of the functions that
 implement an interface

---
 src/compiler/parser/validator.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 68c4db3..a1b40cd 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2454,6 +2454,22 @@ static i32 get_type_align(Validator_T* v, ASTType_T* type)
     }
 }
 
+// the types have to be the same except for the one of the first argument, which is `self`
+static bool implements_signature(Validator_T* v, ASTObj_T* decl, ASTObj_T* impl) {
+    if(decl->args->size != impl->args->size || !value_types_equal(v->context, decl->return_type, impl->return_type))
+        return false;
+
+    for(size_t i = 1; i < decl->args->size; i++) {
+        ASTObj_T* decl_arg = decl->args->items[i];
+        ASTObj_T* impl_arg = impl->args->items[i];
+
+        if(!value_types_equal(v->context, decl_arg->data_type, impl_arg->data_type))
+            return false;
+    }
+
+    return true;
+}
+
 static void validate_vtable(Validator_T* v, ASTType_T* base_type, ASTVTable_T* vtable) {
     ASTType_T* interface = vtable->interface;
 
@@ -2487,6 +2503,18 @@ static void validate_vtable(Validator_T* v, ASTType_T* base_type, ASTVTable_T* v
                 decl->id->callee
             );
         }
+        else if(!implements_signature(v, decl, impl)) {
+            throw_error(
+                v->context,
+                ERR_TYPE_ERROR_UNCR,
+                impl->tok,
+                "function `%s` does not have the argument and return types of the interface function defined in "
+                COLOR_BOLD_WHITE "`%s`" COLOR_RESET " line " COLOR_BOLD_WHITE "`%ld`" COLOR_RESET "",
+                decl->id->callee,
+                EITHER(decl->tok->source->short_path, decl->tok->source->path),
+                decl->tok->line + 1
+            );
+        }
     }
 }
 
-- 
2.43.0


From 6a4844626851ff46c73292cf938485dbf7787191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:02 +0000
Subject: [PATCH 124/159] fix: follow conversions to and from dyn when looking
 for reachable code

---
 src/compiler/ast/ast_iterator.c    | 2 ++
 src/compiler/optimizer/optimizer.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/compiler/ast/ast_iterator.c b/src/compiler/ast/ast_iterator.c
index 3aceb11..396a58e 100644
--- a/src/compiler/ast/ast_iterator.c
+++ b/src/compiler/ast/ast_iterator.c
@@ -254,6 +254,8 @@ static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list cus
             break;
 
         case ND_INTERFACE_CAST:
+        case ND_DYNCAST:
+        case ND_DYNUNCAST:
         case ND_CAST:
             ast_node(list, node->left, custom_args);
             if(node->data_type) 
diff --git a/src/compiler/optimizer/optimizer.c b/src/compiler/optimizer/optimizer.c
index f3351d3..82d5eff 100644
--- a/src/compiler/optimizer/optimizer.c
+++ b/src/compiler/optimizer/optimizer.c
@@ -135,6 +135,8 @@ static void remove_dead_code(ASTProg_T* ast)
             case ND_INC:
             case ND_DEC:
             case ND_CAST:
+            case ND_DYNCAST:
+            case ND_DYNUNCAST:
                 list_push(node_stack, stack_top->left);
                 break;
 
-- 
2.43.0


From 9805a71ea3c6006f5c93f735003f83d3a2417bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 125/159] fix: keep what only the selected body of a match
 (type) refers to

---
 src/compiler/optimizer/optimizer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/optimizer/optimizer.c b/src/compiler/optimizer/optimizer.c
index 82d5eff..16d2e20 100644
--- a/src/compiler/optimizer/optimizer.c
+++ b/src/compiler/optimizer/optimizer.c
@@ -170,6 +170,7 @@ static void remove_dead_code(ASTProg_T* ast)
                 // fall through
             case ND_LOOP:
             case ND_CASE_TYPE:
+            case ND_MATCH_TYPE:
                 list_push(node_stack, stack_top->body);
                 break;
 
-- 
2.43.0


From e18119fa3d9bb43bba58295cb68f21bb4819e908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 126/159] fix: copy values of dyn types when they are assigned

---
 src/compiler/codegen/asm/asm_codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index e9b340b..bdbd536 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1077,6 +1077,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
         case ND_LAMBDA:
         case ND_ARRAY:
         case ND_STRUCT:
+        case ND_DYNCAST:
             asm_gen_expr(cg, node);
             return;
         case ND_CAST:
@@ -1325,6 +1326,7 @@ static void asm_store(ASMCodegenData_T* cg, ASTType_T *ty) {
 
     switch (ty->kind) {
         case TY_STRUCT:
+        case TY_DYN:
         case TY_ARRAY:
         case TY_C_ARRAY:
             for(i32 i = 0; i < ty->size; i++) {
@@ -1768,7 +1770,7 @@ static void asm_gen_spread_element(ASMCodegenData_T* cg, ASTNode_T* array, size_
         .data_type = element_type
     });
 
-    if(unpack(element_type)->kind != TY_STRUCT && unpack(element_type)->kind != TY_ARRAY && unpack(element_type)->kind != TY_C_ARRAY)
+    if(unpack(element_type)->kind != TY_STRUCT && unpack(element_type)->kind != TY_DYN && unpack(element_type)->kind != TY_ARRAY && unpack(element_type)->kind != TY_C_ARRAY)
         asm_cast(cg, element_type, base);
 }
 
-- 
2.43.0


From da2cc95d139b011c608725255d7ac56b0ed705eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:10 +0000
Subject: [PATCH 127/159] fix: evaluate the receiver of a dynamic call once

---
 src/compiler/codegen/transpiler/c_codegen.c |  1 +
 src/compiler/parser/validator.c             | 25 +++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index ab4845e..cd443ca 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -216,6 +216,7 @@ static const char* default_type_init[TY_KIND_LEN] = {
     [TY_ARRAY]   = "{0}",
     [TY_C_ARRAY] = "{0}",
     [TY_STRUCT]  = "{0}",
+    [TY_DYN]     = "{0}",
 };
 
 const char* c_main_call[] = {
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index a1b40cd..636cdbb 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1217,6 +1217,28 @@ static void iter_validate_extern_c_block(ASTNode_T* block, va_list args)
         throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, block->tok, "`extern \"C\"` statements are only supported with the C backend.\nUse `--backend C` to use this backend.");
 }
 
+// The receiver of a dynamic call is used twice, for its data and for its vtable.
+// `f().method(args)` becomes `f() |> $.method($, args)`, so that `f` is only called once.
+static void evaluate_receiver_once(Validator_T* v, ASTNode_T* call)
+{
+    ASTNode_T* receiver = call->expr->left;
+
+    ASTNode_T* inner = init_ast_node(&v->context->raw_allocator, ND_CALL, call->tok);
+    *inner = *call;
+
+    ASTNode_T* hole = init_ast_node(&v->context->raw_allocator, ND_HOLE, receiver->tok);
+    hole->data_type = receiver->data_type;
+    hole->expr = call;
+
+    inner->expr->left = hole;
+    inner->args->items[0] = hole;
+
+    call->kind = ND_PIPE;
+    call->left = receiver;
+    call->right = inner;
+    call->expr = NULL;
+}
+
 static void iter_validate_call(ASTNode_T* call, va_list args)
 {
     GET_VALIDATOR(args);
@@ -1279,6 +1301,9 @@ static void iter_validate_call(ASTNode_T* call, va_list args)
             // TODO
         }
     }
+
+    if(call->args->size && call->expr->kind == ND_MEMBER && call->args->items[0] == call->expr->left && call->expr->left->kind == ND_CALL)
+        evaluate_receiver_once(v, call);
 }
 
 static void iter_validate_identifier(ASTNode_T* id, va_list args)
-- 
2.43.0


From 62bb01ff1e6661cbd46c61154720d109b6b935d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 128/159] fix: don't print uninitialised memory in diagnostics
 about casts

---
 src/compiler/parser/typechecker.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index 19c36b3..c6e5773 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -166,7 +166,7 @@ static void typecheck_call(ASTNode_T* call, va_list args)
             ASTNode_T* arg = call->args->items[i];
             if(arg->unpack_mode)
             {
-                char buf[BUFSIZ];
+                char buf[BUFSIZ] = {'\0'};
                 if(!is_const_len_array(arg->data_type) && unpack(arg->data_type)->kind != TY_STRUCT)
                     throw_error(t->context, ERR_TYPE_ERROR_UNCR, arg->tok, "unpacking with `...` is not supported for type `%s`", ast_type_to_str(t->context, buf, arg->data_type, LEN(buf)));
             }
@@ -361,6 +361,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
 
     if(from->kind == TY_VOID) {
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "cannot cast from `void` to `%s`", 
             ast_type_to_str(t->context, buf1, cast->data_type, BUFSIZ)
         );
@@ -368,6 +369,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
     
     if(to->kind == TY_VOID) {
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "cannot cast from `%s` to `void`", 
             ast_type_to_str(t->context, buf1, cast->left->data_type, BUFSIZ)
         );
@@ -380,6 +382,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
         }
 
         char* buf1 = alloca(BUFSIZ * sizeof(char));
+        *buf1 = '\0';
         throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "cannot cast from dynamic type to `%s`",
             ast_type_to_str(t->context, buf1, cast->data_type, BUFSIZ)
         );
@@ -389,6 +392,7 @@ static void typecheck_explicit_cast(ASTNode_T* cast, va_list args)
         cast->kind = ND_DYNCAST;
         if(from->kind != TY_PTR) {
             char* buf1 = alloca(BUFSIZ * sizeof(char));
+            *buf1 = '\0';
             throw_error(t->context, ERR_TYPE_ERROR_UNCR, cast->tok, "can only cast from `%s` to dynamic types",
                 ast_type_to_str(t->context, buf1, cast->left->data_type, BUFSIZ)
             );
-- 
2.43.0


From b225767b23981b70f3ffa0731d03de5b33eea3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 129/159] fix: allow members of a piped value

---
 src/compiler/codegen/asm/asm_codegen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index bdbd536..d315682 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -1076,6 +1076,7 @@ static void asm_gen_addr(ASMCodegenData_T* cg, ASTNode_T* node)
             // fall through
         case ND_LAMBDA:
         case ND_ARRAY:
+        case ND_PIPE:
         case ND_STRUCT:
         case ND_DYNCAST:
             asm_gen_expr(cg, node);
-- 
2.43.0


From 149e5b5c3d573c53c815f159b06e36abc0670970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 130/159] fix: don't print uninitialised memory in more
 diagnostics

---
 src/compiler/parser/directives.c | 6 +++---
 src/compiler/parser/validator.c  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/parser/directives.c b/src/compiler/parser/directives.c
index 0319aac..8e5f85b 100644
--- a/src/compiler/parser/directives.c
+++ b/src/compiler/parser/directives.c
@@ -312,7 +312,7 @@ EVAL_FN(after_main)
 {
     if(obj->after_main)
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(context, ERR_SYNTAX_WARNING, data->name_token, "function `%s` already marked as `[after_main]`", ast_id_to_str(buf, obj->id, sizeof(buf)));
     }
     obj->after_main = true;
@@ -324,7 +324,7 @@ EVAL_FN(before_main)
 {
     if(obj->before_main)
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(context, ERR_SYNTAX_WARNING, data->name_token, "function `%s` already marked as `[before_main]`", ast_id_to_str(buf, obj->id, sizeof(buf)));
     }
     obj->before_main = true;
@@ -389,7 +389,7 @@ EVAL_FN(constexpr_directive)
 {
     if(obj->constexpr) 
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(context, ERR_REDEFINITION_UNCR, data->name_token, "redundant `constexpr` directive; `%s` is already marked as `constexpr`", ast_id_to_str(buf, obj->id, BUFSIZ));
     }
 
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 636cdbb..8546712 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1593,7 +1593,7 @@ static void iter_validate_index(ASTNode_T* index, va_list args)
 
     if(!indexable(left_type->kind))
     {
-        char buf[BUFSIZ];
+        char buf[BUFSIZ] = {'\0'};
         throw_error(v->context, ERR_TYPE_ERROR, index->tok, "cannot get an index value from type `%s`", ast_type_to_str(v->context, buf, left_type, BUFSIZ));
         return;
     }
-- 
2.43.0


From 2ab5cbb69b4e171eec74a7089b49c36c08566998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 131/159] fix: dispatch through pointers to dyn values

---
 src/compiler/parser/validator.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 8546712..290ea7c 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1444,11 +1444,12 @@ static void iter_validate_member(ASTNode_T* member, va_list args)
     member->data_type = found->data_type;
     member->body = found;
 
-    if(found->kind == ND_STRUCT_MEMBER && is_ptr(member->left->data_type))
+    ASTType_T* pointed_to = is_ptr(member->left->data_type) ? unpack(unpack(member->left->data_type)->base) : NULL;
+    if(found->kind == ND_STRUCT_MEMBER ? pointed_to != NULL : pointed_to && pointed_to->kind == TY_DYN)
     {
         // convert x->y to (*x).y
         ASTNode_T* new_left = init_ast_node(&v->context->raw_allocator, ND_DEREF, member->left->tok);
-        new_left->data_type = member->left->data_type->base;
+        new_left->data_type = unpack(member->left->data_type)->base;
         new_left->right = member->left;
         member->left = new_left;
     }
-- 
2.43.0


From c598944085f421e6fa6ee3228ebe16c5390af055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:32 +0000
Subject: [PATCH 132/159] fix: don't allow dynamic calls through pointers to
 interfaces

---
 src/compiler/parser/validator.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 290ea7c..dcefda8 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1387,7 +1387,10 @@ static ASTNode_T* find_member_in_struct(Validator_T* v, ASTType_T* type, ASTNode
 
     type = unpack(type);
     switch(type->kind) {
-        case TY_INTERFACE:
+        case TY_DYN: // only values of dyn types know which implementation to call
+            type = unpack(type->base);
+            if(type->kind != TY_INTERFACE)
+                break;
             for(size_t i = 0; i < type->func_decls->size; i++)
             {
                 ASTObj_T* func_decl = type->func_decls->items[i];
@@ -1400,8 +1403,6 @@ static ASTNode_T* find_member_in_struct(Validator_T* v, ASTType_T* type, ASTNode
                 }
             }
             break;
-        case TY_DYN:
-            return find_member_in_struct(v, type->base, id);
         case TY_STRUCT:
             for(size_t i = 0; i < type->members->size; i++)
             {
-- 
2.43.0


From 4383e3a90acad8f439a2a1dd05856817baa54691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:56 +0000
Subject: [PATCH 133/159] fix: let the methods of an interface take values of
 its dyn type

---
 src/compiler/parser/queue.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/parser/queue.c b/src/compiler/parser/queue.c
index 9b73d1c..e0410d8 100644
--- a/src/compiler/parser/queue.c
+++ b/src/compiler/parser/queue.c
@@ -122,14 +122,14 @@ finish:
 static void enter_type(ASTType_T* type, va_list args)
 {
     GET_ARGS(args);
-    if(type->kind == TY_VLA || type->kind == TY_PTR)
+    if(type->kind == TY_VLA || type->kind == TY_PTR || type->kind == TY_DYN)
         validator_push_type_info(v, false);        
 }
 
 static void leave_type(ASTType_T* type, va_list args)
 {
     GET_ARGS(args);
-    if(type->kind == TY_VLA || type->kind == TY_PTR)
+    if(type->kind == TY_VLA || type->kind == TY_PTR || type->kind == TY_DYN)
         validator_pop_type_info(v);
 }     
 
-- 
2.43.0


From 112c7c86cb074e33550c685448e0a9d9e71a4c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 134/159] fix: know the types of typeof expressions in
 signatures before the functions are called

---
 src/compiler/parser/validator.c | 189 ++++++++++++++++++--------------
 1 file changed, 108 insertions(+), 81 deletions(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index dcefda8..a3bde3b 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -2075,93 +2075,118 @@ static void iter_validate_c_array_type(ASTType_T* c_array, va_list args);
 static void iter_validate_dyn_type(ASTType_T* dyn_type, va_list args);
 static void iter_validate_type(ASTType_T* type, va_list args);
 
+static const ASTIteratorList_T validation_iterator = {
+    .obj_start_fns = {
+        [OBJ_FUNCTION] = iter_enter_function,
+        [OBJ_TYPEDEF] = iter_enter_typedef,
+        [OBJ_FN_ARG] = iter_enter_fn_arg,
+        [OBJ_ENUM_MEMBER] = iter_enter_enum_member,
+        [OBJ_GLOBAL] = iter_enter_global,
+    },
+    .obj_end_fns = {
+        [OBJ_FUNCTION] = iter_leave_function,
+        [OBJ_TYPEDEF] = iter_leave_typedef,
+        [OBJ_FN_ARG] = iter_leave_fn_arg,
+        [OBJ_ENUM_MEMBER] = iter_leave_enum_member,
+        [OBJ_GLOBAL] = iter_leave_global,
+    },
+    .node_start_fns = {
+        [ND_BLOCK] = iter_enter_block,
+        [ND_ASSIGN] = iter_enter_assignment,
+        [ND_PIPE] = iter_enter_pipe,
+        [ND_LAMBDA] = iter_enter_lambda,
+    },
+    .node_end_fns = {
+        [ND_BLOCK] = iter_leave_block,
+        [ND_RETURN] = iter_validate_return,
+        [ND_FOR_RANGE] = iter_validate_for_range,
+        [ND_MATCH_TYPE] = iter_validate_match_type,
+        [ND_WITH] = iter_validate_with,
+        [ND_CASE] = iter_validate_case,
+        [ND_EXPR_STMT] = iter_validate_expr_stmt,
+        [ND_EXTERN_C_BLOCK] = iter_validate_extern_c_block,
+        [ND_CALL] = iter_validate_call,
+        [ND_ID] = iter_validate_identifier,
+        [ND_CLOSURE] = iter_validate_closure,
+        [ND_REF] = iter_validate_reference,
+        [ND_DEREF] = iter_validate_dereference,
+        [ND_MEMBER] = iter_validate_member,
+        [ND_ADD] = iter_validate_binop,
+        [ND_SUB] = iter_validate_binop,
+        [ND_MUL] = iter_validate_binop,
+        [ND_DIV] = iter_validate_binop,
+        [ND_MOD] = iter_validate_modulo,
+        [ND_NEG] = iter_validate_negation,
+        [ND_BIT_NEG] = iter_validate_bitwise_negation,
+        [ND_NOT] = iter_validate_not,
+        [ND_EQ] = iter_validate_equals,
+        [ND_NE] = iter_validate_equals,
+        [ND_LT] = iter_validate_lt_gt,
+        [ND_LE] = iter_validate_lt_gt,
+        [ND_GT] = iter_validate_lt_gt,
+        [ND_GE] = iter_validate_lt_gt,
+        [ND_AND] = iter_validate_and_or,
+        [ND_OR] = iter_validate_and_or,
+        [ND_XOR] = iter_validate_bitwise_op,
+        [ND_LSHIFT] = iter_validate_bitwise_op,
+        [ND_RSHIFT] = iter_validate_bitwise_op,
+        [ND_BIT_OR] = iter_validate_bitwise_op,
+        [ND_BIT_AND] = iter_validate_bitwise_op,
+        [ND_INC] = iter_validate_inc_dec,
+        [ND_DEC] = iter_validate_inc_dec,
+        [ND_INDEX] = iter_validate_index,
+        [ND_ASSIGN] = iter_leave_assignment,
+        [ND_STRUCT] = iter_validate_struct_lit,
+        [ND_ARRAY] = iter_validate_array_lit,
+        [ND_TERNARY] = iter_validate_ternary,
+        [ND_ELSE_EXPR] = iter_validate_else_expr,
+        [ND_LEN] = iter_validate_len,
+        [ND_PIPE] = iter_leave_pipe,
+        [ND_HOLE] = iter_validate_hole,
+        [ND_LAMBDA] = iter_leave_lambda,
+        [ND_STR] = iter_validate_string_lit,
+        [ND_SIZEOF] = iter_validate_sizeof,
+        [ND_TYPE_EXPR] = iter_validate_type_expr,
+    },
+    .type_fns = {
+        [TY_STRUCT] = iter_validate_struct_type,
+        [TY_ENUM] = iter_validate_enum_type,
+        [TY_TYPEOF] = iter_validate_typeof_type,
+        [TY_ARRAY] = iter_validate_array_type,
+        [TY_C_ARRAY] = iter_validate_c_array_type,
+        [TY_DYN] = iter_validate_dyn_type,
+    },
+    .type_end = iter_validate_type,
+};
+
 static void validate_obj_deep(Validator_T* v, ASTObj_T* obj)
+{
+    ast_iterate_obj(&validation_iterator, obj, v);
+}
+
+static void validate_typeof_operand(ASTType_T* type, va_list args)
+{
+    GET_VALIDATOR(args);
+    if(!type->num_indices_node->data_type)
+        ast_iterate_type(&validation_iterator, type, v);
+}
+
+// Objects that come later in the queue only need the type of this one, which may be the type of an expression.
+static void validate_typeofs(Validator_T* v, ASTObj_T* obj)
 {
     static const ASTIteratorList_T iter = {
-        .obj_start_fns = {
-            [OBJ_FUNCTION] = iter_enter_function,
-            [OBJ_TYPEDEF] = iter_enter_typedef,
-            [OBJ_FN_ARG] = iter_enter_fn_arg,
-            [OBJ_ENUM_MEMBER] = iter_enter_enum_member,
-            [OBJ_GLOBAL] = iter_enter_global,
-        },
-        .obj_end_fns = {
-            [OBJ_FUNCTION] = iter_leave_function,
-            [OBJ_TYPEDEF] = iter_leave_typedef,
-            [OBJ_FN_ARG] = iter_leave_fn_arg,
-            [OBJ_ENUM_MEMBER] = iter_leave_enum_member,
-            [OBJ_GLOBAL] = iter_leave_global,
-        },
-        .node_start_fns = {
-            [ND_BLOCK] = iter_enter_block,
-            [ND_ASSIGN] = iter_enter_assignment,
-            [ND_PIPE] = iter_enter_pipe,
-            [ND_LAMBDA] = iter_enter_lambda,
-        },
-        .node_end_fns = {
-            [ND_BLOCK] = iter_leave_block,
-            [ND_RETURN] = iter_validate_return,
-            [ND_FOR_RANGE] = iter_validate_for_range,
-            [ND_MATCH_TYPE] = iter_validate_match_type,
-            [ND_WITH] = iter_validate_with,
-            [ND_CASE] = iter_validate_case,
-            [ND_EXPR_STMT] = iter_validate_expr_stmt,
-            [ND_EXTERN_C_BLOCK] = iter_validate_extern_c_block,
-            [ND_CALL] = iter_validate_call,
-            [ND_ID] = iter_validate_identifier,
-            [ND_CLOSURE] = iter_validate_closure,
-            [ND_REF] = iter_validate_reference,
-            [ND_DEREF] = iter_validate_dereference,
-            [ND_MEMBER] = iter_validate_member,
-            [ND_ADD] = iter_validate_binop,
-            [ND_SUB] = iter_validate_binop,
-            [ND_MUL] = iter_validate_binop,
-            [ND_DIV] = iter_validate_binop,
-            [ND_MOD] = iter_validate_modulo,
-            [ND_NEG] = iter_validate_negation,
-            [ND_BIT_NEG] = iter_validate_bitwise_negation,
-            [ND_NOT] = iter_validate_not,
-            [ND_EQ] = iter_validate_equals,
-            [ND_NE] = iter_validate_equals,
-            [ND_LT] = iter_validate_lt_gt,
-            [ND_LE] = iter_validate_lt_gt,
-            [ND_GT] = iter_validate_lt_gt,
-            [ND_GE] = iter_validate_lt_gt,
-            [ND_AND] = iter_validate_and_or,
-            [ND_OR] = iter_validate_and_or,
-            [ND_XOR] = iter_validate_bitwise_op,
-            [ND_LSHIFT] = iter_validate_bitwise_op,
-            [ND_RSHIFT] = iter_validate_bitwise_op,
-            [ND_BIT_OR] = iter_validate_bitwise_op,
-            [ND_BIT_AND] = iter_validate_bitwise_op,
-            [ND_INC] = iter_validate_inc_dec,
-            [ND_DEC] = iter_validate_inc_dec,
-            [ND_INDEX] = iter_validate_index,
-            [ND_ASSIGN] = iter_leave_assignment,
-            [ND_STRUCT] = iter_validate_struct_lit,
-            [ND_ARRAY] = iter_validate_array_lit,
-            [ND_TERNARY] = iter_validate_ternary,
-            [ND_ELSE_EXPR] = iter_validate_else_expr,
-            [ND_LEN] = iter_validate_len,
-            [ND_PIPE] = iter_leave_pipe,
-            [ND_HOLE] = iter_validate_hole,
-            [ND_LAMBDA] = iter_leave_lambda,
-            [ND_STR] = iter_validate_string_lit,
-            [ND_SIZEOF] = iter_validate_sizeof,
-            [ND_TYPE_EXPR] = iter_validate_type_expr,
-        },
+        .iterate_only_objs = true,
         .type_fns = {
-            [TY_STRUCT] = iter_validate_struct_type,
-            [TY_ENUM] = iter_validate_enum_type,
-            [TY_TYPEOF] = iter_validate_typeof_type,
-            [TY_ARRAY] = iter_validate_array_type,
-            [TY_C_ARRAY] = iter_validate_c_array_type,
-            [TY_DYN] = iter_validate_dyn_type,
-        },
-        .type_end = iter_validate_type,
+            [TY_TYPEOF] = validate_typeof_operand
+        }
     };
 
-    ast_iterate_obj(&iter, obj, v);
+    if(obj->kind != OBJ_FUNCTION)
+        return;
+
+    validator_push_obj(v, obj);
+    ast_iterate_type(&iter, obj->data_type, v);
+    validator_pop_obj(v);
 }
 
 static void validate_semantics(Validator_T* v, ResolveQueue_T* queue)
@@ -2178,6 +2203,8 @@ static void validate_semantics(Validator_T* v, ResolveQueue_T* queue)
     {
         if(node->method & RESOLVE_DEEP)
             validate_obj_deep(v, node->obj);
+        else
+            validate_typeofs(v, node->obj);
 
         node = node->next;
     }
-- 
2.43.0


From 3fa05d50804a5c7ed0f65b4a3f6168594d0a60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 135/159] fix: keep constant pointers to char that are no
 strings

---
 src/compiler/interpreter/interpreter.c | 14 ++++++++++++++
 src/compiler/interpreter/interpreter.h |  1 +
 src/compiler/interpreter/value.c       |  4 ++--
 src/compiler/interpreter/value.h       |  2 +-
 src/compiler/optimizer/constexpr.c     |  3 ++-
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index f829e97..45fd441 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -222,6 +222,20 @@ static inline InterpreterValue_T push_str_lit(InterpreterContext_T* ictx, const
     return PTR_VALUE(str, char_ptr_type);
 }
 
+// not every pointer to a char is one to a string that exists at compile time
+bool interpreter_points_to_string(InterpreterContext_T* ictx, uintptr_t ptr)
+{
+    List_T* strings = hashmap_values(ictx->string_literals);
+    bool found = false;
+    for(size_t i = 0; i < strings->size && !found; i++)
+    {
+        uintptr_t str = (uintptr_t) strings->items[i];
+        found = ptr >= str && ptr <= str + strlen((const char*) str);
+    }
+    free_list(strings);
+    return found;
+}
+
 static inline InterpreterValue_T push_argv(InterpreterContext_T* ictx)
 {
     InterpreterValue_T program_name_val = push_str_lit(ictx, ictx->ast->main_file_path);
diff --git a/src/compiler/interpreter/interpreter.h b/src/compiler/interpreter/interpreter.h
index 7835004..8875a0e 100644
--- a/src/compiler/interpreter/interpreter.h
+++ b/src/compiler/interpreter/interpreter.h
@@ -33,5 +33,6 @@ void free_interpreter_context(InterpreterContext_T* ictx);
 i32 interpreter_pass(Context_T* context, ASTProg_T* ast);
 
 InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T* expr);
+bool interpreter_points_to_string(InterpreterContext_T* ictx, uintptr_t ptr);
 
 #endif
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 857d225..2d8be74 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -190,7 +190,7 @@ f80 interpreter_value_f80(InterpreterValue_T* value)
     }
 }
 
-ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_T* value, Token_T* tok)
+ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_T* value, bool is_string, Token_T* tok)
 {
     if(!value->type)
         throw_error(context, ERR_CONSTEXPR, tok, "cannot evaluate this value at compile time");
@@ -254,7 +254,7 @@ ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_
             node->referenced_obj = (ASTObj_T*) value->value.fn_obj;
             break;
         case TY_PTR:
-            if(unpack(node->data_type->base)->kind == TY_CHAR && value->value.ptr)
+            if(is_string && unpack(node->data_type->base)->kind == TY_CHAR)
             {
                 node->kind = ND_STR;
                 node->str_val = strdup((const char*) value->value.ptr);
diff --git a/src/compiler/interpreter/value.h b/src/compiler/interpreter/value.h
index 6d209c3..6084729 100644
--- a/src/compiler/interpreter/value.h
+++ b/src/compiler/interpreter/value.h
@@ -91,7 +91,7 @@ bool interpreter_values_equal(InterpreterValue_T a, InterpreterValue_T b);
 i64 interpreter_value_i64(InterpreterValue_T* value);
 f80 interpreter_value_f80(InterpreterValue_T* value);
 
-ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_T* value, Token_T* tok);
+ASTNode_T* ast_node_from_interpreter_value(Context_T* context, InterpreterValue_T* value, bool is_string, Token_T* tok);
 
 #define interpreter_value_is_truthy(value) (!interpreter_value_is_falsy((value)))
 
diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index cf90f05..d602882 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -37,7 +37,8 @@ ASTNode_T* eval_constexpr(ConstexprResolver_T* resolver, ASTNode_T* expr)
     if(skip_eval_constexpr(expr->kind))
         return expr;
     InterpreterValue_T value = interpreter_eval_expr(resolver, expr);
-    return ast_node_from_interpreter_value(resolver->context, &value, expr->tok);
+    bool is_string = value.type && value.type->kind == TY_PTR && interpreter_points_to_string(resolver, value.value.ptr);
+    return ast_node_from_interpreter_value(resolver->context, &value, is_string, expr->tok);
 }
 
 static u64 const_u64_infix(Context_T* context, ASTNode_T* node)
-- 
2.43.0


From bdf1129f01529e377322b5e38920f01bdc6befad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 136/159] fix: tell implementations for arrays of different
 lengths apart

---
 src/compiler/parser/validator.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index a3bde3b..ebe1c4b 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -863,6 +863,17 @@ static void validate_data_type(Validator_T* v, ASTType_T* type)
         validate_return_type(v, unpack(type->base), type->tok);
 }
 
+static void resolve_array_sizes(Validator_T* v, ASTType_T* type)
+{
+    type = unpack(type);
+    while(type && (type->kind == TY_ARRAY || type->kind == TY_C_ARRAY || type->kind == TY_PTR))
+    {
+        if(type->kind != TY_PTR)
+            calculate_array_size(v, type);
+        type = unpack(type->base);
+    }
+}
+
 static void validate_dyn_function(Validator_T* v, ASTObj_T* obj)
 {
     ASTType_T* interface = obj->dyn_base_type;
@@ -884,6 +895,7 @@ static void validate_dyn_function(Validator_T* v, ASTObj_T* obj)
     }
 
     ASTType_T* impl_base = self_arg_type->base;
+    resolve_array_sizes(v, impl_base); // the types of implementations get compared
 
     vtable_register(v->context, v->ast, interface, impl_base, obj);
     obj->referenced = true; // referenced by vtable
-- 
2.43.0


From ac1b3d3297d7e9584dbcc14243c6feca981c7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 137/159] fix: evaluate every receiver of a dynamic call with
 effects once

---
 src/compiler/parser/validator.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index ebe1c4b..5b27a99 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1229,6 +1229,34 @@ static void iter_validate_extern_c_block(ASTNode_T* block, va_list args)
         throw_error(v->context, ERR_SYNTAX_ERROR_UNCR, block->tok, "`extern \"C\"` statements are only supported with the C backend.\nUse `--backend C` to use this backend.");
 }
 
+static bool evaluates_without_effects(ASTNode_T* expr)
+{
+    switch(expr->kind)
+    {
+        case ND_ID:
+        case ND_HOLE:
+        case ND_INT:
+        case ND_LONG:
+        case ND_ULONG:
+            return true;
+        case ND_MEMBER:
+        case ND_CAST:
+            return evaluates_without_effects(expr->left);
+        case ND_REF:
+        case ND_DEREF:
+            return evaluates_without_effects(expr->right);
+        case ND_INDEX:
+            return evaluates_without_effects(expr->left) && evaluates_without_effects(expr->expr);
+        case ND_CLOSURE:
+            for(size_t i = 0; i < expr->exprs->size; i++)
+                if(!evaluates_without_effects(expr->exprs->items[i]))
+                    return false;
+            return true;
+        default:
+            return false;
+    }
+}
+
 // The receiver of a dynamic call is used twice, for its data and for its vtable.
 // `f().method(args)` becomes `f() |> $.method($, args)`, so that `f` is only called once.
 static void evaluate_receiver_once(Validator_T* v, ASTNode_T* call)
@@ -1314,7 +1342,7 @@ static void iter_validate_call(ASTNode_T* call, va_list args)
         }
     }
 
-    if(call->args->size && call->expr->kind == ND_MEMBER && call->args->items[0] == call->expr->left && call->expr->left->kind == ND_CALL)
+    if(call->args->size && call->expr->kind == ND_MEMBER && call->args->items[0] == call->expr->left && !evaluates_without_effects(call->expr->left))
         evaluate_receiver_once(v, call);
 }
 
-- 
2.43.0


From aa3e069c3ef431e42d8f239c936cc2b0c68c8091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 138/159] fix: don't evaluate constants of programs with errors

The interpreter relies on the types being correct, and ran into its
assertions or read invalid memory when they were not.
---
 src/compiler/optimizer/constexpr.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/compiler/optimizer/constexpr.c b/src/compiler/optimizer/constexpr.c
index d602882..a49ef46 100644
--- a/src/compiler/optimizer/constexpr.c
+++ b/src/compiler/optimizer/constexpr.c
@@ -1,5 +1,6 @@
 #include "constexpr.h"
 #include "ast/ast.h"
+#include "context.h"
 #include "error/error.h"
 #include "interpreter/interpreter.h"
 #include "interpreter/value.h"
@@ -36,6 +37,16 @@ ASTNode_T* eval_constexpr(ConstexprResolver_T* resolver, ASTNode_T* expr)
 {
     if(skip_eval_constexpr(expr->kind))
         return expr;
+
+    // the evaluation relies on the types being correct
+    if(resolver->context->emitted_errors)
+    {
+        ASTNode_T* node = init_ast_node(&resolver->context->raw_allocator, ND_INT, expr->tok);
+        node->data_type = expr->data_type;
+        node->int_val = 1;
+        return node;
+    }
+
     InterpreterValue_T value = interpreter_eval_expr(resolver, expr);
     bool is_string = value.type && value.type->kind == TY_PTR && interpreter_points_to_string(resolver, value.value.ptr);
     return ast_node_from_interpreter_value(resolver->context, &value, is_string, expr->tok);
-- 
2.43.0


From 4e965c817ed0955f52369c749a485bec83e8e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:05 +0000
Subject: [PATCH 139/159] fix: free the list of [after_main] functions

With functions of both kinds, the list of [before_main] functions got
freed twice.
---
 src/compiler/parser/validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index 5b27a99..b847433 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -726,7 +726,7 @@ static void validate_after_main_fn(Validator_T* v, ASTObj_T* fn)
     if(!v->ast->after_main)
     {
         v->ast->after_main = init_list();
-        CONTEXT_ALLOC_REGISTER(v->context, v->ast->before_main);
+        CONTEXT_ALLOC_REGISTER(v->context, v->ast->after_main);
     }
 
     list_push(v->ast->after_main, fn);
-- 
2.43.0


From bdde789d1b39250ea7dde970a57272d2bf9624e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:05 +0000
Subject: [PATCH 140/159] fix: convert constants to their type when they are
 needed early

Constants that array types use may get evaluated before they were type
checked, those of other types read memory behind their value. Constants
of enum types can be used, those which cannot be evaluated get reported.
---
 src/compiler/interpreter/interpreter.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 45fd441..7f0c67b 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -314,7 +314,10 @@ static InterpreterValue_T convert_operand(InterpreterContext_T* ictx, Interprete
     if(type->kind == value.type->kind || !is_numeric((ASTType_T*) type) || !is_numeric((ASTType_T*) value.type))
         return value;
     
-    return type_cast_map[value.type->kind][type->kind](ictx, &value);
+    InterpreterValue_T result = type_cast_map[value.type->kind][type->kind](ictx, &value);
+    if(type->kind == TY_ENUM)
+        result.type = type;
+    return result;
 }
 
 // operands of different types are evaluated at the wider one, or at the left one if both are of the same size
@@ -954,6 +957,10 @@ static void push_global(InterpreterContext_T* ictx, ASTObj_T* global)
         InterpreterValue_T value = interpreter_eval_expr(ictx, global->value);
         if(!value.type)
             throw_error(ictx->context, ERR_CONSTEXPR, global->value->tok, "cannot evaluate this value at compile time");
+        value = convert_operand(ictx, value, global->data_type);
+
+        // the evaluation may have stored other globals
+        global->offset = interpreter_stack_align_to(&ictx->global_storage, global->data_type->align);
         interpreter_stack_push(&ictx->global_storage, &value.value, MIN(global->data_type->size, value.type->size));
     }
     else
@@ -1010,6 +1017,7 @@ static InterpreterValue_T load_value(LValue_T lvalue)
         case TY_I16:
             return INT_VALUE(TY_I16, i16, *(i16*) lvalue.ptr);
         case TY_I32:
+        case TY_ENUM:
             return INT_VALUE(TY_I32, i32, *(i32*) lvalue.ptr);
         case TY_I64:
             return INT_VALUE(TY_I64, i64, *(i64*) lvalue.ptr);
@@ -1038,8 +1046,7 @@ static InterpreterValue_T load_value(LValue_T lvalue)
         case TY_FN:
             return (InterpreterValue_T){.type = lvalue.type, .value = (InterpreterValueUnion_T){.fn_obj = lvalue.ptr} };
         default:
-            fprintf(stderr, "not implemented: load type %s.\n", type_kind_to_str(lvalue.type->kind));
-            unreachable();
+            return (InterpreterValue_T){0}; // cannot be evaluated at compile time
     }
 }
 
-- 
2.43.0


From 88a4a53476fb75dde8a29b7e00ed1602e5d49fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:20 +0000
Subject: [PATCH 141/159] fix: report conditions that cannot be evaluated at
 compile time

---
 src/compiler/interpreter/interpreter.c | 12 ++++++------
 src/compiler/interpreter/value.c       |  3 +++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 7f0c67b..6963e79 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -402,7 +402,7 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 eval_stmt(ictx, stmt->stmts->items[i]);
         break;
         case ND_IF:
-            if(interpreter_value_is_falsy(interpreter_eval_expr(ictx, stmt->condition)))
+            if(interpreter_value_is_falsy(eval_operand(ictx, stmt->condition)))
             {
                 if(stmt->else_branch)
                     eval_stmt(ictx, stmt->else_branch);
@@ -411,7 +411,7 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
                 eval_stmt(ictx, stmt->if_branch);
             break;
         case ND_DO_UNLESS:
-            if(interpreter_value_is_falsy(interpreter_eval_expr(ictx, stmt->condition)))
+            if(interpreter_value_is_falsy(eval_operand(ictx, stmt->condition)))
                 eval_stmt(ictx, stmt->body);
             break;
         case ND_LOOP:
@@ -425,7 +425,7 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
             break;
         case ND_WHILE:
             ictx->broken = false;
-            while(!ictx->broken && !ictx->returned && interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
+            while(!ictx->broken && !ictx->returned && interpreter_value_is_truthy(eval_operand(ictx, stmt->condition)))
             {
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
@@ -437,14 +437,14 @@ static void eval_stmt(InterpreterContext_T* ictx, ASTNode_T* stmt)
             do {
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
-            } while(!ictx->broken && !ictx->returned && interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)));
+            } while(!ictx->broken && !ictx->returned && interpreter_value_is_truthy(eval_operand(ictx, stmt->condition)));
             ictx->broken = ictx->continued = false;
             break;
         case ND_FOR:
             ictx->broken = false;
             if(stmt->init_stmt)
                 eval_stmt(ictx, stmt->init_stmt);
-            while(!stmt->condition || interpreter_value_is_truthy(interpreter_eval_expr(ictx, stmt->condition)))
+            while(!stmt->condition || interpreter_value_is_truthy(eval_operand(ictx, stmt->condition)))
             {
                 ictx->continued = false;
                 eval_stmt(ictx, stmt->body);
@@ -672,7 +672,7 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_HOLE:
             return ictx->pipe_value;    
         case ND_TERNARY:
-            if(interpreter_value_is_falsy(interpreter_eval_expr(ictx, expr->condition)))
+            if(interpreter_value_is_falsy(eval_operand(ictx, expr->condition)))
                 return interpreter_eval_expr(ictx, expr->else_branch);
             return interpreter_eval_expr(ictx, expr->if_branch);
         case ND_ELSE_EXPR:
diff --git a/src/compiler/interpreter/value.c b/src/compiler/interpreter/value.c
index 2d8be74..882f82b 100644
--- a/src/compiler/interpreter/value.c
+++ b/src/compiler/interpreter/value.c
@@ -98,6 +98,9 @@ bool interpreter_value_is_falsy(InterpreterValue_T value)
         
         case TY_PTR:
             return value.value.ptr == 0;
+
+        case TY_FN:
+            return false;
         
         default:
             assert(false);
-- 
2.43.0


From 7b99f4fb22c9a16c966afc781fac208b9fa9406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:10 +0000
Subject: [PATCH 142/159] fix: report calls in types of objects that are not
 validated yet

---
 src/compiler/parser/typechecker.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compiler/parser/typechecker.c b/src/compiler/parser/typechecker.c
index c6e5773..c387ce8 100644
--- a/src/compiler/parser/typechecker.c
+++ b/src/compiler/parser/typechecker.c
@@ -156,6 +156,9 @@ static void typecheck_call(ASTNode_T* call, va_list args)
 {
     GET_TYPECHECKER(args);
     ASTType_T* call_type = unpack(call->expr->data_type);
+    if(!call_type) // the type of an object that is not validated yet
+        throw_error(t->context, ERR_TYPE_ERROR, call->tok, "could not resolve data type of the called function");
+
     size_t expected_arg_num = call_type->arg_types->size;
 
     for(size_t i = 0; i < MIN(expected_arg_num, call->args->size); i++)
-- 
2.43.0


From 00eeaf8082fa8814015f0173a71669cd681cdffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:31 +0000
Subject: [PATCH 143/159] fix: run programs whose name has no directory

cspc run file.csp looked for file.out in $PATH.
---
 src/compiler/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/main.c b/src/compiler/main.c
index ed0d3e0..a850473 100755
--- a/src/compiler/main.c
+++ b/src/compiler/main.c
@@ -461,13 +461,17 @@ static void run(Context_T* context, char* filename)
             LOG_OK_F(COLOR_RESET "`%s`%s", context->args.argv[i], context->args.argc - i > 1 ? ", " : "]\n" COLOR_RESET);
     }
 
+    // names without a directory get searched in $PATH
+    char path[strlen(filename) + 3];
+    snprintf(path, sizeof(path), "%s%s", strpbrk(filename, DIRECTORY_DELIMS) ? "" : "." DIRECTORY_DELIMS, filename);
+
     const char* argv[context->args.argc + 2];
     argv[0] = filename;
     if(context->args.argc && context->args.argv != NULL)
         memcpy(argv + 1, context->args.argv, context->args.argc * sizeof(const char*));
     argv[context->args.argc + 1] = NULL;
 
-    context->last_exit_code = subprocess(filename, (char* const*) argv, !context->flags.silent);
+    context->last_exit_code = subprocess(path, (char* const*) argv, !context->flags.silent);
     timer_stop(context);
 }
 
-- 
2.43.0


From 40564ab801ee13e3df47e73088d958931de1a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:14 +0000
Subject: [PATCH 144/159] fix: write the object file of -c to the given path
 with the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index cd443ca..e191680 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -475,7 +475,7 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
     else
     {
         char obj_file[BUFSIZ] = {'\0'};
-        get_cached_file_path(obj_file, target, ".o");
+        sprintf(obj_file, "%s.o", target);
 
         const char* args[] = {
             cg->context->cc,
-- 
2.43.0


From 1c96cdc1f9bfb8169f17bd612c0e09a470a0399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:36 +0000
Subject: [PATCH 145/159] fix: emit infinities and NaNs the C backend gets from
 constant evaluation

---
 src/compiler/codegen/transpiler/c_codegen.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index e191680..1d0d851 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -2,6 +2,7 @@
 
 #include <ctype.h>
 #include <stddef.h>
+#include <math.h>
 #include <stdio.h>
 #include <string.h>
 #include <stdarg.h>
@@ -1621,15 +1622,26 @@ static void c_gen_ptr_op(CCodegenData_T* cg, ASTNode_T* node)
     c_print(cg, "))");
 }
 
+static void c_gen_float(CCodegenData_T* cg, f64 value, const char* suffix)
+{
+    // C has no literals for these values
+    if(isnan(value))
+        c_print(cg, "(%s(0.0%s / 0.0%s))", signbit(value) ? "-" : "", suffix, suffix);
+    else if(isinf(value))
+        c_print(cg, "(%s1.0%s / 0.0%s)", signbit(value) ? "-" : "", suffix, suffix);
+    else
+        c_print(cg, "%a%s", value, suffix);
+}
+
 static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
 {
     switch(node->kind)
     {
         case ND_FLOAT:
-            c_print(cg, "%af", node->float_val);
+            c_gen_float(cg, node->float_val, "f");
             break;
         case ND_DOUBLE:
-            c_print(cg, "%a", node->double_val);
+            c_gen_float(cg, node->double_val, "");
             break;
         case ND_INT:
             c_print(cg, "%d", node->int_val);
-- 
2.43.0


From b38f02a3fab051fa9cc0199aa65d27b4039cd4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:45 +0000
Subject: [PATCH 146/159] fix: link libraries whose functions use globals

---
 src/compiler/codegen/asm/linker.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/codegen/asm/linker.c b/src/compiler/codegen/asm/linker.c
index 3645f02..1871137 100644
--- a/src/compiler/codegen/asm/linker.c
+++ b/src/compiler/codegen/asm/linker.c
@@ -97,6 +97,7 @@ static int link_lib(Context_T* context, const char* target, char* obj_file)
     list_push(args, "-L/usr/lib");
     list_push(args, "-L/lib");
     list_push(args, "-shared");
+    list_push(args, "-Bsymbolic"); // the generated code addresses its globals and functions directly
 
     if(context->link_mode.mode == LINK_STATIC)
         list_push(args, "-static");
-- 
2.43.0


From 59a5ee13455c51d18c41b4fb401a78f6232121f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:07 +0000
Subject: [PATCH 147/159] fix: address the frame pointers of lambdas relative
 to the code, for libraries

---
 src/compiler/codegen/asm/asm_codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index d315682..7af4b00 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -2081,7 +2081,7 @@ static void asm_gen_expr(ASMCodegenData_T* cg, ASTNode_T* node)
 
         case ND_LAMBDA:
             {
-                asm_println(cg, "  mov %%rbp, " LAMBDA_STACKPTR_FMT, node->long_val);
+                asm_println(cg, "  mov %%rbp, " LAMBDA_STACKPTR_FMT "(%%rip)", node->long_val);
                 asm_println(cg, "  lea lambda.%ld(%%rip), %%rax", node->long_val);
 
                 ASTObj_T* impl = init_ast_obj(&cg->context->raw_allocator, OBJ_LAMBDA, node->tok);
@@ -2928,7 +2928,7 @@ static void asm_gen_lambda(ASMCodegenData_T* cg, ASTObj_T* lambda_obj)
     asm_println(cg, "  .type %s, @function", lambda_name);
     asm_println(cg, "%s:", lambda_name);
     asm_println(cg, "  push %%rbp");
-    asm_println(cg, "  mov " LAMBDA_STACKPTR_FMT ", %%rbp", lambda->long_val);
+    asm_println(cg, "  mov " LAMBDA_STACKPTR_FMT "(%%rip), %%rbp", lambda->long_val);
 
     // save passed-by-register arguments to the stack
     i32 gp = 0, fp = 0;
-- 
2.43.0


From 170528c8fe86a78aa186130f5a8a2f3ea71b9cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:41 +0000
Subject: [PATCH 148/159] fix: pipe and else expressions: holes after nested
 pipes, C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 40 ++++++++++++---------
 src/compiler/interpreter/interpreter.c      |  7 +++-
 src/compiler/parser/parser.c                |  4 ++-
 3 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index 1d0d851..c8d939d 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -48,7 +48,7 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts);
 static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* stmt);
 static void c_gen_type(CCodegenData_T* cg, ASTType_T* type, bool c_arr_as_ptr);
 static void c_gen_typed_name(CCodegenData_T* cg, ASTIdentifier_T* id, ASTType_T* type);
-static void c_gen_pipe_buffers(CCodegenData_T* cg);
+static void c_assign_pipe_ids(CCodegenData_T* cg);
 static void c_gen_lambdas(CCodegenData_T* cg);
 static void c_gen_typed_name_str(CCodegenData_T* cg, const char* id, ASTType_T* type);
 
@@ -375,7 +375,7 @@ void c_gen_code(CCodegenData_T* cg, const char* target)
     c_gen_function_definitions(cg, cg->ast->objs);
     c_gen_vtables(cg, cg->ast->impls);
     c_gen_globals(cg, cg->ast->objs);
-    c_gen_pipe_buffers(cg);
+    c_assign_pipe_ids(cg);
     c_gen_lambdas(cg);
     c_gen_functions(cg, cg->ast->objs);
     c_gen_entry_point(cg);
@@ -1929,9 +1929,24 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             c_putc(cg, ')');
             break;
         case ND_PIPE:
-            c_print(cg, "(" UNIQUE_ID_FMT "=(", node->long_val);
+            {
+                // every evaluation has a value of its own, since functions using pipes may be called recursively
+                char unique_name[128] = {0};
+                sprintf(unique_name, UNIQUE_ID_FMT, node->long_val);
+
+                c_print(cg, "({");
+                c_gen_typed_name_str(cg, unique_name, node->left->data_type);
+                c_print(cg, "=(");
+                c_gen_expr(cg, node->left, true);
+                c_print(cg, ");(");
+                c_gen_expr(cg, node->right, true);
+                c_print(cg, ");})");
+            }
+            break;
+        case ND_ELSE_EXPR:
+            c_print(cg, "((");
             c_gen_expr(cg, node->left, true);
-            c_print(cg, "),(");
+            c_print(cg, ")?:(");
             c_gen_expr(cg, node->right, true);
             c_print(cg, "))");
             break;
@@ -1992,27 +2007,18 @@ static void c_init_zero(CCodegenData_T* cg, ASTType_T* ty)
         unreachable();
 }
 
-static void c_gen_pipe_buffer(ASTNode_T* node, va_list custom_args)
+static void c_assign_pipe_id(ASTNode_T* node, va_list custom_args)
 {
     GET_CG(custom_args);
 
-    u64 uid = node->long_val = cg->unique_id++;
-
-    char unique_name[128] = {0};
-    sprintf(unique_name, UNIQUE_ID_FMT, uid);
-
-    c_print(cg, "static ");
-    c_gen_typed_name_str(cg, unique_name, node->left->data_type);
-    c_putc(cg, '=');
-    c_init_zero(cg, node->left->data_type);
-    c_println(cg, ";");
+    node->long_val = cg->unique_id++;
 }
 
-static void c_gen_pipe_buffers(CCodegenData_T* cg)
+static void c_assign_pipe_ids(CCodegenData_T* cg)
 {
    ASTIteratorList_T iter = {
        .node_end_fns = {
-           [ND_PIPE] = c_gen_pipe_buffer
+           [ND_PIPE] = c_assign_pipe_id
        }
    };
 
diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index 6963e79..cb68da0 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -667,8 +667,13 @@ InterpreterValue_T interpreter_eval_expr(InterpreterContext_T* ictx, ASTNode_T*
         case ND_ALIGNOF:
             return I64_VALUE(expr->the_type->align);
         case ND_PIPE:
+        {
+            InterpreterValue_T outer_value = ictx->pipe_value;
             ictx->pipe_value = eval_operand(ictx, expr->left);
-            return eval_operand(ictx, expr->right);
+            InterpreterValue_T result = eval_operand(ictx, expr->right);
+            ictx->pipe_value = outer_value;
+            return result;
+        }
         case ND_HOLE:
             return ictx->pipe_value;    
         case ND_TERNARY:
diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index e3c2650..1d1c068 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -2537,11 +2537,13 @@ static ASTNode_T* parse_pipe(Parser_T* p, ASTNode_T* left)
     parser_consume_operator(p, "|>", "expect `|>` for pipe expression");
 
     bool outer_holes_used = p->holes_used;
+    bool outer_holes_enabled = parser_holes_enabled(p);
     p->holes_used = false;
 
     parser_enable_holes(p);
     pipe->right = parse_expr(p, PREC_PIPE, TOKEN_SEMICOLON);
-    parser_disable_holes(p);
+    if(!outer_holes_enabled)
+        parser_disable_holes(p);
 
     if(!p->holes_used && pipe->right->kind == ND_CALL)
         list_insert(pipe->right->args, init_ast_node(&p->context->raw_allocator, ND_HOLE, pipe->tok), 0);
-- 
2.43.0


From 763612253e849da6219393ee9ae5fb21a25dcd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:59 +0000
Subject: [PATCH 149/159] fix: leave with statements and run deferred ones
 without losing what a function returns

---
 src/compiler/codegen/asm/asm_codegen.c | 79 ++++++++++++++++++++------
 src/compiler/codegen/asm/asm_codegen.h | 10 ++++
 2 files changed, 72 insertions(+), 17 deletions(-)

diff --git a/src/compiler/codegen/asm/asm_codegen.c b/src/compiler/codegen/asm/asm_codegen.c
index 7af4b00..81a2778 100644
--- a/src/compiler/codegen/asm/asm_codegen.c
+++ b/src/compiler/codegen/asm/asm_codegen.c
@@ -660,17 +660,56 @@ static void asm_gen_vtables(ASMCodegenData_T* cg)
     }
 }
 
+// save the value a function is about to return
+static void asm_push_result(ASMCodegenData_T* cg)
+{
+    asm_println(cg, "  sub $32, %%rsp");
+    asm_println(cg, "  mov %%rax, (%%rsp)");
+    asm_println(cg, "  mov %%rdx, 8(%%rsp)");
+    asm_println(cg, "  movsd %%xmm0, 16(%%rsp)");
+    asm_println(cg, "  movsd %%xmm1, 24(%%rsp)");
+    cg->depth += 4;
+}
+
+static void asm_pop_result(ASMCodegenData_T* cg)
+{
+    asm_println(cg, "  mov (%%rsp), %%rax");
+    asm_println(cg, "  mov 8(%%rsp), %%rdx");
+    asm_println(cg, "  movsd 16(%%rsp), %%xmm0");
+    asm_println(cg, "  movsd 24(%%rsp), %%xmm1");
+    asm_println(cg, "  add $32, %%rsp");
+    cg->depth -= 4;
+}
+
 static void asm_gen_defer(ASMCodegenData_T* cg, List_T* deferred) 
 {
     if(!deferred || deferred->size == 0)
         return;
     
-    asm_push(cg);
+    asm_push_result(cg);
     for(size_t i = 0; i < deferred->size; i++)
     {
         asm_gen_stmt(cg, deferred->items[i]);
     }
-    asm_pop(cg, "%rax");
+    asm_pop_result(cg);
+}
+
+static void asm_gen_with_exit(ASMCodegenData_T* cg, ASTNode_T* with)
+{
+    asm_gen_expr(cg, &(ASTNode_T) {
+        .kind = ND_CALL,
+        .data_type = (ASTType_T*) primitives[TY_VOID],
+        .referenced_obj = with->exit_fn,
+        .expr = &(ASTNode_T) {
+            .kind = ND_ID,
+            .referenced_obj = with->exit_fn,
+            .id = with->exit_fn->id
+        },
+        .args = &(List_T) {
+            .size = 1,
+            .items = (void**) &with->condition->left
+        }
+    });
 }
 
 static void asm_gen_function_signature(ASMCodegenData_T* cg, const char* fn_name)
@@ -2575,24 +2614,18 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             asm_gen_expr(cg, id);
             asm_cmp_zero(cg, node->condition->data_type);
             asm_println(cg, "  je .L.else.%lu", c);
+            ASMWith_T with = {
+                .node = node,
+                .brk_id = cg->cur_brk_id,
+                .cnt_id = cg->cur_cnt_id,
+                .outer = cg->cur_with
+            };
+            cg->cur_with = &with;
             asm_gen_stmt(cg, node->if_branch);
+            cg->cur_with = with.outer;
 
             // generate the exit function
-            asm_gen_expr(cg, &(ASTNode_T) {
-                .kind = ND_CALL,
-                .data_type = (ASTType_T*) primitives[TY_VOID],
-                .referenced_obj = node->exit_fn,
-                .expr = &(ASTNode_T) {
-                    .kind = ND_ID,
-                    .referenced_obj = node->exit_fn,
-                    .id = node->exit_fn->id
-                },
-                .args = &(List_T) {
-                    .size = 1,
-                    .items = (void**) &id
-                }
-            });
-            
+            asm_gen_with_exit(cg, node);
             asm_println(cg, "  jmp .L.end.%lu", c);
             asm_println(cg, ".L.else.%lu:", c);
             if(node->else_branch)
@@ -2832,6 +2865,14 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
                 }
             }
 
+            if(cg->cur_with)
+            {
+                asm_push_result(cg);
+                for(ASMWith_T* with = cg->cur_with; with; with = with->outer)
+                    asm_gen_with_exit(cg, with->node);
+                asm_pop_result(cg);
+            }
+
             // lambdas don't have a stack frame of their own, so that values which are still pushed have to be removed here
             if(cg->current_fn->kind == OBJ_LAMBDA && cg->depth > 0)
                 asm_println(cg, "  add $%d, %%rsp", cg->depth * 8);
@@ -2844,10 +2885,14 @@ static void asm_gen_stmt(ASMCodegenData_T* cg, ASTNode_T* node)
             return;
         
         case ND_CONTINUE:
+            for(ASMWith_T* with = cg->cur_with; with && with->cnt_id == cg->cur_cnt_id; with = with->outer)
+                asm_gen_with_exit(cg, with->node);
             asm_println(cg, "  jmp .L.continue.%lu", cg->cur_cnt_id);
             return;
 
         case ND_BREAK:
+            for(ASMWith_T* with = cg->cur_with; with && with->brk_id == cg->cur_brk_id; with = with->outer)
+                asm_gen_with_exit(cg, with->node);
             asm_println(cg, "  jmp .L.break.%lu", cg->cur_brk_id);
             return;
         
diff --git a/src/compiler/codegen/asm/asm_codegen.h b/src/compiler/codegen/asm/asm_codegen.h
index 48bf6fb..63e7041 100644
--- a/src/compiler/codegen/asm/asm_codegen.h
+++ b/src/compiler/codegen/asm/asm_codegen.h
@@ -6,6 +6,15 @@
 #include "ast/ast.h"
 #include "config.h"
 
+// a `with` statement whose body is being generated
+typedef struct ASM_WITH_STRUCT
+{
+    ASTNode_T* node;
+    u64 brk_id; // the statements `break;` and `continue;` belong to outside of it
+    u64 cnt_id;
+    struct ASM_WITH_STRUCT* outer;
+} ASMWith_T;
+
 typedef struct ASM_CODEGEN_DATA_STRUCT
 {
     Context_T* context;
@@ -29,6 +38,7 @@ typedef struct ASM_CODEGEN_DATA_STRUCT
     u64 cur_count;  // current label id
     u64 cur_brk_id; // current statement id, which supports break; statements
     u64 cur_cnt_id; // current statement id, which supports continue; statements
+    ASMWith_T* cur_with; // current `with` statement
 } ASMCodegenData_T;
 
 i32 asm_codegen_pass(Context_T* context, ASTProg_T* ast);
-- 
2.43.0


From 97899d01f680f6bbf6cecc3d0593b72e542e3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:56 +0000
Subject: [PATCH 150/159] fix: with and defer statements of the C backend

---
 src/compiler/codegen/transpiler/c_codegen.c | 181 +++++++++++++++++---
 src/compiler/codegen/transpiler/c_codegen.h |  13 ++
 2 files changed, 167 insertions(+), 27 deletions(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index c8d939d..c803884 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -51,6 +51,8 @@ static void c_gen_typed_name(CCodegenData_T* cg, ASTIdentifier_T* id, ASTType_T*
 static void c_assign_pipe_ids(CCodegenData_T* cg);
 static void c_gen_lambdas(CCodegenData_T* cg);
 static void c_gen_typed_name_str(CCodegenData_T* cg, const char* id, ASTType_T* type);
+static void c_gen_stmt_of_kind(CCodegenData_T* cg, ASTNode_T* node);
+static void c_gen_body(CCodegenData_T* cg, ASTNode_T* body);
 
 static const char* reg_names[C_NUM_REGISTERS] = {
     "%rax", "%rbx", "%rcx", "%rdx",
@@ -1276,7 +1278,7 @@ static void c_gen_lambda(ASTNode_T* node, va_list custom_args)
     ASTNode_T* outer_lambda = cg->current_lambda;
     cg->current_lambda = node;
     cg->in_function = true;
-    c_gen_stmt(cg, node->body);
+    c_gen_body(cg, node->body);
     cg->in_function = false;
     cg->current_lambda = outer_lambda;
 
@@ -1315,12 +1317,12 @@ static void c_gen_function(CCodegenData_T* cg, ASTObj_T* fn)
 
         c_println(cg, "va_list %s;\nva_start(%s, %s);", ap_id, ap_id, param_id);
 
-        c_gen_stmt(cg, fn->body);
+        c_gen_body(cg, fn->body);
 
         c_println(cg, "va_end(%s);", ap_id);
     }
     else
-        c_gen_stmt(cg, fn->body);
+        c_gen_body(cg, fn->body);
     
     cg->in_function = false;
     c_println(cg, "}");
@@ -2036,7 +2038,135 @@ static void c_gen_local(CCodegenData_T* cg, ASTObj_T* var)
     c_println(cg, ";");
 }
 
+static void c_gen_with_exit(CCodegenData_T* cg, ASTNode_T* with)
+{
+    c_gen_expr(cg, &(ASTNode_T) {
+        .kind = ND_CALL,
+        .tok = with->tok,
+        .data_type = (ASTType_T*) primitives[TY_VOID],
+        .referenced_obj = with->exit_fn,
+        .expr = &(ASTNode_T) {
+            .kind = ND_ID,
+            .tok = with->tok,
+            .data_type = with->exit_fn->data_type,
+            .referenced_obj = with->exit_fn,
+            .id = with->exit_fn->id
+        },
+        .args = &(List_T) {
+            .size = 1,
+            .items = (void**) &with->condition->left
+        }
+    }, true);
+    c_println(cg, ";");
+}
+
+static void c_gen_block(CCodegenData_T* cg, ASTNode_T* block)
+{
+    for(size_t i = 0; i < block->locals->size; i++)
+        c_gen_local(cg, block->locals->items[i]);
+
+    for(size_t i = 0; i < block->stmts->size; i++)
+        c_gen_stmt(cg, block->stmts->items[i]);
+}
+
+static void c_gen_deferred(CCodegenData_T* cg)
+{
+    // they don't belong to the statements around the current one
+    CWith_T* with = cg->current_with;
+    cg->current_with = NULL;
+    for(size_t i = 0; i < cg->deferred->size; i++)
+        c_gen_stmt(cg, cg->deferred->items[i]);
+    cg->current_with = with;
+}
+
+static void c_gen_body(CCodegenData_T* cg, ASTNode_T* body)
+{
+    List_T* outer_deferred = cg->deferred;
+    cg->deferred = init_list();
+
+    if(body->kind == ND_BLOCK)
+    {
+        // deferred statements may use the locals of the body
+        c_println(cg, "{");
+        c_gen_block(cg, body);
+        c_gen_deferred(cg);
+        c_println(cg, "}");
+    }
+    else
+    {
+        c_gen_stmt(cg, body);
+        c_gen_deferred(cg);
+    }
+
+    free_list(cg->deferred);
+    cg->deferred = outer_deferred;
+}
+
+static void c_gen_return(CCodegenData_T* cg, ASTNode_T* node)
+{
+    bool has_value = node->return_val && unpack(node->return_val->data_type)->kind != TY_VOID;
+    if(!cg->current_with && cg->deferred->size == 0)
+    {
+        if(node->return_val)
+        {
+            if(has_value)
+                c_print(cg, "return ");
+            c_gen_expr(cg, node->return_val, true);
+            c_println(cg, ";");
+        }
+        else
+            c_println(cg, "return;");
+        return;
+    }
+
+    // leave all `with` statements and run the deferred statements after evaluating the value
+    u64 uid = cg->unique_id++;
+    c_putc(cg, '{');
+    if(node->return_val)
+    {
+        if(has_value)
+            c_print(cg, "__auto_type " UNIQUE_ID_FMT "=", uid);
+        c_gen_expr(cg, node->return_val, true);
+        c_println(cg, ";");
+    }
+
+    for(CWith_T* with = cg->current_with; with; with = with->outer)
+        c_gen_with_exit(cg, with->node);
+    c_gen_deferred(cg);
+
+    if(has_value)
+        c_println(cg, "return " UNIQUE_ID_FMT ";}", uid);
+    else
+        c_println(cg, "return;}");
+}
+
 static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
+{
+    u64 brk_id = cg->cur_brk_id, cnt_id = cg->cur_cnt_id;
+
+    switch(node->kind)
+    {
+    case ND_WHILE:
+    case ND_DO_WHILE:
+    case ND_LOOP:
+    case ND_FOR:
+    case ND_FOR_RANGE:
+        cg->cur_brk_id = cg->cur_cnt_id = cg->unique_id++;
+        break;
+    case ND_MATCH:
+        cg->cur_brk_id = cg->unique_id++;
+        break;
+    default:
+        break;
+    }
+
+    c_gen_stmt_of_kind(cg, node);
+
+    cg->cur_brk_id = brk_id;
+    cg->cur_cnt_id = cnt_id;
+}
+
+static void c_gen_stmt_of_kind(CCodegenData_T* cg, ASTNode_T* node)
 {
     switch(node->kind)
     {
@@ -2045,23 +2175,14 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         break;
 
     case ND_BLOCK:
-    {
         c_println(cg, "{");
-
-        for(size_t i = 0; i < node->locals->size; i++)
-        {
-            ASTObj_T* local = node->locals->items[i];
-            c_gen_local(cg, local);
-        }
-
-        for(size_t i = 0; i < node->stmts->size; i++)
-        {
-            ASTNode_T* stmt = node->stmts->items[i];
-            c_gen_stmt(cg, stmt);
-        }
-
+        c_gen_block(cg, node);
         c_println(cg, "}");
-    } break;
+        break;
+
+    case ND_DEFER:
+        list_push(cg->deferred, node->body);
+        break;
 
     case ND_IF:
         c_print(cg, "if(");
@@ -2112,23 +2233,19 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         break;
 
     case ND_BREAK:
+        for(CWith_T* with = cg->current_with; with && with->brk_id == cg->cur_brk_id; with = with->outer)
+            c_gen_with_exit(cg, with->node);
         c_println(cg, "break;");
         break;
 
     case ND_CONTINUE:
+        for(CWith_T* with = cg->current_with; with && with->cnt_id == cg->cur_cnt_id; with = with->outer)
+            c_gen_with_exit(cg, with->node);
         c_println(cg, "continue;");
         break;
     
     case ND_RETURN:
-        if(node->return_val) 
-        {
-            if(unpack(node->return_val->data_type)->kind != TY_VOID)
-                c_print(cg, "return ");
-            c_gen_expr(cg, node->return_val, true);
-            c_println(cg, ";");
-        }
-        else
-            c_println(cg, "return;");
+        c_gen_return(cg, node);
         break;
     
     case ND_USING:
@@ -2233,7 +2350,17 @@ static void c_gen_stmt(CCodegenData_T* cg, ASTNode_T* node)
         c_print(cg, ";\nif((");
         c_gen_expr(cg, node->condition->left, true);
         c_println(cg, ") != 0){");
+
+        CWith_T with = {
+            .node = node,
+            .brk_id = cg->cur_brk_id,
+            .cnt_id = cg->cur_cnt_id,
+            .outer = cg->current_with
+        };
+        cg->current_with = &with;
         c_gen_stmt(cg, node->if_branch);
+        cg->current_with = with.outer;
+        c_gen_with_exit(cg, node);
         
         if(node->else_branch)
         {
diff --git a/src/compiler/codegen/transpiler/c_codegen.h b/src/compiler/codegen/transpiler/c_codegen.h
index 9c5689b..2e6e9fe 100644
--- a/src/compiler/codegen/transpiler/c_codegen.h
+++ b/src/compiler/codegen/transpiler/c_codegen.h
@@ -18,6 +18,15 @@ typedef struct C_UNNAMED_TYPE_STRUCT
     char name[32];
 } CUnnamedType_T;
 
+// a `with` statement whose body is being generated
+typedef struct C_WITH_STRUCT
+{
+    ASTNode_T* node;
+    u64 brk_id; // the statements `break;` and `continue;` belong to outside of it
+    u64 cnt_id;
+    struct C_WITH_STRUCT* outer;
+} CWith_T;
+
 typedef struct C_CODEGEN_DATA_STRUCT
 {
     Context_T* context;
@@ -36,6 +45,10 @@ typedef struct C_CODEGEN_DATA_STRUCT
     HashMap_T* adapters;      // function types by key, of functions called as lambdas
     List_T* adapter_list;
     bool in_function;
+    CWith_T* current_with;
+    List_T* deferred;         // statements deferred to the end of the current function
+    u64 cur_brk_id; // current statement id, which supports break; statements
+    u64 cur_cnt_id; // current statement id, which supports continue; statements
 
     char* buf;
     size_t buf_len;
-- 
2.43.0


From 9921e2f45cdf101dcf8a1b817e9bf1e89c380056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:23 +0000
Subject: [PATCH 151/159] fix: bind holes to the pipe they are written in

---
 src/compiler/parser/parser.c    | 40 ++++++++++++++-------------------
 src/compiler/parser/validator.c | 28 +++++------------------
 src/compiler/parser/validator.h |  2 --
 3 files changed, 23 insertions(+), 47 deletions(-)

diff --git a/src/compiler/parser/parser.c b/src/compiler/parser/parser.c
index 1d1c068..aa949d4 100644
--- a/src/compiler/parser/parser.c
+++ b/src/compiler/parser/parser.c
@@ -42,7 +42,7 @@ typedef struct PARSER_STRUCT
 
     CParser_T c_header_parser;
 
-    bool holes_enabled;
+    ASTNode_T* current_pipe; // the pipe expression holes refer to
     bool holes_used;
 
     // number of loops (and match statements) around the current statement, for checking `continue` and `break`
@@ -430,21 +430,6 @@ static Token_T* parser_consume_operator(Parser_T* p, const char* op, const char*
     return parser_advance(p);
 }
 
-static inline void parser_enable_holes(Parser_T* p)
-{
-    p->holes_enabled = true;
-}
-
-static inline void parser_disable_holes(Parser_T* p)
-{
-    p->holes_enabled = false;
-}
-
-static inline bool parser_holes_enabled(Parser_T* p)
-{
-    return p->holes_enabled;
-}
-
 static inline bool is_executable(ASTNode_T* n)
 {
     if(n->kind == ND_CLOSURE)
@@ -1398,10 +1383,13 @@ static ASTNode_T* parse_lambda_body(Parser_T* p)
 {
     size_t loop_depth = p->loop_depth;
     size_t break_depth = p->break_depth;
+    ASTNode_T* current_pipe = p->current_pipe;
     p->loop_depth = p->break_depth = 0;
+    p->current_pipe = NULL;
     ASTNode_T* body = parse_stmt(p, false);
     p->loop_depth = loop_depth;
     p->break_depth = break_depth;
+    p->current_pipe = current_pipe;
     return body;
 }
 
@@ -2529,6 +2517,13 @@ static ASTNode_T* parse_index(Parser_T* p, ASTNode_T* left)
     return index;
 }
 
+static ASTNode_T* init_hole(Parser_T* p, Token_T* tok)
+{
+    ASTNode_T* hole = init_ast_node(&p->context->raw_allocator, ND_HOLE, tok);
+    hole->expr = p->current_pipe;
+    return hole;
+}
+
 static ASTNode_T* parse_pipe(Parser_T* p, ASTNode_T* left)
 {
     ASTNode_T* pipe = init_ast_node(&p->context->raw_allocator, ND_PIPE, p->tok);
@@ -2537,18 +2532,17 @@ static ASTNode_T* parse_pipe(Parser_T* p, ASTNode_T* left)
     parser_consume_operator(p, "|>", "expect `|>` for pipe expression");
 
     bool outer_holes_used = p->holes_used;
-    bool outer_holes_enabled = parser_holes_enabled(p);
+    ASTNode_T* outer_pipe = p->current_pipe;
     p->holes_used = false;
+    p->current_pipe = pipe;
 
-    parser_enable_holes(p);
     pipe->right = parse_expr(p, PREC_PIPE, TOKEN_SEMICOLON);
-    if(!outer_holes_enabled)
-        parser_disable_holes(p);
 
     if(!p->holes_used && pipe->right->kind == ND_CALL)
-        list_insert(pipe->right->args, init_ast_node(&p->context->raw_allocator, ND_HOLE, pipe->tok), 0);
+        list_insert(pipe->right->args, init_hole(p, pipe->tok), 0);
 
     p->holes_used = outer_holes_used;
+    p->current_pipe = outer_pipe;
 
     return pipe;
 }
@@ -2556,11 +2550,11 @@ static ASTNode_T* parse_pipe(Parser_T* p, ASTNode_T* left)
 static ASTNode_T* parse_hole(Parser_T* p)
 {
     Token_T* tok = p->tok;
-    if(!parser_holes_enabled(p))
+    if(!p->current_pipe)
         throw_error(p->context, ERR_SYNTAX_ERROR, tok, "cannot have `$` here, only use `$` in pipe expressions");
     parser_consume(p, TOKEN_DOLLAR, "expect `$`");
     p->holes_used = true;
-    return init_ast_node(&p->context->raw_allocator, ND_HOLE, tok);
+    return init_hole(p, tok);
 }
 
 static ASTNode_T* parse_const_expr(Parser_T* p)
diff --git a/src/compiler/parser/validator.c b/src/compiler/parser/validator.c
index b847433..568a52b 100644
--- a/src/compiler/parser/validator.c
+++ b/src/compiler/parser/validator.c
@@ -1886,39 +1886,24 @@ static void iter_validate_len(ASTNode_T* len, va_list args)
     }
 }
 
-static void iter_enter_pipe(ASTNode_T* pipe, va_list args)
-{
-    GET_VALIDATOR(args);
-
-    pipe->expr = v->current_pipe;
-    v->current_pipe = pipe;
-}
-
 static void iter_leave_pipe(ASTNode_T* pipe, va_list args)
 {
     GET_VALIDATOR(args);
     pipe->data_type = pipe->right->data_type;
 
-    if(pipe->right->kind == ND_HOLE)
-    {
+    if(pipe->right->kind == ND_HOLE && pipe->right->expr == pipe)
         throw_error(v->context, ERR_SYNTAX_WARNING, pipe->tok, "unnecessary `|>` expression");
-        *pipe = *pipe->left;
-    }
-
-    v->current_pipe = pipe->expr;
 }
 
 static void iter_validate_hole(ASTNode_T* hole, va_list args)
 {
     GET_VALIDATOR(args);
-    if(!v->current_pipe)
-        throw_error(v->context, ERR_SYNTAX_ERROR, hole->tok, "hole expression not in pipe");
-    
-    if(!v->current_pipe->left->data_type)
+    ASTNode_T* pipe = hole->expr;
+
+    if(!pipe->left->data_type)
         throw_error(v->context, ERR_TYPE_ERROR_UNCR, hole->tok, "cannot resolve data type of pipe input expression");
-    hole->data_type = v->current_pipe->left->data_type;
-    hole->referenced_obj = v->current_pipe->left->referenced_obj;
-    hole->expr = v->current_pipe;
+    hole->data_type = pipe->left->data_type;
+    hole->referenced_obj = pipe->left->referenced_obj;
 }
 
 static void iter_enter_lambda(ASTNode_T* lambda, va_list args)
@@ -2133,7 +2118,6 @@ static const ASTIteratorList_T validation_iterator = {
     .node_start_fns = {
         [ND_BLOCK] = iter_enter_block,
         [ND_ASSIGN] = iter_enter_assignment,
-        [ND_PIPE] = iter_enter_pipe,
         [ND_LAMBDA] = iter_enter_lambda,
     },
     .node_end_fns = {
diff --git a/src/compiler/parser/validator.h b/src/compiler/parser/validator.h
index cfb14e7..512ba98 100644
--- a/src/compiler/parser/validator.h
+++ b/src/compiler/parser/validator.h
@@ -36,8 +36,6 @@ typedef struct VALIDATOR_STRUCT
     bool need_exact_type_infos;
     List_T* exact_type_info_stack;
         
-    ASTNode_T* current_pipe;
-
     u32 scope_depth;  // depth of the current scope
 } Validator_T;
 
-- 
2.43.0


From de5f553479a5873460357d94be69e7264f7f3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:56 +0000
Subject: [PATCH 152/159] fix: report names which are no values in constant
 expressions

---
 src/compiler/interpreter/interpreter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/interpreter/interpreter.c b/src/compiler/interpreter/interpreter.c
index cb68da0..2e9a603 100644
--- a/src/compiler/interpreter/interpreter.c
+++ b/src/compiler/interpreter/interpreter.c
@@ -1009,7 +1009,7 @@ static LValue_T lvalue_from_id(InterpreterContext_T* ictx, ASTObj_T* obj, ASTTyp
             };
         }
         default:
-            fprintf(stderr, "not implemented: load %s.\n", obj_kind_to_str(obj->kind));
+            throw_error(ictx->context, ERR_TYPE_ERROR, tok, "identifier `%s` is of kind %s, expect variable or function name", obj->id->callee, obj_kind_to_str(obj->kind));
             unreachable();
     }
 }
-- 
2.43.0


From 4e63114d867e85d892c4489ebdef65cae68e644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:45 +0000
Subject: [PATCH 153/159] fix: visit the default case of a match once, nested
 matches took exponential time

---
 src/compiler/ast/ast_iterator.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/compiler/ast/ast_iterator.c b/src/compiler/ast/ast_iterator.c
index 396a58e..1eac74c 100644
--- a/src/compiler/ast/ast_iterator.c
+++ b/src/compiler/ast/ast_iterator.c
@@ -320,13 +320,20 @@ static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list cus
             break;
         
         case ND_MATCH_TYPE:
+        {
             ast_type(list, node->data_type, custom_args);
-            ast_node(list, node->body, custom_args);
+            // `body` and `default_case` are the same; it becomes the body of the case that matches
+            bool is_case_body = false;
             for(size_t i = 0; i < node->cases->size; i++)
-                ast_node(list, node->cases->items[i], custom_args);
-            ast_node(list, node->default_case, custom_args);
-            ast_node(list, node->body, custom_args);
+            {
+                ASTNode_T* case_stmt = node->cases->items[i];
+                is_case_body |= case_stmt->body == node->body;
+                ast_node(list, case_stmt, custom_args);
+            }
+            if(!is_case_body)
+                ast_node(list, node->body, custom_args);
             break;
+        }
 
         case ND_LOOP:
             ast_node(list, node->body, custom_args);
@@ -352,10 +359,8 @@ static void ast_node(const ASTIteratorList_T* list, ASTNode_T* node, va_list cus
 
         case ND_MATCH:
             ast_node(list, node->condition, custom_args);
-            ast_node(list, node->body, custom_args);
             for(size_t i = 0; i < node->cases->size; i++)
                 ast_node(list, node->cases->items[i], custom_args);
-            ast_node(list, node->body, custom_args);
             ast_node(list, node->default_case, custom_args);
             break;
 
-- 
2.43.0


From cca92178a6f17c5b1e59d1c8d39929cce344a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 154/159] fix: csp-lint ends at an unrecoverable error instead
 of jumping through an unset buffer

---
 src/linter/linter.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/linter/linter.c b/src/linter/linter.c
index ffab7f3..4d9c9cb 100644
--- a/src/linter/linter.c
+++ b/src/linter/linter.c
@@ -1,5 +1,6 @@
 #include "linter.h"
 
+#include <error/panic.h>
 #include <passes.h>
 
 i32 lint(Context_T* context, char* src_file, char* std_path)
@@ -10,12 +11,25 @@ i32 lint(Context_T* context, char* src_file, char* std_path)
     context->paths.std_path = std_path;
     context->paths.target = "/dev/null";
 
-    initialization_pass(context, &ast);
-    lexer_pass(context, &ast);
-    preprocessor_pass(context, &ast);
-    parser_pass(context, &ast);
-    validator_pass(context, &ast);
-    cleanup_pass(context, &ast);
+    i32 (*const passes[])(Context_T*, ASTProg_T*) = {
+        initialization_pass,
+        lexer_pass,
+        preprocessor_pass,
+        parser_pass,
+        validator_pass
+    };
+
+    try(context->main_error_exception)
+    {
+        for(size_t i = 0; i < LEN(passes); i++)
+            if(passes[i](context, &ast) || context->emitted_errors)
+                panic(context);
+
+        cleanup_pass(context, &ast);
+    }
+    catch {
+        // the errors got reported already
+    }
 
     return context->emitted_errors != 0 || context->emitted_warnings != 0;
 }
-- 
2.43.0


From beb084f541381908e1dc29fe95b73ceb5c39cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:27 +0000
Subject: [PATCH 155/159] fix: csp-lint stops after the first failing pass in
 live mode and names no object without an identifier

---
 src/linter/error.c  |  2 +-
 src/linter/linter.c | 27 ++++++++++++++++-----------
 src/linter/linter.h |  2 ++
 src/linter/live.c   |  9 ++-------
 4 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/linter/error.c b/src/linter/error.c
index 3543680..2754124 100644
--- a/src/linter/error.c
+++ b/src/linter/error.c
@@ -14,7 +14,7 @@ void linter_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, cons
 
     fprintf(OUTPUT_FILE, "%s: %u\nfile: %s\nline: %u\ncol: %u\n", is_error ? "error" : "warning", is_error ? context->emitted_errors : context->emitted_warnings, source_file_path, tok->line + 1, tok->pos + 1);
     
-    if(context->current_obj && *context->current_obj) 
+    if(context->current_obj && *context->current_obj && (*context->current_obj)->id) 
     {
         char buf[BUFSIZ] = {};
         fprintf(OUTPUT_FILE,
diff --git a/src/linter/linter.c b/src/linter/linter.c
index 4d9c9cb..280e708 100644
--- a/src/linter/linter.c
+++ b/src/linter/linter.c
@@ -3,14 +3,9 @@
 #include <error/panic.h>
 #include <passes.h>
 
-i32 lint(Context_T* context, char* src_file, char* std_path)
+// runs the passes up to the first one reporting errors
+void lint_passes(Context_T* context, ASTProg_T* ast)
 {
-    ASTProg_T ast = {0};
-    context->flags.read_main_file_on_init = true;
-    context->paths.main_src_file = src_file;
-    context->paths.std_path = std_path;
-    context->paths.target = "/dev/null";
-
     i32 (*const passes[])(Context_T*, ASTProg_T*) = {
         initialization_pass,
         lexer_pass,
@@ -19,12 +14,22 @@ i32 lint(Context_T* context, char* src_file, char* std_path)
         validator_pass
     };
 
+    for(size_t i = 0; i < LEN(passes); i++)
+        if(passes[i](context, ast) || context->emitted_errors)
+            panic(context);
+}
+
+i32 lint(Context_T* context, char* src_file, char* std_path)
+{
+    ASTProg_T ast = {0};
+    context->flags.read_main_file_on_init = true;
+    context->paths.main_src_file = src_file;
+    context->paths.std_path = std_path;
+    context->paths.target = "/dev/null";
+
     try(context->main_error_exception)
     {
-        for(size_t i = 0; i < LEN(passes); i++)
-            if(passes[i](context, &ast) || context->emitted_errors)
-                panic(context);
-
+        lint_passes(context, &ast);
         cleanup_pass(context, &ast);
     }
     catch {
diff --git a/src/linter/linter.h b/src/linter/linter.h
index 546974f..68c69d4 100644
--- a/src/linter/linter.h
+++ b/src/linter/linter.h
@@ -3,7 +3,9 @@
 
 #include <util.h>
 #include "context.h"
+#include "ast/ast.h"
 
+void lint_passes(Context_T* context, ASTProg_T* ast);
 i32 lint(Context_T* context, char* src_file, char* std_path);
 
 #endif
\ No newline at end of file
diff --git a/src/linter/live.c b/src/linter/live.c
index 9260a2c..650e389 100644
--- a/src/linter/live.c
+++ b/src/linter/live.c
@@ -3,6 +3,7 @@
 #include "config.h"
 #include "context.h"
 #include "error.h"
+#include "linter.h"
 #include "error/panic.h"
 
 #include <list.h>
@@ -72,13 +73,7 @@ void lint_watched(Context_T* context, const char* filepath, const char* std_path
 
     try(context->main_error_exception)
     {
-        initialization_pass(context, &AST);
-        lexer_pass(context, &AST);
-        preprocessor_pass(context, &AST);
-        parser_pass(context, &AST);
-        validator_pass(context, &AST);
-        if(context->emitted_errors)
-            panic(context);
+        lint_passes(context, &AST);
     }
     catch {
         get_panic_handler()(context);
-- 
2.43.0


From dfbf358ab6a433e8adf1152c0caefa793f2dae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:27 +0000
Subject: [PATCH 156/159] fix: do not trim the source line of a diagnostic in
 place

---
 src/compiler/error/default.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/error/default.c b/src/compiler/error/default.c
index b2df6ab..ec3bdea 100644
--- a/src/compiler/error/default.c
+++ b/src/compiler/error/default.c
@@ -6,6 +6,7 @@
 #include "util.h"
 
 #include <stddef.h>
+#include <stdlib.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -46,8 +47,9 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
     const char err_tmp3[] = "-here" COLOR_RESET "\n";        // the end of the error message
 
     char* raw_src_line = get_line(tok->source, tok->line);
-    char* src_line = trim(raw_src_line);
-    ptrdiff_t trim_offset = src_line - raw_src_line;
+    char* line_copy = strdup(raw_src_line); // the lexer may not be done with this line
+    char* src_line = trim(line_copy);
+    ptrdiff_t trim_offset = src_line - line_copy;
 
     char* source_file_path = tok->source->short_path ? tok->source->short_path : (char*) tok->source->path;
 
@@ -65,6 +67,7 @@ void default_error_handler(Context_T* context, ErrorType_T ty, Token_T* tok, con
     for(u32 i = 0; i + 1 < strlen(tok->value); i++)
         putc('~', ERR_OUTPUT_STREAM);
     fprintf(ERR_OUTPUT_STREAM, err_tmp3);
+    free(line_copy);
 }
 
 void default_panic_handler(Context_T* context) 
-- 
2.43.0


From cdcdd83705f29f9d750c1d61f2796434b8ab0dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:37 +0000
Subject: [PATCH 157/159] fix: do not store macro arguments past the limit that
 was just reported

---
 src/compiler/preprocessor/preprocessor.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/preprocessor/preprocessor.c b/src/compiler/preprocessor/preprocessor.c
index af809b9..e6bf519 100644
--- a/src/compiler/preprocessor/preprocessor.c
+++ b/src/compiler/preprocessor/preprocessor.c
@@ -270,8 +270,8 @@ static Macro_T* parse_macro_def(Preprocessor_T* pp, size_t* i)
                 throw_error(pp->context, ERR_REDEFINITION, next, "duplicate macro argument `%s`", next->value);
             if(macro->argc >= __CSP_MAX_FN_NUM_ARGS)
                 throw_error(pp->context, ERR_MISC, next, "too many macro arguments, maximal argument count is `%d`", __CSP_MAX_FN_NUM_ARGS);
-
-            macro->args[macro->argc++] = next;
+            else
+                macro->args[macro->argc++] = next;
 
             next = pp->tokens->items[(*i)++];
             if(next->type == TOKEN_RPAREN)
-- 
2.43.0


From fb216fec23f2c7ac56634cf7fbfc2073e3fe52e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:39 +0000
Subject: [PATCH 158/159] fix: keep the text of long types within its buffer

---
 src/compiler/ast/ast.c | 60 +++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/compiler/ast/ast.c b/src/compiler/ast/ast.c
index 44037d3..e871bf1 100644
--- a/src/compiler/ast/ast.c
+++ b/src/compiler/ast/ast.c
@@ -174,48 +174,60 @@ const char* type_kind_to_str(ASTTypeKind_T kind)
     }
 }
 
+// appends as much of `str` as fits into the `size` bytes of `dest`
+static void append_str(char* dest, const char* str, size_t size)
+{
+    size_t len = strlen(dest);
+    if(len + 1 < size)
+        strncat(dest, str, size - len - 1);
+}
+
 char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_t size)
 {
     if(size - strlen(dest) < 32) // if not enough memory is left, return
     {
-        strcat(dest, "...");
+        append_str(dest, "...", size);
         return dest;
     }
 
     if(ty->is_constant)
-        strcat(dest, "const ");
+        append_str(dest, "const ", size);
 
     switch(ty->kind)
     {
         case TY_I8...TY_CHAR:
-            strcat(dest, type_kind_to_str(ty->kind));
+            append_str(dest, type_kind_to_str(ty->kind), size);
             break;
         case TY_PTR:
-            strcat(dest, "&");
+            append_str(dest, "&", size);
             ast_type_to_str(context, dest, ty->base, size);
             break;
         case TY_C_ARRAY:
             ast_type_to_str(context, dest, ty->base, size);
-            strcat(dest, " 'c[");
+            append_str(dest, " 'c[", size);
             
             {
                 char buf[128] = {'\0'};
                 sprintf(buf, "%lu", const_u64(context, ty->num_indices_node));
-                strcat(dest, buf);
+                append_str(dest, buf, size);
             }            
             
-            strcat(dest, "]");
+            append_str(dest, "]", size);
             break;
         case TY_ARRAY:
             ast_type_to_str(context, dest, ty->base, size);            
-            sprintf(dest + strlen(dest), "[%lu]", ty->num_indices);
+            {
+                char buf[128] = {'\0'};
+                sprintf(buf, "[%lu]", ty->num_indices);
+                append_str(dest, buf, size);
+            }
             break;
         case TY_VLA:
             ast_type_to_str(context, dest, ty->base, size);
-            strcat(dest, "[]");
+            append_str(dest, "[]", size);
             break;
         case TY_STRUCT:
-            strcat(dest, ty->is_union ? "union {" : "struct {");
+            append_str(dest, ty->is_union ? "union {" : "struct {", size);
             for(size_t i = 0; i < ty->members->size; i++)
             {
                 ASTNode_T* member = ty->members->items[i];
@@ -224,15 +236,15 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
                 case ND_STRUCT_MEMBER:
                     if(member->id->callee && strlen(member->id->callee) != 0)
                     {
-                        strcat(dest, member->id->callee);
-                        strcat(dest, ": ");
+                        append_str(dest, member->id->callee, size);
+                        append_str(dest, ": ", size);
                     }
 
                     ast_type_to_str(context, dest, member->data_type, size);
                     break;
 
                 case ND_EMBED_STRUCT:
-                    strcat(dest, "embed ");
+                    append_str(dest, "embed ", size);
                     ast_type_to_str(context, dest, member->data_type, size);
                     break;
                 default:
@@ -240,39 +252,39 @@ char* ast_type_to_str(Context_T* context, char* dest, const ASTType_T* ty, size_
                 }
                 
                 if(ty->members->size - i > 1)
-                    strcat(dest, ", ");
+                    append_str(dest, ", ", size);
             }
-            strcat(dest, "}");
+            append_str(dest, "}", size);
             break;
         case TY_INTERFACE:
-            strcat(dest, "interface {}");
+            append_str(dest, "interface {}", size);
             break;
         case TY_DYN:
-            strcat(dest, "dyn ");
+            append_str(dest, "dyn ", size);
             ast_type_to_str(context, dest, ty->base, size);
             break;
         case TY_ENUM:
-            strcat(dest, "enum");
+            append_str(dest, "enum", size);
             break;
         case TY_FN:
-            strcat(dest, "fn<");
+            append_str(dest, "fn<", size);
             ast_type_to_str(context, dest, ty->base, size);
-            strcat(dest, ">(");
+            append_str(dest, ">(", size);
             for(size_t i = 0; i < ty->arg_types->size; i++)
             {
                 ast_type_to_str(context, dest, ty->arg_types->items[i], size);
                 if(ty->arg_types->size - i > 1)
-                    strcat(dest, ", ");
+                    append_str(dest, ", ", size);
             }
             if(is_variadic(ty))
-                strcat(dest, ", ...");
-            strcat(dest, ")");
+                append_str(dest, ", ...", size);
+            append_str(dest, ")", size);
             break;
         case TY_UNDEF:
             ast_id_to_str(dest, ty->id, size);
             break;
         case TY_TYPEOF:
-            strcat(dest, "<typeof>");
+            append_str(dest, "<typeof>", size);
             break;
         default:
             break;
-- 
2.43.0


From f51d15346a65a45dd305127c707a232fc42f5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:41 +0000
Subject: [PATCH 159/159] fix: C backend: call lambdas with their parameter
 types

---
 src/compiler/codegen/transpiler/c_codegen.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/compiler/codegen/transpiler/c_codegen.c b/src/compiler/codegen/transpiler/c_codegen.c
index c803884..d56d323 100644
--- a/src/compiler/codegen/transpiler/c_codegen.c
+++ b/src/compiler/codegen/transpiler/c_codegen.c
@@ -1845,7 +1845,13 @@ static void c_gen_expr(CCodegenData_T* cg, ASTNode_T* node, bool with_casts)
             {
                 c_print(cg, "((");
                 c_gen_type(cg, call_type->base, false);
-                c_print(cg, "(*)(void**,...))");
+                c_print(cg, "(*)(void**");
+                for(size_t i = 0; i < call_type->arg_types->size; i++)
+                {
+                    c_putc(cg, ',');
+                    c_gen_type(cg, call_type->arg_types->items[i], false);
+                }
+                c_print(cg, "))");
                 c_gen_expr(cg, node->expr, true);
                 c_print(cg, "->__fn)(");
                 c_gen_expr(cg, node->expr, true);
-- 
2.43.0

