From a5d03b81146caff88a587896257599b8cd7479ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:27 +0000
Subject: [PATCH 01/62] fix: emit a plain signed division, "exact" division is
 wrong when there is a remainder

---
 skull/codegen/llvm/expr.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index cd1908c..23d8b7f 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -236,9 +236,7 @@ static Expr gen_expr_div(
 	LLVMValueRef rhs,
 	const SkullStateLLVM *state
 ) {
-	return gen_expr_math_oper(
-		lhs, rhs, LLVMBuildExactSDiv, LLVMBuildFDiv, state
-	);
+	return gen_expr_math_oper(lhs, rhs, LLVMBuildSDiv, LLVMBuildFDiv, state);
 }
 
 /*
-- 
2.43.0


From b1c0ba71c08b2928d1446a17b02c3c9026ff8a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 02/62] fix: define the float power builtin as a function, it
 was called as one but was a pointer variable

---
 skull/shim.ll | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/shim.ll b/skull/shim.ll
index 250f2a9..489c06f 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -1,4 +1,7 @@
-@_float_pow = dso_local global double (double, double)* @pow, align 8
+define dso_local double @_float_pow(double %0, double %1) {
+  %3 = call double @pow(double %0, double %1)
+  ret double %3
+}
 
 define dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
   %3 = alloca i1, align 1
-- 
2.43.0


From c9edc4da9a68f247b4e91ffbfedd05142c896cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:18 +0000
Subject: [PATCH 03/62] fix: x ^ 0 is 1, not x

---
 skull/codegen/c/write.c | 4 ++--
 skull/shim.ll           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 9ebfc4a..c016da3 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -115,7 +115,7 @@ static const char *_float_pow = \
 
 static const char *_int_pow = \
 "int64_t _int_pow(int64_t base, int64_t exp) {\n"
-"	int64_t result = base;\n"
-"	for (int64_t i = 1; i < exp; i++) result *= base;\n"
+"	int64_t result = 1;\n"
+"	for (int64_t i = 0; i < exp; i++) result *= base;\n"
 "	return result;\n"
 "}\n";
diff --git a/skull/shim.ll b/skull/shim.ll
index 489c06f..278a3fb 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -84,9 +84,9 @@ define dso_local i64 @_int_pow(i64 %0, i64 %1) {
   %6 = alloca i64, align 8
   store i64 %0, i64* %3, align 8
   store i64 %1, i64* %4, align 8
-  %7 = load i64, i64* %3, align 8
+  %7 = add i64 0, 1
   store i64 %7, i64* %5, align 8
-  store i64 1, i64* %6, align 8
+  store i64 0, i64* %6, align 8
   br label %8
 
 8:
-- 
2.43.0


From 50b66e8d9bc61531011f1b9738720e25e7813de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:24 +0000
Subject: [PATCH 04/62] fix: break and continue after a nested loop belong to
 the enclosing loop

---
 skull/codegen/llvm/flow.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 0e3e352..ab0fa31 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -105,6 +105,9 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 		"while_end"
 	);
 
+	LLVMBasicBlockRef old_while_cond = state->current_while_cond;
+	LLVMBasicBlockRef old_while_end = state->current_while_end;
+
 	state->current_while_cond = while_cond;
 	state->current_while_end = while_end;
 
@@ -125,10 +128,9 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 	gen_control_code_block(node, while_cond, state);
 	LLVMPositionBuilderAtEnd(state->builder, while_end);
 
-	// shouldn't be needed since semantic layer checks that all break/continue
-	// statements are in a while loop, but it doesn't hurt to leave it in.
-	state->current_while_cond = NULL;
-	state->current_while_end = NULL;
+	// break/continue statements after this loop belong to the enclosing loop
+	state->current_while_cond = old_while_cond;
+	state->current_while_end = old_while_end;
 }
 
 /*
-- 
2.43.0


From 4026d8f4d24c8192f68df790fa0b73049d9a7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:44 +0000
Subject: [PATCH 05/62] fix: a function declaration leaves the enclosing
 function current again After an external declaration, or a function nested in
 another one, later return statements were checked against the wrong function.

---
 skull/semantic/func.c   | 5 ++---
 skull/semantic/shared.c | 1 -
 skull/semantic/shared.h | 1 -
 3 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 1a8f63d..e90a6d4 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -26,6 +26,7 @@ static bool post_validate_stmt_func_decl(SemanticState *, const AstNode *);
 
 bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	const unsigned while_loop_depth = state->while_loop_depth;
+	Symbol *const outer_func = state->current_func;
 	state->while_loop_depth = 0;
 
 	const bool is_valid = (
@@ -35,6 +36,7 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	);
 
 	state->while_loop_depth = while_loop_depth;
+	state->current_func = outer_func;
 
 	return is_valid;
 }
@@ -79,7 +81,6 @@ static bool validate_stmt_func_decl_(
 		mangle_name(symbol->name) :
 		symbol->name;
 
-	state->last_func = state->current_func;
 	state->current_func = symbol;
 
 	if (!scope_add_symbol(state, symbol)) {
@@ -127,8 +128,6 @@ static bool post_validate_stmt_func_decl(
 		return false;
 	}
 
-	state->current_func = state->last_func;
-
 	return true;
 }
 
diff --git a/skull/semantic/shared.c b/skull/semantic/shared.c
index 4981c8f..5fbc9b1 100644
--- a/skull/semantic/shared.c
+++ b/skull/semantic/shared.c
@@ -28,7 +28,6 @@ SemanticState *setup_semantic_state(void) {
 
 	state->main_func = symbol;
 	state->current_func = state->main_func;
-	state->last_func = NULL;
 
 	return state;
 }
diff --git a/skull/semantic/shared.h b/skull/semantic/shared.h
index b51269a..07de7e4 100644
--- a/skull/semantic/shared.h
+++ b/skull/semantic/shared.h
@@ -13,7 +13,6 @@ typedef struct {
 	Scope *scope;
 	Symbol *main_func;
 	Symbol *current_func;
-	Symbol *last_func;
 	unsigned while_loop_depth;
 	HashTable *dynamic_refs;
 } SemanticState;
-- 
2.43.0


From 4c1a2c4afe51873428c9c361ab5405f2b2761e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:00 +0000
Subject: [PATCH 06/62] fix: reject returning a value from anywhere in a void
 function

---
 skull/semantic/flow.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 9c9220a..a312809 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -1,5 +1,6 @@
 #include <stdbool.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/build_data.h"
 #include "skull/common/errors.h"
@@ -55,7 +56,15 @@ static bool is_valid_return_expr(SemanticState *state, const AstNode *node) {
 
 	const Type *return_type = state->current_func->func->return_type;
 
-	if (return_type != &TYPE_VOID && expr->type != return_type) {
+	if (return_type == &TYPE_VOID) {
+		FMT_ERROR(ERR_NO_VOID_RETURN, {
+			.real = strdup(state->current_func->name)
+		});
+
+		return false;
+	}
+
+	if (expr->type != return_type) {
 		FMT_ERROR(ERR_EXPECTED_SAME_TYPE,
 			{ .loc = &expr_token->location, .type = return_type },
 			{ .type = expr->type }
-- 
2.43.0


From 1d668e6ed5900498e0e0921b03485e0627901be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:05 +0000
Subject: [PATCH 07/62] fix: a warning in a nested block fails the compile with
 --werror too

---
 skull/semantic/unused.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/unused.c b/skull/semantic/unused.c
index 4caa413..1d94f7b 100644
--- a/skull/semantic/unused.c
+++ b/skull/semantic/unused.c
@@ -47,7 +47,7 @@ bool check_unused_symbols(const AstNode *node) {
 		}
 
 		else if (head->child) {
-			err &= check_unused_symbols(head->child);
+			err |= !check_unused_symbols(head->child);
 		}
 
 		head = head->next;
-- 
2.43.0


From 390ddb40c139a7cb59d2faeb5ec8a9431c353357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:48 +0000
Subject: [PATCH 08/62] fix: reject is/isnt on types they do not support
 instead of aborting

---
 skull/common/errors.c |  1 +
 skull/common/errors.h |  1 +
 skull/semantic/expr.c | 18 ++++++++++++++++++
 3 files changed, 20 insertions(+)

diff --git a/skull/common/errors.c b/skull/common/errors.c
index 908f795..2b38418 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -107,6 +107,7 @@ static const char *errors[] = {
 	[ERR_CANNOT_DEREF] = "cannot dereference expression",
 	[ERR_LOAD_MODULE] = "could not load module \"%s\": %s",
 	[ERR_NO_REDEFINE_X_AS_Y] = "cannot redeclare %s \"%s\" as %s",
+	[ERR_EQUAL_BAD_TYPE] = "cannot use type \"%s\" for equality operator",
 };
 
 static const unsigned MAX_ERRORS = sizeof(errors) / sizeof(char *);
diff --git a/skull/common/errors.h b/skull/common/errors.h
index 6463a16..50666d7 100644
--- a/skull/common/errors.h
+++ b/skull/common/errors.h
@@ -84,6 +84,7 @@ typedef enum {
 	ERR_CANNOT_DEREF = 77,
 	ERR_LOAD_MODULE = 78,
 	ERR_NO_REDEFINE_X_AS_Y = 79,
+	ERR_EQUAL_BAD_TYPE = 80,
 } ErrorCode;
 
 typedef struct Variable Variable;
diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index d4f33e8..3400a0c 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -19,6 +19,7 @@ static bool validate_ident_expr(SemanticState *, AstNodeExpr *);
 static bool is_div_by_zero(const AstNodeExpr *);
 static bool validate_const_expr(AstNodeExpr *);
 static bool validate_pow_expr(const AstNodeExpr *);
+static bool validate_equality_expr(const AstNodeExpr *);
 static bool validate_bool_expr(const AstNodeExpr *);
 static bool validate_ref_expr(const AstNodeExpr *);
 static bool is_numeric(const AstNodeExpr *);
@@ -103,6 +104,9 @@ static bool validate_expr_restrictions(AstNodeExpr *expr) {
 			return !is_div_by_zero(expr) && is_numeric(expr);
 		case EXPR_POW:
 			return validate_pow_expr(expr) && is_numeric(expr);
+		case EXPR_IS:
+		case EXPR_ISNT:
+			return validate_equality_expr(expr);
 		case EXPR_LSHIFT:
 		case EXPR_RSHIFT:
 			return validate_shift_expr(expr);
@@ -250,6 +254,20 @@ static bool validate_pow_expr(const AstNodeExpr *expr) {
 	return true;
 }
 
+static bool validate_equality_expr(const AstNodeExpr *expr) {
+	const Type *type = expr->rhs->type;
+
+	if (type == &TYPE_VOID || is_reference(type)) {
+		FMT_ERROR(ERR_EQUAL_BAD_TYPE, {
+			.loc = find_expr_node_location(expr), .type = type
+		});
+
+		return false;
+	}
+
+	return true;
+}
+
 static bool validate_bool_expr(const AstNodeExpr *expr) {
 	if (expr->rhs->type != &TYPE_BOOL) {
 		FMT_ERROR(ERR_EXPECTED_SAME_TYPE,
-- 
2.43.0


From de071c99606b9e9701da57a66d90144a8d448a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:53 +0000
Subject: [PATCH 09/62] fix: reject function parameters of type Void

---
 skull/common/errors.c | 1 +
 skull/common/errors.h | 1 +
 skull/semantic/func.c | 7 +++++++
 3 files changed, 9 insertions(+)

diff --git a/skull/common/errors.c b/skull/common/errors.c
index 2b38418..72664cf 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -108,6 +108,7 @@ static const char *errors[] = {
 	[ERR_LOAD_MODULE] = "could not load module \"%s\": %s",
 	[ERR_NO_REDEFINE_X_AS_Y] = "cannot redeclare %s \"%s\" as %s",
 	[ERR_EQUAL_BAD_TYPE] = "cannot use type \"%s\" for equality operator",
+	[ERR_PARAM_BAD_TYPE] = "cannot use type \"%s\" for function parameter",
 };
 
 static const unsigned MAX_ERRORS = sizeof(errors) / sizeof(char *);
diff --git a/skull/common/errors.h b/skull/common/errors.h
index 50666d7..ab14123 100644
--- a/skull/common/errors.h
+++ b/skull/common/errors.h
@@ -85,6 +85,7 @@ typedef enum {
 	ERR_LOAD_MODULE = 78,
 	ERR_NO_REDEFINE_X_AS_Y = 79,
 	ERR_EQUAL_BAD_TYPE = 80,
+	ERR_PARAM_BAD_TYPE = 81,
 } ErrorCode;
 
 typedef struct Variable Variable;
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index e90a6d4..88094aa 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -154,6 +154,13 @@ static bool validate_func_params(
 			return false;
 		}
 
+		if (function->param_types[i] == &TYPE_VOID) {
+			FMT_ERROR(ERR_PARAM_BAD_TYPE, { .tok = params[i]->type_name });
+
+			restore_parent_scope(state);
+			return false;
+		}
+
 		Variable *const param_var = make_variable(
 			function->param_types[i],
 			node->func_proto->params[i]->param_name,
-- 
2.43.0


From fc3123224f7257b7b22e1f0b0a802a82fbae8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:44 +0000
Subject: [PATCH 10/62] fix: allocate variables defined in a loop once, not on
 each iteration

---
 skull/codegen/llvm/assign.c |  6 +++---
 skull/codegen/llvm/shared.c | 38 +++++++++++++++++++++++++++++++++++++
 skull/codegen/llvm/shared.h |  1 +
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 1e31009..b5d8b20 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -83,10 +83,10 @@ static void setup_var_llvm(
 		if (is_const_literal) return;
 	}
 	else if (requires_alloca_decl(var)) {
-		var->ref = LLVMBuildAlloca(
-			state->builder,
+		var->ref = build_alloca(
 			type_to_llvm_type(var->type, state),
-			var->linkage_name
+			var->linkage_name,
+			state
 		);
 	}
 
diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index faacb7b..eb89fb2 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -79,3 +79,41 @@ void free_llvm_state(SkullStateLLVM *state) {
 
 	free(state);
 }
+
+/*
+Allocate a stack slot for `type` which lives as long as the current function.
+
+In a loop, the slot is allocated in the entry block of the function, otherwise
+each iteration would use up more stack.
+*/
+LLVMValueRef build_alloca(
+	LLVMTypeRef type,
+	const char *name,
+	const SkullStateLLVM *state
+) {
+	LLVMBuilderRef builder = state->builder;
+	LLVMBasicBlockRef block = LLVMGetInsertBlock(builder);
+
+	if (!state->current_while_cond) {
+		return LLVMBuildAlloca(builder, type, name);
+	}
+
+	LLVMBasicBlockRef entry = LLVMGetEntryBasicBlock(
+		LLVMGetBasicBlockParent(block)
+	);
+
+	LLVMMetadataRef location = LLVMGetCurrentDebugLocation2(builder);
+	LLVMValueRef first = LLVMGetFirstInstruction(entry);
+
+	if (first) LLVMPositionBuilderBefore(builder, first);
+	else LLVMPositionBuilderAtEnd(builder, entry);
+
+	LLVMSetCurrentDebugLocation2(builder, NULL);
+
+	LLVMValueRef slot = LLVMBuildAlloca(builder, type, name);
+
+	LLVMPositionBuilderAtEnd(builder, block);
+	LLVMSetCurrentDebugLocation2(builder, location);
+
+	return slot;
+}
diff --git a/skull/codegen/llvm/shared.h b/skull/codegen/llvm/shared.h
index 761ecdb..dc66f7b 100644
--- a/skull/codegen/llvm/shared.h
+++ b/skull/codegen/llvm/shared.h
@@ -20,3 +20,4 @@ typedef struct {
 
 SkullStateLLVM *setup_llvm_state(SemanticState *);
 void free_llvm_state(SkullStateLLVM *);
+LLVMValueRef build_alloca(LLVMTypeRef, const char *, const SkullStateLLVM *);
-- 
2.43.0


From 06e32cad677331147ba2c146327e08f83bc9e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:49 +0000
Subject: [PATCH 11/62] fix: references to, and dereferences of, local
 constants and parameters

---
 skull/codegen/llvm/expr.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 23d8b7f..80a9268 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -33,7 +33,7 @@ static Operation gen_expr_add, gen_expr_sub, gen_expr_mult,
 static Expr gen_expr_const(const AstNodeExpr *, const SkullStateLLVM *);
 static Expr gen_expr_is_str(LLVMValueRef, LLVMValueRef, const SkullStateLLVM *);
 static Expr gen_expr_identifier(const AstNodeExpr *, const SkullStateLLVM *);
-static Expr gen_expr_ref(const AstNodeExpr *);
+static Expr gen_expr_ref(const AstNodeExpr *, const SkullStateLLVM *);
 static Expr gen_expr_deref(const AstNodeExpr *, const SkullStateLLVM *);
 static Operation *expr_type_to_func(ExprType);
 
@@ -58,7 +58,7 @@ Expr gen_expr(const AstNodeExpr *const expr, const SkullStateLLVM *state) {
 		case EXPR_FUNC:
 			return gen_expr_func_call(expr->lhs.func_call, state);
 		case EXPR_REF:
-			return gen_expr_ref(expr);
+			return gen_expr_ref(expr, state);
 		case EXPR_DEREF:
 			return gen_expr_deref(expr, state);
 		default: break;
@@ -115,12 +115,7 @@ static Expr gen_expr_deref(
 		.value = LLVMBuildLoad2(
 			state->builder,
 			type_to_llvm_type(var->type->inner, state),
-			LLVMBuildLoad2(
-				state->builder,
-				type_to_llvm_type(var->type, state),
-				var->ref,
-				""
-			),
+			gen_expr_identifier(expr->rhs, state).value,
 			""
 		),
 		.type = var->type->inner
@@ -321,11 +316,24 @@ static Expr gen_expr_pow(
 /*
 Return reference to an expression `expr`.
 */
-static Expr gen_expr_ref(const AstNodeExpr *expr) {
-	return (Expr){
-		.value = expr->rhs->symbol->var->ref,
-		.type = expr->rhs->symbol->var->type->inner
-	};
+static Expr gen_expr_ref(
+	const AstNodeExpr *expr,
+	const SkullStateLLVM *state
+) {
+	const Variable *var = expr->rhs->symbol->var;
+	LLVMValueRef ref = var->ref;
+
+	// local constants are plain values, they must be put in memory first
+	if (!var->is_global && var->is_const) {
+		ref = build_alloca(
+			type_to_llvm_type(var->type, state),
+			var->linkage_name,
+			state
+		);
+		LLVMBuildStore(state->builder, var->ref, ref);
+	}
+
+	return (Expr){ .value = ref, .type = expr->type };
 }
 
 /*
-- 
2.43.0


From 15474ef80d6a0fd87554ce2657b3ae5ebab47085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:55 +0000
Subject: [PATCH 12/62] fix: mutable variables defined in a top level loop are
 set each iteration

---
 skull/codegen/llvm/assign.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index b5d8b20..d6031fe 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -22,6 +22,7 @@ static void assign_value_to_var(
 );
 static void setup_var_llvm(LLVMValueRef, Symbol *, const SkullStateLLVM *);
 static bool is_top_level(const SkullStateLLVM *);
+static bool is_in_loop(const SkullStateLLVM *);
 static bool requires_alloca_decl(const Variable *);
 
 /*
@@ -80,7 +81,8 @@ static void setup_var_llvm(
 				LLVMConstNull(type_to_llvm_type(var->type, state))
 		);
 
-		if (is_const_literal) return;
+		// a mutable variable must be set again each time a loop gets to it
+		if (is_const_literal && (var->is_const || !is_in_loop(state))) return;
 	}
 	else if (requires_alloca_decl(var)) {
 		var->ref = build_alloca(
@@ -122,6 +124,10 @@ static bool is_top_level(const SkullStateLLVM *state) {
 	return state->current_func == state->main_func;
 }
 
+static bool is_in_loop(const SkullStateLLVM *state) {
+	return !!state->current_while_cond;
+}
+
 static bool requires_alloca_decl(const Variable *var) {
 	return !var->is_global && !var->is_const;
 }
-- 
2.43.0


From cc7b414a159398fc73477c993c5b69a88ba8d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:29 +0000
Subject: [PATCH 13/62] fix: noop in a loop does not use up stack on each
 iteration with -g

---
 skull/codegen/llvm/flow.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index ab0fa31..d3fd8af 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -54,11 +54,7 @@ void gen_stmt_noop(const Location *location, const SkullStateLLVM *state) {
 	LLVMValueRef noop = LLVMBuildStore(
 		state->builder,
 		LLVM_INT(0),
-		LLVMBuildAlloca(
-			state->builder,
-			type_to_llvm_type(&TYPE_INT, state),
-			"noop"
-		)
+		build_alloca(type_to_llvm_type(&TYPE_INT, state), "noop", state)
 	);
 
 	add_llvm_debug_info(noop, location, state);
-- 
2.43.0


From 419b1b30a5564edfcf4f9fd4c403db29286df70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:10 +0000
Subject: [PATCH 14/62] fix: names of private functions and variables do not
 clash with external functions

---
 skull/codegen/llvm/func.c   |  2 ++
 skull/codegen/llvm/shared.c | 13 +++++++++++++
 skull/codegen/llvm/shared.h |  1 +
 skull/codegen/llvm/write.c  | 11 ++++++-----
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 14b4702..a677912 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -63,6 +63,8 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 	);
 	free(params);
 
+	if (func->is_external) release_private_name(symbol->linkage_name, state);
+
 	func->ref = LLVMAddFunction(
 		state->module,
 		symbol->linkage_name,
diff --git a/skull/codegen/llvm/shared.c b/skull/codegen/llvm/shared.c
index eb89fb2..c2d19fd 100644
--- a/skull/codegen/llvm/shared.c
+++ b/skull/codegen/llvm/shared.c
@@ -80,6 +80,19 @@ void free_llvm_state(SkullStateLLVM *state) {
 	free(state);
 }
 
+/*
+Take the name `name` from the private function/variable which has it (if any),
+so that a symbol which has to be visible to the linker can have it instead.
+*/
+void release_private_name(const char *name, const SkullStateLLVM *state) {
+	LLVMValueRef value = LLVMGetNamedFunction(state->module, name);
+	if (!value) value = LLVMGetNamedGlobal(state->module, name);
+
+	if (value && LLVMGetLinkage(value) == LLVMPrivateLinkage) {
+		LLVMSetValueName2(value, "", 0);
+	}
+}
+
 /*
 Allocate a stack slot for `type` which lives as long as the current function.
 
diff --git a/skull/codegen/llvm/shared.h b/skull/codegen/llvm/shared.h
index dc66f7b..c64d0dc 100644
--- a/skull/codegen/llvm/shared.h
+++ b/skull/codegen/llvm/shared.h
@@ -20,4 +20,5 @@ typedef struct {
 
 SkullStateLLVM *setup_llvm_state(SemanticState *);
 void free_llvm_state(SkullStateLLVM *);
+void release_private_name(const char *, const SkullStateLLVM *);
 LLVMValueRef build_alloca(LLVMTypeRef, const char *, const SkullStateLLVM *);
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 3d5367f..6035243 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -365,11 +365,12 @@ static bool add_start_shim(SkullStateLLVM *state) {
 		state
 	);
 
-	LLVMValueRef exit_func = LLVMAddFunction(
-		state->module,
-		"exit",
-		exit_func_type
-	);
+	release_private_name("exit", state);
+
+	LLVMValueRef exit_func = LLVMGetNamedFunction(state->module, "exit");
+	if (!exit_func) {
+		exit_func = LLVMAddFunction(state->module, "exit", exit_func_type);
+	}
 
 	LLVMBasicBlockRef entry = LLVMAppendBasicBlockInContext(
 		state->ctx,
-- 
2.43.0


From 2fef2e07365663e28c9e22f280900f066f93d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:44 +0000
Subject: [PATCH 15/62] fix: a namespace block which returns (or breaks) ends
 the enclosing block

---
 skull/codegen/llvm/core.c |  2 +-
 skull/codegen/llvm/flow.c | 10 ++++++----
 skull/codegen/llvm/flow.h |  2 +-
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/skull/codegen/llvm/core.c b/skull/codegen/llvm/core.c
index 5c92e05..b914d5a 100644
--- a/skull/codegen/llvm/core.c
+++ b/skull/codegen/llvm/core.c
@@ -53,7 +53,7 @@ static Expr gen_node(const AstNode **node, SkullStateLLVM *state) {
 			gen_stmt_noop(&(*node)->token->location, state); break;
 		case AST_NODE_BREAK: return gen_stmt_break(state);
 		case AST_NODE_CONTINUE: return gen_stmt_continue(state);
-		case AST_NODE_NAMESPACE: gen_control_namespace(*node, state); break;
+		case AST_NODE_NAMESPACE: return gen_control_namespace(*node, state);
 		case AST_NODE_IMPORT:
 		case AST_NODE_COMMENT:
 			break;
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index d3fd8af..9734c2f 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -22,7 +22,7 @@ static void gen_control_if_(
 	SkullStateLLVM *
 );
 
-static void gen_control_code_block(
+static Expr gen_control_code_block(
 	const AstNode *,
 	LLVMBasicBlockRef,
 	SkullStateLLVM *
@@ -148,8 +148,8 @@ void gen_control_if(const AstNode **node, SkullStateLLVM *state) {
 /*
 Builds a namespace from `node`.
 */
-void gen_control_namespace(const AstNode *node, SkullStateLLVM *state) {
-	gen_control_code_block(node, NULL, state);
+Expr gen_control_namespace(const AstNode *node, SkullStateLLVM *state) {
+	return gen_control_code_block(node, NULL, state);
 }
 
 /*
@@ -259,7 +259,7 @@ Expr gen_stmt_continue(const SkullStateLLVM *state) {
 Parse `node` while in a new scope. Branch to `block` if no return occurred (and
 is not `NULL`).
 */
-static void gen_control_code_block(
+static Expr gen_control_code_block(
 	const AstNode *node,
 	LLVMBasicBlockRef block,
 	SkullStateLLVM *state
@@ -281,4 +281,6 @@ static void gen_control_code_block(
 	}
 
 	if (!returned.value && block) LLVMBuildBr(state->builder, block);
+
+	return returned;
 }
diff --git a/skull/codegen/llvm/flow.h b/skull/codegen/llvm/flow.h
index 134b8ff..b05889a 100644
--- a/skull/codegen/llvm/flow.h
+++ b/skull/codegen/llvm/flow.h
@@ -14,4 +14,4 @@ void gen_stmt_implicit_main_return(const Location *, const SkullStateLLVM *);
 void gen_stmt_noop(const Location *, const SkullStateLLVM *);
 void gen_control_while(const AstNode *, SkullStateLLVM *);
 void gen_control_if(const AstNode **, SkullStateLLVM *);
-void gen_control_namespace(const AstNode *, SkullStateLLVM *);
+Expr gen_control_namespace(const AstNode *, SkullStateLLVM *);
-- 
2.43.0


From 112f172bdbe58bed457d2ae6cf5402252b55143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:10 +0000
Subject: [PATCH 16/62] fix: type aliases which are exported or explicitly
 typed were given the wrong name or type

---
 skull/semantic/types.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 79a3343..853af1d 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -262,21 +262,26 @@ static void strip_underscore_num(char *str, char c) {
 }
 
 bool validate_stmt_type_alias(SemanticState *state, const AstNode *node) {
-	const Token *token = node->token;
+	const Token *token = node->var_def->name_tok;
+	const Token *type_token = node->token_end->next;
 
 	if (!node->var_def->is_const) {
-		FMT_ERROR(ERR_NO_MUT_TYPE_ALIAS, { .loc = &token->next->location });
+		FMT_ERROR(ERR_NO_MUT_TYPE_ALIAS, {
+			.loc = &node->token->next->location
+		});
 		return false;
 	}
 
 	const ExprType oper = node->var_def->expr->oper;
 
-	if (oper != EXPR_IDENTIFIER && oper != EXPR_REF) {
-		FMT_ERROR(ERR_NO_TYPE_EXPR, { .loc = &token->next->next->location });
+	if (!node->var_def->is_implicit ||
+		(oper != EXPR_IDENTIFIER && oper != EXPR_REF)
+	) {
+		FMT_ERROR(ERR_NO_TYPE_EXPR, { .loc = &type_token->location });
 		return false;
 	}
 
-	const Type *type = token_to_type(state, token->next->next);
+	const Type *type = token_to_type(state, type_token);
 	char *alias = token_to_mbs_str(token);
 
 	Symbol *symbol;
-- 
2.43.0


From ad92747cdca757843eded0f5cb45f7a1ea9eab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:40 +0000
Subject: [PATCH 17/62] fix: operator precedence holds across more than two
 levels and parentheses group

---
 skull/parse/ast_node.c | 66 +++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index ad4c617..c2ff308 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -34,7 +34,8 @@ static void parse_ast_sub_tree_(ParserCtx *);
 static bool parse_ast_node(ParserCtx *);
 static void next_token(ParserCtx *);
 static AstNodeExpr *parse_single_expr(ParserCtx *);
-static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *);
+static AstNodeExpr *parse_binary_expr(ParserCtx *, unsigned);
+static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *, unsigned);
 static unsigned oper_to_precedence(ExprType);
 static AstNodeExpr *parse_root_expr(ParserCtx *);
 static bool is_unary_oper(ExprType);
@@ -44,6 +45,8 @@ static Token *is_potential_type(Token *);
 static Vector *parse_function_proto_params(ParserCtx *);
 
 
+enum { MAX_PRECEDENCE = 7 };
+
 typedef enum {
 	RESULT_OK,
 	RESULT_IGNORE,
@@ -659,37 +662,36 @@ Try and generate AST node for expression.
 Returns node if one was added, NULL otherwise.
 */
 static AstNodeExpr *parse_expression(ParserCtx *ctx) {
+	return parse_binary_expr(ctx, MAX_PRECEDENCE);
+}
+
+/*
+Parse an expression made up of operators whose precedence is at most
+`max_precedence` (lower precedence operators bind tighter). Operators of the
+same precedence are left associative.
+*/
+static AstNodeExpr *parse_binary_expr(
+	ParserCtx *ctx,
+	unsigned max_precedence
+) {
 	if (!ctx->token) return NULL;
 
-	AstNodeExpr *head = parse_single_expr(ctx);
-	if (ctx->err) return NULL;
+	AstNodeExpr *expr = parse_single_expr(ctx);
+	if (!expr || ctx->err) return NULL;
 
-	AstNodeExpr *current = head;
 	AstNodeExpr *last = NULL;
 
-	while (last != current) {
-		last = current;
+	while (last != expr) {
+		last = expr;
 
-		current = parse_expr_rhs(ctx, current);
+		expr = parse_expr_rhs(ctx, last, max_precedence);
 		if (ctx->err) {
-			free_expr_node(head);
+			free_expr_node(last);
 			return NULL;
 		}
-
-		const unsigned last_precedence = oper_to_precedence(last->oper);
-		const unsigned current_precedence = oper_to_precedence(current->oper);
-
-		if (last_precedence > current_precedence) {
-			current->lhs.expr = last->rhs;
-			last->rhs = current;
-
-			AstNodeExpr *tmp = last;
-			last = current;
-			current = tmp;
-		}
 	}
 
-	return last ? last : current;
+	return expr;
 }
 
 static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
@@ -717,10 +719,19 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	AstNodeExpr *rhs = parse_binary_expr(ctx, oper_to_precedence(unary_oper));
+
+	if (!rhs) {
+		if (!ctx->err) FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = last });
+
+		ctx->err = true;
+		return NULL;
+	}
+
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
-		.rhs = parse_root_expr(ctx)
+		.rhs = rhs
 	};
 
 	return expr;
@@ -765,7 +776,11 @@ static AstNodeExpr *parse_root_expr(ParserCtx *ctx) {
 	return NULL;
 }
 
-static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
+static AstNodeExpr *parse_expr_rhs(
+	ParserCtx *ctx,
+	AstNodeExpr *expr,
+	unsigned max_precedence
+) {
 	if (!ctx->token) return expr;
 
 	const ExprType oper = token_type_to_binary_expr_type(ctx->token->type);
@@ -777,10 +792,13 @@ static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
 		return NULL;
 	}
 
+	const unsigned precedence = oper_to_precedence(oper);
+	if (precedence > max_precedence) return expr;
+
 	Token *oper_token = ctx->token;
 	next_token(ctx);
 
-	AstNodeExpr *rhs = parse_single_expr(ctx);
+	AstNodeExpr *rhs = parse_binary_expr(ctx, precedence - 1);
 	if (!rhs) {
 		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = oper_token });
 
-- 
2.43.0


From bcaced2920a8a9b2f07ab5db59a45f07b2404245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:12 +0000
Subject: [PATCH 18/62] fix: report an incomplete statement at the end of the
 file instead of crashing

---
 skull/parse/ast_node.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index c2ff308..e97024d 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -141,7 +141,11 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (ctx->err) return RESULT_ERROR;
 
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ?
+				&ctx->token->location :
+				&var_def_node->token_end->location
+		});
 		return RESULT_ERROR;
 	}
 
@@ -218,7 +222,11 @@ static ParserResult parse_var_assign(ParserCtx *ctx) {
 
 	AstNodeExpr *expr = parse_expression(ctx);
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ?
+				&ctx->token->location :
+				&var_assign_node->token_end->location
+		});
 
 		return RESULT_ERROR;
 	}
@@ -275,7 +283,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 
 	if (is_external || is_export) next_token(ctx);
 
-	if (!AST_TOKEN_CMP2(ctx->token,
+	if (!ctx->token || !AST_TOKEN_CMP2(ctx->token,
 		TOKEN_IDENTIFIER,
 		TOKEN_PAREN_OPEN)
 	) {
-- 
2.43.0


From b1abbd409cfc094d89a88cb907b2ced7a7c0de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:16 +0000
Subject: [PATCH 19/62] fix: a condition which is cut short by the end of the
 file gets a proper error message

---
 skull/parse/ast_node.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index e97024d..9f010ff 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -421,7 +421,9 @@ static Vector *parse_function_proto_params(ParserCtx *ctx) {
 }
 
 static void parse_condition(ParserCtx *ctx, NodeType node_type) {
-	if (!ctx->token || !ctx->token->next) {
+	if (!ctx->token->next) {
+		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = ctx->token });
+
 		ctx->err = true;
 		return;
 	}
@@ -432,7 +434,9 @@ static void parse_condition(ParserCtx *ctx, NodeType node_type) {
 	AstNodeExpr *expr = parse_expression(ctx);
 
 	if (!expr || ctx->err) {
-		FMT_ERROR(ERR_INVALID_EXPR, { .tok = ctx->token });
+		FMT_ERROR(ERR_INVALID_EXPR, {
+			.tok = ctx->token ? ctx->token : cond_node->token
+		});
 		ctx->err = true;
 
 		return;
-- 
2.43.0


From 0d6bf4debc7510dc66ae2fbf43d80995e3666323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:20 +0000
Subject: [PATCH 20/62] fix: a namespace needs a name and a block

---
 skull/parse/ast_node.c | 10 ++++++++--
 skull/semantic/flow.c  |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 9f010ff..760eb11 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -463,12 +463,18 @@ static void parse_while(ParserCtx *ctx) {
 }
 
 static void parse_namespace(ParserCtx *ctx) {
-	if (!ctx->token || !ctx->token->next) {
+	Token *namespace_tok = ctx->token;
+	const Token *name_tok = namespace_tok->next;
+
+	if (!name_tok || name_tok->type != TOKEN_IDENTIFIER) {
+		FMT_ERROR(ERR_UNEXPECTED_TOKEN, {
+			.tok = name_tok ? name_tok : namespace_tok
+		});
+
 		ctx->err = true;
 		return;
 	}
 
-	Token *namespace_tok = ctx->token;
 	ctx->token = ctx->token->next->next;
 	push_ast_node(ctx, namespace_tok, AST_NODE_NAMESPACE);
 }
diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index a312809..03035f6 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -164,6 +164,8 @@ bool validate_control_continue(SemanticState *state, const AstNode *node) {
 }
 
 bool validate_control_namespace(SemanticState *state, AstNode *node) {
+	if (is_missing_block(node, "namespace")) return false;
+
 	Symbol *symbol = Calloc(1, sizeof(Symbol));
 	*symbol = (Symbol){
 		.name = token_to_mbs_str(node->token->next),
-- 
2.43.0


From e4053ec169ac97f96d3bb50d5d80a3a4c664ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:25 +0000
Subject: [PATCH 21/62] fix: reject a code block after a function call, it was
 silently ignored

---
 skull/semantic/flow.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 03035f6..c261482 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -259,8 +259,7 @@ bool assert_sane_child(const AstNode *node) {
 		node_type == AST_NODE_ELSE ||
 		node_type == AST_NODE_WHILE ||
 		node_type == AST_NODE_FUNCTION_PROTO ||
-		node_type == AST_NODE_NAMESPACE ||
-		(node_type == AST_NODE_EXPR && node->expr->oper == EXPR_FUNC)
+		node_type == AST_NODE_NAMESPACE
 	)) {
 		FMT_ERROR(ERR_UNEXPECTED_CODE_BLOCK, {
 			.loc = &node->child->token->location
-- 
2.43.0


From 5a592b2d8bd9a9c6f92416608ee218c4ee364e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:43 +0000
Subject: [PATCH 22/62] fix: reject a code block after an external function
 declaration, it was silently ignored

---
 skull/semantic/flow.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index c261482..9eeb92c 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -258,7 +258,8 @@ bool assert_sane_child(const AstNode *node) {
 		node_type == AST_NODE_ELIF ||
 		node_type == AST_NODE_ELSE ||
 		node_type == AST_NODE_WHILE ||
-		node_type == AST_NODE_FUNCTION_PROTO ||
+		(node_type == AST_NODE_FUNCTION_PROTO &&
+			!node->func_proto->is_external) ||
 		node_type == AST_NODE_NAMESPACE
 	)) {
 		FMT_ERROR(ERR_UNEXPECTED_CODE_BLOCK, {
-- 
2.43.0


From 6af48c01a01de2240627c13cf9524b5a8460c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:17 +0000
Subject: [PATCH 23/62] fix: unary minus on floats keeps the sign of zero

---
 skull/codegen/llvm/expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 80a9268..e7deb86 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -365,7 +365,7 @@ static Expr gen_expr_unary_neg(
 			.type = lhs->type,
 			.value = lhs->type == &TYPE_INT ?
 				LLVM_INT(0) :
-				LLVM_FLOAT(0)
+				LLVM_FLOAT(-0.0)
 		},
 		rhs,
 		LLVMBuildNSWSub,
-- 
2.43.0


From 48b1af206ee9051d5de1b79204769599674f8867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:22 +0000
Subject: [PATCH 24/62] fix: columns after a quote on the same line are right

---
 skull/parse/token.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 99416f1..89a537b 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -213,7 +213,7 @@ static bool iter_quote(TokenizeCtx *ctx) {
 	if (!ctx->token->begin) token_add_info(ctx);
 
 	do {
-		ctx->code++;
+		chomp(ctx);
 
 		if (*ctx->code == '\n') {
 			next_line(ctx);
-- 
2.43.0


From 3cc85b147af7d84c8c54788dec06bc26e5f98570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:27 +0000
Subject: [PATCH 25/62] fix: a namespaced name is only looked up in the
 namespace, not in the scopes around it

---
 skull/semantic/scope.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index c0fb55f..e1d7504 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -14,6 +14,7 @@
 static void free_ht_symbol(HashItem *);
 static void free_symbol(Symbol *);
 static Scope *find_scope_head(SemanticState *);
+static Symbol *scope_find_member(const Scope *, char *);
 
 /*
 Add `symbol` (as variable) to current scope.
@@ -52,7 +53,7 @@ Symbol *scope_find_name(const Scope *const scope, char *name) {
 			Symbol *symbol = NULL;
 
 			if (namespace && namespace->type == SYMBOL_NAMESPACE) {
-				symbol = scope_find_name(namespace->scope, dot_position + 1);
+				symbol = scope_find_member(namespace->scope, dot_position + 1);
 			}
 
 			*dot_position = '.';
@@ -70,6 +71,31 @@ Symbol *scope_find_name(const Scope *const scope, char *name) {
 	return NULL;
 }
 
+/*
+Find `name` in the scope of a namespace, without going to its parent scopes.
+*/
+static Symbol *scope_find_member(const Scope *scope, char *name) {
+	char *dot_position = strchr(name, '.');
+	if (dot_position) *dot_position = '\0';
+
+	Symbol *symbol = NULL;
+
+	while (scope && !symbol) {
+		if (scope->symbols) symbol = ht_get(scope->symbols, name);
+		scope = scope->last;
+	}
+
+	if (dot_position) {
+		*dot_position = '.';
+
+		if (!symbol || symbol->type != SYMBOL_NAMESPACE) return NULL;
+
+		return scope_find_member(symbol->scope, dot_position + 1);
+	}
+
+	return symbol;
+}
+
 /*
 Returns a new variable scope.
 */
-- 
2.43.0


From b14ddaef34e0d68e628e18a2f0748e8409b8b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:45 +0000
Subject: [PATCH 26/62] fix: text next to a comment is not swallowed by it

---
 skull/parse/token.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 89a537b..177fb75 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -30,6 +30,7 @@ static bool iter_quote(TokenizeCtx *);
 static bool tokenize_inner_loop(TokenizeCtx *);
 static bool is_delimeter(char32_t);
 static void token_add_info(TokenizeCtx *);
+static void close_token(TokenizeCtx *, const char32_t *);
 static void chomp(TokenizeCtx *);
 static void next_line(TokenizeCtx *);
 static bool is_valid_comment_start(TokenizeCtx *);
@@ -141,7 +142,8 @@ Return `true` if errors occurred.
 static bool iter_comment(TokenizeCtx *ctx) {
 	if (!is_valid_comment_start(ctx)) return true;
 
-	if (!ctx->token->begin) token_add_info(ctx);
+	if (ctx->token->begin) close_token(ctx, ctx->code);
+	token_add_info(ctx);
 	chomp(ctx);
 
 	do {
@@ -177,9 +179,22 @@ static bool iter_comment(TokenizeCtx *ctx) {
 	}
 
 	ctx->token->type = TOKEN_COMMENT;
+
+	// text right after the end of a block comment is not part of it
+	if (*ctx->code) close_token(ctx, ctx->code + 1);
+
 	return false;
 }
 
+/*
+End the current token at `end`, and setup the next one.
+*/
+static void close_token(TokenizeCtx *ctx, const char32_t *end) {
+	ctx->token->len = (unsigned)(end - ctx->token->begin);
+	ctx->last = ctx->token;
+	ctx->token = setup_next(ctx->token);
+}
+
 static bool is_valid_comment_start(TokenizeCtx *ctx) {
 	ctx->comment = NO_COMMENT;
 
-- 
2.43.0


From 86cdfb7e27e9d349025d2d8d50ed2fd04e065d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:18 +0000
Subject: [PATCH 27/62] fix: variables defined in a function are local to it
 with the C backend

---
 skull/codegen/c/assign.c | 2 +-
 skull/codegen/c/func.c   | 3 +++
 skull/codegen/c/shared.h | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index fa78c32..a280bd7 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -39,7 +39,7 @@ CStmt gen_stmt_var_def_c(const AstNode *node, SkullStateC *state) {
 
 	char *type = skull_type_to_c_type(var->type);
 
-	if (state->indent_lvl == 1) {
+	if (state->indent_lvl == 1 && !state->in_function) {
 		CStmt stmt = gen_stmt_global_var(node, type, state);
 
 		free(type);
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 4d2bb27..cd42ec9 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -88,9 +88,12 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 	}
 	else {
 		unsigned indent_lvl = state->indent_lvl;
+		_Bool in_function = state->in_function;
 		state->indent_lvl = 0;
+		state->in_function = 1;
 		char *tree = gen_tree_c(node->child, state);
 		state->indent_lvl = indent_lvl;
+		state->in_function = in_function;
 
 		out = uvsnprintf(
 			func->is_export ?
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index e09d2ce..60c4382 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -8,6 +8,7 @@ typedef struct {
 	_Bool called_int_pow;
 	_Bool called_float_pow;
 	_Bool called_strcmp;
+	_Bool in_function;
 	unsigned indent_lvl;
 } SkullStateC;
 
-- 
2.43.0


From bc84caefcade316c138b242a69975b5c34d880b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:22 +0000
Subject: [PATCH 28/62] fix: fail instead of crashing when the output of the C
 backend cannot be opened

---
 skull/codegen/c/write.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index c016da3..60ba0e5 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -33,6 +33,7 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 		open_file(out_filename, false);
 
 	free(out_filename);
+	if (!f) return true;
 
 	print_headers(f);
 	print_builtins(f, state);
@@ -42,6 +43,8 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
+	if (f != stdout) fclose(f);
+
 	return false;
 }
 
-- 
2.43.0


From e7b3ed023cb61b396259a361a4d0aa476f70736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:27 +0000
Subject: [PATCH 29/62] fix: float modulo, Infinity, and NaN are valid C with
 the C backend

---
 skull/codegen/c/expr.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index d7532ac..c6d53d0 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <limits.h>
+#include <math.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -69,6 +70,13 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 	if (expr->type == &TYPE_FLOAT) {
 		if (!expr->value._int) return strdup("0.0");
 
+		if (isinf(expr->value._float)) {
+			return strdup(
+				expr->value._float < 0 ? "-__builtin_inf()" : "__builtin_inf()"
+			);
+		}
+		if (isnan(expr->value._float)) return strdup("__builtin_nan(\"\")");
+
 		// here we are using the hex representation of the float to guarantee
 		// that there is no loss in percision when stringifying.
 		return uvsnprintf("%a", expr->value._float);
@@ -94,7 +102,11 @@ static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 		case EXPR_SUB: fmt = "(%s - %s)"; break;
 		case EXPR_MULT: fmt = "(%s * %s)"; break;
 		case EXPR_DIV: fmt = "(%s / %s)"; break;
-		case EXPR_MOD: fmt = "(%s %% %s)"; break;
+		case EXPR_MOD: {
+			if (expr->type == &TYPE_FLOAT) fmt = "__builtin_fmod(%s, %s)";
+			else fmt = "(%s %% %s)";
+			break;
+		}
 		case EXPR_LSHIFT: fmt = "(%s << %s)"; break;
 		case EXPR_RSHIFT: fmt = "(%s >> %s)"; break;
 		case EXPR_IS: {
-- 
2.43.0


From 11597a2dd9d2e6b1d134e7763eb19282a59f3ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:31 +0000
Subject: [PATCH 30/62] fix: escape string constants with the C backend

---
 skull/codegen/c/expr.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index c6d53d0..47b23e4 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -2,10 +2,12 @@
 #include <limits.h>
 #include <math.h>
 #include <stdbool.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
 #include "skull/codegen/c/shared.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -15,6 +17,7 @@
 #include "skull/codegen/c/expr.h"
 
 static CExpr gen_expr_const_c(const AstNodeExpr *);
+static CExpr gen_expr_const_str_c(const char *);
 static CExpr gen_expr_binary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_unary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_func_call_c(const AstNodeFunctionCall *, SkullStateC *);
@@ -88,12 +91,36 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("0x%X", expr->value.rune);
 	}
 	if (expr->type == &TYPE_STR) {
-		return uvsnprintf("\"%s\"", expr->value.str);
+		return gen_expr_const_str_c(expr->value.str);
 	}
 
 	assert(false);
 }
 
+static CExpr gen_expr_const_str_c(const char *str) {
+	// every char might expand to a 4 char octal escape
+	char *out = Malloc((strlen(str) * 4) + 3);
+	char *at = out;
+
+	*at++ = '\"';
+
+	while (*str) {
+		const unsigned char c = (unsigned char)*str;
+
+		if (c == '\"' || c == '\\' || c == '?' || c < ' ' || c > '~') {
+			at += sprintf(at, "\\%03o", c);
+		}
+		else *at++ = *str;
+
+		str++;
+	}
+
+	*at++ = '\"';
+	*at = '\0';
+
+	return out;
+}
+
 static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 	const char *fmt = NULL;
 
-- 
2.43.0


From 260d97891b044b0a48bbe226f3f1825c50df473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:07 +0000
Subject: [PATCH 31/62] fix: a file must end with .sk, not just contain it

---
 skull/cli.c       | 4 +++-
 skull/real_main.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index f39794f..3a0215d 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -42,7 +42,9 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
-	if (!strrstr(BUILD_DATA.filename, ".sk")) {
+	const char *extension = strrstr(BUILD_DATA.filename, ".sk");
+
+	if (!extension || extension[3]) {
 		fprintf(
 			stderr, "skull: missing required \".sk\" extension, exiting\n"
 		);
diff --git a/skull/real_main.c b/skull/real_main.c
index 0ff9345..56485a5 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -39,7 +39,9 @@ int real_main(int argc, char *argv[]) {
 Output compiled version of `filename` (file type depends on backend).
 */
 static int compile_file(char *filename) {
-	if (!strrstr(filename, ".sk")) {
+	const char *extension = strrstr(filename, ".sk");
+
+	if (!extension || extension[3]) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-- 
2.43.0


From d50d5fb958f5c45975ba52dd3eaed338a943b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:08 +0000
Subject: [PATCH 32/62] fix: -q suppresses warnings, not the error messages of
 a failed compile

---
 skull/common/errors.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/skull/common/errors.c b/skull/common/errors.c
index 72664cf..b0a9c8a 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -16,6 +16,8 @@
 static char *fmt_message_internal(ErrorType, ErrorCode, Message []);
 static void message_stringify(Message *const);
 static void write_error_msg(char *);
+static void free_warnings(void);
+static bool is_warning(const char *);
 static char *get_location_str(const Message *);
 static char *get_error_msg(const Message[], size_t, ErrorCode);
 
@@ -29,6 +31,9 @@ const char *fatal_msg = "%s: Compilation error: ";
 
 Vector *error_msgs;
 
+// the messages in `error_msgs` which are warnings
+static Vector *warning_msgs;
+
 static const char *errors[] = {
 	[ERR_UNEXPECTED_TOKEN] = "unexpected token: \"%s\"",
 	[ERR_EOF_NO_BRACKET] = "Reached EOF, expected closing bracket",
@@ -118,6 +123,11 @@ void fmt_message(ErrorType type, ErrorCode id, Message msgs[]) {
 
 	if (!error_msgs) error_msgs = make_vector();
 	vector_push(error_msgs, msg);
+
+	if (type == ERROR_WARN) {
+		if (!warning_msgs) warning_msgs = make_vector();
+		vector_push(warning_msgs, msg);
+	}
 }
 
 /*
@@ -252,6 +262,7 @@ void write_and_free_errors(void) {
 		free_vector(error_msgs, (void(*)(void *))write_error_msg);
 		error_msgs = NULL;
 	}
+	free_warnings();
 }
 
 void free_errors(void) {
@@ -259,9 +270,27 @@ void free_errors(void) {
 		free_vector(error_msgs, free);
 		error_msgs = NULL;
 	}
+	free_warnings();
+}
+
+static void free_warnings(void) {
+	if (warning_msgs) {
+		free_vector(warning_msgs, NULL);
+		warning_msgs = NULL;
+	}
+}
+
+static bool is_warning(const char *msg) {
+	for (size_t i = 0; warning_msgs && i < warning_msgs->length; i++) {
+		if (vector_at(warning_msgs, i) == msg) return true;
+	}
+
+	return false;
 }
 
 static void write_error_msg(char *msg) {
-	if (!BUILD_DATA.quiet) fprintf(stderr, "%s", msg);
+	// a failed compile always says why, even when warnings are suppressed
+	if (!BUILD_DATA.quiet || !is_warning(msg)) fprintf(stderr, "%s", msg);
+
 	free(msg);
 }
-- 
2.43.0


From 09afbb7883f38d786234e5a7c07b8478263208b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:13 +0000
Subject: [PATCH 33/62] fix: accept subnormal float constants

---
 skull/semantic/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 853af1d..f46e05d 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -42,7 +42,8 @@ double eval_float(const Token *const token, bool *err) {
 	const double ret = strtod(float_str, NULL);
 	free(float_str);
 
-	if (errno == ERANGE) {
+	// subnormal numbers set errno, but they are still valid
+	if (errno == ERANGE && fpclassify(ret) != FP_SUBNORMAL) {
 		FMT_ERROR(ERR_OVERFLOW, { .tok = token });
 
 		*err = true;
-- 
2.43.0


From 27dd345b630d716325097ee9d826e0d149ee2405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:17 +0000
Subject: [PATCH 34/62] fix: runes past the range of iscntrl were randomly
 taken as control characters

---
 skull/semantic/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index f46e05d..eb36074 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -98,7 +98,8 @@ Return "rune" converted from `token`.
 char32_t eval_rune(const Token *const token, bool *err) {
 	const char32_t *start = token->begin + 1;
 
-	if (iscntrl((int)*start)) {
+	// iscntrl is only defined for values of unsigned char
+	if (*start <= UCHAR_MAX && iscntrl((int)*start)) {
 		FMT_ERROR(ERR_NO_CONTROL_CHAR, { .loc = &token->location });
 
 		*err = true;
-- 
2.43.0


From 7eb64764e56c7deb1d30bad7a2623d39f388de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:58 +0000
Subject: [PATCH 35/62] fix: blocks which generate no code are valid C with the
 C backend

---
 skull/codegen/c/core.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/core.c b/skull/codegen/c/core.c
index c31c1c2..77463c1 100644
--- a/skull/codegen/c/core.c
+++ b/skull/codegen/c/core.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/codegen/c/assign.h"
 #include "skull/codegen/c/debug.h"
@@ -42,7 +43,7 @@ CTree gen_tree_c(const AstNode *node, SkullStateC *state) {
 
 	state->indent_lvl--;
 
-	return generated;
+	return generated ? generated : strdup("");
 }
 
 static CStmt gen_node_c(const AstNode *node, SkullStateC *state) {
-- 
2.43.0


From d99d326d352a61c6b997068dc2d283ea8d085751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:20 +0000
Subject: [PATCH 36/62] fix: top level variables which C cannot initialize
 statically are set in init with the C backend

---
 skull/codegen/c/assign.c | 42 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index a280bd7..d3d741a 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <stdbool.h>
 #include <stddef.h>
 #include <stdlib.h>
 
@@ -7,6 +8,7 @@
 #include "skull/codegen/c/types.h"
 #include "skull/common/str.h"
 #include "skull/semantic/symbol.h"
+#include "skull/semantic/types.h"
 #include "skull/semantic/variable.h"
 
 #include "skull/codegen/c/assign.h"
@@ -23,6 +25,7 @@ static void gen_stmt_constexpt_global_var(
 	CType,
 	SkullStateC *
 );
+static bool is_static_initializer(const AstNodeExpr *);
 
 CStmt gen_stmt_var_assign_c(const AstNode *node, SkullStateC *state) {
 	return gen_stmt_var_assign_c_(
@@ -71,7 +74,7 @@ static CStmt gen_stmt_global_var(
 ) {
 	const Variable *var = node->var_def->symbol->var;
 
-	if (var->expr->is_const_expr) {
+	if (var->expr->is_const_expr && is_static_initializer(var->expr)) {
 		gen_stmt_constexpt_global_var(var, type, state);
 
 		return NULL;
@@ -102,6 +105,43 @@ static CStmt gen_stmt_global_var(
 	return gen_stmt_var_assign_c_(var->name, node->var_def->expr, state);
 }
 
+/*
+Return true if C allows `expr` as the initializer of a static variable.
+*/
+static bool is_static_initializer(const AstNodeExpr *expr) {
+	switch (expr->oper) {
+		case EXPR_CONST:
+		case EXPR_REF:
+		case EXPR_DEREF:
+			return true;
+		case EXPR_IDENTIFIER: {
+			return expr->symbol->var->is_const &&
+				expr->type != &TYPE_STR &&
+				!expr->type->inner &&
+				is_static_initializer(expr->symbol->var->expr);
+		}
+		case EXPR_POW:
+		case EXPR_FUNC:
+			return false;
+		case EXPR_UNARY_NEG:
+		case EXPR_NOT:
+			return is_static_initializer(expr->rhs);
+		case EXPR_MOD: {
+			if (expr->type == &TYPE_FLOAT) return false;
+			break;
+		}
+		case EXPR_IS:
+		case EXPR_ISNT: {
+			if (expr->lhs.expr->type == &TYPE_STR) return false;
+			break;
+		}
+		default: break;
+	}
+
+	return is_static_initializer(expr->lhs.expr) &&
+		is_static_initializer(expr->rhs);
+}
+
 static CStmt gen_stmt_stack_var(
 	const AstNode *node,
 	CType type,
-- 
2.43.0


From 84c506959b3ef2ba5cc166a17e792055da05ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:22 +0000
Subject: [PATCH 37/62] fix: object files and assembly contain the built-ins
 they use

---
 skull/codegen/llvm/write.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 6035243..77559e8 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -58,6 +58,11 @@ bool write_llvm(const char *filename, SkullStateLLVM *state) {
 	// create a binary, though we still want it to be verified+optimized
 	if (will_build_binary() && !add_start_shim(state)) return PHASE_ERR;
 
+	// object files need the built-ins too, nothing else provides them
+	if (!BUILD_DATA.preprocess && !llvm_insert_builtins(state)) {
+		return PHASE_ERR;
+	}
+
 	PhaseResult result = verify_llvm(state);
 	if (result != PHASE_NEXT) return result;
 
@@ -402,7 +407,7 @@ static bool add_start_shim(SkullStateLLVM *state) {
 	// for now
 	LLVMBuildRetVoid(state->builder);
 
-	return llvm_insert_builtins(state);
+	return true;
 }
 
 /*
@@ -434,6 +439,16 @@ static bool llvm_insert_builtins(SkullStateLLVM *state) {
 		return false;
 	}
 
+	// only the built-ins which are used get linked, and all modules of a
+	// program share them
+	LLVMValueRef func = LLVMGetFirstFunction(shim_module);
+	while (func) {
+		if (!LLVMIsDeclaration(func)) {
+			LLVMSetLinkage(func, LLVMLinkOnceODRLinkage);
+		}
+		func = LLVMGetNextFunction(func);
+	}
+
 	failed = LLVMLinkModules2(state->module, shim_module);
 	if (failed) {
 		// there is a diagnostic handler you can setup to get the actual error,
-- 
2.43.0


From b7de41d5318dcf0123d9fbf32f3f3925a4bd3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:26 +0000
Subject: [PATCH 38/62] fix: SkullStr is a C string, which is what a Str is
 passed as

---
 skull/Skull.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/Skull.h b/skull/Skull.h
index dedd8f5..5b54e96 100644
--- a/skull/Skull.h
+++ b/skull/Skull.h
@@ -10,7 +10,7 @@
 typedef int64_t SkullInt;
 typedef double SkullFloat;
 typedef char32_t SkullRune;
-typedef char32_t * SkullStr;
+typedef char *SkullStr;
 
 #define SKULL_INIT_MODULE(name) \
 	int name(void) __asm__("." #name); name();
-- 
2.43.0


From 19ce7de640432a767c78ba49c918ae0d6241d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:38 +0000
Subject: [PATCH 39/62] fix: functions and namespaces are not variables

---
 skull/semantic/scope.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index e1d7504..0de0c5f 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -115,6 +115,7 @@ Symbol *scope_find_var(SemanticState *state, const Token *const token) {
 	Symbol *const symbol = scope_find_name(state->scope, var_name);
 
 	if (!symbol ||
+		symbol->type != SYMBOL_VAR ||
 		!symbol->var ||
 		!symbol->var->is_defined
 	) {
-- 
2.43.0


From afa877b0399fe110fc677242e109986e1b1f4768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:39 +0000
Subject: [PATCH 40/62] fix: say why a namespace cannot be declared twice

---
 skull/common/errors.c   | 1 +
 skull/common/errors.h   | 1 +
 skull/semantic/symbol.c | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/skull/common/errors.c b/skull/common/errors.c
index b0a9c8a..124b69c 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -114,6 +114,7 @@ static const char *errors[] = {
 	[ERR_NO_REDEFINE_X_AS_Y] = "cannot redeclare %s \"%s\" as %s",
 	[ERR_EQUAL_BAD_TYPE] = "cannot use type \"%s\" for equality operator",
 	[ERR_PARAM_BAD_TYPE] = "cannot use type \"%s\" for function parameter",
+	[ERR_NO_REDEFINE_NAMESPACE] = "cannot redefine namespace \"%s\"",
 };
 
 static const unsigned MAX_ERRORS = sizeof(errors) / sizeof(char *);
diff --git a/skull/common/errors.h b/skull/common/errors.h
index ab14123..95d3dd9 100644
--- a/skull/common/errors.h
+++ b/skull/common/errors.h
@@ -86,6 +86,7 @@ typedef enum {
 	ERR_NO_REDEFINE_X_AS_Y = 79,
 	ERR_EQUAL_BAD_TYPE = 80,
 	ERR_PARAM_BAD_TYPE = 81,
+	ERR_NO_REDEFINE_NAMESPACE = 82,
 } ErrorCode;
 
 typedef struct Variable Variable;
diff --git a/skull/semantic/symbol.c b/skull/semantic/symbol.c
index b6c1a80..5838199 100644
--- a/skull/semantic/symbol.c
+++ b/skull/semantic/symbol.c
@@ -37,6 +37,9 @@ static bool symbol_already_exists(SemanticState *state, Symbol *new_symbol) {
 	else if (type == SYMBOL_FUNC) {
 		FMT_ERROR(ERR_NO_REDEFINE_FUNC, { .loc = location, .real = name });
 	}
+	else if (type == SYMBOL_NAMESPACE) {
+		FMT_ERROR(ERR_NO_REDEFINE_NAMESPACE, { .loc = location, .real = name });
+	}
 
 	return true;
 }
-- 
2.43.0


From 1bd14fa210c95f17440ebe3fe4097fd2a466d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:32 +0000
Subject: [PATCH 41/62] fix: a definition with an explicit type needs an equal
 sign

---
 skull/parse/ast_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 760eb11..cb97aba 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -118,7 +118,7 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (is_explicit_type(ctx)) {
 		is_implicit = false;
 
-		if (!ctx->token) {
+		if (!ctx->token || ctx->token->type != TOKEN_OPER_EQUAL) {
 			FMT_ERROR(ERR_MISSING_ASSIGNMENT, { .loc = &name_token->location });
 			return RESULT_ERROR;
 		}
-- 
2.43.0


From 5fc0f614abf75804f7dbb646baf99b36c5d3eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:37 +0000
Subject: [PATCH 42/62] fix: commas are not statements

---
 skull/parse/ast_node.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index cb97aba..f63a3a3 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -576,8 +576,7 @@ static bool parse_ast_node(ParserCtx *ctx) {
 			return true;
 		}
 		case TOKEN_BRACKET_OPEN: parse_ast_sub_tree_(ctx); break;
-		case TOKEN_NEWLINE:
-		case TOKEN_COMMA: next_token(ctx); break;
+		case TOKEN_NEWLINE: next_token(ctx); break;
 		case TOKEN_KW_RETURN: parse_return(ctx); break;
 		case TOKEN_KW_IF: parse_if(ctx); break;
 		case TOKEN_KW_ELIF: parse_elif(ctx); break;
-- 
2.43.0


From a19dbdafdb33f19d06e56bff69ff890b1a728bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:56 +0000
Subject: [PATCH 43/62] fix: a # right before the end of a block comment does
 not hide it

---
 skull/parse/token.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 177fb75..d7d5f14 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -154,13 +154,13 @@ static bool iter_comment(TokenizeCtx *ctx) {
 			break;
 		}
 		if (ctx->comment == BLOCK_COMMENT && *ctx->code == '#') {
-			chomp(ctx);
-
-			if (*ctx->code == '}') break;
-
-			if (*ctx->code == '\n') next_line(ctx);
+			if (ctx->code[1] == '}') {
+				chomp(ctx);
+				break;
+			}
+			if (ctx->code[1] == '{') {
+				chomp(ctx);
 
-			else if (*ctx->code == '{') {
 				Location location = (Location){
 					.line = ctx->line_num,
 					.column = ctx->column
-- 
2.43.0


From 848a8ac844e1337f851cb65fd9094d80d9da4feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:02 +0000
Subject: [PATCH 44/62] fix: a file of only spaces is an empty file

---
 skull/parse/token.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index d7d5f14..d9c85bc 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -82,6 +82,8 @@ Token *tokenize(const char32_t *code) {
 		ctx.last->next = NULL;
 		free(ctx.token);
 	}
+	// only whitespace was found, which is the same as an empty line
+	else head->type = TOKEN_NEWLINE;
 
 	return head;
 }
-- 
2.43.0


From b9fe68e92e9e132f912ee1c43d35a3fc5ed4c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:45 +0000
Subject: [PATCH 45/62] fix: pass and return C Bools with all bits defined

---
 skull/codegen/llvm/func.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index a677912..7a80626 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -29,6 +29,10 @@ static LLVMTypeRef *parse_func_param(
 	const FunctionDeclaration *,
 	const SkullStateLLVM *state
 );
+static void add_bool_attributes(
+	const FunctionDeclaration *,
+	const SkullStateLLVM *
+);
 
 /*
 Parse declaration (and potential definition) of function in `node`.
@@ -77,6 +81,33 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 			LLVMExternalLinkage :
 			LLVMPrivateLinkage
 	);
+
+	add_bool_attributes(func, state);
+}
+
+/*
+C expects that all bits of the `Bool`s that it gets from Skull are defined.
+*/
+static void add_bool_attributes(
+	const FunctionDeclaration *func,
+	const SkullStateLLVM *state
+) {
+	const LLVMAttributeRef zeroext = LLVMCreateEnumAttribute(
+		state->ctx,
+		LLVMGetEnumAttributeKindForName("zeroext", strlen("zeroext")),
+		0
+	);
+
+	if (func->is_export && func->return_type == &TYPE_BOOL) {
+		LLVMAddAttributeAtIndex(func->ref, LLVMAttributeReturnIndex, zeroext);
+	}
+
+	if (!func->is_external) return;
+
+	for (unsigned i = 0; i < func->num_params; i++) {
+		if (func->param_types[i] == &TYPE_BOOL)
+			LLVMAddAttributeAtIndex(func->ref, i + 1, zeroext);
+	}
 }
 
 /*
-- 
2.43.0


From 67673df726a47c943089d3ae4321dddb80f4482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:21 +0000
Subject: [PATCH 46/62] fix: file names and arguments for cc are not expanded
 by the shell

---
 skull/cli.c                | 25 ++++++++-----------------
 skull/codegen/llvm/write.c | 10 +++++++---
 skull/common/str.c         | 25 +++++++++++++++++++++++++
 skull/common/str.h         |  1 +
 4 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index 3a0215d..8108acd 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -261,29 +261,20 @@ static bool parse_long_option(const char *arg) {
 }
 
 static char *squash_argv(char *argv[]) {
-	size_t len = 0;
-	char **argv_copy = argv;
+	char *out = NULL;
 
 	while (*argv) {
-		len += strlen(*argv) + 1;
-		argv++;
-	}
-
-	argv = argv_copy;
-
-	char *out = Malloc(len);
-	size_t wrote = 0;
+		char *quoted = shell_quote(*argv);
+		char *joined = uvsnprintf(
+			"%s%s%s", out ? out : "", out ? " " : "", quoted
+		);
 
-	while (*argv) {
-		const size_t current_len = strlen(*argv) + 1;
-		memcpy(out + wrote, *argv, current_len);
-		wrote += current_len;
-		out[wrote - 1] = ' ';
+		free(quoted);
+		free(out);
+		out = joined;
 		argv++;
 	}
 
-	out[wrote - 1] = '\0';
-
 	return out;
 }
 
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 77559e8..4d032c4 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -191,12 +191,16 @@ static PhaseResult emit_native_binary(void) {
 
 	if (err) return PHASE_ERR;
 
+	char *object_arg = shell_quote(BUILD_DATA.out_file);
+	char *binary_arg = shell_quote(binary_name);
 	char *shim = uvsnprintf(
-		"cc -nostartfiles \"%s\" -o \"%s\" %s -I/usr/include/skull -lm",
-		BUILD_DATA.out_file,
-		binary_name,
+		"cc -nostartfiles %s -o %s %s -I/usr/include/skull -lm",
+		object_arg,
+		binary_arg,
 		BUILD_DATA.extra_args ? BUILD_DATA.extra_args : (char[]){0}
 	);
+	free(object_arg);
+	free(binary_arg);
 	free(binary_name);
 
 	const bool exit_code = shell(shim);
diff --git a/skull/common/str.c b/skull/common/str.c
index 312618e..cd82ecc 100644
--- a/skull/common/str.c
+++ b/skull/common/str.c
@@ -380,3 +380,28 @@ __attribute__((format(printf, 1, 2))) char *uvsnprintf(
 #else
 # pragma GCC diagnostic pop
 #endif
+
+/*
+Return `str` quoted such that a shell reads it as one argument, as it is.
+*/
+char *shell_quote(const char *str) {
+	size_t len = 3;
+	for (const char *c = str; *c; c++) len += *c == '\'' ? 4 : 1;
+
+	char *out = Malloc(len);
+	char *at = out;
+	*at++ = '\'';
+
+	for (; *str; str++) {
+		if (*str == '\'') {
+			memcpy(at, "'\\''", 4);
+			at += 4;
+		}
+		else *at++ = *str;
+	}
+
+	*at++ = '\'';
+	*at = '\0';
+
+	return out;
+}
diff --git a/skull/common/str.h b/skull/common/str.h
index a7dcf71..f9e9359 100644
--- a/skull/common/str.h
+++ b/skull/common/str.h
@@ -24,3 +24,4 @@ _Bool c32isalnum(char32_t);
 char32_t c32sunescape(const char32_t **, const char32_t **);
 
 char *uvsnprintf(const char *const, ...);
+char *shell_quote(const char *);
-- 
2.43.0


From 224c17081f5f04afedee485cdfbac1c639d6da0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:47 +0000
Subject: [PATCH 47/62] fix: no temporary object is left when the binary is a
 directory

---
 skull/codegen/llvm/write.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 4d032c4..af2fa91 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -45,7 +45,7 @@ static bool will_build_binary(void);
 static int sh(char *[]);
 static int shell(char *);
 static char *get_binary_name(void);
-static bool check_directory(char *);
+static bool binary_is_directory(void);
 
 /*
 Writer for LLVM backend. Can emit LLVM, native binary, or assembler based
@@ -69,6 +69,9 @@ bool write_llvm(const char *filename, SkullStateLLVM *state) {
 	result = optimize_llvm(state);
 	if (result != PHASE_NEXT) return result;
 
+	// check now, before the (temporary) object file is written
+	if (will_build_binary() && binary_is_directory()) return PHASE_ERR;
+
 	result = emit_stage_1(filename, state);
 	if (result != PHASE_NEXT) return result;
 
@@ -162,20 +165,23 @@ static char *get_binary_name(void) {
 }
 
 /*
-Return true if an error occurs.
+Return true (and print an error) if binary cannot be written because it is a
+directory.
 */
-static bool check_directory(char *binary_name) {
-	if (is_directory(binary_name)) {
+static bool binary_is_directory(void) {
+	char *binary_name = get_binary_name();
+	const bool is_dir = is_directory(binary_name);
+
+	if (is_dir) {
 		fprintf(
 			stderr,
 			"skull: \"%s\" is a directory not a file\n",
 			binary_name
 		);
-		free(binary_name);
-		return true;
 	}
 
-	return false;
+	free(binary_name);
+	return is_dir;
 }
 
 /*
@@ -187,10 +193,6 @@ LLVM module, but that is for later.
 */
 static PhaseResult emit_native_binary(void) {
 	char *binary_name = get_binary_name();
-	bool err = check_directory(binary_name);
-
-	if (err) return PHASE_ERR;
-
 	char *object_arg = shell_quote(BUILD_DATA.out_file);
 	char *binary_arg = shell_quote(binary_name);
 	char *shim = uvsnprintf(
-- 
2.43.0


From 130d5f211fbde4994a807e932ba15fcfba51e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:53 +0000
Subject: [PATCH 48/62] fix: report when the output of the C backend cannot be
 written

---
 skull/codegen/c/write.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 60ba0e5..b2ae198 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -43,9 +43,13 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
+	errno = 0;
+	const bool failed = fflush(f) || ferror(f);
+	if (failed) perror("skull: cannot write output");
+
 	if (f != stdout) fclose(f);
 
-	return false;
+	return failed;
 }
 
 static void print_headers(FILE *f) {
-- 
2.43.0


From 7b7bcc7730fe60c5cfcdcc66158bf70db7feffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:59 +0000
Subject: [PATCH 49/62] fix: say that the input is a directory

---
 skull/real_main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skull/real_main.c b/skull/real_main.c
index 56485a5..c9457b4 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -49,6 +49,11 @@ static int compile_file(char *filename) {
 		DIE("\".sk\" is not a valid name, exiting");
 	}
 
+	if (is_directory(filename)) {
+		fprintf(stderr, "skull: \"%s\" is a directory not a file\n", filename);
+		return 1;
+	}
+
 	FILE *f = open_file(filename, true);
 	if (!f) return 1;
 
-- 
2.43.0


From 3c10f36fe8b4f826e0b0a98673636dc8407da553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:04 +0000
Subject: [PATCH 50/62] fix: optimization levels with more digits do not exist

---
 skull/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/cli.c b/skull/cli.c
index 8108acd..2eaf22f 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -107,7 +107,7 @@ static int handle_args(int argc, char *argv[]) {
 			break;
 		}
 		case 'O': {
-			switch (argv[0][2]) {
+			switch (argv[0][2] && argv[0][3] ? 0 : argv[0][2]) {
 				case '1': set_bool_flag(&BUILD_DATA.optimize1, "-O1"); break;
 				case '2': set_bool_flag(&BUILD_DATA.optimize2, "-O2"); break;
 				case '3': set_bool_flag(&BUILD_DATA.optimize3, "-O3"); break;
-- 
2.43.0


From a3ead8ec6a4d4a96639d544fd8de981f083bce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:27 +0000
Subject: [PATCH 51/62] fix: exported functions are not unused

---
 skull/semantic/unused.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/unused.c b/skull/semantic/unused.c
index 1d94f7b..451335b 100644
--- a/skull/semantic/unused.c
+++ b/skull/semantic/unused.c
@@ -39,7 +39,7 @@ bool check_unused_symbols(const AstNode *node) {
 		else if (head->type == AST_NODE_FUNCTION_PROTO) {
 			const Symbol *symbol = head->func_proto->symbol;
 
-			if (!symbol->func->was_called) {
+			if (!symbol->func->was_called && !symbol->func->is_export) {
 				FMT_WARN(err, WARN_FUNC_UNUSED, {
 					.str = symbol->name, .loc = &symbol->location
 				});
-- 
2.43.0


From 8e21b9c0f1e3c525989b152f4f10ccd6c4975f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:03 +0000
Subject: [PATCH 52/62] fix: debug location of an assignment is that of the
 assignment

---
 skull/codegen/llvm/assign.c | 13 ++++++++-----
 skull/codegen/llvm/assign.h |  7 ++++++-
 skull/codegen/llvm/core.c   |  7 ++++++-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index d6031fe..b59613d 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -18,6 +18,7 @@
 static void assign_value_to_var(
 	LLVMValueRef,
 	Symbol *,
+	const Location *,
 	const SkullStateLLVM *
 );
 static void setup_var_llvm(LLVMValueRef, Symbol *, const SkullStateLLVM *);
@@ -39,15 +40,16 @@ void gen_stmt_var_def(const AstNodeVarDef *var_def, SkullStateLLVM *state) {
 }
 
 /*
-Assign a to a variable from `var_assign`.
+Assign a to a variable from `var_assign`, which is located at `location`.
 */
 void gen_stmt_var_assign(
 	const AstNodeVarAssign *var_assign,
+	const Location *location,
 	SkullStateLLVM *state
 ) {
 	LLVMValueRef value = gen_expr(var_assign->expr, state).value;
 
-	assign_value_to_var(value, var_assign->symbol, state);
+	assign_value_to_var(value, var_assign->symbol, location, state);
 }
 
 static void setup_var_llvm(
@@ -92,15 +94,16 @@ static void setup_var_llvm(
 		);
 	}
 
-	assign_value_to_var(value, symbol, state);
+	assign_value_to_var(value, symbol, &symbol->location, state);
 }
 
 /*
-Assign `value` to `symbol`.
+Assign `value` to `symbol`, in the statement at `location`.
 */
 static void assign_value_to_var(
 	LLVMValueRef value,
 	Symbol *symbol,
+	const Location *location,
 	const SkullStateLLVM *state
 ) {
 	Variable *var = symbol->var;
@@ -116,7 +119,7 @@ static void assign_value_to_var(
 			var->ref
 		);
 
-		add_llvm_debug_info(store, &symbol->location, state);
+		add_llvm_debug_info(store, location, state);
 	}
 }
 
diff --git a/skull/codegen/llvm/assign.h b/skull/codegen/llvm/assign.h
index 34079af..6100f88 100644
--- a/skull/codegen/llvm/assign.h
+++ b/skull/codegen/llvm/assign.h
@@ -2,8 +2,13 @@
 
 typedef struct AstNodeVarAssign AstNodeVarAssign;
 typedef struct AstNodeVarDef AstNodeVarDef;
+typedef struct Location Location;
 
 #include "skull/codegen/llvm/shared.h"
 
 void gen_stmt_var_def(const AstNodeVarDef *, SkullStateLLVM *);
-void gen_stmt_var_assign(const AstNodeVarAssign *, SkullStateLLVM *);
+void gen_stmt_var_assign(
+	const AstNodeVarAssign *,
+	const Location *,
+	SkullStateLLVM *
+);
diff --git a/skull/codegen/llvm/core.c b/skull/codegen/llvm/core.c
index b914d5a..9b4ac4b 100644
--- a/skull/codegen/llvm/core.c
+++ b/skull/codegen/llvm/core.c
@@ -46,7 +46,12 @@ static Expr gen_node(const AstNode **node, SkullStateLLVM *state) {
 		case AST_NODE_VAR_DEF:
 			gen_stmt_var_def((*node)->var_def, state); break;
 		case AST_NODE_VAR_ASSIGN:
-			gen_stmt_var_assign((*node)->var_assign, state); break;
+			gen_stmt_var_assign(
+				(*node)->var_assign,
+				&(*node)->token->location,
+				state
+			);
+			break;
 		case AST_NODE_EXPR:
 			gen_expr_func_call((*node)->expr->lhs.func_call, state); break;
 		case AST_NODE_NOOP:
-- 
2.43.0


From c2fc6463f7cd3f378f5ffe3adc5b495fbe4e833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:08 +0000
Subject: [PATCH 53/62] fix: a condition does not change the debug location of
 prior statements

---
 skull/codegen/llvm/flow.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 9734c2f..650555e 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -22,6 +22,7 @@ static void gen_control_if_(
 	SkullStateLLVM *
 );
 
+static LLVMValueRef gen_condition(const AstNodeExpr *, SkullStateLLVM *);
 static Expr gen_control_code_block(
 	const AstNode *,
 	LLVMBasicBlockRef,
@@ -110,8 +111,7 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 	LLVMBuildBr(state->builder, while_cond);
 	LLVMPositionBuilderAtEnd(state->builder, while_cond);
 
-	LLVMValueRef cond = gen_expr(node->expr, state).value;
-	add_llvm_debug_info(cond, find_expr_node_location(node->expr), state);
+	LLVMValueRef cond = gen_condition(node->expr, state);
 
 	LLVMBuildCondBr(
 		state->builder,
@@ -195,12 +195,7 @@ static void gen_control_if_(
 		);
 		LLVMMoveBasicBlockAfter(end, if_cond_false);
 
-		LLVMValueRef cond = gen_expr((*node)->expr, state).value;
-		add_llvm_debug_info(
-			cond,
-			find_expr_node_location((*node)->expr),
-			state
-		);
+		LLVMValueRef cond = gen_condition((*node)->expr, state);
 
 		LLVMBuildCondBr(
 			state->builder,
@@ -223,12 +218,7 @@ static void gen_control_if_(
 	}
 	// just a single if statement
 	else {
-		LLVMValueRef cond = gen_expr((*node)->expr, state).value;
-		add_llvm_debug_info(
-			cond,
-			find_expr_node_location((*node)->expr),
-			state
-		);
+		LLVMValueRef cond = gen_condition((*node)->expr, state);
 
 		LLVMBuildCondBr(
 			state->builder,
@@ -241,6 +231,26 @@ static void gen_control_if_(
 	LLVMPositionBuilderAtEnd(state->builder, end);
 }
 
+/*
+Build the condition `expr` of a control flow statement.
+*/
+static LLVMValueRef gen_condition(
+	const AstNodeExpr *expr,
+	SkullStateLLVM *state
+) {
+	LLVMBasicBlockRef block = LLVMGetInsertBlock(state->builder);
+	LLVMValueRef last = LLVMGetLastInstruction(block);
+
+	LLVMValueRef cond = gen_expr(expr, state).value;
+
+	// values computed by a prior statement keep the location of that statement
+	if (cond != last && cond == LLVMGetLastInstruction(block)) {
+		add_llvm_debug_info(cond, find_expr_node_location(expr), state);
+	}
+
+	return cond;
+}
+
 Expr gen_stmt_break(const SkullStateLLVM *state) {
 	return (Expr){
 		.value = LLVMBuildBr(state->builder, state->current_while_end),
-- 
2.43.0


From e677c6f9ed8cc5927b57849f40cc94723ef3ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:25 +0000
Subject: [PATCH 54/62] fix: constants are described by their value in debug
 info

---
 skull/codegen/llvm/debug.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skull/codegen/llvm/debug.c b/skull/codegen/llvm/debug.c
index b8c1f2b..52308e6 100644
--- a/skull/codegen/llvm/debug.c
+++ b/skull/codegen/llvm/debug.c
@@ -279,6 +279,19 @@ static void add_llvm_local_var_def_debug_info(
 		8 // alignment
 	);
 
+	// constants have no storage, `ref` is the value itself
+	if (symbol->var->is_const) {
+		LLVMDIBuilderInsertDbgValueRecordAtEnd(
+			DEBUG_INFO.builder,
+			symbol->var->ref,
+			di_var,
+			LLVMDIBuilderCreateExpression(DEBUG_INFO.builder, NULL, 0),
+			make_llvm_debug_location(&symbol->location, state),
+			LLVMGetInsertBlock(state->builder)
+		);
+		return;
+	}
+
 	LLVMDIBuilderInsertDeclareRecordAtEnd(
 		DEBUG_INFO.builder,
 		symbol->var->ref,
-- 
2.43.0


From 1b4bff735f97c2d322265971318482660398f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:48 +0000
Subject: [PATCH 55/62] fix: C backend: line of exported functions

---
 skull/codegen/c/func.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index cd42ec9..886746c 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -97,9 +97,8 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 
 		out = uvsnprintf(
 			func->is_export ?
-				"%s%s %s(%s) {\n%s\n}" :
-				"%sstatic %s %s(%s) {\n%s\n}",
-			func->is_export ? fwd_decl : "",
+				"%s %s(%s) {\n%s\n}" :
+				"static %s %s(%s) {\n%s\n}",
 			return_type,
 			symbol->name,
 			param_list,
@@ -108,6 +107,12 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 
 		out = apply_debug_info(out, node);
 
+		if (func->is_export) {
+			char *definition = out;
+			out = uvsnprintf("%s%s", fwd_decl, definition);
+			free(definition);
+		}
+
 		free(tree);
 	}
 
-- 
2.43.0


From 6fe6154c5bb43ec60db5d0af49ded7d54846d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:15 +0000
Subject: [PATCH 56/62] fix: stdout stays open after printing LLVM IR

---
 skull/codegen/llvm/write.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index af2fa91..48d48c6 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -137,6 +137,24 @@ static PhaseResult output_llvm_ir(
 		char *out_filename = get_new_filename(filename, "ll");
 
 		char *msg = NULL;
+
+		// LLVM would close stdout, which is needed by whatever comes next
+		if (strcmp(out_filename, "-") == 0) {
+			free(out_filename);
+
+			msg = LLVMPrintModuleToString(state->module);
+			fputs(msg, stdout);
+			LLVMDisposeMessage(msg);
+
+			errno = 0;
+			if (fflush(stdout) || ferror(stdout)) {
+				perror("skull: cannot write output");
+				return PHASE_ERR;
+			}
+
+			return PHASE_DONE;
+		}
+
 		LLVMBool did_fail = LLVMPrintModuleToFile(
 			state->module,
 			out_filename,
-- 
2.43.0


From 429286c480654e8b81d9099f5a3e50b5e658c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 57/62] fix: -o names the binary when building one, not the
 temporary object

---
 skull/codegen/llvm/write.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 48d48c6..0eef1f4 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -175,6 +175,8 @@ static PhaseResult output_llvm_ir(
 }
 
 static char *get_binary_name(void) {
+	if (BUILD_DATA.out_file) return strdup(BUILD_DATA.out_file);
+
 	char *binary_name = strdup(BUILD_DATA.filename); // NOLINT
 	char *last_dot = strrchr(binary_name, '.');
 	binary_name[last_dot - binary_name] = '\0';
@@ -211,7 +213,8 @@ LLVM module, but that is for later.
 */
 static PhaseResult emit_native_binary(void) {
 	char *binary_name = get_binary_name();
-	char *object_arg = shell_quote(BUILD_DATA.out_file);
+	char *object_name = gen_filename(BUILD_DATA.filename, "o");
+	char *object_arg = shell_quote(object_name);
 	char *binary_arg = shell_quote(binary_name);
 	char *shim = uvsnprintf(
 		"cc -nostartfiles %s -o %s %s -I/usr/include/skull -lm",
@@ -226,9 +229,10 @@ static PhaseResult emit_native_binary(void) {
 	const bool exit_code = shell(shim);
 
 	errno = 0;
-	remove(BUILD_DATA.out_file);
+	remove(object_name);
 	if (errno) perror("remove");
 
+	free(object_name);
 	free(shim);
 	free(BUILD_DATA.extra_args);
 
@@ -328,27 +332,33 @@ static PhaseResult emit_stage_1(const char *filename, SkullStateLLVM *state) {
 
 	if (setup_llvm_target_machine(state)) return PHASE_ERR;
 
-	if (!BUILD_DATA.out_file) {
-		BUILD_DATA.out_file = gen_filename(
-			BUILD_DATA.filename,
-			BUILD_DATA.asm_backend ? "s" : "o"
-		);
-	}
-
-	if (!BUILD_DATA.asm_backend && strcmp(BUILD_DATA.out_file, "-") == 0) {
+	if (
+		!BUILD_DATA.asm_backend &&
+		BUILD_DATA.out_file &&
+		strcmp(BUILD_DATA.out_file, "-") == 0
+	) {
 		fprintf(stderr, "skull: cannot print binary file to stdout\n");
 		return PHASE_ERR;
 	}
 
 	char *err_msg = NULL;
 
+	// when building a binary, the output file is the binary, not the object
+	char *out_file = BUILD_DATA.out_file && !will_build_binary() ?
+		strdup(BUILD_DATA.out_file) :
+		gen_filename(
+			BUILD_DATA.filename,
+			BUILD_DATA.asm_backend ? "s" : "o"
+		);
+
 	const bool err = LLVMTargetMachineEmitToFile(
 		state->target_machine,
 		state->module,
-		BUILD_DATA.out_file,
+		out_file,
 		BUILD_DATA.asm_backend ? LLVMAssemblyFile : LLVMObjectFile,
 		&err_msg
 	);
+	free(out_file);
 
 	if (err || err_msg) {
 		fprintf(stderr, "skull: \"%s\"\n", err_msg);
-- 
2.43.0


From 2dba8f75bf5b3eafb60be0e7e2eeb3fda1a0cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:31 +0000
Subject: [PATCH 58/62] fix: count parameters and arguments without wrapping
 around at 65536

---
 skull/codegen/c/expr.c    | 4 ++--
 skull/codegen/c/func.c    | 2 +-
 skull/codegen/llvm/func.c | 2 +-
 skull/parse/ast_node.c    | 4 ++--
 skull/parse/ast_node.h    | 4 ++--
 skull/semantic/expr.c     | 2 +-
 skull/semantic/func.h     | 2 +-
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index 47b23e4..3d0f058 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -207,13 +207,13 @@ static CExpr gen_expr_func_call_c(
 ) {
 	FunctionDeclaration *function = func_call->symbol->func;
 	char *name = func_call->symbol->name;
-	unsigned short num_params = function->num_params;
+	unsigned num_params = function->num_params;
 
 	if (num_params == 0) return uvsnprintf("%s()", name);
 
 	const AstNode *param = func_call->params;
 	char *param_list = NULL;
-	unsigned short at = 0;
+	unsigned at = 0;
 
 	while (at < num_params) {
 		CExpr expr = gen_expr_c(param->expr, state);
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 886746c..9b29129 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -40,7 +40,7 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 	FunctionDeclaration *func = symbol->func;
 	AstNodeFunctionParam **params = func->params;
 	char *param_list = NULL;
-	unsigned short i = 0;
+	unsigned i = 0;
 
 	while (i < func->num_params) {
 		char *param = gen_param_c(*params);
diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 7a80626..da3bc85 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -137,7 +137,7 @@ Expr gen_expr_func_call(
 ) {
 	FunctionDeclaration *function = func_call->symbol->func;
 
-	unsigned short num_params = function->num_params;
+	unsigned num_params = function->num_params;
 
 	LLVMValueRef *params = NULL;
 	if (num_params)
diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index f63a3a3..803f1b6 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -357,7 +357,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 		return RESULT_IGNORE;
 	}
 
-	const unsigned short num_params = (unsigned short)params->length;
+	const unsigned num_params = (unsigned)params->length;
 
 	ctx->node->func_proto = Malloc(
 		sizeof(AstNodeFunctionProto) +
@@ -924,7 +924,7 @@ static AstNodeExpr *parse_func_call(ParserCtx *ctx) {
 
 	ctx->token = ctx->token->next->next;
 
-	unsigned short num_values = 0;
+	unsigned num_values = 0;
 
 	while (true) {
 		if (!ctx->token) {
diff --git a/skull/parse/ast_node.h b/skull/parse/ast_node.h
index 43f85c0..df179ef 100644
--- a/skull/parse/ast_node.h
+++ b/skull/parse/ast_node.h
@@ -113,7 +113,7 @@ typedef struct AstNodeFunctionProto {
 
 	Token *return_type_token;
 
-	unsigned short num_params;
+	unsigned num_params;
 
 	Symbol *symbol;
 
@@ -129,7 +129,7 @@ Used to store special data about function call.
 typedef struct AstNodeFunctionCall {
 	const Token *func_name_tok;
 	AstNode *params;
-	unsigned short num_values;
+	unsigned num_values;
 	Symbol *symbol;
 } AstNodeFunctionCall;
 
diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index 3400a0c..8138232 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -326,7 +326,7 @@ static bool validate_stmt_func_call(SemanticState *state, AstNodeExpr *expr) {
 	function->was_called = true;
 	expr->type = function->return_type;
 
-	unsigned short num_params = function->num_params;
+	unsigned num_params = function->num_params;
 
 	if (num_params != func_call->num_values) {
 		FMT_ERROR(ERR_INVALID_NUM_PARAMS, {
diff --git a/skull/semantic/func.h b/skull/semantic/func.h
index ffcc910..b11e53c 100644
--- a/skull/semantic/func.h
+++ b/skull/semantic/func.h
@@ -21,7 +21,7 @@ typedef struct FunctionDeclaration {
 	void *ref;
 	void *type;
 
-	unsigned short num_params;
+	unsigned num_params;
 	const Type **param_types;
 	char32_t **param_names;
 
-- 
2.43.0


From 74c8f514d75021511d8d5ff6af66cb04e818ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:55 +0000
Subject: [PATCH 59/62] fix: a source that cannot be read is an error, not an
 empty file

---
 skull/common/io.c | 5 +++--
 skull/real_main.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/skull/common/io.c b/skull/common/io.c
index d1af053..0c7986a 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -34,12 +34,13 @@ char *file_to_string(FILE *fd) {
 	char *str = Malloc((size_t)len + 1);
 	const size_t read = fread(str, 1, (size_t)len, fd);
 
-	if (!read) {
+	if (!read || ferror(fd)) {
+		if (ferror(fd)) perror("fread");
 		free(str);
 		return NULL;
 	}
 
-	str[len] = '\0';
+	str[read] = '\0';
 	return str;
 }
 
diff --git a/skull/real_main.c b/skull/real_main.c
index c9457b4..7cdcc19 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdbool.h>
 #include <stdio.h>
 
@@ -59,8 +60,8 @@ static int compile_file(char *filename) {
 
 	char *file_contents = file_to_string(f);
 	if (!file_contents) {
-		bool err = false;
-		FMT_WARN(err, WARN_FILE_EMPTY, {0});
+		bool err = errno != 0;
+		if (!err) FMT_WARN(err, WARN_FILE_EMPTY, {0});
 
 		fclose(f);
 		return err;
-- 
2.43.0


From 9f693997632108f920bf5c56a11160729bc505a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:33 +0000
Subject: [PATCH 60/62] fix: no incomplete output is left when it cannot be
 written

---
 skull/codegen/c/write.c    | 12 ++++++--
 skull/codegen/llvm/write.c | 63 +++++++++++++++-----------------------
 skull/common/io.c          | 36 ++++++++++++++++++++++
 skull/common/io.h          |  2 ++
 4 files changed, 71 insertions(+), 42 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index b2ae198..737b7b4 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -32,8 +32,10 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 		stdout :
 		open_file(out_filename, false);
 
-	free(out_filename);
-	if (!f) return true;
+	if (!f) {
+		free(out_filename);
+		return true;
+	}
 
 	print_headers(f);
 	print_builtins(f, state);
@@ -47,7 +49,11 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	const bool failed = fflush(f) || ferror(f);
 	if (failed) perror("skull: cannot write output");
 
-	if (f != stdout) fclose(f);
+	if (f != stdout) {
+		fclose(f);
+		if (failed) remove_incomplete_file(out_filename);
+	}
+	free(out_filename);
 
 	return failed;
 }
diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 0eef1f4..652084d 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -136,39 +136,13 @@ static PhaseResult output_llvm_ir(
 	else {
 		char *out_filename = get_new_filename(filename, "ll");
 
-		char *msg = NULL;
-
-		// LLVM would close stdout, which is needed by whatever comes next
-		if (strcmp(out_filename, "-") == 0) {
-			free(out_filename);
-
-			msg = LLVMPrintModuleToString(state->module);
-			fputs(msg, stdout);
-			LLVMDisposeMessage(msg);
-
-			errno = 0;
-			if (fflush(stdout) || ferror(stdout)) {
-				perror("skull: cannot write output");
-				return PHASE_ERR;
-			}
-
-			return PHASE_DONE;
-		}
-
-		LLVMBool did_fail = LLVMPrintModuleToFile(
-			state->module,
-			out_filename,
-			&msg
-		);
+		char *msg = LLVMPrintModuleToString(state->module);
+		const bool did_fail = write_file(out_filename, msg, strlen(msg));
 
+		LLVMDisposeMessage(msg);
 		free(out_filename);
 
-		if (did_fail) {
-			fprintf(stderr, "skull: error occurred: %s\n", msg);
-
-			LLVMDisposeMessage(msg);
-			return PHASE_ERR;
-		}
+		if (did_fail) return PHASE_ERR;
 	}
 
 	return PHASE_DONE;
@@ -342,6 +316,20 @@ static PhaseResult emit_stage_1(const char *filename, SkullStateLLVM *state) {
 	}
 
 	char *err_msg = NULL;
+	LLVMMemoryBufferRef output = NULL;
+
+	const bool err = LLVMTargetMachineEmitToMemoryBuffer(
+		state->target_machine,
+		state->module,
+		BUILD_DATA.asm_backend ? LLVMAssemblyFile : LLVMObjectFile,
+		&err_msg,
+		&output
+	);
+
+	if (err || err_msg) {
+		fprintf(stderr, "skull: \"%s\"\n", err_msg);
+		return PHASE_ERR;
+	}
 
 	// when building a binary, the output file is the binary, not the object
 	char *out_file = BUILD_DATA.out_file && !will_build_binary() ?
@@ -351,19 +339,16 @@ static PhaseResult emit_stage_1(const char *filename, SkullStateLLVM *state) {
 			BUILD_DATA.asm_backend ? "s" : "o"
 		);
 
-	const bool err = LLVMTargetMachineEmitToFile(
-		state->target_machine,
-		state->module,
+	const bool did_fail = write_file(
 		out_file,
-		BUILD_DATA.asm_backend ? LLVMAssemblyFile : LLVMObjectFile,
-		&err_msg
+		LLVMGetBufferStart(output),
+		LLVMGetBufferSize(output)
 	);
+
+	LLVMDisposeMemoryBuffer(output);
 	free(out_file);
 
-	if (err || err_msg) {
-		fprintf(stderr, "skull: \"%s\"\n", err_msg);
-		return PHASE_ERR;
-	}
+	if (did_fail) return PHASE_ERR;
 
 	return (BUILD_DATA.compile_only || BUILD_DATA.asm_backend) ?
 		PHASE_DONE :
diff --git a/skull/common/io.c b/skull/common/io.c
index 0c7986a..68c2033 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
+#include <unistd.h>
 
 #include "skull/common/malloc.h"
 
@@ -74,6 +75,41 @@ FILE *open_file(const char *filename, bool is_ro) {
 	return NULL;
 }
 
+/*
+Write `len` bytes of `data` to `filename`, or to stdout if `filename` is "-".
+
+Return `true` if an error occurred (an incomplete file is removed).
+*/
+bool write_file(const char *filename, const char *data, size_t len) {
+	const bool is_stdout = strcmp(filename, "-") == 0;
+
+	FILE *f = is_stdout ? stdout : open_file(filename, false);
+	if (!f) return true;
+
+	errno = 0;
+	fwrite(data, 1, len, f);
+	bool failed = fflush(f) || ferror(f);
+	if (failed) perror("skull: cannot write output");
+
+	if (!is_stdout) {
+		fclose(f);
+		if (failed) remove_incomplete_file(filename);
+	}
+
+	return failed;
+}
+
+/*
+Remove `filename`, unless it is something else than a normal file.
+*/
+void remove_incomplete_file(const char *filename) {
+	struct stat statbuf;
+
+	if (lstat(filename, &statbuf) == 0 && S_ISREG(statbuf.st_mode)) {
+		unlink(filename);
+	}
+}
+
 /*
 Create Skull filename based on `filename` with extention `ext`.
 */
diff --git a/skull/common/io.h b/skull/common/io.h
index 9bd6078..778b049 100644
--- a/skull/common/io.h
+++ b/skull/common/io.h
@@ -4,5 +4,7 @@
 
 char *file_to_string(FILE *const);
 FILE *open_file(const char *, _Bool);
+_Bool write_file(const char *, const char *, size_t);
+void remove_incomplete_file(const char *);
 char *gen_filename(const char *, const char *);
 _Bool is_directory(const char *);
-- 
2.43.0


From 7a47473567749427c39c6b0abd9ebb2419aa836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:58 +0000
Subject: [PATCH 61/62] fix: file names with unusual characters in the C
 backend

---
 skull/codegen/c/assign.c | 13 ++++++---
 skull/codegen/c/debug.c  |  5 +++-
 skull/codegen/c/func.c   |  7 +++--
 skull/codegen/c/shared.c | 57 ++++++++++++++++++++++++++++++++++++++++
 skull/codegen/c/shared.h |  3 +++
 skull/codegen/c/write.c  | 31 +++++++++++++++++-----
 6 files changed, 102 insertions(+), 14 deletions(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index d3d741a..4b71f35 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -83,13 +83,16 @@ static CStmt gen_stmt_global_var(
 	char *old_globals = state->globals;
 
 	if (var->is_exported) {
+		char *asm_name = gen_asm_name_c(var->linkage_name);
+
 		state->globals = uvsnprintf(
-			"%s\n%s %s __asm__(\"%s\");",
+			"%s\n%s %s __asm__(%s);",
 			old_globals ? old_globals : "",
 			type,
 			var->name,
-			var->linkage_name
+			asm_name
 		);
+		free(asm_name);
 	}
 	else {
 		state->globals = uvsnprintf(
@@ -170,16 +173,18 @@ static void gen_stmt_constexpt_global_var(
 
 	if (var->is_exported) {
 		assert(var->is_const);
-		fmt = "%s\nconst %s %s __asm__(\"%s\") = %s;";
+		fmt = "%s\nconst %s %s __asm__(%s) = %s;";
+		char *asm_name = gen_asm_name_c(var->linkage_name);
 
 		state->globals = uvsnprintf(
 			fmt,
 			old_globals ? old_globals : "",
 			type,
 			var->name,
-			var->linkage_name,
+			asm_name,
 			value
 		);
+		free(asm_name);
 	}
 	else {
 		if (var->is_const) fmt = "%s\nstatic const %s %s = %s;";
diff --git a/skull/codegen/c/debug.c b/skull/codegen/c/debug.c
index a55662a..1becff5 100644
--- a/skull/codegen/c/debug.c
+++ b/skull/codegen/c/debug.c
@@ -2,6 +2,7 @@
 
 #include "skull/build_data.h"
 #include "skull/codegen/c/debug.h"
+#include "skull/codegen/c/shared.h"
 
 #include "skull/common/str.h"
 
@@ -9,12 +10,14 @@ char *apply_debug_info(char *str, const AstNode *node) {
 	if (!BUILD_DATA.debug) return str;
 
 	char *old = str;
+	char *filename = escape_c_str(BUILD_DATA.filename);
 	str = uvsnprintf(
 		"#line %li \"%s\"\n%s",
 		node->token->location.line,
-		BUILD_DATA.filename,
+		filename,
 		old
 	);
+	free(filename);
 	free(old);
 
 	return str;
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 9b29129..955192a 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -66,13 +66,16 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 
 	char *fwd_decl = NULL;
 	if (func->is_export) {
+		char *asm_name = gen_asm_name_c(symbol->linkage_name);
+
 		fwd_decl = uvsnprintf(
-			"%s %s(%s) __asm__(\"%s\");\n",
+			"%s %s(%s) __asm__(%s);\n",
 			return_type,
 			symbol->name,
 			param_list,
-			symbol->linkage_name
+			asm_name
 		);
+		free(asm_name);
 	}
 
 	if (func->is_external) {
diff --git a/skull/codegen/c/shared.c b/skull/codegen/c/shared.c
index 47997b2..51f599a 100644
--- a/skull/codegen/c/shared.c
+++ b/skull/codegen/c/shared.c
@@ -1,7 +1,10 @@
+#include <ctype.h>
+#include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
 
 #include "skull/common/malloc.h"
+#include "skull/common/str.h"
 
 #include "skull/codegen/c/shared.h"
 
@@ -13,6 +16,60 @@ SkullStateC *setup_c_state(SemanticState *state) {
 	return Calloc(1, sizeof(SkullStateC));
 }
 
+/*
+Return `str` with the characters escaped that cannot be in a C string.
+*/
+char *escape_c_str(const char *str) {
+	char *escaped = Malloc(strlen(str) * 2 + 1);
+	char *out = escaped;
+
+	while (*str) {
+		if (*str == '"' || *str == '\\') *out++ = '\\';
+		*out++ = *str++;
+	}
+	*out = '\0';
+
+	return escaped;
+}
+
+/*
+Return `true` if assemblers take `name` as is.
+*/
+bool is_asm_name(const char *name) {
+	if (isdigit((unsigned char)*name)) return false;
+
+	while (*name) {
+		const unsigned char c = (unsigned char)*name++;
+
+		if (!isalnum(c) && c != '_' && c != '.' && c < 128) return false;
+	}
+
+	return true;
+}
+
+/*
+Generate the parameter of `__asm__` for a symbol called `name`.
+
+Symbols with unusual characters (from the filename) have to be quoted for
+assemblers, see `_SYMBOL`.
+*/
+char *gen_asm_name_c(const char *name) {
+	char *escaped = escape_c_str(name);
+	char *out = NULL;
+
+	if (is_asm_name(name)) {
+		out = uvsnprintf("\"%s\"", escaped);
+	}
+	else {
+		char *twice = escape_c_str(escaped);
+		out = uvsnprintf("_SYMBOL(\"%s\", \"\\\"%s\\\"\")", escaped, twice);
+		free(twice);
+	}
+
+	free(escaped);
+	return out;
+}
+
 char *get_indentation(const SkullStateC *state) {
 	// use a statically allocated buffer to store tabs, since this will be
 	// called a lot. Buffer is only 64 chars since indentation won't be
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index 60c4382..ae12398 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -13,5 +13,8 @@ typedef struct {
 } SkullStateC;
 
 SkullStateC *setup_c_state(SemanticState *);
+char *escape_c_str(const char *);
+_Bool is_asm_name(const char *);
+char *gen_asm_name_c(const char *);
 char *get_indentation(const SkullStateC *);
 void free_c_state(SkullStateC *);
diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 737b7b4..52a680a 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -16,6 +16,7 @@ static const char *_strcmp; // NOLINT
 static const char *_float_pow; // NOLINT
 static const char *_int_pow; // NOLINT
 static const char *headers;
+static const char *symbol_name;
 
 static void print_headers(FILE *);
 static void print_builtins(FILE *, const SkullStateC *);
@@ -37,11 +38,13 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 		return true;
 	}
 
+	char *module_name = create_main_func_name(BUILD_DATA.filename);
+
 	print_headers(f);
+	if (!is_asm_name(module_name + 1)) fprintf(f, "%s\n", symbol_name);
 	print_builtins(f, state);
 	print_globals(f, state);
 
-	char *module_name = create_main_func_name(BUILD_DATA.filename);
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
@@ -77,30 +80,37 @@ static void print_main_shim(
 	const char *module_name,
 	const SkullStateC *state
 ) {
+	char *asm_name = gen_asm_name_c(module_name);
+
 	if (BUILD_DATA.debug) {
+		char *filename = escape_c_str(BUILD_DATA.filename);
+
 		fprintf(
 			f,
 			"#line 1 \"%s\"\n" \
-			"static int init(void) __asm__(\"%s\");\n" \
+			"static int init(void) __asm__(%s);\n" \
 			"static int init(void) {\n%s\n\treturn 0;\n}\n" \
 			"#line 1 \"%s\"\n" \
 			"int main(void) { return init(); }\n",
-			BUILD_DATA.filename,
-			module_name,
+			filename,
+			asm_name,
 			state->tree ? state->tree : "",
-			BUILD_DATA.filename
+			filename
 		);
+		free(filename);
 	}
 	else {
 		fprintf(
 			f,
-			"static int init(void) __asm__(\"%s\");\n" \
+			"static int init(void) __asm__(%s);\n" \
 			"static int init(void) {\n%s\n\treturn 0;\n}\n" \
 			"int main(void) { return init(); }\n",
-			module_name,
+			asm_name,
 			state->tree ? state->tree : ""
 		);
 	}
+
+	free(asm_name);
 }
 
 
@@ -108,6 +118,13 @@ static const char *headers = \
 "#include <stdint.h>\n" \
 "#include <uchar.h>\n";
 
+static const char *symbol_name = \
+"#ifdef __clang__\n" \
+"#define _SYMBOL(name, quoted) name\n" \
+"#else\n" \
+"#define _SYMBOL(name, quoted) quoted\n" \
+"#endif\n";
+
 static const char *_strcmp = \
 "_Bool _strcmp(const char *a, const char *b) {\n"
 "	while (*a && *b) {\n"
-- 
2.43.0


From 6e27a9e9ae60dac91d1d4ebb56cb723eb8b92785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:05 +0000
Subject: [PATCH 62/62] fix: imports of a file in the root directory

---
 skull/semantic/import.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skull/semantic/import.c b/skull/semantic/import.c
index d64c403..406f976 100644
--- a/skull/semantic/import.c
+++ b/skull/semantic/import.c
@@ -60,8 +60,9 @@ static char *filename_for_module(char *module_name) {
 static char *current_file_dir(void) {
 	char *directory = strdup(BUILD_DATA.filename);
 	char *slash = strrchr(directory, '/');
-	if (slash && directory != slash) {
-		*slash = '\0';
+	if (slash) {
+		// a file in the root directory keeps the slash
+		slash[slash == directory] = '\0';
 	}
 	else {
 		directory[0] = '.';
-- 
2.43.0

