From 05141b09bac572a311fb0faf53ff19e0354ee6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:51 +0000
Subject: [PATCH 01/49] fix: check compound assignment through array, map and
 pointer targets

arr[i] op= v, m[k] op= v, p^ op= v and p.field op= v emitted raw C arithmetic
(or, for arr[i] /= and %=, a plain store), so they wrapped or divided by zero
where the direct form panics. Array element writes also used the sized C type
although elements are stored as int64_t/double, copying bytes past the
temporary.
---
 grayc/src/codegen/codegen.c | 303 ++++++++++++++++++++++--------------
 1 file changed, 182 insertions(+), 121 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 8f433e2..7f5c4f4 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -845,6 +845,36 @@ static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
     return NULL;
 }
 
+/* C type in which an array stores its elements. Sized integers are kept as
+ * int64_t and every float as double, so reads and writes must agree on it. */
+static const char *array_element_c_type(CodeGen *codegen, const char *element_type,
+                                        char *buf, size_t buf_size) {
+    const char *elem_tn = codegen_effective_type_string(codegen, element_type);
+    if (!elem_tn) return "int64_t";
+    if (strcmp(elem_tn, "func") == 0 || strncmp(elem_tn, "func(", 5) == 0) return "void *";
+    if (is_bigint_type(elem_tn)) return bigint_prefix(elem_tn);
+    GrayType *et = type_from_name(elem_tn);
+    switch (et->kind) {
+    case TK_FLOAT:  return "double";
+    case TK_BOOL:   return "bool";
+    case TK_STRING: return "GrayString";
+    case TK_CHAR:   return "int32_t";
+    case TK_BYTE:   return "uint8_t";
+    case TK_ARRAY:  return "GrayArray";
+    case TK_MAP:    return "GrayMap";
+    case TK_STRUCT: return gray_type_to_c_codegen(codegen, elem_tn);
+    case TK_ENUM:
+        return codegen_enum_is_string(codegen, elem_tn)
+            ? "GrayString" : gray_type_to_c_codegen(codegen, elem_tn);
+    case TK_POINTER: {
+        const char *pointee = et->element_type ? et->element_type : "void";
+        snprintf(buf, buf_size, "%s *", gray_type_to_c_codegen(codegen, pointee));
+        return buf;
+    }
+    default:        return "int64_t";
+    }
+}
+
 /* Emit a bigint operand, widening smaller integer or bigint operands so
  * mixed-width expressions like i128+i64 or i256+i128 pass correctly typed
  * values to the bigint arithmetic helpers. */
@@ -2459,35 +2489,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             : NULL;
         if (left_t && left_t->kind == TK_ARRAY) {
             /* Determine element C type */
-            const char *c_elem = "int64_t";
-            const char *elem_tn = codegen_effective_type_string(codegen, left_t->element_type);
-            if (elem_tn && (strcmp(elem_tn, "func") == 0 || strncmp(elem_tn, "func(", 5) == 0)) {
-                c_elem = "void *";
-            } else if (elem_tn) {
-                GrayType *et = type_from_name(elem_tn);
-                if (et->kind == TK_FLOAT) c_elem = "double";
-                else if (et->kind == TK_BOOL) c_elem = "bool";
-                else if (et->kind == TK_STRING) c_elem = "GrayString";
-                else if (et->kind == TK_CHAR) c_elem = "int32_t";
-                else if (et->kind == TK_BYTE) c_elem = "uint8_t";
-                else if (et->kind == TK_ARRAY) c_elem = "GrayArray";
-                else if (et->kind == TK_MAP) c_elem = "GrayMap";
-                else if (et->kind == TK_STRUCT) c_elem = gray_type_to_c_codegen(codegen, elem_tn);
-                else if (et->kind == TK_ENUM) {
-                    c_elem = codegen_enum_is_string(codegen, elem_tn)
-                        ? "GrayString" : gray_type_to_c_codegen(codegen, elem_tn);
-                }
-                else if (et->kind == TK_POINTER) {
-                    static char idx_ptr_buf[MSG_BUF_SIZE];
-                    const char *pointee = et->element_type ? et->element_type : "void";
-                    snprintf(idx_ptr_buf, sizeof(idx_ptr_buf), "%s *", gray_type_to_c_codegen(codegen, pointee));
-                    c_elem = idx_ptr_buf;
-                }
-            }
-            /* Check for bigint element types */
-            if (left_t->element_type && is_bigint_type(left_t->element_type)) {
-                c_elem = bigint_prefix(left_t->element_type);
-            }
+            char elem_buf[MSG_BUF_SIZE];
+            const char *c_elem = array_element_c_type(codegen, left_t->element_type, elem_buf, sizeof(elem_buf));
             /* If left is an rvalue, GRAY_ARRAY_GET's &(arr) would be invalid.
              * Handles three rvalue sources:
              *  1. function call result (NODE_CALL_EXPR)
@@ -7565,6 +7568,95 @@ static void emit_variable_declaration(CodeGen *codegen, AstNode *node) {
     emit(codegen, ";\n");
 }
 
+/* Emit the value of `cur OP value` for a compound assignment, with the same
+ * overflow, division-by-zero and TYPE_MIN / -1 checks as the direct form.
+ * `cur` is a C expression without side effects that reads the target, and
+ * `type_name` is the target's Grayscale type. */
+static void emit_compound_value(CodeGen *codegen, AstNode *node, const char *cur,
+                                const char *type_name) {
+    TokenType aop = node->data.assign.op;
+    bool is_div = (aop == TOK_SLASH_ASSIGN || aop == TOK_PERCENT_ASSIGN);
+    const char *verb = aop == TOK_PLUS_ASSIGN ? "add" : aop == TOK_MINUS_ASSIGN ? "sub" : "mul";
+    const char *binop = aop == TOK_PLUS_ASSIGN ? "+" : aop == TOK_MINUS_ASSIGN ? "-"
+                      : aop == TOK_ASTERISK_ASSIGN ? "*" : aop == TOK_SLASH_ASSIGN ? "/" : "%";
+    if (type_name) type_name = codegen_effective_type_string(codegen, type_name);
+    GrayType *type = type_name ? type_from_name(type_name) : NULL;
+
+    if (type_name && is_bigint_type(type_name)) {
+        const char *pfx = bigint_prefix(type_name);
+        if (is_div) {
+            emit_formatted(codegen, "%s_%s(%s, ", pfx, aop == TOK_SLASH_ASSIGN ? "div" : "mod", cur);
+            emit_bigint_operand(codegen, node->data.assign.value, pfx, type_name, NULL);
+            emit(codegen, ")");
+        } else {
+            emit_formatted(codegen, "%s_%s_checked(%s, ", pfx, verb, cur);
+            emit_bigint_operand(codegen, node->data.assign.value, pfx, type_name, NULL);
+            emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
+        }
+        return;
+    }
+
+    bool is_int = type && (type->kind == TK_INT || type->kind == TK_UINT || type->kind == TK_BYTE);
+    bool is_unsigned = type && (type->kind == TK_UINT || type->kind == TK_BYTE);
+    const char *smin = NULL, *smax = NULL;
+    bool su = false;
+    sized_int_bounds(type_name, &smin, &smax, &su);
+
+    if (is_div && (is_int || (type && type->kind == TK_FLOAT))) {
+        emit_formatted(codegen, "({ __auto_type _dv = ");
+        emit_expression(codegen, node->data.assign.value);
+        emit_formatted(codegen, "; if (!_dv) { gray_panic_code_at(\"%s\", %d, \"P0078\", \"division by zero\"); } ",
+            codegen->file, node->token.line);
+        if (is_int && !is_unsigned) {
+            emit_formatted(codegen, "if ((int64_t)%s == %s && _dv == -1) { gray_panic_code_at(\"%s\", %d, \"P0079\", \"%s result is too large; value exceeds the range of this type\"); } ",
+                cur, smin ? smin : "(-9223372036854775807LL - 1)", codegen->file, node->token.line,
+                aop == TOK_SLASH_ASSIGN ? "division" : "modulo");
+        }
+        emit_formatted(codegen, "%s %s _dv; })", cur, binop);
+        return;
+    }
+    if (!is_div && smax) {
+        emit_formatted(codegen, "%s(%s, ", sized_check_func(aop, su), cur);
+        emit_expression(codegen, node->data.assign.value);
+        if (!su) emit_formatted(codegen, ", %s", smin);
+        emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)", smax, type_name, codegen->file, node->token.line);
+        return;
+    }
+    if (!is_div && is_int) {
+        emit_formatted(codegen, "gray_%s%s_check(%s, ", is_unsigned ? "u" : "", verb, cur);
+        emit_expression(codegen, node->data.assign.value);
+        emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
+        return;
+    }
+    emit_formatted(codegen, "%s %s (", cur, binop);
+    emit_expression(codegen, node->data.assign.value);
+    emit(codegen, ")");
+}
+
+/* True for the arithmetic compound assignment operators (+= -= *= /= %=). */
+static bool is_compound_assign(TokenType op) {
+    return op == TOK_PLUS_ASSIGN || op == TOK_MINUS_ASSIGN || op == TOK_ASTERISK_ASSIGN ||
+           op == TOK_SLASH_ASSIGN || op == TOK_PERCENT_ASSIGN;
+}
+
+/* Bracket an assignable C target: emit_target_open, the target itself, then
+ * emit_target_assign, which finishes `target = value` and, for a compound
+ * operator, stores the checked `target OP value` through the target's address. */
+static void emit_target_open(CodeGen *codegen, AstNode *node) {
+    if (is_compound_assign(node->data.assign.op)) emit(codegen, "__auto_type _ct = &(");
+}
+
+static void emit_target_assign(CodeGen *codegen, AstNode *node) {
+    if (is_compound_assign(node->data.assign.op)) {
+        GrayType *target_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
+        emit(codegen, "); *_ct = ");
+        emit_compound_value(codegen, node, "*_ct", target_t ? target_t->name : NULL);
+    } else {
+        emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
+        emit_expression(codegen, node->data.assign.value);
+    }
+}
+
 static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
 
@@ -7573,14 +7665,8 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         AstNode *left = node->data.assign.target->data.index_expr.left;
         GrayType *left_t = codegen->type_table ? typetable_get(codegen->type_table, left) : NULL;
         if (left_t && left_t->kind == TK_ARRAY) {
-            const char *c_elem = "int64_t";
-            if (left_t->element_type) {
-                if (strcmp(left_t->element_type, "func") == 0 || strncmp(left_t->element_type, "func(", 5) == 0) {
-                    c_elem = "void *";
-                } else {
-                    c_elem = gray_type_to_c_codegen(codegen, left_t->element_type);
-                }
-            }
+            char elem_buf[MSG_BUF_SIZE];
+            const char *c_elem = array_element_c_type(codegen, left_t->element_type, elem_buf, sizeof(elem_buf));
             /* Check for array field through struct pointer (rvalue assignability issue).
              * b.items[i] = val where b: ^Bag — the normal member emit produces a
              * GCC statement expression (rvalue); GRAY_ARRAY_SET's &(arr) would fail.
@@ -7603,82 +7689,50 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 if (_set_ptr_obj) {
                     static int arr_set_dp_ctr = 0;
                     int my_dp = arr_set_dp_ctr++;
-                    TokenType aop2 = node->data.assign.op;
-                    bool is_compound2 = (aop2 == TOK_PLUS_ASSIGN || aop2 == TOK_MINUS_ASSIGN || aop2 == TOK_ASTERISK_ASSIGN);
                     emit_formatted(codegen, "{ __auto_type _asdp%d = ", my_dp);
                     emit_expression(codegen, _set_ptr_obj);
-                    emit_formatted(codegen, "; if (!_asdp%d) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } "
-                              "GRAY_ARRAY_SET(_asdp%d->%s, %s, ",
-                          my_dp, codegen->file, node->token.line, my_dp, sanitize_name(_set_ptr_field), c_elem);
-                    emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                    emit(codegen, ", ");
-                    if (is_compound2) {
-                        const char *binop = "+";
-                        if (aop2 == TOK_MINUS_ASSIGN) binop = "-";
-                        else if (aop2 == TOK_ASTERISK_ASSIGN) binop = "*";
-                        emit_formatted(codegen, "GRAY_ARRAY_GET(_asdp%d->%s, %s, ", my_dp, sanitize_name(_set_ptr_field), c_elem);
+                    emit_formatted(codegen, "; if (!_asdp%d) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ",
+                          my_dp, codegen->file, node->token.line);
+                    if (is_compound_assign(node->data.assign.op)) {
+                        char cur[MSG_BUF_SIZE];
+                        emit(codegen, "int64_t _ci = ");
                         emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                        emit_formatted(codegen, ") %s (", binop);
-                        emit_expression(codegen, node->data.assign.value);
-                        emit(codegen, ")");
+                        emit_formatted(codegen, "; GRAY_ARRAY_SET(_asdp%d->%s, %s, _ci, ",
+                            my_dp, sanitize_name(_set_ptr_field), c_elem);
+                        snprintf(cur, sizeof(cur), "GRAY_ARRAY_GET(_asdp%d->%s, %s, _ci)",
+                            my_dp, sanitize_name(_set_ptr_field), c_elem);
+                        emit_compound_value(codegen, node, cur, left_t->element_type);
                     } else {
+                        emit_formatted(codegen, "GRAY_ARRAY_SET(_asdp%d->%s, %s, ",
+                            my_dp, sanitize_name(_set_ptr_field), c_elem);
+                        emit_expression(codegen, node->data.assign.target->data.index_expr.index);
+                        emit(codegen, ", ");
                         emit_expression(codegen, node->data.assign.value);
                     }
                     emit(codegen, "); }\n");
                     return;
                 }
             }
-            /* Compound assignment on array element with sized-type overflow check */
-            TokenType aop = node->data.assign.op;
-            bool is_compound = (aop == TOK_PLUS_ASSIGN || aop == TOK_MINUS_ASSIGN || aop == TOK_ASTERISK_ASSIGN);
-            if (is_compound && left_t->element_type) {
-                const char *sn = left_t->element_type;
-                const char *smin = NULL, *smax = NULL;
-                bool su = false;
-                sized_int_bounds(sn, &smin, &smax, &su);
-                if (smax) {
-                    const char *function_name = sized_check_func(aop, su);
-                    if (function_name) {
-                        /* GRAY_ARRAY_SET/GET use int64_t (internal storage width) */
-                        emit_formatted(codegen, "GRAY_ARRAY_SET(");
-                        emit_expression(codegen, left);
-                        emit(codegen, ", int64_t, ");
-                        emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                        emit_formatted(codegen, ", %s(GRAY_ARRAY_GET(", function_name);
-                        emit_expression(codegen, left);
-                        emit(codegen, ", int64_t, ");
-                        emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                        emit(codegen, "), ");
-                        emit_expression(codegen, node->data.assign.value);
-                        if (su) {
-                            emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d));\n", smax, sn, codegen->file, node->token.line);
-                        } else {
-                            emit_formatted(codegen, ", %s, %s, \"%s\", \"%s\", %d));\n", smin, smax, sn, codegen->file, node->token.line);
-                        }
-                        return;
-                    }
-                }
+            /* Compound assignment on array element: checked read-modify-write
+             * that evaluates the array and the index once. */
+            if (is_compound_assign(node->data.assign.op)) {
+                char cur[MSG_BUF_SIZE];
+                emit(codegen, "{ GrayArray *_ca = &(");
+                emit_expression(codegen, left);
+                emit(codegen, "); int64_t _ci = ");
+                emit_expression(codegen, node->data.assign.target->data.index_expr.index);
+                emit_formatted(codegen, "; GRAY_ARRAY_SET(*_ca, %s, _ci, ", c_elem);
+                snprintf(cur, sizeof(cur), "GRAY_ARRAY_GET(*_ca, %s, _ci)", c_elem);
+                emit_compound_value(codegen, node, cur, left_t->element_type);
+                emit(codegen, "); }\n");
+                return;
             }
             emit_formatted(codegen, "GRAY_ARRAY_SET(");
             emit_expression(codegen, left);
             emit_formatted(codegen, ", %s, ", c_elem);
             emit_expression(codegen, node->data.assign.target->data.index_expr.index);
             emit(codegen, ", ");
-            /* Non-sized compound assignment on array element: read-modify-write */
-            if (is_compound) {
-                const char *binop = "+";
-                if (aop == TOK_MINUS_ASSIGN) binop = "-";
-                else if (aop == TOK_ASTERISK_ASSIGN) binop = "*";
-                emit_formatted(codegen, "GRAY_ARRAY_GET(");
-                emit_expression(codegen, left);
-                emit_formatted(codegen, ", %s, ", c_elem);
-                emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                emit_formatted(codegen, ") %s (", binop);
-                emit_expression(codegen, node->data.assign.value);
-                emit(codegen, ")");
-            } else {
-                emit_expression(codegen, node->data.assign.value);
-            }
+            emit_expression(codegen, node->data.assign.value);
             emit(codegen, ");\n");
             return;
         }
@@ -7707,18 +7761,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 if (obj_t && obj_t->kind == TK_POINTER) map_via_ptr = true;
             }
 
-            bool ms_compound = (node->data.assign.op != TOK_ASSIGN);
-            const char *ms_base_op = NULL;
-            if (ms_compound) {
-                switch (node->data.assign.op) {
-                    case TOK_PLUS_ASSIGN:     ms_base_op = "+"; break;
-                    case TOK_MINUS_ASSIGN:    ms_base_op = "-"; break;
-                    case TOK_ASTERISK_ASSIGN: ms_base_op = "*"; break;
-                    case TOK_SLASH_ASSIGN:    ms_base_op = "/"; break;
-                    case TOK_PERCENT_ASSIGN:  ms_base_op = "%"; break;
-                    default: ms_compound = false; break;
-                }
-            }
+            bool ms_compound = is_compound_assign(node->data.assign.op);
             emit_formatted(codegen, "{ %s _mk = ", c_key);
             emit_expression(codegen, node->data.assign.target->data.index_expr.index);
             emit(codegen, "; ");
@@ -7752,9 +7795,9 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             }
             emit_formatted(codegen, "%s _mv = ", c_val);
             if (ms_compound) {
-                emit_formatted(codegen, "*(%s*)_cur %s (", c_val, ms_base_op);
-                emit_expression(codegen, node->data.assign.value);
-                emit(codegen, ")");
+                char cur[MSG_BUF_SIZE];
+                snprintf(cur, sizeof(cur), "*(%s*)_cur", c_val);
+                emit_compound_value(codegen, node, cur, left_t->value_type);
             } else {
                 emit_expression(codegen, node->data.assign.value);
             }
@@ -7801,6 +7844,13 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         emit(codegen, "{ __auto_type _dp = ");
         emit_expression(codegen, ptr_node);
         emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } *_dp", codegen->file, node->token.line);
+        if (is_compound_assign(node->data.assign.op)) {
+            emit(codegen, " = ");
+            emit_compound_value(codegen, node, "*_dp",
+                (ptr_t && ptr_t->kind == TK_POINTER) ? ptr_t->element_type : NULL);
+            emit(codegen, "; }\n");
+            return;
+        }
         emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
         if (bi_elem) {
             emit_bigint_operand(codegen, node->data.assign.value,
@@ -7819,9 +7869,10 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         const char *field = node->data.assign.target->data.member.member;
         emit(codegen, "{ __auto_type _dp = ");
         emit_expression(codegen, ptr);
-        emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s", codegen->file, node->token.line, field);
-        emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-        emit_expression(codegen, node->data.assign.value);
+        emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
+        emit_target_open(codegen, node);
+        emit_formatted(codegen, "_dp->%s", field);
+        emit_target_assign(codegen, node);
         emit(codegen, "; }\n");
         return;
     }
@@ -7846,14 +7897,15 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         if (ptr_root && depth > 1) {
             emit(codegen, "{ __auto_type _dp = ");
             emit_expression(codegen, ptr_root);
-            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->", codegen->file, node->token.line);
+            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
+            emit_target_open(codegen, node);
+            emit(codegen, "_dp->");
             /* Emit chain in reverse: chain[depth-1] is closest to root */
             for (int i = depth - 1; i >= 0; i--) {
                 emit(codegen, sanitize_name(chain[i]));
                 if (i > 0) emit(codegen, ".");
             }
-            emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-            emit_expression(codegen, node->data.assign.value);
+            emit_target_assign(codegen, node);
             emit(codegen, "; }\n");
             return;
         }
@@ -7897,9 +7949,10 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             }
             emit(codegen, "{ __auto_type _dp = ");
             emit_expression(codegen, obj);
-            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } _dp->%s", codegen->file, node->token.line, sanitize_name(field));
-            emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-            emit_expression(codegen, node->data.assign.value);
+            emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
+            emit_target_open(codegen, node);
+            emit_formatted(codegen, "_dp->%s", sanitize_name(field));
+            emit_target_assign(codegen, node);
             emit(codegen, "; }\n");
             return;
         }
@@ -7947,6 +8000,14 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 }
             }
             bool tgt_is_int = (tgt_t && (tgt_t->kind == TK_INT || tgt_t->kind == TK_UINT || tgt_t->kind == TK_BYTE));
+            if (aop == TOK_SLASH_ASSIGN && tgt_t && tgt_t->kind == TK_FLOAT) {
+                emit(codegen, "{ __auto_type _tgt_ref = &(");
+                emit_expression(codegen, node->data.assign.target);
+                emit(codegen, "); *_tgt_ref = ");
+                emit_compound_value(codegen, node, "*_tgt_ref", sn);
+                emit(codegen, "; }\n");
+                return;
+            }
             const char *smin = NULL, *smax = NULL;
             bool su = false;
             if (sn) sized_int_bounds(sn, &smin, &smax, &su);
-- 
2.43.0


From 66c80a48a8439c018f79f6a1bac8d6b736663042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:37 +0000
Subject: [PATCH 02/49] fix: initialise every code generator field so runtime
 checks are always emitted

---
 grayc/src/codegen/codegen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 7f5c4f4..f59fe78 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -9377,6 +9377,9 @@ CodeGen codegen_create(const char *file) {
     codegen.funcs_by_name = NULL;
     codegen.funcs_by_name_built = false;
     codegen.type_table = NULL;
+    codegen.current_var_name = NULL;
+    codegen.current_var_type = NULL;
+    codegen.in_const_decl = false;
     codegen.ref_vars = NULL;
     codegen.ref_var_count = 0;
     codegen.ref_var_cap = 0;
-- 
2.43.0


From e872a595b1090c9d1dc6a2fff7faac12f9cbc612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:33 +0000
Subject: [PATCH 03/49] fix: keep integer operators exact for sized and
 mixed-signedness operands

---
 grayc/src/codegen/codegen.c | 87 +++++++++++++++++++++++++++++++++----
 grayc/src/runtime/runtime.h | 37 ++++++++--------
 2 files changed, 98 insertions(+), 26 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index f59fe78..3725704 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -845,6 +845,46 @@ static const char *resolve_bigint_type(CodeGen *codegen, AstNode *node) {
     return NULL;
 }
 
+static bool is_integer_kind(const GrayType *type) {
+    return type && (type->kind == TK_INT || type->kind == TK_UINT ||
+                    type->kind == TK_BYTE || type->kind == TK_CHAR);
+}
+
+static bool is_unsigned_kind(const GrayType *type) {
+    return type && (type->kind == TK_UINT || type->kind == TK_BYTE);
+}
+
+/* True when exactly one of two integer operands is unsigned. */
+static bool mixed_signedness(const GrayType *left, const GrayType *right) {
+    return is_integer_kind(left) && is_integer_kind(right) &&
+           is_unsigned_kind(left) != is_unsigned_kind(right);
+}
+
+/* Unsigned type whose values need not fit in int64_t (uint, u64). */
+static bool is_wide_unsigned(const GrayType *type) {
+    int rank = type ? int_type_rank(type->name) : 0;
+    return is_unsigned_kind(type) && type->kind != TK_BYTE && (rank < 1 || rank > 3);
+}
+
+/* Emit an operand of an arithmetic operator evaluated as uint64_t
+ * (`as_unsigned`) or int64_t. A value the C conversion would reinterpret is
+ * rejected at run time instead. */
+static void emit_arith_operand(CodeGen *codegen, AstNode *node, AstNode *operand,
+                               const GrayType *type, bool as_unsigned) {
+    bool literal = operand->kind == NODE_INT_VALUE;
+    if (as_unsigned && !literal && is_integer_kind(type) && !is_unsigned_kind(type)) {
+        emit(codegen, "gray_ucast_check(");
+        emit_expression(codegen, operand);
+        emit_formatted(codegen, ", 18446744073709551615ULL, \"uint\", \"%s\", %d)", codegen->file, node->token.line);
+    } else if (!as_unsigned && !literal && is_wide_unsigned(type)) {
+        emit(codegen, "gray_uint_to_int_check(");
+        emit_expression(codegen, operand);
+        emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
+    } else {
+        emit_expression(codegen, operand);
+    }
+}
+
 /* C type in which an array stores its elements. Sized integers are kept as
  * int64_t and every float as double, so reads and writes must agree on it. */
 static const char *array_element_c_type(CodeGen *codegen, const char *element_type,
@@ -2039,23 +2079,36 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                  * no positive representation), and in C it's UB. */
                 bool is_signed = (left_type && left_type->kind == TK_INT) || (right_type && right_type->kind == TK_INT);
                 const char *signed_min = NULL;
+                /* Mixed signedness: C would reinterpret a negative operand, so
+                 * divide as uint64_t (rejecting negatives) when the unsigned
+                 * operand is 64 bits wide and as int64_t otherwise. */
+                bool mixed = mixed_signedness(left_type, right_type);
+                bool as_unsigned = mixed && (is_wide_unsigned(left_type) || is_wide_unsigned(right_type));
+                const char *operand_cast = (mixed && !as_unsigned) ? "(int64_t)" : "";
+                if (as_unsigned) is_signed = false;
                 if (is_signed) {
                     const char *sized_name = (left_type && left_type->name) ? left_type->name : ((right_type && right_type->name) ? right_type->name : NULL);
                     const char *_unused_max; bool _unused_u;
-                    if (!sized_name || !sized_int_bounds(sized_name, &signed_min, &_unused_max, &_unused_u))
+                    if (!sized_name || !sized_int_bounds(sized_name, &signed_min, &_unused_max, &_unused_u) || !signed_min)
                         signed_min = "(-9223372036854775807LL - 1)";
                 }
-                emit(codegen, "({ __auto_type _dv = ");
-                emit_expression(codegen, node->data.infix.right);
+                emit_formatted(codegen, "({ __auto_type _dv = %s", operand_cast);
+                if (as_unsigned)
+                    emit_arith_operand(codegen, node, node->data.infix.right, right_type, true);
+                else
+                    emit_expression(codegen, node->data.infix.right);
                 emit_formatted(codegen, "; if (!_dv) { gray_panic_code_at(\"%s\", %d, \"P0078\", \"division by zero\"); } ", codegen->file, node->token.line);
                 if (is_signed) {
                     const char *opname = (op == TOK_SLASH) ? "division" : "modulo";
-                    emit(codegen, "__auto_type _dn = ");
+                    emit_formatted(codegen, "__auto_type _dn = %s", operand_cast);
                     emit_expression(codegen, node->data.infix.left);
                     emit_formatted(codegen, "; if ((int64_t)_dn == %s && _dv == -1) { gray_panic_code_at(\"%s\", %d, \"P0079\", \"%s result is too large; value exceeds the range of this type\"); } _dn %s _dv; })",
                         signed_min, codegen->file, node->token.line, opname, operator_to_c_string(op));
                 } else {
-                    emit_expression(codegen, node->data.infix.left);
+                    if (as_unsigned)
+                        emit_arith_operand(codegen, node, node->data.infix.left, left_type, true);
+                    else
+                        emit_expression(codegen, node->data.infix.left);
                     emit_formatted(codegen, " %s _dv; })", operator_to_c_string(op));
                 }
                 break;
@@ -2115,9 +2168,9 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                     }
                     if (operator_function_name && !codegen->in_const_decl) {
                         emit_formatted(codegen, "%s(", operator_function_name);
-                        emit_expression(codegen, node->data.infix.left);
+                        emit_arith_operand(codegen, node, node->data.infix.left, left_type, false);
                         emit(codegen, ", ");
-                        emit_expression(codegen, node->data.infix.right);
+                        emit_arith_operand(codegen, node, node->data.infix.right, right_type, false);
                         if (sized_unsigned) {
                             emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)", sized_max, sized_name, codegen->file, node->token.line);
                         } else {
@@ -2141,15 +2194,31 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 }
                 if (function_name && !codegen->in_const_decl) {
                     emit_formatted(codegen, "%s(", function_name);
-                    emit_expression(codegen, node->data.infix.left);
+                    emit_arith_operand(codegen, node, node->data.infix.left, left_type, is_unsigned);
                     emit(codegen, ", ");
-                    emit_expression(codegen, node->data.infix.right);
+                    emit_arith_operand(codegen, node, node->data.infix.right, right_type, is_unsigned);
                     emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
                     break;
                 }
             }
         }
 
+        /* Mixed-signedness comparison: C would convert a negative operand to a
+         * large unsigned value; compare in a type that holds both ranges. */
+        if (mixed_signedness(left_type, right_type) &&
+            (op == TOK_EQ || op == TOK_NOT_EQ || op == TOK_LT || op == TOK_GT ||
+             op == TOK_LT_EQ || op == TOK_GT_EQ)) {
+            const char *wide = (is_wide_unsigned(left_type) || is_wide_unsigned(right_type))
+                ? "__int128" : "int64_t";
+            emit_formatted(codegen, "((%s)%s(", wide, is_wide_unsigned(left_type) ? "(uint64_t)" : "");
+            emit_expression(codegen, node->data.infix.left);
+            emit_formatted(codegen, ") %s (%s)%s(", operator_to_c_string(op), wide,
+                is_wide_unsigned(right_type) ? "(uint64_t)" : "");
+            emit_expression(codegen, node->data.infix.right);
+            emit(codegen, "))");
+            break;
+        }
+
         /* Normal infix; always wrap sub-infix expressions in parens to
          * preserve the precedence the parser established via the AST shape.
          * Without this, (x + y) * z would emit as x + y * z. */
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index a180ac8..81ce1d0 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -226,32 +226,32 @@ static inline uint64_t gray_umul_check(uint64_t a, uint64_t b, const char *file,
 /* Sized signed integer overflow checks (i8, i16, i32) */
 static inline int64_t gray_sized_add_check(int64_t a, int64_t b, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a + b;
-    if (result < min_val || result > max_val)
+    int64_t result;
+    if (__builtin_add_overflow(a, b, &result) || result < min_val || result > max_val)
         gray_panic_code_at(file, line, "P0011", "%s addition result is too large; value exceeds the range of this type", type_name);
     return result;
 }
 
 static inline int64_t gray_sized_sub_check(int64_t a, int64_t b, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a - b;
-    if (result < min_val || result > max_val)
+    int64_t result;
+    if (__builtin_sub_overflow(a, b, &result) || result < min_val || result > max_val)
         gray_panic_code_at(file, line, "P0012", "%s subtraction result is too large; value exceeds the range of this type", type_name);
     return result;
 }
 
 static inline int64_t gray_sized_mul_check(int64_t a, int64_t b, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a * b;
-    if (result < min_val || result > max_val)
+    int64_t result;
+    if (__builtin_mul_overflow(a, b, &result) || result < min_val || result > max_val)
         gray_panic_code_at(file, line, "P0013", "%s multiplication result is too large; value exceeds the range of this type", type_name);
     return result;
 }
 
 static inline int64_t gray_sized_neg_check(int64_t a, int64_t min_val, int64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = -a;
-    if (result < min_val || result > max_val)
+    int64_t result;
+    if (__builtin_sub_overflow((int64_t)0, a, &result) || result < min_val || result > max_val)
         gray_panic_code_at(file, line, "P0014", "%s negation result is too large; value exceeds the range of this type", type_name);
     return result;
 }
@@ -262,30 +262,33 @@ static inline int64_t gray_sized_neg_check(int64_t a, int64_t min_val, int64_t m
  * silently wrap to a large uint64 and trigger the wrong P0015 path. */
 static inline uint64_t gray_usized_add_check(int64_t a, int64_t b, uint64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a + b;
-    if (result < 0)
+    int64_t result;
+    bool overflow = __builtin_add_overflow(a, b, &result);
+    if (overflow ? a < 0 : result < 0)
         gray_panic_code_at(file, line, "P0016", "%s addition result is negative, but this unsigned type cannot hold negative values", type_name);
-    if ((uint64_t)result > max_val)
+    if (overflow || (uint64_t)result > max_val)
         gray_panic_code_at(file, line, "P0015", "%s addition result is too large; value exceeds the range of this unsigned type", type_name);
     return (uint64_t)result;
 }
 
 static inline uint64_t gray_usized_sub_check(int64_t a, int64_t b, uint64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a - b;
-    if (result < 0)
+    int64_t result;
+    bool overflow = __builtin_sub_overflow(a, b, &result);
+    if (overflow ? a < 0 : result < 0)
         gray_panic_code_at(file, line, "P0016", "%s subtraction result is negative, but this unsigned type cannot hold negative values", type_name);
-    if ((uint64_t)result > max_val)
+    if (overflow || (uint64_t)result > max_val)
         gray_panic_code_at(file, line, "P0015", "%s subtraction result is too large; value exceeds the range of this unsigned type", type_name);
     return (uint64_t)result;
 }
 
 static inline uint64_t gray_usized_mul_check(int64_t a, int64_t b, uint64_t max_val,
     const char *type_name, const char *file, int line) {
-    int64_t result = a * b;
-    if (result < 0)
+    int64_t result;
+    bool overflow = __builtin_mul_overflow(a, b, &result);
+    if (overflow ? (a < 0) != (b < 0) : result < 0)
         gray_panic_code_at(file, line, "P0016", "%s multiplication result is negative, but this unsigned type cannot hold negative values", type_name);
-    if ((uint64_t)result > max_val)
+    if (overflow || (uint64_t)result > max_val)
         gray_panic_code_at(file, line, "P0017", "%s multiplication result is too large; value exceeds the range of this unsigned type", type_name);
     return (uint64_t)result;
 }
-- 
2.43.0


From 7f7b9663a16977a29acdff2c3505f7d6864dbc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:07 +0000
Subject: [PATCH 04/49] fix: bounds-check array and string indexes at full
 width

---
 grayc/src/codegen/codegen.c |  4 ++--
 grayc/src/runtime/array.c   |  8 ++++----
 grayc/src/runtime/array.h   |  4 ++--
 grayc/src/stdlib/arrays.c   | 16 ++++++++--------
 grayc/src/stdlib/arrays.h   |  6 +++---
 5 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 3725704..ab1c5c3 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -2645,9 +2645,9 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             /* String indexing with bounds check: s.data[i] */
             emit_formatted(codegen, "({ GrayString _es = ");
             emit_expression(codegen, node->data.index_expr.left);
-            emit_formatted(codegen, "; int32_t _ei = (int32_t)(");
+            emit_formatted(codegen, "; int64_t _ei = (int64_t)(");
             emit_expression(codegen, node->data.index_expr.index);
-            emit_formatted(codegen, "); if (_ei < 0 || _ei >= _es.len) { gray_panic_code_at(\"%s\", %d, \"P0082\", \"string index %%d out of bounds (length %%d)\", _ei, _es.len); } ", codegen->file, node->token.line);
+            emit_formatted(codegen, "); if (_ei < 0 || _ei >= _es.len) { gray_panic_code_at(\"%s\", %d, \"P0082\", \"string index %%lld out of bounds (length %%d)\", (long long)_ei, _es.len); } ", codegen->file, node->token.line);
             emit(codegen, "(int32_t)(unsigned char)_es.data[_ei]; })");
         } else {
             /* Fallback */
diff --git a/grayc/src/runtime/array.c b/grayc/src/runtime/array.c
index 0df9c17..e891299 100644
--- a/grayc/src/runtime/array.c
+++ b/grayc/src/runtime/array.c
@@ -34,18 +34,18 @@ GrayArray gray_array_from(GrayArena *arena, const void *data, int32_t elem_size,
     return arr;
 }
 
-void *gray_array_get_ptr(GrayArray *arr, int32_t index, const char *file, int line) {
+void *gray_array_get_ptr(GrayArray *arr, int64_t index, const char *file, int line) {
     if (index < 0 || index >= arr->len) {
-        gray_panic_code("P0033", "index out of bounds; tried to access index %d but the length is %d", index, arr->len);
+        gray_panic_code("P0033", "index out of bounds; tried to access index %lld but the length is %d", (long long)index, arr->len);
     }
     return (char *)arr->data + (size_t)index * (size_t)arr->elem_size;
 }
 
-void gray_array_set(GrayArray *arr, int32_t index, const void *value, const char *file, int line) {
+void gray_array_set(GrayArray *arr, int64_t index, const void *value, const char *file, int line) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
     if (index < 0 || index >= arr->len) {
-        gray_panic_code("P0033", "index out of bounds; tried to access index %d but the length is %d", index, arr->len);
+        gray_panic_code("P0033", "index out of bounds; tried to access index %lld but the length is %d", (long long)index, arr->len);
     }
     memcpy((char *)arr->data + (size_t)index * (size_t)arr->elem_size,
            value, (size_t)arr->elem_size);
diff --git a/grayc/src/runtime/array.h b/grayc/src/runtime/array.h
index 218e92b..7fa8813 100644
--- a/grayc/src/runtime/array.h
+++ b/grayc/src/runtime/array.h
@@ -31,10 +31,10 @@ GrayArray gray_array_new(GrayArena *arena, int32_t elem_size, int32_t initial_ca
 GrayArray gray_array_from(GrayArena *arena, const void *data, int32_t elem_size, int32_t count);
 
 /* Get a pointer to element at index (with bounds checking) */
-void *gray_array_get_ptr(GrayArray *arr, int32_t index, const char *file, int line);
+void *gray_array_get_ptr(GrayArray *arr, int64_t index, const char *file, int line);
 
 /* Set element at index (with bounds checking) */
-void gray_array_set(GrayArray *arr, int32_t index, const void *value, const char *file, int line);
+void gray_array_set(GrayArray *arr, int64_t index, const void *value, const char *file, int line);
 
 /* Append an element (may reallocate on the arena) */
 void gray_array_push(GrayArena *arena, GrayArray *arr, const void *value);
diff --git a/grayc/src/stdlib/arrays.c b/grayc/src/stdlib/arrays.c
index facb134..c82cecb 100644
--- a/grayc/src/stdlib/arrays.c
+++ b/grayc/src/stdlib/arrays.c
@@ -19,13 +19,13 @@ void gray_arrays_append(GrayArena *arena, GrayArray *arr, const void *value) {
     gray_array_push(arena, arr, value);
 }
 
-void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int32_t index, const void *value) {
+void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int64_t index, const void *value) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
     if (index < 0 || index > arr->len) {
         gray_panic_code("P0043",
-            "arrays.insert_at: index %d is out of bounds for an array of length %d",
-            index, arr->len);
+            "arrays.insert_at: index %lld is out of bounds for an array of length %d",
+            (long long)index, arr->len);
     }
 
     /* Grow if needed — same policy as gray_array_push */
@@ -57,13 +57,13 @@ void gray_arrays_prepend(GrayArena *arena, GrayArray *arr, const void *value) {
     gray_arrays_insert_at(arena, arr, 0, value);
 }
 
-void gray_arrays_remove_at(GrayArray *arr, int32_t index) {
+void gray_arrays_remove_at(GrayArray *arr, int64_t index) {
     if (arr->iterating > 0)
         gray_panic_code("P0034", "cannot modify array during for_each iteration");
     if (index < 0 || index >= arr->len)
         gray_panic_code("P0044",
-            "arrays.remove_at: index %d is out of bounds for an array of length %d",
-            index, arr->len);
+            "arrays.remove_at: index %lld is out of bounds for an array of length %d",
+            (long long)index, arr->len);
     char *data = (char *)arr->data;
     size_t element_size = (size_t)arr->elem_size;
     memmove(data + index * element_size, data + (index + 1) * element_size, (arr->len - 1 - index) * element_size);
@@ -263,11 +263,11 @@ GrayArray gray_arrays_reverse(GrayArena *arena, GrayArray *arr) {
     return result;
 }
 
-GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int32_t start, int32_t end) {
+GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int64_t start, int64_t end) {
     if (start < 0) start = 0;
     if (end > arr->len) end = arr->len;
     if (start >= end) return gray_array_new(arena, arr->elem_size, 1);
-    int32_t count = end - start;
+    int32_t count = (int32_t)(end - start);
     return gray_array_from(arena, (char *)arr->data + start * arr->elem_size, arr->elem_size, count);
 }
 
diff --git a/grayc/src/stdlib/arrays.h b/grayc/src/stdlib/arrays.h
index 6947d4d..fc369ed 100644
--- a/grayc/src/stdlib/arrays.h
+++ b/grayc/src/stdlib/arrays.h
@@ -42,7 +42,7 @@ void gray_arrays_append(GrayArena *arena, GrayArray *arr, const void *value);
  *   println(nums)
  *@end
  */
-void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int32_t index, const void *value);
+void gray_arrays_insert_at(GrayArena *arena, GrayArray *arr, int64_t index, const void *value);
 
 /*@man prepend
  *@module arrays
@@ -70,7 +70,7 @@ void gray_arrays_prepend(GrayArena *arena, GrayArray *arr, const void *value);
  *   println(nums)
  *@end
  */
-void gray_arrays_remove_at(GrayArray *arr, int32_t index);
+void gray_arrays_remove_at(GrayArray *arr, int64_t index);
 
 /*@man remove
  *@module arrays
@@ -278,7 +278,7 @@ GrayArray gray_arrays_reverse(GrayArena *arena, GrayArray *arr);
  *   println(arrays.slice(nums, 1, 3))
  *@end
  */
-GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int32_t start, int32_t end);
+GrayArray gray_arrays_slice(GrayArena *arena, GrayArray *arr, int64_t start, int64_t end);
 
 /*@man concat
  *@module arrays
-- 
2.43.0


From 8addbe7ac5555f0f6b70b08809baef79b6a7c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:38 +0000
Subject: [PATCH 05/49] fix: range-check char arithmetic and keep mixed
 operands with literals exact

---
 grayc/src/codegen/codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index ab1c5c3..5532c2f 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -876,7 +876,7 @@ static void emit_arith_operand(CodeGen *codegen, AstNode *node, AstNode *operand
         emit(codegen, "gray_ucast_check(");
         emit_expression(codegen, operand);
         emit_formatted(codegen, ", 18446744073709551615ULL, \"uint\", \"%s\", %d)", codegen->file, node->token.line);
-    } else if (!as_unsigned && !literal && is_wide_unsigned(type)) {
+    } else if (!as_unsigned && is_wide_unsigned(type)) {
         emit(codegen, "gray_uint_to_int_check(");
         emit_expression(codegen, operand);
         emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
@@ -2148,7 +2148,7 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 if (sized_name) {
                     if (strcmp(sized_name, "i8") == 0) { sized_min = "-128"; sized_max = "127"; }
                     else if (strcmp(sized_name, "i16") == 0) { sized_min = "-32768"; sized_max = "32767"; }
-                    else if (strcmp(sized_name, "i32") == 0) { sized_min = "-2147483648LL"; sized_max = "2147483647LL"; }
+                    else if (strcmp(sized_name, "i32") == 0 || strcmp(sized_name, "char") == 0) { sized_min = "-2147483648LL"; sized_max = "2147483647LL"; }
                     else if (strcmp(sized_name, "u8") == 0 || strcmp(sized_name, "byte") == 0) { sized_unsigned = true; sized_max = "255"; }
                     else if (strcmp(sized_name, "u16") == 0) { sized_unsigned = true; sized_max = "65535"; }
                     else if (strcmp(sized_name, "u32") == 0) { sized_unsigned = true; sized_max = "4294967295ULL"; }
-- 
2.43.0


From 80f2ddb16c7251c078a5b4614f927f3c21e5dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:37 +0000
Subject: [PATCH 06/49] fix: keep ++/--, compound assignment and unsigned
 elements exact

---
 grayc/src/codegen/codegen.c | 113 ++++++++++++------------------------
 1 file changed, 36 insertions(+), 77 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 5532c2f..39f697d 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -189,7 +189,7 @@ static bool sized_int_bounds(const char *type_name,
     if (!type_name) return false;
     if (strcmp(type_name, "i8") == 0)  { *min_out = "-128"; *max_out = "127"; return true; }
     if (strcmp(type_name, "i16") == 0) { *min_out = "-32768"; *max_out = "32767"; return true; }
-    if (strcmp(type_name, "i32") == 0) { *min_out = "-2147483648LL"; *max_out = "2147483647LL"; return true; }
+    if (strcmp(type_name, "i32") == 0 || strcmp(type_name, "char") == 0) { *min_out = "-2147483648LL"; *max_out = "2147483647LL"; return true; }
     if (strcmp(type_name, "u8") == 0 || strcmp(type_name, "byte") == 0)  { *is_unsigned = true; *max_out = "255"; return true; }
     if (strcmp(type_name, "u16") == 0) { *is_unsigned = true; *max_out = "65535"; return true; }
     if (strcmp(type_name, "u32") == 0) { *is_unsigned = true; *max_out = "4294967295ULL"; return true; }
@@ -447,6 +447,7 @@ static const char *gray_map_element_c_type(CodeGen *codegen, const char *gray_tn
     GrayType *type = type_from_name(gray_tn);
     if (!type) return "int64_t";
     switch (type->kind) {
+    case TK_UINT:    return "uint64_t";
     case TK_FLOAT:   return "double";
     case TK_STRING:  return "GrayString";
     case TK_BOOL:    return "bool";
@@ -886,7 +887,7 @@ static void emit_arith_operand(CodeGen *codegen, AstNode *node, AstNode *operand
 }
 
 /* C type in which an array stores its elements. Sized integers are kept as
- * int64_t and every float as double, so reads and writes must agree on it. */
+ * int64_t or uint64_t and every float as double, so reads and writes must agree on it. */
 static const char *array_element_c_type(CodeGen *codegen, const char *element_type,
                                         char *buf, size_t buf_size) {
     const char *elem_tn = codegen_effective_type_string(codegen, element_type);
@@ -895,6 +896,7 @@ static const char *array_element_c_type(CodeGen *codegen, const char *element_ty
     if (is_bigint_type(elem_tn)) return bigint_prefix(elem_tn);
     GrayType *et = type_from_name(elem_tn);
     switch (et->kind) {
+    case TK_UINT:   return "uint64_t";
     case TK_FLOAT:  return "double";
     case TK_BOOL:   return "bool";
     case TK_STRING: return "GrayString";
@@ -2240,77 +2242,31 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             emit(codegen, "({ __auto_type _dp = ");
             emit_expression(codegen, node->data.postfix.left);
             emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } *_dp; })", codegen->file, node->token.line);
-        } else if (node->data.postfix.op == TOK_INCREMENT) {
-            /* Overflow-checked increment; sized types need bounds check */
-            GrayType *postfix_type = codegen->type_table ? typetable_get(codegen->type_table, node->data.postfix.left) : NULL;
-            const char *sized_name = (postfix_type && postfix_type->name) ? postfix_type->name : NULL;
+        } else if (node->data.postfix.op == TOK_INCREMENT || node->data.postfix.op == TOK_DECREMENT) {
+            /* Overflow-checked step; the target is evaluated once, through its address */
+            TokenType step_op = node->data.postfix.op == TOK_INCREMENT ? TOK_PLUS_ASSIGN : TOK_MINUS_ASSIGN;
+            const char *verb = step_op == TOK_PLUS_ASSIGN ? "add" : "sub";
+            GrayType *step_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.postfix.left) : NULL;
+            const char *step_tn = codegen_effective_type_string(codegen, step_t ? step_t->name : NULL);
             const char *smin = NULL, *smax = NULL;
             bool su = false;
-            bool is_uint = postfix_type && postfix_type->kind == TK_UINT;
-            if (sized_name) {
-                if (strcmp(sized_name, "i8") == 0) { smin = "-128"; smax = "127"; }
-                else if (strcmp(sized_name, "i16") == 0) { smin = "-32768"; smax = "32767"; }
-                else if (strcmp(sized_name, "i32") == 0) { smin = "-2147483648LL"; smax = "2147483647LL"; }
-                else if (strcmp(sized_name, "u8") == 0 || strcmp(sized_name, "byte") == 0) { su = true; smax = "255"; }
-                else if (strcmp(sized_name, "u16") == 0) { su = true; smax = "65535"; }
-                else if (strcmp(sized_name, "u32") == 0) { su = true; smax = "4294967295ULL"; }
-            }
-            emit(codegen, "(");
-            emit_expression(codegen, node->data.postfix.left);
-            if (smax) {
-                if (su) {
-                    emit(codegen, " = gray_usized_add_check(");
-                    emit_expression(codegen, node->data.postfix.left);
-                    emit_formatted(codegen, ", 1, %s, \"%s\", \"%s\", %d))", smax, sized_name, codegen->file, node->token.line);
-                } else {
-                    emit(codegen, " = gray_sized_add_check(");
-                    emit_expression(codegen, node->data.postfix.left);
-                    emit_formatted(codegen, ", 1, %s, %s, \"%s\", \"%s\", %d))", smin, smax, sized_name, codegen->file, node->token.line);
-                }
-            } else if (is_uint) {
-                emit(codegen, " = gray_uadd_check(");
-                emit_expression(codegen, node->data.postfix.left);
-                emit_formatted(codegen, ", 1, \"%s\", %d))", codegen->file, node->token.line);
-            } else {
-                emit(codegen, " = gray_add_check(");
-                emit_expression(codegen, node->data.postfix.left);
-                emit_formatted(codegen, ", 1, \"%s\", %d))", codegen->file, node->token.line);
-            }
-        } else if (node->data.postfix.op == TOK_DECREMENT) {
-            /* Overflow-checked decrement; sized types need bounds check */
-            GrayType *pt = codegen->type_table ? typetable_get(codegen->type_table, node->data.postfix.left) : NULL;
-            const char *sn = (pt && pt->name) ? pt->name : NULL;
-            const char *smin = NULL, *smax = NULL;
-            bool su = false;
-            bool is_uint = pt && pt->kind == TK_UINT;
-            if (sn) {
-                if (strcmp(sn, "i8") == 0) { smin = "-128"; smax = "127"; }
-                else if (strcmp(sn, "i16") == 0) { smin = "-32768"; smax = "32767"; }
-                else if (strcmp(sn, "i32") == 0) { smin = "-2147483648LL"; smax = "2147483647LL"; }
-                else if (strcmp(sn, "u8") == 0 || strcmp(sn, "byte") == 0) { su = true; smax = "255"; }
-                else if (strcmp(sn, "u16") == 0) { su = true; smax = "65535"; }
-                else if (strcmp(sn, "u32") == 0) { su = true; smax = "4294967295ULL"; }
-            }
-            emit(codegen, "(");
+            sized_int_bounds(step_tn, &smin, &smax, &su);
+            emit(codegen, "({ __auto_type _ip = &(");
             emit_expression(codegen, node->data.postfix.left);
-            if (smax) {
-                if (su) {
-                    emit(codegen, " = gray_usized_sub_check(");
-                    emit_expression(codegen, node->data.postfix.left);
-                    emit_formatted(codegen, ", 1, %s, \"%s\", \"%s\", %d))", smax, sn, codegen->file, node->token.line);
-                } else {
-                    emit(codegen, " = gray_sized_sub_check(");
-                    emit_expression(codegen, node->data.postfix.left);
-                    emit_formatted(codegen, ", 1, %s, %s, \"%s\", \"%s\", %d))", smin, smax, sn, codegen->file, node->token.line);
-                }
-            } else if (is_uint) {
-                emit(codegen, " = gray_usub_check(");
-                emit_expression(codegen, node->data.postfix.left);
-                emit_formatted(codegen, ", 1, \"%s\", %d))", codegen->file, node->token.line);
+            emit(codegen, "); ");
+            if (step_tn && is_bigint_type(step_tn)) {
+                const char *pfx = bigint_prefix(step_tn);
+                emit_formatted(codegen, "*_ip = %s_%s_checked(*_ip, %s_from_%s(1), \"%s\", %d); })", pfx, verb, pfx,
+                    step_tn[0] == 'u' ? "u64" : "i64", codegen->file, node->token.line);
+            } else if (smax && su) {
+                emit_formatted(codegen, "*_ip = %s(*_ip, 1, %s, \"%s\", \"%s\", %d); })",
+                    sized_check_func(step_op, su), smax, step_tn, codegen->file, node->token.line);
+            } else if (smax) {
+                emit_formatted(codegen, "*_ip = %s(*_ip, 1, %s, %s, \"%s\", \"%s\", %d); })",
+                    sized_check_func(step_op, su), smin, smax, step_tn, codegen->file, node->token.line);
             } else {
-                emit(codegen, " = gray_sub_check(");
-                emit_expression(codegen, node->data.postfix.left);
-                emit_formatted(codegen, ", 1, \"%s\", %d))", codegen->file, node->token.line);
+                emit_formatted(codegen, "*_ip = gray_%s%s_check(*_ip, 1, \"%s\", %d); })",
+                    step_t && step_t->kind == TK_UINT ? "u" : "", verb, codegen->file, node->token.line);
             }
         } else {
             emit_expression(codegen, node->data.postfix.left);
@@ -7665,7 +7621,8 @@ static void emit_compound_value(CodeGen *codegen, AstNode *node, const char *cur
         return;
     }
 
-    bool is_int = type && (type->kind == TK_INT || type->kind == TK_UINT || type->kind == TK_BYTE);
+    GrayType *value_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.value) : NULL;
+    bool is_int = type && (type->kind == TK_INT || type->kind == TK_CHAR || type->kind == TK_UINT || type->kind == TK_BYTE);
     bool is_unsigned = type && (type->kind == TK_UINT || type->kind == TK_BYTE);
     const char *smin = NULL, *smax = NULL;
     bool su = false;
@@ -7673,7 +7630,8 @@ static void emit_compound_value(CodeGen *codegen, AstNode *node, const char *cur
 
     if (is_div && (is_int || (type && type->kind == TK_FLOAT))) {
         emit_formatted(codegen, "({ __auto_type _dv = ");
-        emit_expression(codegen, node->data.assign.value);
+        if (is_int) emit_arith_operand(codegen, node, node->data.assign.value, value_t, is_unsigned);
+        else emit_expression(codegen, node->data.assign.value);
         emit_formatted(codegen, "; if (!_dv) { gray_panic_code_at(\"%s\", %d, \"P0078\", \"division by zero\"); } ",
             codegen->file, node->token.line);
         if (is_int && !is_unsigned) {
@@ -7686,14 +7644,14 @@ static void emit_compound_value(CodeGen *codegen, AstNode *node, const char *cur
     }
     if (!is_div && smax) {
         emit_formatted(codegen, "%s(%s, ", sized_check_func(aop, su), cur);
-        emit_expression(codegen, node->data.assign.value);
+        emit_arith_operand(codegen, node, node->data.assign.value, value_t, is_unsigned);
         if (!su) emit_formatted(codegen, ", %s", smin);
         emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)", smax, type_name, codegen->file, node->token.line);
         return;
     }
     if (!is_div && is_int) {
         emit_formatted(codegen, "gray_%s%s_check(%s, ", is_unsigned ? "u" : "", verb, cur);
-        emit_expression(codegen, node->data.assign.value);
+        emit_arith_operand(codegen, node, node->data.assign.value, value_t, is_unsigned);
         emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
         return;
     }
@@ -8068,7 +8026,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                     return;
                 }
             }
-            bool tgt_is_int = (tgt_t && (tgt_t->kind == TK_INT || tgt_t->kind == TK_UINT || tgt_t->kind == TK_BYTE));
+            bool tgt_is_int = (tgt_t && (tgt_t->kind == TK_INT || tgt_t->kind == TK_UINT || tgt_t->kind == TK_BYTE || tgt_t->kind == TK_CHAR));
             if (aop == TOK_SLASH_ASSIGN && tgt_t && tgt_t->kind == TK_FLOAT) {
                 emit(codegen, "{ __auto_type _tgt_ref = &(");
                 emit_expression(codegen, node->data.assign.target);
@@ -8080,6 +8038,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             const char *smin = NULL, *smax = NULL;
             bool su = false;
             if (sn) sized_int_bounds(sn, &smin, &smax, &su);
+            GrayType *value_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.value) : NULL;
             /* Sized arith: gray_(u)sized_*_check */
             if (is_arith_compound && smax) {
                 const char *function_name = sized_check_func(aop, su);
@@ -8087,7 +8046,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                     emit_formatted(codegen, "{ %s *_tgt = &(", gray_type_to_c_codegen(codegen, sn));
                     emit_expression(codegen, node->data.assign.target);
                     emit_formatted(codegen, "); *_tgt = %s(*_tgt, ", function_name);
-                    emit_expression(codegen, node->data.assign.value);
+                    emit_arith_operand(codegen, node, node->data.assign.value, value_t, su);
                     if (su) {
                         emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d); }\n", smax, sn, codegen->file, node->token.line);
                     } else {
@@ -8114,7 +8073,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                     emit_formatted(codegen, "{ %s *_tgt = &(", c_ty);
                     emit_expression(codegen, node->data.assign.target);
                     emit_formatted(codegen, "); *_tgt = %s(*_tgt, ", function_name);
-                    emit_expression(codegen, node->data.assign.value);
+                    emit_arith_operand(codegen, node, node->data.assign.value, value_t, unsigned_op);
                     emit_formatted(codegen, ", \"%s\", %d); }\n", codegen->file, node->token.line);
                     return;
                 }
@@ -8134,7 +8093,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 emit(codegen, "{ __auto_type _tgt_ref = &(");
                 emit_expression(codegen, node->data.assign.target);
                 emit(codegen, "); __auto_type _dv = ");
-                emit_expression(codegen, node->data.assign.value);
+                emit_arith_operand(codegen, node, node->data.assign.value, value_t, unsigned_op);
                 emit_formatted(codegen, "; if (!_dv) { gray_panic_code_at(\"%s\", %d, \"P0078\", \"division by zero\"); } ", codegen->file, node->token.line);
                 if (!unsigned_op) {
                     emit_formatted(codegen, "if ((int64_t)*_tgt_ref == %s && _dv == -1) { gray_panic_code_at(\"%s\", %d, \"P0079\", \"%s result is too large; value exceeds the range of this type\"); } ",
-- 
2.43.0


From 34339dfdeffdeca495cddb5ca2e8858b5765392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:46 +0000
Subject: [PATCH 07/49] fix: stop on 128/256-bit division by zero and keep
 borrows and overflow checks exact

---
 grayc/src/codegen/codegen.c |  4 +--
 grayc/src/runtime/bigint.h  | 52 ++++++++++++++++++++++++++-----------
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 39f697d..cdbc8e9 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -7644,7 +7644,7 @@ static void emit_compound_value(CodeGen *codegen, AstNode *node, const char *cur
     }
     if (!is_div && smax) {
         emit_formatted(codegen, "%s(%s, ", sized_check_func(aop, su), cur);
-        emit_arith_operand(codegen, node, node->data.assign.value, value_t, is_unsigned);
+        emit_arith_operand(codegen, node, node->data.assign.value, value_t, false);
         if (!su) emit_formatted(codegen, ", %s", smin);
         emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d)", smax, type_name, codegen->file, node->token.line);
         return;
@@ -8046,7 +8046,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                     emit_formatted(codegen, "{ %s *_tgt = &(", gray_type_to_c_codegen(codegen, sn));
                     emit_expression(codegen, node->data.assign.target);
                     emit_formatted(codegen, "); *_tgt = %s(*_tgt, ", function_name);
-                    emit_arith_operand(codegen, node, node->data.assign.value, value_t, su);
+                    emit_arith_operand(codegen, node, node->data.assign.value, value_t, false);
                     if (su) {
                         emit_formatted(codegen, ", %s, \"%s\", \"%s\", %d); }\n", smax, sn, codegen->file, node->token.line);
                     } else {
diff --git a/grayc/src/runtime/bigint.h b/grayc/src/runtime/bigint.h
index b6546ea..32ef631 100644
--- a/grayc/src/runtime/bigint.h
+++ b/grayc/src/runtime/bigint.h
@@ -224,10 +224,7 @@ static inline gray_i128 gray_i128_mul(gray_i128 a, gray_i128 b) {
 /* Division helper: unsigned 128-bit divide */
 static inline void gray_u128_divmod(gray_u128 a, gray_u128 b, gray_u128 *q, gray_u128 *rem) {
     if (b.hi == 0 && b.lo == 0) {
-        /* Division by zero — return zero */
-        *q = GRAY_U128_ZERO;
-        *rem = GRAY_U128_ZERO;
-        return;
+        gray_panic_code("P0078", "division by zero");
     }
     if (a.hi == 0 && b.hi == 0) {
         /* Both fit in 64 bits */
@@ -267,7 +264,12 @@ static inline void gray_u128_divmod(gray_u128 a, gray_u128 b, gray_u128 *q, gray
 }
 
 static inline gray_i128 gray_i128_div(gray_i128 a, gray_i128 b) {
-    if (b.lo == 0 && b.hi == 0) return GRAY_I128_ZERO;
+    if (b.lo == 0 && b.hi == 0) {
+        gray_panic_code("P0078", "division by zero");
+    }
+    if (a.hi == INT64_MIN && a.lo == 0 && b.hi == -1 && b.lo == UINT64_MAX) {
+        gray_panic_code("P0079", "division result is too large; value exceeds the range of i128");
+    }
     bool neg = false;
     gray_u128 ua, ub;
     if (a.hi < 0) { gray_i128 t = gray_i128_neg(a); ua.lo = t.lo; ua.hi = (uint64_t)t.hi; neg = !neg; }
@@ -282,7 +284,12 @@ static inline gray_i128 gray_i128_div(gray_i128 a, gray_i128 b) {
 }
 
 static inline gray_i128 gray_i128_mod(gray_i128 a, gray_i128 b) {
-    if (b.lo == 0 && b.hi == 0) return GRAY_I128_ZERO;
+    if (b.lo == 0 && b.hi == 0) {
+        gray_panic_code("P0078", "division by zero");
+    }
+    if (a.hi == INT64_MIN && a.lo == 0 && b.hi == -1 && b.lo == UINT64_MAX) {
+        gray_panic_code("P0079", "modulo result is too large; value exceeds the range of i128");
+    }
     bool neg_a = (a.hi < 0);
     gray_u128 ua, ub;
     if (neg_a) { gray_i128 t = gray_i128_neg(a); ua.lo = t.lo; ua.hi = (uint64_t)t.hi; }
@@ -382,7 +389,7 @@ static inline gray_i256 gray_i256_sub(gray_i256 a, gray_i256 b) {
     uint64_t borrow = 0;
     for (int i = 0; i < 4; i++) {
         uint64_t diff = a.w[i] - b.w[i] - borrow;
-        borrow = (a.w[i] < b.w[i] + borrow) ? 1 : 0;
+        borrow = (a.w[i] < b.w[i] || (borrow && a.w[i] == b.w[i])) ? 1 : 0;
         r.w[i] = diff;
     }
     return r;
@@ -431,7 +438,9 @@ static inline gray_i256 gray_i256_mul(gray_i256 a, gray_i256 b) {
 /* 256-bit unsigned divmod (binary long division) */
 static inline void gray_u256_divmod(gray_u256 a, gray_u256 b, gray_u256 *q, gray_u256 *rem) {
     int b_zero = (b.w[0] == 0 && b.w[1] == 0 && b.w[2] == 0 && b.w[3] == 0);
-    if (b_zero) { *q = GRAY_U256_ZERO; *rem = GRAY_U256_ZERO; return; }
+    if (b_zero) {
+        gray_panic_code("P0078", "division by zero");
+    }
     if (a.w[1] == 0 && a.w[2] == 0 && a.w[3] == 0 &&
         b.w[1] == 0 && b.w[2] == 0 && b.w[3] == 0) {
         *q = GRAY_U256_ZERO; q->w[0] = a.w[0] / b.w[0];
@@ -476,7 +485,13 @@ static inline bool gray_i256_is_neg(gray_i256 a) { return (int64_t)a.w[3] < 0; }
 
 static inline gray_i256 gray_i256_div(gray_i256 a, gray_i256 b) {
     int b_zero = (b.w[0] == 0 && b.w[1] == 0 && b.w[2] == 0 && b.w[3] == 0);
-    if (b_zero) return GRAY_I256_ZERO;
+    if (b_zero) {
+        gray_panic_code("P0078", "division by zero");
+    }
+    if (a.w[3] == (uint64_t)INT64_MIN && a.w[2] == 0 && a.w[1] == 0 && a.w[0] == 0 &&
+        (b.w[0] & b.w[1] & b.w[2] & b.w[3]) == UINT64_MAX) {
+        gray_panic_code("P0079", "division result is too large; value exceeds the range of i256");
+    }
     bool neg = false;
     gray_u256 ua, ub;
     if (gray_i256_is_neg(a)) { gray_i256 t = gray_i256_neg(a); memcpy(&ua, &t, sizeof(ua)); neg = !neg; }
@@ -491,7 +506,13 @@ static inline gray_i256 gray_i256_div(gray_i256 a, gray_i256 b) {
 
 static inline gray_i256 gray_i256_mod(gray_i256 a, gray_i256 b) {
     int b_zero = (b.w[0] == 0 && b.w[1] == 0 && b.w[2] == 0 && b.w[3] == 0);
-    if (b_zero) return GRAY_I256_ZERO;
+    if (b_zero) {
+        gray_panic_code("P0078", "division by zero");
+    }
+    if (a.w[3] == (uint64_t)INT64_MIN && a.w[2] == 0 && a.w[1] == 0 && a.w[0] == 0 &&
+        (b.w[0] & b.w[1] & b.w[2] & b.w[3]) == UINT64_MAX) {
+        gray_panic_code("P0079", "modulo result is too large; value exceeds the range of i256");
+    }
     bool neg_a = gray_i256_is_neg(a);
     gray_u256 ua, ub;
     if (neg_a) { gray_i256 t = gray_i256_neg(a); memcpy(&ua, &t, sizeof(ua)); }
@@ -538,7 +559,7 @@ static inline gray_u256 gray_u256_sub(gray_u256 a, gray_u256 b) {
     uint64_t borrow = 0;
     for (int i = 0; i < 4; i++) {
         uint64_t diff = a.w[i] - b.w[i] - borrow;
-        borrow = (a.w[i] < b.w[i] + borrow) ? 1 : 0;
+        borrow = (a.w[i] < b.w[i] || (borrow && a.w[i] == b.w[i])) ? 1 : 0;
         r.w[i] = diff;
     }
     return r;
@@ -668,8 +689,8 @@ static inline gray_i128 gray_i128_mul_checked(gray_i128 a, gray_i128 b, const ch
     bool a_zero = (a.hi == 0 && a.lo == 0);
     bool b_zero = (b.hi == 0 && b.lo == 0);
     if (!a_zero && !b_zero) {
-        gray_i128 check = gray_i128_div(r, b);
-        if (!gray_i128_eq(check, a)) {
+        bool min_by_neg_one = r.hi == INT64_MIN && r.lo == 0 && b.hi == -1 && b.lo == UINT64_MAX;
+        if (min_by_neg_one || !gray_i128_eq(gray_i128_div(r, b), a)) {
             gray_panic_code("P0023", "i128 multiplication result is too large; value exceeds the range of i128");
         }
     }
@@ -731,8 +752,9 @@ static inline gray_i256 gray_i256_mul_checked(gray_i256 a, gray_i256 b, const ch
     bool a_zero = (a.w[0] == 0 && a.w[1] == 0 && a.w[2] == 0 && a.w[3] == 0);
     bool b_zero = (b.w[0] == 0 && b.w[1] == 0 && b.w[2] == 0 && b.w[3] == 0);
     if (!a_zero && !b_zero) {
-        gray_i256 check = gray_i256_div(r, b);
-        if (!gray_i256_eq(check, a)) {
+        bool min_by_neg_one = r.w[3] == (uint64_t)INT64_MIN && r.w[2] == 0 && r.w[1] == 0 && r.w[0] == 0 &&
+                              (b.w[0] & b.w[1] & b.w[2] & b.w[3]) == UINT64_MAX;
+        if (min_by_neg_one || !gray_i256_eq(gray_i256_div(r, b), a)) {
             gray_panic_code("P0029", "i256 multiplication result is too large; value exceeds the range of i256");
         }
     }
-- 
2.43.0


From b03a936e837cd0716fbcfe50652f57480f291a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:19 +0000
Subject: [PATCH 08/49] fix: guard char division against MIN / -1

---
 grayc/src/codegen/codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index cdbc8e9..3aebc0f 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -2079,7 +2079,8 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 /* For signed integer division, also guard the TYPE_MIN / -1
                  * case; that quotient overflows (it's |TYPE_MIN| which has
                  * no positive representation), and in C it's UB. */
-                bool is_signed = (left_type && left_type->kind == TK_INT) || (right_type && right_type->kind == TK_INT);
+                bool is_signed = (left_type && (left_type->kind == TK_INT || left_type->kind == TK_CHAR)) ||
+                                 (right_type && (right_type->kind == TK_INT || right_type->kind == TK_CHAR));
                 const char *signed_min = NULL;
                 /* Mixed signedness: C would reinterpret a negative operand, so
                  * divide as uint64_t (rejecting negatives) when the unsigned
-- 
2.43.0


From 118f250bd10671326034bc539fcf71714354085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:25 +0000
Subject: [PATCH 09/49] fix: evaluate range operands once and stop on a zero
 step wherever a range is used

---
 grayc/src/codegen/codegen.c | 146 ++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 81 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 3aebc0f..eeab31d 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -886,6 +886,44 @@ static void emit_arith_operand(CodeGen *codegen, AstNode *node, AstNode *operand
     }
 }
 
+/* Emit a bound or step of a range as an int64_t value; an omitted start is 0. */
+static void emit_range_operand(CodeGen *codegen, AstNode *node, AstNode *operand) {
+    if (!operand) { emit(codegen, "0"); return; }
+    emit_arith_operand(codegen, node, operand,
+        codegen->type_table ? typetable_get(codegen->type_table, operand) : NULL, false);
+}
+
+/* Emit a range membership test for the value held in C expression `value`
+ * (or, when NULL, in the expression `subject`). Every operand is evaluated
+ * once, and compared in a type that holds all operands. */
+static void emit_range_test(CodeGen *codegen, AstNode *node, const char *value,
+                            AstNode *subject, AstNode *range) {
+    AstNode *operands[4] = { subject, range->data.range_expr.start,
+                             range->data.range_expr.end, range->data.range_expr.step };
+    const char *wide = "__int128";
+    for (int i = 0; i < 4; i++) {
+        GrayType *t = (operands[i] && codegen->type_table) ? typetable_get(codegen->type_table, operands[i]) : NULL;
+        if (t && t->kind == TK_FLOAT) wide = "double";
+    }
+    emit_formatted(codegen, "({ %s _rv = ", wide);
+    if (value) emit(codegen, value);
+    else emit_expression(codegen, subject);
+    emit(codegen, ", _rs = ");
+    if (range->data.range_expr.start) emit_expression(codegen, range->data.range_expr.start);
+    else emit(codegen, "0");
+    emit(codegen, ", _re = ");
+    emit_expression(codegen, range->data.range_expr.end);
+    if (range->data.range_expr.step) {
+        emit(codegen, ", _rp = ");
+        emit_expression(codegen, range->data.range_expr.step);
+        emit_formatted(codegen, "; if (_rp == 0) { gray_panic_code_at(\"%s\", %d, \"P0090\", \"range step cannot be zero\"); } ", codegen->file, node->token.line);
+        emit_formatted(codegen, "(_rp > 0 ? _rv >= _rs && _rv < _re : _rv <= _rs && _rv > _re) && %s; })",
+            strcmp(wide, "double") == 0 ? "fmod(_rv - _rs, _rp) == 0" : "(_rv - _rs) % _rp == 0");
+    } else {
+        emit(codegen, "; _rv >= _rs && _rv < _re; })");
+    }
+}
+
 /* C type in which an array stores its elements. Sized integers are kept as
  * int64_t or uint64_t and every float as double, so reads and writes must agree on it. */
 static const char *array_element_c_type(CodeGen *codegen, const char *element_type,
@@ -1923,6 +1961,11 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             /* Check if right side is a range expression: x in range(a, b) */
             if (node->data.infix.right->kind == NODE_RANGE_EXPR) {
                 AstNode *range = node->data.infix.right;
+                if (!codegen->in_const_decl) {
+                    if (negated) emit(codegen, "!");
+                    emit_range_test(codegen, node, NULL, node->data.infix.left, range);
+                    break;
+                }
                 if (negated) emit(codegen, "!(");
                 emit(codegen, "(");
                 emit_expression(codegen, node->data.infix.left);
@@ -8606,66 +8649,28 @@ static void emit_for_statement(CodeGen *codegen, AstNode *node) {
             var = sanitize_name(node->data.for_stmt.var_name);
         }
 
-        if (iter->data.range_expr.start) {
-            /* range(start, end) or range(start, end, step) */
-            /* Determine comparison direction: static for literal step, runtime ternary for variable. */
-            bool neg_step = false;
-            bool known_direction = false;
-            bool zero_step = false;
-            if (iter->data.range_expr.step) {
-                AstNode *step = iter->data.range_expr.step;
-                if (step->kind == NODE_INT_VALUE) {
-                    known_direction = true;
-                    neg_step = step->data.int_value.value < 0;
-                    zero_step = (step->data.int_value.value == 0);
-                } else if (step->kind == NODE_PREFIX_EXPR && step->data.prefix.op == TOK_MINUS) {
-                    known_direction = true;
-                    neg_step = true;
-                }
-            }
-
-            if (iter->data.range_expr.step && !known_direction) {
-                /* Variable step: store step and end once, emit runtime direction ternary. */
-                static int step_var_counter = 0;
-                int svc = step_var_counter++;
-                /* emit_indent already called above — use it for the var declaration line */
-                emit_formatted(codegen, "int64_t _gray_step_%d = ", svc);
-                emit_expression(codegen, iter->data.range_expr.step);
-                emit_formatted(codegen, ", _gray_end_%d = ", svc);
-                emit_expression(codegen, iter->data.range_expr.end);
-                emit(codegen, ";\n");
-                /* P0090: zero step at runtime is always a panic */
-                emit_indent(codegen);
-                emit_formatted(codegen, "if (_gray_step_%d == 0) { gray_panic_code_at(\"%s\", %d, \"P0090\", \"range step cannot be zero\"); }\n", svc, codegen->file, node->token.line);
-                emit_indent(codegen);
-                emit_formatted(codegen, "for (int64_t %s = ", var);
-                emit_expression(codegen, iter->data.range_expr.start);
-                emit_formatted(codegen, "; _gray_step_%d > 0 ? %s < _gray_end_%d : %s > _gray_end_%d", svc, var, svc, var, svc);
-                emit_formatted(codegen, "; %s = gray_add_check(%s, _gray_step_%d, \"%s\", %d)", var, var, svc, codegen->file, node->token.line);
-            } else if (zero_step) {
-                /* P0090: literal zero step always panics; emit panic then a dead loop */
-                emit_formatted(codegen, "gray_panic_code_at(\"%s\", %d, \"P0090\", \"range step cannot be zero\");\n", codegen->file, node->token.line);
-                emit_indent(codegen);
-                emit_formatted(codegen, "for (int64_t %s = 0; 0; (void)0", var);
-            } else {
-                emit_formatted(codegen, "for (int64_t %s = ", var);
-                emit_expression(codegen, iter->data.range_expr.start);
-                emit_formatted(codegen, "; %s %s ", var, neg_step ? ">" : "<");
-                emit_expression(codegen, iter->data.range_expr.end);
-                emit_formatted(codegen, "; %s", var);
-                if (iter->data.range_expr.step) {
-                    emit_formatted(codegen, " = gray_add_check(%s, ", var);
-                    emit_expression(codegen, iter->data.range_expr.step);
-                    emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
-                } else {
-                    emit(codegen, "++");
-                }
-            }
+        /* Bounds and step are evaluated once, before the first iteration. */
+        static int range_counter = 0;
+        int rc = range_counter++;
+        AstNode *step = iter->data.range_expr.step;
+        emit_formatted(codegen, "int64_t _gray_start_%d = ", rc);
+        emit_range_operand(codegen, node, iter->data.range_expr.start);
+        emit_formatted(codegen, ", _gray_end_%d = ", rc);
+        emit_range_operand(codegen, node, iter->data.range_expr.end);
+        if (step) {
+            emit_formatted(codegen, ", _gray_step_%d = ", rc);
+            emit_range_operand(codegen, node, step);
+            emit(codegen, ";\n");
+            /* P0090: zero step at runtime is always a panic */
+            emit_indent(codegen);
+            emit_formatted(codegen, "if (_gray_step_%d == 0) { gray_panic_code_at(\"%s\", %d, \"P0090\", \"range step cannot be zero\"); }\n", rc, codegen->file, node->token.line);
+            emit_indent(codegen);
+            emit_formatted(codegen, "for (int64_t %s = _gray_start_%d; _gray_step_%d > 0 ? %s < _gray_end_%d : %s > _gray_end_%d; %s = gray_add_check(%s, _gray_step_%d, \"%s\", %d)",
+                var, rc, rc, var, rc, var, rc, var, var, rc, codegen->file, node->token.line);
         } else {
-            /* range(end) - start at 0 */
-            emit_formatted(codegen, "for (int64_t %s = 0; %s < ", var, var);
-            emit_expression(codegen, iter->data.range_expr.end);
-            emit_formatted(codegen, "; %s++", var);
+            emit(codegen, ";\n");
+            emit_indent(codegen);
+            emit_formatted(codegen, "for (int64_t %s = _gray_start_%d; %s < _gray_end_%d; %s++", var, rc, var, rc, var);
         }
 
         emit(codegen, ") {\n");
@@ -9187,28 +9192,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
                     }
                 } else if (wc->is_range && wc->values[j]->kind == NODE_RANGE_EXPR) {
                     AstNode *range = wc->values[j];
-                    /* Check if step is a negative literal to reverse comparison direction */
-                    bool neg_step = (range->data.range_expr.step &&
-                        range->data.range_expr.step->kind == NODE_PREFIX_EXPR &&
-                        range->data.range_expr.step->data.prefix.op == TOK_MINUS);
-                    emit(codegen, "(");
-                    emit(codegen, when_tmp);
-                    emit(codegen, neg_step ? " <= " : " >= ");
-                    emit_expression(codegen, range->data.range_expr.start);
-                    emit(codegen, " && ");
-                    emit(codegen, when_tmp);
-                    emit(codegen, neg_step ? " > " : " < ");
-                    emit_expression(codegen, range->data.range_expr.end);
-                    if (range->data.range_expr.step) {
-                        emit(codegen, " && (");
-                        emit(codegen, when_tmp);
-                        emit(codegen, " - ");
-                        emit_expression(codegen, range->data.range_expr.start);
-                        emit(codegen, ") % ");
-                        emit_expression(codegen, range->data.range_expr.step);
-                        emit(codegen, " == 0");
-                    }
-                    emit(codegen, ")");
+                    emit_range_test(codegen, node, when_tmp, val, range);
                 } else if (when_is_string) {
                     emit(codegen, "gray_string_eq(");
                     emit(codegen, when_tmp);
-- 
2.43.0


From de0dcabbf51ed11ad6c10b30a2829490522bb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:52 +0000
Subject: [PATCH 10/49] fix: shift sized operands at 64 bits and keep bitwise
 results in the operand's type

---
 grayc/src/codegen/codegen.c | 50 +++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index eeab31d..c08a597 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -886,6 +886,13 @@ static void emit_arith_operand(CodeGen *codegen, AstNode *node, AstNode *operand
     }
 }
 
+/* Emit the cast that gives a bitwise operation the type of its left operand. */
+static void emit_bit_result_cast(CodeGen *codegen, const GrayType *left) {
+    if (!is_integer_kind(left)) return;
+    emit_formatted(codegen, "(%s)", left->name ? gray_type_to_c_codegen(codegen, left->name)
+        : is_unsigned_kind(left) ? "uint64_t" : "int64_t");
+}
+
 /* Emit a bound or step of a range as an int64_t value; an omitted start is 0. */
 static void emit_range_operand(CodeGen *codegen, AstNode *node, AstNode *operand) {
     if (!operand) { emit(codegen, "0"); return; }
@@ -1842,20 +1849,16 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
                 break;
             }
         }
-        /* bit_not → ~ ; byte operands must be masked back to 8 bits because
-         * C promotes uint8_t to int before applying ~, yielding a negative
-         * value that fails the runtime byte range check. */
+        /* bit_not → ~ ; the result is brought back to the operand's type because
+         * C promotes sized operands to int before applying ~, which would turn
+         * an unsigned value negative. */
         if (node->data.prefix.op == TOK_BIT_NOT) {
             GrayType *bn_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.prefix.right) : NULL;
-            if (bn_t && bn_t->kind == TK_BYTE) {
-                emit(codegen, "((uint8_t)(~(");
-                emit_expression(codegen, node->data.prefix.right);
-                emit(codegen, ")))");
-            } else {
-                emit(codegen, "(~(");
-                emit_expression(codegen, node->data.prefix.right);
-                emit(codegen, "))");
-            }
+            emit(codegen, "(");
+            emit_bit_result_cast(codegen, bn_t);
+            emit(codegen, "(~(");
+            emit_expression(codegen, node->data.prefix.right);
+            emit(codegen, ")))");
             break;
         }
         emit(codegen, "(");
@@ -1929,28 +1932,33 @@ static void emit_expression(CodeGen *codegen, AstNode *node) {
             break;
         }
 
-        /* Bitwise keyword operators → C bitwise operators */
+        /* Bitwise keyword operators → C bitwise operators. C would promote sized
+         * operands, so the result is brought back to the left operand's type. */
         if (op == TOK_BIT_AND || op == TOK_BIT_OR || op == TOK_BIT_XOR) {
             const char *c_op = operator_to_c_string(op);
             emit(codegen, "(");
+            emit_bit_result_cast(codegen, left_type);
+            emit(codegen, "(");
             emit_expression(codegen, node->data.infix.left);
             emit_formatted(codegen, " %s ", c_op);
             emit_expression(codegen, node->data.infix.right);
-            emit(codegen, ")");
+            emit(codegen, "))");
             break;
         }
         /* Bit shift operators with runtime bounds check.
          * A shift amount that is negative or >= 64 is undefined behavior
-         * in C. Capture the amount once, validate it, then shift. */
+         * in C. Capture the amount once, validate it, then shift the value
+         * at 64 bits so that every accepted amount is defined. */
         if (op == TOK_BIT_SHIFT_LEFT || op == TOK_BIT_SHIFT_RIGHT) {
             const char *c_op = operator_to_c_string(op);
-            bool left_is_literal = node->data.infix.left->kind == NODE_INT_VALUE;
-            emit(codegen, "({ int64_t _sa = (int64_t)(");
-            emit_expression(codegen, node->data.infix.right);
-            emit_formatted(codegen, "); if (_sa < 0 || _sa >= 64) { gray_panic_code_at(\"%s\", %d, \"P0092\", \"shift amount %%lld is out of range; must be in [0, 63]\", (long long)_sa); } (", codegen->file, node->token.line);
-            if (left_is_literal) emit(codegen, "(int64_t)");
+            const char *shifted = (op == TOK_BIT_SHIFT_LEFT || is_unsigned_kind(left_type)) ? "uint64_t" : "int64_t";
+            emit_formatted(codegen, "({ %s _sl = (%s)(", shifted, shifted);
             emit_expression(codegen, node->data.infix.left);
-            emit_formatted(codegen, ") %s (int)_sa; })", c_op);
+            emit(codegen, "); int64_t _sa = (int64_t)(");
+            emit_expression(codegen, node->data.infix.right);
+            emit_formatted(codegen, "); if (_sa < 0 || _sa >= 64) { gray_panic_code_at(\"%s\", %d, \"P0092\", \"shift amount %%lld is out of range; must be in [0, 63]\", (long long)_sa); } ", codegen->file, node->token.line);
+            emit_bit_result_cast(codegen, left_type);
+            emit_formatted(codegen, "(_sl %s (int)_sa); })", c_op);
             break;
         }
 
-- 
2.43.0


From 5463d460da7659be82e5664ccbdfc2f0a907f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:04 +0000
Subject: [PATCH 11/49] fix: compare when arms of mixed signedness by value

---
 grayc/src/codegen/codegen.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index c08a597..9c7bcfe 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -9214,9 +9214,12 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
                     emit_expression(codegen, wc->values[j]);
                     emit(codegen, ")");
                 } else {
-                    emit(codegen, when_tmp);
-                    emit(codegen, " == ");
+                    /* Mixed signedness: C would convert a negative value to a large unsigned one */
+                    GrayType *case_t = codegen->type_table ? typetable_get(codegen->type_table, wc->values[j]) : NULL;
+                    bool mixed = mixed_signedness(when_val_t, case_t);
+                    emit_formatted(codegen, "%s%s == %s", mixed ? "(__int128)" : "", when_tmp, mixed ? "(__int128)(" : "");
                     emit_expression(codegen, wc->values[j]);
+                    if (mixed) emit(codegen, ")");
                 }
             }
             emit(codegen, ") {\n");
-- 
2.43.0


From 2f6a23efa0ce2f2e928a622385ff390d599eab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:16 +0000
Subject: [PATCH 12/49] fix: print the error of a failed command

---
 cli/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/main.go b/cli/main.go
index f4c2495..84012fb 100644
--- a/cli/main.go
+++ b/cli/main.go
@@ -38,6 +38,7 @@ func main() {
 		if errors.As(err, &exitErr) {
 			os.Exit(exitErr.Code)
 		}
+		fmt.Fprintln(os.Stderr, err)
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 0314ac75f344aba487f2468341a5760437305448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:16 +0000
Subject: [PATCH 13/49] fix: report doc inputs and outputs that cannot be read
 or written

---
 cli/commands.go |  4 +--
 cli/doc.go      | 69 ++++++++++++++++++++++++++++---------------------
 2 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/cli/commands.go b/cli/commands.go
index 343fd7a..e080535 100644
--- a/cli/commands.go
+++ b/cli/commands.go
@@ -150,9 +150,9 @@ Examples:
 Output is written to DOCS.md by default. Use -o/--output to write
 to a different path (parent directories are created as needed).`,
 	Args: cobra.MinimumNArgs(1),
-	Run: func(cmd *cobra.Command, args []string) {
+	RunE: func(cmd *cobra.Command, args []string) error {
 		output, _ := cmd.Flags().GetString("output")
-		generateDocs(args, output)
+		return generateDocs(args, output)
 	},
 }
 
diff --git a/cli/doc.go b/cli/doc.go
index 6721371..521fb56 100644
--- a/cli/doc.go
+++ b/cli/doc.go
@@ -10,6 +10,7 @@ package main
 
 import (
 	"bufio"
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -32,31 +33,37 @@ const defaultDocOutputPath = "DOCS.md"
 // generateDocs is the entry point for the gray doc command. outputPath is
 // the destination markdown file; an empty string falls back to
 // defaultDocOutputPath so the `DOCS.md`-in-cwd behavior is
-// unchanged for callers that do not pass --output.
-func generateDocs(args []string, outputPath string) {
+// unchanged for callers that do not pass --output. Inputs that cannot be
+// read are reported in the returned error; the others are still documented.
+func generateDocs(args []string, outputPath string) error {
 	if outputPath == "" {
 		outputPath = defaultDocOutputPath
 	}
 
 	var entries []DocEntry
+	var failed error
 
 	for _, arg := range args {
+		var found []DocEntry
+		var err error
 		if strings.HasSuffix(arg, "/...") {
 			baseDir := strings.TrimSuffix(arg, "/...")
 			if baseDir == "." || baseDir == "" {
 				baseDir = "."
 			}
-			entries = append(entries, collectDocsRecursive(baseDir)...)
+			found, err = collectDocsRecursive(baseDir)
 		} else if strings.HasSuffix(arg, ".gray") {
-			entries = append(entries, collectDocsFromFile(arg)...)
+			found, err = collectDocsFromFile(arg)
 		} else {
-			entries = append(entries, collectDocsFromDir(arg)...)
+			found, err = collectDocsFromDir(arg)
 		}
+		entries = append(entries, found...)
+		failed = errors.Join(failed, err)
 	}
 
 	if len(entries) == 0 {
 		fmt.Println("No documented items found.")
-		return
+		return failed
 	}
 
 	output := generateMarkdown(entries)
@@ -75,34 +82,31 @@ func generateDocs(args []string, outputPath string) {
 	// nested path like docs/API.md.
 	if dir := filepath.Dir(outputPath); dir != "" && dir != "." {
 		if err := os.MkdirAll(dir, 0o755); err != nil {
-			fmt.Printf("Error creating output directory %s: %v\n", dir, err)
-			return
+			return errors.Join(failed, fmt.Errorf("error creating output directory %s: %w", dir, err))
 		}
 	}
 
 	if err := os.WriteFile(outputPath, []byte(output), 0644); err != nil {
-		fmt.Printf("Error writing %s: %v\n", outputPath, err)
-		return
+		return errors.Join(failed, fmt.Errorf("error writing %s: %w", outputPath, err))
 	}
 
 	fmt.Printf("Generated %s with %d documented item(s)\n", outputPath, len(entries))
+	return failed
 }
 
 // collectDocsFromFile extracts documented items from a single .gray file using text scanning.
 // Looks for #doc("description") followed by do/const struct/const enum declarations.
-func collectDocsFromFile(filename string) []DocEntry {
+func collectDocsFromFile(filename string) ([]DocEntry, error) {
 	var entries []DocEntry
 
 	absPath, err := filepath.Abs(filename)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", filename, err)
-		return entries
+		return nil, fmt.Errorf("error resolving path %s: %w", filename, err)
 	}
 
 	f, err := os.Open(absPath)
 	if err != nil {
-		fmt.Printf("Error reading file %s: %v\n", filename, err)
-		return entries
+		return nil, fmt.Errorf("error reading file %s: %w", filename, err)
 	}
 	defer f.Close()
 
@@ -204,8 +208,11 @@ func collectDocsFromFile(filename string) []DocEntry {
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return entries, fmt.Errorf("error reading file %s: %w", filename, err)
+	}
 
-	return entries
+	return entries, nil
 }
 
 // extractDocString extracts the description from #doc("some text")
@@ -246,43 +253,47 @@ func extractStructEnumName(line string) string {
 	return ""
 }
 
-func collectDocsFromDir(dir string) []DocEntry {
+func collectDocsFromDir(dir string) ([]DocEntry, error) {
 	var entries []DocEntry
 	absDir, err := filepath.Abs(dir)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", dir, err)
-		return entries
+		return nil, fmt.Errorf("error resolving path %s: %w", dir, err)
 	}
 	files, err := os.ReadDir(absDir)
 	if err != nil {
-		fmt.Printf("Error reading directory %s: %v\n", dir, err)
-		return entries
+		return nil, fmt.Errorf("error reading directory %s: %w", dir, err)
 	}
+	var failed error
 	for _, file := range files {
 		if !file.IsDir() && strings.HasSuffix(file.Name(), ".gray") {
-			entries = append(entries, collectDocsFromFile(filepath.Join(absDir, file.Name()))...)
+			found, err := collectDocsFromFile(filepath.Join(absDir, file.Name()))
+			entries = append(entries, found...)
+			failed = errors.Join(failed, err)
 		}
 	}
-	return entries
+	return entries, failed
 }
 
-func collectDocsRecursive(dir string) []DocEntry {
+func collectDocsRecursive(dir string) ([]DocEntry, error) {
 	var entries []DocEntry
 	absDir, err := filepath.Abs(dir)
 	if err != nil {
-		fmt.Printf("Error resolving path %s: %v\n", dir, err)
-		return entries
+		return nil, fmt.Errorf("error resolving path %s: %w", dir, err)
 	}
-	filepath.Walk(absDir, func(path string, info os.FileInfo, err error) error {
+	var failed error
+	err = filepath.Walk(absDir, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
+			failed = errors.Join(failed, err)
 			return nil
 		}
 		if !info.IsDir() && strings.HasSuffix(path, ".gray") {
-			entries = append(entries, collectDocsFromFile(path)...)
+			found, err := collectDocsFromFile(path)
+			entries = append(entries, found...)
+			failed = errors.Join(failed, err)
 		}
 		return nil
 	})
-	return entries
+	return entries, errors.Join(failed, err)
 }
 
 func generateMarkdown(entries []DocEntry) string {
-- 
2.43.0


From 624864ced91fc4a80b65feefc3f62db68f5cb883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:16 +0000
Subject: [PATCH 14/49] fix: report fmt inputs that cannot be read and checks
 that could not be made

---
 cli/fmt.go | 50 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/cli/fmt.go b/cli/fmt.go
index 80acda9..e80cd6e 100644
--- a/cli/fmt.go
+++ b/cli/fmt.go
@@ -9,6 +9,7 @@
 package main
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -76,14 +77,17 @@ func formatGraySource(src []byte) []byte {
 //   - "dir"               — all .gray files directly inside dir (non-recursive)
 //   - "dir/subdir"        — all .gray files directly inside dir/subdir
 //   - "./..." or "dir/..." — recursive walk for .gray files
-func collectFmtFiles(args []string) []string {
+//
+// Inputs that cannot be read are reported in the returned error.
+func collectFmtFiles(args []string) ([]string, error) {
 	seen := make(map[string]struct{})
 	var files []string
+	var failed error
 
 	add := func(p string) {
 		ap, err := filepath.Abs(p)
 		if err != nil {
-			fmt.Fprintf(os.Stderr, "gray fmt: cannot resolve %s: %v\n", p, err)
+			failed = errors.Join(failed, fmt.Errorf("gray fmt: cannot resolve %s: %w", p, err))
 			return
 		}
 		if _, ok := seen[ap]; ok {
@@ -99,8 +103,9 @@ func collectFmtFiles(args []string) []string {
 			if baseDir == "" || baseDir == "." || baseDir == "..." {
 				baseDir = "."
 			}
-			filepath.Walk(baseDir, func(p string, info os.FileInfo, err error) error {
+			err := filepath.Walk(baseDir, func(p string, info os.FileInfo, err error) error {
 				if err != nil {
+					failed = errors.Join(failed, fmt.Errorf("gray fmt: %w", err))
 					return nil
 				}
 				if !info.IsDir() && strings.HasSuffix(p, ".gray") {
@@ -108,19 +113,20 @@ func collectFmtFiles(args []string) []string {
 				}
 				return nil
 			})
+			failed = errors.Join(failed, err)
 			continue
 		}
 
 		info, err := os.Stat(arg)
 		if err != nil {
-			fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+			failed = errors.Join(failed, fmt.Errorf("gray fmt: %w", err))
 			continue
 		}
 
 		if info.IsDir() {
 			entries, err := os.ReadDir(arg)
 			if err != nil {
-				fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+				failed = errors.Join(failed, fmt.Errorf("gray fmt: %w", err))
 				continue
 			}
 			for _, e := range entries {
@@ -131,22 +137,26 @@ func collectFmtFiles(args []string) []string {
 		} else if strings.HasSuffix(arg, ".gray") {
 			add(arg)
 		} else {
-			fmt.Fprintf(os.Stderr, "gray fmt: '%s' is not a .gray file or directory\n", arg)
+			failed = errors.Join(failed, fmt.Errorf("gray fmt: '%s' is not a .gray file or directory", arg))
 		}
 	}
-	return files
+	return files, failed
 }
 
 // runFmt is the entry point invoked by the Cobra fmtCmd. It returns the
 // exit code the caller should propagate (0 success, 1 on error).
 func runFmt(args []string, checkMode bool) int {
-	files := collectFmtFiles(args)
+	exit := 0
+	files, err := collectFmtFiles(args)
+	if err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		exit = 1
+	}
 	if len(files) == 0 {
 		fmt.Println("gray fmt: no .gray files found")
-		return 0
+		return exit
 	}
 
-	exit := 0
 	changed := 0
 
 	for _, path := range files {
@@ -166,10 +176,24 @@ func runFmt(args []string, checkMode bool) int {
 				continue
 			}
 			tmpName := tmp.Name()
-			tmp.Write(orig)
-			tmp.Close()
+			_, err = tmp.Write(orig)
+			if cerr := tmp.Close(); err == nil {
+				err = cerr
+			}
+			if err != nil {
+				os.Remove(tmpName)
+				fmt.Fprintf(os.Stderr, "gray fmt: %v\n", err)
+				exit = 1
+				continue
+			}
 
-			grayc.Fmt(tmpName)
+			code, err := grayc.Fmt(tmpName)
+			if err != nil || code != 0 {
+				os.Remove(tmpName)
+				fmt.Fprintf(os.Stderr, "gray fmt: failed to format '%s'\n", path)
+				exit = 1
+				continue
+			}
 
 			formatted, err := os.ReadFile(tmpName)
 			os.Remove(tmpName)
-- 
2.43.0


From c1df202b422b40869204a70bf36bee8ec155242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:16 +0000
Subject: [PATCH 15/49] fix: check that the verification program was written

---
 cli/verify.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/verify.go b/cli/verify.go
index 96b641f..1ebca05 100644
--- a/cli/verify.go
+++ b/cli/verify.go
@@ -35,7 +35,10 @@ func runVerify() int {
 		fmt.Fprintf(os.Stderr, "error: could not write temp file: %v\n", err)
 		return 1
 	}
-	tmp.Close()
+	if err := tmp.Close(); err != nil {
+		fmt.Fprintf(os.Stderr, "error: could not write temp file: %v\n", err)
+		return 1
+	}
 
 	fmt.Println("Running Grayscale language verification test...")
 	code, err := grayc.Run(tmp.Name(), nil)
-- 
2.43.0


From 681b6800b782c0e7c11f96df940867d6aeb617e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:16 +0000
Subject: [PATCH 16/49] fix: stop when an existing project directory cannot be
 removed

---
 cli/new.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/new.go b/cli/new.go
index 75d1fc8..63c956e 100644
--- a/cli/new.go
+++ b/cli/new.go
@@ -181,7 +181,9 @@ func createProject(name, template string, comments, force bool, serverType strin
 			fmt.Println("Cancelled.")
 			return errNewCancelled
 		}
-		os.RemoveAll(name)
+		if err := os.RemoveAll(name); err != nil {
+			return err
+		}
 	}
 
 	fmt.Printf("\nCreating project '%s' with template '%s'...\n", name, template)
-- 
2.43.0


From 07067df47f25ea8eac6419f3f384557ed84c642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:16 +0000
Subject: [PATCH 17/49] fix: reject update URLs with dot segments

---
 cli/update.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cli/update.go b/cli/update.go
index 1b96df9..ed0027b 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -21,6 +21,7 @@ import (
 	"net/url"
 	"os"
 	"os/exec"
+	"path"
 	"path/filepath"
 	"regexp"
 	"runtime"
@@ -1028,8 +1029,9 @@ const (
 
 // isTrustedUpdateURL returns true only when the URL points to an official Grayscale
 // release asset on GitHub. Scheme must be https and the host/path must match
-// the known release download prefix exactly, so --confirm cannot be used to
-// fetch and install an arbitrary binary.
+// the known release download prefix exactly, without dot segments that lead
+// out of it again, so --confirm cannot be used to fetch and install an
+// arbitrary binary.
 func isTrustedUpdateURL(rawURL string) bool {
 	u, err := url.Parse(rawURL)
 	if err != nil {
@@ -1037,7 +1039,8 @@ func isTrustedUpdateURL(rawURL string) bool {
 	}
 	return u.Scheme == "https" &&
 		u.Host == trustedUpdateHost &&
-		strings.HasPrefix(u.Path, trustedUpdatePathPrefix)
+		strings.HasPrefix(u.Path, trustedUpdatePathPrefix) &&
+		path.Clean(u.Path) == u.Path
 }
 
 // doInstall performs the actual download and installation
-- 
2.43.0


From a436d6d7513eb5e3583f6a1eb779114a5d59f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:16 +0000
Subject: [PATCH 18/49] fix: replace the installed binary in one step by a
 complete file

---
 cli/update.go | 85 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 30 deletions(-)

diff --git a/cli/update.go b/cli/update.go
index ed0027b..4c02e1d 100644
--- a/cli/update.go
+++ b/cli/update.go
@@ -1082,7 +1082,9 @@ func doInstall(downloadURL, execPath string) error {
 	}
 
 	n, err := io.Copy(archiveFile, io.LimitReader(resp.Body, maxDownloadBytes+1))
-	archiveFile.Close()
+	if cerr := archiveFile.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		return fmt.Errorf("failed to download archive: %w", err)
 	}
@@ -1101,35 +1103,37 @@ func doInstall(downloadURL, execPath string) error {
 		return fmt.Errorf("failed to extract archive: %w", err)
 	}
 
-	// Make executable
-	if err := os.Chmod(binaryPath, 0755); err != nil {
-		return fmt.Errorf("failed to set permissions: %w", err)
+	// Stage the new binary next to the current one (the temp directory may be
+	// on another filesystem): it is complete on disk before it takes over.
+	stagedPath, err := stageBinary(binaryPath, filepath.Dir(execPath))
+	if err != nil {
+		return fmt.Errorf("failed to install update: %w", err)
 	}
 
-	// Backup current executable
+	// Windows cannot replace a running executable, only move it away
 	backupPath := execPath + ".backup"
-	if err := os.Rename(execPath, backupPath); err != nil {
-		return fmt.Errorf("failed to backup current binary: %w", err)
+	if runtime.GOOS == "windows" {
+		if err := os.Rename(execPath, backupPath); err != nil {
+			os.Remove(stagedPath)
+			return fmt.Errorf("failed to backup current binary: %w", err)
+		}
 	}
 
-	// Copy new binary into place (can't rename across filesystems)
-	if err := copyFile(binaryPath, execPath); err != nil {
-		// Try to restore backup
-		os.Rename(backupPath, execPath)
+	// Swap the new binary into place
+	if err := os.Rename(stagedPath, execPath); err != nil {
+		os.Remove(stagedPath)
+		if runtime.GOOS == "windows" {
+			if rerr := os.Rename(backupPath, execPath); rerr != nil {
+				return fmt.Errorf("failed to install update: %w (the previous binary is at %s: %v)", err, backupPath, rerr)
+			}
+		}
 		return fmt.Errorf("failed to install update: %w", err)
 	}
 
-	// Make the new binary executable
-	if err := os.Chmod(execPath, 0755); err != nil {
-		// Try to restore backup
-		os.Remove(execPath)
-		os.Rename(backupPath, execPath)
-		return fmt.Errorf("failed to set permissions: %w", err)
+	if runtime.GOOS == "windows" {
+		os.Remove(backupPath)
 	}
 
-	// Remove backup
-	os.Remove(backupPath)
-
 	// Post-#1461: release archives ship a single binary; the compiler and
 	// runtime are embedded inside `gray`. No side-car files to copy. The
 	// archive extractor still whitelists `grayc`/`libgrayrt.a` so older
@@ -1217,7 +1221,9 @@ func extractTarGz(archivePath, destDir string) (string, error) {
 			outFile.Close()
 			return "", err
 		}
-		outFile.Close()
+		if err := outFile.Close(); err != nil {
+			return "", err
+		}
 
 		if name == "gray" || name == "gray.exe" {
 			grayBinaryPath = destPath
@@ -1264,7 +1270,9 @@ func extractZip(archivePath, destDir string) (string, error) {
 		}
 
 		_, err = io.Copy(outFile, rc)
-		outFile.Close()
+		if cerr := outFile.Close(); err == nil {
+			err = cerr
+		}
 		rc.Close()
 		if err != nil {
 			return "", err
@@ -1281,20 +1289,37 @@ func extractZip(archivePath, destDir string) (string, error) {
 	return grayBinaryPath, nil
 }
 
-// copyFile copies a file from src to dst
-func copyFile(src, dst string) error {
+// stageBinary copies src to a new executable file in dir and returns its path
+// once everything is on disk.
+func stageBinary(src, dir string) (string, error) {
+	out, err := os.CreateTemp(dir, ".gray-update-*")
+	if err != nil {
+		return "", err
+	}
+	if err := fillBinary(out, src); err != nil {
+		out.Close()
+		os.Remove(out.Name())
+		return "", err
+	}
+	if err := out.Close(); err != nil {
+		os.Remove(out.Name())
+		return "", err
+	}
+	return out.Name(), nil
+}
+
+func fillBinary(out *os.File, src string) error {
 	in, err := os.Open(src)
 	if err != nil {
 		return err
 	}
 	defer in.Close()
 
-	out, err := os.Create(dst)
-	if err != nil {
+	if _, err := io.Copy(out, in); err != nil {
 		return err
 	}
-	defer out.Close()
-
-	_, err = io.Copy(out, in)
-	return err
+	if err := out.Chmod(0755); err != nil {
+		return err
+	}
+	return out.Sync()
 }
-- 
2.43.0


From 251462fa2835cc29dc0dcf2b05042bbfb8768877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:16 +0000
Subject: [PATCH 19/49] fix: extract the runtime through unique temporary files
 and hash all of it

---
 internal/grayc/embedded.go | 48 +++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/internal/grayc/embedded.go b/internal/grayc/embedded.go
index 33ea4d1..cf63e7f 100644
--- a/internal/grayc/embedded.go
+++ b/internal/grayc/embedded.go
@@ -13,6 +13,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	"path/filepath"
@@ -52,12 +53,16 @@ func extractEmbedded() (string, error) {
 			return
 		}
 
-		// Content-address the pair so a new gray binary (built against new
+		// Content-address everything that is extracted so a new gray binary (built against new
 		// compiler artifacts) lands in a fresh directory instead of
 		// reusing a stale extraction from an older install.
 		h := sha256.New()
 		h.Write(embeddedGrayc)
 		h.Write(embeddedLibgrayrt)
+		if err := hashSourceTree(h); err != nil {
+			extractErr = err
+			return
+		}
 		tag := hex.EncodeToString(h.Sum(nil))[:16]
 
 		home, err := os.UserHomeDir()
@@ -100,6 +105,22 @@ func extractEmbedded() (string, error) {
 	return extractedGraycPath, extractErr
 }
 
+// hashSourceTree feeds the name and content of every embedded source file to h.
+func hashSourceTree(h io.Writer) error {
+	return fs.WalkDir(embeddedSrc, "runtime/src", func(path string, d fs.DirEntry, err error) error {
+		if err != nil || d.IsDir() {
+			return err
+		}
+		data, err := embeddedSrc.ReadFile(path)
+		if err != nil {
+			return fmt.Errorf("read embedded %s: %w", path, err)
+		}
+		fmt.Fprintf(h, "%s\x00%d\x00", path, len(data))
+		_, err = h.Write(data)
+		return err
+	})
+}
+
 // extractSourceTree walks the embedded src/ tree and writes each file
 // into dir/src/{runtime,stdlib}/. Skips files that already exist with
 // the correct size (same logic as writeIfMissing).
@@ -133,8 +154,8 @@ func writeIfMissing(path string, data []byte, mode fs.FileMode) error {
 	if st, err := os.Stat(path); err == nil && st.Size() == int64(len(data)) {
 		return nil
 	}
-	tmp := path + ".tmp"
-	if err := os.WriteFile(tmp, data, mode); err != nil {
+	tmp, err := writeTemp(path, data, mode)
+	if err != nil {
 		return fmt.Errorf("write %s: %w", path, err)
 	}
 	if err := os.Rename(tmp, path); err != nil {
@@ -143,3 +164,24 @@ func writeIfMissing(path string, data []byte, mode fs.FileMode) error {
 	}
 	return nil
 }
+
+// writeTemp writes data to a new file next to path. Its name is unique, so
+// processes extracting at the same time do not write into each other's files.
+func writeTemp(path string, data []byte, mode fs.FileMode) (string, error) {
+	f, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".*.tmp")
+	if err != nil {
+		return "", err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(mode)
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		_ = os.Remove(f.Name())
+		return "", err
+	}
+	return f.Name(), nil
+}
-- 
2.43.0


From 3482b3684dc6772a9af7c067d6c82afd0dfd92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:25:52 +0000
Subject: [PATCH 20/49] fix: move values to an arena that lives as long as the
 storage they are assigned to

---
 grayc/src/codegen/codegen.c | 324 ++++++++++++++++++++----------------
 grayc/src/codegen/codegen.h |   5 +
 2 files changed, 184 insertions(+), 145 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 9c7bcfe..c30b3e7 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -742,6 +742,62 @@ static void emit_deep_array_copy(CodeGen *codegen, AstNode *src_node, const char
     emit(codegen, "; })");
 }
 
+static bool is_reference_variable(CodeGen *codegen, const char *name);
+static bool is_mutable_parameter(CodeGen *codegen, const char *name);
+
+static void register_global_variable(CodeGen *codegen, const char *name) {
+    if (!name) return;
+    if (codegen->global_var_count >= codegen->global_var_cap) {
+        codegen->global_var_cap = codegen->global_var_cap ? codegen->global_var_cap * 2 : 8;
+        codegen->global_vars = xrealloc(codegen->global_vars, sizeof(const char *) * (size_t)codegen->global_var_cap);
+    }
+    codegen->global_vars[codegen->global_var_count++] = name;
+}
+
+static bool is_global_variable(CodeGen *codegen, const char *name) {
+    for (int i = 0; i < codegen->global_var_count; i++) {
+        if (strcmp(codegen->global_vars[i], name) == 0) return true;
+    }
+    return false;
+}
+
+/* The arena that what is stored in target must live in. A local variable (with
+ * its fields and elements) lives as long as the function's outermost arena.
+ * What is reached through a pointer, a & parameter or a module-level variable
+ * can outlive all arenas of the function and of its callers, so it needs the
+ * heap arena. */
+static const char *storage_arena(CodeGen *codegen, AstNode *target) {
+    while (target) {
+        AstNode *inner;
+        if (target->kind == NODE_MEMBER_EXPR) inner = target->data.member.object;
+        else if (target->kind == NODE_INDEX_EXPR) inner = target->data.index_expr.left;
+        else break;
+        GrayType *inner_t = codegen->type_table ? typetable_get(codegen->type_table, inner) : NULL;
+        if (!inner_t || inner_t->kind == TK_POINTER) return "gray_heap_arena";
+        target = inner;
+    }
+    if (!target || target->kind != NODE_LABEL ||
+        is_reference_variable(codegen, target->data.label.value) ||
+        is_mutable_parameter(codegen, target->data.label.value) ||
+        is_global_variable(codegen, target->data.label.value)) {
+        return "gray_heap_arena";
+    }
+    return codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+}
+
+static bool is_current_arena(const char *arena) {
+    return strcmp(arena, "gray_default_arena") == 0;
+}
+
+/* Emit code that replaces the value of the C variable var, of type gray_tn, by
+ * a copy that lives in the given arena. */
+static void emit_move_to_arena(CodeGen *codegen, const char *gray_tn, const char *var, const char *arena) {
+    int tag = next_deep_copy_tag();
+    emit_formatted(codegen, "{ GrayArena *_esc_a%d = gray_default_arena; gray_default_arena = %s; %s = ", tag, arena, var);
+    emit_value_deep_copy(codegen, gray_tn, var);
+    emit_formatted(codegen, "; gray_default_arena = _esc_a%d; } ", tag);
+}
+
 /* Resolve an import alias to the actual module name, or return the name itself */
 static const char *resolve_alias(CodeGen *codegen, const char *name) {
     for (int i = 0; i < codegen->alias_count; i++) {
@@ -5127,20 +5183,18 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
             else if (et->kind == TK_FUNCTION) c_elem = "void *";
             else if (et->kind == TK_POINTER) c_elem = gray_type_to_c_codegen(codegen, elem_tn);
         }
-        const char *alloc_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        const char *alloc_arena = storage_arena(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "{ %s _av = ", c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; ");
         /* : escape arena-allocated data to the outer arena when
          * inside a loop scope. Strings get a simple copy; arrays, maps,
          * and structs with embedded pointers need a full deep copy. */
-        if (codegen->loop_scope_depth > 0) {
+        if (!is_current_arena(alloc_arena)) {
             if (elem_is_string) {
                 emit_formatted(codegen, "_av = gray_string_new(%s, _av.data, _av.len); ", alloc_arena);
             } else if (elem_tn && type_needs_deep_copy(codegen, elem_tn)) {
-                emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _av = ", alloc_arena);
-                emit_value_deep_copy(codegen, elem_tn, "_av");
-                emit(codegen, "; gray_default_arena = _esc; } ");
+                emit_move_to_arena(codegen, elem_tn, "_av", alloc_arena);
             }
         }
         /* Ensure elem_size is set on the target array before appending;
@@ -5173,7 +5227,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
                 c_elem = gray_type_to_c_codegen(codegen, _ia_ptr_tn);
             }
         }
-        const char *ia_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        const char *ia_arena = storage_arena(codegen, node->data.call.args[0]);
         emit_formatted(codegen, "{ %s _iv = ", c_elem);
         emit_expression(codegen, node->data.call.args[2]);
         emit(codegen, "; ");
@@ -5181,13 +5235,11 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         const char *ia_elem_tn = (ia_arr_t && ia_arr_t->kind == TK_ARRAY) ? ia_arr_t->element_type : NULL;
         bool ia_str = (val_t && val_t->kind == TK_STRING) ||
             (ia_elem_tn && strcmp(ia_elem_tn, "string") == 0);
-        if (codegen->loop_scope_depth > 0) {
+        if (!is_current_arena(ia_arena)) {
             if (ia_str) {
                 emit_formatted(codegen, "_iv = gray_string_new(%s, _iv.data, _iv.len); ", ia_arena);
             } else if (ia_elem_tn && type_needs_deep_copy(codegen, ia_elem_tn)) {
-                emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _iv = ", ia_arena);
-                emit_value_deep_copy(codegen, ia_elem_tn, "_iv");
-                emit(codegen, "; gray_default_arena = _esc; } ");
+                emit_move_to_arena(codegen, ia_elem_tn, "_iv", ia_arena);
             }
         }
         emit_formatted(codegen, "gray_arrays_insert_at(%s, ", ia_arena);
@@ -5304,7 +5356,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     /* prepend/fill need special value wrapping */
     if (strcmp(func, "prepend") == 0 && node->data.call.arg_count == 2) {
-        const char *pp_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+        const char *pp_arena = storage_arena(codegen, node->data.call.args[0]);
         GrayType *pp_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *pp_elem_tn = (pp_arr_t && pp_arr_t->kind == TK_ARRAY) ? pp_arr_t->element_type : NULL;
         bool pp_str = pp_elem_tn && strcmp(pp_elem_tn, "string") == 0;
@@ -5321,13 +5373,11 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit_formatted(codegen, "{ %s _pv = ", pp_c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; ");
-        if (codegen->loop_scope_depth > 0) {
+        if (!is_current_arena(pp_arena)) {
             if (pp_str) {
                 emit_formatted(codegen, "_pv = gray_string_new(%s, _pv.data, _pv.len); ", pp_arena);
             } else if (pp_elem_tn && type_needs_deep_copy(codegen, pp_elem_tn)) {
-                emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _pv = ", pp_arena);
-                emit_value_deep_copy(codegen, pp_elem_tn, "_pv");
-                emit(codegen, "; gray_default_arena = _esc; } ");
+                emit_move_to_arena(codegen, pp_elem_tn, "_pv", pp_arena);
             }
         }
         emit_formatted(codegen, "gray_arrays_prepend(%s, ", pp_arena);
@@ -7718,6 +7768,15 @@ static bool is_compound_assign(TokenType op) {
            op == TOK_SLASH_ASSIGN || op == TOK_PERCENT_ASSIGN;
 }
 
+/* C variable that already holds the value of the assignment being emitted, moved
+ * to the arena of the target; NULL while the value is still to be evaluated. */
+static const char *moved_value = NULL;
+
+static void emit_assigned_value(CodeGen *codegen, AstNode *node) {
+    if (moved_value) emit(codegen, moved_value);
+    else emit_expression(codegen, node->data.assign.value);
+}
+
 /* Bracket an assignable C target: emit_target_open, the target itself, then
  * emit_target_assign, which finishes `target = value` and, for a compound
  * operator, stores the checked `target OP value` through the target's address. */
@@ -7732,11 +7791,61 @@ static void emit_target_assign(CodeGen *codegen, AstNode *node) {
         emit_compound_value(codegen, node, "*_ct", target_t ? target_t->name : NULL);
     } else {
         emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
-        emit_expression(codegen, node->data.assign.value);
+        emit_assigned_value(codegen, node);
     }
 }
 
+/* Name of a type in the form emit_value_deep_copy takes, or NULL for a type
+ * whose values own no memory. */
+static const char *owning_type_name(CodeGen *codegen, GrayType *type, char *buffer, size_t size) {
+    const char *name = NULL;
+    if (!type) return NULL;
+    if (type->kind == TK_STRING) name = "string";
+    else if (type->kind == TK_ARRAY) {
+        snprintf(buffer, size, "[%s]", type->element_type ? type->element_type : "");
+        name = buffer;
+    } else if (type->kind == TK_MAP || type->kind == TK_STRUCT) name = type->name;
+    return name && type_needs_deep_copy(codegen, name) ? name : NULL;
+}
+
+static void emit_assignment(CodeGen *codegen, AstNode *node);
+
+/* A plain assignment of a value that owns memory to storage that outlives the
+ * current arena first moves the value to an arena that lives as long. */
 static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
+    AstNode *target = node->data.assign.target;
+    if (node->data.assign.op == TOK_ASSIGN) {
+        const char *arena = storage_arena(codegen, target);
+        GrayType *target_t = codegen->type_table ? typetable_get(codegen->type_table, target) : NULL;
+        char name_buf[MSG_BUF_SIZE];
+        const char *type_name = is_current_arena(arena) ? NULL
+            : owning_type_name(codegen, target_t, name_buf, sizeof(name_buf));
+        bool in_map = false;
+        if (target->kind == NODE_INDEX_EXPR) {
+            GrayType *left_t = codegen->type_table ? typetable_get(codegen->type_table, target->data.index_expr.left) : NULL;
+            in_map = left_t && left_t->kind == TK_MAP;   /* gray_map_set is preceded by a move of its own */
+        }
+        if (type_name && !in_map) {
+            char var[VAR_NAME_BUF];
+            snprintf(var, sizeof(var), "_esc_v%d", next_deep_copy_tag());
+            emit_indent(codegen);
+            emit_formatted(codegen, "{ %s %s = ", gray_type_to_c_codegen(codegen, type_name), var);
+            emit_expression(codegen, node->data.assign.value);
+            emit(codegen, "; ");
+            emit_move_to_arena(codegen, type_name, var, arena);
+            emit(codegen, "\n");
+            moved_value = var;
+            emit_assignment(codegen, node);
+            moved_value = NULL;
+            emit_indent(codegen);
+            emit(codegen, "}\n");
+            return;
+        }
+    }
+    emit_assignment(codegen, node);
+}
+
+static void emit_assignment(CodeGen *codegen, AstNode *node) {
     emit_indent(codegen);
 
     /* Check for array index assignment: arr[i] = value */
@@ -7785,8 +7894,9 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                         emit_formatted(codegen, "GRAY_ARRAY_SET(_asdp%d->%s, %s, ",
                             my_dp, sanitize_name(_set_ptr_field), c_elem);
                         emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-                        emit(codegen, ", ");
-                        emit_expression(codegen, node->data.assign.value);
+                        emit(codegen, ", (");
+                        emit_assigned_value(codegen, node);
+                        emit(codegen, ")");
                     }
                     emit(codegen, "); }\n");
                     return;
@@ -7810,9 +7920,9 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             emit_expression(codegen, left);
             emit_formatted(codegen, ", %s, ", c_elem);
             emit_expression(codegen, node->data.assign.target->data.index_expr.index);
-            emit(codegen, ", ");
-            emit_expression(codegen, node->data.assign.value);
-            emit(codegen, ");\n");
+            emit(codegen, ", (");
+            emit_assigned_value(codegen, node);
+            emit(codegen, "));\n");
             return;
         }
         if (left_t && left_t->kind == TK_MAP) {
@@ -7826,7 +7936,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             if (left_t->value_type) c_val = gray_map_element_c_type(codegen, left_t->value_type);
             const char *c_key = "GrayString";
             if (left_t->key_type) c_key = gray_map_element_c_type(codegen, left_t->key_type);
-            const char *ms_arena = codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : "gray_default_arena";
+            const char *ms_arena = storage_arena(codegen, left);
             bool ms_str_key = left_t->key_type && strcmp(left_t->key_type, "string") == 0;
             bool ms_str_val = left_t->value_type && strcmp(left_t->value_type, "string") == 0;
 
@@ -7844,13 +7954,11 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, "{ %s _mk = ", c_key);
             emit_expression(codegen, node->data.assign.target->data.index_expr.index);
             emit(codegen, "; ");
-            if (codegen->loop_scope_depth > 0) {
+            if (!is_current_arena(ms_arena)) {
                 if (ms_str_key) {
                     emit_formatted(codegen, "_mk = gray_string_new(%s, _mk.data, _mk.len); ", ms_arena);
                 } else if (left_t->key_type && type_needs_deep_copy(codegen, left_t->key_type)) {
-                    emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _mk = ", ms_arena);
-                    emit_value_deep_copy(codegen, left_t->key_type, "_mk");
-                    emit(codegen, "; gray_default_arena = _esc; } ");
+                    emit_move_to_arena(codegen, left_t->key_type, "_mk", ms_arena);
                 }
             }
             /* For compound assignments, read the existing value first so the
@@ -7881,13 +7989,11 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
                 emit_expression(codegen, node->data.assign.value);
             }
             emit(codegen, "; ");
-            if (codegen->loop_scope_depth > 0) {
+            if (!is_current_arena(ms_arena)) {
                 if (ms_str_val) {
                     emit_formatted(codegen, "_mv = gray_string_new(%s, _mv.data, _mv.len); ", ms_arena);
                 } else if (left_t->value_type && type_needs_deep_copy(codegen, left_t->value_type)) {
-                    emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = %s; _mv = ", ms_arena);
-                    emit_value_deep_copy(codegen, left_t->value_type, "_mv");
-                    emit(codegen, "; gray_default_arena = _esc; } ");
+                    emit_move_to_arena(codegen, left_t->value_type, "_mv", ms_arena);
                 }
             }
             if (map_via_ptr) {
@@ -7935,7 +8041,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             emit_bigint_operand(codegen, node->data.assign.value,
                                 bigint_prefix(bi_elem), bi_elem, NULL);
         } else {
-            emit_expression(codegen, node->data.assign.value);
+            emit_assigned_value(codegen, node);
         }
         emit(codegen, "; }\n");
         return;
@@ -7996,36 +8102,6 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
         bool is_ref = (obj->kind == NODE_LABEL && is_reference_variable(codegen, obj->data.label.value));
         if (!is_ref && obj_t && obj_t->kind == TK_POINTER) {
             const char *field = node->data.assign.target->data.member.member;
-            /* When assigning an array/string to a struct field inside a
-             * scoped block (if/loop), deep-copy to the outer arena so the
-             * data survives the block's arena destruction. */
-            if (node->data.assign.op == TOK_ASSIGN && codegen->loop_scope_depth > 0) {
-                GrayType *field_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
-                if (field_t && field_t->kind == TK_ARRAY) {
-                    char type_str[MSG_BUF_SIZE];
-                    snprintf(type_str, sizeof(type_str), "[%s]", field_t->element_type ? field_t->element_type : "");
-                    emit(codegen, "{ __auto_type _dp = ");
-                    emit_expression(codegen, obj);
-                    emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
-                    emit_formatted(codegen, "{ GrayArray _esc_v = ");
-                    emit_expression(codegen, node->data.assign.value);
-                    emit(codegen, "; GrayArena *_esc_a = gray_default_arena; gray_default_arena = _gray_outer_arena; ");
-                    emit_formatted(codegen, "_dp->%s = ", sanitize_name(field));
-                    emit_array_deep_copy(codegen, type_str, "_esc_v");
-                    emit(codegen, "; gray_default_arena = _esc_a; } }\n");
-                    return;
-                }
-                if (field_t && field_t->kind == TK_STRING) {
-                    emit(codegen, "{ __auto_type _dp = ");
-                    emit_expression(codegen, obj);
-                    emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
-                    emit_formatted(codegen, "{ GrayString _esc_v = ");
-                    emit_expression(codegen, node->data.assign.value);
-                    emit_formatted(codegen, "; _dp->%s = gray_string_new(_gray_outer_arena, _esc_v.data, _esc_v.len); } }\n",
-                        sanitize_name(field));
-                    return;
-                }
-            }
             emit(codegen, "{ __auto_type _dp = ");
             emit_expression(codegen, obj);
             emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
@@ -8161,8 +8237,9 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
      * Routes through emit_deep_array_copy so nested inner arrays get
      * independent backing storage ). Applies to any RHS expression
      * (variables, call results, etc.) to prevent use-after-free when the
-     * source array lives on a function-local arena. */
-    if (node->data.assign.op == TOK_ASSIGN) {
+     * source array lives on a function-local arena. A moved value is a copy
+     * already. */
+    if (node->data.assign.op == TOK_ASSIGN && !moved_value) {
         GrayType *tgt_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
         if (tgt_t && tgt_t->kind == TK_ARRAY) {
             emit_expression(codegen, node->data.assign.target);
@@ -8186,9 +8263,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             emit(codegen, "; }\n");
             return;
         }
-        /* Struct copy-by-default: deep copy structs with container fields.
-         * When inside a scoped arena (if-block / for_each), allocate on
-         * the outer arena so the copy survives scope destruction. */
+        /* Struct copy-by-default: deep copy structs with container fields. */
         if (tgt_t && tgt_t->kind == TK_STRUCT && tgt_t->name &&
             type_needs_deep_copy(codegen, tgt_t->name)) {
             int tag = next_deep_copy_tag();
@@ -8198,50 +8273,16 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             emit_formatted(codegen, "{ %s %s = ", ct, src_var);
             emit_expression(codegen, node->data.assign.value);
             emit(codegen, "; ");
-            if (codegen->loop_scope_depth > 0) {
-                emit(codegen, "GrayArena *_esc_a = gray_default_arena; gray_default_arena = _gray_outer_arena; ");
-            }
             emit_expression(codegen, node->data.assign.target);
             emit(codegen, " = ");
             emit_value_deep_copy(codegen, tgt_t->name, src_var);
-            if (codegen->loop_scope_depth > 0) {
-                emit(codegen, "; gray_default_arena = _esc_a; }\n");
-            } else {
-                emit(codegen, "; }\n");
-            }
+            emit(codegen, "; }\n");
             return;
         }
     }
 
     /* Default assignment; suppress ref auto-deref when assigning to a pointer target */
 
-    /* : when inside a loop scope and assigning a string/container
-     * value to a plain variable with =, escape the value to the outer
-     * arena so it survives the iteration arena's destruction. */
-    if (codegen->loop_scope_depth > 0 && node->data.assign.op == TOK_ASSIGN &&
-        node->data.assign.target->kind == NODE_LABEL) {
-        GrayType *tgt_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.assign.target) : NULL;
-        if (tgt_t && tgt_t->kind == TK_STRING) {
-            emit(codegen, "{ GrayString _esc_v = ");
-            emit_expression(codegen, node->data.assign.value);
-            emit(codegen, "; ");
-            emit_expression(codegen, node->data.assign.target);
-            emit(codegen, " = gray_string_new(_gray_outer_arena, _esc_v.data, _esc_v.len); }\n");
-            return;
-        }
-        if (tgt_t && tgt_t->name && type_needs_deep_copy(codegen, tgt_t->name)) {
-            const char *c_type = gray_type_to_c_codegen(codegen, tgt_t->name);
-            emit_formatted(codegen, "{ %s _esc_v = ", c_type);
-            emit_expression(codegen, node->data.assign.value);
-            emit(codegen, "; GrayArena *_esc_a = gray_default_arena; gray_default_arena = _gray_outer_arena; ");
-            emit_expression(codegen, node->data.assign.target);
-            emit(codegen, " = ");
-            emit_value_deep_copy(codegen, tgt_t->name, "_esc_v");
-            emit(codegen, "; gray_default_arena = _esc_a; }\n");
-            return;
-        }
-    }
-
     emit_expression(codegen, node->data.assign.target);
     emit_formatted(codegen, " %s ", operator_to_c_string(node->data.assign.op));
     if (node->data.assign.value->kind == NODE_LABEL &&
@@ -8253,7 +8294,7 @@ static void emit_assign_statement(CodeGen *codegen, AstNode *node) {
             emit_expression(codegen, node->data.assign.value);
         }
     } else {
-        emit_expression(codegen, node->data.assign.value);
+        emit_assigned_value(codegen, node);
     }
     emit(codegen, ";\n");
 }
@@ -8338,6 +8379,28 @@ static void emit_loop_exit_unwind(CodeGen *codegen) {
     }
 }
 
+/* The arena a returned value must be moved to, or NULL if it need not be. A
+ * function that runs in its caller's arena has no private _func_arena: what it
+ * returns is in the caller's arena already, unless it was made in a scratch
+ * arena of an enclosing block. */
+static const char *return_value_arena(CodeGen *codegen) {
+    if (!function_uses_caller_arena(codegen->current_func)) return "_func_saved";
+    return codegen->loop_scope_depth > 0 ? "_gray_outer_arena" : NULL;
+}
+
+static void emit_return_value_escape(CodeGen *codegen, const char *type_name, const char *var, const char *arena) {
+    if (!type_name) return;
+    if (type_from_name(type_name)->kind == TK_ERROR) {
+        emit_formatted(codegen, "if (%s) { GrayError *_src_err = (GrayError *)%s; ", var, var);
+        emit_formatted(codegen, "GrayError *_esc_err = (GrayError *)gray_arena_alloc(%s, sizeof(GrayError)); ", arena);
+        emit_formatted(codegen, "_esc_err->message = gray_string_new(%s, _src_err->message.data, _src_err->message.len); ", arena);
+        emit_formatted(codegen, "_esc_err->code = gray_string_new(%s, _src_err->code.data, _src_err->code.len); ", arena);
+        emit_formatted(codegen, "%s = _esc_err; } ", var);
+    } else if (type_needs_deep_copy(codegen, type_name)) {
+        emit_move_to_arena(codegen, type_name, var, arena);
+    }
+}
+
 /* : emit escape + cleanup for a non-void function return.
  * Escapes the return value (_ret) to _func_saved, then unwinds any
  * nested scratch arenas live at this exit point, then
@@ -8345,28 +8408,10 @@ static void emit_loop_exit_unwind(CodeGen *codegen) {
  * may read from memory still owned by a scratch arena. */
 static void emit_function_return_escape(CodeGen *codegen, const char *ret_type_name) {
     if (!ret_type_name) return;
-    /* Caller-arena functions have no private _func_arena: the return value
-     * is already allocated in the caller's arena, so there is nothing to
-     * escape and nothing to destroy — just unwind any nested scratch. */
-    if (function_uses_caller_arena(codegen->current_func)) {
-        emit_scratch_arena_unwind(codegen);
-        return;
-    }
-    GrayType *return_graytype = type_from_name(ret_type_name);
-    if (return_graytype->kind == TK_STRING) {
-        emit(codegen, "_ret = gray_string_new(_func_saved, _ret.data, _ret.len); ");
-    } else if (return_graytype->kind == TK_ERROR) {
-        emit(codegen, "if (_ret) { GrayError *_src_err = (GrayError *)_ret; ");
-        emit(codegen, "GrayError *_esc_err = (GrayError *)gray_arena_alloc(_func_saved, sizeof(GrayError)); ");
-        emit(codegen, "_esc_err->message = gray_string_new(_func_saved, _src_err->message.data, _src_err->message.len); ");
-        emit(codegen, "_esc_err->code = gray_string_new(_func_saved, _src_err->code.data, _src_err->code.len); ");
-        emit(codegen, "_ret = _esc_err; } ");
-    } else if (type_needs_deep_copy(codegen, ret_type_name)) {
-        emit(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = _func_saved; _ret = ");
-        emit_value_deep_copy(codegen, ret_type_name, "_ret");
-        emit(codegen, "; gray_default_arena = _esc; } ");
-    }
+    const char *arena = return_value_arena(codegen);
+    if (arena) emit_return_value_escape(codegen, ret_type_name, "_ret", arena);
     emit_scratch_arena_unwind(codegen);
+    if (function_uses_caller_arena(codegen->current_func)) return;
     emit(codegen, "gray_default_arena = _func_saved; ");
     emit(codegen, "gray_arena_destroy(_func_arena, __FILE__, __LINE__); free(_func_arena); ");
 }
@@ -8375,31 +8420,15 @@ static void emit_function_return_escape(CodeGen *codegen, const char *ret_type_n
  * to _func_saved, then unwind scratch arenas and destroy _func_arena.
  * Mirrors emit_function_return_escape but covers all fields of a multi-return. */
 static void emit_multi_function_return_escape(CodeGen *codegen) {
-    if (function_uses_caller_arena(codegen->current_func)) {
-        emit_scratch_arena_unwind(codegen);
-        return;
-    }
+    const char *arena = return_value_arena(codegen);
     int rc = codegen->current_func->data.func_decl.return_type_count;
-    for (int i = 0; i < rc; i++) {
-        const char *type_str = codegen->current_func->data.func_decl.return_types[i];
-        if (!type_str) continue;
-        GrayType *return_graytype = type_from_name(type_str);
-        if (return_graytype->kind == TK_STRING) {
-            emit_formatted(codegen, "_ret.v%d = gray_string_new(_func_saved, _ret.v%d.data, _ret.v%d.len); ", i, i, i);
-        } else if (return_graytype->kind == TK_ERROR) {
-            emit_formatted(codegen, "if (_ret.v%d) { GrayError *_esc_err = (GrayError *)gray_arena_alloc(_func_saved, sizeof(GrayError)); ", i);
-            emit_formatted(codegen, "_esc_err->message = gray_string_new(_func_saved, _ret.v%d->message.data, _ret.v%d->message.len); ", i, i);
-            emit_formatted(codegen, "_esc_err->code = gray_string_new(_func_saved, _ret.v%d->code.data, _ret.v%d->code.len); ", i, i);
-            emit_formatted(codegen, "_ret.v%d = _esc_err; } ", i);
-        } else if (type_needs_deep_copy(codegen, type_str)) {
-            char field[32];
-            snprintf(field, sizeof(field), "_ret.v%d", i);
-            emit_formatted(codegen, "{ GrayArena *_esc = gray_default_arena; gray_default_arena = _func_saved; _ret.v%d = ", i);
-            emit_value_deep_copy(codegen, type_str, field);
-            emit(codegen, "; gray_default_arena = _esc; } ");
-        }
+    for (int i = 0; arena && i < rc; i++) {
+        char field[32];
+        snprintf(field, sizeof(field), "_ret.v%d", i);
+        emit_return_value_escape(codegen, codegen->current_func->data.func_decl.return_types[i], field, arena);
     }
     emit_scratch_arena_unwind(codegen);
+    if (function_uses_caller_arena(codegen->current_func)) return;
     emit(codegen, "gray_default_arena = _func_saved; ");
     emit(codegen, "gray_arena_destroy(_func_arena, __FILE__, __LINE__); free(_func_arena); ");
 }
@@ -9406,6 +9435,9 @@ CodeGen codegen_create(const char *file) {
     codegen.in_const_decl = false;
     codegen.ref_vars = NULL;
     codegen.ref_var_count = 0;
+    codegen.global_vars = NULL;
+    codegen.global_var_count = 0;
+    codegen.global_var_cap = 0;
     codegen.ref_var_cap = 0;
     codegen.bigint_var_names = NULL;
     codegen.bigint_var_types = NULL;
@@ -10080,6 +10112,7 @@ void codegen_generate(CodeGen *codegen, AstNode *program) {
     for (int i = 0; i < program->data.program.stmt_count; i++) {
         AstNode *stmt = program->data.program.stmts[i];
         if (stmt->kind == NODE_VAR_DECL) {
+            register_global_variable(codegen, stmt->data.var_decl.name);
             emit_statement(codegen, stmt);
         }
     }
@@ -10135,6 +10168,7 @@ void codegen_destroy(CodeGen *codegen) {
     free(codegen->all_funcs);
     free(codegen->funcs_by_name);
     free(codegen->ref_vars);
+    free(codegen->global_vars);
     free(codegen->bigint_var_names);
     free(codegen->bigint_var_types);
     free(codegen->struct_decls);
diff --git a/grayc/src/codegen/codegen.h b/grayc/src/codegen/codegen.h
index cc2ace1..9385fea 100644
--- a/grayc/src/codegen/codegen.h
+++ b/grayc/src/codegen/codegen.h
@@ -67,6 +67,11 @@ typedef struct {
     int ref_var_count;
     int ref_var_cap;
 
+    /* Module-level variables; they outlive every arena of a function. */
+    const char **global_vars;
+    int global_var_count;
+    int global_var_cap;
+
     /* Track declared bigint variable types (name → type_name) */
     const char **bigint_var_names;
     const char **bigint_var_types;
-- 
2.43.0


From 009b7e409bacb85bd7b99729eaa1242333a74c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:25:52 +0000
Subject: [PATCH 21/49] fix: give every thread a heap arena

---
 grayc/src/stdlib/threads.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grayc/src/stdlib/threads.c b/grayc/src/stdlib/threads.c
index 73c29ec..7ce4750 100644
--- a/grayc/src/stdlib/threads.c
+++ b/grayc/src/stdlib/threads.c
@@ -36,6 +36,9 @@ static void *thread_entry(void *raw) {
     ThreadArg *ta = (ThreadArg *)raw;
     GrayThreadInternal *state = ta->state;
     gray_default_arena = gray_arena_create(GRAY_DEFAULT_ARENA_SIZE);
+    /* Not destroyed with the thread: it holds what the thread stored in
+     * module-level variables and behind pointers. */
+    gray_heap_arena = gray_arena_create(GRAY_DEFAULT_ARENA_SIZE);
     if (ta->fn1)
         ta->fn1(ta->arg);
     else
-- 
2.43.0


From d4673dcb65948a0b39cdf1f9c676706c475fe6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:25:52 +0000
Subject: [PATCH 22/49] fix: give zero-initialised map fields a table, and move
 errors like other values

---
 grayc/src/codegen/codegen.c | 49 +++++++++++++++++++++++--------------
 grayc/src/runtime/map.c     |  5 ++++
 grayc/src/runtime/map.h     |  3 +++
 grayc/src/runtime/runtime.c |  8 ++++++
 grayc/src/runtime/runtime.h |  3 +++
 5 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index c30b3e7..2c4b59e 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -502,6 +502,7 @@ static bool type_needs_deep_copy(CodeGen *codegen, const char *gray_tn) {
     if (gray_tn[0] == '[') return true;
     if (strncmp(gray_tn, "map[", 4) == 0) return true;
     if (strcmp(gray_tn, "string") == 0) return true;
+    if (type_from_name(gray_tn)->kind == TK_ERROR) return true;
     if (gray_tn[0] == '^') return false; /* pointers alias; see header comment */
     AstNode *sdecl = find_struct_declaration(codegen, gray_tn);
     if (!sdecl) return false;
@@ -712,6 +713,10 @@ static void emit_value_deep_copy(CodeGen *codegen, const char *gray_tn, const ch
         emit_formatted(codegen, "gray_string_new(gray_default_arena, %s.data, %s.len)", src_var, src_var);
         return;
     }
+    if (type_from_name(gray_tn)->kind == TK_ERROR) {
+        emit_formatted(codegen, "gray_error_copy(gray_default_arena, %s)", src_var);
+        return;
+    }
     if (gray_tn[0] == '[') {
         emit_array_deep_copy(codegen, gray_tn, src_var);
         return;
@@ -5396,7 +5401,12 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         }
         emit_formatted(codegen, "{ %s _fv = ", fl_c_elem);
         emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, "; gray_arrays_fill(gray_default_arena, ");
+        const char *fl_arena = storage_arena(codegen, node->data.call.args[0]);
+        emit(codegen, "; ");
+        if (!is_current_arena(fl_arena) && strcmp(fl_c_elem, "GrayString") == 0) {
+            emit_move_to_arena(codegen, "string", "_fv", fl_arena);
+        }
+        emit_formatted(codegen, "gray_arrays_fill(%s, ", fl_arena);
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ", &_fv, ");
         emit_expression(codegen, node->data.call.args[2]);
@@ -7804,7 +7814,7 @@ static const char *owning_type_name(CodeGen *codegen, GrayType *type, char *buff
     else if (type->kind == TK_ARRAY) {
         snprintf(buffer, size, "[%s]", type->element_type ? type->element_type : "");
         name = buffer;
-    } else if (type->kind == TK_MAP || type->kind == TK_STRUCT) name = type->name;
+    } else if (type->kind == TK_MAP || type->kind == TK_STRUCT || type->kind == TK_ERROR) name = type->name;
     return name && type_needs_deep_copy(codegen, name) ? name : NULL;
 }
 
@@ -7975,9 +7985,9 @@ static void emit_assignment(CodeGen *codegen, AstNode *node) {
                           codegen->file, node->token.line, sanitize_name(left->data.member.member),
                           codegen->file, node->token.line);
                 } else {
-                    emit_formatted(codegen, "void *_cur = gray_map_get(&");
+                    emit(codegen, "GrayMap *_mp = &");
                     emit_expression(codegen, left);
-                    emit_formatted(codegen, ", &_mk); if (!_cur) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
+                    emit_formatted(codegen, "; void *_cur = gray_map_get(_mp, &_mk); if (!_cur) { gray_panic_code_at(\"%s\", %d, \"P0081\", \"key not found in map\"); } ", codegen->file, node->token.line);
                 }
             }
             emit_formatted(codegen, "%s _mv = ", c_val);
@@ -7996,6 +8006,11 @@ static void emit_assignment(CodeGen *codegen, AstNode *node) {
                     emit_move_to_arena(codegen, left_t->value_type, "_mv", ms_arena);
                 }
             }
+            /* A map that was only zero-initialised (a struct field that no
+             * literal set) gets its table here. */
+            char ms_init[MSG_BUF_SIZE];
+            snprintf(ms_init, sizeof(ms_init), ", sizeof(%s), sizeof(%s), %s); ",
+                c_key, c_val, gray_map_key_kind_macro(c_key));
             if (map_via_ptr) {
                 if (ms_compound) {
                     /* _mp was captured above; just set and close the outer block. */
@@ -8006,13 +8021,18 @@ static void emit_assignment(CodeGen *codegen, AstNode *node) {
                     emit_formatted(codegen, "{ __auto_type _mp = ");
                     emit_expression(codegen, left->data.member.object);
                     emit_formatted(codegen, "; if (!_mp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } "
-                        "gray_map_set(%s, &_mp->%s, &_mk, &_mv); } }\n",
-                        codegen->file, node->token.line, ms_arena, sanitize_name(left->data.member.member));
+                        "gray_map_ensure(%s, &_mp->%s%sgray_map_set(%s, &_mp->%s, &_mk, &_mv); } }\n",
+                        codegen->file, node->token.line,
+                        ms_arena, sanitize_name(left->data.member.member), ms_init,
+                        ms_arena, sanitize_name(left->data.member.member));
                 }
             } else {
-                emit_formatted(codegen, "gray_map_set(%s, &", ms_arena);
-                emit_expression(codegen, left);
-                emit(codegen, ", &_mk, &_mv); }\n");
+                if (!ms_compound) {
+                    emit(codegen, "GrayMap *_mp = &");
+                    emit_expression(codegen, left);
+                    emit_formatted(codegen, "; gray_map_ensure(%s, _mp%s", ms_arena, ms_init);
+                }
+                emit_formatted(codegen, "gray_map_set(%s, _mp, &_mk, &_mv); }\n", ms_arena);
             }
             return;
         }
@@ -8056,7 +8076,7 @@ static void emit_assignment(CodeGen *codegen, AstNode *node) {
         emit_expression(codegen, ptr);
         emit_formatted(codegen, "; if (!_dp) { gray_panic_code_at(\"%s\", %d, \"P0080\", \"nil pointer dereference\"); } ", codegen->file, node->token.line);
         emit_target_open(codegen, node);
-        emit_formatted(codegen, "_dp->%s", field);
+        emit_formatted(codegen, "_dp->%s", sanitize_name(field));
         emit_target_assign(codegen, node);
         emit(codegen, "; }\n");
         return;
@@ -8389,14 +8409,7 @@ static const char *return_value_arena(CodeGen *codegen) {
 }
 
 static void emit_return_value_escape(CodeGen *codegen, const char *type_name, const char *var, const char *arena) {
-    if (!type_name) return;
-    if (type_from_name(type_name)->kind == TK_ERROR) {
-        emit_formatted(codegen, "if (%s) { GrayError *_src_err = (GrayError *)%s; ", var, var);
-        emit_formatted(codegen, "GrayError *_esc_err = (GrayError *)gray_arena_alloc(%s, sizeof(GrayError)); ", arena);
-        emit_formatted(codegen, "_esc_err->message = gray_string_new(%s, _src_err->message.data, _src_err->message.len); ", arena);
-        emit_formatted(codegen, "_esc_err->code = gray_string_new(%s, _src_err->code.data, _src_err->code.len); ", arena);
-        emit_formatted(codegen, "%s = _esc_err; } ", var);
-    } else if (type_needs_deep_copy(codegen, type_name)) {
+    if (type_name && type_needs_deep_copy(codegen, type_name)) {
         emit_move_to_arena(codegen, type_name, var, arena);
     }
 }
diff --git a/grayc/src/runtime/map.c b/grayc/src/runtime/map.c
index 72c4825..d38c7c7 100644
--- a/grayc/src/runtime/map.c
+++ b/grayc/src/runtime/map.c
@@ -141,6 +141,7 @@ GrayMap gray_map_new(GrayArena *arena, int32_t key_size, int32_t value_size, int
 }
 
 static int32_t find_slot(GrayMap *m, const void *key) {
+    if (m->capacity <= 0) return -1;
     uint64_t h = hash_key(key, m->key_size, m->key_kind);
     int32_t idx = (int32_t)(h % (uint64_t)m->capacity);
     for (int32_t i = 0; i < m->capacity; i++) {
@@ -181,6 +182,10 @@ static void rehash(GrayArena *arena, GrayMap *m) {
     }
 }
 
+void gray_map_ensure(GrayArena *arena, GrayMap *m, int32_t key_size, int32_t value_size, int8_t key_kind) {
+    if (m->key_size == 0) *m = gray_map_new_kind(arena, key_size, value_size, 8, key_kind);
+}
+
 void *gray_map_get(GrayMap *m, const void *key) {
     int32_t idx = find_slot(m, key);
     if (idx < 0) return NULL;
diff --git a/grayc/src/runtime/map.h b/grayc/src/runtime/map.h
index 69f8cc6..2eecf6d 100644
--- a/grayc/src/runtime/map.h
+++ b/grayc/src/runtime/map.h
@@ -50,6 +50,9 @@ GrayMap gray_map_new_kind(GrayArena *arena, int32_t key_size, int32_t value_size
 /* Get a pointer to the value for a key, or NULL if not found */
 void *gray_map_get(GrayMap *m, const void *key);
 
+/* Give a map that was only zero-initialised its table. */
+void gray_map_ensure(GrayArena *arena, GrayMap *m, int32_t key_size, int32_t value_size, int8_t key_kind);
+
 /* Set a key-value pair (inserts or updates) */
 void gray_map_set(GrayArena *arena, GrayMap *m, const void *key, const void *value);
 
diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index 497b268..e9d9520 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -124,6 +124,14 @@ GrayError *gray_error_new(GrayArena *arena, GrayString message) {
     return err;
 }
 
+GrayError *gray_error_copy(GrayArena *arena, const GrayError *src) {
+    if (!src) return NULL;
+    GrayError *err = (GrayError *)gray_arena_alloc(arena, sizeof(GrayError));
+    err->message = gray_string_new(arena, src->message.data, src->message.len);
+    err->code = gray_string_new(arena, src->code.data, src->code.len);
+    return err;
+}
+
 /* --- String --- */
 
 GrayString gray_string_new(GrayArena *arena, const char *s, int32_t len) {
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index 81ce1d0..8231e90 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -68,6 +68,9 @@ typedef struct {
 /* Create an error on the default arena */
 GrayError *gray_error_new(GrayArena *arena, GrayString message);
 
+/* Copy an error, which may be nil, to an arena. */
+GrayError *gray_error_copy(GrayArena *arena, const GrayError *src);
+
 /* --- SourceLocation: compile-time substituted by the here() builtin --- */
 
 typedef struct {
-- 
2.43.0


From e250bc01c9a31b538b98968ad8cff5255ccf6671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:55:08 +0000
Subject: [PATCH 23/49] fix: move the value of a reference variable when it is
 assigned out of its scope

---
 grayc/src/codegen/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 2c4b59e..914360f 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -8311,7 +8311,7 @@ static void emit_assignment(CodeGen *codegen, AstNode *node) {
         if (tgt_t && tgt_t->kind == TK_POINTER) {
             emit(codegen, node->data.assign.value->data.label.value);
         } else {
-            emit_expression(codegen, node->data.assign.value);
+            emit_assigned_value(codegen, node);
         }
     } else {
         emit_assigned_value(codegen, node);
-- 
2.43.0


From 8c6ad2c8c645d530e79b63d93802a22f8d2af547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:43:09 +0000
Subject: [PATCH 24/49] fix: put back the iteration mark of a collection when a
 return leaves for_each

---
 grayc/src/codegen/codegen.c | 65 ++++++++++++++++++++++++++++---------
 grayc/src/codegen/codegen.h |  6 ++++
 2 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 914360f..1998e20 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -8372,10 +8372,48 @@ static void scope_arena_pop(CodeGen *codegen) {
     if (codegen->scope_arena_count > 0) codegen->scope_arena_count--;
 }
 
+/* Mark `coll` (the C lvalue of an array or map, or the temporary `tmp`
+ * holding it) as being iterated. The previous state is saved so that every
+ * way out of the loop can put it back: the end of the loop and any return
+ * inside it. */
+static void emit_iteration_guard_enter(CodeGen *codegen, const char *c_type,
+                                       AstNode *coll, const char *tmp) {
+    static int guard_counter = 0;
+    int id = guard_counter++;
+    emit_formatted(codegen, "%s *_gray_itp%d = &", c_type, id);
+    if (tmp) emit(codegen, tmp);
+    else emit_expression(codegen, coll);
+    emit_formatted(codegen, "; int32_t _gray_itn%d = _gray_itp%d->iterating; _gray_itp%d->iterating = _gray_itn%d + 1;\n",
+        id, id, id, id);
+    if (codegen->open_iteration_count >= codegen->open_iteration_cap) {
+        codegen->open_iteration_cap = codegen->open_iteration_cap ? codegen->open_iteration_cap * 2 : 8;
+        codegen->open_iterations = xrealloc(codegen->open_iterations,
+            sizeof(int) * (size_t)codegen->open_iteration_cap);
+    }
+    codegen->open_iterations[codegen->open_iteration_count++] = id;
+}
+
+static void emit_iteration_guard_restore(CodeGen *codegen, int id) {
+    emit_formatted(codegen, "_gray_itp%d->iterating = _gray_itn%d; ", id, id);
+}
+
+static void emit_iteration_guard_leave(CodeGen *codegen) {
+    emit_indent(codegen);
+    emit_iteration_guard_restore(codegen, codegen->open_iterations[--codegen->open_iteration_count]);
+    emit(codegen, "\n");
+}
+
+static void emit_iteration_guard_unwind(CodeGen *codegen) {
+    for (int i = codegen->open_iteration_count - 1; i >= 0; i--) {
+        emit_iteration_guard_restore(codegen, codegen->open_iterations[i]);
+    }
+}
+
 /* Emit the cleanup sequence for every live nested scratch arena,
  * innermost-first. Used in every early-exit return path before the
  * function-arena (or scope_restore) unwind. */
 static void emit_scratch_arena_unwind(CodeGen *codegen) {
+    emit_iteration_guard_unwind(codegen);
     for (int i = codegen->scope_arena_count - 1; i >= 0; i--) {
         ScopeArena *entry = &codegen->scope_arenas[i];
         emit_formatted(codegen, "gray_default_arena = %s; ", entry->saved_var);
@@ -9000,9 +9038,10 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
             if (coll_t->value_type) c_val = gray_map_element_c_type(codegen, coll_t->value_type);
 
             map_needs_tmp = (coll->kind != NODE_LABEL);
+            emit(codegen, "{ ");
             if (map_needs_tmp) {
                 snprintf(map_tmp_name, sizeof(map_tmp_name), "_gray_map%d", map_iter_counter - 1);
-                emit_formatted(codegen, "{ GrayMap %s = ", map_tmp_name);
+                emit_formatted(codegen, "GrayMap %s = ", map_tmp_name);
                 emit_expression(codegen, coll);
                 emit(codegen, ";\n");
                 emit_indent(codegen);
@@ -9012,9 +9051,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
             char slot_name[SHORT_VAR_BUF];
             snprintf(slot_name, sizeof(slot_name), "_gray_sl%d", map_iter_counter - 1);
             /* Guard against mutation during iteration */
-            if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
-            else emit_expression(codegen, coll);
-            emit(codegen, ".iterating++;\n");
+            emit_iteration_guard_enter(codegen, "GrayMap", coll, map_needs_tmp ? map_tmp_name : NULL);
             emit_indent(codegen);
             emit_formatted(codegen, "for (int32_t %s = 0; %s < ", mi_name, mi_name);
             if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
@@ -9112,8 +9149,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
             else { emit_expression(codegen, coll); emit(codegen, ".len;\n"); }
             /* Guard against mutation during iteration */
             emit_indent(codegen);
-            if (coll_needs_tmp) emit_formatted(codegen, "%s.iterating++;\n", arr_tmp_name);
-            else { emit_expression(codegen, coll); emit(codegen, ".iterating++;\n"); }
+            emit_iteration_guard_enter(codegen, "GrayArray", coll, coll_needs_tmp ? arr_tmp_name : NULL);
             emit_indent(codegen);
             emit_formatted(codegen, "for (int32_t %s = 0; %s < %s; %s++) {\n", idx_name, idx_name, len_name, idx_name);
             codegen->indent++;
@@ -9129,14 +9165,9 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
         emit(codegen, "}\n");
         /* Decrement map iteration guard */
         if (is_map_iter) {
+            emit_iteration_guard_leave(codegen);
             emit_indent(codegen);
-            if (map_needs_tmp) emit_formatted(codegen, "%s", map_tmp_name);
-            else emit_expression(codegen, coll);
-            emit(codegen, ".iterating--;\n");
-            if (map_needs_tmp) {
-                emit_indent(codegen);
-                emit(codegen, "}\n");
-            }
+            emit(codegen, "}\n");
         }
         /* Close extra scope for string iteration */
         if (coll_t && coll_t->kind == TK_STRING) {
@@ -9145,9 +9176,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
         }
         /* Decrement array iteration guard, then close the snapshot block */
         if (coll_t && coll_t->kind != TK_MAP && coll_t->kind != TK_STRING) {
-            emit_indent(codegen);
-            if (coll_needs_tmp) emit_formatted(codegen, "%s.iterating--;\n", arr_tmp_name);
-            else { emit_expression(codegen, coll); emit(codegen, ".iterating--;\n"); }
+            emit_iteration_guard_leave(codegen);
             emit_indent(codegen);
             emit(codegen, "}\n");
             /* Close the outer temporary block if we materialized a C temp */
@@ -9481,6 +9510,9 @@ CodeGen codegen_create(const char *file) {
     codegen.scope_arenas = NULL;
     codegen.scope_arena_count = 0;
     codegen.scope_arena_cap = 0;
+    codegen.open_iterations = NULL;
+    codegen.open_iteration_count = 0;
+    codegen.open_iteration_cap = 0;
     codegen.ns_func_names = NULL;
     codegen.ns_func_name_count = 0;
     codegen.ns_func_name_cap = 0;
@@ -10192,6 +10224,7 @@ void codegen_destroy(CodeGen *codegen) {
     free(codegen->imported_modules);
     free(codegen->c_headers);
     free(codegen->scope_arenas);
+    free(codegen->open_iterations);
     for (int i = 0; i < codegen->ns_func_name_count; i++)
         free(codegen->ns_func_names[i]);
     free(codegen->ns_func_names);
diff --git a/grayc/src/codegen/codegen.h b/grayc/src/codegen/codegen.h
index 9385fea..4511871 100644
--- a/grayc/src/codegen/codegen.h
+++ b/grayc/src/codegen/codegen.h
@@ -144,6 +144,12 @@ typedef struct {
     int scope_arena_count;
     int scope_arena_cap;
 
+    /* for_each loops open around the current statement, by the number of
+     * their iteration guard. */
+    int *open_iterations;
+    int open_iteration_count;
+    int open_iteration_cap;
+
     /* Heap-allocated "StructName_funcName" strings patched into AST nodes.
      * Tracked here so codegen_destroy() can free them. */
     char **ns_func_names;
-- 
2.43.0


From 1dd842d5ee852f48b214d8cc5f83e286ee4eefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:43:09 +0000
Subject: [PATCH 25/49] fix: refuse maps.clear on a map that is being iterated
 over

---
 grayc/src/runtime/map.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/grayc/src/runtime/map.c b/grayc/src/runtime/map.c
index d38c7c7..08505d8 100644
--- a/grayc/src/runtime/map.c
+++ b/grayc/src/runtime/map.c
@@ -262,6 +262,8 @@ bool gray_map_remove(GrayMap *m, const void *key) {
 }
 
 void gray_map_clear(GrayMap *m) {
+    if (m->iterating > 0)
+        gray_panic_code("P0035", "cannot modify map during for_each iteration");
     if (m->states) memset(m->states, 0, sizeof(uint8_t) * (size_t)m->capacity);
     m->count = 0;
     m->order_len = 0;
-- 
2.43.0


From 4ba615fe39cbe57892cb353c2fe0db4303950bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:43:09 +0000
Subject: [PATCH 26/49] fix: give the key of for_each over a map the type its
 keys are stored with

---
 grayc/src/codegen/codegen.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 1998e20..3be54b5 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -9031,10 +9031,7 @@ static void emit_statement(CodeGen *codegen, AstNode *node) {
 
             const char *c_key = "GrayString";
             const char *c_val = "int64_t";
-            if (coll_t->key_type) {
-                GrayType *kt = type_from_name(coll_t->key_type);
-                if (kt->kind == TK_INT || kt->kind == TK_UINT) c_key = "int64_t";
-            }
+            if (coll_t->key_type) c_key = gray_map_element_c_type(codegen, coll_t->key_type);
             if (coll_t->value_type) c_val = gray_map_element_c_type(codegen, coll_t->value_type);
 
             map_needs_tmp = (coll->kind != NODE_LABEL);
-- 
2.43.0


From 3263c23146985df34074c8cf80cb1fe98af8ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:43:09 +0000
Subject: [PATCH 27/49] fix: run ensure calls after the returned values have
 been computed

---
 grayc/src/codegen/codegen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 3be54b5..4680d1a 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -8461,6 +8461,7 @@ static void emit_function_return_escape(CodeGen *codegen, const char *ret_type_n
     if (!ret_type_name) return;
     const char *arena = return_value_arena(codegen);
     if (arena) emit_return_value_escape(codegen, ret_type_name, "_ret", arena);
+    emit_ensure_cleanup(codegen);
     emit_scratch_arena_unwind(codegen);
     if (function_uses_caller_arena(codegen->current_func)) return;
     emit(codegen, "gray_default_arena = _func_saved; ");
@@ -8478,6 +8479,7 @@ static void emit_multi_function_return_escape(CodeGen *codegen) {
         snprintf(field, sizeof(field), "_ret.v%d", i);
         emit_return_value_escape(codegen, codegen->current_func->data.func_decl.return_types[i], field, arena);
     }
+    emit_ensure_cleanup(codegen);
     emit_scratch_arena_unwind(codegen);
     if (function_uses_caller_arena(codegen->current_func)) return;
     emit(codegen, "gray_default_arena = _func_saved; ");
@@ -8485,9 +8487,6 @@ static void emit_multi_function_return_escape(CodeGen *codegen) {
 }
 
 static void emit_return_statement(CodeGen *codegen, AstNode *node) {
-    /* Emit ensure cleanup before return */
-    emit_ensure_cleanup(codegen);
-
     /* Caller-arena functions have no _scope_mark to restore. */
     bool caller_arena = codegen->current_func &&
                         function_uses_caller_arena(codegen->current_func);
@@ -8496,6 +8495,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
     if (node->data.return_stmt.count > 0 && !node->data.return_stmt.values) {
         emit_indent(codegen);
         emit(codegen, "{ ");
+        emit_ensure_cleanup(codegen);
         emit_scratch_arena_unwind(codegen);
         if (caller_arena) {
             emit(codegen, "gray_exit_func(); return; }\n");
@@ -8547,6 +8547,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         /* Void function */
         emit_indent(codegen);
         emit(codegen, "{ ");
+        emit_ensure_cleanup(codegen);
         emit_scratch_arena_unwind(codegen);
         if (caller_arena) {
             emit(codegen, "gray_exit_func(); return; }\n");
@@ -8562,6 +8563,8 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         if (codegen->current_func && codegen->current_func->data.func_decl.return_type_count > 0) {
             const char *ret_tn = codegen->current_func->data.func_decl.return_types[0];
             emit_function_return_escape(codegen, ret_tn);
+        } else {
+            emit_ensure_cleanup(codegen);
         }
         emit(codegen, "gray_exit_func(); return _ret; }\n");
     } else if (node->data.return_stmt.count == 0 && codegen->current_func &&
@@ -8595,6 +8598,7 @@ static void emit_return_statement(CodeGen *codegen, AstNode *node) {
         /* Bare return (no value, non-void; shouldn't happen but handle gracefully) */
         emit_indent(codegen);
         emit(codegen, "{ ");
+        emit_ensure_cleanup(codegen);
         emit_scratch_arena_unwind(codegen);
         if (caller_arena) {
             emit(codegen, "gray_exit_func(); return; }\n");
-- 
2.43.0


From b11935d439c2bc4f4c320c7b737f5ab0915861d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:43:09 +0000
Subject: [PATCH 28/49] fix: count the depth of calls for each thread

---
 grayc/src/runtime/runtime.c | 2 +-
 grayc/src/runtime/runtime.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/grayc/src/runtime/runtime.c b/grayc/src/runtime/runtime.c
index e9d9520..c4a9f7f 100644
--- a/grayc/src/runtime/runtime.c
+++ b/grayc/src/runtime/runtime.c
@@ -215,7 +215,7 @@ void gray_scope_restore(GrayArena *arena, GrayScopeMark mark) {
 }
 
 /* --- Stack depth guard --- */
-int gray_call_depth = 0;
+_Thread_local int gray_call_depth = 0;
 
 /* --- Runtime Init/Shutdown --- */
 
diff --git a/grayc/src/runtime/runtime.h b/grayc/src/runtime/runtime.h
index 8231e90..dcb8929 100644
--- a/grayc/src/runtime/runtime.h
+++ b/grayc/src/runtime/runtime.h
@@ -155,7 +155,7 @@ void gray_panic_code_at(const char *file, int line, const char *code, const char
 /* --- Stack depth guard --- */
 
 #define GRAY_MAX_CALL_DEPTH 10000
-extern int gray_call_depth;
+extern _Thread_local int gray_call_depth;
 
 static inline void gray_enter_func(const char *file, int line) {
     if (++gray_call_depth > GRAY_MAX_CALL_DEPTH) {
-- 
2.43.0


From 8ae946950ab5b639ec44577e0aa64a49e6672ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:16:37 +0000
Subject: [PATCH 29/49] fix: check the number and the kinds of the arguments of
 every arrays function

---
 grayc/src/typechecker/typechecker.c | 39 ++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index f468208..827384e 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -814,12 +814,39 @@ typedef struct {
 
 static const StdlibFuncMeta stdlib_func_meta[] = {
     /* arrays */
-    {"arrays", "all",    2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
-    {"arrays", "any",    2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
-    {"arrays", "filter", 2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
-    {"arrays", "map",    2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
-    {"arrays", "reduce", 3, 3, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
-    {"arrays", "remove", 2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "all",          2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "any",          2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "append",       2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "clear",        1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "concat",       2, 2, false, FT_NONE, 2, {{0, ARG_ARRAY}, {1, ARG_ARRAY}}},
+    {"arrays", "contains",     2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "count",        2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "deduplicate",  1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "fill",         3, 3, false, FT_NONE, 2, {{0, ARG_ARRAY}, {2, ARG_INT}}},
+    {"arrays", "filter",       2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "flatten",      1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "get_first",    1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "get_last",     1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "get_max",      1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "get_min",      1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "get_sum",      1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "index_of",     2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "insert_at",    3, 3, false, FT_NONE, 2, {{0, ARG_ARRAY}, {1, ARG_INT}}},
+    {"arrays", "is_empty",     1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "is_equal",     2, 2, false, FT_NONE, 2, {{0, ARG_ARRAY}, {1, ARG_ARRAY}}},
+    {"arrays", "map",          2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "pair",         2, 2, false, FT_NONE, 2, {{0, ARG_ARRAY}, {1, ARG_ARRAY}}},
+    {"arrays", "prepend",      2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "reduce",       3, 3, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "remove",       2, 2, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "remove_at",    2, 2, false, FT_NONE, 2, {{0, ARG_ARRAY}, {1, ARG_INT}}},
+    {"arrays", "remove_first", 1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "remove_last",  1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "reverse",      1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "slice",        3, 3, false, FT_NONE, 3, {{0, ARG_ARRAY}, {1, ARG_INT}, {2, ARG_INT}}},
+    {"arrays", "sort_asc",     1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "sort_desc",    1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
+    {"arrays", "split_every",  2, 2, false, FT_NONE, 2, {{0, ARG_ARRAY}, {1, ARG_INT}}},
     /* atomic */
     {"atomic", "add",              2, 2, false, FT_NONE, 0, {}},
     {"atomic", "and",              2, 2, false, FT_NONE, 0, {}},
-- 
2.43.0


From 6651758f4facd661ebc58845d53e6d3aec8e51b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:17:20 +0000
Subject: [PATCH 30/49] fix: check the kinds of the arguments of the library
 functions that take an int or a string

---
 grayc/src/typechecker/typechecker.c | 40 ++++++++++++++---------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 827384e..3632671 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -848,21 +848,21 @@ static const StdlibFuncMeta stdlib_func_meta[] = {
     {"arrays", "sort_desc",    1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
     {"arrays", "split_every",  2, 2, false, FT_NONE, 2, {{0, ARG_ARRAY}, {1, ARG_INT}}},
     /* atomic */
-    {"atomic", "add",              2, 2, false, FT_NONE, 0, {}},
-    {"atomic", "and",              2, 2, false, FT_NONE, 0, {}},
-    {"atomic", "cas",              3, 3, false, FT_NONE, 0, {}},
-    {"atomic", "exchange",         2, 2, false, FT_NONE, 0, {}},
+    {"atomic", "add",              2, 2, false, FT_NONE, 1, {{1, ARG_INT}}},
+    {"atomic", "and",              2, 2, false, FT_NONE, 1, {{1, ARG_INT}}},
+    {"atomic", "cas",              3, 3, false, FT_NONE, 2, {{1, ARG_INT}, {2, ARG_INT}}},
+    {"atomic", "exchange",         2, 2, false, FT_NONE, 1, {{1, ARG_INT}}},
     {"atomic", "fence",            0, 0, false, FT_NONE, 0, {}},
     {"atomic", "load",             1, 1, false, FT_NONE, 0, {}},
-    {"atomic", "or",               2, 2, false, FT_NONE, 0, {}},
+    {"atomic", "or",               2, 2, false, FT_NONE, 1, {{1, ARG_INT}}},
     {"atomic", "spin_lock",        1, 1, false, FT_NONE, 0, {}},
     {"atomic", "spin_trylock",     1, 1, false, FT_NONE, 0, {}},
     {"atomic", "spin_unlock",      1, 1, false, FT_NONE, 0, {}},
     {"atomic", "spinlock",         0, 0, false, FT_NONE, 0, {}},
     {"atomic", "spinlock_destroy", 1, 1, false, FT_NONE, 0, {}},
-    {"atomic", "store",            2, 2, false, FT_NONE, 0, {}},
-    {"atomic", "sub",              2, 2, false, FT_NONE, 0, {}},
-    {"atomic", "xor",              2, 2, false, FT_NONE, 0, {}},
+    {"atomic", "store",            2, 2, false, FT_NONE, 1, {{1, ARG_INT}}},
+    {"atomic", "sub",              2, 2, false, FT_NONE, 1, {{1, ARG_INT}}},
+    {"atomic", "xor",              2, 2, false, FT_NONE, 1, {{1, ARG_INT}}},
     /* bytes */
     {"bytes", "from_base64", 1, 1, false, FT_NONE, 1, {{0, ARG_STRING}}},
     {"bytes", "from_hex",    1, 1, false, FT_NONE, 1, {{0, ARG_STRING}}},
@@ -872,7 +872,7 @@ static const StdlibFuncMeta stdlib_func_meta[] = {
     {"bytes", "to_string",   1, 1, false, FT_NONE, 1, {{0, ARG_ARRAY}}},
     /* channels */
     {"channels", "close",       1, 1, false, FT_NONE, 1, {{0, ARG_CHANNEL}}},
-    {"channels", "open",        1, 1, false, FT_NONE, 0, {}},
+    {"channels", "open",        1, 1, false, FT_NONE, 1, {{0, ARG_INT}}},
     {"channels", "receive",     1, 1, false, FT_NONE, 1, {{0, ARG_CHANNEL}}},
     {"channels", "send",        2, 2, false, FT_NONE, 2, {{0, ARG_CHANNEL}, {1, ARG_INT}}},
     {"channels", "try_receive", 1, 1, false, FT_NONE, 1, {{0, ARG_CHANNEL}}},
@@ -1012,14 +1012,14 @@ static const StdlibFuncMeta stdlib_func_meta[] = {
     {"math", "trunc",       1, 1, false, FT_NONE, 1, {{0, ARG_NUMBER}}},
     /* mem */
     {"mem", "alloc",    2, 2, false, FT_NONE, 0, {}},
-    {"mem", "arena",    1, 1, false, FT_NONE, 0, {}},
+    {"mem", "arena",    1, 1, false, FT_NONE, 1, {{0, ARG_INT}}},
     {"mem", "destroy",  1, 1, false, FT_NONE, 0, {}},
-    {"mem", "fill",     3, 3, false, FT_NONE, 0, {}},
+    {"mem", "fill",     3, 3, false, FT_NONE, 2, {{1, ARG_INT}, {2, ARG_INT}}},
     {"mem", "init",     2, 2, false, FT_NONE, 0, {}},
-    {"mem", "raw_copy", 3, 3, false, FT_NONE, 0, {}},
+    {"mem", "raw_copy", 3, 3, false, FT_NONE, 1, {{2, ARG_INT}}},
     {"mem", "reset",    1, 1, false, FT_NONE, 0, {}},
     {"mem", "usage",    1, 1, false, FT_NONE, 0, {}},
-    {"mem", "zero",     2, 2, false, FT_NONE, 0, {}},
+    {"mem", "zero",     2, 2, false, FT_NONE, 1, {{1, ARG_INT}}},
     /* net */
     {"net", "accept",      1, 1, true,  FT_STRUCT_SOCKET,   0, {}},
     {"net", "close",       1, 1, false, FT_NONE,            0, {}},
@@ -1060,18 +1060,18 @@ static const StdlibFuncMeta stdlib_func_meta[] = {
     /* server */
     {"server", "add_route",  4, 4, false, FT_NONE, 0, {}},
     {"server", "add_router", 0, 0, false, FT_NONE, 0, {}},
-    {"server", "cors",       2, 2, false, FT_NONE, 0, {}},
-    {"server", "html",       2, 2, false, FT_NONE, 1, {{1, ARG_STRING}}},
+    {"server", "cors",       2, 2, false, FT_NONE, 1, {{1, ARG_STRING}}},
+    {"server", "html",       2, 2, false, FT_NONE, 2, {{0, ARG_INT}, {1, ARG_STRING}}},
     {"server", "json",       2, 2, false, FT_NONE, 1, {{1, ARG_STRING}}},
     {"server", "listen",     2, 3, false, FT_NONE, 2, {{1, ARG_INT}, {2, ARG_STRING}}},
-    {"server", "redirect",   2, 2, false, FT_NONE, 1, {{1, ARG_STRING}}},
-    {"server", "text",       2, 2, false, FT_NONE, 1, {{1, ARG_STRING}}},
+    {"server", "redirect",   2, 2, false, FT_NONE, 2, {{0, ARG_INT}, {1, ARG_STRING}}},
+    {"server", "text",       2, 2, false, FT_NONE, 2, {{0, ARG_INT}, {1, ARG_STRING}}},
     {"server", "use",        2, 2, false, FT_NONE, 0, {}},
     /* sqlite */
     {"sqlite", "close", 1, 1,  false, FT_NONE,           0, {}},
-    {"sqlite", "exec",  2, 99, true,  FT_BOOL,           0, {}},
+    {"sqlite", "exec",  2, 99, true,  FT_BOOL,           1, {{1, ARG_STRING}}},
     {"sqlite", "open",  1, 1,  true,  FT_STRUCT_DATABASE, 1, {{0, ARG_STRING}}},
-    {"sqlite", "query", 2, 99, true,  FT_ARRAY_MAP,      0, {}},
+    {"sqlite", "query", 2, 99, true,  FT_ARRAY_MAP,      1, {{1, ARG_STRING}}},
     /* strconv */
     {"strconv", "from_bool",  1, 1, false, FT_NONE,  1, {{0, ARG_BOOL}}},
     {"strconv", "from_float", 1, 1, false, FT_NONE,  1, {{0, ARG_FLOAT}}},
@@ -1125,7 +1125,7 @@ static const StdlibFuncMeta stdlib_func_meta[] = {
     {"threads", "get_id",       0, 0, false, FT_NONE, 0, {}},
     {"threads", "is_alive",     1, 1, false, FT_NONE, 0, {}},
     {"threads", "join",         1, 1, false, FT_NONE, 0, {}},
-    {"threads", "sleep",        1, 1, false, FT_NONE, 0, {}},
+    {"threads", "sleep",        1, 1, false, FT_NONE, 1, {{0, ARG_INT}}},
     {"threads", "spawn",        1, 2, false, FT_NONE, 0, {}},
     {"threads", "thread_count", 0, 0, false, FT_NONE, 0, {}},
     {"threads", "yield",        0, 0, false, FT_NONE, 0, {}},
-- 
2.43.0


From bf86462edc0503188370aade7fe608b93ea06219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:17:36 +0000
Subject: [PATCH 31/49] fix: mem.raw_copy, mem.zero and mem.fill are accepted,
 mem.free destroys the arena

---
 grayc/src/codegen/codegen.c         | 2 +-
 grayc/src/typechecker/typechecker.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index 4680d1a..b985e58 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -4118,7 +4118,7 @@ static bool emit_mem_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "destroy") == 0 && node->data.call.arg_count == 1) {
+    if ((strcmp(func, "destroy") == 0 || strcmp(func, "free") == 0) && node->data.call.arg_count == 1) {
         emit(codegen, "gray_mem_destroy(");
         emit_expression(codegen, node->data.call.args[0]);
         emit_formatted(codegen, ", \"%s\", %d)", codegen->file, node->token.line);
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 3632671..fdafbe8 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -1015,6 +1015,7 @@ static const StdlibFuncMeta stdlib_func_meta[] = {
     {"mem", "arena",    1, 1, false, FT_NONE, 1, {{0, ARG_INT}}},
     {"mem", "destroy",  1, 1, false, FT_NONE, 0, {}},
     {"mem", "fill",     3, 3, false, FT_NONE, 2, {{1, ARG_INT}, {2, ARG_INT}}},
+    {"mem", "free",     1, 1, false, FT_NONE, 0, {}},
     {"mem", "init",     2, 2, false, FT_NONE, 0, {}},
     {"mem", "raw_copy", 3, 3, false, FT_NONE, 1, {{2, ARG_INT}}},
     {"mem", "reset",    1, 1, false, FT_NONE, 0, {}},
@@ -2309,7 +2310,8 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
         } else if (strcmp(mfn, "make") == 0) {
             result = &TYPE_UNKNOWN;
         } else if (strcmp(mfn, "free") == 0 || strcmp(mfn, "reset") == 0 ||
-                   strcmp(mfn, "destroy") == 0) {
+                   strcmp(mfn, "destroy") == 0 || strcmp(mfn, "raw_copy") == 0 ||
+                   strcmp(mfn, "zero") == 0 || strcmp(mfn, "fill") == 0) {
             result = &TYPE_VOID;
         } else {
             emit_unknown_stdlib_function(checker, mod, mfn, node);
-- 
2.43.0


From 44a6d1a4790b9424797eb7f06b3ca80ce874e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:17:53 +0000
Subject: [PATCH 32/49] fix: random.rand_float and random.rand_char with one
 bound are rejected

---
 grayc/src/typechecker/typechecker.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index fdafbe8..deb1f41 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -1221,9 +1221,15 @@ static void typechecker_check_stdlib_arg_count(TypeChecker *checker, const char
     if (!m) return;
 
     int nargs = node->data.call.arg_count;
-    if (nargs < m->min_args || nargs > m->max_args) {
+    /* random.rand_float/rand_char take either no argument or both bounds */
+    bool half_range = nargs == 1 && strcmp(mod, "random") == 0 &&
+        (strcmp(fn, "rand_float") == 0 || strcmp(fn, "rand_char") == 0);
+    if (nargs < m->min_args || nargs > m->max_args || half_range) {
         char *msg = NULL;
-        if (m->min_args == m->max_args) {
+        if (half_range) {
+            msg = typechecker_format(checker,
+                "function '%s.%s' expects 0 or 2 arguments, got 1", mod, fn);
+        } else if (m->min_args == m->max_args) {
             msg = typechecker_format(checker,
                 "function '%s.%s' expects %d argument(s), got %d",
                 mod, fn, m->min_args, nargs);
-- 
2.43.0


From 954a6ec86e30b5793fc9f4677478326c99dfdecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:17:53 +0000
Subject: [PATCH 33/49] fix: arrays.get_sum, get_min and get_max reject arrays
 of strings and bools (E9002)

---
 grayc/src/typechecker/typechecker.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index deb1f41..0db7e90 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2804,7 +2804,9 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
         }
         /* E9002: arrays.sum/min/max require numeric array */
         if ((strcmp(mfn, "sum") == 0 || strcmp(mfn, "min") == 0 ||
-             strcmp(mfn, "max") == 0) && node->data.call.arg_count > 0) {
+             strcmp(mfn, "max") == 0 || strcmp(mfn, "get_sum") == 0 ||
+             strcmp(mfn, "get_min") == 0 || strcmp(mfn, "get_max") == 0) &&
+            node->data.call.arg_count > 0) {
             AstNode *arg0 = node->data.call.args[0];
             GrayType *arr_t = typetable_get(checker->type_table, arg0);
             if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type) {
-- 
2.43.0


From cf0f9cd40345db574fbeccb1e5a4f7fe4b26f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:22:10 +0000
Subject: [PATCH 34/49] fix: sqlite.exec and sqlite.query reject further
 arguments instead of dropping them

---
 grayc/src/typechecker/typechecker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 0db7e90..ea1ab9a 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -1070,9 +1070,9 @@ static const StdlibFuncMeta stdlib_func_meta[] = {
     {"server", "use",        2, 2, false, FT_NONE, 0, {}},
     /* sqlite */
     {"sqlite", "close", 1, 1,  false, FT_NONE,           0, {}},
-    {"sqlite", "exec",  2, 99, true,  FT_BOOL,           1, {{1, ARG_STRING}}},
+    {"sqlite", "exec",  2, 2,  true,  FT_BOOL,           1, {{1, ARG_STRING}}},
     {"sqlite", "open",  1, 1,  true,  FT_STRUCT_DATABASE, 1, {{0, ARG_STRING}}},
-    {"sqlite", "query", 2, 99, true,  FT_ARRAY_MAP,      1, {{1, ARG_STRING}}},
+    {"sqlite", "query", 2, 2,  true,  FT_ARRAY_MAP,      1, {{1, ARG_STRING}}},
     /* strconv */
     {"strconv", "from_bool",  1, 1, false, FT_NONE,  1, {{0, ARG_BOOL}}},
     {"strconv", "from_float", 1, 1, false, FT_NONE,  1, {{0, ARG_FLOAT}}},
-- 
2.43.0


From 2da891a42d1f643e2d185054632035aea2402167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:22:17 +0000
Subject: [PATCH 35/49] fix: maps functions check their key and value arguments
 against the map's types

---
 grayc/src/typechecker/typechecker.c | 30 +++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index ea1ab9a..52cf3e5 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2360,6 +2360,36 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 diagnostic_error_code_formatted(checker->diag, "E12001", NODE_FILE(checker, arg0), arg0->token.line, arg0->token.column, 0, mfn);
             }
         }
+        /* E3001: a key or value argument must be of the map's key or value type */
+        for (int ai = 1; ai < node->data.call.arg_count; ai++) {
+            GrayType *map_t = resolve_expression(checker, node->data.call.args[0]);
+            if (!map_t || map_t->kind != TK_MAP) break;
+            const char *want = NULL;
+            if (ai == 1 && (strcmp(mfn, "has_key") == 0 || strcmp(mfn, "remove_key") == 0 ||
+                            strcmp(mfn, "get_or_default") == 0))
+                want = map_t->key_type;
+            else if ((ai == 1 && strcmp(mfn, "contains_value") == 0) ||
+                     (ai == 2 && strcmp(mfn, "get_or_default") == 0))
+                want = map_t->value_type;
+            if (!want) continue;
+            AstNode *arg = node->data.call.args[ai];
+            GrayType *want_t = type_from_name(want);
+            GrayType *arg_t = resolve_expression(checker, arg);
+            bool want_basic = want_t->kind == TK_STRING || want_t->kind == TK_FLOAT ||
+                want_t->kind == TK_BOOL || is_int_kind(want_t->kind);
+            bool arg_basic = arg_t && (arg_t->kind == TK_STRING || arg_t->kind == TK_FLOAT ||
+                arg_t->kind == TK_BOOL || is_int_kind(arg_t->kind) ||
+                arg_t->kind == TK_ARRAY || arg_t->kind == TK_MAP);
+            if (want_basic && arg_basic && want_t->kind != arg_t->kind &&
+                !(is_int_kind(want_t->kind) && is_int_kind(arg_t->kind))) {
+                char *msg = NULL;
+                msg = typechecker_format(checker,
+                    "type mismatch in maps.%s(); expected %s as argument %d, got %s",
+                    mfn, want, ai + 1, type_name(arg_t));
+                diagnostic_error_message(checker->diag, "E3001", msg,
+                    NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
+            }
+        }
         /* maps.is_equal(a, b): both args must be maps with the same
          * key/value types, and key/value types must be primitive or
          * string. Composite element types would require recursive
-- 
2.43.0


From 339fc350f3155cd9716bcba2c4903e4103c8de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:27:12 +0000
Subject: [PATCH 36/49] fix: collections returned by a call outlive the
 expression when passed to library functions

---
 grayc/src/codegen/codegen.c | 113 +++++++++++++++---------------------
 1 file changed, 48 insertions(+), 65 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index b985e58..b6fb50d 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -4265,24 +4265,25 @@ static bool emit_math_call(CodeGen *codegen, AstNode *node, const char *func) {
 }
 
 /* Helper: returns true when the expression is an assignable target whose address can be
- * taken directly with &.  For rvalues (function calls, literals, etc.) we must
- * materialise into a statement-expression temporary first. */
+ * taken directly with &.  Rvalues (function calls, literals, etc.) must be
+ * materialised into a temporary first. */
 static bool expression_is_assignable(AstNode *expr) {
     return expr->kind == NODE_LABEL ||
            expr->kind == NODE_MEMBER_EXPR ||
            expr->kind == NODE_INDEX_EXPR;
 }
 
-/* Emit &expr, materialising rvalues into a statement-expression temporary.
- * `tmp` is the temp variable name (must be unique within the enclosing expr). */
-static void emit_address_of(CodeGen *codegen, AstNode *expr, const char *tmp) {
+/* Emit &expr. An rvalue is materialised into a compound literal of the given
+ * C type, which lives until the end of the enclosing block (a temporary inside
+ * a statement expression would be gone before the address is used). */
+static void emit_address_of(CodeGen *codegen, AstNode *expr, const char *c_type) {
     if (expression_is_assignable(expr)) {
         emit(codegen, "&");
         emit_expression(codegen, expr);
     } else {
-        emit_formatted(codegen, "({ __auto_type %s = ", tmp);
+        emit_formatted(codegen, "(%s[1]){ ", c_type);
         emit_expression(codegen, expr);
-        emit_formatted(codegen, "; &%s; })", tmp);
+        emit(codegen, " }");
     }
 }
 
@@ -4291,13 +4292,13 @@ static void emit_address_of(CodeGen *codegen, AstNode *expr, const char *tmp) {
 static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
     if (strcmp(func, "get_keys") == 0 && node->data.call.arg_count == 1) {
         emit(codegen, "gray_maps_get_keys(gray_default_arena, ");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ")");
         return true;
     }
     if (strcmp(func, "get_values") == 0 && node->data.call.arg_count == 1) {
         emit(codegen, "gray_maps_get_values(gray_default_arena, ");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ")");
         return true;
     }
@@ -4314,7 +4315,7 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit_formatted(codegen, "({ %s _hk = ", c_key);
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; gray_maps_has_key(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ", &_hk); })");
         return true;
     }
@@ -4327,27 +4328,27 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit_formatted(codegen, "({ %s _rk = ", c_key);
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; gray_map_remove(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ", &_rk); })");
         return true;
     }
     if (strcmp(func, "clear") == 0 && node->data.call.arg_count == 1) {
         emit(codegen, "gray_map_clear(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ")");
         return true;
     }
     if (strcmp(func, "is_empty") == 0 && node->data.call.arg_count == 1) {
         emit(codegen, "gray_maps_is_empty(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ")");
         return true;
     }
     if (strcmp(func, "merge") == 0 && node->data.call.arg_count == 2) {
         emit(codegen, "gray_maps_merge(gray_default_arena, ");
-        emit_address_of(codegen, node->data.call.args[0], "_m0");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ", ");
-        emit_address_of(codegen, node->data.call.args[1], "_m1");
+        emit_address_of(codegen, node->data.call.args[1], "GrayMap");
         emit(codegen, ")");
         return true;
     }
@@ -4356,9 +4357,9 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         bool str_keys = map_t && map_t->key_type && strcmp(map_t->key_type, "string") == 0;
         bool str_values = map_t && map_t->value_type && strcmp(map_t->value_type, "string") == 0;
         emit(codegen, "gray_maps_is_equal(");
-        emit_address_of(codegen, node->data.call.args[0], "_m0");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ", ");
-        emit_address_of(codegen, node->data.call.args[1], "_m1");
+        emit_address_of(codegen, node->data.call.args[1], "GrayMap");
         emit_formatted(codegen, ", %s, %s)", str_keys ? "true" : "false", str_values ? "true" : "false");
         return true;
     }
@@ -4375,7 +4376,7 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit_formatted(codegen, "({ %s _cv = ", c_val_type);
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; gray_maps_contains_value(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ", &_cv); })");
         return true;
     }
@@ -4384,7 +4385,7 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit(codegen, "({ __auto_type _gk = ");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, "; void *_gv = gray_map_get(");
-        emit_address_of(codegen, node->data.call.args[0], "_ma");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ", &_gk); _gv ? *(__typeof__(");
         emit_expression(codegen, node->data.call.args[2]);
         emit(codegen, ") *)_gv : ");
@@ -4512,7 +4513,7 @@ static bool emit_server_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "add_route") == 0 && node->data.call.arg_count == 4) {
         emit(codegen, "gray_server_route(");
-        emit_address_of(codegen, node->data.call.args[0], "_sa");
+        emit_address_of(codegen, node->data.call.args[0], "GrayRouter");
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ", ");
@@ -4527,7 +4528,7 @@ static bool emit_server_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, "gray_server_listen(");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ", ");
-        emit_address_of(codegen, node->data.call.args[0], "_sa");
+        emit_address_of(codegen, node->data.call.args[0], "GrayRouter");
         emit(codegen, ")");
         return true;
     }
@@ -4538,7 +4539,7 @@ static bool emit_server_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[2]);
         emit(codegen, ", ");
-        emit_address_of(codegen, node->data.call.args[0], "_sa");
+        emit_address_of(codegen, node->data.call.args[0], "GrayRouter");
         emit(codegen, ")");
         return true;
     }
@@ -4576,7 +4577,7 @@ static bool emit_server_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "cors") == 0 && node->data.call.arg_count == 2) {
         emit(codegen, "gray_server_cors(");
-        emit_address_of(codegen, node->data.call.args[0], "_sa");
+        emit_address_of(codegen, node->data.call.args[0], "GrayRouter");
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ")");
@@ -4584,7 +4585,7 @@ static bool emit_server_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "use") == 0 && node->data.call.arg_count == 2) {
         emit(codegen, "gray_server_use(");
-        emit_address_of(codegen, node->data.call.args[0], "_sa");
+        emit_address_of(codegen, node->data.call.args[0], "GrayRouter");
         emit(codegen, ", (GrayMiddleware)");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ")");
@@ -4601,8 +4602,8 @@ static bool emit_http_call(CodeGen *codegen, AstNode *node, const char *func) {
     if (strcmp(func, "get") == 0 && node->data.call.arg_count == 2) {
         emit_formatted(codegen, "gray_http_get%s(gray_default_arena, ", sfx);
         emit_expression(codegen, node->data.call.args[0]);
-        emit(codegen, ", &");
-        emit_expression(codegen, node->data.call.args[1]);
+        emit(codegen, ", ");
+        emit_address_of(codegen, node->data.call.args[1], "GrayMap");
         emit(codegen, ")");
         return true;
     }
@@ -4611,8 +4612,8 @@ static bool emit_http_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit_expression(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ", &");
-        emit_expression(codegen, node->data.call.args[2]);
+        emit(codegen, ", ");
+        emit_address_of(codegen, node->data.call.args[2], "GrayMap");
         emit(codegen, ")");
         return true;
     }
@@ -4621,24 +4622,24 @@ static bool emit_http_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit_expression(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ", &");
-        emit_expression(codegen, node->data.call.args[2]);
+        emit(codegen, ", ");
+        emit_address_of(codegen, node->data.call.args[2], "GrayMap");
         emit(codegen, ")");
         return true;
     }
     if (strcmp(func, "delete") == 0 && node->data.call.arg_count == 2) {
         emit_formatted(codegen, "gray_http_delete%s(gray_default_arena, ", sfx);
         emit_expression(codegen, node->data.call.args[0]);
-        emit(codegen, ", &");
-        emit_expression(codegen, node->data.call.args[1]);
+        emit(codegen, ", ");
+        emit_address_of(codegen, node->data.call.args[1], "GrayMap");
         emit(codegen, ")");
         return true;
     }
     if (strcmp(func, "head") == 0 && node->data.call.arg_count == 2) {
         emit_formatted(codegen, "gray_http_head%s(gray_default_arena, ", sfx);
         emit_expression(codegen, node->data.call.args[0]);
-        emit(codegen, ", &");
-        emit_expression(codegen, node->data.call.args[1]);
+        emit(codegen, ", ");
+        emit_address_of(codegen, node->data.call.args[1], "GrayMap");
         emit(codegen, ")");
         return true;
     }
@@ -4647,8 +4648,8 @@ static bool emit_http_call(CodeGen *codegen, AstNode *node, const char *func) {
         emit_expression(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ", &");
-        emit_expression(codegen, node->data.call.args[2]);
+        emit(codegen, ", ");
+        emit_address_of(codegen, node->data.call.args[2], "GrayMap");
         emit(codegen, ")");
         return true;
     }
@@ -4759,7 +4760,7 @@ static bool emit_bytes_call(CodeGen *codegen, AstNode *node, const char *func) {
     emit_formatted(codegen, "gray_bytes_%s(", func);
     if (needs_arena || needs_arena_ptr) emit(codegen, "gray_default_arena, ");
     if (needs_arena_ptr) {
-        emit_address_of(codegen, node->data.call.args[0], "_ba");
+        emit_address_of(codegen, node->data.call.args[0], "GrayArray");
     } else {
         emit_expression(codegen, node->data.call.args[0]);
     }
@@ -4784,7 +4785,7 @@ static bool emit_binary_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (is_encode) emit(codegen, "gray_default_arena, ");
     if (is_decode) {
-        emit_address_of(codegen, node->data.call.args[0], "_ba");
+        emit_address_of(codegen, node->data.call.args[0], "GrayArray");
     } else {
         emit_expression(codegen, node->data.call.args[0]);
     }
@@ -4967,8 +4968,8 @@ static bool emit_json_call(CodeGen *codegen, AstNode *node, const char *func) {
         return true;
     }
     if (strcmp(func, "pretty_print") == 0) {
-        emit(codegen, "gray_json_pretty_map(gray_default_arena, &");
-        emit_expression(codegen, node->data.call.args[0]);
+        emit(codegen, "gray_json_pretty_map(gray_default_arena, ");
+        emit_address_of(codegen, node->data.call.args[0], "GrayMap");
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ")");
@@ -5063,13 +5064,13 @@ static bool emit_random_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "shuffle") == 0) {
         emit(codegen, "gray_random_shuffle(gray_default_arena, ");
-        emit_address_of(codegen, node->data.call.args[0], "_ra");
+        emit_address_of(codegen, node->data.call.args[0], "GrayArray");
         emit(codegen, ")");
         return true;
     }
     if (strcmp(func, "sample") == 0) {
         emit(codegen, "gray_random_sample(gray_default_arena, ");
-        emit_address_of(codegen, node->data.call.args[0], "_ra");
+        emit_address_of(codegen, node->data.call.args[0], "GrayArray");
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
         emit(codegen, ")");
@@ -5136,17 +5137,7 @@ static void emit_array_argument_address(CodeGen *codegen, AstNode *arg) {
             return;
         }
     }
-    /* Default: take address of the expression directly.
-     * If the expression is an rvalue (e.g. a function call), materialise it
-     * into a statement-expression temporary so the generated C is valid. */
-    if (arg->kind == NODE_LABEL || arg->kind == NODE_MEMBER_EXPR || arg->kind == NODE_INDEX_EXPR) {
-        emit(codegen, "&");
-        emit_expression(codegen, arg);
-    } else {
-        emit(codegen, "({ __auto_type _aa = ");
-        emit_expression(codegen, arg);
-        emit(codegen, "; &_aa; })");
-    }
+    emit_address_of(codegen, arg, "GrayArray");
 }
 
 static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func) {
@@ -5340,8 +5331,8 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
             emit(codegen, "gray_arrays_is_equal_prim(");
         }
         emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ", &");
-        emit_expression(codegen, node->data.call.args[1]);
+        emit(codegen, ", ");
+        emit_address_of(codegen, node->data.call.args[1], "GrayArray");
         emit(codegen, ")");
         return true;
     }
@@ -5518,15 +5509,7 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
     for (int i = 1; i < node->data.call.arg_count; i++) {
         emit(codegen, ", ");
         if (ref_args) {
-            AstNode *rarg = node->data.call.args[i];
-            if (rarg->kind == NODE_LABEL || rarg->kind == NODE_MEMBER_EXPR || rarg->kind == NODE_INDEX_EXPR) {
-                emit(codegen, "&");
-                emit_expression(codegen, rarg);
-            } else {
-                emit(codegen, "({ __auto_type _aa = ");
-                emit_expression(codegen, rarg);
-                emit(codegen, "; &_aa; })");
-            }
+            emit_address_of(codegen, node->data.call.args[i], "GrayArray");
         } else {
             emit_expression(codegen, node->data.call.args[i]);
         }
@@ -5680,7 +5663,7 @@ static bool emit_strings_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, "gray_default_arena, ");
     }
     if (strcmp(func, "from_chars") == 0) {
-        emit_address_of(codegen, node->data.call.args[0], "_ca");
+        emit_address_of(codegen, node->data.call.args[0], "GrayArray");
         emit(codegen, ")");
         return true;
     }
-- 
2.43.0


From 0ea84ce20724bf8dee42e9663f0e5e8af56c2e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:47 +0000
Subject: [PATCH 37/49] fix: unknown functions of the modules crypto, encoding
 and http are rejected (E4005)

---
 grayc/src/typechecker/typechecker.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 52cf3e5..eb01a33 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2599,10 +2599,13 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
             emit_unknown_stdlib_function(checker, mod, mfn, node);
             result = &TYPE_UNKNOWN;
         }
-    } else if (strcmp(mod, "encoding") == 0) {
-        result = &TYPE_STRING;
-    } else if (strcmp(mod, "crypto") == 0) {
-        result = &TYPE_STRING;
+    } else if (strcmp(mod, "encoding") == 0 || strcmp(mod, "crypto") == 0) {
+        if (!find_stdlib_meta(mod, mfn)) {
+            emit_unknown_stdlib_function(checker, mod, mfn, node);
+            result = &TYPE_UNKNOWN;
+        } else {
+            result = &TYPE_STRING;
+        }
     } else if (strcmp(mod, "bytes") == 0) {
         if (strcmp(mfn, "from_string") == 0 || strcmp(mfn, "from_hex") == 0 ||
             strcmp(mfn, "from_base64") == 0) {
@@ -3172,7 +3175,12 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
     } else if (strcmp(mod, "http") == 0) {
         /* All http methods return GrayHttpResponse struct
          * with .status (int), .body (string), .headers (map) */
-        result = type_struct("HttpResponse"); /* opaque struct; member access via __auto_type */
+        if (!find_stdlib_meta(mod, mfn)) {
+            emit_unknown_stdlib_function(checker, mod, mfn, node);
+            result = &TYPE_UNKNOWN;
+        } else {
+            result = type_struct("HttpResponse");
+        }
     } else if (strcmp(mod, "net") == 0) {
         if (strcmp(mfn, "listen") == 0) {
             result = type_struct("Listener"); /* GraySocket; opaque */
-- 
2.43.0


From ff99669ce88917e62de63224af49747d64e10dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:47 +0000
Subject: [PATCH 38/49] fix: net.listen checks the kind of its first argument

---
 grayc/src/typechecker/typechecker.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index eb01a33..05b8881 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -3184,6 +3184,19 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
     } else if (strcmp(mod, "net") == 0) {
         if (strcmp(mfn, "listen") == 0) {
             result = type_struct("Listener"); /* GraySocket; opaque */
+            /* net.listen(port) or net.listen(host, port) */
+            if (node->data.call.arg_count >= 1) {
+                ExpectedArgKind want = node->data.call.arg_count == 1 ? ARG_INT : ARG_STRING;
+                AstNode *arg0 = node->data.call.args[0];
+                GrayType *arg0_type = resolve_expression(checker, arg0);
+                if (!arg_kind_matches(want, arg0_type)) {
+                    char *msg = typechecker_format(checker,
+                        "net.listen() expects %s as argument 1, got '%s'",
+                        expected_kind_name(want), type_name(arg0_type));
+                    diagnostic_error_message(checker->diag, "E5026", msg,
+                        NODE_FILE(checker, arg0), arg0->token.line, arg0->token.column, 0);
+                }
+            }
         } else if (strcmp(mfn, "connect") == 0 || strcmp(mfn, "accept") == 0) {
             result = type_struct("Socket"); /* GraySocket; opaque */
         } else if (strcmp(mfn, "send") == 0) {
-- 
2.43.0


From 596844f0d1ea0a9828564f9da68a9598c82b69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:47 +0000
Subject: [PATCH 39/49] fix: maps.get_or_default reads the value with the map's
 value type and evaluates the default once

---
 grayc/src/codegen/codegen.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index b6fb50d..aa2f3a1 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -4382,15 +4382,18 @@ static bool emit_maps_call(CodeGen *codegen, AstNode *node, const char *func) {
     }
     if (strcmp(func, "get_or_default") == 0 && node->data.call.arg_count == 3) {
         /* get_or_default(m, key, default); lookup key, return default if missing */
-        emit(codegen, "({ __auto_type _gk = ");
+        GrayType *map_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
+        const char *c_key = "GrayString";
+        const char *c_val = "int64_t";
+        if (map_t && map_t->key_type) c_key = gray_map_element_c_type(codegen, map_t->key_type);
+        if (map_t && map_t->value_type) c_val = gray_map_element_c_type(codegen, map_t->value_type);
+        emit_formatted(codegen, "({ %s _gk = ", c_key);
         emit_expression(codegen, node->data.call.args[1]);
+        emit_formatted(codegen, "; %s _gd = ", c_val);
+        emit_expression(codegen, node->data.call.args[2]);
         emit(codegen, "; void *_gv = gray_map_get(");
         emit_address_of(codegen, node->data.call.args[0], "GrayMap");
-        emit(codegen, ", &_gk); _gv ? *(__typeof__(");
-        emit_expression(codegen, node->data.call.args[2]);
-        emit(codegen, ") *)_gv : ");
-        emit_expression(codegen, node->data.call.args[2]);
-        emit(codegen, "; })");
+        emit_formatted(codegen, ", &_gk); _gv ? *(%s *)_gv : _gd; })", c_val);
         return true;
     }
     return false;
-- 
2.43.0


From 8fae91f9bd47556a5787ea04cbfea6a6d47e0d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:47 +0000
Subject: [PATCH 40/49] fix: arrays.split_every and arrays.pair have the type
 of an array of their argument's type

---
 grayc/src/typechecker/typechecker.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 05b8881..b47d206 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2726,7 +2726,10 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 result = type_array("int");
             }
         } else if (strcmp(mfn, "split_every") == 0 || strcmp(mfn, "pair") == 0) {
-            result = type_array("[int]"); /* nested array */
+            GrayType *arr_t = node->data.call.arg_count > 0 ? resolve_expression(checker, node->data.call.args[0]) : NULL;
+            char chunk[TYPE_NAME_MAX];
+            snprintf(chunk, sizeof(chunk), "[%s]", (arr_t && arr_t->element_type) ? arr_t->element_type : "int");
+            result = type_array(chunk);
         } else if (strcmp(mfn, "flatten") == 0) {
             if (node->data.call.arg_count > 0) {
                 GrayType *arr_t = resolve_expression(checker, node->data.call.args[0]);
-- 
2.43.0


From db28153237114e256b9c4c1874154e2528096be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:11 +0000
Subject: [PATCH 41/49] fix: arrays functions read the elements with the
 array's element type

---
 grayc/src/codegen/codegen.c         | 103 +++++++++++----------------
 grayc/src/stdlib/arrays.c           | 105 ++++++++++++++++++++++++++++
 grayc/src/stdlib/arrays.h           |  28 ++++++++
 grayc/src/typechecker/typechecker.c |  10 ++-
 4 files changed, 180 insertions(+), 66 deletions(-)

diff --git a/grayc/src/codegen/codegen.c b/grayc/src/codegen/codegen.c
index aa2f3a1..e5e99b3 100644
--- a/grayc/src/codegen/codegen.c
+++ b/grayc/src/codegen/codegen.c
@@ -5121,6 +5121,21 @@ static bool emit_random_call(CodeGen *codegen, AstNode *node, const char *func)
 
 /* --- @arrays module --- */
 
+/* The variant of the arrays functions that reads and compares the elements of
+ * this array: the runtime functions with one are named gray_arrays_F_SUFFIX. */
+static const char *array_variant(CodeGen *codegen, AstNode *array) {
+    GrayType *type = codegen->type_table ? typetable_get(codegen->type_table, array) : NULL;
+    if (!type || type->kind != TK_ARRAY || !type->element_type) return "int";
+    char buffer[MSG_BUF_SIZE];
+    const char *c_type = array_element_c_type(codegen, type->element_type, buffer, sizeof(buffer));
+    if (strcmp(c_type, "GrayString") == 0) return "str";
+    if (strcmp(c_type, "double") == 0) return "float";
+    if (strcmp(c_type, "uint64_t") == 0) return "uint";
+    if (strcmp(c_type, "int32_t") == 0) return "char";
+    if (strcmp(c_type, "uint8_t") == 0 || strcmp(c_type, "bool") == 0) return "byte";
+    return "int";
+}
+
 /* Emit &arr for arrays.append/prepend/insert_at. When the array argument is
  * a pointer field access (e.g. Q.Parameters where Q is ^Struct), the normal
  * emit_expression produces a GNU statement expression rvalue that cannot have
@@ -5257,16 +5272,9 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         return true;
     }
     if (strcmp(func, "remove") == 0 && node->data.call.arg_count == 2) {
-        GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_remove_str(");
-        } else if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-                   strcmp(arr_t->element_type, "float") == 0) {
-            emit(codegen, "gray_arrays_remove_float(");
-        } else {
-            emit(codegen, "gray_arrays_remove_int(");
-        }
+        const char *variant = array_variant(codegen, node->data.call.args[0]);
+        if (strcmp(variant, "uint") == 0) variant = "int";
+        emit_formatted(codegen, "gray_arrays_remove_%s(", variant);
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
@@ -5279,28 +5287,12 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "sort_asc") == 0 && node->data.call.arg_count == 1) {
-        GrayType *sa_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        const char *sa_elem = (sa_t && sa_t->kind == TK_ARRAY) ? sa_t->element_type : NULL;
-        if (sa_elem && strcmp(sa_elem, "float") == 0)
-            emit(codegen, "gray_arrays_sort_asc_float(");
-        else if (sa_elem && strcmp(sa_elem, "string") == 0)
-            emit(codegen, "gray_arrays_sort_asc_str(");
-        else
-            emit(codegen, "gray_arrays_sort_asc(");
-        emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ")");
-        return true;
-    }
-    if (strcmp(func, "sort_desc") == 0 && node->data.call.arg_count == 1) {
-        GrayType *sd_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        const char *sd_elem = (sd_t && sd_t->kind == TK_ARRAY) ? sd_t->element_type : NULL;
-        if (sd_elem && strcmp(sd_elem, "float") == 0)
-            emit(codegen, "gray_arrays_sort_desc_float(");
-        else if (sd_elem && strcmp(sd_elem, "string") == 0)
-            emit(codegen, "gray_arrays_sort_desc_str(");
-        else
-            emit(codegen, "gray_arrays_sort_desc(");
+    if ((strcmp(func, "sort_asc") == 0 || strcmp(func, "sort_desc") == 0 ||
+         strcmp(func, "get_sum") == 0 || strcmp(func, "get_min") == 0 ||
+         strcmp(func, "get_max") == 0) && node->data.call.arg_count == 1) {
+        const char *variant = array_variant(codegen, node->data.call.args[0]);
+        if (strcmp(variant, "int") == 0) emit_formatted(codegen, "gray_arrays_%s(", func);
+        else emit_formatted(codegen, "gray_arrays_%s_%s(", func, variant);
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ")");
         return true;
@@ -5311,14 +5303,14 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "contains") == 0 && node->data.call.arg_count == 2) {
-        GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_contains_str(");
-        } else {
-            emit(codegen, "gray_arrays_contains_int(");
-        }
+    if ((strcmp(func, "contains") == 0 || strcmp(func, "index_of") == 0 ||
+         strcmp(func, "count") == 0) && node->data.call.arg_count == 2) {
+        const char *variant = array_variant(codegen, node->data.call.args[0]);
+        if (strcmp(variant, "uint") == 0) variant = "int";
+        if (strcmp(func, "count") == 0 && strcmp(variant, "int") == 0)
+            emit(codegen, "gray_arrays_count(");
+        else
+            emit_formatted(codegen, "gray_arrays_%s_%s(", func, variant);
         emit_array_argument_address(codegen, node->data.call.args[0]);
         emit(codegen, ", ");
         emit_expression(codegen, node->data.call.args[1]);
@@ -5339,21 +5331,6 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         emit(codegen, ")");
         return true;
     }
-    if (strcmp(func, "index_of") == 0 && node->data.call.arg_count == 2) {
-        GrayType *arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
-        if (arr_t && arr_t->kind == TK_ARRAY && arr_t->element_type &&
-            strcmp(arr_t->element_type, "string") == 0) {
-            emit(codegen, "gray_arrays_index_of_str(");
-        } else {
-            emit(codegen, "gray_arrays_index_of_int(");
-        }
-        emit_array_argument_address(codegen, node->data.call.args[0]);
-        emit(codegen, ", ");
-        emit_expression(codegen, node->data.call.args[1]);
-        emit(codegen, ")");
-        return true;
-    }
-    /* prepend/fill need special value wrapping */
     if (strcmp(func, "prepend") == 0 && node->data.call.arg_count == 2) {
         const char *pp_arena = storage_arena(codegen, node->data.call.args[0]);
         GrayType *pp_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
@@ -5386,13 +5363,10 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
     }
     if (strcmp(func, "fill") == 0 && node->data.call.arg_count == 3) {
         GrayType *fl_arr_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
+        char fl_buf[MSG_BUF_SIZE];
         const char *fl_c_elem = "int64_t";
-        if (fl_arr_t && fl_arr_t->kind == TK_ARRAY && fl_arr_t->element_type) {
-            GrayType *fet = type_from_name(fl_arr_t->element_type);
-            if (fet->kind == TK_FLOAT) fl_c_elem = "double";
-            else if (fet->kind == TK_BOOL) fl_c_elem = "bool";
-            else if (fet->kind == TK_STRING) fl_c_elem = "GrayString";
-        }
+        if (fl_arr_t && fl_arr_t->kind == TK_ARRAY && fl_arr_t->element_type)
+            fl_c_elem = array_element_c_type(codegen, fl_arr_t->element_type, fl_buf, sizeof(fl_buf));
         emit_formatted(codegen, "{ %s _fv = ", fl_c_elem);
         emit_expression(codegen, node->data.call.args[1]);
         const char *fl_arena = storage_arena(codegen, node->data.call.args[0]);
@@ -5412,7 +5386,8 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         node->data.call.arg_count == 1) {
         GrayType *af_t = codegen->type_table ? typetable_get(codegen->type_table, node->data.call.args[0]) : NULL;
         const char *af_elem = (af_t && af_t->kind == TK_ARRAY) ? af_t->element_type : NULL;
-        const char *af_ctype = af_elem ? gray_type_to_c_codegen(codegen, af_elem) : "int64_t";
+        char af_buf[MSG_BUF_SIZE];
+        const char *af_ctype = af_elem ? array_element_c_type(codegen, af_elem, af_buf, sizeof(af_buf)) : "int64_t";
         bool af_is_get = (strcmp(func, "get_first") == 0 || strcmp(func, "get_last") == 0);
         const char *af_ptr_fn = (strcmp(func, "get_first") == 0 || strcmp(func, "remove_first") == 0)
                                 ? "gray_arrays_first_ptr" : "gray_arrays_last_ptr";
@@ -5506,7 +5481,9 @@ static bool emit_arrays_call(CodeGen *codegen, AstNode *node, const char *func)
         strcmp(func, "flatten") == 0 || strcmp(func, "split_every") == 0 ||
         strcmp(func, "pair") == 0);
     bool ref_args = (strcmp(func, "concat") == 0 || strcmp(func, "pair") == 0);
-    emit_formatted(codegen, "gray_arrays_%s(", func);
+    emit_formatted(codegen, "gray_arrays_%s%s(", func,
+        strcmp(func, "deduplicate") == 0 &&
+        strcmp(array_variant(codegen, node->data.call.args[0]), "str") == 0 ? "_str" : "");
     if (needs_arena) emit(codegen, "gray_default_arena, ");
     emit_array_argument_address(codegen, node->data.call.args[0]);
     for (int i = 1; i < node->data.call.arg_count; i++) {
diff --git a/grayc/src/stdlib/arrays.c b/grayc/src/stdlib/arrays.c
index c82cecb..c32f422 100644
--- a/grayc/src/stdlib/arrays.c
+++ b/grayc/src/stdlib/arrays.c
@@ -443,3 +443,108 @@ void gray_arrays_sort_desc_str(GrayArray *arr) {
     if (arr->len <= 1) return;
     qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_str_desc);
 }
+
+/* === Elements that are not 64-bit integers === */
+
+#define DEFINE_SEARCH(SUFFIX, TYPE) \
+int64_t gray_arrays_index_of_##SUFFIX(GrayArray *arr, TYPE value) { \
+    for (int32_t i = 0; i < arr->len; i++) { \
+        if (*(TYPE *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size) == value) return i; \
+    } \
+    return -1; \
+} \
+int64_t gray_arrays_count_##SUFFIX(GrayArray *arr, TYPE value) { \
+    int64_t c = 0; \
+    for (int32_t i = 0; i < arr->len; i++) { \
+        if (*(TYPE *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size) == value) c++; \
+    } \
+    return c; \
+}
+
+#define DEFINE_COMPUTE(SUFFIX, TYPE, RESULT) \
+RESULT gray_arrays_get_sum_##SUFFIX(GrayArray *arr) { \
+    RESULT total = 0; \
+    for (int32_t i = 0; i < arr->len; i++) { \
+        total += *(TYPE *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size); \
+    } \
+    return total; \
+} \
+RESULT gray_arrays_get_min_##SUFFIX(GrayArray *arr) { \
+    if (arr->len == 0) return 0; \
+    TYPE m = *(TYPE *)arr->data; \
+    for (int32_t i = 1; i < arr->len; i++) { \
+        TYPE v = *(TYPE *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size); \
+        if (v < m) m = v; \
+    } \
+    return m; \
+} \
+RESULT gray_arrays_get_max_##SUFFIX(GrayArray *arr) { \
+    if (arr->len == 0) return 0; \
+    TYPE m = *(TYPE *)arr->data; \
+    for (int32_t i = 1; i < arr->len; i++) { \
+        TYPE v = *(TYPE *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size); \
+        if (v > m) m = v; \
+    } \
+    return m; \
+}
+
+#define DEFINE_SORT(SUFFIX, TYPE) \
+static int cmp_##SUFFIX##_asc(const void *a, const void *b) { \
+    TYPE va = *(const TYPE *)a; \
+    TYPE vb = *(const TYPE *)b; \
+    return (va > vb) - (va < vb); \
+} \
+static int cmp_##SUFFIX##_desc(const void *a, const void *b) { \
+    return cmp_##SUFFIX##_asc(b, a); \
+} \
+void gray_arrays_sort_asc_##SUFFIX(GrayArray *arr) { \
+    if (arr->iterating > 0) \
+        gray_panic_code("P0034", "cannot modify array during for_each iteration"); \
+    if (arr->len <= 1) return; \
+    qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_##SUFFIX##_asc); \
+} \
+void gray_arrays_sort_desc_##SUFFIX(GrayArray *arr) { \
+    if (arr->iterating > 0) \
+        gray_panic_code("P0034", "cannot modify array during for_each iteration"); \
+    if (arr->len <= 1) return; \
+    qsort(arr->data, (size_t)arr->len, (size_t)arr->elem_size, cmp_##SUFFIX##_desc); \
+}
+
+DEFINE_SEARCH(float, double)
+DEFINE_SEARCH(char, int32_t)
+DEFINE_SEARCH(byte, uint8_t)
+DEFINE_COMPUTE(float, double, double)
+DEFINE_COMPUTE(uint, uint64_t, uint64_t)
+DEFINE_COMPUTE(char, int32_t, int64_t)
+DEFINE_COMPUTE(byte, uint8_t, int64_t)
+DEFINE_SORT(uint, uint64_t)
+DEFINE_SORT(char, int32_t)
+DEFINE_SORT(byte, uint8_t)
+
+int64_t gray_arrays_count_str(GrayArray *arr, GrayString value) {
+    int64_t c = 0;
+    for (int32_t i = 0; i < arr->len; i++) {
+        GrayString *s = (GrayString *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
+        if (s->len == value.len && memcmp(s->data, value.data, (size_t)s->len) == 0) c++;
+    }
+    return c;
+}
+
+void gray_arrays_remove_char(GrayArray *arr, int32_t value) {
+    int64_t i = gray_arrays_index_of_char(arr, value);
+    if (i >= 0) gray_arrays_remove_at(arr, i);
+}
+
+void gray_arrays_remove_byte(GrayArray *arr, uint8_t value) {
+    int64_t i = gray_arrays_index_of_byte(arr, value);
+    if (i >= 0) gray_arrays_remove_at(arr, i);
+}
+
+GrayArray gray_arrays_deduplicate_str(GrayArena *arena, GrayArray *arr) {
+    GrayArray result = gray_array_new(arena, arr->elem_size, arr->len);
+    for (int32_t i = 0; i < arr->len; i++) {
+        GrayString *s = (GrayString *)((char *)arr->data + (size_t)i * (size_t)arr->elem_size);
+        if (!gray_arrays_contains_str(&result, *s)) gray_array_push(arena, &result, s);
+    }
+    return result;
+}
diff --git a/grayc/src/stdlib/arrays.h b/grayc/src/stdlib/arrays.h
index fc369ed..d12ac2f 100644
--- a/grayc/src/stdlib/arrays.h
+++ b/grayc/src/stdlib/arrays.h
@@ -87,6 +87,8 @@ void gray_arrays_remove_at(GrayArray *arr, int64_t index);
 void gray_arrays_remove_int(GrayArray *arr, int64_t value);
 void gray_arrays_remove_float(GrayArray *arr, double value);
 void gray_arrays_remove_str(GrayArray *arr, GrayString value);
+void gray_arrays_remove_char(GrayArray *arr, int32_t value);
+void gray_arrays_remove_byte(GrayArray *arr, uint8_t value);
 
 /*@man clear
  *@module arrays
@@ -223,6 +225,9 @@ bool gray_arrays_contains_str(GrayArray *arr, GrayString value);
  */
 int64_t gray_arrays_index_of_int(GrayArray *arr, int64_t value);
 int64_t gray_arrays_index_of_str(GrayArray *arr, GrayString value);
+int64_t gray_arrays_index_of_float(GrayArray *arr, double value);
+int64_t gray_arrays_index_of_char(GrayArray *arr, int32_t value);
+int64_t gray_arrays_index_of_byte(GrayArray *arr, uint8_t value);
 
 /*@man count
  *@module arrays
@@ -236,6 +241,10 @@ int64_t gray_arrays_index_of_str(GrayArray *arr, GrayString value);
  *@end
  */
 int64_t gray_arrays_count(GrayArray *arr, int64_t value);
+int64_t gray_arrays_count_str(GrayArray *arr, GrayString value);
+int64_t gray_arrays_count_float(GrayArray *arr, double value);
+int64_t gray_arrays_count_char(GrayArray *arr, int32_t value);
+int64_t gray_arrays_count_byte(GrayArray *arr, uint8_t value);
 
 /*@man is_equal
  *@module arrays
@@ -306,6 +315,7 @@ GrayArray gray_arrays_concat(GrayArena *arena, GrayArray *a, GrayArray *b);
  *@end
  */
 GrayArray gray_arrays_deduplicate(GrayArena *arena, GrayArray *arr);
+GrayArray gray_arrays_deduplicate_str(GrayArena *arena, GrayArray *arr);
 
 /*@man flatten
  *@module arrays
@@ -361,6 +371,10 @@ GrayArray gray_arrays_pair(GrayArena *arena, GrayArray *a, GrayArray *b);
  *@end
  */
 int64_t gray_arrays_get_sum(GrayArray *arr);
+double gray_arrays_get_sum_float(GrayArray *arr);
+uint64_t gray_arrays_get_sum_uint(GrayArray *arr);
+int64_t gray_arrays_get_sum_char(GrayArray *arr);
+int64_t gray_arrays_get_sum_byte(GrayArray *arr);
 
 /*@man get_min
  *@module arrays
@@ -374,6 +388,10 @@ int64_t gray_arrays_get_sum(GrayArray *arr);
  *@end
  */
 int64_t gray_arrays_get_min(GrayArray *arr);
+double gray_arrays_get_min_float(GrayArray *arr);
+uint64_t gray_arrays_get_min_uint(GrayArray *arr);
+int64_t gray_arrays_get_min_char(GrayArray *arr);
+int64_t gray_arrays_get_min_byte(GrayArray *arr);
 
 /*@man get_max
  *@module arrays
@@ -387,6 +405,10 @@ int64_t gray_arrays_get_min(GrayArray *arr);
  *@end
  */
 int64_t gray_arrays_get_max(GrayArray *arr);
+double gray_arrays_get_max_float(GrayArray *arr);
+uint64_t gray_arrays_get_max_uint(GrayArray *arr);
+int64_t gray_arrays_get_max_char(GrayArray *arr);
+int64_t gray_arrays_get_max_byte(GrayArray *arr);
 
 /* Sort */
 
@@ -405,6 +427,9 @@ int64_t gray_arrays_get_max(GrayArray *arr);
 void gray_arrays_sort_asc(GrayArray *arr);
 void gray_arrays_sort_asc_float(GrayArray *arr);
 void gray_arrays_sort_asc_str(GrayArray *arr);
+void gray_arrays_sort_asc_uint(GrayArray *arr);
+void gray_arrays_sort_asc_char(GrayArray *arr);
+void gray_arrays_sort_asc_byte(GrayArray *arr);
 
 /*@man sort_desc
  *@module arrays
@@ -421,6 +446,9 @@ void gray_arrays_sort_asc_str(GrayArray *arr);
 void gray_arrays_sort_desc(GrayArray *arr);
 void gray_arrays_sort_desc_float(GrayArray *arr);
 void gray_arrays_sort_desc_str(GrayArray *arr);
+void gray_arrays_sort_desc_uint(GrayArray *arr);
+void gray_arrays_sort_desc_char(GrayArray *arr);
+void gray_arrays_sort_desc_byte(GrayArray *arr);
 
 /* Higher-Order */
 
diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index b47d206..3a96a2d 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2711,10 +2711,14 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
             strcmp(mfn, "is_equal") == 0 ||
             strcmp(mfn, "any") == 0 || strcmp(mfn, "all") == 0) {
             result = &TYPE_BOOL;
-        } else if (strcmp(mfn, "index_of") == 0 || strcmp(mfn, "get_sum") == 0 ||
-                   strcmp(mfn, "get_min") == 0 || strcmp(mfn, "get_max") == 0 ||
-                   strcmp(mfn, "count") == 0) {
+        } else if (strcmp(mfn, "index_of") == 0 || strcmp(mfn, "count") == 0) {
             result = &TYPE_INT;
+        } else if (strcmp(mfn, "get_sum") == 0 || strcmp(mfn, "get_min") == 0 ||
+                   strcmp(mfn, "get_max") == 0) {
+            GrayType *arr_t = node->data.call.arg_count > 0 ? resolve_expression(checker, node->data.call.args[0]) : NULL;
+            GrayType *elem_t = (arr_t && arr_t->element_type) ? type_from_name(arr_t->element_type) : NULL;
+            result = elem_t && elem_t->kind == TK_FLOAT ? &TYPE_FLOAT
+                   : elem_t && elem_t->kind == TK_UINT ? &TYPE_UINT : &TYPE_INT;
         } else if (strcmp(mfn, "reverse") == 0 || strcmp(mfn, "slice") == 0 ||
                    strcmp(mfn, "concat") == 0 || strcmp(mfn, "deduplicate") == 0 ||
                    strcmp(mfn, "map") == 0 || strcmp(mfn, "filter") == 0) {
-- 
2.43.0


From cd407d0fb3c603a847263b78e148e6b803502e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:32 +0000
Subject: [PATCH 42/49] fix: arrays functions that look for or fill in a value
 require the type of the elements

---
 grayc/src/typechecker/typechecker.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 3a96a2d..8240bfa 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2789,11 +2789,15 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                 }
             }
         }
-        /* E3001: arrays.append/prepend/insert_at element type mismatch */
+        /* E3001: a value that is added to or looked for in an array must have
+         * the type of its elements */
         {
             AstNode *val_node = NULL;
             const char *op_name = NULL;
-            if ((strcmp(mfn, "append") == 0 || strcmp(mfn, "prepend") == 0) &&
+            bool looks_for = strcmp(mfn, "contains") == 0 || strcmp(mfn, "index_of") == 0 ||
+                strcmp(mfn, "count") == 0 || strcmp(mfn, "remove") == 0;
+            if ((strcmp(mfn, "append") == 0 || strcmp(mfn, "prepend") == 0 ||
+                 strcmp(mfn, "fill") == 0 || looks_for) &&
                 node->data.call.arg_count >= 2) {
                 val_node = node->data.call.args[1];
                 op_name = mfn;
@@ -2820,10 +2824,18 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
                         !(is_int_kind(elem_t->kind) && is_int_kind(val_t->kind))) {
                         char *msg = NULL;
                         msg = typechecker_format(checker,
-                            "type mismatch in arrays.%s(); cannot add %s to array of %s",
+                            looks_for ? "type mismatch in arrays.%s(); cannot look for %s in array of %s"
+                                      : "type mismatch in arrays.%s(); cannot add %s to array of %s",
                             op_name, type_name(val_t), arr_t->element_type);
                         diagnostic_error_message(checker->diag, "E3001", msg,
                             NODE_FILE(checker, val_node), val_node->token.line, val_node->token.column, 0);
+                    } else if (looks_for && (elem_t->kind == TK_STRUCT || elem_t->kind == TK_ARRAY ||
+                                             elem_t->kind == TK_MAP)) {
+                        char *msg = typechecker_format(checker,
+                            "arrays.%s() cannot compare elements of type %s",
+                            op_name, arr_t->element_type);
+                        diagnostic_error_message(checker->diag, "E3001", msg,
+                            NODE_FILE(checker, val_node), val_node->token.line, val_node->token.column, 0);
                     }
                 }
             }
-- 
2.43.0


From cb04d1b69c05130dd7e5a79115335ed31f041148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 43/49] fix: a part of a constant cannot be modified at any
 depth, through ++ and --, library functions, & parameters or references

---
 grayc/src/typechecker/typechecker.c | 90 ++++++++++++++++-------------
 1 file changed, 50 insertions(+), 40 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 8240bfa..22704b1 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -210,6 +210,30 @@ static const char *assignment_target_root_name(AstNode *e) {
     }
 }
 
+/* The constant that an access path (x, x.field, x[i].field, ...) is part of,
+ * or NULL if the path starts at a mutable variable or goes through a pointer:
+ * the memory a constant pointer points to is not constant. */
+static const char *immutable_root_name(TypeChecker *checker, AstNode *e) {
+    bool direct = true;
+    while (e) {
+        if (e->kind == NODE_LABEL) {
+            Symbol *sym = scope_lookup(checker->current_scope, e->data.label.value);
+            if (!sym || sym->mutable) return NULL;
+            if (!direct && !sym->is_ref && sym->type && sym->type->kind == TK_POINTER) return NULL;
+            return e->data.label.value;
+        }
+        if (!direct) {
+            GrayType *type = resolve_expression(checker, e);
+            if (type && type->kind == TK_POINTER) return NULL;
+        }
+        direct = false;
+        if (e->kind == NODE_MEMBER_EXPR)     e = e->data.member.object;
+        else if (e->kind == NODE_INDEX_EXPR) e = e->data.index_expr.left;
+        else return NULL;
+    }
+    return NULL;
+}
+
 /* True if the access path contains a map index, e.g. ref(m["k"]) or
  * ref(m["k"].field) or ref(rows[i].cells["k"]). Map values relocate on
  * rehash so a pointer to one is unsafe. */
@@ -2269,6 +2293,12 @@ static void check_mutable_arg(TypeChecker *checker, AstNode *arg,
             param_desc, func_display);
         diagnostic_error_message(checker->diag, "E3027", msg,
             NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
+    } else if (immutable_root_name(checker, arg)) {
+        char *msg = typechecker_format(checker,
+            "cannot pass part of constant '%s' to %s of '%s'",
+            immutable_root_name(checker, arg), param_desc, func_display);
+        diagnostic_error_message(checker->diag, "E3027", msg,
+            NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
     } else if (arg->kind != NODE_MEMBER_EXPR &&
                arg->kind != NODE_INDEX_EXPR &&
                arg->kind != NODE_PREFIX_EXPR) {
@@ -2447,13 +2477,11 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
         if ((strcmp(mfn, "clear") == 0 || strcmp(mfn, "remove_key") == 0) &&
             node->data.call.arg_count > 0) {
             AstNode *arg0 = node->data.call.args[0];
-            if (arg0->kind == NODE_LABEL) {
-                Symbol *sym = scope_lookup(checker->current_scope, arg0->data.label.value);
-                if (sym && !sym->mutable) {
-                    diagnostic_error_code_formatted(checker->diag, "E5007",
-                        NODE_FILE(checker, node), node->token.line, node->token.column, 0,
-                        "map", arg0->data.label.value);
-                }
+            const char *const_name = immutable_root_name(checker, arg0);
+            if (const_name) {
+                diagnostic_error_code_formatted(checker->diag, "E5007",
+                    NODE_FILE(checker, node), node->token.line, node->token.column, 0,
+                    "map", const_name);
             }
         }
     } else if (strcmp(mod, "io") == 0) {
@@ -2780,13 +2808,11 @@ static GrayType *resolve_stdlib_call(TypeChecker *checker, AstNode *node, const
              strcmp(mfn, "clear") == 0) &&
             node->data.call.arg_count > 0) {
             AstNode *arg0 = node->data.call.args[0];
-            if (arg0->kind == NODE_LABEL) {
-                Symbol *sym = scope_lookup(checker->current_scope, arg0->data.label.value);
-                if (sym && !sym->mutable) {
-                    diagnostic_error_code_formatted(checker->diag, "E5007",
-                        NODE_FILE(checker, node), node->token.line, node->token.column, 0,
-                        "array", arg0->data.label.value);
-                }
+            const char *const_name = immutable_root_name(checker, arg0);
+            if (const_name) {
+                diagnostic_error_code_formatted(checker->diag, "E5007",
+                    NODE_FILE(checker, node), node->token.line, node->token.column, 0,
+                    "array", const_name);
             }
         }
         /* E3001: a value that is added to or looked for in an array must have
@@ -7048,11 +7074,9 @@ static GrayType *resolve_expression(TypeChecker *checker, AstNode *node) {
                     NODE_FILE(checker, node), node->token.line, node->token.column, 0);
             }
             /* ++ and -- only valid on mutable numeric types */
-            if (node->data.postfix.left->kind == NODE_LABEL) {
-                Symbol *sym = scope_lookup(checker->current_scope, node->data.postfix.left->data.label.value);
-                if (sym && !sym->mutable) {
-                    diagnostic_error_code_formatted(checker->diag, "E3005", NODE_FILE(checker, node), node->token.line, node->token.column, 0, node->data.postfix.left->data.label.value);
-                }
+            const char *const_name = immutable_root_name(checker, node->data.postfix.left);
+            if (const_name) {
+                diagnostic_error_code_formatted(checker->diag, "E3005", NODE_FILE(checker, node), node->token.line, node->token.column, 0, const_name);
             }
             if (left_t->kind != TK_UNKNOWN && !type_is_integer(left_t)) {
                 diagnostic_error_code_formatted(checker->diag, "E5023", NODE_FILE(checker, node), node->token.line, node->token.column, 0, operator_to_string(node->data.postfix.op), type_display_name(checker, left_t));
@@ -8844,15 +8868,13 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     if (node->data.var_decl.mutable &&
                         node->data.var_decl.value->data.call.arg_count == 1) {
                         AstNode *src = node->data.var_decl.value->data.call.args[0];
-                        if (src->kind == NODE_LABEL) {
-                            Symbol *src_sym = scope_lookup(checker->current_scope,
-                                src->data.label.value);
-                            if (src_sym && !src_sym->mutable &&
-                                !find_func(checker, src->data.label.value)) {
+                        const char *src_name = immutable_root_name(checker, src);
+                        if (src_name) {
+                            if (!find_func(checker, src_name)) {
                                 char *msg = NULL;
                                 msg = typechecker_format(checker,
                                     "cannot take a mutable reference to const variable '%s'; declare '%s' as const, or copy() the value to get an independent mutable instance",
-                                    src->data.label.value,
+                                    src_name,
                                     node->data.var_decl.name);
                                 diagnostic_error_message(checker->diag, "E3079", msg,
                                     NODE_FILE(checker, node), node->token.line, node->token.column, 0);
@@ -9145,21 +9167,9 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                 NODE_FILE(checker, node), node->token.line, node->token.column, 0);
         }
 
-        /* Check for assignment to const variable (direct, index, or field) */
-        const char *const_name = NULL;
-        if (target->kind == NODE_LABEL) {
-            Symbol *sym = scope_lookup(checker->current_scope, target->data.label.value);
-            if (sym && !sym->mutable) const_name = target->data.label.value;
-        } else if (target->kind == NODE_INDEX_EXPR && target->data.index_expr.left->kind == NODE_LABEL) {
-            Symbol *sym = scope_lookup(checker->current_scope, target->data.index_expr.left->data.label.value);
-            if (sym && !sym->mutable) const_name = target->data.index_expr.left->data.label.value;
-        } else if (target->kind == NODE_MEMBER_EXPR && target->data.member.object->kind == NODE_LABEL) {
-            Symbol *sym = scope_lookup(checker->current_scope, target->data.member.object->data.label.value);
-            /* p.field on a pointer parameter auto-derefs to p^.field — the
-             * pointer itself is not being modified, so don't flag it as const. */
-            if (sym && !sym->mutable && !(sym->type && sym->type->kind == TK_POINTER))
-                const_name = target->data.member.object->data.label.value;
-        }
+        /* Check for assignment to const variable (direct, or an element or
+         * field of it at any depth) */
+        const char *const_name = immutable_root_name(checker, target);
         if (const_name) {
             diagnostic_error_code_formatted(checker->diag, "E3005", NODE_FILE(checker, node), node->token.line, node->token.column, 0, const_name);
         }
-- 
2.43.0


From 731f248d028786b73b1aed3c65ca0ff220cfe4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 44/49] fix: the address of what a constant pointer points to
 can be taken

---
 grayc/src/typechecker/typechecker.c | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 22704b1..bfdc3e9 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -192,24 +192,6 @@ static bool is_assignment_target(AstNode *e) {
     }
 }
 
-/* Walk an assignment target expression chain and return the root variable name.
- * Returns NULL if the chain passes through a pointer dereference (^),
- * because the pointed-to memory is independent of the pointer variable's
- * mutability. */
-static const char *assignment_target_root_name(AstNode *e) {
-    if (!e) return NULL;
-    switch (e->kind) {
-    case NODE_LABEL:       return e->data.label.value;
-    case NODE_MEMBER_EXPR: return assignment_target_root_name(e->data.member.object);
-    case NODE_INDEX_EXPR:  return assignment_target_root_name(e->data.index_expr.left);
-    case NODE_POSTFIX_EXPR:
-        if (e->data.postfix.op == TOK_CARET)
-            return NULL; /* pointer deref: memory is not the const variable */
-        return NULL;
-    default: return NULL;
-    }
-}
-
 /* The constant that an access path (x, x.field, x[i].field, ...) is part of,
  * or NULL if the path starts at a mutable variable or goes through a pointer:
  * the memory a constant pointer points to is not constant. */
@@ -4094,13 +4076,10 @@ static GrayType *resolve_builtin_call(TypeChecker *checker, AstNode *node, const
         }
         /* E3122: addr() of a const variable would allow mutation
          * through the resulting pointer, bypassing immutability. */
-        const char *root = assignment_target_root_name(arg);
+        const char *root = immutable_root_name(checker, arg);
         if (root) {
-            Symbol *sym = scope_lookup(checker->current_scope, root);
-            if (sym && !sym->mutable) {
-                diagnostic_error_code_formatted(checker->diag, "E3122", NODE_FILE(checker, node),
-                    node->token.line, node->token.column, 0, root);
-            }
+            diagnostic_error_code_formatted(checker->diag, "E3122", NODE_FILE(checker, node),
+                node->token.line, node->token.column, 0, root);
         }
         GrayType *arg_t = resolve_expression(checker, arg);
         result = type_pointer(type_name(arg_t));
-- 
2.43.0


From 984722bb79f2b2c693f8bea11aa921f71e0b0d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 45/49] fix: a value is stored only where its type fits

---
 grayc/src/typechecker/typechecker.c | 109 ++++++++++++++++++++++++++++
 1 file changed, 109 insertions(+)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index bfdc3e9..3ec3039 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2253,6 +2253,71 @@ static GrayType *resolve_implicit_enum(TypeChecker *checker, AstNode *node) {
     return type_enum(enum_name);
 }
 
+/* True if a value of type 'from' cannot be stored in a place of type 'to'.
+ * Types that are not known are not judged. The elements of a literal are
+ * converted like single values; those of another collection are stored as
+ * they are, so their types must be the same (up to the kind of integer). */
+static bool types_conflict(TypeChecker *checker, GrayType *to, GrayType *from, bool literal) {
+    if (!to || !from || to == from ||
+        to->kind == TK_UNKNOWN || from->kind == TK_UNKNOWN ||
+        to->kind == TK_FUNCTION || from->kind == TK_FUNCTION) return false;
+    bool to_enum = to->kind == TK_ENUM ||
+        (to->kind == TK_STRUCT && to->name && is_enum_name(checker, to->name));
+    bool from_enum = from->kind == TK_ENUM ||
+        (from->kind == TK_STRUCT && from->name && is_enum_name(checker, from->name));
+    if (to_enum && from_enum)
+        return to->name && from->name && !typechecker_same_enum_type(checker, to->name, from->name);
+    if (to_enum) return !is_int_kind(from->kind);
+    if (is_int_kind(to->kind)) return !is_int_kind(from->kind) && !from_enum && from->kind != TK_BOOL;
+    if (to->kind == TK_FLOAT) return from->kind != TK_FLOAT && !is_int_kind(from->kind);
+    if (from->kind == TK_NIL) return to->kind != TK_POINTER && to->kind != TK_ERROR;
+    if (to->kind != from->kind) return true;
+    if (to->kind == TK_STRUCT)
+        return to->name && from->name && !typechecker_same_struct_type(checker, to->name, from->name);
+    const char *parts[4] = {to->element_type, from->element_type, NULL, NULL};
+    if (to->kind == TK_MAP) {
+        parts[0] = to->key_type;   parts[1] = from->key_type;
+        parts[2] = to->value_type; parts[3] = from->value_type;
+    } else if (to->kind == TK_POINTER) {
+        parts[0] = to->name; parts[1] = from->name;
+        literal = false;
+    } else if (to->kind != TK_ARRAY) {
+        return false;
+    }
+    for (int i = 0; i < 4; i += 2) {
+        if (!parts[i] || !parts[i + 1] || strcmp(parts[i], parts[i + 1]) == 0) continue;
+        GrayType *a = type_from_name(parts[i]);
+        GrayType *b = type_from_name(parts[i + 1]);
+        if (types_conflict(checker, a, b, literal)) return true;
+        if (!literal && a && b && a->kind != TK_UNKNOWN && b->kind != TK_UNKNOWN &&
+            (a->kind == TK_FLOAT) != (b->kind == TK_FLOAT)) return true;
+    }
+    return false;
+}
+
+/* The same for the value of an expression. A ref() variable, whose type reads
+ * as that of what it refers to, can also be stored in a pointer. */
+static bool value_conflicts(TypeChecker *checker, GrayType *to, GrayType *from, AstNode *value) {
+    if (value->kind == NODE_LABEL && to && to->kind == TK_POINTER) {
+        Symbol *sym = scope_lookup(checker->current_scope, value->data.label.value);
+        if (sym && sym->is_ref) return false;
+    }
+    return types_conflict(checker, to, from,
+        value->kind == NODE_ARRAY_VALUE || value->kind == NODE_MAP_VALUE);
+}
+
+/* E3001 for an argument whose type does not fit, if nothing was reported
+ * since 'errors_before' */
+static void check_argument_conflict(TypeChecker *checker, int errors_before, GrayType *param_t,
+                                    GrayType *arg_t, AstNode *arg, int number, const char *function_name) {
+    if (diagnostic_error_count(checker->diag) != errors_before ||
+        !value_conflicts(checker, param_t, arg_t, arg)) return;
+    char *msg = typechecker_format(checker, "argument %d of '%s': expected %s, got %s",
+        number, function_name, type_display_name(checker, param_t), type_display_name(checker, arg_t));
+    diagnostic_error_message(checker->diag, "E3001", msg,
+        NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
+}
+
 /* E3027: validate that an argument passed to a mutable (&) parameter is a
  * mutable assignment target. Emits a diagnostic and returns if the argument
  * is a constant variable, an enum constant, or a literal/expression. */
@@ -3572,6 +3637,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                 GrayType *saved_expected_m = checker->expected_type;
                 if (param_t && param_t->kind == TK_ENUM && param_t->name)
                     checker->expected_type = param_t;
+                int errors_before = diagnostic_error_count(checker->diag);
                 GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
                 checker->expected_type = saved_expected_m;
                 if (arg_t->kind != TK_UNKNOWN && param_t->kind != TK_UNKNOWN &&
@@ -3625,6 +3691,13 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                         NODE_FILE(checker, node->data.call.args[argument_index]), node->data.call.args[argument_index]->token.line,
                         node->data.call.args[argument_index]->token.column, 0);
                 }
+                /* Composite types whose parts differ */
+                {
+                    char fn_display[MSG_BUF_SIZE];
+                    snprintf(fn_display, sizeof(fn_display), "%s.%s", display_mod, mfn);
+                    check_argument_conflict(checker, errors_before, param_t, arg_t,
+                        node->data.call.args[argument_index], argument_index + 1, fn_display);
+                }
                 /* E3027: non-assignable or const passed to mutable (&) param.
                  * Struct functions live inside NODE_STRUCT_DECL, not as
                  * top-level stmts, so scan struct declarations. */
@@ -3855,6 +3928,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                             GrayType *saved_expected_s = checker->expected_type;
                             if (param_t && param_t->kind == TK_ENUM && param_t->name)
                                 checker->expected_type = param_t;
+                            int errors_before = diagnostic_error_count(checker->diag);
                             GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
                             checker->expected_type = saved_expected_s;
                             if (arg_t && param_t &&
@@ -3902,6 +3976,13 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                                     node->data.call.args[argument_index]->token.line,
                                     node->data.call.args[argument_index]->token.column, 0);
                             }
+                            /* Composite types whose parts differ; arg[0] may be the receiver */
+                            if (argument_index > 0) {
+                                char fn_display[MSG_BUF_SIZE];
+                                snprintf(fn_display, sizeof(fn_display), "%s.%s", display_sname, mfn);
+                                check_argument_conflict(checker, errors_before, param_t, arg_t,
+                                    node->data.call.args[argument_index], argument_index + 1, fn_display);
+                            }
                         }
                     }
                     /* E3027: non-assignable or const passed to mutable (&) param
@@ -3993,6 +4074,7 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                         int check_count = node->data.call.arg_count < ssig->param_count
                             ? node->data.call.arg_count : ssig->param_count;
                         for (int argument_index = 0; argument_index < check_count; argument_index++) {
+                            int errors_before = diagnostic_error_count(checker->diag);
                             GrayType *arg_t = resolve_expression(checker, node->data.call.args[argument_index]);
                             GrayType *param_t = ssig->param_types[argument_index];
                             if (arg_t && param_t &&
@@ -4012,6 +4094,13 @@ static GrayType *resolve_struct_or_module_call(TypeChecker *checker, AstNode *no
                                     node->data.call.args[argument_index]->token.line,
                                     node->data.call.args[argument_index]->token.column, 0);
                             }
+                            /* Composite types whose parts differ */
+                            {
+                                char fn_display[MSG_BUF_SIZE];
+                                snprintf(fn_display, sizeof(fn_display), "%s.%s", display_sname, mfn);
+                                check_argument_conflict(checker, errors_before, param_t, arg_t,
+                                    node->data.call.args[argument_index], argument_index + 1, fn_display);
+                            }
                         }
                     }
                     /* E3027: non-assignable or const passed to mutable (&) param
@@ -4787,6 +4876,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                 argument_index < sig->decl->data.func_decl.param_count &&
                 sig->decl->data.func_decl.params[argument_index].is_type_param)
                 continue;
+            int errors_before = diagnostic_error_count(checker->diag);
             GrayType *param_t = sig->param_types[argument_index];
             /* Set expected_type for implicit enum resolution */
             GrayType *saved_expected = checker->expected_type;
@@ -4926,6 +5016,9 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                         node->data.call.args[argument_index]->token.column, 0);
                 }
             }
+            /* Composite types whose parts differ */
+            check_argument_conflict(checker, errors_before, param_t, arg_t,
+                node->data.call.args[argument_index], argument_index + 1, function_name);
             /* E3066: typed-func signatures must match exactly */
             if (arg_t->kind == TK_FUNCTION && param_t->kind == TK_FUNCTION &&
                 arg_t->name && param_t->name &&
@@ -6552,6 +6645,12 @@ static GrayType *resolve_struct_value(TypeChecker *checker, AstNode *node) {
                     fname, struct_display_name(checker, struct_name), type_display_name(checker, expected_t), type_display_name(checker, val_t));
                 diagnostic_error_message(checker->diag, "E3001", msg,
                     NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+            } else if (value_conflicts(checker, expected_t, val_t, node->data.struct_value.field_values[i])) {
+                char *msg = typechecker_format(checker,
+                    "field '%s' of struct '%s': expected %s, got %s",
+                    fname, struct_display_name(checker, struct_name), type_display_name(checker, expected_t), type_display_name(checker, val_t));
+                diagnostic_error_message(checker->diag, "E3001", msg,
+                    NODE_FILE(checker, node), node->token.line, node->token.column, 0);
             }
         }
     }
@@ -9046,6 +9145,7 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
     }
 
     case NODE_ASSIGN_STMT: {
+        int errors_before = diagnostic_error_count(checker->diag);
         GrayType *target_t = resolve_expression(checker, node->data.assign.target);
         /* Set expected_type for implicit enum resolution (.VARIANT) */
         GrayType *saved_expected = checker->expected_type;
@@ -9399,6 +9499,15 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                     ptr_name, addr_var);
             }
         }
+        /* Whatever the target is, the value must have its type */
+        if (aop == TOK_ASSIGN && diagnostic_error_count(checker->diag) == errors_before &&
+            value_conflicts(checker, target_t, value_t, node->data.assign.value)) {
+            char *msg = typechecker_format(checker,
+                "type mismatch: cannot assign %s to %s",
+                type_display_name(checker, value_t), type_display_name(checker, target_t));
+            diagnostic_error_message(checker->diag, "E3001", msg,
+                NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+        }
         break;
     }
 
-- 
2.43.0


From 4ecdda531714a704749caf279ebbb057334f9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 46/49] fix: an array of structs is no array of integers

---
 grayc/src/typechecker/typechecker.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 3ec3039..149ab8c 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -2268,6 +2268,8 @@ static bool types_conflict(TypeChecker *checker, GrayType *to, GrayType *from, b
     if (to_enum && from_enum)
         return to->name && from->name && !typechecker_same_enum_type(checker, to->name, from->name);
     if (to_enum) return !is_int_kind(from->kind);
+    if (to->kind == TK_STRING && from_enum)
+        return from->name && !typechecker_enum_is_string(checker, from->name);
     if (is_int_kind(to->kind)) return !is_int_kind(from->kind) && !from_enum && from->kind != TK_BOOL;
     if (to->kind == TK_FLOAT) return from->kind != TK_FLOAT && !is_int_kind(from->kind);
     if (from->kind == TK_NIL) return to->kind != TK_POINTER && to->kind != TK_ERROR;
@@ -8435,7 +8437,8 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                 if (!elem_is_func && decl_elem && val_elem &&
                     decl_elem->kind != TK_UNKNOWN && val_elem->kind != TK_UNKNOWN &&
                     !(is_int_kind(decl_elem->kind) && is_int_kind(val_elem->kind)) &&
-                    !(is_int_kind(decl_elem->kind) && val_elem->kind == TK_STRUCT) &&
+                    !(is_int_kind(decl_elem->kind) && val_elem->kind == TK_STRUCT &&
+                      val_elem->name && is_enum_name(checker, val_elem->name)) &&
                     !(decl_elem->kind == TK_FLOAT && is_int_kind(val_elem->kind))) {
                     char *msg = NULL;
                     msg = typechecker_format(checker,
-- 
2.43.0


From 24b34524efe95c3a0268837146fb9e7176428272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 47/49] fix: every value returned has its declared type;
 collections and structs are not ordered or combined with && and ||

---
 grayc/src/typechecker/typechecker.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index 149ab8c..a4b02c4 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -6000,14 +6000,19 @@ static GrayType *resolve_infix_expr(TypeChecker *checker, AstNode *node) {
         infix_errored = true;
     }
 
-    /* E3093: arithmetic on map, array, or struct */
+    /* E3093: arithmetic, ordering or logic on map, array, or struct;
+     * arithmetic or ordering on Error */
+    bool is_logic = op == TOK_AND || op == TOK_OR;
     if (!infix_errored &&
         (op == TOK_PLUS || op == TOK_MINUS ||
-         op == TOK_ASTERISK || op == TOK_SLASH || op == TOK_PERCENT)) {
+         op == TOK_ASTERISK || op == TOK_SLASH || op == TOK_PERCENT ||
+         op == TOK_LT || op == TOK_GT || op == TOK_LT_EQ || op == TOK_GT_EQ || is_logic)) {
         GrayType *bad = NULL;
-        if (left->kind == TK_MAP || left->kind == TK_ARRAY || left->kind == TK_STRUCT)
+        if (left->kind == TK_MAP || left->kind == TK_ARRAY || left->kind == TK_STRUCT ||
+            (left->kind == TK_ERROR && !is_logic))
             bad = left;
-        else if (right->kind == TK_MAP || right->kind == TK_ARRAY || right->kind == TK_STRUCT)
+        else if (right->kind == TK_MAP || right->kind == TK_ARRAY || right->kind == TK_STRUCT ||
+                 (right->kind == TK_ERROR && !is_logic))
             bad = right;
         if (bad && bad->kind != TK_UNKNOWN) {
             diagnostic_error_code_formatted(checker->diag, "E3093", NODE_FILE(checker, node), node->token.line, node->token.column, 0,
@@ -9525,8 +9530,17 @@ static void check_statement(TypeChecker *checker, AstNode *node) {
                 checker->current_return_types[i]->kind == TK_ENUM &&
                 checker->current_return_types[i]->name)
                 checker->expected_type = checker->current_return_types[i];
-            resolve_expression(checker, node->data.return_stmt.values[i]);
+            GrayType *value_t = resolve_expression(checker, node->data.return_stmt.values[i]);
             checker->expected_type = saved_ret_expected;
+            /* The first value is checked below */
+            if (i > 0 && node->data.return_stmt.count == checker->current_return_count &&
+                value_conflicts(checker, checker->current_return_types[i], value_t, node->data.return_stmt.values[i])) {
+                char *msg = typechecker_format(checker,
+                    "return type mismatch: expected %s, got %s",
+                    type_display_name(checker, checker->current_return_types[i]), type_display_name(checker, value_t));
+                diagnostic_error_message(checker->diag, "E3001", msg,
+                    NODE_FILE(checker, node), node->token.line, node->token.column, 0);
+            }
         }
         /* main() exits when control reaches the closing brace; an
          * explicit `return` is not allowed. Without this check, codegen
-- 
2.43.0


From 41f3e9e77f0d012d30ec44798e1ba5e4cef991d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 48/49] fix: arguments of calls through function values have
 the types of the parameters

---
 grayc/src/typechecker/typechecker.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index a4b02c4..bd6240d 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -5104,7 +5104,8 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                     diagnostic_error_message(checker->diag, "E5008", msg,
                         NODE_FILE(checker, node), node->token.line, node->token.column, 0);
                 } else {
-                    for (int argument_index = 0; argument_index < ref_sig->param_count; argument_index++) {
+                    for (int argument_index = 0; argument_index < ref_sig->param_count && argument_index < ac; argument_index++) {
+                        int errors_before = diagnostic_error_count(checker->diag);
                         GrayType *at = resolve_expression(checker, node->data.call.args[argument_index]);
                         GrayType *pt = ref_sig->param_types[argument_index];
                         if (at && pt && at->kind != TK_UNKNOWN &&
@@ -5135,6 +5136,9 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                                 node->data.call.args[argument_index]->token.line,
                                 node->data.call.args[argument_index]->token.column, 0);
                         }
+                        /* Composite types whose parts differ */
+                        check_argument_conflict(checker, errors_before, pt, at,
+                            node->data.call.args[argument_index], argument_index + 1, func_display_name(ref_sig));
                         /* E3027: non-assignable or const passed to mutable (&) param */
                         {
                             AstNode *arg = node->data.call.args[argument_index];
@@ -5175,6 +5179,7 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                 } else {
                     for (int argument_index = 0; argument_index < sig->param_count; argument_index++) {
                         AstNode *arg = node->data.call.args[argument_index];
+                        int errors_before = diagnostic_error_count(checker->diag);
                         GrayType *at = resolve_expression(checker, arg);
                         GrayType *pt = sig->param_types[argument_index] ? type_from_name(sig->param_types[argument_index]) : NULL;
                         if (at && pt && at->kind != TK_UNKNOWN && pt->kind != TK_UNKNOWN &&
@@ -5189,6 +5194,8 @@ static GrayType *resolve_direct_call(TypeChecker *checker, AstNode *node, const
                             diagnostic_error_message(checker->diag, "E3001", msg,
                                 NODE_FILE(checker, arg), arg->token.line, arg->token.column, 0);
                         }
+                        /* Composite types whose parts differ */
+                        check_argument_conflict(checker, errors_before, pt, at, arg, argument_index + 1, function_name);
                         /* E3027: `&` param requires an assignment target */
                         if (sig->param_mutable[argument_index]) {
                             char param_desc[MSG_BUF_SIZE];
-- 
2.43.0


From 61d457ad1703977d31ad2ab759ed179d8b383336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 49/49] fix: a loop that break can leave does not return on
 every path

---
 grayc/src/typechecker/typechecker.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/grayc/src/typechecker/typechecker.c b/grayc/src/typechecker/typechecker.c
index bd6240d..fb1e18b 100644
--- a/grayc/src/typechecker/typechecker.c
+++ b/grayc/src/typechecker/typechecker.c
@@ -7718,6 +7718,7 @@ static bool expression_contains_call(AstNode *node) {
 
 /* Check if ALL paths through a block end in a return statement */
 static bool block_has_return(AstNode *node); /* forward declaration */
+static bool block_has_break(AstNode *node);
 
 static bool all_paths_return(AstNode *node) {
     if (!node) return false;
@@ -7745,9 +7746,33 @@ static bool all_paths_return(AstNode *node) {
         }
         return true;
     }
-    /* loop { ... return ... }; an infinite loop with a return always returns */
+    /* loop { ... return ... }; an infinite loop with a return always returns,
+     * unless a break leaves it */
     if (node->kind == NODE_LOOP_STMT) {
-        return block_has_return(node->data.loop_stmt.body);
+        return block_has_return(node->data.loop_stmt.body) &&
+               !block_has_break(node->data.loop_stmt.body);
+    }
+    return false;
+}
+
+/* True if a break in the node leaves the loop around it */
+static bool block_has_break(AstNode *node) {
+    if (!node) return false;
+    if (node->kind == NODE_BREAK_STMT) return true;
+    if (node->kind == NODE_BLOCK_STMT) {
+        for (int i = 0; i < node->data.block.count; i++) {
+            if (block_has_break(node->data.block.stmts[i])) return true;
+        }
+    }
+    if (node->kind == NODE_IF_STMT) {
+        return block_has_break(node->data.if_stmt.consequence) ||
+               block_has_break(node->data.if_stmt.alternative);
+    }
+    if (node->kind == NODE_WHEN_STMT) {
+        for (int i = 0; i < node->data.when_stmt.case_count; i++) {
+            if (block_has_break(node->data.when_stmt.cases[i].body)) return true;
+        }
+        return block_has_break(node->data.when_stmt.default_body);
     }
     return false;
 }
-- 
2.43.0

