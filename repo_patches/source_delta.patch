From e2afb246dc0a2b54f914cad406741720662e4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 01/75] fix: sh: only fold unary minus into integer literals

~5 and !5 were compiled as -5 (the operator was ignored when its operand was a
decimal literal).
---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 22ba1e6..92a13de 100644
--- a/sh.c
+++ b/sh.c
@@ -1245,7 +1245,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       // +x is equivalent to x
       return comp_rvalue_go(child0, context, test_side_effects, outer_op);
     } else if (op == '-' || op == '~' || op == '!') {
-      if (get_op(child0) == INTEGER || op == INTEGER_HEX || op == INTEGER_OCT) {
+      if (op == '-' && get_op(child0) == INTEGER) {
         return wrap_in_condition_if_needed(context, test_side_effects, wrap_integer(-1, child0));
       } else {
         sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
-- 
2.43.0


From 9c9d0fcd416218d6828b133ef5e97c8aea4c76c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 02/75] fix: sh: don't emit "--" for nested unary minus

-(-x) was compiled to --x which ksh, zsh, bash and mksh evaluate as a
pre-decrement of x.
---
 sh.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sh.c b/sh.c
index 92a13de..8998a3c 100644
--- a/sh.c
+++ b/sh.c
@@ -1198,6 +1198,20 @@ text wrap_in_condition_if_needed(int context, ast test_side_effects, text code)
   }
 }
 
+// Return true if the code generated for an operand of a unary minus starts with
+// a minus sign. Parentheses, casts and unary plus don't generate any code.
+bool is_negated_operand(ast node) {
+  while (true) {
+    if (get_op(node) == CAST) {
+      node = get_child(node, 1);
+    } else if (get_op(node) == PARENS || (get_op(node) == '+' && get_nb_children(node) == 1)) {
+      node = get_child(node, 0);
+    } else {
+      return (get_op(node) == '-') & (get_nb_children(node) == 1);
+    }
+  }
+}
+
 text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op) {
   int op = get_op(node);
   int nb_children = get_nb_children(node);
@@ -1249,6 +1263,9 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return wrap_in_condition_if_needed(context, test_side_effects, wrap_integer(-1, child0));
       } else {
         sub1 = comp_rvalue_go(child0, RVALUE_CTX_ARITH_EXPANSION, 0, op);
+        if (op == '-' && is_negated_operand(child0)) {
+          sub1 = string_concat(wrap_char(' '), sub1); // Avoid "--", which some shells interpret as the decrement operator
+        }
         return wrap_if_needed(false, context, test_side_effects, string_concat(wrap_char(op), sub1), outer_op, op);
       }
     } else if (op == MINUS_MINUS_PRE) {
-- 
2.43.0


From 6e0cdc1bca8643b08b438f5352a5eebf326b3e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 03/75] fix: sh: emit octal literals in decimal

ksh, mksh and zsh evaluate $((010)) to 10 instead of 8.
---
 sh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 8998a3c..d0836db 100644
--- a/sh.c
+++ b/sh.c
@@ -107,7 +107,8 @@ text wrap_integer(int multiply, int obj) {
     case INTEGER_HEX:
       return wrap_int_hex(multiply * -get_val_(INTEGER_HEX, obj));
     case INTEGER_OCT:
-      return wrap_int_oct(multiply * -get_val_(INTEGER_OCT, obj));
+      // ksh, mksh and zsh don't interpret a leading 0 as an octal number, so octal numbers are converted to decimal
+      return wrap_int(multiply * -get_val_(INTEGER_OCT, obj));
     default:
       fatal_error("wrap_integer: unknown integer type");
       return 0;
-- 
2.43.0


From 5cb2edb50b8f57590af07f4ba2a88449a5ff2ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 04/75] fix: sh: parenthesize post-increment/decrement under
 tighter operators

2 * x++ was compiled to 2 * (x += 1) - 1, which doesn't evaluate to 2 * x.
---
 sh.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index d0836db..0404563 100644
--- a/sh.c
+++ b/sh.c
@@ -1199,6 +1199,11 @@ text wrap_in_condition_if_needed(int context, ast test_side_effects, text code)
   }
 }
 
+// Return true if a sum used as an operand of the operator must be parenthesized.
+bool binds_tighter_than_sum(int op) {
+  return (op == '*') | (op == '/') | (op == '%') | (op == '-') | (op == '~') | (op == '!');
+}
+
 // Return true if the code generated for an operand of a unary minus starts with
 // a minus sign. Parentheses, casts and unary plus don't generate any code.
 bool is_negated_operand(ast node) {
@@ -1277,10 +1282,10 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       return wrap_if_needed(true, context, test_side_effects, string_concat(sub1, wrap_str_lit(" += 1")), outer_op, op);
     } else if (op == MINUS_MINUS_POST) {
       sub1 = comp_lvalue(child0);
-      return wrap_if_needed(false, context, test_side_effects,string_concat4(wrap_char('('), sub1, wrap_str_lit(" -= 1)"), wrap_str_lit(" + 1")), outer_op, '+');
+      return wrap_if_needed(binds_tighter_than_sum(outer_op), context, test_side_effects,string_concat4(wrap_char('('), sub1, wrap_str_lit(" -= 1)"), wrap_str_lit(" + 1")), outer_op, '+');
     } else if (op == PLUS_PLUS_POST) {
       sub1 = comp_lvalue(child0);
-      return wrap_if_needed(false, context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" += 1)"), wrap_str_lit(" - 1")), outer_op, '-');
+      return wrap_if_needed(binds_tighter_than_sum(outer_op), context, test_side_effects, string_concat4(wrap_char('('), sub1, wrap_str_lit(" += 1)"), wrap_str_lit(" - 1")), outer_op, '-');
     } else if (op == SIZEOF_KW) {
       // child0 is either an abstract declaration or an expression
       if (get_op(child0) == DECL) {
-- 
2.43.0


From a8d56d8ba22890e37f28087fecf0e9e8ba31f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 05/75] fix: sh: support parenthesized lvalues

(*p)++ and (*p) += 1 were compiled to operations on the address instead of the
variable (2 += 1), and (x) = 1 was rejected.
---
 sh.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 0404563..a495e33 100644
--- a/sh.c
+++ b/sh.c
@@ -1517,7 +1517,7 @@ text comp_lvalue(ast node) {
   } else if (op == CAST) {
     return comp_lvalue(get_child_(CAST, node, 1));
   } else if (op == PARENS) {
-    return comp_lvalue_address(get_child_(PARENS, node, 0));
+    return comp_lvalue(get_child_(PARENS, node, 0));
   } else {
     printf("op=%d %c\n", op, op);
     fatal_error("comp_lvalue: unknown lvalue");
@@ -1805,7 +1805,9 @@ void comp_fun_call(ast node, ast assign_to) {
 }
 
 void comp_assignment(ast lhs, ast rhs) {
-  int lhs_op = get_op(lhs);
+  int lhs_op;
+  lhs = non_parenthesized_operand(lhs);
+  lhs_op = get_op(lhs);
   if (lhs_op == IDENTIFIER || lhs_op == '[' || lhs_op == '*' || lhs_op == ARROW) {
     if (get_op(rhs) == '(') {
       comp_fun_call(rhs, lhs);
-- 
2.43.0


From f87c8a93c8ffb08d680002397a524b1e4fff9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 06/75] fix: sh: keep the function calls of cast operands in
 conditions

if (a && (int) f(x)) didn't call f: the calls to perform before the test were
dropped when compiling the cast.
---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index a495e33..679595e 100644
--- a/sh.c
+++ b/sh.c
@@ -1346,7 +1346,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return wrap_if_needed(true, context, test_side_effects, string_concat3(sub1, op_to_str(op), sub2), outer_op, op);
       }
     } else if (op == CAST) { // Casts are no-op
-      return comp_rvalue_go(child1, context, 0, op);
+      return comp_rvalue_go(child1, context, test_side_effects, op);
     } else {
       fatal_error("comp_rvalue_go: unknown rvalue with 2 children");
       return 0;
-- 
2.43.0


From 3151bbe6833efc5c5738253703d56fc3521c3f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 07/75] fix: sh: keep conditional function calls that precede a
 ternary

if ((f(1) + (x ? 1 : 2)) && b) didn't call f: visiting the ternary discarded the
list of conditional function calls collected so far.
---
 sh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sh.c b/sh.c
index 679595e..75f6a9d 100644
--- a/sh.c
+++ b/sh.c
@@ -1038,6 +1038,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     conditional_fun_calls = 0;
     sub2 = handle_side_effects_go(child2, true);
     right_conditional_fun_calls = conditional_fun_calls;
+    conditional_fun_calls = previous_conditional_fun_calls;
     if (left_conditional_fun_calls != 0 || right_conditional_fun_calls != 0) {
       fatal_error("Conditional function calls in ternary operator not allowed");
     }
-- 
2.43.0


From b34a26d2222aea2659ba7e3a2f7a1f99e4c04ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 08/75] fix: sh: == is not associative

a == (b == c) was compiled to a == b == c.
---
 sh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 75f6a9d..7f6840d 100644
--- a/sh.c
+++ b/sh.c
@@ -1163,7 +1163,7 @@ text with_prefixed_side_effects(ast test_side_effects, text code) {
 // Associative operators can be chained without parentheses.
 bool is_associative_operator(int op) {
   return (op == '+')   | (op == '*')     | (op == '&')    | (op == '|')    | (op == '^')
-      |  (op == EQ_EQ) | (op == AMP_AMP) | (op == BAR_BAR);
+      |  (op == AMP_AMP) | (op == BAR_BAR);
 }
 
 // Wrap code in $((...)) if it's not already and if it's already in $(( )), wrap
-- 
2.43.0


From ee971fde6e2c43561e4f5ef13b87a0440ee3ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 09/75] fix: sh: don't drop the statements following for (;;) {
 break; }

The loop was considered to always return from the function, so the rest of the
block was not compiled.
---
 env.c | 3 ++-
 sh.c  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/env.c b/env.c
index f601322..ac6ecf1 100644
--- a/env.c
+++ b/env.c
@@ -136,11 +136,12 @@ void cgc_add_local_var(enum BINDING binding_type, int ident, ast type) {
 }
 
 void cgc_add_enclosing_loop() {
-  int binding = alloc_obj(4);
+  int binding = alloc_obj(5);
   heap[binding+0] = cgc_locals;
   heap[binding+1] = BINDING_LOOP;
   heap[binding+2] = 0; // loop end action start
   heap[binding+3] = 0; // loop end action end
+  heap[binding+4] = false; // whether the loop contains a break
   cgc_locals = binding;
 }
 
diff --git a/sh.c b/sh.c
index 7f6840d..e1b04ed 100644
--- a/sh.c
+++ b/sh.c
@@ -2039,14 +2039,15 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   append_glo_decl(wrap_str_lit("done"));
   cgc_locals = start_cgc_locals;
 
-  // If the condition is always true and the loop always returns
-  return cond == wrap_char(':') && always_returns;
+  // If the condition is always true and the loop always returns (and doesn't break)
+  return cond == wrap_char(':') && always_returns && !heap[loop_binding + 4];
 }
 
 bool comp_break() {
   int binding = cgc_lookup_enclosing_loop_or_switch(cgc_locals);
   if (binding == 0) fatal_error("comp_statement: break not in loop or switch");
   if (binding_kind(binding) == BINDING_LOOP) {
+    heap[binding + 4] = true;
     append_glo_decl(wrap_str_lit("break"));
   }
   return true;
-- 
2.43.0


From c96291877da9d907d5492fa4af47184db15af764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 10/75] fix: continue in do-while loops must evaluate the
 condition

Both backends jumped back to the start of the body without testing the
condition.
---
 env.c | 3 ++-
 exe.c | 4 +++-
 sh.c  | 2 ++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/env.c b/env.c
index ac6ecf1..642c977 100644
--- a/env.c
+++ b/env.c
@@ -136,12 +136,13 @@ void cgc_add_local_var(enum BINDING binding_type, int ident, ast type) {
 }
 
 void cgc_add_enclosing_loop() {
-  int binding = alloc_obj(5);
+  int binding = alloc_obj(6);
   heap[binding+0] = cgc_locals;
   heap[binding+1] = BINDING_LOOP;
   heap[binding+2] = 0; // loop end action start
   heap[binding+3] = 0; // loop end action end
   heap[binding+4] = false; // whether the loop contains a break
+  heap[binding+5] = 0; // last line of the loop (condition of do-while loops)
   cgc_locals = binding;
 }
 
diff --git a/exe.c b/exe.c
index a70980c..6663f38 100644
--- a/exe.c
+++ b/exe.c
@@ -2169,13 +2169,15 @@ void codegen_statement(ast node) {
 
     lbl1 = alloc_label(0); // do statement start
     lbl2 = alloc_label(0); // break point
+    lbl3 = alloc_label(0); // continue point
 
     save_fs = cgc_fs;
     save_locals = cgc_locals;
 
-    cgc_add_enclosing_loop(cgc_fs, lbl2, lbl1);
+    cgc_add_enclosing_loop(cgc_fs, lbl2, lbl3);
     def_label(lbl1);
     codegen_statement(get_child_(DO_KW, node, 0));
+    def_label(lbl3);
     codegen_rvalue(get_child_(DO_KW, node, 1));
     pop_reg(reg_X);
     grow_fs(-1);
diff --git a/sh.c b/sh.c
index e1b04ed..8d82bee 100644
--- a/sh.c
+++ b/sh.c
@@ -2012,6 +2012,7 @@ bool comp_loop(text cond, ast body, ast loop_end_stmt, text last_line, STMT_CTX
   cgc_add_enclosing_loop();
 
   loop_binding = cgc_locals;
+  heap[loop_binding + 5] = last_line;
 
   // This is a little bit of a hack, but it makes things so much simpler.
   // Because we need to capture the code for the end of loop actions
@@ -2056,6 +2057,7 @@ bool comp_break() {
 bool comp_continue() {
   int binding = cgc_lookup_enclosing_loop(cgc_locals);
   if (binding == 0) fatal_error("comp_statement: continue not in loop");
+  if (heap[binding + 5] != 0) append_glo_decl(heap[binding + 5]); // Check the condition of do-while loops
   replay_glo_decls(heap[binding + 2], heap[binding + 3], true);
   // We could remove the continue when in tail position, but it's not worth doing
   append_glo_decl(wrap_str_lit("continue"));
-- 
2.43.0


From 983fefb770a3e3697e8e57c5fbf7bdc834661918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 11/75] fix: && and || evaluate to 0 or 1 in constant
 expressions

(2 && 3) and (0 || 5) evaluated to 3 and 5 in enums, array sizes and #if.
---
 pnut.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 3bb6a91..7bcf839 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1365,12 +1365,12 @@ int eval_constant(ast expr, bool if_macro) {
     case AMP_AMP:
       op1 = eval_constant(child0, if_macro);
       if (!op1) return 0;
-      else return eval_constant(child1, if_macro);
+      else return eval_constant(child1, if_macro) != 0;
 
     case BAR_BAR:
       op1 = eval_constant(child0, if_macro);
       if (op1) return 1;
-      else return eval_constant(child1, if_macro);
+      else return eval_constant(child1, if_macro) != 0;
 
     case '(': // defined operators are represented as fun calls
       if (if_macro && get_val_(IDENTIFIER, child0) == DEFINED_ID) {
-- 
2.43.0


From 3b90e309333277c1369931a9ddbb1f62d1c7218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 12/75] fix: allow 20 nested #if directives as documented by
 the error message

Each level uses 2 entries of the stack, so only 10 levels were supported.
---
 pnut.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 7bcf839..f44c3d9 100644
--- a/pnut.c
+++ b/pnut.c
@@ -684,7 +684,7 @@ void get_tok();
 void get_ident();
 void expect_tok_(int expected_tok, char* file, int line);
 
-#define IFDEF_DEPTH_MAX 20
+#define IFDEF_DEPTH_MAX 40 // 20 nested directives, with 2 entries for each
 bool if_macro_stack[IFDEF_DEPTH_MAX]; // Stack of if macro states
 bool if_macro_stack_ix = 0;
 bool if_macro_mask = true;      // Indicates if the current if/elif block is being executed
-- 
2.43.0


From 6aecdca80aaec228090e70fcc86423f04095c6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 13/75] fix: don't evaluate the conditions of skipped #if and
 #elif directives

#if inside of a skipped group, and #elif following a selected group must not be
evaluated: a division by zero, an unknown operator or a missing macro in such a
condition made the compilation fail.
---
 pnut.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index f44c3d9..e953222 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1460,14 +1460,22 @@ void handle_preprocessor_directive() {
       push_if_macro_mask(temp == IFDEF_ID ? tok == MACRO : tok != MACRO);
     get_tok_macro(); // Skip the macro name
   } else if (tok == IF_KW) {
-    temp = evaluate_if_condition() != 0;
+    if (if_macro_mask) {
+      temp = evaluate_if_condition() != 0;
+    } else {
+      // The conditions of skipped groups are not evaluated
+      while (tok != '\n' && tok != EOF) get_tok_macro();
+      temp = false;
+    }
     push_if_macro_mask(temp);
   } else if (tok == IDENTIFIER && val == ELIF_ID) {
-    temp = evaluate_if_condition() != 0;
     if (prev_macro_mask() && !if_macro_executed) {
+      temp = evaluate_if_condition() != 0;
       if_macro_executed |= temp;
       if_macro_mask = temp;
     } else {
+      // The condition is not evaluated if a previous group was selected
+      while (tok != '\n' && tok != EOF) get_tok_macro();
       if_macro_mask = false;
     }
   } else if (tok == ELSE_KW) {
-- 
2.43.0


From 2cd0bf0594591ab78e6c59dcb98c1006d77dde13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 14/75] fix: exe: && and || evaluate to 0 or 1

x = 2 && 3 and x = 5 || 0 assigned 3 and 5 to x.
---
 exe.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/exe.c b/exe.c
index 6663f38..944ed69 100644
--- a/exe.c
+++ b/exe.c
@@ -1579,6 +1579,14 @@ void codegen_rvalue(ast node) {
       codegen_rvalue(child1);
       grow_fs(-1);
       def_label(lbl1);
+      // Normalize the result to 0 or 1
+      lbl2 = alloc_label(0);
+      pop_reg(reg_X);
+      xor_reg_reg(reg_Y, reg_Y);
+      jump_cond_reg_reg(EQ, lbl2, reg_X, reg_Y);
+      mov_reg_imm(reg_X, 1);
+      def_label(lbl2);
+      push_reg(reg_X);
     } else if (op == '(') {
       codegen_call(node);
     } else if (op == '.') {
-- 
2.43.0


From dd2c9c4bc53aaa0a863443281827e2a504066a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 15/75] fix: exe: align struct members consistently

Struct members were accessed at the offset that precedes their alignment, and
struct initializers ignored the alignment of members, so that
struct { char c; int i; short h; } s = {1, 2, 3}; initialized the wrong bytes.
---
 exe.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/exe.c b/exe.c
index 944ed69..6740955 100644
--- a/exe.c
+++ b/exe.c
@@ -747,6 +747,11 @@ int struct_member_offset_go(ast struct_type, ast member_ident) {
   while (members != 0) {
     decl = car_(DECL, members);
     ident = get_child_opt_(DECL, IDENTIFIER, decl, 0);
+    member_size = type_width(get_child_(DECL, decl, 1), true, false);
+    if (get_op(struct_type) == STRUCT_KW && member_size != 0) {
+      offset = align_to(type_largest_member(get_child_(DECL, decl, 1)), offset);
+    }
+
     if (ident == 0) { // Anonymous struct member, search that struct
       sub_offset = struct_member_offset_go(get_child_(DECL, decl, 1), member_ident);
       if (sub_offset != -1) return offset + sub_offset;
@@ -758,8 +763,6 @@ int struct_member_offset_go(ast struct_type, ast member_ident) {
       // For unions, fields are always at offset 0. We must still iterate
       // because the field may be in an anonymous struct, in which case the
       // final offset is not 0.
-      member_size = type_width(get_child_(DECL, decl, 1), true, false);
-      if (member_size != 0) offset = align_to(type_largest_member(get_child_(DECL, decl, 1)), offset);
       offset += member_size;
     }
     members = tail(members);
@@ -1835,6 +1838,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
   ast inner_type;
   int arr_len;
   int inner_type_width;
+  int struct_start;
 
   type = canonicalize_type(type);
 
@@ -1875,10 +1879,13 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
 
         case STRUCT_KW:
           members = get_child_(STRUCT_KW, type, 2);
+          struct_start = offset;
           while (init != 0 && members != 0) {
             inner_type = get_child_(DECL, car_(DECL, members), 1);
+            inner_type_width = type_width(inner_type, true, false);
+            if (inner_type_width != 0) offset = struct_start + align_to(type_largest_member(inner_type), offset - struct_start);
             codegen_initializer(local, car(init), inner_type, base_reg, offset);
-            offset += type_width(inner_type, true, false);
+            offset += inner_type_width;
             init = tail(init);
             members = tail(members);
           }
@@ -1886,8 +1893,10 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
           // Initialize rest of the members to 0
           while (local && members != 0) {
             inner_type = get_child_(DECL, car_(DECL, members), 1);
-            initialize_memory(0, base_reg, offset, type_width(inner_type, true, false));
-            offset += type_width(inner_type, true, false);
+            inner_type_width = type_width(inner_type, true, false);
+            if (inner_type_width != 0) offset = struct_start + align_to(type_largest_member(inner_type), offset - struct_start);
+            initialize_memory(0, base_reg, offset, inner_type_width);
+            offset += inner_type_width;
             members = tail(members);
           }
           break;
-- 
2.43.0


From d9c3fa8239975cd0e6752a4f82541b5b57cec220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 16/75] fix: exe: pointer differences are signed

The difference between pointers was divided with an unsigned division when the
size of the element is not a power of 2, so q - p was wrong when q < p.
---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 6740955..77a9548 100644
--- a/exe.c
+++ b/exe.c
@@ -281,7 +281,7 @@ void div_for_pointer_arith(int reg, int width) {
     }
 
     mov_reg_imm(reg_Y, width);
-    div_reg_reg(reg_X, reg_Y);
+    idiv_reg_reg(reg_X, reg_Y); // The difference between pointers is signed
 
     if (reg_start != reg_X) {
       mov_reg_reg(reg_start, reg_X);
-- 
2.43.0


From b1169241f54865b57c4177cd77b1469ba5fd1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 17/75] fix: exe: casts between signed and unsigned types of
 the same width

(unsigned char) c and (short) us kept the original value, because the value was
only extended again for casts to a narrower type.
---
 exe.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/exe.c b/exe.c
index 77a9548..39d5507 100644
--- a/exe.c
+++ b/exe.c
@@ -1631,11 +1631,15 @@ void codegen_rvalue(ast node) {
       }
     } else if (op == CAST) {
       codegen_rvalue(child1);
-      // If the cast is to a value narrower than the width of the value, we need
-      // to truncate the value. This is done by writing the value to the stack
-      // and then reading it back, sign extending it if necessary.
+      // If the cast is to a value narrower than the width of the value (or of the
+      // same width with a different signedness), we need to truncate the value.
+      // This is done by writing the value to the stack and then reading it back,
+      // sign extending it if necessary.
       child0 = get_child_(DECL, child0, 1); // child 1 of cast is the type
-      if (type_width(child0, false, false) < type_width(value_type(child1), false, false)) {
+      type1 = value_type(child1);
+      if (type_width(child0, false, false) < type_width(type1, false, false)
+       || (type_width(child0, false, false) == type_width(type1, false, false)
+           && is_signed_numeric_type(child0) != is_signed_numeric_type(type1))) {
         load_mem_location(reg_X, reg_SP, 0, type_width(child0, false, false), is_signed_numeric_type(child0));
         grow_stack(-1);
         push_reg(reg_X);
-- 
2.43.0


From 71e2a4b90c6369b15ef7d67d9c5b005647b1ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 18/75] fix: exe: negative enum constants on 64-bit targets

---
 exe.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/exe.c b/exe.c
index 39d5507..4b400c1 100644
--- a/exe.c
+++ b/exe.c
@@ -1428,11 +1428,9 @@ void codegen_rvalue(ast node) {
           push_reg(reg_X);
           break;
         case BINDING_ENUM_CST:
-#ifdef SUPPORT_64_BIT_LITERALS
-          mov_reg_large_imm(reg_X, get_val(heap[binding+3]));
-#else
-          mov_reg_imm(reg_X, -get_val_(INTEGER, heap[binding+3]));
-#endif
+          // Enum constants are the negated value of a small integer, including
+          // when they are negative (see parse_enum)
+          mov_reg_imm(reg_X, -get_val(heap[binding+3]));
           push_reg(reg_X);
           break;
 
-- 
2.43.0


From 30b301973830682e264b22fd1ebf48d7279ca3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 19/75] fix: sh: don't drop expression statements whose only
 side effect is an assignment

---
 sh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sh.c b/sh.c
index 8d82bee..dcc26fd 100644
--- a/sh.c
+++ b/sh.c
@@ -990,6 +990,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     if (op == '(') { // Function call
       return handle_fun_call_side_effect(node, 0, executes_conditionally);
     } else if (op == '=') {
+      contains_side_effects = true;
       if (get_op(child1) == '(') { // Function call
         // In that case, we reuse the left hand side of the assignment as the result location
         return handle_fun_call_side_effect(child1, child0, executes_conditionally);
-- 
2.43.0


From 41ba136655e619bbf24f5efba98a956eb0822393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 20/75] fix: sh: accept && and || in the arguments of nested
 function calls

---
 sh.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sh.c b/sh.c
index dcc26fd..11a6b64 100644
--- a/sh.c
+++ b/sh.c
@@ -1045,6 +1045,11 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     }
 
     return new_ast3('?', handle_side_effects_go(child0, executes_conditionally), sub1, sub2);
+  } else if (nb_children == 4 && (op == AMP_AMP || op == BAR_BAR)) {
+    // Already handled: the arguments of a function call are visited a second
+    // time when the call is compiled. All function calls were extracted from
+    // the operands the first time, so children 2 and 3 are up to date.
+    return new_ast4(op, handle_side_effects_go(child0, true), handle_side_effects_go(child1, true), child2, get_child(node, 3));
   } else {
     printf("op=%d %c with %d children\n", op, op, get_nb_children(node));
     fatal_error("unexpected operator");
-- 
2.43.0


From e8bbb474578f0f0162d0a82450cfbfec64a320a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 21/75] fix: sh: parenthesize post-increments under bitwise
 operators for zsh

---
 sh.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 11a6b64..1c1333e 100644
--- a/sh.c
+++ b/sh.c
@@ -1207,8 +1207,10 @@ text wrap_in_condition_if_needed(int context, ast test_side_effects, text code)
 }
 
 // Return true if a sum used as an operand of the operator must be parenthesized.
+// In zsh, shifts and bitwise operators have a higher precedence than sums.
 bool binds_tighter_than_sum(int op) {
-  return (op == '*') | (op == '/') | (op == '%') | (op == '-') | (op == '~') | (op == '!');
+  return (op == '*') | (op == '/') | (op == '%') | (op == '-') | (op == '~') | (op == '!')
+       | (op == '&') | (op == '|') | (op == '^') | (op == LSHIFT) | (op == RSHIFT);
 }
 
 // Return true if the code generated for an operand of a unary minus starts with
-- 
2.43.0


From 764b74aee09dcd84a4af30153dda606bc36181db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 22/75] fix: sh: defarr called a nonexistent function when
 arrays are initialized

---
 sh-runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sh-runtime.c b/sh-runtime.c
index 54f01fc..df3da6e 100644
--- a/sh-runtime.c
+++ b/sh-runtime.c
@@ -326,7 +326,7 @@ DEPENDS_ON(malloc)
   }
 #else
 DEPENDS_ON(initialize)
-  putstr("defarr() { _malloc $1 $2; initialize_memory $@; }\n");
+  putstr("defarr() { _malloc $1 $2; initialize $@; }\n");
 #endif
 END_RUNTIME_FUN(defarr)
 
-- 
2.43.0


From f149a068ef9b401bccfdd537d8b29d00821f472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 23/75] fix: sh: the default clause of a switch doesn't need to
 be last

---
 sh.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/sh.c b/sh.c
index 1c1333e..99bfe52 100644
--- a/sh.c
+++ b/sh.c
@@ -425,7 +425,11 @@ bool any_active_glo_decls(int start) {
 void replay_glo_decls(int start, int end, int reindent) {
   while (start < end) {
     if (glo_decls[start + 1] == 0) { // Skip inactive declarations that are at the current level
-      append_glo_decl(glo_decls[start + 2]);
+      if (glo_decls[start] < 0) { // Fixup that is not done yet, see comp_return
+        rest_loc_var_fixups = cons(append_glo_decl_fixup(), rest_loc_var_fixups);
+      } else {
+        append_glo_decl(glo_decls[start + 2]);
+      }
       if (!reindent) glo_decls[glo_decl_ix - 3] = glo_decls[start]; // Replace nest_level
     }
     start += 3;
@@ -1863,14 +1867,19 @@ bool comp_body(ast node, STMT_CTX stmt_ctx) {
 // non-case statement is found.
 // Because the non-case statement must be compiled as well, it is returned via
 // the last_stmt global variable.
+// last_pattern_default indicates if the pattern contains the default label.
 ast last_stmt;
+bool last_pattern_default;
 text make_switch_pattern(ast statement) {
   text str = 0;
 
+  last_pattern_default = false;
+
   while (1) { // statement will never be null
     switch (get_op(statement)) {
       case DEFAULT_KW:
         str = wrap_char('*');
+        last_pattern_default = true;
         statement = get_child_(DEFAULT_KW, statement, 0);
         break;
 
@@ -1893,6 +1902,10 @@ text make_switch_pattern(ast statement) {
 
 bool comp_switch(ast node) {
   ast statement;
+  bool is_default;
+  int clause_start;
+  int default_start = 0;
+  int default_end = 0;
   int start_cgc_locals = cgc_locals;
 
   append_glo_decl(string_concat3(
@@ -1918,8 +1931,10 @@ bool comp_switch(ast node) {
     statement = get_child_('{', node, 0);
     node = get_child_('{', node, 1);
 
+    clause_start = glo_decl_ix;
     append_glo_decl(make_switch_pattern(statement));
-    statement = last_stmt; // last_stmt is set by make_switch_pattern
+    is_default = last_pattern_default; // last_pattern_default and last_stmt are set by make_switch_pattern
+    statement = last_stmt;
 
     nest_level += 1;
 
@@ -1939,8 +1954,17 @@ bool comp_switch(ast node) {
 
     nest_level -= 1;
     append_glo_decl(wrap_str_lit(";;"));
+
+    if (is_default && get_op(node) == '{') {
+      // The default pattern matches everything so the clause must come last
+      undo_glo_decls(clause_start);
+      default_start = clause_start;
+      default_end = glo_decl_ix;
+    }
   }
 
+  replay_glo_decls(default_start, default_end, false);
+
   nest_level -= 1;
   append_glo_decl(wrap_str_lit("esac"));
 
-- 
2.43.0


From 470b536caaadf96d0b65c6ee4740ffe9d707e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 24/75] fix: exe: allocate the variables declared before a case
 when jumping to it

---
 exe.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 4b400c1..039a440 100644
--- a/exe.c
+++ b/exe.c
@@ -2284,8 +2284,13 @@ void codegen_statement(ast node) {
       codegen_rvalue(get_child_(CASE_KW, node, 0)); // evaluate case expression and compare it
       pop_reg(reg_Y); grow_fs(-1);
       mov_reg_mem(reg_X, reg_SP, 0);          // get switch operand without popping it
-      jump_cond_reg_reg(EQ, lbl1, reg_X, reg_Y);
+      lbl2 = alloc_label(0);
+      jump_cond_reg_reg(EQ, lbl2, reg_X, reg_Y);
       jump(heap[binding + 4]);                // condition is false => jump to next case
+      def_label(lbl2);
+      // Allocate the variables declared earlier in the body of the switch,
+      // the stack only contains the switch operand at this point.
+      if (cgc_fs != heap[binding + 2] + 1) grow_stack(cgc_fs - heap[binding + 2] - 1);
       def_label(lbl1);                        // start of case conditional block
       codegen_statement(get_child_(CASE_KW, node, 1));  // case statement
     } else {
@@ -2299,7 +2304,12 @@ void codegen_statement(ast node) {
     if (binding != 0) {
       if (heap[binding + 5]) fatal_error("default already defined in switch");
       heap[binding + 5] = alloc_label(0);                 // create label for default
+      lbl1 = alloc_label(0);
+      jump(lbl1);                                         // skip stack adjustment when falling through
       def_label(heap[binding + 5]);                       // default label
+      // Allocate the variables declared earlier in the body of the switch
+      if (cgc_fs != heap[binding + 2] + 1) grow_stack(cgc_fs - heap[binding + 2] - 1);
+      def_label(lbl1);
       codegen_statement(get_child_(DEFAULT_KW, node, 0)); // default statement
     } else {
       fatal_error("default outside of switch");
-- 
2.43.0


From ee2c98b63037834f3c35ed5224e24a21167f86a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 25/75] fix: sh: rename the local variables that are special in
 some shells

---
 pnut.c | 87 +++++++++++++++++++++++++++++++++++++++++++++++++++++++---
 sh.c   | 11 ++++++--
 2 files changed, 91 insertions(+), 7 deletions(-)

diff --git a/pnut.c b/pnut.c
index e953222..30981ff 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1129,8 +1129,9 @@ int INCLUDE_SHELL_ID;
 int NOT_SUPPORTED_ID;
 
 // We want to recognize certain identifers without having to do expensive string comparisons
-int ARGV__ID;
-int ARGV_ID;
+int SHELL_VARS_START;
+int RENAMED_SHELL_VARS_START;
+int RENAMED_SHELL_VARS_END;
 int IFS_ID;
 int MAIN_ID;
 
@@ -1658,8 +1659,86 @@ void init_ident_table() {
   DEFINED_ID = init_ident(IDENTIFIER, "defined");
   INCLUDE_SHELL_ID = init_ident(IDENTIFIER, "include_shell");
 
-  ARGV_ID = init_ident(IDENTIFIER, "argv");
-  ARGV__ID = init_ident(IDENTIFIER, "argv_");
+#ifdef sh
+  // Variables that have a special meaning in at least one shell, and the names
+  // given to the local variables that have these names.
+  SHELL_VARS_START = init_ident(IDENTIFIER, "BASHOPTS");
+  init_ident(IDENTIFIER, "BASHPID");
+  init_ident(IDENTIFIER, "BASH_COMMAND");
+  init_ident(IDENTIFIER, "BASH_VERSINFO");
+  init_ident(IDENTIFIER, "COLUMNS");
+  init_ident(IDENTIFIER, "DIRSTACK");
+  init_ident(IDENTIFIER, "EPOCHREALTIME");
+  init_ident(IDENTIFIER, "EPOCHSECONDS");
+  init_ident(IDENTIFIER, "EUID");
+  init_ident(IDENTIFIER, "FUNCNAME");
+  init_ident(IDENTIFIER, "FUNCNEST");
+  init_ident(IDENTIFIER, "GROUPS");
+  init_ident(IDENTIFIER, "HISTCMD");
+  init_ident(IDENTIFIER, "KEYBOARD_HACK");
+  init_ident(IDENTIFIER, "KSH_VERSION");
+  init_ident(IDENTIFIER, "LC_ALL");
+  init_ident(IDENTIFIER, "LINENO");
+  init_ident(IDENTIFIER, "OPTIND");
+  init_ident(IDENTIFIER, "PATH");
+  init_ident(IDENTIFIER, "PIPESTATUS");
+  init_ident(IDENTIFIER, "PPID");
+  init_ident(IDENTIFIER, "RANDOM");
+  init_ident(IDENTIFIER, "SECONDS");
+  init_ident(IDENTIFIER, "SHELLOPTS");
+  init_ident(IDENTIFIER, "SRANDOM");
+  init_ident(IDENTIFIER, "TTYIDLE");
+  init_ident(IDENTIFIER, "UID");
+  init_ident(IDENTIFIER, "USERNAME");
+  init_ident(IDENTIFIER, "aliases");
+  init_ident(IDENTIFIER, "argv");
+  init_ident(IDENTIFIER, "commands");
+  init_ident(IDENTIFIER, "functions");
+  init_ident(IDENTIFIER, "histchars");
+  init_ident(IDENTIFIER, "options");
+  init_ident(IDENTIFIER, "parameters");
+  init_ident(IDENTIFIER, "pipestatus");
+  init_ident(IDENTIFIER, "status");
+  init_ident(IDENTIFIER, "zsh_eval_context");
+  RENAMED_SHELL_VARS_START = init_ident(IDENTIFIER, "BASHOPTS_");
+  init_ident(IDENTIFIER, "BASHPID_");
+  init_ident(IDENTIFIER, "BASH_COMMAND_");
+  init_ident(IDENTIFIER, "BASH_VERSINFO_");
+  init_ident(IDENTIFIER, "COLUMNS_");
+  init_ident(IDENTIFIER, "DIRSTACK_");
+  init_ident(IDENTIFIER, "EPOCHREALTIME_");
+  init_ident(IDENTIFIER, "EPOCHSECONDS_");
+  init_ident(IDENTIFIER, "EUID_");
+  init_ident(IDENTIFIER, "FUNCNAME_");
+  init_ident(IDENTIFIER, "FUNCNEST_");
+  init_ident(IDENTIFIER, "GROUPS_");
+  init_ident(IDENTIFIER, "HISTCMD_");
+  init_ident(IDENTIFIER, "KEYBOARD_HACK_");
+  init_ident(IDENTIFIER, "KSH_VERSION_");
+  init_ident(IDENTIFIER, "LC_ALL_");
+  init_ident(IDENTIFIER, "LINENO_");
+  init_ident(IDENTIFIER, "OPTIND_");
+  init_ident(IDENTIFIER, "PATH_");
+  init_ident(IDENTIFIER, "PIPESTATUS_");
+  init_ident(IDENTIFIER, "PPID_");
+  init_ident(IDENTIFIER, "RANDOM_");
+  init_ident(IDENTIFIER, "SECONDS_");
+  init_ident(IDENTIFIER, "SHELLOPTS_");
+  init_ident(IDENTIFIER, "SRANDOM_");
+  init_ident(IDENTIFIER, "TTYIDLE_");
+  init_ident(IDENTIFIER, "UID_");
+  init_ident(IDENTIFIER, "USERNAME_");
+  init_ident(IDENTIFIER, "aliases_");
+  init_ident(IDENTIFIER, "argv_");
+  init_ident(IDENTIFIER, "commands_");
+  init_ident(IDENTIFIER, "functions_");
+  init_ident(IDENTIFIER, "histchars_");
+  init_ident(IDENTIFIER, "options_");
+  init_ident(IDENTIFIER, "parameters_");
+  init_ident(IDENTIFIER, "pipestatus_");
+  init_ident(IDENTIFIER, "status_");
+  RENAMED_SHELL_VARS_END = init_ident(IDENTIFIER, "zsh_eval_context_");
+#endif
   IFS_ID  = init_ident(IDENTIFIER, "IFS");
   MAIN_ID = init_ident(IDENTIFIER, "main");
 
diff --git a/sh.c b/sh.c
index 99bfe52..7d9b268 100644
--- a/sh.c
+++ b/sh.c
@@ -519,8 +519,8 @@ text env_var_with_prefix(ast ident, ast prefixed_with_dollar) {
   if (get_op(ident) == IDENTIFIER) {
     if (cgc_lookup_var(get_val_(IDENTIFIER, ident), cgc_locals)) {
       // TODO: Constant param optimization
-      if (get_val_(IDENTIFIER, ident) == ARGV_ID) {
-        return wrap_str_lit("argv_");
+      if (SHELL_VARS_START <= get_val_(IDENTIFIER, ident) && get_val_(IDENTIFIER, ident) < RENAMED_SHELL_VARS_START) {
+        return string_concat(wrap_str_pool(get_val_(IDENTIFIER, ident)), wrap_char('_'));
       } else {
         return wrap_str_pool(get_val_(IDENTIFIER, ident));
       }
@@ -599,11 +599,16 @@ void assert_var_decl_is_safe(ast variable, bool local) { // Helper function for
 
   // IFS is a special shell variable that's overwritten by certain.
   // In zsh, writing to argv assigns to $@, so we map argv to argv_, and forbid argv_.
+  // The same goes for the other variables that are special in some shells.
   // This check only applies to local variables because globals are prefixed with _.
-  if (local && (ident_probe == ARGV__ID || ident_probe == IFS_ID)) {
+  if (local && ident_probe == IFS_ID) {
     printf("\"%s\" ", name);
     fatal_error("variable name is invalid. It can't be 'IFS' or 'argv_'.");
   }
+  if (local && RENAMED_SHELL_VARS_START <= ident_probe && ident_probe <= RENAMED_SHELL_VARS_END) {
+    printf("\"%s\" ", name);
+    fatal_error("variable name is invalid. It can't be the name of a special shell variable followed by '_'.");
+  }
 
   if (local) {
     // Local variables don't correspond to memory locations, and can't store
-- 
2.43.0


From a2acb326eed80233ef20c9c57b8194c826e957f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 26/75] fix: sh: parenthesize casted post-increments under
 tighter operators

---
 sh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 7d9b268..84e7a1c 100644
--- a/sh.c
+++ b/sh.c
@@ -1219,7 +1219,8 @@ text wrap_in_condition_if_needed(int context, ast test_side_effects, text code)
 // In zsh, shifts and bitwise operators have a higher precedence than sums.
 bool binds_tighter_than_sum(int op) {
   return (op == '*') | (op == '/') | (op == '%') | (op == '-') | (op == '~') | (op == '!')
-       | (op == '&') | (op == '|') | (op == '^') | (op == LSHIFT) | (op == RSHIFT);
+       | (op == '&') | (op == '|') | (op == '^') | (op == LSHIFT) | (op == RSHIFT)
+       | (op == CAST); // Casts are no-ops so the operator around the cast binds the sum
 }
 
 // Return true if the code generated for an operand of a unary minus starts with
-- 
2.43.0


From 5b0810f6ee67670227c6dd7d887c41d21422b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 27/75] fix: empty leading arguments of function-like macros
 were dropped

---
 pnut.c | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/pnut.c b/pnut.c
index 30981ff..3175aae 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1855,33 +1855,21 @@ void check_macro_arity(int macro_args_count, int macro) {
 int get_macro_args_toks(int macro) {
   int args = 0;
   int macro_args_count = 0;
-  bool prev_is_comma = tok == ',';
   get_tok_macro_expand(); // Skip '('
 
-  while (tok != ')' && tok != EOF) {
-    if (tok == ',') {
+  // Arguments can be empty, but () contains no argument if the macro has no parameters
+  if (tok != ')' || cdr(heap[macro + 3]) != 0) {
+    args = cons(macro_parse_argument(), 0);
+    macro_args_count = 1;
+    while (tok == ',') {
       get_tok_macro_expand(); // Skip comma
-      if (prev_is_comma) { // Push empty arg
-        args = cons(0, args);
-        macro_args_count += 1;
-      }
-      prev_is_comma = true;
-      continue;
-    } else {
-      prev_is_comma = false;
+      args = cons(macro_parse_argument(), args);
+      macro_args_count += 1;
     }
-
-    args = cons(macro_parse_argument(), args);
-    macro_args_count += 1;
   }
 
   if (tok != ')') syntax_error("unterminated macro argument list");
 
-  if (prev_is_comma) {
-    args = cons(0, args); // Push empty arg
-    macro_args_count += 1;
-  }
-
   check_macro_arity(macro_args_count, macro);
 
   return args;
-- 
2.43.0


From 0864cb057530575de6bc88fe73d4fd9ceba0914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 28/75] fix: operands of ## are not macro expanded

---
 pnut.c | 83 +++++++++++++++++++++++++++++++---------------------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/pnut.c b/pnut.c
index 3175aae..dab04d2 100644
--- a/pnut.c
+++ b/pnut.c
@@ -707,7 +707,6 @@ int macro_tok_lst = 0;  // Current list of tokens to replay for the macro being
 int macro_args = 0;     // Current list of arguments for the macro being expanded
 int macro_ident = 0;    // The identifier of the macro being expanded (if any)
 int macro_args_count;   // Number of arguments for the current macro being expanded
-bool paste_last_token = false; // Whether the last token was a ## or not
 
 bool prev_macro_mask() {
   return if_macro_stack_ix == 0 || if_macro_stack[if_macro_stack_ix - 2];
@@ -2007,34 +2006,51 @@ int paste_integers(int left_val, int right_val) {
 #ifdef SUPPORT_64_BIT_LITERALS
   if (left_val < 0 || right_val < 0) fatal_error("Only small integers can be pasted");
 #endif
-  while (right_digits > 0) {
+  do { // 0 has one digit
     result *= 10;
     right_digits /= 10;
-  }
+  } while (right_digits > 0);
   return result + right_val;
 }
 
-// Support token pasting between identifiers and non-negative integers
+// Returns the list made of a copy of toks followed by rest
+int prepend_tokens(int toks, int rest) {
+  int result;
+  int tail;
+
+  if (toks == 0) return rest;
+
+  result = cons(car(toks), rest);
+  tail = result;
+  while (cdr(toks) != 0) {
+    toks = cdr(toks);
+    set_cdr(tail, cons(car(toks), rest));
+    tail = cdr(tail);
+  }
+  return result;
+}
+
+// Support token pasting between identifiers and non-negative integers.
+// The operands of ## are not macro expanded, the result of the pasting is.
+// macro_tok_lst starts with the ## token, and is not empty after it because
+// read_macro_tokens checked for trailing ##.
 void paste_tokens(int left_tok, int left_val) {
   int right_tok;
   int right_val;
-  expand_macro_arg = false;
-  get_tok_macro();
-  expand_macro_arg = true;
-  // We need to handle the case where the right-hand side is a macro argument that expands to empty
-  // In that case, the left-hand side is returned as is.
-  if (tok == MACRO_ARG) {
-    if (get_macro_arg(val) == 0) {
-      tok = left_tok;
-      val = left_val;
-      return;
-    } else {
-      begin_macro_expansion(0, get_macro_arg(val), 0); // Play the tokens of the macro argument
-      get_tok_macro();
-    }
+  int arg;
+  macro_tok_lst = cdr(macro_tok_lst); // Skip the ##
+  right_tok = car(car(macro_tok_lst));
+  right_val = cdr(car(macro_tok_lst));
+  macro_tok_lst = cdr(macro_tok_lst);
+  if (right_tok == MACRO_ARG) {
+    arg = get_macro_arg(right_val);
+    if (arg == 0) return; // The right-hand side is empty: the left-hand side is returned as is.
+    // Only the first token of the argument is pasted
+    right_tok = car(car(arg));
+    right_val = cdr(car(arg));
+    macro_tok_lst = prepend_tokens(cdr(arg), macro_tok_lst);
   }
-  right_tok = tok;
-  right_val = val;
+  if (right_tok >= IDENTIFIER) right_tok = heap[right_val + 2]; // Reload the kind
   if (left_tok == IDENTIFIER || left_tok == TYPE || left_tok == MACRO || left_tok <= WHILE_KW) {
     // Something that starts with an identifier can only be an identifier
     begin_string();
@@ -2129,25 +2145,14 @@ void get_tok() {
         if (tok >= IDENTIFIER) tok = heap[val + 2];
 
         // Check if the next token is ## for token pasting
-        if (macro_tok_lst != 0 && car(car(macro_tok_lst)) == HASH_HASH) {
-          if (tok == MACRO || tok == MACRO_ARG) {
-            // If the token is a macro or macro arg, it must be expanded before pasting
-            macro_tok_lst = cdr(macro_tok_lst); // We consume the ## token
-            paste_last_token = true;
-          } else {
-            // macro_tok_lst is not empty because read_macro_tokens checked for trailing ##
-            macro_tok_lst = cdr(macro_tok_lst); // Skip the ##
-            paste_tokens(tok, val);
-          }
-        } else if (macro_tok_lst == 0 && paste_last_token) { // We finished expanding the left-hand side of ##
-          if (macro_stack_ix == 0) {
-            // If we are not in a macro expansion, we can't paste the last token
-            // This should not happen if the macro is well-formed, which is
-            // checked by read_macro_tokens.
-            syntax_error("## cannot appear at the end of a macro expansion");
-          }
-          return_to_parent_macro();
-          paste_last_token = false; // We are done pasting
+        if (tok == MACRO_ARG && macro_tok_lst != 0 && car(car(macro_tok_lst)) == HASH_HASH) {
+          // The argument is not macro expanded, and its last token is pasted.
+          // If the argument is empty, what's right of the ## is left as is.
+          if (get_macro_arg(val) == 0) macro_tok_lst = cdr(macro_tok_lst);
+          else macro_tok_lst = prepend_tokens(get_macro_arg(val), macro_tok_lst);
+          continue;
+        }
+        while (macro_tok_lst != 0 && car(car(macro_tok_lst)) == HASH_HASH) {
           paste_tokens(tok, val);
         }
 
-- 
2.43.0


From e4884f2281fb08f11958ee6b350fbe1cbbc2c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 29/75] fix: the token after a function-like macro must not be
 expanded to find its arguments

---
 pnut.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pnut.c b/pnut.c
index dab04d2..ccbfee3 100644
--- a/pnut.c
+++ b/pnut.c
@@ -696,6 +696,8 @@ bool if_macro_executed = false; // If any of the previous if/elif conditions wer
 bool expand_macro = true;
 // Don't expand macro arguments. Used for stringification and token pasting.
 bool expand_macro_arg = true;
+// Don't expand the macros of the tokens being replayed. Used to look at the token after a macro.
+bool expand_replayed_macro = true;
 // Don't produce newline tokens. Used when reading the tokens of a macro definition.
 bool skip_newlines = true;
 
@@ -1936,11 +1938,22 @@ bool macro_is_already_expanding(int ident) {
 // Undoes the effect of get_tok by replacing the current token with the previous
 // token and saving the current token to be returned by the next call to get_tok.
 void undo_token(int prev_tok, int prev_val) {
-  begin_macro_expansion(0, cons(cons(tok, val), 0), 0); // Push the current token back
+  begin_macro_expansion(macro_ident, cons(cons(tok, val), 0), 0); // Push the current token back
   tok = prev_tok;
   val = prev_val;
 }
 
+// Like get_tok, but doesn't expand the token if it's a macro
+void get_tok_no_expand() {
+  bool prev_expand_macro = expand_macro;
+
+  expand_macro = false;
+  expand_replayed_macro = false;
+  get_tok();
+  expand_macro = prev_expand_macro;
+  expand_replayed_macro = true;
+}
+
 // Try to expand a macro and returns if the macro was expanded.
 // A macro is not expanded if it is already expanding or if it's a function-like
 // macro that is not called with parenthesis. In that case, the macro identifier
@@ -1967,7 +1980,7 @@ bool attempt_macro_expansion(int macro) {
     begin_macro_expansion(macro, tokens, 0);
     return true;
   } else { // Function-like macro
-    expect_tok(MACRO); // Skip macro identifier
+    get_tok_no_expand(); // Skip macro identifier
     if (tok == '(') {
       begin_macro_expansion(macro, tokens, get_macro_args_toks(macro));
       return true;
@@ -2156,7 +2169,7 @@ void get_tok() {
           paste_tokens(tok, val);
         }
 
-        if (tok == MACRO) { // Nested macro expansion!
+        if (tok == MACRO && expand_replayed_macro) { // Nested macro expansion!
           if (attempt_macro_expansion(val)) {
             continue;
           }
-- 
2.43.0


From bf5bfdd9a624e5ed6e683f6f9c73e4808e44ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 30/75] fix: expand the arguments of a macro independently from
 the macro, with self-references hidden

---
 debug.c |   2 +-
 pnut.c  | 259 ++++++++++++++++++++++++++++++++++++++------------------
 2 files changed, 178 insertions(+), 83 deletions(-)

diff --git a/debug.c b/debug.c
index 3bb7830..573ebc1 100644
--- a/debug.c
+++ b/debug.c
@@ -533,7 +533,7 @@ void print_macro_args(int args) {
   int arg;
   if (args != 0) {
     print_macro_args(cdr(args));
-    print_tokens(car(args));
+    print_tokens(car(car(args)));
     if (cdr(args) != 0) putchar(',');
   }
 }
diff --git a/pnut.c b/pnut.c
index ccbfee3..4a88134 100644
--- a/pnut.c
+++ b/pnut.c
@@ -250,6 +250,7 @@ enum {
   DECLS,
   FUN_DECL,
   CAST,
+  HIDDEN_MACRO = 498, // Macro that was not expanded because it was already being expanded
   MACRO_ARG = 499,
   IDENTIFIER = 500, // 500 because it's easy to remember
   TYPE = 501,
@@ -696,14 +697,18 @@ bool if_macro_executed = false; // If any of the previous if/elif conditions wer
 bool expand_macro = true;
 // Don't expand macro arguments. Used for stringification and token pasting.
 bool expand_macro_arg = true;
-// Don't expand the macros of the tokens being replayed. Used to look at the token after a macro.
+// Don't expand the macros of the tokens being replayed. Used to look at the token after a macro,
+// and to read the arguments of a macro.
 bool expand_replayed_macro = true;
+// Indicates if the current token is a macro that must never be expanded (see HIDDEN_MACRO).
+bool tok_is_hidden_macro = false;
 // Don't produce newline tokens. Used when reading the tokens of a macro definition.
 bool skip_newlines = true;
 
 #define MACRO_RECURSION_MAX 180 // Supports up to 60 (180 / 3) nested macro expansions.
 int macro_stack[MACRO_RECURSION_MAX];
 int macro_stack_ix = 0;
+int macro_stack_base = 0; // get_tok returns EOF when macro_stack_ix reaches it (used to expand macro arguments)
 
 int macro_tok_lst = 0;  // Current list of tokens to replay for the macro being expanded
 int macro_args = 0;     // Current list of arguments for the macro being expanded
@@ -1171,16 +1176,18 @@ void get_tok_macro() {
   skip_newlines = skip_newlines_prev;
 }
 
-// Like get_tok_macro, but skips newline
+// Like get_tok_macro, but skips newline and doesn't expand the macros of replayed tokens.
 // This is useful when we want to read the arguments of a macro expansion.
-void get_tok_macro_expand() {
+void get_tok_macro_arg() {
   bool prev_expand_macro = expand_macro;
   bool prev_macro_mask = if_macro_mask;
 
   expand_macro = false;
+  expand_replayed_macro = false;
   if_macro_mask = true;
   get_tok();
   expand_macro = prev_expand_macro;
+  expand_replayed_macro = true;
   if_macro_mask = prev_macro_mask;
 }
 
@@ -1813,10 +1820,104 @@ void init_pnut_macros() {
 
 }
 
+// "Pops" the current macro expansion and restores the previous macro expansion context.
+// This is done when the current macro expansion is done.
+void return_to_parent_macro() {
+  if (macro_stack_ix == 0) fatal_error("return_to_parent_macro: no parent macro");
+
+  macro_stack_ix -= 3;
+  macro_tok_lst   = macro_stack[macro_stack_ix];
+  macro_args      = macro_stack[macro_stack_ix + 1];
+  macro_ident     = macro_stack[macro_stack_ix + 2];
+}
+
+// Begins a new macro expansion context, saving the current context onn the macro stack.
+// Takes as argument the name of the macro, the tokens to be expanded and the arguments.
+void begin_macro_expansion(int ident, int tokens, int args) {
+  if (macro_stack_ix + 3 >= MACRO_RECURSION_MAX) {
+    fatal_error("Macro recursion depth exceeded.");
+  }
+
+  macro_stack[macro_stack_ix]     = macro_tok_lst;
+  macro_stack[macro_stack_ix + 1] = macro_args;
+  macro_stack[macro_stack_ix + 2] = macro_ident;
+  macro_stack_ix += 3;
+
+  macro_ident   = ident;
+  macro_tok_lst = tokens;
+  macro_args    = args;
+}
+
+// Macro arguments are expanded before the macro is, as described in
+// https://web.archive.org/web/20250328104901/https://gcc.gnu.org/onlinedocs/cpp/Macro-Arguments.html.
+#ifdef ALLOW_RECURSIVE_MACROS
+#define macro_is_already_expanding(ident) false
+#else
+// Search the macro stack to see if the macro is already expanding.
+bool macro_is_already_expanding(int ident) {
+  int i = macro_stack_ix;
+  if (ident == macro_ident)           return true;  // The same macro is already expanding
+
+  // Traverse the stack to see if the macro is already expanding
+  while (i > 0) {
+    i -= 3;
+    if (macro_stack[i + 2] == ident) return true;
+  }
+  return false;
+}
+#endif
+
+// The current token, as an element of a list of tokens to replay.
+int current_macro_token() {
+  return cons(tok_is_hidden_macro ? HIDDEN_MACRO : tok, val);
+}
+
+// Completely expand the tokens of a macro argument, as if they formed the rest of the file.
+int expand_macro_arg_toks(int toks) {
+  bool prev_macro_mask = if_macro_mask;
+  int prev_base = macro_stack_base;
+  int prev_tok = tok;
+  int prev_val = val;
+  int result = 0;
+  int tail = toks;
+
+  while (tail != 0) { // Does the argument contain something to expand?
+    if (car(car(tail)) >= IDENTIFIER && heap[cdr(car(tail)) + 2] == MACRO) break;
+    tail = cdr(tail);
+  }
+  if (tail == 0) return toks;
+
+  begin_macro_expansion(0, toks, 0);
+  macro_stack_base = macro_stack_ix;
+  if_macro_mask = true;
+
+  get_tok();
+  while (tok != EOF) {
+    if (result == 0) {
+      result = cons(current_macro_token(), 0);
+      tail = result;
+    } else {
+      set_cdr(tail, cons(current_macro_token(), 0));
+      tail = cdr(tail);
+    }
+    get_tok();
+  }
+
+  while (macro_stack_ix > macro_stack_base) return_to_parent_macro();
+  return_to_parent_macro();
+  macro_stack_base = prev_base;
+  if_macro_mask = prev_macro_mask;
+  tok = prev_tok;
+  val = prev_val;
+
+  return result;
+}
+
 // A macro argument is represented using a list of tokens.
 // Macro arguments are split by commas, but commas can also appear in function
 // calls and as operators. To distinguish between the two, we need to keep track
 // of the parenthesis depth.
+// The tokens are kept as they are written for # and ##.
 int macro_parse_argument() {
   int arg_tokens = 0;
   int parens_depth = 0;
@@ -1827,13 +1928,13 @@ int macro_parse_argument() {
     if (tok == ')') parens_depth -= 1; // End of parenthesis
 
     if (arg_tokens == 0) {
-      arg_tokens = cons(cons(tok, val), 0);
+      arg_tokens = cons(current_macro_token(), 0);
       tail = arg_tokens;
     } else {
-      set_cdr(tail, cons(cons(tok, val), 0));
+      set_cdr(tail, cons(current_macro_token(), 0));
       tail = cdr(tail);
     }
-    get_tok_macro_expand();
+    get_tok_macro_arg();
   }
 
   return arg_tokens;
@@ -1850,20 +1951,38 @@ void check_macro_arity(int macro_args_count, int macro) {
   }
 }
 
+// Whether a macro argument is used, other than as an operand of # or ##.
+bool is_macro_arg_expanded(int tokens, int ix) {
+  int prev_tok = 0;
+  while (tokens != 0) {
+    if (car(car(tokens)) == MACRO_ARG && cdr(car(tokens)) == ix
+     && prev_tok != '#' && prev_tok != HASH_HASH
+     && (cdr(tokens) == 0 || car(car(cdr(tokens))) != HASH_HASH)) {
+      return true;
+    }
+    prev_tok = car(car(tokens));
+    tokens = cdr(tokens);
+  }
+  return false;
+}
+
 // Reads the arguments of a macro call, where the arguments are split by commas.
 // Note that args are accumulated in reverse order, as the macro arguments refer
 // to the tokens in reverse order.
-int get_macro_args_toks(int macro) {
+int get_macro_args_toks(int macro, int tokens) {
   int args = 0;
   int macro_args_count = 0;
-  get_tok_macro_expand(); // Skip '('
+  int ix = 0;
+  int arg;
+  int expanded;
+  get_tok_macro_arg(); // Skip '('
 
   // Arguments can be empty, but () contains no argument if the macro has no parameters
   if (tok != ')' || cdr(heap[macro + 3]) != 0) {
     args = cons(macro_parse_argument(), 0);
     macro_args_count = 1;
     while (tok == ',') {
-      get_tok_macro_expand(); // Skip comma
+      get_tok_macro_arg(); // Skip comma
       args = cons(macro_parse_argument(), args);
       macro_args_count += 1;
     }
@@ -1873,9 +1992,19 @@ int get_macro_args_toks(int macro) {
 
   check_macro_arity(macro_args_count, macro);
 
+  arg = args;
+  while (arg != 0) {
+    expanded = 0;
+    if (is_macro_arg_expanded(tokens, ix)) expanded = expand_macro_arg_toks(car(arg));
+    set_car(arg, cons(car(arg), expanded));
+    arg = cdr(arg);
+    ix += 1;
+  }
+
   return args;
 }
 
+// Returns the pair of the tokens of a macro argument: as they are written, and expanded.
 int get_macro_arg(int ix) {
   int arg = macro_args;
   while (ix > 0) {
@@ -1886,74 +2015,15 @@ int get_macro_arg(int ix) {
   return car(arg);
 }
 
-// "Pops" the current macro expansion and restores the previous macro expansion context.
-// This is done when the current macro expansion is done.
-void return_to_parent_macro() {
-  if (macro_stack_ix == 0) fatal_error("return_to_parent_macro: no parent macro");
-
-  macro_stack_ix -= 3;
-  macro_tok_lst   = macro_stack[macro_stack_ix];
-  macro_args      = macro_stack[macro_stack_ix + 1];
-  macro_ident     = macro_stack[macro_stack_ix + 2];
-}
-
-// Begins a new macro expansion context, saving the current context onn the macro stack.
-// Takes as argument the name of the macro, the tokens to be expanded and the arguments.
-void begin_macro_expansion(int ident, int tokens, int args) {
-  if (macro_stack_ix + 3 >= MACRO_RECURSION_MAX) {
-    fatal_error("Macro recursion depth exceeded.");
-  }
-
-  macro_stack[macro_stack_ix]     = macro_tok_lst;
-  macro_stack[macro_stack_ix + 1] = macro_args;
-  macro_stack[macro_stack_ix + 2] = macro_ident;
-  macro_stack_ix += 3;
-
-  macro_ident   = ident;
-  macro_tok_lst = tokens;
-  macro_args    = args;
-}
-
-// The macro_is_already_expanding function is buggy and has false positives in
-// the repl example. Disable it until we rework macro argument expansion as
-// described in https://web.archive.org/web/20250328104901/https://gcc.gnu.org/onlinedocs/cpp/Macro-Arguments.html.
-#ifdef ALLOW_RECURSIVE_MACROS
-#define macro_is_already_expanding(ident) false
-#else
-// Search the macro stack to see if the macro is already expanding.
-bool macro_is_already_expanding(int ident) {
-  int i = macro_stack_ix;
-  if (ident == 0 || macro_ident == 0) return false; // Unnamed macro or no macro is expanding
-  if (ident == macro_ident)           return true;  // The same macro is already expanding
-
-  // Traverse the stack to see if the macro is already expanding
-  while (i > 0) {
-    i -= 3;
-    if (macro_stack[i + 2] == ident) return true;
-  }
-  return false;
-}
-#endif
-
 // Undoes the effect of get_tok by replacing the current token with the previous
 // token and saving the current token to be returned by the next call to get_tok.
 void undo_token(int prev_tok, int prev_val) {
-  begin_macro_expansion(macro_ident, cons(cons(tok, val), 0), 0); // Push the current token back
+  begin_macro_expansion(macro_ident, cons(current_macro_token(), 0), 0); // Push the current token back
+  tok_is_hidden_macro = false;
   tok = prev_tok;
   val = prev_val;
 }
 
-// Like get_tok, but doesn't expand the token if it's a macro
-void get_tok_no_expand() {
-  bool prev_expand_macro = expand_macro;
-
-  expand_macro = false;
-  expand_replayed_macro = false;
-  get_tok();
-  expand_macro = prev_expand_macro;
-  expand_replayed_macro = true;
-}
-
 // Try to expand a macro and returns if the macro was expanded.
 // A macro is not expanded if it is already expanding or if it's a function-like
 // macro that is not called with parenthesis. In that case, the macro identifier
@@ -1964,6 +2034,7 @@ bool attempt_macro_expansion(int macro) {
   int tokens = car(heap[macro + 3]);
 
   if (macro_is_already_expanding(macro)) { // Self referencing macro
+    tok_is_hidden_macro = true;
     tok = IDENTIFIER;
     val = macro;
     return false;
@@ -1980,9 +2051,9 @@ bool attempt_macro_expansion(int macro) {
     begin_macro_expansion(macro, tokens, 0);
     return true;
   } else { // Function-like macro
-    get_tok_no_expand(); // Skip macro identifier
+    get_tok_macro_arg(); // Skip macro identifier
     if (tok == '(') {
-      begin_macro_expansion(macro, tokens, get_macro_args_toks(macro));
+      begin_macro_expansion(macro, tokens, get_macro_args_toks(macro, tokens));
       return true;
     } else {
       undo_token(IDENTIFIER, macro);
@@ -2001,10 +2072,10 @@ void stringify() {
     putstr("tok="); putint(tok); putchar('\n');
     syntax_error("expected macro argument after #");
   }
-  arg = get_macro_arg(val);
+  arg = car(get_macro_arg(val)); // The tokens as they are written
   tok = STRING;
   // Support the case where the argument is a single identifier/macro/keyword token
-  if ((car(car(arg)) == IDENTIFIER || car(car(arg)) == MACRO || (AUTO_KW <= car(car(arg)) && car(car(arg)) <= WHILE_KW)) && cdr(arg) == 0) {
+  if ((car(car(arg)) == IDENTIFIER || car(car(arg)) == MACRO || car(car(arg)) == HIDDEN_MACRO || (AUTO_KW <= car(car(arg)) && car(car(arg)) <= WHILE_KW)) && cdr(arg) == 0) {
     val = cdr(car(arg)); // Use the identifier probe
   } else {
     val = NOT_SUPPORTED_ID; // Return string "NOT_SUPPORTED"
@@ -2043,6 +2114,18 @@ int prepend_tokens(int toks, int rest) {
   return result;
 }
 
+// Skips the ## that follows an empty argument, at the start of macro_tok_lst.
+void skip_empty_paste_operand() {
+  int next_tok;
+  macro_tok_lst = cdr(macro_tok_lst); // Skip the ##
+  next_tok = car(macro_tok_lst);
+  // The right operand is not macro expanded. If it's also followed by ##, the
+  // next iteration takes care of it.
+  if (car(next_tok) == MACRO_ARG && (cdr(macro_tok_lst) == 0 || car(car(cdr(macro_tok_lst))) != HASH_HASH)) {
+    macro_tok_lst = prepend_tokens(car(get_macro_arg(cdr(next_tok))), cdr(macro_tok_lst));
+  }
+}
+
 // Support token pasting between identifiers and non-negative integers.
 // The operands of ## are not macro expanded, the result of the pasting is.
 // macro_tok_lst starts with the ## token, and is not empty after it because
@@ -2056,14 +2139,14 @@ void paste_tokens(int left_tok, int left_val) {
   right_val = cdr(car(macro_tok_lst));
   macro_tok_lst = cdr(macro_tok_lst);
   if (right_tok == MACRO_ARG) {
-    arg = get_macro_arg(right_val);
+    arg = car(get_macro_arg(right_val)); // The tokens as they are written
     if (arg == 0) return; // The right-hand side is empty: the left-hand side is returned as is.
     // Only the first token of the argument is pasted
     right_tok = car(car(arg));
     right_val = cdr(car(arg));
     macro_tok_lst = prepend_tokens(cdr(arg), macro_tok_lst);
   }
-  if (right_tok >= IDENTIFIER) right_tok = heap[right_val + 2]; // Reload the kind
+  if (right_tok == HIDDEN_MACRO || right_tok >= IDENTIFIER) right_tok = heap[right_val + 2]; // Reload the kind
   if (left_tok == IDENTIFIER || left_tok == TYPE || left_tok == MACRO || left_tok <= WHILE_KW) {
     // Something that starts with an identifier can only be an identifier
     begin_string();
@@ -2145,6 +2228,7 @@ void get_tok() {
 #endif
 
     while (1) {
+      tok_is_hidden_macro = false;
       // Check if there are any tokens to replay. Macros are just identifiers that
       // have been marked as macros. In terms of how we get into that state, a
       // macro token is first returned by the get_ident call a few lines below.
@@ -2155,36 +2239,47 @@ void get_tok() {
         // Tokens that are identifiers and up are tokens whose kind can change
         // between the moment the macro is defined and where it is used.
         // So we reload the kind from the ident table.
-        if (tok >= IDENTIFIER) tok = heap[val + 2];
+        tok_is_hidden_macro = tok == HIDDEN_MACRO;
+        if (tok == HIDDEN_MACRO || tok >= IDENTIFIER) tok = heap[val + 2];
 
         // Check if the next token is ## for token pasting
         if (tok == MACRO_ARG && macro_tok_lst != 0 && car(car(macro_tok_lst)) == HASH_HASH) {
           // The argument is not macro expanded, and its last token is pasted.
           // If the argument is empty, what's right of the ## is left as is.
-          if (get_macro_arg(val) == 0) macro_tok_lst = cdr(macro_tok_lst);
-          else macro_tok_lst = prepend_tokens(get_macro_arg(val), macro_tok_lst);
+          if (car(get_macro_arg(val)) == 0) skip_empty_paste_operand();
+          else macro_tok_lst = prepend_tokens(car(get_macro_arg(val)), macro_tok_lst);
           continue;
         }
         while (macro_tok_lst != 0 && car(car(macro_tok_lst)) == HASH_HASH) {
           paste_tokens(tok, val);
+          tok_is_hidden_macro = false;
         }
 
-        if (tok == MACRO && expand_replayed_macro) { // Nested macro expansion!
+        if (tok == MACRO && tok_is_hidden_macro) {
+          tok = IDENTIFIER;
+          break;
+        } else if (tok == MACRO && !expand_replayed_macro) {
+          tok_is_hidden_macro = macro_is_already_expanding(val);
+          break;
+        } else if (tok == MACRO) { // Nested macro expansion!
           if (attempt_macro_expansion(val)) {
             continue;
           }
           break;
         } else if (tok == MACRO_ARG && expand_macro_arg) {
-          begin_macro_expansion(0, get_macro_arg(val), 0); // Play the tokens of the macro argument
+          begin_macro_expansion(0, cdr(get_macro_arg(val)), 0); // Play the tokens of the macro argument
           continue;
         } else if (tok == '#') { // Stringizing!
           stringify();
           break;
         }
         break;
-      } else if (macro_stack_ix != 0) {
+      } else if (macro_stack_ix != macro_stack_base) {
         return_to_parent_macro();
         continue;
+      } else if (macro_stack_base != 0) { // End of the macro argument being expanded
+        tok = EOF;
+        break;
       } else if (ch <= ' ') {
 
         if (ch == EOF) {
-- 
2.43.0


From 78061a69be70e9076a43e44de4294e94a6d16e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 31/75] fix: __LINE__ and __FILE__ at the end of lines and
 files, and text after the name of an included file

---
 pnut.c | 51 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/pnut.c b/pnut.c
index 4a88134..a7f49a9 100644
--- a/pnut.c
+++ b/pnut.c
@@ -309,6 +309,7 @@ void syntax_error(char *msg) {
 // tokenizer
 
 int ch;
+int last_ch; // The character before ch
 #ifdef DEBUG_EXPAND_INCLUDES
 int prev_ch = EOF;
 #endif
@@ -833,11 +834,14 @@ void get_ch_() {
 #else
 void get_ch() {
 #endif
+  last_ch = ch;
   ch = fgetc(fp);
 
-  if (ch == EOF) {
-    // If it's not the last file on the stack, EOF means that we need to switch to the next file
-    if (include_stack->next != 0) {
+  if (ch == EOF && include_stack->next != 0) {
+    // EOF is treated as a newline so that files without a newline at the end are still parsed correctly.
+    // If it's not the last file on the stack, EOF means that we need to switch to the next file,
+    // but only once the newline was read because it's still part of the file.
+    if (last_ch == '\n') {
       fclose(include_stack->fp);
       include_stack2 = include_stack;
       include_stack = include_stack->next;
@@ -850,10 +854,15 @@ void get_ch() {
       // Not freeing include_stack2->filepath because it may not be dynamically allocated
       free(include_stack2->dirname);
       free(include_stack2);
-      // EOF is treated as a newline so that files without a newline at the end are still parsed correctly
-      // On the next get_ch call, the first character of the next file will be read
-      ch = '\n';
     }
+#ifdef INCLUDE_LINE_NUMBER_ON_ERROR
+    else {
+      line_number += 1;
+      column_number = 0;
+    }
+#endif
+    // On the next get_ch call, the first character of the next file will be read
+    ch = '\n';
   }
 #ifdef INCLUDE_LINE_NUMBER_ON_ERROR
   else if (ch == '\n') {
@@ -1426,8 +1435,34 @@ int evaluate_if_condition() {
   return eval_constant(expr, true);
 }
 
+// Read the rest of the line of an #include directive, so that ch is a newline
+// when switching to the included file.
+void skip_rest_of_include_directive() {
+  while (ch != '\n' && ch != EOF) {
+    if (ch == '/') {
+      get_ch();
+      if (ch == '/') {
+        while (ch != '\n' && ch != EOF) get_ch();
+      } else if (ch == '*') {
+        get_ch();
+        last_ch = 0;
+        while (ch != EOF && !(last_ch == '*' && ch == '/')) get_ch();
+        get_ch();
+      } else {
+        syntax_error("preprocessor expected end of line");
+      }
+    } else if (ch <= ' ') {
+      get_ch();
+    } else {
+      syntax_error("preprocessor expected end of line");
+    }
+  }
+  if (ch == EOF) ch = '\n'; // The last line of the file doesn't end with a newline
+}
+
 void handle_include() {
   if (tok == STRING) {
+    skip_rest_of_include_directive();
     include_file(STRING_BUF(val), include_stack->dirname);
 #ifdef DEBUG_EXPAND_INCLUDES
     // When running pnut in "expand includes" mode, we want to annotate the
@@ -1442,6 +1477,7 @@ void handle_include() {
     // #include <file> directives only take effect if the search path is provided
     // TODO: Issue a warning to stderr when skipping the directive
     if (include_search_path != 0) {
+      skip_rest_of_include_directive();
       include_file(STRING_BUF(val), include_search_path);
     }
     get_tok_macro(); // Skip the string
@@ -2045,7 +2081,8 @@ bool attempt_macro_expansion(int macro) {
     }
 #ifdef INCLUDE_LINE_NUMBER_ON_ERROR
     else if (macro == LINE__ID) {
-      tokens = cons(cons(INTEGER, -line_number), 0);
+      // ch is the character after the macro, line_number already counts it if it's a newline
+      tokens = cons(cons(INTEGER, (ch == '\n') - line_number), 0);
     }
 #endif
     begin_macro_expansion(macro, tokens, 0);
-- 
2.43.0


From 2d1c727066aa85a15f4850f1b32e506c576a61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 32/75] fix: report unterminated conditionals instead of
 looping

---
 pnut.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pnut.c b/pnut.c
index a7f49a9..930b9b9 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2684,6 +2684,9 @@ void get_tok() {
         }
       }
     }
+    if (tok == EOF && if_macro_stack_ix != 0 && macro_stack_base == 0) {
+      syntax_error("unterminated #if");
+    }
   } while (!if_macro_mask);
 
 #ifdef SH_INCLUDE_C_CODE
-- 
2.43.0


From 150bec345f4aa71b476a84663d609dc2e41c6d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 33/75] fix: sh: getchar returned 256 after empty lines and
 lines of 16, 32... characters with OPTIMIZE_LONG_LINES

---
 sh-runtime.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sh-runtime.c b/sh-runtime.c
index df3da6e..e1c90f7 100644
--- a/sh-runtime.c
+++ b/sh-runtime.c
@@ -525,9 +525,8 @@ DEPENDS_ON(char_to_int)
 #ifdef OPTIMIZE_LONG_LINES
   putstr("__stdin_buf16=\n");
   putstr("__stdin_buf256=\n");
-  putstr("__stdin_end=1\n");
   putstr("_getchar() {\n");
-  putstr("  if [ -z \"$__stdin_buf16\" ] && [ $__stdin_end -eq 1 ] ; then          # need to get next line when buffer empty\n");
+  putstr("  if [ -z \"$__stdin_buf16\" ] && [ -z \"$__stdin_buf256\" ] && [ -z \"$__stdin_buf\" ]; then # need to get next line when buffers empty\n");
 #else
   putstr("_getchar() {\n");
   putstr("  if [ -z \"$__stdin_buf\" ]; then          # need to get next line when buffer empty\n");
@@ -537,9 +536,6 @@ DEPENDS_ON(char_to_int)
   putstr("      __stdin_line_ending=0                  # Reset line ending for next getchar call\n");
   putstr("      return\n");
   putstr("    fi\n");
-#ifdef OPTIMIZE_LONG_LINES
-  putstr("    __stdin_end=0\n");
-#endif
   putstr("    IFS=                                            # don't split input\n");
   putstr("    if read -r __stdin_buf ; then                   # read next line into $__stdin_buf\n");
   putstr("      if [ -z \"$__stdin_buf\" ] ; then               # an empty line implies a newline character\n");
@@ -558,7 +554,7 @@ DEPENDS_ON(char_to_int)
   putstr("  fi\n");
 #ifdef OPTIMIZE_LONG_LINES
   extract_line_head("  ", "__stdin_buf256", "__stdin_buf", ANY_STRING_256, "256", "")
-  extract_line_head("  ", "__stdin_buf16", "__stdin_buf256", ANY_STRING_16, "16", "      __stdin_end=1\n")
+  extract_line_head("  ", "__stdin_buf16", "__stdin_buf256", ANY_STRING_16, "16", "")
   extract_first_char("", "__stdin_buf16", "$1")
   putstr("  __stdin_buf16=${__stdin_buf16#?}  # Remove the first character\n");
 #else
-- 
2.43.0


From 6eb69601ef125bcefb91069796c24e65dc7fb929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 34/75] fix: sh: getchar and fgetc shared a buffer with
 OPTIMIZE_LONG_LINES

---
 sh-runtime.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sh-runtime.c b/sh-runtime.c
index e1c90f7..1f4dfb6 100644
--- a/sh-runtime.c
+++ b/sh-runtime.c
@@ -524,9 +524,9 @@ DEPENDS_ON(char_to_int)
   putstr("__stdin_line_ending=0 # Line ending, either -1 (EOF) or 10 ('\\n')\n");
 #ifdef OPTIMIZE_LONG_LINES
   putstr("__stdin_buf16=\n");
-  putstr("__stdin_buf256=\n");
+  putstr("__getchar_buf256=\n");
   putstr("_getchar() {\n");
-  putstr("  if [ -z \"$__stdin_buf16\" ] && [ -z \"$__stdin_buf256\" ] && [ -z \"$__stdin_buf\" ]; then # need to get next line when buffers empty\n");
+  putstr("  if [ -z \"$__stdin_buf16\" ] && [ -z \"$__getchar_buf256\" ] && [ -z \"$__stdin_buf\" ]; then # need to get next line when buffers empty\n");
 #else
   putstr("_getchar() {\n");
   putstr("  if [ -z \"$__stdin_buf\" ]; then          # need to get next line when buffer empty\n");
@@ -553,8 +553,8 @@ DEPENDS_ON(char_to_int)
   putstr("    fi\n");
   putstr("  fi\n");
 #ifdef OPTIMIZE_LONG_LINES
-  extract_line_head("  ", "__stdin_buf256", "__stdin_buf", ANY_STRING_256, "256", "")
-  extract_line_head("  ", "__stdin_buf16", "__stdin_buf256", ANY_STRING_16, "16", "")
+  extract_line_head("  ", "__getchar_buf256", "__stdin_buf", ANY_STRING_256, "256", "")
+  extract_line_head("  ", "__stdin_buf16", "__getchar_buf256", ANY_STRING_16, "16", "")
   extract_first_char("", "__stdin_buf16", "$1")
   putstr("  __stdin_buf16=${__stdin_buf16#?}  # Remove the first character\n");
 #else
-- 
2.43.0


From b4b0edce514527f68307dab1e2c75a0e73ef7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 35/75] fix: sh: printf with only a format printed %% as is

---
 sh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 84e7a1c..adff8df 100644
--- a/sh.c
+++ b/sh.c
@@ -1778,7 +1778,8 @@ text comp_fun_call_code(ast node, ast assign_to) {
     if (((name_id == PUTS_ID || name_id == PUTSTR_ID || name_id == PRINTF_ID)
         && (param = list_singleton(params)) != 0
         && get_op(param) == STRING)) { // puts("..."), putstr("..."), printf("...")
-      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, true);
+      // The string of printf is a format, where % is already escaped
+      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, name_id != PRINTF_ID);
     } else if (name_id == PRINTF_ID && params != 0 && get_op(car(params)) == STRING) { // printf("...", ...)
       handle_printf_call(STRING_BUF(get_val_(STRING, car(params))), tail(params));
       return 0;
-- 
2.43.0


From 40ecd18200f27a0bec495cf000ab793e47a1158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:09 +0000
Subject: [PATCH 36/75] fix: sh: a struct that is only declared redefined its
 size

---
 sh.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index adff8df..6f64958 100644
--- a/sh.c
+++ b/sh.c
@@ -2514,7 +2514,10 @@ void handle_enum_struct_union_type_decl(ast type) {
   if (get_op(type) == ENUM_KW) {
     comp_enum_cases(get_child_opt_(ENUM_KW, IDENTIFIER, type, 1), get_child_(ENUM_KW, type, 2));
   } else if (get_op(type) == STRUCT_KW) {
-    comp_struct(get_child_opt_(STRUCT_KW, IDENTIFIER, type, 1), get_child_(STRUCT_KW, type, 2));
+    // Forward declarations and references have no members
+    if (get_child_opt_(STRUCT_KW, LIST, type, 2) != 0) {
+      comp_struct(get_child_opt_(STRUCT_KW, IDENTIFIER, type, 1), get_child_(STRUCT_KW, type, 2));
+    }
   } else if (get_op(type) == UNION_KW) {
     fatal_error("handle_enum_struct_union_type_decl: union not supported");
   }
-- 
2.43.0


From 1ae032e384c6725c21d06a00b27d366a6dbf50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:16 +0000
Subject: [PATCH 37/75] fix: sh: an assignment of a call evaluated its left
 hand side twice

---
 sh.c | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 6f64958..3fd2dad 100644
--- a/sh.c
+++ b/sh.c
@@ -909,6 +909,44 @@ ast conditional_fun_calls_tail = 0;
 ast literals_inits = 0;
 bool contains_side_effects = 0;
 
+// Does the expression only depend on local variables, so that it has the same
+// value before and after a function call?
+bool is_local_expr(ast node) {
+  int op = get_op(node);
+
+  if (op == IDENTIFIER) {
+    return cgc_lookup_var(get_val_(IDENTIFIER, node), cgc_locals) != 0;
+  } else if (op == INTEGER || op == INTEGER_HEX || op == INTEGER_OCT || op == CHARACTER) {
+    return true;
+  } else if (op == PARENS) {
+    return is_local_expr(get_child_(PARENS, node, 0));
+  } else if (op == '+' || op == '-') {
+    if (get_nb_children(node) == 2 && !is_local_expr(get_child(node, 1))) return false;
+    return is_local_expr(get_child(node, 0));
+  } else {
+    return false;
+  }
+}
+
+// Can the left hand side of an assignment be evaluated a second time, after the
+// function call that assigns it, to get the value assigned?
+bool is_stable_lvalue(ast node) {
+  int op = get_op(node);
+
+  if (op == IDENTIFIER) {
+    return true;
+  } else if (op == '[') {
+    if (!is_local_expr(get_child_('[', node, 1))) return false;
+    return is_local_expr(get_child_('[', node, 0));
+  } else if (op == ARROW) {
+    return is_local_expr(get_child_(ARROW, node, 0));
+  } else if (op == '*') {
+    return is_local_expr(get_child_('*', node, 0));
+  } else {
+    return false;
+  }
+}
+
 ast handle_fun_call_side_effect(ast node, ast assign_to, bool executes_conditionally) {
   int start_gensym_ix = gensym_ix;
   ast sub1;
@@ -1000,7 +1038,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
       return handle_fun_call_side_effect(node, 0, executes_conditionally);
     } else if (op == '=') {
       contains_side_effects = true;
-      if (get_op(child1) == '(') { // Function call
+      if (get_op(child1) == '(' && is_stable_lvalue(child0)) { // Function call
         // In that case, we reuse the left hand side of the assignment as the result location
         return handle_fun_call_side_effect(child1, child0, executes_conditionally);
       } else {
-- 
2.43.0


From 16b53cfd580ca32d8caf701ad26f4baeadcf7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 38/75] fix: sh: parenthesize the addresses of elements and
 members under tighter operators

---
 sh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 3fd2dad..3dfc126 100644
--- a/sh.c
+++ b/sh.c
@@ -1369,7 +1369,8 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         return 0;
       }
     } else if (op == '&') {
-      return wrap_if_needed(false, context, test_side_effects, comp_lvalue_address(child0), outer_op, op);
+      // The address of an element or a member is a sum
+      return wrap_if_needed(binds_tighter_than_sum(outer_op), context, test_side_effects, comp_lvalue_address(child0), outer_op, op);
     } else {
       printf("op=%d %c", op, op);
       fatal_error("comp_rvalue_go: unexpected operator");
-- 
2.43.0


From 37a8f46d6f0cf1022b60d194f529ed56ae8ba46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 39/75] fix: sh: the l modifier of printf isn't supported by
 all shells

---
 sh.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sh.c b/sh.c
index 3dfc126..4d8a876 100644
--- a/sh.c
+++ b/sh.c
@@ -1636,13 +1636,13 @@ text comp_putchar_inline(ast param) {
 
 #ifdef SH_AVOID_PRINTF_USE
 // format_str is from the string pool so immutable
-text printf_call(char *format_str, char *format_str_end, text params_text, bool escape) {
-  if (format_str == format_str_end) {
+text printf_call(text format_prefix, char *format_str, char *format_str_end, text params_text, bool escape) {
+  if (format_prefix == 0 && format_str == format_str_end) {
     return 0;
   } else {
     // Some shells interpret leading - as options. In that case, we add -- in front of the format string.
-    return string_concat3(wrap_str_lit(format_str[0] == '-' ? "printf -- \"" : "printf \""),
-                          escape_text(wrap_str_imm(format_str, format_str_end), escape),
+    return string_concat3(wrap_str_lit(format_prefix == 0 && format_str[0] == '-' ? "printf -- \"" : "printf \""),
+                          string_concat(format_prefix, escape_text(wrap_str_imm(format_str, format_str_end), escape)),
                           concatenate_strings_with(wrap_char('\"'), params_text, wrap_char(' '))
                           );
   }
@@ -1665,6 +1665,7 @@ void handle_printf_call(char *format_str, ast params) {
   char *specifier_start;
   // compiled parameters to be passed to printf
   text params_text = 0, width_text = 0, precision_text = 0;
+  text format_prefix = 0; // Part of the format that comes before format_start
 
   bool mod = false;
   bool has_width = false;
@@ -1727,7 +1728,12 @@ void handle_printf_call(char *format_str, ast params) {
         // The following options are the same between the shell's printf and C's printf
         case 'l': case 'd': case 'i': case 'o': case 'u': case 'x': case 'X':
           if (*format_str == 'l') {
+            // Not all shells support the 'l' modifier, so it is removed from the format
+            append_glo_decl(printf_call(format_prefix, format_start, specifier_start, params_text, false));
+            params_text = 0;
+            format_prefix = escape_text(wrap_str_imm(specifier_start, format_str), false);
             while (*format_str == 'l') format_str += 1; // Skip the 'l' for long
+            format_start = format_str;
             if (*format_str != 'd' && *format_str != 'i' && *format_str != 'o' && *format_str != 'u' && *format_str != 'x' && *format_str != 'X') {
               printf("*format_str=%c%c\n", *(format_str - 1), *format_str);
               fatal_error("Invalid printf format: Unsupported long specifier");
@@ -1751,7 +1757,8 @@ void handle_printf_call(char *format_str, ast params) {
           // TODO: Find way to support width that's not too verbose
           if (has_width)   fatal_error("Width not supported for %c");
           // Generate printf call with what we have so far
-          append_glo_decl(printf_call(format_start, specifier_start, params_text, false));
+          append_glo_decl(printf_call(format_prefix, format_start, specifier_start, params_text, false));
+          format_prefix = 0;
           // New format string starts after the %
           format_start = format_str + 1;
           // Generate the printf call for the character
@@ -1773,7 +1780,8 @@ void handle_printf_call(char *format_str, ast params) {
             params_text = concatenate_strings_with(params_text, string_concat3(wrap_str_lit("\"$(_put_pstr __ "), comp_rvalue(param, RVALUE_CTX_BASE), wrap_str_lit(")\"")), wrap_char(' ')); // Add the parameter
           } else {
             // Generate printf call with what we have so far
-            append_glo_decl(printf_call(format_start, specifier_start, params_text, false));
+            append_glo_decl(printf_call(format_prefix, format_start, specifier_start, params_text, false));
+            format_prefix = 0;
             // New format string starts after the %
             format_start = format_str + 1;
             // Compile printf("...%s...", str) to _put_pstr str
@@ -1801,7 +1809,7 @@ void handle_printf_call(char *format_str, ast params) {
   }
 
   // Dump the remaining format string
-  append_glo_decl(printf_call(format_start, format_str, params_text, false));
+  append_glo_decl(printf_call(format_prefix, format_start, format_str, params_text, false));
 }
 #endif
 
@@ -1818,7 +1826,7 @@ text comp_fun_call_code(ast node, ast assign_to) {
         && (param = list_singleton(params)) != 0
         && get_op(param) == STRING)) { // puts("..."), putstr("..."), printf("...")
       // The string of printf is a format, where % is already escaped
-      return printf_call(STRING_BUF(get_val_(STRING, param)), 0, 0, name_id != PRINTF_ID);
+      return printf_call(0, STRING_BUF(get_val_(STRING, param)), 0, 0, name_id != PRINTF_ID);
     } else if (name_id == PRINTF_ID && params != 0 && get_op(car(params)) == STRING) { // printf("...", ...)
       handle_printf_call(STRING_BUF(get_val_(STRING, car(params))), tail(params));
       return 0;
-- 
2.43.0


From e4d7212badd1b41ec4e567294653e55e1cb08c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 40/75] fix: sh: printf passed the parameters preceding %s
 twice

---
 sh.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sh.c b/sh.c
index 4d8a876..c6ab1eb 100644
--- a/sh.c
+++ b/sh.c
@@ -1668,6 +1668,7 @@ void handle_printf_call(char *format_str, ast params) {
   text format_prefix = 0; // Part of the format that comes before format_start
 
   bool mod = false;
+  bool params_consumed = false; // Whether the parameters were passed to a previous printf call
   bool has_width = false;
   bool has_precision = false;
 
@@ -1786,6 +1787,7 @@ void handle_printf_call(char *format_str, ast params) {
             format_start = format_str + 1;
             // Compile printf("...%s...", str) to _put_pstr str
             append_glo_decl(string_concat(wrap_str_lit("_put_pstr __ "), comp_rvalue(param, RVALUE_CTX_BASE)));
+            params_consumed = true;
           }
           param = 0; // Consume param
           mod = false;
@@ -1799,6 +1801,9 @@ void handle_printf_call(char *format_str, ast params) {
     } else if (*format_str == '%') {
       mod = true;
       specifier_start = format_str;
+      // The parameters of the previous printf call must not be passed again
+      if (params_consumed) params_text = 0;
+      params_consumed = false;
       // Reset the state machine
       width_text = precision_text = has_width = has_precision = 0;
       state = PRINTF_STATE_FLAGS;
-- 
2.43.0


From 8d1dd1367f9124c44e14f55e5ab95eb947e8b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 41/75] fix: sh: printf ignored an empty precision of %s

---
 sh.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sh.c b/sh.c
index c6ab1eb..67d3d85 100644
--- a/sh.c
+++ b/sh.c
@@ -1705,6 +1705,7 @@ void handle_printf_call(char *format_str, ast params) {
         case '.':
           if (state >= PRINTF_STATE_PRECISION) fatal_error("Invalid printf format: precision already specified");
           state = PRINTF_STATE_PRECISION;
+          has_precision = true; // A missing number means 0
           break;
 
         case '*':
-- 
2.43.0


From 5817b04751aa214a1c62074443da87e600b4940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:45 +0000
Subject: [PATCH 42/75] fix: an identifier with hash 0 overwrote the empty AST
 node

---
 pnut.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 930b9b9..d84a895 100644
--- a/pnut.c
+++ b/pnut.c
@@ -327,7 +327,8 @@ int hash;
 #define HASH_PRIME 1009
 #define HEAP_SIZE 2000000
 intptr_t heap[HEAP_SIZE];
-int heap_alloc = HASH_PRIME;
+// The hash table is in heap[1..HASH_PRIME], heap[0] stays 0 because 0 is the empty AST node
+int heap_alloc = HASH_PRIME + 1;
 
 int alloc_result;
 
@@ -641,6 +642,7 @@ int end_ident() {
   string_pool[string_pool_alloc] = 0; // terminate string
   string_pool_alloc += 1; // account for terminator
 
+  hash += 1; // heap[0] isn't part of the hash table
   probe = heap[hash];
 
   while (probe != 0) {
@@ -1650,7 +1652,7 @@ void init_ident_table() {
 
   int i = 0;
 
-  while (i < HASH_PRIME) {
+  while (i <= HASH_PRIME) {
     heap[i] = 0;
     i += 1;
   }
-- 
2.43.0


From 213114230c44c242ddddca32f6ca402a4b96adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:01 +0000
Subject: [PATCH 43/75] fix: sh: character constants in global initializers
 were used before their definition

---
 sh.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sh.c b/sh.c
index 67d3d85..d7e187d 100644
--- a/sh.c
+++ b/sh.c
@@ -354,6 +354,7 @@ ast rest_loc_var_fixups = 0;    // rest_loc_vars call to fixup after compiling a
 bool main_defined = false;      // If the main function is defined
 bool main_returns = false;      // If the main function returns a value
 bool top_level_stmt = true;     // If the current statement is at the top level
+bool in_glo_initializer = false; // If compiling a global initializer, evaluated before the character constants are defined
 
 // Internal identifier node types. These
 enum IDENTIFIER_TYPE {
@@ -1297,7 +1298,10 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
 #ifdef SH_INLINE_CHAR_LITERAL
       return wrap_in_condition_if_needed(context, test_side_effects, wrap_int(get_val_(CHARACTER, node)));
 #else
-      if (context == RVALUE_CTX_ARITH_EXPANSION) {
+      // Character identifiers are only defined at the end of the script
+      if (in_glo_initializer) {
+        return wrap_in_condition_if_needed(context, test_side_effects, wrap_int(get_val_(CHARACTER, node)));
+      } else if (context == RVALUE_CTX_ARITH_EXPANSION) {
         return character_ident(get_val_(CHARACTER, node));
       } else {
         return wrap_in_condition_if_needed(context, test_side_effects, string_concat(wrap_char('$'), character_ident(get_val_(CHARACTER, node))));
@@ -2468,6 +2472,7 @@ void comp_glo_var_decl(ast node) {
   } else {
 #ifdef SUPPORT_ADDRESS_OF_OP
     runtime_defglo();
+    in_glo_initializer = true;
     append_glo_decl(
       string_concat4(
         wrap_str_lit("defglo "),
@@ -2476,9 +2481,12 @@ void comp_glo_var_decl(ast node) {
         comp_rvalue(init, VALUE_CTX_BASE)
       )
     );
+    in_glo_initializer = false;
 #else
     if (init == 0) init = new_ast0(INTEGER, 0);
+    in_glo_initializer = true;
     comp_assignment(name, init);
+    in_glo_initializer = false;
 #endif
   }
 }
-- 
2.43.0


From 637dd4c0e4e503b3d962edd0b290112a522c8e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:41 +0000
Subject: [PATCH 44/75] fix: sh: negative enumerators following a hexadecimal
 one were not negative

---
 pnut.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index d84a895..66e1105 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2892,7 +2892,9 @@ ast parse_enum() {
         // literal type to determine which type to use when creating a new node.
         value = non_parenthesized_operand(value);
         if (get_op(value) != INTEGER && get_op(value) != INTEGER_HEX && get_op(value) != INTEGER_OCT) {
-          value = new_ast0(last_literal_type, -eval_constant(value, false));
+          next_value = -eval_constant(value, false);
+          // Negative values can't be written in hexadecimal
+          value = new_ast0(next_value > 0 ? INTEGER : last_literal_type, next_value);
         }
         last_literal_type = get_op(value);
 #else
@@ -2900,7 +2902,7 @@ ast parse_enum() {
 #endif
         next_value = get_val(value) - 1; // Next value is the current value + 1, but val is negative
       } else {
-        value = new_ast0(last_literal_type, next_value);
+        value = new_ast0(next_value > 0 ? INTEGER : last_literal_type, next_value);
         next_value -= 1;
       }
 
-- 
2.43.0


From 57fb7d569fe697c11e331bc12c29dee6342ea153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 45/75] fix: x64: literals just above INT_MAX had a spurious
 bit 32

---
 pnut.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pnut.c b/pnut.c
index 66e1105..90d2eae 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1006,8 +1006,9 @@ void u64_mul_u32(int *x, int y) {
 // x = x + y
 void u64_add_u32(int *x, int y) {
   int lo = x[0] + y;
-  // Carry (using signed integers)
-  x[1] += ((x[0] < 0) != (lo < 0));
+  // Carry (using signed integers): y is small and not negative so the unsigned sum
+  // overflows exactly when the sign bit goes from 1 to 0.
+  x[1] += (x[0] < 0 && lo >= 0);
   x[0] = lo;
 }
 
-- 
2.43.0


From 51252def37dce410a9cdaf841f6cb33ec60ac3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 46/75] fix: exe: integer promotions and conversions of mixed
 types

---
 exe.c | 166 +++++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 131 insertions(+), 35 deletions(-)

diff --git a/exe.c b/exe.c
index 039a440..7debc23 100644
--- a/exe.c
+++ b/exe.c
@@ -532,8 +532,13 @@ void def_goto_label(int lbl) {
   }
 }
 
+ast fun_return_type; // Return type of the current function
 ast int_type;
 ast uint_type;
+#ifdef SUPPORT_64_BIT_LITERALS
+ast long_type;
+ast ulong_type;
+#endif
 ast char_type;
 ast string_type;
 ast void_type;
@@ -821,6 +826,30 @@ int resolve_identifier(int ident_probe) {
   return 0;
 }
 
+// Type of an operand after the integer promotions
+ast promoted_type(ast type) {
+  switch (get_op(type)) {
+    case CHAR_KW:
+    case SHORT_KW:
+    case ENUM_KW:
+      return int_type;
+    default:
+      return type;
+  }
+}
+
+// Type of the result of an operation on two numbers after the usual arithmetic
+// conversions: the wider type, or the unsigned one if both have the same width.
+ast arithmetic_type(ast left_type, ast right_type) {
+  int left_width, right_width;
+  left_type = promoted_type(left_type);
+  right_type = promoted_type(right_type);
+  left_width = type_width(left_type, false, false);
+  right_width = type_width(right_type, false, false);
+  if (left_width == right_width) return is_signed_numeric_type(left_type) ? right_type : left_type;
+  return left_width > right_width ? left_type : right_type;
+}
+
 // Compute the type of an expression
 ast value_type(ast node) {
   int op = get_op(node);
@@ -834,6 +863,13 @@ ast value_type(ast node) {
 
   if (nb_children == 0) {
 #ifdef PARSE_NUMERIC_LITERAL_SUFFIX
+#ifdef SUPPORT_64_BIT_LITERALS
+    if (op == INTEGER_LL || ((op == INTEGER || op == INTEGER_L) && get_val(node) > 0)) {
+      return long_type; // Does not fit in an int
+    } else if (op == INTEGER_ULL || ((op == INTEGER_U || op == INTEGER_UL) && get_val(node) > 0 && heap[get_val(node) + 1] != 0)) {
+      return ulong_type;
+    }
+#endif
     if (op == INTEGER || op == INTEGER_L || op == INTEGER_LL) {
       return int_type;
     } else if (op == INTEGER_U || op == INTEGER_UL || op == INTEGER_ULL) {
@@ -845,7 +881,7 @@ ast value_type(ast node) {
     }
 #endif
     else if (op == CHARACTER) {
-      return char_type;
+      return int_type;
     } else if (op == STRING) {
       return string_type;
     } else if (op == IDENTIFIER) {
@@ -888,7 +924,9 @@ ast value_type(ast node) {
       return pointer_type(left_type, false);
     } else if (op == '!') {
       return int_type; // Logical not always returns an integer
-    } else if (op == '+' || op == '-' || op == '~' || op == MINUS_MINUS || op == PLUS_PLUS || op == MINUS_MINUS_POST || op == PLUS_PLUS_POST || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PARENS) {
+    } else if (op == '+' || op == '-' || op == '~') {
+      return promoted_type(value_type(child0));
+    } else if (op == MINUS_MINUS || op == PLUS_PLUS || op == MINUS_MINUS_POST || op == PLUS_PLUS_POST || op == PLUS_PLUS_PRE || op == MINUS_MINUS_PRE || op == PARENS) {
       // Unary operation don't change the type
       return value_type(child0);
     } else if (op == SIZEOF_KW) {
@@ -910,9 +948,13 @@ ast value_type(ast node) {
       } else if (is_pointer_type(left_type)) {
         // if left is an array or a pointer, the type is also a pointer
         return left_type;
-      } else {
+      } else if (!is_numeric_type(left_type) || !is_numeric_type(right_type)) {
         // if left is not a pointer, the type is the type of the right operand
         return right_type;
+      } else if (op == LSHIFT || op == RSHIFT) {
+        return promoted_type(left_type);
+      } else {
+        return arithmetic_type(left_type, right_type);
       }
     } else if (op == '<' || op == '>' || op == EQ_EQ || op == EXCL_EQ || op == LT_EQ || op == GT_EQ) {
       return int_type; // Comparison always returns an integer
@@ -936,19 +978,12 @@ ast value_type(ast node) {
       return value_type(child0); // Only the left side is relevant here
     } else if (op == AMP_AMP || op == BAR_BAR) {
       // TODO: Check that the operands have compatible types?
-      return value_type(child0);
+      return int_type;
     } else if (op == '(') {
-      binding = cgc_lookup_fun(get_val_(IDENTIFIER, child0), cgc_globals);
-      if (binding != 0) {
-        // heap[binding+5] is the '(' type
-        return get_child_('(', heap[binding+5], 0);
-      } else {
-        putstr("ident = ");
-        putstr(STRING_BUF(get_val_(IDENTIFIER, child0)));
-        putchar('\n');
-        fatal_error("value_type: function not found");
-        return -1;
-      }
+      left_type = value_type(child0);
+      if (get_op(left_type) == '*') left_type = get_child_('*', left_type, 1); // Dereference function pointer
+      if (get_op(left_type) != '(') fatal_error("value_type: called object is not a function or function pointer");
+      return get_child_('(', left_type, 0);
     } else if (op == '.') {
       left_type = value_type(child0);
       if (is_struct_or_union_type(left_type)) {
@@ -976,8 +1011,11 @@ ast value_type(ast node) {
   } else if (nb_children == 3) {
 
     if (op == '?') {
-      // We assume that the 2 cases have the same type.
-      return value_type(child1);
+      left_type = value_type(child1);
+      right_type = value_type(get_child(node, 2));
+      if (!is_numeric_type(left_type)) return left_type;
+      if (!is_numeric_type(right_type)) return right_type; // The other one is a null pointer
+      return arithmetic_type(left_type, right_type);
     } else {
       putstr("op="); putint(op); putchar('\n');
       fatal_error("value_type: unknown expression with 3 children");
@@ -991,6 +1029,41 @@ ast value_type(ast node) {
   }
 }
 
+// Does the value of a number in a register change when converted to another type?
+// True if the type is narrower than the width of the value (or of the same width
+// with a different signedness), and for unsigned types narrower than a word if
+// the value may be negative.
+bool is_conversion_needed(ast to, ast from) {
+  int to_width = type_width(to, false, false);
+  int from_width = type_width(from, false, false);
+  bool to_signed = is_signed_numeric_type(to);
+  bool from_signed = is_signed_numeric_type(from);
+
+  if (to_width < from_width) return true;
+  if (to_width >= WORD_SIZE) return false;
+  if (to_width == from_width) return to_signed != from_signed;
+  return from_signed && !to_signed;
+}
+
+// Convert the value on the top of the stack by reading it back with the width of
+// the type, sign extending it if necessary.
+void codegen_convert(ast to, ast from) {
+  if (is_conversion_needed(to, from)) {
+    load_mem_location(reg_X, reg_SP, 0, type_width(to, false, false), is_signed_numeric_type(to));
+    grow_stack(-1);
+    push_reg(reg_X);
+  }
+}
+
+// Same, for a value in a register
+void codegen_convert_reg(int reg, ast to, ast from) {
+  if (is_conversion_needed(to, from)) {
+    push_reg(reg);
+    load_mem_location(reg, reg_SP, 0, type_width(to, false, false), is_signed_numeric_type(to));
+    grow_stack(-1);
+  }
+}
+
 void codegen_binop(int op, ast lhs, ast rhs) {
 
   int lbl1;
@@ -1001,13 +1074,23 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   bool left_is_numeric = is_numeric_type(left_type);
   bool right_is_numeric = is_numeric_type(right_type);
   int width;
-  // If any of the operands is unsigned, the result is unsigned
-  bool is_signed = false;
-  if (is_signed_numeric_type(left_type) && is_signed_numeric_type(right_type)) is_signed = true;
+  bool is_signed = true;
+  ast type = int_type; // Type of the operation if both operands are numbers
 
   pop_reg(reg_Y); // rhs operand
   pop_reg(reg_X); // lhs operand
 
+  if (left_is_numeric && right_is_numeric && op != ',') {
+    if (op == LSHIFT || op == LSHIFT_EQ || op == RSHIFT || op == RSHIFT_EQ) {
+      type = promoted_type(left_type);
+    } else {
+      type = arithmetic_type(left_type, right_type);
+      codegen_convert_reg(reg_Y, type, right_type);
+    }
+    codegen_convert_reg(reg_X, type, left_type);
+    is_signed = is_signed_numeric_type(type);
+  }
+
   if      (op == '<')     cond = is_signed ? LT : LT_U;
   else if (op == '>')     cond = is_signed ? GT : GT_U;
   else if (op == LT_EQ)   cond = is_signed ? LE : LE_U;
@@ -1115,6 +1198,9 @@ void codegen_binop(int op, ast lhs, ast rhs) {
     fatal_error("codegen_binop: unknown op");
   }
 
+  // Unsigned results that are narrower than a word wrap around
+  if (cond == -1) codegen_convert_reg(reg_X, type, int_type);
+
   push_reg(reg_X);
 }
 
@@ -1474,6 +1560,7 @@ void codegen_rvalue(ast node) {
       xor_reg_reg(reg_X, reg_X);
       sub_reg_reg(reg_X, reg_Y);
       push_reg(reg_X);
+      codegen_convert(value_type(node), int_type);
     } else if (op == '~') {
       codegen_rvalue(child0);
       pop_reg(reg_Y);
@@ -1481,6 +1568,7 @@ void codegen_rvalue(ast node) {
       mov_reg_imm(reg_X, -1);
       xor_reg_reg(reg_X, reg_Y);
       push_reg(reg_X);
+      codegen_convert(value_type(node), int_type);
     } else if (op == '!') {
       xor_reg_reg(reg_X, reg_X);
       push_reg(reg_X);
@@ -1516,6 +1604,7 @@ void codegen_rvalue(ast node) {
       grow_fs(-1);
       write_mem_location(reg_Y, 0, reg_X, left_width); // store the result in the address
       push_reg(reg_X);
+      codegen_convert(value_type(child0), promoted_type(value_type(child0)));
     } else if (op == '&') {
       codegen_lvalue(child0);
       grow_fs(-1);
@@ -1555,6 +1644,9 @@ void codegen_rvalue(ast node) {
         write_mem_location(reg_Y, 0, reg_X, left_width);
       }
       push_reg(reg_X);
+      // The value of the assignment is the value stored in the object, except for
+      // chars so (c = fgetc(f)) != EOF can be used to read any character.
+      if (is_numeric_type(type1) && get_op(type1) != CHAR_KW) codegen_convert(type1, value_type(child1));
     } else if (op == AMP_EQ || op == BAR_EQ || op == CARET_EQ || op == LSHIFT_EQ || op == MINUS_EQ || op == PERCENT_EQ || op == PLUS_EQ || op == RSHIFT_EQ || op == SLASH_EQ || op == STAR_EQ) {
       left_width = codegen_lvalue(child0);
       pop_reg(reg_Y);
@@ -1569,6 +1661,12 @@ void codegen_rvalue(ast node) {
       grow_fs(-3);
       write_mem_location(reg_Y, 0, reg_X, left_width);
       push_reg(reg_X);
+      type1 = value_type(child0);
+      if (is_numeric_type(type1)) {
+        type2 = promoted_type(type1);
+        if (op != LSHIFT_EQ && op != RSHIFT_EQ) type2 = arithmetic_type(type1, value_type(child1));
+        codegen_convert(type1, type2);
+      }
     } else if (op == AMP_AMP || op == BAR_BAR) {
       lbl1 = alloc_label(0);
       codegen_rvalue(child0);
@@ -1629,19 +1727,8 @@ void codegen_rvalue(ast node) {
       }
     } else if (op == CAST) {
       codegen_rvalue(child1);
-      // If the cast is to a value narrower than the width of the value (or of the
-      // same width with a different signedness), we need to truncate the value.
-      // This is done by writing the value to the stack and then reading it back,
-      // sign extending it if necessary.
-      child0 = get_child_(DECL, child0, 1); // child 1 of cast is the type
-      type1 = value_type(child1);
-      if (type_width(child0, false, false) < type_width(type1, false, false)
-       || (type_width(child0, false, false) == type_width(type1, false, false)
-           && is_signed_numeric_type(child0) != is_signed_numeric_type(type1))) {
-        load_mem_location(reg_X, reg_SP, 0, type_width(child0, false, false), is_signed_numeric_type(child0));
-        grow_stack(-1);
-        push_reg(reg_X);
-      }
+      // child 1 of cast is the type
+      codegen_convert(get_child_(DECL, child0, 1), value_type(child1));
       grow_fs(-1); // grow_fs(1) is called by codegen_rvalue and at the end of the function
     } else {
       fatal_error("codegen_rvalue: unknown rvalue with 2 children");
@@ -1657,11 +1744,14 @@ void codegen_rvalue(ast node) {
       grow_fs(-1);
       xor_reg_reg(reg_Y, reg_Y);
       jump_cond_reg_reg(EQ, lbl1, reg_X, reg_Y);
+      type1 = value_type(node);
       codegen_rvalue(child1); // value when true
+      if (is_numeric_type(type1)) codegen_convert(type1, value_type(child1));
       jump(lbl2);
       def_label(lbl1);
       grow_fs(-1); // here, the child#1 is not on the stack, so we adjust it
       codegen_rvalue(get_child(node, 2)); // value when false
+      if (is_numeric_type(type1)) codegen_convert(type1, value_type(get_child(node, 2)));
       grow_fs(-1); // grow_fs(1) is called by codegen_rvalue and at the end of the function
       def_label(lbl2);
     } else {
@@ -1690,6 +1780,10 @@ void codegen_begin() {
 
   int_type = new_ast0(INT_KW, 0);
   uint_type = new_ast0(INT_KW, MK_TYPE_SPECIFIER(UNSIGNED_KW));
+#ifdef SUPPORT_64_BIT_LITERALS
+  long_type = new_ast0(LONG_KW, 0);
+  ulong_type = new_ast0(LONG_KW, MK_TYPE_SPECIFIER(UNSIGNED_KW));
+#endif
   char_type = new_ast0(CHAR_KW, 0);
   string_type = pointer_type(new_ast0(CHAR_KW, 0), false);
   void_type = new_ast0(VOID_KW, 0);
@@ -1724,7 +1818,7 @@ void codegen_begin() {
   cgc_add_global_fun(init_ident(IDENTIFIER, "putchar"), putchar_lbl, function_type1(void_type, char_type));
 
   getchar_lbl = alloc_label("getchar");
-  cgc_add_global_fun(init_ident(IDENTIFIER, "getchar"), getchar_lbl, function_type(char_type, 0));
+  cgc_add_global_fun(init_ident(IDENTIFIER, "getchar"), getchar_lbl, function_type(int_type, 0));
 
   fopen_lbl = alloc_label("fopen");
   cgc_add_global_fun(init_ident(IDENTIFIER, "fopen"), fopen_lbl, function_type2(int_type, string_type, string_type));
@@ -2339,6 +2433,7 @@ void codegen_statement(ast node) {
 
     if (get_child_(RETURN_KW, node, 0) != 0) {
       codegen_rvalue(get_child_(RETURN_KW, node, 0));
+      if (is_numeric_type(fun_return_type)) codegen_convert(fun_return_type, value_type(get_child_(RETURN_KW, node, 0)));
       pop_reg(reg_X);
       grow_fs(-1);
     }
@@ -2401,10 +2496,11 @@ void codegen_glo_fun_decl(ast node) {
   ast name_probe = get_val_(IDENTIFIER, get_child__(DECL, IDENTIFIER, decl, 0));
   ast fun_type = get_child__(DECL, '(', decl, 1);
   ast params = get_child_opt_('(', LIST, fun_type, 1);
-  ast fun_return_type = get_child_('(', fun_type, 0);
   int binding;
   int save_locals_fun = cgc_locals_fun;
 
+  fun_return_type = get_child_('(', fun_type, 0);
+
   if (is_aggregate_type(fun_return_type)) {
     fatal_error("Returning arrays or structs from function not supported");
   }
-- 
2.43.0


From 91f7c7c78c71b2d2dda1612b1dd16c24635638ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:27 +0000
Subject: [PATCH 47/75] fix: exe: copying a struct into an initialized object
 could write after its end

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 7debc23..b1bccd7 100644
--- a/exe.c
+++ b/exe.c
@@ -2027,7 +2027,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
         codegen_lvalue(init);
         pop_reg(reg_X);
         grow_fs(-1);
-        copy_obj(base_reg, offset, reg_X, 0, type_width(type, true, true));
+        copy_obj(base_reg, offset, reg_X, 0, type_width(type, true, false));
       } else if (get_op(type) != '[') {
         codegen_rvalue(init);
         pop_reg(reg_X);
-- 
2.43.0


From 5dceb3e991a7b3845047bf3776847c176159fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:27 +0000
Subject: [PATCH 48/75] fix: exe: too many initializers for a struct were
 silently ignored

---
 exe.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exe.c b/exe.c
index b1bccd7..cafa815 100644
--- a/exe.c
+++ b/exe.c
@@ -1986,6 +1986,10 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
             members = tail(members);
           }
 
+          if (init != 0) {
+            fatal_error("codegen_initializer: too many elements in initializer list");
+          }
+
           // Initialize rest of the members to 0
           while (local && members != 0) {
             inner_type = get_child_(DECL, car_(DECL, members), 1);
-- 
2.43.0


From 9887acf6737f2632e3a7ad96adb7232c9b7df0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:27 +0000
Subject: [PATCH 49/75] fix: exe: members of anonymous structs in unions were
 all at the start of the union

---
 exe.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/exe.c b/exe.c
index cafa815..1d81efb 100644
--- a/exe.c
+++ b/exe.c
@@ -1389,10 +1389,7 @@ int codegen_lvalue(ast node) {
       if (is_struct_or_union_type(type)) {
         codegen_lvalue(child0);
         pop_reg(reg_X);
-        // union members are at the same offset: 0
-        if (get_op(type) == STRUCT_KW) {
-          add_reg_imm(reg_X, struct_member_offset(type, child1));
-        }
+        add_reg_imm(reg_X, struct_member_offset(type, child1));
         push_reg(reg_X);
         grow_fs(-1);
         lvalue_width = type_width(get_child_(DECL, struct_member(type, child1), 1), true, false); // child 1 of member is the type
@@ -1406,10 +1403,7 @@ int codegen_lvalue(ast node) {
         type = get_child_('*', type, 1);
         codegen_rvalue(child0);
         pop_reg(reg_X);
-        // union members are at the same offset: 0
-        if (get_op(type) == STRUCT_KW) {
-          add_reg_imm(reg_X, struct_member_offset(type, child1));
-        }
+        add_reg_imm(reg_X, struct_member_offset(type, child1));
         push_reg(reg_X);
         grow_fs(-1);
         lvalue_width = type_width(get_child_(DECL, struct_member(type, child1), 1), true, false); // child 1 of member is the type
@@ -1695,10 +1689,7 @@ void codegen_rvalue(ast node) {
         codegen_lvalue(child0);
         pop_reg(reg_Y);
         grow_fs(-1);
-        // union members are at the same offset: 0
-        if (get_op(type1) == STRUCT_KW) {
-          add_reg_imm(reg_Y, struct_member_offset(type1, child1));
-        }
+        add_reg_imm(reg_Y, struct_member_offset(type1, child1));
         if (!is_aggregate_type(type2)) {
           load_mem_location(reg_Y, reg_Y, 0, type_width(type2, false, false), is_signed_numeric_type(type2));
         }
@@ -1714,10 +1705,7 @@ void codegen_rvalue(ast node) {
         codegen_rvalue(child0);
         pop_reg(reg_Y);
         grow_fs(-1);
-        // union members are at the same offset: 0
-        if (get_op(type1) == STRUCT_KW) {
-          add_reg_imm(reg_Y, struct_member_offset(type1, child1));
-        }
+        add_reg_imm(reg_Y, struct_member_offset(type1, child1));
         if (!is_aggregate_type(type2)) {
           load_mem_location(reg_Y, reg_Y, 0, type_width(type2, false, false), is_signed_numeric_type(type2));
         }
-- 
2.43.0


From 77d7857f51335fe590045bc67424ca2a51ab7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:27 +0000
Subject: [PATCH 50/75] fix: exe: union initializers were refused in safe mode

---
 exe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 1d81efb..6571dec 100644
--- a/exe.c
+++ b/exe.c
@@ -1990,7 +1990,7 @@ void codegen_initializer(bool local, ast init, ast type, int base_reg, int offse
           break;
 
         case UNION_KW:
-          members = get_child_(STRUCT_KW, type, 2);
+          members = get_child_(UNION_KW, type, 2);
           if (tail(init) != 0) {
             fatal_error("codegen_initializer: union initializer list has more than one element");
           } else if (members == 0) {
-- 
2.43.0


From fd58662d4c3c3e5361fdb908098d0518df1f73b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:27 +0000
Subject: [PATCH 51/75] fix: exe: arrays of arrays were used as arrays of
 pointers

---
 exe.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/exe.c b/exe.c
index 6571dec..5aca0c7 100644
--- a/exe.c
+++ b/exe.c
@@ -664,7 +664,7 @@ int type_width(ast type, bool array_value, bool word_align) {
 
 // Width of an object pointed to by a reference type.
 ast ref_type_width(ast type) {
-  return type_width(dereference_type(type), false, false);
+  return type_width(dereference_type(type), true, false);
 }
 
 // Structs, enums and unions types come in 2 variants:
@@ -1073,9 +1073,9 @@ void codegen_binop(int op, ast lhs, ast rhs) {
   ast right_type = value_type(rhs);
   bool left_is_numeric = is_numeric_type(left_type);
   bool right_is_numeric = is_numeric_type(right_type);
-  int width;
   bool is_signed = true;
   ast type = int_type; // Type of the operation if both operands are numbers
+  ast elem_type;
 
   pop_reg(reg_Y); // rhs operand
   pop_reg(reg_X); // lhs operand
@@ -1180,19 +1180,20 @@ void codegen_binop(int op, ast lhs, ast rhs) {
     // Same as pointer addition for address calculation
     if (is_pointer_type(left_type) && is_not_pointer_type(right_type)) {
       mul_for_pointer_arith(reg_Y, ref_type_width(left_type));
-      width = ref_type_width(left_type);
-      is_signed = is_signed_numeric_type(dereference_type(left_type));
+      elem_type = dereference_type(left_type);
     } else if (is_pointer_type(right_type) && is_not_pointer_type(left_type)) {
       mul_for_pointer_arith(reg_X, ref_type_width(right_type));
-      width = ref_type_width(right_type);
-      is_signed = is_signed_numeric_type(dereference_type(right_type));
+      elem_type = dereference_type(right_type);
     } else {
       fatal_error("codegen_binop: invalid array access operands");
       return;
     }
 
     add_reg_reg(reg_X, reg_Y);
-    load_mem_location(reg_X, reg_X, 0, width, is_signed);
+    // Arrays decay to a pointer to their first element
+    if (!is_aggregate_type(elem_type)) {
+      load_mem_location(reg_X, reg_X, 0, type_width(elem_type, false, false), is_signed_numeric_type(elem_type));
+    }
   } else {
     putstr("op="); putint(op); putchar('\n');
     fatal_error("codegen_binop: unknown op");
@@ -1539,7 +1540,11 @@ void codegen_rvalue(ast node) {
       if (is_function_type(type1)) {
       } else if (is_pointer_type(type1)) {
         pop_reg(reg_X);
-        load_mem_location(reg_X, reg_X, 0, ref_type_width(type1), is_signed_numeric_type(dereference_type(type1)));
+        type2 = dereference_type(type1);
+        // Arrays decay to a pointer to their first element
+        if (!is_aggregate_type(type2)) {
+          load_mem_location(reg_X, reg_X, 0, ref_type_width(type1), is_signed_numeric_type(type2));
+        }
         push_reg(reg_X);
       } else {
         fatal_error("codegen_rvalue: non-pointer is being dereferenced with *");
-- 
2.43.0


From 330605795d313c6ddda48260d80c2ee88b01a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:28 +0000
Subject: [PATCH 52/75] fix: a directive after a comment at the beginning of
 its line was not recognized

---
 pnut.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pnut.c b/pnut.c
index 90d2eae..a7a26f5 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2248,6 +2248,8 @@ void paste_tokens(int left_tok, int left_val) {
 
 void get_tok() {
 
+  int prev_tok; // The token before a comment
+
 #ifdef SH_INCLUDE_C_CODE
   int prev_char_buf_ix = code_char_buf_ix;
   // Save the cursor in a local variable so we can restore it when the token is
@@ -2469,6 +2471,7 @@ void get_tok() {
 
       } else {
 
+        prev_tok = tok;
         tok = ch; // fallback for single char tokens
 
         if (ch == '/') {
@@ -2485,6 +2488,12 @@ void get_tok() {
               syntax_error("unterminated comment");
             }
             get_ch();
+            tok = 0;
+            if (prev_tok == '\n') {
+              // A # that follows a comment at the start of a line is still the first of its line
+              while (ch == ' ' || ch == '\t') get_ch();
+              tok = '\n';
+            }
             // will continue while (1) loop
           } else if (ch == '/') {
             while (ch != '\n' && ch != EOF) {
-- 
2.43.0


From 24a55c150ff8e999b13b41071891f5bb898615b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:33 +0000
Subject: [PATCH 53/75] fix: exe: the exit status was undefined when main ended
 without return

---
 exe.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exe.c b/exe.c
index 5aca0c7..b64ba15 100644
--- a/exe.c
+++ b/exe.c
@@ -2534,6 +2534,7 @@ void codegen_glo_fun_decl(ast node) {
   grow_stack(-cgc_fs);
   cgc_fs = 0;
 
+  if (name_probe == MAIN_ID) mov_reg_imm(reg_X, 0); // Reaching the end of main returns 0
   ret();
 
   cgc_locals_fun = save_locals_fun;
-- 
2.43.0


From ad1f605df6be122497cfd52a85f8e54c4e925a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 54/75] fix: sh: putchar returned 0, and did not convert its
 argument to unsigned char

---
 sh-runtime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sh-runtime.c b/sh-runtime.c
index 1f4dfb6..c340655 100644
--- a/sh-runtime.c
+++ b/sh-runtime.c
@@ -513,8 +513,8 @@ END_RUNTIME_FUN(exit)
 // Input / output
 DEFINE_RUNTIME_FUN(putchar)
   putstr("_putchar() {\n");
-  putstr("  : $(($1 = 0)); shift # Return 0\n");
-  putstr("  printf \\\\$(($1/64))$(($1/8%8))$(($1%8))\n");
+  putstr("  : $(($1 = $2 & 255)) # Return the character\n");
+  putstr("  printf \\\\$(($2>>6&3))$(($2>>3&7))$(($2&7))\n");
   putstr("}\n");
 END_RUNTIME_FUN(putchar)
 
-- 
2.43.0


From bf5324e05fc2c35d1eaefbbfbdbe26f71900129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:51 +0000
Subject: [PATCH 55/75] fix: exe: putchar returned its argument without
 converting it to unsigned char

---
 exe.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exe.c b/exe.c
index b64ba15..827dd54 100644
--- a/exe.c
+++ b/exe.c
@@ -1808,7 +1808,7 @@ void codegen_begin() {
 
 #ifndef NO_BUILTIN_LIBC
   putchar_lbl = alloc_label("putchar");
-  cgc_add_global_fun(init_ident(IDENTIFIER, "putchar"), putchar_lbl, function_type1(void_type, char_type));
+  cgc_add_global_fun(init_ident(IDENTIFIER, "putchar"), putchar_lbl, function_type1(int_type, int_type));
 
   getchar_lbl = alloc_label("getchar");
   cgc_add_global_fun(init_ident(IDENTIFIER, "getchar"), getchar_lbl, function_type(int_type, 0));
@@ -2752,7 +2752,7 @@ void codegen_end() {
 #ifndef NO_BUILTIN_LIBC
   // putchar function
   def_label(putchar_lbl);
-  mov_reg_mem(reg_X, reg_SP, WORD_SIZE);
+  mov_reg_mem8(reg_X, reg_SP, WORD_SIZE); // Converted to unsigned char
   rt_putchar();
   ret();
 
-- 
2.43.0


From 5b3683d001e0dd5bf709f5f111b9b5b5c2e8a35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 56/75] fix: sh: calls through pointers and names of functions
 used as values were miscompiled

---
 pnut.c |  3 ++-
 sh.c   | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pnut.c b/pnut.c
index a7a26f5..4fc2cfa 100644
--- a/pnut.c
+++ b/pnut.c
@@ -665,7 +665,7 @@ int end_ident() {
 
   // a new ident has been found
 
-  probe = alloc_obj(5);
+  probe = alloc_obj(6);
 
   heap[hash] = probe; // add new ident at end of chain
 
@@ -674,6 +674,7 @@ int end_ident() {
   heap[probe+2] = IDENTIFIER;
   heap[probe+3] = 0; // Token tag
   heap[probe+4] = string_pool_alloc - string_start - 1; // string length (excluding terminator)
+  heap[probe+5] = 0; // Whether a function has this name (shell backend)
 
   return probe;
 }
diff --git a/sh.c b/sh.c
index d7e187d..546f681 100644
--- a/sh.c
+++ b/sh.c
@@ -526,6 +526,10 @@ text env_var_with_prefix(ast ident, ast prefixed_with_dollar) {
         return wrap_str_pool(get_val_(IDENTIFIER, ident));
       }
     } else {
+      if (heap[get_val_(IDENTIFIER, ident) + 5]) {
+        printf("\"%s\" ", STRING_BUF(get_val_(IDENTIFIER, ident)));
+        fatal_error("function pointers are not supported in shell backend");
+      }
       return global_var(get_val_(IDENTIFIER, ident));
     }
   } else {
@@ -1824,12 +1828,17 @@ void handle_printf_call(char *format_str, ast params) {
 #endif
 
 text comp_fun_call_code(ast node, ast assign_to) {
-  ast name = get_child__('(', IDENTIFIER, node, 0);
+  ast name = non_parenthesized_operand(get_child_('(', node, 0));
   ast params = get_child_('(', node, 1);
-  int name_id = get_val_(IDENTIFIER, name);
+  int name_id;
   ast param;
   text res;
 
+  if (get_op(name) != IDENTIFIER || cgc_lookup_var(get_val_(IDENTIFIER, name), cgc_locals)) {
+    fatal_error("function pointers are not supported in shell backend");
+  }
+  name_id = get_val_(IDENTIFIER, name);
+
 #ifdef SH_AVOID_PRINTF_USE
   if (get_op(assign_to) == IDENTIFIER_EMPTY) {
     if (((name_id == PUTS_ID || name_id == PUTSTR_ID || name_id == PRINTF_ID)
@@ -2326,6 +2335,8 @@ void comp_glo_fun_decl(ast node) {
   int save_loc_vars_fixup;
   int start_glo_decl_idx;
 
+  heap[name_probe + 5] = true;
+
   if (body == -1) return; // ignore forward declarations
 
   top_level_stmt = false;
-- 
2.43.0


From cacb35d5bdc5c94d0fa577437ed5b639bf190ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 57/75] fix: the struct of a typedef of a pointer type was not
 declared

---
 pnut.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 4fc2cfa..c8f8e9d 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2809,7 +2809,7 @@ ast get_type_specifier(ast type_or_decl) {
         type_or_decl = get_child_('[', type_or_decl, 0);
         break;
       case '*':
-        type_or_decl = get_child_('*', type_or_decl, 0);
+        type_or_decl = get_child_('*', type_or_decl, 1);
         break;
       default:
         return type_or_decl;
-- 
2.43.0


From c62fd79e23318e6a6873f947f2e9f61cbe5f1207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 58/75] fix: sh: types defined in the declaration of a variable
 were not declared

---
 sh.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/sh.c b/sh.c
index 546f681..830ed3e 100644
--- a/sh.c
+++ b/sh.c
@@ -2214,6 +2214,17 @@ bool comp_return(ast return_value) {
   return true;
 }
 
+// Does the type specifier have the members of the struct or union, or the values of the enum?
+bool is_type_definition(ast type) {
+  switch (get_op(type)) {
+    case ENUM_KW:
+    case STRUCT_KW:
+    case UNION_KW:
+      return get_child(type, 2) != 0;
+  }
+  return false;
+}
+
 void comp_var_decls(ast node) {
   ast var_decl;
 
@@ -2225,6 +2236,9 @@ void comp_var_decls(ast node) {
       break;
   }
   node = get_child_opt_(DECLS, LIST, node, 0);
+  if (is_type_definition(get_type_specifier(car_(DECL, node)))) {
+    fatal_error("type definitions are not supported in functions");
+  }
   while (node != 0) {
     // Add to local env and cummulative env, then initialize
     var_decl = car_(DECL, node);
@@ -2427,9 +2441,6 @@ void comp_glo_var_decl(ast node) {
 
   if (get_op(type) == '(') return; // Ignore function declarations
 
-  // TODO: Add enum/struct/union to env if it's not already there
-  // handle_enum_struct_union_type_decl(type);
-
   assert_var_decl_is_safe(node, false);
 
   if (get_op(type) == '[') { // Array declaration
@@ -2585,10 +2596,12 @@ void comp_struct(ast ident, ast members) {
 void handle_enum_struct_union_type_decl(ast type) {
   if (get_op(type) == ENUM_KW) {
     comp_enum_cases(get_child_opt_(ENUM_KW, IDENTIFIER, type, 1), get_child_(ENUM_KW, type, 2));
+    set_child(type, 2, 0); // The declarations that use the type don't declare it again
   } else if (get_op(type) == STRUCT_KW) {
     // Forward declarations and references have no members
     if (get_child_opt_(STRUCT_KW, LIST, type, 2) != 0) {
       comp_struct(get_child_opt_(STRUCT_KW, IDENTIFIER, type, 1), get_child_(STRUCT_KW, type, 2));
+      set_child(type, 2, 0);
     }
   } else if (get_op(type) == UNION_KW) {
     fatal_error("handle_enum_struct_union_type_decl: union not supported");
@@ -2617,6 +2630,7 @@ void handle_typedef(ast node) {
 //   - struct declarations
 void comp_glo_decl(ast node) {
   ast declarations;
+  ast type;
   int op = get_op(node);
   fun_gensym_ix = 0;
 
@@ -2630,6 +2644,8 @@ void comp_glo_decl(ast node) {
     // translation unit.
     if (get_child_(DECLS, node, 1) == EXTERN_KW) fatal_error("Extern storage class specifier not supported");
     declarations = get_child__(DECLS, LIST, node, 0);
+    type = get_type_specifier(car_(DECL, declarations));
+    if (is_type_definition(type)) handle_enum_struct_union_type_decl(type);
     while (declarations != 0) { // Multiple variable declarations
       comp_glo_var_decl(car_(DECL, declarations));
       declarations = tail(declarations);
-- 
2.43.0


From 0436842c08739d0ddc7ebf851b57a2d586fd5580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:57 +0000
Subject: [PATCH 59/75] fix: sh: functions that return structs were accepted

---
 sh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sh.c b/sh.c
index 830ed3e..93bad73 100644
--- a/sh.c
+++ b/sh.c
@@ -2351,6 +2351,10 @@ void comp_glo_fun_decl(ast node) {
 
   heap[name_probe + 5] = true;
 
+  if (get_op(get_child_('(', fun_type, 0)) == STRUCT_KW) {
+    fatal_error("struct value type is not supported for shell backend. Use a reference type instead.");
+  }
+
   if (body == -1) return; // ignore forward declarations
 
   top_level_stmt = false;
-- 
2.43.0


From 9703f30cae6d33b247860d8ed67bd47767ecde0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:40 +0000
Subject: [PATCH 60/75] fix: parameter lists of macros could be unfinished,
 variadic or contain other tokens

---
 pnut.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pnut.c b/pnut.c
index c8f8e9d..5bab716 100644
--- a/pnut.c
+++ b/pnut.c
@@ -739,10 +739,15 @@ void push_if_macro_mask(bool new_mask) {
   if_macro_mask = if_macro_executed = new_mask;
 }
 
-void pop_if_macro_mask() {
+// #elif, #else and #endif must follow an #if
+void check_if_macro_stack() {
   if (if_macro_stack_ix == 0) {
     fatal_error("Unbalanced #ifdef/#ifndef/#else/#endif directives.");
   }
+}
+
+void pop_if_macro_mask() {
+  check_if_macro_stack();
   if_macro_stack_ix -= 2;
   if_macro_mask = if_macro_stack[if_macro_stack_ix];
   if_macro_executed = if_macro_stack[if_macro_stack_ix + 1];
@@ -1267,14 +1272,14 @@ void handle_define() {
     args_count = 0;
     get_tok_macro(); // Skip macro name
     get_tok_macro(); // Skip '('
-    while (tok != '\n' && tok != EOF) {
+    while (tok != ')') {
       if (tok == ',') {
         // Allow sequence of commas, this is more lenient than the standard
         get_tok_macro();
         continue;
-      } else if (tok == ')') {
-        get_tok_macro();
-        break;
+      } else if (tok != IDENTIFIER && tok != MACRO && tok != TYPE && (tok < AUTO_KW || tok > WHILE_KW)) {
+        putstr("tok="); putint(tok); putchar('\n');
+        syntax_error("macro parameters can only be identifiers");
       }
       get_tok_macro();
       // Accumulate parameters in reverse order. That's ok because the arguments
-- 
2.43.0


From d2a08e7aba0b07917b6c4ce5b19b0513e65fd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:40 +0000
Subject: [PATCH 61/75] fix: #elif and #else without #if skipped the rest of
 the file

---
 pnut.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pnut.c b/pnut.c
index 5bab716..20332fd 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1287,6 +1287,7 @@ void handle_define() {
       args = cons(val, args);
       args_count += 1;
     }
+    get_tok_macro(); // Skip ')'
   } else {
     get_tok_macro(); // Skip macro name
   }
@@ -1523,6 +1524,7 @@ void handle_preprocessor_directive() {
     }
     push_if_macro_mask(temp);
   } else if (tok == IDENTIFIER && val == ELIF_ID) {
+    check_if_macro_stack();
     if (prev_macro_mask() && !if_macro_executed) {
       temp = evaluate_if_condition() != 0;
       if_macro_executed |= temp;
@@ -1533,6 +1535,7 @@ void handle_preprocessor_directive() {
       if_macro_mask = false;
     }
   } else if (tok == ELSE_KW) {
+    check_if_macro_stack();
     if (prev_macro_mask()) { // If the parent block mask is true
       if_macro_mask = !if_macro_executed;
       if_macro_executed = true;
-- 
2.43.0


From 81a1e4317257321faa3b2cd3d2f7f95ed09c19d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:36 +0000
Subject: [PATCH 62/75] fix: sh: errors were reported with printf, which
 compilers compiled by the native backends lack

---
 debug.c |  4 +++-
 pnut.c  | 20 ++++++++++----------
 sh.c    | 50 +++++++++++++++++++++++++-------------------------
 3 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/debug.c b/debug.c
index 573ebc1..07e243b 100644
--- a/debug.c
+++ b/debug.c
@@ -294,7 +294,9 @@ void print_tok_type(int tok) {
     putchar(tok);
   }
   else {
-    printf("tok=%d\n", tok);
+    putstr("tok=");
+    putint(tok);
+    putchar('\n');
     fatal_error("print_tok_type: unknown token");
   }
 }
diff --git a/pnut.c b/pnut.c
index 20332fd..dae99cb 100644
--- a/pnut.c
+++ b/pnut.c
@@ -361,7 +361,7 @@ ast get_nb_children(ast node) {
 #ifdef SAFE_MODE
 int get_val_checked(char* file, int line, ast node) {
   if (get_nb_children(node) != 0) {
-    printf("%s:%d: get_val called on node %d with %d children\n", file, line, get_op(node), get_nb_children(node));
+    putstr(file); putchar(':'); putint(line); putstr(": get_val called on node "); putint(get_op(node)); putstr(" with "); putint(get_nb_children(node)); putstr(" children\n");
     exit(1);
   }
   return heap[node+1];
@@ -369,7 +369,7 @@ int get_val_checked(char* file, int line, ast node) {
 
 int get_val_go(char* file, int line, int expected_node, ast node) {
   if (get_op(node) != expected_node) {
-    printf("%s:%d: Expected node %d, got %d\n", file, line, expected_node, get_op(node));
+    putstr(file); putchar(':'); putint(line); putstr(": Expected node "); putint(expected_node); putstr(", got "); putint(get_op(node)); putchar('\n');
     exit(1);
   }
   return get_val_checked(file, line, node);
@@ -377,7 +377,7 @@ int get_val_go(char* file, int line, int expected_node, ast node) {
 
 void set_val_checked(char* file, int line, ast node, int val) {
   if (get_nb_children(node) != 0) {
-    printf("%s:%d: set_val called on node %d with %d children\n", file, line, get_op(node), get_nb_children(node));
+    putstr(file); putchar(':'); putint(line); putstr(": set_val called on node "); putint(get_op(node)); putstr(" with "); putint(get_nb_children(node)); putstr(" children\n");
     exit(1);
   }
   heap[node+1] = val;
@@ -385,7 +385,7 @@ void set_val_checked(char* file, int line, ast node, int val) {
 
 ast get_child_checked(char* file, int line, ast node, int i) {
   if (i != 0 && i >= get_nb_children(node)) {
-    printf("%s:%d: Index %d out of bounds for node %d\n", file, line, i, get_op(node));
+    putstr(file); putchar(':'); putint(line); putstr(": Index "); putint(i); putstr(" out of bounds for node "); putint(get_op(node)); putchar('\n');
     exit(1);
   }
   return heap[node+i+1];
@@ -393,7 +393,7 @@ ast get_child_checked(char* file, int line, ast node, int i) {
 
 void set_child_checked(char* file, int line, ast node, int i, ast child) {
   if (i != 0 && i >= get_nb_children(node)) {
-    printf("%s:%d: Index %d out of bounds for node %d\n", file, line, i, get_op(node));
+    putstr(file); putchar(':'); putint(line); putstr(": Index "); putint(i); putstr(" out of bounds for node "); putint(get_op(node)); putchar('\n');
     exit(1);
   }
   heap[node+i+1] = child;
@@ -404,7 +404,7 @@ void set_child_checked(char* file, int line, ast node, int i, ast child) {
 ast get_child_go(char* file, int line, int expected_parent_node, ast node, int i) {
   ast res = get_child_checked(file, line, node, i);
   if (get_op(node) != expected_parent_node) {
-    printf("%s:%d: Expected node %d, got %d\n", file, line, expected_parent_node, get_op(node));
+    putstr(file); putchar(':'); putint(line); putstr(": Expected node "); putint(expected_parent_node); putstr(", got "); putint(get_op(node)); putchar('\n');
     exit(1);
   }
   return res;
@@ -415,11 +415,11 @@ ast get_child_go(char* file, int line, int expected_parent_node, ast node, int i
 ast get_child__go(char* file, int line, int expected_parent_node, int expected_node, ast node, int i) {
   ast res = get_child_checked(file, line, node, i);
   if (get_op(node) != expected_parent_node) {
-    printf("%s:%d: Expected node %d, got %d\n", file, line, expected_parent_node, get_op(node));
+    putstr(file); putchar(':'); putint(line); putstr(": Expected node "); putint(expected_parent_node); putstr(", got "); putint(get_op(node)); putchar('\n');
     exit(1);
   }
   if (get_op(res) != expected_node) {
-    printf("%s:%d: Expected child node %d, got %d\n", file, line, expected_node, get_op(res));
+    putstr(file); putchar(':'); putint(line); putstr(": Expected child node "); putint(expected_node); putstr(", got "); putint(get_op(res)); putchar('\n');
     exit(1);
   }
   return res;
@@ -431,11 +431,11 @@ ast get_child__go(char* file, int line, int expected_parent_node, int expected_n
 ast get_child_opt_go(char* file, int line, int expected_parent_node, int expected_node, ast node, int i) {
   ast res = get_child_checked(file, line, node, i);
   if (get_op(node) != expected_parent_node) {
-    printf("%s:%d: Expected node %d, got %d\n", file, line, expected_parent_node, get_op(node));
+    putstr(file); putchar(':'); putint(line); putstr(": Expected node "); putint(expected_parent_node); putstr(", got "); putint(get_op(node)); putchar('\n');
     exit(1);
   }
   if (res > 0 && get_op(res) != expected_node) {
-    printf("%s:%d: Expected child node %d, got %d\n", file, line, expected_node, get_op(res));
+    putstr(file); putchar(':'); putint(line); putstr(": Expected child node "); putint(expected_node); putstr(", got "); putint(get_op(res)); putchar('\n');
     exit(1);
   }
   return res;
diff --git a/sh.c b/sh.c
index 93bad73..5cb1f6e 100644
--- a/sh.c
+++ b/sh.c
@@ -498,7 +498,7 @@ text format_special_var(ast ident, ast prefixed_with_dollar) {
   } else if (op == IDENTIFIER_EMPTY) {
     return wrap_str_lit("__");
   } else {
-    printf("op=%d %c", op, op);
+    putstr("op="); putint(op); putchar(' ');
     fatal_error("format_special_var: unknown identifier type");
     return 0;
   }
@@ -527,7 +527,7 @@ text env_var_with_prefix(ast ident, ast prefixed_with_dollar) {
       }
     } else {
       if (heap[get_val_(IDENTIFIER, ident) + 5]) {
-        printf("\"%s\" ", STRING_BUF(get_val_(IDENTIFIER, ident)));
+        putchar('"'); putstr(STRING_BUF(get_val_(IDENTIFIER, ident))); putstr("\" ");
         fatal_error("function pointers are not supported in shell backend");
       }
       return global_var(get_val_(IDENTIFIER, ident));
@@ -598,7 +598,7 @@ void assert_var_decl_is_safe(ast variable, bool local) { // Helper function for
   ast type = get_child_(DECL, variable, 1);
   if (name[0] == '_'
   || (name[0] != '\0' && name[1] == '_' && name[2] == '\0')) { // Check for a_ variables that could conflict with character constants
-    printf("%s ", name);
+    putstr(name); putchar(' ');
     fatal_error("variable name is invalid. It can't start or end with '_'.");
   }
 
@@ -607,11 +607,11 @@ void assert_var_decl_is_safe(ast variable, bool local) { // Helper function for
   // The same goes for the other variables that are special in some shells.
   // This check only applies to local variables because globals are prefixed with _.
   if (local && ident_probe == IFS_ID) {
-    printf("\"%s\" ", name);
+    putchar('"'); putstr(name); putstr("\" ");
     fatal_error("variable name is invalid. It can't be 'IFS' or 'argv_'.");
   }
   if (local && RENAMED_SHELL_VARS_START <= ident_probe && ident_probe <= RENAMED_SHELL_VARS_END) {
-    printf("\"%s\" ", name);
+    putchar('"'); putstr(name); putstr("\" ");
     fatal_error("variable name is invalid. It can't be the name of a special shell variable followed by '_'.");
   }
 
@@ -619,7 +619,7 @@ void assert_var_decl_is_safe(ast variable, bool local) { // Helper function for
     // Local variables don't correspond to memory locations, and can't store
     // more than 1 number/pointer.
     if (get_op(type) == '[' || get_op(type) == STRUCT_KW) {
-      printf("\"%s\" variable: ", name);
+      putchar('"'); putstr(name); putstr("\" variable: ");
       fatal_error("array/struct value type is not supported for shell backend. Use a reference type instead.");
     }
   } else {
@@ -629,7 +629,7 @@ void assert_var_decl_is_safe(ast variable, bool local) { // Helper function for
     if ( (get_op(type) == '[' && get_op(get_child_('[', type, 0)) == STRUCT_KW) // Array of structs
       || (get_op(type) == '[' && get_op(get_child_('[', type, 0)) == '[') // Array of arrays
       || get_op(type) == STRUCT_KW) { // Struct value type
-      printf("\"%s\" variable: ", name);
+      putchar('"'); putstr(name); putstr("\" variable: ");
       fatal_error("array of struct and struct value type are not supported in shell backend. Use a reference type instead.");
     }
   }
@@ -830,7 +830,7 @@ text op_to_str(int op) {
   else if (op == SLASH_EQ)   return wrap_str_lit(" /= ");
   else if (op == STAR_EQ)    return wrap_str_lit(" *= ");
   else {
-    printf("op=%d %c\n", op, op);
+    putstr("op="); putint(op); putchar('\n');
     fatal_error("op_to_str: unexpected operator");
     return 0;
   }
@@ -848,7 +848,7 @@ text test_op_to_str(int op) {
   else if (op == LT_EQ)      return wrap_str_lit(" -le ");
   else if (op == GT_EQ)      return wrap_str_lit(" -ge ");
   else {
-    printf("op=%d %c\n", op, op);
+    putstr("op="); putint(op); putchar('\n');
     fatal_error("test_op_to_str: unexpected operator");
     return 0;
   }
@@ -1020,7 +1020,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
       literals_inits = cons(new_ast2('=', sub1, get_val_(STRING, node)), literals_inits);
       return sub1;
     } else {
-      printf("op=%d %c", op, op);
+      putstr("op="); putint(op); putchar(' ');
       fatal_error("unexpected operator");
       return 0;
     }
@@ -1034,7 +1034,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     } else if (op == SIZEOF_KW) {
       return node; // sizeof is a compile-time operator
     } else {
-      printf("op=%d %c", op, op);
+      putstr("op="); putint(op); putchar(' ');
       fatal_error("unexpected operator");
       return 0;
     }
@@ -1103,7 +1103,7 @@ ast handle_side_effects_go(ast node, bool executes_conditionally) {
     // the operands the first time, so children 2 and 3 are up to date.
     return new_ast4(op, handle_side_effects_go(child0, true), handle_side_effects_go(child1, true), child2, get_child(node, 3));
   } else {
-    printf("op=%d %c with %d children\n", op, op, get_nb_children(node));
+    putstr("op="); putint(op); putstr(" with "); putint(get_nb_children(node)); putstr(" children\n");
     fatal_error("unexpected operator");
     return 0;
   }
@@ -1315,7 +1315,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       if (context == RVALUE_CTX_ARITH_EXPANSION) { return env_var_with_prefix(node, false); }
       else { return wrap_in_condition_if_needed(context, test_side_effects, string_concat(wrap_char('$'), env_var_with_prefix(node, true))); }
     } else {
-      printf("op=%d %c", op, op);
+      putstr("op="); putint(op); putchar(' ');
       fatal_error("comp_rvalue_go: unknown rvalue with nb_children == 0");
       return 0;
     }
@@ -1366,13 +1366,13 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
         } else if (get_op(child0) == STRUCT_KW) {
           return wrap_if_needed(false, context, test_side_effects, struct_sizeof_var(get_child__(STRUCT_KW, IDENTIFIER, child0, 1)), outer_op, op);
         } else {
-          printf("op=%d %c\n", get_op(child0), get_op(child0));
-          printf("op=%d %c\n", get_op(get_child(child0, 1)), get_op(get_child(child0, 1)));
+          putstr("op="); putint(get_op(child0)); putchar('\n');
+          putstr("op="); putint(get_op(get_child(child0, 1))); putchar('\n');
           fatal_error("comp_rvalue_go: sizeof is not supported for this type or expression");
           return 0;
         }
       } else {
-        printf("op=%d %c\n", get_op(child0), get_op(child0));
+        putstr("op="); putint(get_op(child0)); putchar('\n');
         fatal_error("comp_rvalue_go: sizeof is not supported for this type or expression");
         return 0;
       }
@@ -1380,7 +1380,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       // The address of an element or a member is a sum
       return wrap_if_needed(binds_tighter_than_sum(outer_op), context, test_side_effects, comp_lvalue_address(child0), outer_op, op);
     } else {
-      printf("op=%d %c", op, op);
+      putstr("op="); putint(op); putchar(' ');
       fatal_error("comp_rvalue_go: unexpected operator");
       return 0;
     }
@@ -1465,7 +1465,7 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
       return wrap_if_needed(true, context, test_side_effects, string_concat3(sub1, op_to_str(op), sub2), outer_op, op);
     }
   } else {
-    printf("op=%d %c\n", op, op);
+    putstr("op="); putint(op); putchar('\n');
     fatal_error("comp_rvalue_go: unknown rvalue");
     return 0;
   }
@@ -1556,7 +1556,7 @@ text comp_lvalue_address(ast node) {
   } else if (op == PARENS) {
     return comp_lvalue_address(get_child_(PARENS, node, 0));
   } else {
-    printf("op=%d %c\n", op, op);
+    putstr("op="); putint(op); putchar('\n');
     fatal_error("comp_lvalue_address: unknown lvalue");
     return 0;
   }
@@ -1585,7 +1585,7 @@ text comp_lvalue(ast node) {
   } else if (op == PARENS) {
     return comp_lvalue(get_child_(PARENS, node, 0));
   } else {
-    printf("op=%d %c\n", op, op);
+    putstr("op="); putint(op); putchar('\n');
     fatal_error("comp_lvalue: unknown lvalue");
     return 0;
   }
@@ -1745,7 +1745,7 @@ void handle_printf_call(char *format_str, ast params) {
             while (*format_str == 'l') format_str += 1; // Skip the 'l' for long
             format_start = format_str;
             if (*format_str != 'd' && *format_str != 'i' && *format_str != 'o' && *format_str != 'u' && *format_str != 'x' && *format_str != 'X') {
-              printf("*format_str=%c%c\n", *(format_str - 1), *format_str);
+              putstr("*format_str="); putchar(*(format_str - 1)); putchar(*format_str); putchar('\n');
               fatal_error("Invalid printf format: Unsupported long specifier");
             }
           }
@@ -1803,8 +1803,8 @@ void handle_printf_call(char *format_str, ast params) {
           break;
 
         default:
-          printf("specifier=%s\n", specifier_start);
-          printf("format char='%c'\n", *format_str);
+          putstr("specifier="); putstr(specifier_start); putchar('\n');
+          putstr("format char='"); putchar(*format_str); putstr("'\n");
           fatal_error("Unsupported format specifier");
       }
     } else if (*format_str == '%') {
@@ -1912,7 +1912,7 @@ void comp_assignment(ast lhs, ast rhs) {
       }
     }
   } else {
-    printf("lhs_op=%d %c\n", lhs_op, lhs_op);
+    putstr("lhs_op="); putint(lhs_op); putchar('\n');
     fatal_error("unknown lhs");
   }
 }
@@ -2661,7 +2661,7 @@ void comp_glo_decl(ast node) {
   } else if (op == ENUM_KW || op == STRUCT_KW || op == UNION_KW) {
     handle_enum_struct_union_type_decl(node);
   } else {
-    printf("op=%d %c with %d children\n", op, op, get_nb_children(node));
+    putstr("op="); putint(op); putstr(" with "); putint(get_nb_children(node)); putstr(" children\n");
     fatal_error("comp_glo_decl: unexpected declaration");
   }
 }
-- 
2.43.0


From abdea2fce3da63663cbfc1fecfbd2d274835b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:05 +0000
Subject: [PATCH 63/75] fix: sh: the error for sizeof of an array type used the
 size of the array as an index of the heap

---
 sh.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sh.c b/sh.c
index 5cb1f6e..3c24a36 100644
--- a/sh.c
+++ b/sh.c
@@ -1367,7 +1367,6 @@ text comp_rvalue_go(ast node, int context, ast test_side_effects, int outer_op)
           return wrap_if_needed(false, context, test_side_effects, struct_sizeof_var(get_child__(STRUCT_KW, IDENTIFIER, child0, 1)), outer_op, op);
         } else {
           putstr("op="); putint(get_op(child0)); putchar('\n');
-          putstr("op="); putint(get_op(get_child(child0, 1))); putchar('\n');
           fatal_error("comp_rvalue_go: sizeof is not supported for this type or expression");
           return 0;
         }
-- 
2.43.0


From 54bb7e22234fdfbeb5d18dab8cc46121459eebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:34 +0000
Subject: [PATCH 64/75] fix: constant expressions with a division by zero or
 unary * and & crashed the compiler or read outside of the syntax tree

---
 pnut.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pnut.c b/pnut.c
index dae99cb..217b93d 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1370,8 +1370,18 @@ int eval_constant(ast expr, bool if_macro) {
     case GT_EQ:
     case '<':
     case '>':
+      // Unary * and &
+      if (get_nb_children(expr) == 1) fatal_error("constant expression expected");
       op1 = eval_constant(child0, if_macro);
       op2 = eval_constant(child1, if_macro);
+      if (op == '/' || op == '%') {
+        if (op2 == 0) fatal_error("division by zero in constant expression");
+        // The quotient of the smallest integer and -1 doesn't fit
+        if (op2 == -1) {
+          op1 = op == '/' ? -op1 : 0;
+          op2 = 1;
+        }
+      }
       switch (op) {
         case '*':     return op1 * op2;
         case '/':     return op1 / op2;
-- 
2.43.0


From 69584bce896ce82ae761740a45d36648dc8134e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:34 +0000
Subject: [PATCH 65/75] fix: declarations of members, structs and enums without
 a name or of type void were accepted and read outside of their nodes

---
 pnut.c | 11 +++++++----
 sh.c   |  3 +++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pnut.c b/pnut.c
index 217b93d..717a5e6 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2952,6 +2952,8 @@ ast parse_enum() {
 
     expect_tok('}');
 
+  } else if (name == 0) {
+    parse_error("enum name expected", tok);
   }
 
   return new_ast3(ENUM_KW, 0, name, result); // child#0 is the storage-class specifiers and type qualifiers
@@ -3008,8 +3010,8 @@ ast parse_struct_or_union(int struct_or_union_tok) {
             tail = get_child_(LIST, tail, 1);
           }
 
-          if (get_child_(DECL, decl, 1) == VOID_KW) parse_error("member with void type not allowed in struct/union", tok);
-          if (get_child_(DECL, decl, 1) == '[' && get_child_('[', get_child_(DECL, decl, 1), 1) == 0) {
+          if (get_op(get_child_(DECL, decl, 1)) == VOID_KW) parse_error("member with void type not allowed in struct/union", tok);
+          if (get_op(get_child_(DECL, decl, 1)) == '[' && get_child_('[', get_child_(DECL, decl, 1), 1) == 0) {
             // Set ends_in_flex_array if the type is an array with no size
             ends_in_flex_array = true;
             break;
@@ -3023,6 +3025,8 @@ ast parse_struct_or_union(int struct_or_union_tok) {
     }
 
     expect_tok('}');
+  } else if (name == 0) {
+    parse_error("struct or union name expected", tok);
   }
 
   return new_ast3(struct_or_union_tok, 0, name, result); // child#0 is the storage-class specifiers and type qualifiers
@@ -3478,10 +3482,9 @@ ast parse_declaration(bool local) {
     if (get_op(type_specifier) != ENUM_KW && get_op(type_specifier) != STRUCT_KW && get_op(type_specifier) != UNION_KW) {
       parse_error("enum/struct/union declaration expected", tok);
     }
-    // If the specifier is a typedef, we add the typedef'ed type to the type table
+    // A typedef without a name only declares the type
     // Note: Should this return a DECL node instead of a ENUM, STRUCT, or UNION node?
     // It doesn't have a name so maybe it makes more sense to have a separate node type?
-    if (glo_specifier_storage_class == TYPEDEF_KW) add_typedef(new_ast3(DECL, 0, type_specifier, 0));
     result = type_specifier;
   } else if (glo_specifier_storage_class == TYPEDEF_KW) {
     // The type_specifier contained a typedef, it can't be a function or a
diff --git a/sh.c b/sh.c
index 3c24a36..c4e9eae 100644
--- a/sh.c
+++ b/sh.c
@@ -2584,6 +2584,9 @@ void comp_struct(ast ident, ast members) {
     if (get_op(field_type) == '[' || get_op(field_type) == STRUCT_KW) {
       fatal_error("Nested structures not supported by shell backend. Use a reference type instead.");
     }
+    if (get_child_opt_(DECL, IDENTIFIER, decl, 0) == 0) {
+      fatal_error("Anonymous members not supported by shell backend");
+    }
 
     comp_assignment_constant(struct_member_var(get_child_opt_(DECL, IDENTIFIER, decl, 0)), offset);
     set_val(offset, get_val_(INTEGER, offset) - 1);
-- 
2.43.0


From 15e60b55f9f3ea4808dba900405daeec593541a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:34 +0000
Subject: [PATCH 66/75] fix: directives without a macro name, # of an empty
 argument and ## of punctuation used values that weren't names

---
 pnut.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pnut.c b/pnut.c
index 717a5e6..0205f1b 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1209,6 +1209,14 @@ void get_tok_macro_arg() {
   if_macro_mask = prev_macro_mask;
 }
 
+// Macros can have the names of keywords and types
+void expect_macro_name() {
+  if (tok < AUTO_KW || (tok > WHILE_KW && tok < HIDDEN_MACRO)) {
+    putstr("tok="); putint(tok); putchar('\n');
+    syntax_error("macro name expected");
+  }
+}
+
 int lookup_macro_token(int args, int tok, int val) {
   int ix = 0;
 
@@ -1411,7 +1419,7 @@ int eval_constant(ast expr, bool if_macro) {
       else return eval_constant(child1, if_macro) != 0;
 
     case '(': // defined operators are represented as fun calls
-      if (if_macro && get_val_(IDENTIFIER, child0) == DEFINED_ID) {
+      if (if_macro && get_op(child0) == IDENTIFIER && get_val_(IDENTIFIER, child0) == DEFINED_ID) {
         return child1 == MACRO;
       } else {
         fatal_error("unknown function call in constant expressions");
@@ -1522,6 +1530,7 @@ void handle_preprocessor_directive() {
   if (tok == IDENTIFIER && (val == IFDEF_ID || val == IFNDEF_ID)) {
     temp = val;
     get_tok_macro(); // Get the macro name
+    expect_macro_name();
       push_if_macro_mask(temp == IFDEF_ID ? tok == MACRO : tok != MACRO);
     get_tok_macro(); // Skip the macro name
   } else if (tok == IF_KW) {
@@ -1596,7 +1605,9 @@ void handle_preprocessor_directive() {
       tok = '\n';
 #endif
     } else {
-      putstr("tok="); putint(tok); putstr(": "); putstr(STRING_BUF(val)); putchar('\n');
+      putstr("tok="); putint(tok);
+      if (tok == IDENTIFIER || tok == MACRO) { putstr(": "); putstr(STRING_BUF(val)); }
+      putchar('\n');
       syntax_error("unsupported preprocessor directive");
     }
   } else {
@@ -2134,7 +2145,10 @@ void stringify() {
   arg = car(get_macro_arg(val)); // The tokens as they are written
   tok = STRING;
   // Support the case where the argument is a single identifier/macro/keyword token
-  if ((car(car(arg)) == IDENTIFIER || car(car(arg)) == MACRO || car(car(arg)) == HIDDEN_MACRO || (AUTO_KW <= car(car(arg)) && car(car(arg)) <= WHILE_KW)) && cdr(arg) == 0) {
+  if (arg == 0) {
+    begin_string();
+    val = end_string(); // No token
+  } else if ((car(car(arg)) == IDENTIFIER || car(car(arg)) == MACRO || car(car(arg)) == HIDDEN_MACRO || (AUTO_KW <= car(car(arg)) && car(car(arg)) <= WHILE_KW)) && cdr(arg) == 0) {
     val = cdr(car(arg)); // Use the identifier probe
   } else {
     val = NOT_SUPPORTED_ID; // Return string "NOT_SUPPORTED"
@@ -2206,12 +2220,12 @@ void paste_tokens(int left_tok, int left_val) {
     macro_tok_lst = prepend_tokens(cdr(arg), macro_tok_lst);
   }
   if (right_tok == HIDDEN_MACRO || right_tok >= IDENTIFIER) right_tok = heap[right_val + 2]; // Reload the kind
-  if (left_tok == IDENTIFIER || left_tok == TYPE || left_tok == MACRO || left_tok <= WHILE_KW) {
+  if (left_tok == IDENTIFIER || left_tok == TYPE || left_tok == MACRO || (AUTO_KW <= left_tok && left_tok <= WHILE_KW)) {
     // Something that starts with an identifier can only be an identifier
     begin_string();
     accum_string_string(left_val);
 
-    if (right_tok == IDENTIFIER || right_tok == TYPE || right_tok == MACRO || right_tok <= WHILE_KW) {
+    if (right_tok == IDENTIFIER || right_tok == TYPE || right_tok == MACRO || (AUTO_KW <= right_tok && right_tok <= WHILE_KW)) {
       accum_string_string(right_val);
     } else if (right_tok == INTEGER
 #ifdef PARSE_NUMERIC_LITERAL_WITH_BASE
@@ -2248,7 +2262,7 @@ void paste_tokens(int left_tok, int left_val) {
 #endif
        ) {
       val = -paste_integers(-left_val, -right_val);
-    } else if (right_tok == IDENTIFIER || right_tok == MACRO || right_tok <= WHILE_KW) {
+    } else if (right_tok == IDENTIFIER || right_tok == TYPE || right_tok == MACRO || (AUTO_KW <= right_tok && right_tok <= WHILE_KW)) {
       begin_string();
       accum_string_integer(-left_val);
       accum_string_string(right_val);
@@ -3707,15 +3721,14 @@ ast parse_unary_expression() {
     get_tok_macro();
     if (tok == '(') {
       get_tok_macro();
+      expect_macro_name();
       result = new_ast2('(', new_ast0(IDENTIFIER, DEFINED_ID), tok);
       get_tok_macro();
       expect_tok(')');
-    } else if (tok == IDENTIFIER || tok == MACRO) {
+    } else {
+      expect_macro_name();
       result = new_ast2('(', new_ast0(IDENTIFIER, DEFINED_ID), tok);
       get_tok_macro();
-    } else {
-      parse_error("identifier or '(' expected", tok);
-      return 0;
     }
 
   } else {
-- 
2.43.0


From 0313c6c35ac51ecb31fbc1225094d608c4e10a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:43 +0000
Subject: [PATCH 67/75] fix: sh: functions of more lines than the output table
 holds overwrote memory, as did the label table of SAFE_MODE

---
 exe.c | 4 +++-
 sh.c  | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/exe.c b/exe.c
index 827dd54..0838478 100644
--- a/exe.c
+++ b/exe.c
@@ -370,7 +370,8 @@ enum {
 };
 
 #ifdef SAFE_MODE
-int labels[100000];
+#define LABELS_SIZE 100000
+int labels[LABELS_SIZE];
 int labels_ix = 0;
 
 void assert_all_labels_defined() {
@@ -393,6 +394,7 @@ void assert_all_labels_defined() {
 }
 
 void add_label(int lbl) {
+  if (labels_ix >= LABELS_SIZE) fatal_error("too many labels");
   labels[labels_ix++] = lbl;
 }
 
diff --git a/sh.c b/sh.c
index c4e9eae..86807ee 100644
--- a/sh.c
+++ b/sh.c
@@ -373,7 +373,12 @@ void init_comp_context() {
   }
 }
 
+void check_glo_decl_size() {
+  if (glo_decl_ix + 3 > GLO_DECL_SIZE) fatal_error("function too large");
+}
+
 void append_glo_decl(text decl) {
+  check_glo_decl_size();
   glo_decls[glo_decl_ix] = nest_level;
   glo_decls[glo_decl_ix + 1] = 1; // If it's active or not. Used by undo_glo_decls and replay_glo_decls
   glo_decls[glo_decl_ix + 2] = decl;
@@ -381,6 +386,7 @@ void append_glo_decl(text decl) {
 }
 
 int append_glo_decl_fixup() {
+  check_glo_decl_size();
   glo_decls[glo_decl_ix] = -nest_level; // Negative value to indicate that it's a fixup
   glo_decls[glo_decl_ix + 1] = 1; // If it's active or not. Used by undo_glo_decls and replay_glo_decls
   glo_decls[glo_decl_ix + 2] = 0;
-- 
2.43.0


From b9e2fd52d365b5d9e984ff2dcbd55efca3efd55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:04 +0000
Subject: [PATCH 68/75] fix: sh: declarations of more than 20000 characters
 overwrote memory with SH_INCLUDE_C_CODE

---
 pnut.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pnut.c b/pnut.c
index 0205f1b..fac2e9c 100644
--- a/pnut.c
+++ b/pnut.c
@@ -882,6 +882,7 @@ void get_ch() {
 #endif
 #ifdef SH_INCLUDE_C_CODE
   // Save C code chars so they can be displayed with the shell code
+  if (code_char_buf_ix >= C_CODE_BUF_LEN - 1) fatal_error("declaration is larger than the code buffer");
   code_char_buf[code_char_buf_ix] = ch;
   code_char_buf_ix += 1;
 #endif
-- 
2.43.0


From 8f0c96606d85fcd18e65bb19696920c9d9313d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:34 +0000
Subject: [PATCH 69/75] fix: structs, unions and enums with an empty list were
 taken for references

---
 pnut.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pnut.c b/pnut.c
index fac2e9c..2c0bfe0 100644
--- a/pnut.c
+++ b/pnut.c
@@ -2965,6 +2965,7 @@ ast parse_enum() {
       }
     }
 
+    if (result == 0) parse_error("enum without enumerators", tok);
     expect_tok('}');
 
   } else if (name == 0) {
@@ -3039,6 +3040,7 @@ ast parse_struct_or_union(int struct_or_union_tok) {
       expect_tok(';');
     }
 
+    if (result == 0) parse_error("struct or union without members", tok);
     expect_tok('}');
   } else if (name == 0) {
     parse_error("struct or union name expected", tok);
-- 
2.43.0


From febf6a80b67d623fbfcb1e4320438bf93f44a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:10 +0000
Subject: [PATCH 70/75] fix: sh: printf evaluated its parameters again after
 the last %s

---
 sh.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sh.c b/sh.c
index 86807ee..0aa088a 100644
--- a/sh.c
+++ b/sh.c
@@ -1682,6 +1682,7 @@ void handle_printf_call(char *format_str, ast params) {
 
   bool mod = false;
   bool params_consumed = false; // Whether the parameters were passed to a previous printf call
+  bool params_have_effects = false; // Whether the parameters modify variables
   bool has_width = false;
   bool has_precision = false;
 
@@ -1725,9 +1726,11 @@ void handle_printf_call(char *format_str, ast params) {
           if (param == 0) fatal_error("Not enough parameters for printf");
           if (state == PRINTF_STATE_FLAGS) {
             width_text = comp_rvalue(param, RVALUE_CTX_BASE);
+            params_have_effects |= contains_side_effects;
             has_width = true;
           } else if (state == PRINTF_STATE_PRECISION) {
             precision_text = comp_rvalue(param, RVALUE_CTX_BASE);
+            params_have_effects |= contains_side_effects;
             has_precision = true;
           } else {
             fatal_error("Width or precision already specified by a number");
@@ -1759,6 +1762,7 @@ void handle_printf_call(char *format_str, ast params) {
           params_text = concatenate_strings_with(params_text, width_text, wrap_char(' '));     // Add width param if needed
           params_text = concatenate_strings_with(params_text, precision_text, wrap_char(' ')); // Add precision param if needed
           params_text = concatenate_strings_with(params_text, comp_rvalue(param, RVALUE_CTX_BASE), wrap_char(' ')); // Add the parameter
+          params_have_effects |= contains_side_effects;
           param = 0; // Consume param
           mod = false;
           break;
@@ -1827,6 +1831,9 @@ void handle_printf_call(char *format_str, ast params) {
     format_str += 1;
   }
 
+  // The effects of the parameters must not be repeated
+  if (params_consumed && params_have_effects) params_text = 0;
+
   // Dump the remaining format string
   append_glo_decl(printf_call(format_prefix, format_start, format_str, params_text, false));
 }
-- 
2.43.0


From b23f0d9f112c0b26db85b43258c7a8894e9103f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:45 +0000
Subject: [PATCH 71/75] fix: sh: initializers of arrays that follow an array
 without one were ignored

---
 sh.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sh.c b/sh.c
index 0aa088a..eda39e7 100644
--- a/sh.c
+++ b/sh.c
@@ -2480,6 +2480,10 @@ void comp_glo_var_decl(ast node) {
         if (get_op(init) != INITIALIZER_LIST) fatal_error("Array declaration with invalid initializer");
         init = get_child_(INITIALIZER_LIST, init, 0);
 
+#ifdef RT_NO_INIT_GLOBALS
+        // If defarr is already defined, it doesn't support initialization
+        if (!runtime_use_initialize) runtime_defarr_defined = false;
+#endif
         runtime_use_initialize = true;
         init_len = initializer_list_len(init);
         args = comp_initializer_list(init, arr_len);
-- 
2.43.0


From dee5a386cb62855279b6d4a62bfdc969ef97c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:04 +0000
Subject: [PATCH 72/75] fix: macro parameters with the name of a keyword were
 not replaced

---
 pnut.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index 2c0bfe0..3d8b884 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1221,7 +1221,7 @@ void expect_macro_name() {
 int lookup_macro_token(int args, int tok, int val) {
   int ix = 0;
 
-  if (tok < IDENTIFIER) return cons(tok, val); // Not an identifier
+  if (tok < IDENTIFIER && (tok < AUTO_KW || tok > WHILE_KW)) return cons(tok, val); // Not an identifier or keyword
 
   while (args != 0) {
     if (car(args) == val) break; // Found!
-- 
2.43.0


From f5fd276278aa22f9e4752ffadf6a0010fc0f9cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:24 +0000
Subject: [PATCH 73/75] fix: macros with the name of a keyword or of a type:
 the name got lost after #undef and inside of the macro

---
 pnut.c | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/pnut.c b/pnut.c
index 3d8b884..b6f5a90 100644
--- a/pnut.c
+++ b/pnut.c
@@ -665,7 +665,7 @@ int end_ident() {
 
   // a new ident has been found
 
-  probe = alloc_obj(6);
+  probe = alloc_obj(8);
 
   heap[hash] = probe; // add new ident at end of chain
 
@@ -675,6 +675,8 @@ int end_ident() {
   heap[probe+3] = 0; // Token tag
   heap[probe+4] = string_pool_alloc - string_start - 1; // string length (excluding terminator)
   heap[probe+5] = 0; // Whether a function has this name (shell backend)
+  heap[probe+6] = 0; // Macro definition
+  heap[probe+7] = IDENTIFIER; // Kind of the identifier when it's not a macro
 
   return probe;
 }
@@ -1270,11 +1272,12 @@ void handle_define() {
   int args = 0; // List of arguments for a function-like macro
   int args_count = -1; // Number of arguments for a function-like macro. -1 means it's an object-like macro
 
-  if (tok != IDENTIFIER && tok != MACRO && (tok < AUTO_KW || tok > WHILE_KW)) {
+  if (tok != IDENTIFIER && tok != MACRO && tok != TYPE && (tok < AUTO_KW || tok > WHILE_KW)) {
     putstr("tok="); putint(tok); putchar('\n');
     syntax_error("#define directive can only be followed by a identifier");
   }
 
+  if (tok != MACRO) heap[val + 7] = tok; // Restored by #undef
   heap[val + 2] = MACRO; // Mark the identifier as a macro
   macro = val;
   if (ch == '(') { // Function-like macro
@@ -1302,7 +1305,7 @@ void handle_define() {
   }
 
   // Accumulate tokens so they can be replayed when the macro is used
-  heap[macro + 3] = cons(read_macro_tokens(args), args_count);
+  heap[macro + 6] = cons(read_macro_tokens(args), args_count);
 
 }
 
@@ -1527,6 +1530,7 @@ void handle_preprocessor_directive() {
 #endif
   get_tok_macro(); // Get the # token
   get_tok_macro(); // Get the directive
+  if (tok == MACRO) tok = heap[val + 7]; // The names of directives are not macro expanded
 
   if (tok == IDENTIFIER && (val == IFDEF_ID || val == IFNDEF_ID)) {
     temp = val;
@@ -1580,9 +1584,8 @@ void handle_preprocessor_directive() {
 #endif
     else if (tok == IDENTIFIER && val == UNDEF_ID) {
       get_tok_macro(); // Get the macro name
-      if (tok == IDENTIFIER || tok == MACRO) {
-        // TODO: Doesn't play nice with typedefs, because they are not marked as macros
-        heap[val + 2] = IDENTIFIER; // Unmark the macro identifier
+      if (tok == IDENTIFIER || tok == MACRO || tok == TYPE || (AUTO_KW <= tok && tok <= WHILE_KW)) {
+        if (tok == MACRO) heap[val + 2] = heap[val + 7]; // Unmark the macro identifier
         get_tok_macro(); // Skip the macro name
       } else {
         putstr("tok="); putint(tok); putchar('\n');
@@ -1844,19 +1847,19 @@ void init_ident_table() {
 int init_builtin_string_macro(char *macro_str, char* value) {
   int macro_id = init_ident(MACRO, macro_str);
   // Macro object shape: ([(tok, val)], arity). -1 arity means it's an object-like macro
-  heap[macro_id + 3] = cons(cons(cons(STRING, intern_str(value)), 0), -1);
+  heap[macro_id + 6] = cons(cons(cons(STRING, intern_str(value)), 0), -1);
   return macro_id;
 }
 
 int init_builtin_int_macro(char *macro_str, int value) {
   int macro_id = init_ident(MACRO, macro_str);
-  heap[macro_id + 3] = cons(cons(cons(INTEGER, -value), 0), -1);
+  heap[macro_id + 6] = cons(cons(cons(INTEGER, -value), 0), -1);
   return macro_id;
 }
 
 int init_builtin_empty_macro(char *macro_str) {
   int macro_id = init_ident(MACRO, macro_str);
-  heap[macro_id + 3] = cons(0, -1); // -1 means it's an object-like macro, 0 means no tokens
+  heap[macro_id + 6] = cons(0, -1); // -1 means it's an object-like macro, 0 means no tokens
   return macro_id;
 }
 
@@ -2011,7 +2014,7 @@ int macro_parse_argument() {
 }
 
 void check_macro_arity(int macro_args_count, int macro) {
-  int expected_argc = cdr(heap[macro + 3]);
+  int expected_argc = cdr(heap[macro + 6]);
   if (macro_args_count != expected_argc) {
     putstr("expected_argc="); putint(expected_argc);
     putstr(" != macro_args_count="); putint(macro_args_count);
@@ -2048,7 +2051,7 @@ int get_macro_args_toks(int macro, int tokens) {
   get_tok_macro_arg(); // Skip '('
 
   // Arguments can be empty, but () contains no argument if the macro has no parameters
-  if (tok != ')' || cdr(heap[macro + 3]) != 0) {
+  if (tok != ')' || cdr(heap[macro + 6]) != 0) {
     args = cons(macro_parse_argument(), 0);
     macro_args_count = 1;
     while (tok == ',') {
@@ -2101,14 +2104,14 @@ void undo_token(int prev_tok, int prev_val) {
 // If the wrong number of arguments is passed to a function-like macro, a fatal error is raised.
 bool attempt_macro_expansion(int macro) {
   // We must save the tokens because the macro may be redefined while reading the arguments
-  int tokens = car(heap[macro + 3]);
+  int tokens = car(heap[macro + 6]);
 
   if (macro_is_already_expanding(macro)) { // Self referencing macro
     tok_is_hidden_macro = true;
-    tok = IDENTIFIER;
+    tok = heap[macro + 7];
     val = macro;
     return false;
-  } else if (cdr(heap[macro + 3]) == -1) { // Object-like macro
+  } else if (cdr(heap[macro + 6]) == -1) { // Object-like macro
     // Note: Redefining __{FILE,LINE}__ macros, either with the #define or #line directives is not supported.
     if (macro == FILE__ID) {
       tokens = cons(cons(STRING, intern_str(fp_filepath)), 0);
@@ -2127,7 +2130,7 @@ bool attempt_macro_expansion(int macro) {
       begin_macro_expansion(macro, tokens, get_macro_args_toks(macro, tokens));
       return true;
     } else {
-      undo_token(IDENTIFIER, macro);
+      undo_token(heap[macro + 7], macro);
       return false;
     }
   }
@@ -2316,7 +2319,7 @@ void get_tok() {
         // between the moment the macro is defined and where it is used.
         // So we reload the kind from the ident table.
         tok_is_hidden_macro = tok == HIDDEN_MACRO;
-        if (tok == HIDDEN_MACRO || tok >= IDENTIFIER) tok = heap[val + 2];
+        if (tok == HIDDEN_MACRO || tok >= IDENTIFIER || (AUTO_KW <= tok && tok <= WHILE_KW)) tok = heap[val + 2];
 
         // Check if the next token is ## for token pasting
         if (tok == MACRO_ARG && macro_tok_lst != 0 && car(car(macro_tok_lst)) == HASH_HASH) {
@@ -2332,7 +2335,7 @@ void get_tok() {
         }
 
         if (tok == MACRO && tok_is_hidden_macro) {
-          tok = IDENTIFIER;
+          tok = heap[val + 7];
           break;
         } else if (tok == MACRO && !expand_replayed_macro) {
           tok_is_hidden_macro = macro_is_already_expanding(val);
@@ -3466,7 +3469,8 @@ void add_typedef(ast declarator) {
   }
 #endif
 
-  heap[decl_ident + 2] = TYPE;
+  if (heap[decl_ident + 2] == MACRO) heap[decl_ident + 7] = TYPE; // A function-like macro with the same name
+  else heap[decl_ident + 2] = TYPE;
   heap[decl_ident + 3] = decl_type;
 }
 
-- 
2.43.0


From 8f6d8291fe4da8e81f52b549a5d3a78e07b50876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:08 +0000
Subject: [PATCH 74/75] fix: the null directive was refused

---
 pnut.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pnut.c b/pnut.c
index b6f5a90..3fe6656 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1608,7 +1608,7 @@ void handle_preprocessor_directive() {
 #else
       tok = '\n';
 #endif
-    } else {
+    } else if (tok != '\n' && tok != EOF) { // The null directive has no effect
       putstr("tok="); putint(tok);
       if (tok == IDENTIFIER || tok == MACRO) { putstr(": "); putstr(STRING_BUF(val)); }
       putchar('\n');
-- 
2.43.0


From a87c78dba767cf69acbc2887587d38639ff7ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:23 +0000
Subject: [PATCH 75/75] fix: sh: warnings were written into the script as
 commands

---
 pnut.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/pnut.c b/pnut.c
index 3fe6656..141e3a4 100644
--- a/pnut.c
+++ b/pnut.c
@@ -1523,6 +1523,32 @@ void handle_include() {
 void handle_shell_include();
 #endif
 
+// The compiled program is written to stdout, warnings must not end up in it
+#ifdef sh
+void putchar_warning(int c) {
+  putchar(c);
+}
+
+void putstr_warning(char *str) {
+  putstr("# "); // In a script, a warning is a comment
+  putstr(str);
+}
+#else
+char warning_buf[1];
+
+void putchar_warning(int c) {
+  warning_buf[0] = c;
+  write(2, warning_buf, 1);
+}
+
+void putstr_warning(char *str) {
+  while (*str) {
+    putchar_warning(*str);
+    str += 1;
+  }
+}
+#endif
+
 void handle_preprocessor_directive() {
   int temp;
 #ifdef SH_INCLUDE_C_CODE
@@ -1597,12 +1623,13 @@ void handle_preprocessor_directive() {
     } else if (tok == IDENTIFIER && (val == WARNING_ID || val == ERROR_ID)) {
 #ifndef DEBUG_EXPAND_INCLUDES
       temp = val;
-      putstr(temp == WARNING_ID ? "warning:" : "error:");
+      if (temp == WARNING_ID) putstr_warning("warning:"); else putstr("error:");
       // Print the rest of the line, it does not support \ at the end of the line but that's ok
       while (ch != '\n' && ch != EOF) {
-        putchar(ch); get_ch();
+        if (temp == WARNING_ID) putchar_warning(ch); else putchar(ch);
+        get_ch();
       }
-      putchar('\n');
+      if (temp == WARNING_ID) putchar_warning('\n'); else putchar('\n');
       tok = '\n';
       if (temp == ERROR_ID) exit(1);
 #else
-- 
2.43.0

