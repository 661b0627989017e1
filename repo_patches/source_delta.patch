From 3696b2443ce9ab1b91b84b0d9834f983dc425cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 01/64] fix: eval with an environment restores the caller's
 environment

---
 src/core/c/eval.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 5cfa275..3896498 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -563,8 +563,9 @@ application:
         v0 = tc_frame_ref(tc, minim_fixnum(minim_car(minim_cddr(ins))));
         store_reg(tc, tregs, ins, minim_cadr(ins), v0);
     } else if (ty == set_arg_symbol) {
-        // set-arg
-        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = tregs[0];
+        // (set-arg <stack index> <src reg>)
+        v0 = load_reg(tc, tregs, ins, minim_car(minim_cddr(ins)));
+        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = v0;
     } else if (ty == get_tenv_symbol) {
         // (get-tenv <dst reg>)
         store_reg(tc, tregs, ins, minim_cadr(ins), tc_tenv(tc));
-- 
2.43.0


From 4540e4894eb2d1b9d1769e82430bc3df671788d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 02/64] fix: grow and unwind the stack segments within their
 bounds

---
 src/boot/c/boot.c | 2 +-
 src/core/c/eval.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/boot/c/boot.c b/src/boot/c/boot.c
index dadd89f..fb5df55 100644
--- a/src/boot/c/boot.c
+++ b/src/boot/c/boot.c
@@ -16,6 +16,6 @@ void minim_boot_init() {
     tc_stack_base(tc) = GC_alloc(stack_size);
     tc_stack_size(tc) = stack_size;
     tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(tc_sfp(tc), tc_stack_size(tc) - stack_slop);
     current_tc() = tc;
 }
diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 3896498..0a3dd1c 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -94,7 +94,7 @@ static void grow_stack(mobj tc, size_t size) {
     tc_stack_link(tc) = srecord;
     tc_stack_size(tc) = actual;
     tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(tc_sfp(tc), tc_stack_size(tc) - stack_slop);
 }
 
 void reserve_stack(mobj tc, size_t argc) {
@@ -684,14 +684,14 @@ restore_frame:
         tc_stack_size(tc) = cache_stack_len(srecord);
         tc_stack_link(tc) = cache_stack_prev(srecord);
         tc_sfp(tc) = tc_stack_base(tc);
-        tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+        tc_esp(tc) = ptr_add(tc_sfp(tc), tc_stack_size(tc) - stack_slop);
         cc = cache_stack_ret(srecord);
     } else {
         cc = tc_ccont(tc);
     }
 
     // restore instruction stream and environment
-    istream = tc_ra(tc);
+    istream = continuation_pc(cc);
     tc_env(tc) = continuation_env(cc);
 
     // update thread parameters
-- 
2.43.0


From fccbc8948ddd105dab6b852180d85972f61203f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 03/64] fix: make room on the stack for the values passed to a
 consumer

---
 src/core/c/eval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 0a3dd1c..bf80114 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -248,10 +248,12 @@ static mobj do_values(mobj tc) {
 static void values_to_args(mobj tc, mobj x) {
     if (minim_valuesp(x)) {
         // multi-valued
+        maybe_grow_stack(tc, tc_vc(tc));
         for (size_t i = 0; i < tc_vc(tc); i++)
             push_arg(tc, tc_values(tc)[i]);
     } else {
         // single-valued
+        maybe_grow_stack(tc, 1);
         push_arg(tc, x);
     }
 }
-- 
2.43.0


From 4482b7b0a2a68effd6dc70ed09d216c58a77ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 04/64] fix: collect the values of a non-tail values form in
 their own frame

---
 src/core/c/jitcompile.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 4f31bc8..afc6f17 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -298,22 +298,28 @@ static mobj compile_mvlet(mobj expr, mobj env, int tailp) {
 }
 
 static mobj compile_mvvalues(mobj expr, mobj env, int tailp) {
-    mobj vals, ins;
-    
+    mobj vals, ins, label;
+
+    // the values are collected in their own frame: in non-tail position
+    // the current frame may already hold arguments of an application
     vals = minim_cdr(expr);
-    if (minim_nullp(vals)) {
-        ins = Mlist1(Mlist1(do_values_symbol));
-    } else {
-        ins = Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals))));
-        for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
-            list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
-            list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
-        }
+    ins = Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals))));
+    if (!tailp) {
+        label = scope_cenv_make_label(env);
+        ins = Mcons(Mlist2(save_cc_symbol, label), ins);
+    }
 
-        list_set_tail(ins, Mlist2(Mlist1(do_values_symbol), Mlist1(clear_frame_symbol)));
+    for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
+        list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
+        list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
     }
 
-    return with_tail_ret(ins, tailp);
+    list_set_tail(ins, Mlist3(Mlist1(do_values_symbol), Mlist1(clear_frame_symbol), Mlist1(ret_symbol)));
+    if (!tailp) {
+        list_set_tail(ins, Mlist1(label));
+    }
+
+    return ins;
 }
 
 static mobj compile_begin(mobj expr, mobj env, int tailp) {
-- 
2.43.0


From 1513bda6e4b319aa71f97eea70c7a3d7b020b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 05/64] fix: if and set! take a single value, set! of an
 unknown variable is an error

---
 src/core/c/eval.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index bf80114..2b8e398 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -330,6 +330,10 @@ static mobj tl_env_lookup_cell(mobj tc, mobj id) {
 
 static void tl_env_rebind(mobj tc, mobj id, mobj val) {
     mobj cell = top_env_find(tc_tenv(tc), id);
+    if (minim_falsep(cell)) {
+        minim_error1(NULL, "cannot set variable before its definition", id);
+    }
+
     minim_cdar(cell) = val;
 }
 
@@ -549,11 +553,12 @@ application:
         tregs[0] = minim_void;
     } else if (ty == rebind_symbol) {
         // rebind
-        env_rebind(tc, minim_cadr(ins), tregs[0]);
+        env_rebind(tc, minim_cadr(ins), force_single_value(tc, tregs[0]));
         tregs[0] = minim_void;
     } else if (ty == tl_rebind_symbol) {
         // tl-rebind
-        tl_env_rebind(tc, minim_cadr(ins), tregs[0]);
+        tl_env_rebind(tc, minim_cadr(ins), force_single_value(tc, tregs[0]));
+        tregs[0] = minim_void;
     } else if (ty == push_env_symbol) {
         // push-env
         tc_env(tc) = Menv(minim_fixnum(minim_cadr(ins)));
@@ -606,7 +611,7 @@ application:
         goto loop;
     } else if (ty == branchf_symbol) {
         // branchf (jump if #f)
-        if (tregs[0] == minim_false) {
+        if (force_single_value(tc, tregs[0]) == minim_false) {
             istream = (mobj*) minim_fixnum(minim_cadr(ins));
             goto loop;
         }
-- 
2.43.0


From 2ce83c20abcdf5439b2150e78f0eaa381a2970db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 06/64] fix: optimize calls only when the arguments match the
 formals

---
 src/core/c/jitopt.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 5597205..2b17060 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -318,8 +318,6 @@ static mobj jit_opt_L1_values(mobj expr) {
     vals = minim_cdr(expr);
     if (minim_nullp(vals)) {
         return Mlist1(mvvalues_symbol);
-    } else if (minim_nullp(minim_cdr(vals))) {
-        return jit_opt_L1(minim_car(vals));
     } else {
         hd = tl = Mcons(mvvalues_symbol, minim_null);
         for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
@@ -383,7 +381,8 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
 
         if (minim_consp(consumer) &&
             minim_car(consumer) == lambda_symbol &&
-            minim_consp(minim_cadr(consumer))) {
+            minim_consp(minim_cadr(consumer)) &&
+            minim_listp(minim_cadr(consumer))) {
             // (mv-call e (lambda (id ...) body) => (mv-let e (id ...) body)
             mobj body = minim_cddr(consumer);
             return jit_opt_L1(Mlist4(
@@ -440,7 +439,7 @@ mobj jit_opt_L1(mobj expr) {
             } else if (head == values_symbol) {
                 // values form
                 return jit_opt_L1_values(expr);
-            } else if (head == call_with_values_symbol) {
+            } else if (head == call_with_values_symbol && list_length(expr) == 3) {
                 // call-with-values form
                 return jit_opt_L1_mvcall(
                     Mlist3(
@@ -517,7 +516,10 @@ static mobj jit_opt_L2_app(mobj expr) {
     mobj hd, tl, args, body;
 
     hd = minim_car(expr);
-    if (minim_consp(hd) && minim_car(hd) == lambda_symbol && minim_listp(minim_cadr(hd))) {
+    if (minim_consp(hd) &&
+        minim_car(hd) == lambda_symbol &&
+        minim_listp(minim_cadr(hd)) &&
+        list_length(minim_cadr(hd)) == list_length(minim_cdr(expr))) {
         // `((lambda (ids ...) body ...) args ...)`
         // => `(mv-let (values args ...) (ids ...) (begin body ...)`
         args = minim_cdr(expr);
-- 
2.43.0


From 08ef2d9b4e3b3b406d7f98ff40ce144c9ebeeec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 07/64] fix: reject malformed forms instead of reading past
 them

---
 src/core/c/check.c      | 19 +++++++++++++++----
 src/core/c/eval.c       |  4 ++++
 src/core/c/jitcompile.c |  6 +++++-
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 3dad68e..dcb238e 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -130,9 +130,14 @@ static void check_begin(mobj expr) {
 }
 
 // Already assumes `expr` is `(<name> . <???>)`
-// Check: `expr` must be `(<name> <datum> ...)`
+// Check: `expr` must be `(<name> <formals> <datum> ...)`
 static void check_lambda(mobj expr) {
-    mobj args = minim_cadr(expr);
+    mobj args;
+
+    if (!minim_consp(minim_cdr(expr)) || !minim_consp(minim_cddr(expr)))
+        bad_syntax_exn(expr);
+
+    args = minim_cadr(expr);
     for (; minim_consp(args); args = minim_cdr(args)) {
         assert_identifier(expr, minim_car(args));
     }
@@ -143,11 +148,14 @@ static void check_lambda(mobj expr) {
 }
 
 // Already assumes `expr` is `(<name> . <???>)`
-// Check: `expr` must be `(<name> <datum> ...)`
+// Check: `expr` must be `(<name> [<formals> <datum> ...] ...)`
 static void check_case_lambda(mobj expr) {
     mobj clauses, args;
 
     for (clauses = minim_cdr(expr); minim_consp(clauses); clauses = minim_cdr(clauses)) {
+        if (!minim_consp(minim_car(clauses)) || !minim_consp(minim_cdar(clauses)))
+            bad_syntax_exn(expr);
+
         for (args = minim_caar(clauses); minim_consp(args); args = minim_cdr(args))
             assert_identifier(expr, minim_car(args));
 
@@ -214,6 +222,9 @@ loop:
             // begin form
             check_begin(expr);
             expr = minim_cdr(expr);
+            if (minim_nullp(expr))
+                return;
+
             while (!minim_nullp(minim_cdr(expr))) {
                 check_expr(minim_car(expr));
                 expr = minim_cdr(expr);
@@ -224,7 +235,7 @@ loop:
         } else if (minim_listp(expr)) {
             // application
             check_begin(expr);
-            for (expr = minim_cdr(expr); !minim_nullp(expr); expr = minim_cdr(expr)) {
+            for (; !minim_nullp(expr); expr = minim_cdr(expr)) {
                 check_expr(minim_car(expr));
             }
         } else {
diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 2b8e398..5ced02f 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -39,6 +39,9 @@ void arity_mismatch_exn(mobj proc, size_t actual) {
     if (minim_fixnump(arity)) {
         // exact arity
         minim_error2(name, "arity mismatch", arity, Mfixnum(actual));
+    } else if (minim_nullp(arity)) {
+        // no clauses
+        minim_error1(name, "arity mismatch", Mfixnum(actual));
     } else {
         // range of arities
         mobj min_arity = minim_car(arity);
@@ -588,6 +591,7 @@ application:
         arity_mismatch_exn(tc_cp(tc), tc_ac(tc));
     } else if (ty == do_eval_symbol) {
         // do-eval
+        check_expr(tregs[0]);
         tregs[0] = Mclosure(Menv(0), compile_expr(tregs[0]), 0);
     } else if (ty == do_raise_symbol) {
         // do-raise
diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index afc6f17..8346d40 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -203,7 +203,11 @@ static mobj compile_case_lambda2(mobj expr, mobj env, mobj fvs, mobj bounds, int
     }
 
     // arity exception
-    list_set_tail(ins, Mlist2(label, Mlist1(do_arity_error_symbol)));
+    if (label) {
+        list_set_tail(ins, Mlist2(label, Mlist1(do_arity_error_symbol)));
+    } else {
+        ins = Mlist1(Mlist1(do_arity_error_symbol));
+    }
 
     // resolve references
     reloc = resolve_refs(env, ins);
-- 
2.43.0


From 50ad406803820a308abc75221fc2178fe055cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 08/64] fix: nested evaluation runs on its own stack with its
 own reentry point

---
 src/core/c/error.c  |  2 +-
 src/core/c/eval.c   | 44 ++++++++++++++++++++++++++++++++++++++++++--
 src/core/c/thread.c |  2 +-
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/core/c/error.c b/src/core/c/error.c
index b7ecb3a..b52e8e4 100644
--- a/src/core/c/error.c
+++ b/src/core/c/error.c
@@ -4,7 +4,7 @@
 
 NORETURN static void do_error2(const char *name, const char *msg, mobj args) {
     mobj tc = current_tc();
-    if (minim_nullp(tc_ccont(tc)) || minim_falsep(tc_c_error_handler(tc))) {
+    if (tc_reentry(tc) == NULL || minim_falsep(tc_c_error_handler(tc))) {
         // exception cannot be handled by runtime
         if (name) fprintf(stderr, "Error in %s: %s", name, msg);
         else fprintf(stderr, "Error: %s", msg);
diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 5ced02f..f7e1a2d 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -717,6 +717,46 @@ not_procedure:
 }
 
 mobj eval_expr(mobj tc, mobj expr) {
-    mobj code = compile_expr(expr);
-    return eval_istream(tc, minim_code_it(code));
+    mobj code, result;
+    mobj *sfp, *esp, *stack_base;
+    mobj cp, ccont, stack_link;
+    size_t ac, size;
+    jmp_buf reentry, *prev_reentry;
+
+    code = compile_expr(expr);
+
+    // the evaluator may be running already (`load`), so stash its state
+    ac = tc_ac(tc);
+    cp = tc_cp(tc);
+    sfp = tc_sfp(tc);
+    esp = tc_esp(tc);
+    ccont = tc_ccont(tc);
+    stack_base = tc_stack_base(tc);
+    size = tc_stack_size(tc);
+    stack_link = tc_stack_link(tc);
+    prev_reentry = tc_reentry(tc);
+
+    tc_reentry(tc) = &reentry;
+    if (prev_reentry) {
+        // the evaluation must stop at its own frame: start a new stack
+        tc_stack_base(tc) = GC_alloc(stack_size);
+        tc_stack_size(tc) = stack_size;
+        tc_stack_link(tc) = minim_null;
+        tc_sfp(tc) = tc_stack_base(tc);
+        tc_esp(tc) = ptr_add(tc_sfp(tc), tc_stack_size(tc) - stack_slop);
+        tc_ccont(tc) = minim_null;
+    }
+
+    result = eval_istream(tc, minim_code_it(code));
+
+    tc_reentry(tc) = prev_reentry;
+    tc_stack_link(tc) = stack_link;
+    tc_stack_size(tc) = size;
+    tc_stack_base(tc) = stack_base;
+    tc_ccont(tc) = ccont;
+    tc_esp(tc) = esp;
+    tc_sfp(tc) = sfp;
+    tc_cp(tc) = cp;
+    tc_ac(tc) = ac;
+    return result;
 }
diff --git a/src/core/c/thread.c b/src/core/c/thread.c
index aa9db0e..98c908c 100644
--- a/src/core/c/thread.c
+++ b/src/core/c/thread.c
@@ -19,7 +19,7 @@ mobj Mthread_context() {
     tc_stack_base(tc) = NULL;
     tc_stack_size(tc) = 0;
     tc_stack_link(tc) = minim_null;
-    tc_reentry(tc) = GC_alloc(sizeof(jmp_buf));
+    tc_reentry(tc) = NULL;
     tc_input_port(tc) = Minput_port(stdin);
     tc_output_port(tc) = Moutput_port(stdout);
     tc_error_port(tc) = Moutput_port(stderr);
-- 
2.43.0


From cdd9fff2da33d7d77d59758ec6a335603bdc4d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 09/64] fix: division, remainder and modulo compute their
 results and reject zero

---
 src/core/c/number.c    |  9 +++++++--
 src/core/s/prelude.min | 34 +++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/core/c/number.c b/src/core/c/number.c
index bb160ab..47d9ffe 100644
--- a/src/core/c/number.c
+++ b/src/core/c/number.c
@@ -41,11 +41,16 @@ mobj fx2_mul(mobj x, mobj y) {
 
 mobj fx2_div(mobj x, mobj y) {
     // (-> integer integer integer)
+    // dividing by -1 is a negation: the machine division may trap
+    if (minim_fixnum(y) == -1)
+        return Mfixnum(0 - (size_t) minim_fixnum(x));
     return Mfixnum(minim_fixnum(x) / minim_fixnum(y));
 }
 
 mobj fx_remainder(mobj x, mobj y) {
     // (-> integer integer integer)
+    if (minim_fixnum(y) == -1)
+        return Mfixnum(0);
     return Mfixnum(minim_fixnum(x) % minim_fixnum(y));
 }
 
@@ -53,8 +58,8 @@ mobj fx_modulo(mobj x, mobj y) {
     // (-> integer integer integer)
     mfixnum xv = minim_fixnum(x);
     mfixnum yv = minim_fixnum(y);
-    mfixnum z = xv % yv;
-    if ((xv < 0) != (yv < 0))
+    mfixnum z = (yv == -1) ? 0 : xv % yv;
+    if (z != 0 && (z < 0) != (yv < 0))
         z += yv;
     return Mfixnum(z);
 }
diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 46c9fad..3798517 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -657,41 +657,41 @@
                                              (loop ($fx2* x ($car xs)) ($cdr xs))
                                              (non-number-error '* ($car xs)))))])
                    (loop ($fx2* x y) rest))
-                 (non-number-error '* x))
-             (non-number-error '* y))])
+                 (non-number-error '* y))
+             (non-number-error '* x))])
       ; /
       (case-lambda
         [(x)
          (if (number? x)
              (if (zero? x)
-                 (division-0-error '/ x)
+                 (divide-0-error '/ x)
                  ($fx2/ 1 x))
              (non-number-error '/ x))]
         [(x y)
          (if (number? x)
              (if (number? y)
                  (if (zero? y)
-                     (division-0-error '/ y)
+                     (divide-0-error '/ y)
                      ($fx2/ x y))
-                 (non-number-error '- y))
-             (non-number-error '- x))]
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]
         [(x y . rest)
          (if (number? x)
              (if (number? y)
                  (if (zero? y)
-                     (division-0-error '/ y)
+                     (divide-0-error '/ y)
                      (letrec-values ([(loop)
                                       (lambda (x xs)
                                          (if (null? xs)
                                              x
                                              (if (number? ($car xs))
                                                  (if (zero? ($car xs))
-                                                     (division-0-error '/ ($car xs))
-                                                     (loop ($fx2- x ($car xs)) ($cdr xs)))
-                                                 (non-number-error '- ($car xs)))))])
-                       (loop ($fx2- x y) rest)))
-                 (non-number-error '- y))
-             (non-number-error '- x))]))))
+                                                     (divide-0-error '/ ($car xs))
+                                                     (loop ($fx2/ x ($car xs)) ($cdr xs)))
+                                                 (non-number-error '/ ($car xs)))))])
+                       (loop ($fx2/ x y) rest)))
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]))))
 
 (define-values (add1)
   (lambda (x)
@@ -709,7 +709,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxremainder x y)
+            (if (zero? y)
+                (error 'remainder "division by zero" y)
+                ($fxremainder x y))
             (raise-argument-error 'remainder "number?" y))
         (raise-argument-error 'remainder "number?" x))))
 
@@ -717,7 +719,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxmodulo x y)
+            (if (zero? y)
+                (error 'modulo "division by zero" y)
+                ($fxmodulo x y))
             (raise-argument-error 'modulo "number?" y))
         (raise-argument-error 'modulo "number?" x))))
 
-- 
2.43.0


From 3bf1d18e36a35e2e2a9c7ef38df5252994582a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 10/64] fix: error paths of the prelude refer to bound
 variables

---
 src/core/s/prelude.min | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 3798517..b02e392 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -815,8 +815,8 @@
                   (if (non-negative-integer? n)
                       (if (char? c)
                           (void)
-                          (raise-argument-error 'make-string "char?" init))
-                      (raise-argument-error 'make-string "non-negative-integer?" len)))])
+                          (raise-argument-error 'make-string "char?" c))
+                      (raise-argument-error 'make-string "non-negative-integer?" n)))])
     (case-lambda
       [(n)
        (check-args! n #\a)
@@ -859,7 +859,7 @@
                   (for-each (lambda (x)
                               (if (string? x)
                                   (void)
-                                  (raise-argument-error 'string-append "string?" s)))
+                                  (raise-argument-error 'string-append "string?" x)))
                             xs))]
                [(sum-lengths)
                 (lambda (xs)
@@ -1200,7 +1200,7 @@
   (lambda (str)
     (if (string? str)
         ($open-input-string str)
-        (raise-argument-error 'open-input-string "string?" name))))
+        (raise-argument-error 'open-input-string "string?" str))))
 
 (define-values (close-input-port)
   (lambda (port)
@@ -1396,7 +1396,7 @@
                              (lambda args
                                (if (= (length args) size)
                                    ($make-record rtd args)
-                                   (raise-arity-error make size (length args))))])
+                                   (raise-arity-error (procedure-name make) size (length args))))])
               make)
             (raise-argument-error
               'record-constructor
@@ -1763,7 +1763,7 @@
                              (errorf 'do-table-ref "unknown mode: ~a" mode))))]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-desriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
@@ -1819,7 +1819,7 @@
   (letrec-values ([($writer-table) (make-eq-hashtable)]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-desriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
@@ -1982,8 +1982,8 @@
                     (if (<= start len)
                         (if (<= (+ start n) len)
                             ($put-string p s start n)
-                            (raise-range-error 'put-string str "end" 0 (+ len 1) (+ start n)))
-                        (raise-range-error 'put-string str "start" 0 (+ len 1) start))))])
+                            (raise-range-error 'put-string s "end" 0 (+ len 1) (+ start n)))
+                        (raise-range-error 'put-string s "start" 0 (+ len 1) start))))])
     (case-lambda
       [(p s)
        (if (output-port? p)
@@ -2355,7 +2355,8 @@
 (define-values (environment-ref)
   (letrec-values ([(default-fail)
                    (lambda (env k)
-                     (raise-missing-error 'environment-ref "key" env k))]
+                     (lambda ()
+                       (raise-missing-error 'environment-ref "key" env k)))]
                   [(1/environment-ref)
                    (lambda (env k fail)
                      (if (environment? env)
@@ -2366,11 +2367,11 @@
                                        (fail)
                                        fail)
                                    v))
-                             (raise-arugment-error 'environment-ref "symbol?" k))
-                         (raise-arugment-error 'environment-ref "environment?" env)))])        
+                             (raise-argument-error 'environment-ref "symbol?" k))
+                         (raise-argument-error 'environment-ref "environment?" env)))])        
     (case-lambda
       [(env k)
-       (1/environment-ref env k default-fail)]
+       (1/environment-ref env k (default-fail env k))]
       [(env k fail)
        (1/environment-ref env k fail)])))
 
-- 
2.43.0


From a57403789256ae2d3f7b0bf78e98e1852453006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 11/64] fix: write-char writes the character

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index b02e392..2704414 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2020,12 +2020,12 @@
   (case-lambda
     [(c)
      (if (char? c)
-         ($write-char c (current-output-port))
+         ($put-char (current-output-port) c)
          (raise-argument-error 'write-char "char?" c))]
     [(c p)
      (if (char? c)
          (if (output-port? p)
-             ($write-char c p)
+             ($put-char p c)
              (raise-argument-error 'write-char "output-port?" p))
          (raise-argument-error 'write-char "char?" c))]))
 
-- 
2.43.0


From f41c4e8c6c0289d03b5aecfa772daa69d23ca1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 12/64] fix: ~~ in a format string writes a tilde

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 2704414..85ffdff 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2193,7 +2193,7 @@
                                                                 (if (eq? nc #\%)
                                                                     (loop (+ n 2) args)
                                                                     (if (eq? nc #\~)
-                                                                        (loop (+ n 2) xs)
+                                                                        (loop (+ n 2) args)
                                                                         (errorf who "unknown format directive `~a`" nc)))))))
                                                   (loop (+ n 1) args)))))])
                        (loop 0 '())))]                                                
-- 
2.43.0


From 02127bb37c303c2861ff2757442d2ad1a12ad99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 13/64] fix: a record type inherits the writer of its parent

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 85ffdff..3ca71b0 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1319,7 +1319,7 @@
                   (record-type-hash-procedure rtd rec-hash)
                   (void))
               (if rec-writer
-                  (record-writer rec-writer)
+                  (record-writer rtd rec-writer)
                   (void)))
             (void))
         rtd))))
-- 
2.43.0


From aa405699fb42f1e274317401bb0fa5ab0d751454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 14/64] fix: write and display boxes the way the reader accepts
 them

---
 src/core/s/prelude.min | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 3ca71b0..a58f132 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2042,6 +2042,7 @@
                      (if (char? x) (if d? (put-char p x) (wrchar x p))
                      (if (string? x) (if d? (put-string p x) (wrstring x p))
                      (if (vector? x) (wrvector x d? p)
+                     (if (box? x) (wrbox x d? p)
                      (if (eof-object? x) (put-string p "#<eof>")
                      (if (void? x) (put-string p "#<void>")
                      (if (input-port? x) (put-string p "#<input port>")
@@ -2051,7 +2052,7 @@
                      (if (environment? x) (put-string p "#<environment>")
                      (if (record-type-descriptor? x) (wrrtd x d? p)
                      (if ($record-value? x) (wrrecord x d? p)
-                     (put-string p "#<garbage>")))))))))))))))))))]
+                     (put-string p "#<garbage>"))))))))))))))))))))]
                   ; character writer
                   [(wrchar)
                    (lambda (x p)
@@ -2120,6 +2121,11 @@
                                               (loop (+ i 1) #\space))))])
                        (loop 0 lparen))
                      (put-char p rparen))]
+                  ; box writer
+                  [(wrbox)
+                   (lambda (x d? p)
+                     (put-string p "#&")
+                     (wr (unbox x) d? p))]
                   ; record type writer
                   [(wrrtd)
                    (lambda (x d? p)
-- 
2.43.0


From 382b6a935e8c535c7adb0339efed6d0fa5a132e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 15/64] fix: procedure-rename leaves the original procedure
 alone

---
 src/core/c/procedure.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/procedure.c b/src/core/c/procedure.c
index 4369ca8..09fe503 100644
--- a/src/core/c/procedure.c
+++ b/src/core/c/procedure.c
@@ -52,6 +52,6 @@ mobj procedure_rename_proc(mobj proc, mobj id) {
         minim_closure_ref(proc2, i) = minim_closure_ref(proc, i);
     }
 
-    minim_closure_name(proc) = id;
-    return proc;
+    minim_closure_name(proc2) = id;
+    return proc2;
 }
-- 
2.43.0


From d830d71927d47d732dd57f619ad1920ea9ce31ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 16/64] fix: intern symbols in the bucket of the resized table

---
 src/core/c/symbol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/symbol.c b/src/core/c/symbol.c
index 589a607..f7afd8d 100644
--- a/src/core/c/symbol.c
+++ b/src/core/c/symbol.c
@@ -173,7 +173,7 @@ mobj intern_symbol(intern_table *itab, const char *sym) {
 
     // update table
     resize_if_needed(itab);
-    intern_table_insert(itab, idx, obj);
+    intern_table_insert(itab, h % itab->alloc, obj);
     return obj;
 }
 
-- 
2.43.0


From 75a56d53c219352cb60f9baae0baaf0c6f2d8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 17/64] fix: string->list stops at the last character

---
 src/core/c/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index 8de8d31..b2a728f 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -103,7 +103,7 @@ mobj list_to_string(mobj xs) {
 mobj string_to_list(mobj s) {
     // (-> string (listof char))
     mobj lst = minim_null;
-    for (long i = strlen(minim_string(s)); i >= 0; i--)
+    for (long i = (long) strlen(minim_string(s)) - 1; i >= 0; i--)
         lst = Mcons(Mchar(minim_string(s)[i]), lst);
     return lst;
 }
-- 
2.43.0


From ee954efc72a84313429b2ca6d9b006cc048efaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 18/64] fix: inline a producer only when it is called without
 arguments

---
 src/core/c/jitopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 2b17060..306e733 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -338,7 +338,7 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
     if (minim_consp(e)) {
         if (minim_consp(minim_car(e)) && minim_caar(e) == lambda_symbol) {
             producer = minim_car(e);
-            if (minim_nullp(minim_cadr(producer))) {
+            if (minim_nullp(minim_cadr(producer)) && minim_nullp(minim_cdr(e))) {
                 // producer is `(lambda () e ...)`
                 body = minim_cddr(producer);
                 if (minim_nullp(minim_cdr(body))) {
-- 
2.43.0


From d84dd92f1c5436154276a6acc73359f73dc8ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 19/64] fix: comparisons return a boolean and check every
 argument

---
 src/core/s/prelude.min | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index a58f132..70faf34 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -530,7 +530,7 @@
                      (case-lambda
                        [(x)
                         (if (number? x)
-                            x
+                            #t
                             (non-number-error who x))]
                        [(x y)
                         (if (number? x)
@@ -540,14 +540,21 @@
                             (non-number-error who x))]
                        [(x . rest)
                         (if (number? x)
-                            (letrec-values ([(loop)
+                            (letrec-values ([(check)
+                                             (lambda (xs)
+                                               (if (null? xs)
+                                                   #f
+                                                   (if (number? ($car xs))
+                                                       (check ($cdr xs))
+                                                       (non-number-error who ($car xs)))))]
+                                            [(loop)
                                              (lambda (x xs)
                                                (if (null? xs)
                                                    #t
                                                    (if (number? ($car xs))
                                                        (if (cmp x ($car xs))
                                                            (loop ($car xs) ($cdr xs))
-                                                           #f)
+                                                           (check ($cdr xs)))
                                                        (non-number-error who ($car xs)))))])
                               (loop x rest))
                             (non-number-error who x))]))])
-- 
2.43.0


From 58d18806957094a032d648592c37f1c3787598de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 20/64] fix: vector index errors are range errors

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 70faf34..b83c250 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1140,7 +1140,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-ref "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-ref v "" 0 ($vector-length v) idx)
                 ($vector-ref v idx))
             (raise-argument-error 'vector-ref "non-negative-integer?" idx))
         (raise-argument-error 'vector-ref "vector?" v))))
@@ -1150,7 +1150,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-set! "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-set! v "" 0 ($vector-length v) idx)
                 ($vector-set! v idx x))
             (raise-argument-error 'vector-set! "non-negative-integer?" idx))
         (raise-argument-error 'vector-set! "vector?" v))))
-- 
2.43.0


From 53eca3569423f71630ae42ca96543677f60c55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 21/64] fix: substring checks its string first and reports the
 start out of range

---
 src/library/private/string.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/private/string.min b/src/library/private/string.min
index 183f2fc..2d5973c 100644
--- a/src/library/private/string.min
+++ b/src/library/private/string.min
@@ -6,9 +6,9 @@
 (export substring)
 
 (define (substring str start end)
-  (define len (string-length str))
   (unless (string? str)
     (raise-argument-error 'substring "string?" str))
+  (define len (string-length str))
   (unless (non-negative-integer? start)
     (raise-argument-error 'substring "non-negative-integer?" start))
   (unless (non-negative-integer? end)
@@ -16,7 +16,7 @@
   (unless (<= end len)
     (raise-range-error 'substring str "end" 0 (+ len 1) end))
   (unless (<= start end)
-    (raise-range-error 'substring str "start" 0 end))
+    (raise-range-error 'substring str "start" 0 (+ end 1) start))
   (define sstr (make-string (- end start)))
   (let loop ([i 0] [n start])
     (cond
-- 
2.43.0


From 985c8b686a85b540648602dafd79ca554b3e1094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:34 +0000
Subject: [PATCH 22/64] fix: string-append of one string returns a new string

---
 src/core/s/prelude.min | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index b83c250..3a09cb8 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -878,9 +878,6 @@
                     (loop xs 0)))])
     (case-lambda
       [() ""]
-      [(x)
-       (check-args! (list x))
-       x]
       [(x . xs)
        (let-values ([(xs) (cons x xs)])
          (check-args! xs)
-- 
2.43.0


From 6ef15293c0fcdf4f7e2e900eed9598270bff266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:11 +0000
Subject: [PATCH 23/64] fix: hashtable-update! keeps the update when a callback
 changes the table

---
 src/core/s/prelude.min | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 3a09cb8..828cd4a 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1656,16 +1656,9 @@
     
     [(1/hashtable-update!)
      (lambda (ht k updater default)
-       (letrec-values ([(h) (do-hash (hashtable-hash-proc ht) k)]
-                       [(cell) (1/hashtable-cell-ref ht h k)])
-         (if cell
-             (set-cdr! cell (updater ($cdr cell)))
-             (let-values ([(store) ($hashtable-store ht)]
-                          [(cell) (cons k (if (procedure? default)
-                                              (updater (default))
-                                              (updater default)))])
-               ($hashtable-set! store h (cons cell ($hashtable-ref store h)))
-               (incr-size! ht store)))))]
+       ; `updater` and `default` may change the table
+       (let-values ([(v) (updater (1/hashtable-ref ht k default))])
+         (1/hashtable-set! ht k v)))]
 
     [(no-key!)
      (lambda (who ht k)
-- 
2.43.0


From 0b4da605019f1f9a14868d99f3ea9057789b3f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:11 +0000
Subject: [PATCH 24/64] fix: equal hashtables have the same size and the same
 hash

---
 src/core/s/prelude.min | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 828cd4a..894f7e8 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1853,15 +1853,17 @@
                    (lambda (a b)
                      (if (eq? (hashtable-hash-proc a) (hashtable-hash-proc b))
                          (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
-                             (let-values ([(kas vas) (hashtable-entries a)])
-                               (andmap
-                                 (lambda (i)
-                                   (let-values ([(ka) ($vector-ref kas i)]
-                                                [(va) ($vector-ref vas i)])
-                                     (if (hashtable-contains? b ka)
-                                         (equal? va (hashtable-ref b ka))
-                                         #f)))
-                                 (iota ($vector-length kas))))
+                             (if (= (hashtable-size a) (hashtable-size b))
+                                 (let-values ([(kas vas) (hashtable-entries a)])
+                                   (andmap
+                                     (lambda (i)
+                                       (let-values ([(ka) ($vector-ref kas i)]
+                                                    [(va) ($vector-ref vas i)])
+                                         (if (hashtable-contains? b ka)
+                                             (equal? va (hashtable-ref b ka))
+                                             #f)))
+                                     (iota ($vector-length kas))))
+                                 #f)
                              #f)
                          #f))])
     (lambda (a b)
@@ -1922,7 +1924,7 @@
                         (if (box? x)
                             (loop (unbox x) (+ hc 410225874))
                             (if (hashtable? x)
-                                (loop (hashtable->list x) hc)
+                                (eq-hash (hashtable-size x))
                                 (if ($record-value? x)
                                     (let-values ([(proc) (record-hash-procedure x)])
                                       (if proc
-- 
2.43.0


From f144a7d94e4ea448d9132f765d2027ebb60a32cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:11 +0000
Subject: [PATCH 25/64] fix: default-record-equal-procedure and -hash-procedure
 set and return their own procedure

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 894f7e8..2f406e6 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1725,7 +1725,7 @@
     [() ($default-record-equal-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-equal-procedure proc)
+         ($default-record-equal-procedure-set! proc)
          (raise-argument-error 'default-record-equal-procedure
                                "procedure?"
                                proc))]))
@@ -1733,10 +1733,10 @@
 ; TODO: thread parameter
 (define-values (default-record-hash-procedure)
   (case-lambda
-    [() ($default-record-equal-procedure)]
+    [() ($default-record-hash-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-hash-procedure proc)
+         ($default-record-hash-procedure-set! proc)
          (raise-argument-error 'default-record-hash-procedure
                                "procedure?"
                                proc))]))
-- 
2.43.0


From 5ec74ea545c296b25067248b58600b392e568ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:11 +0000
Subject: [PATCH 26/64] fix: the equal hash reads the characters of strings
 only

---
 src/core/c/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/hashtable.c b/src/core/c/hashtable.c
index 1987771..461f086 100644
--- a/src/core/c/hashtable.c
+++ b/src/core/c/hashtable.c
@@ -237,7 +237,7 @@ mobj equal_hash_proc(mobj x) {
     size_t hc;
     if (minim_symbolp(x)) {
         hc = hash_bytes(minim_symbol(x), strlen(minim_symbol(x)), hash_init);
-    } else if (minim_string(x)) {
+    } else if (minim_stringp(x)) {
         hc = hash_bytes(minim_string(x), strlen(minim_string(x)), hash_init);
     } else {
         hc = eq_hash(x);
-- 
2.43.0


From 732f46662c9ec14c3bc060788a8cc3983b609f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:11 +0000
Subject: [PATCH 27/64] fix: hashtable errors name the procedure that was
 called

---
 src/core/s/prelude.min | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 2f406e6..5622c99 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1494,7 +1494,7 @@
   (lambda (ht)
     (if (hashtable? ht)
         ($hashtable-size ($hashtable-store ht))
-        (raise-argument-error 'hashtable-set! "hashtable?" ht))))
+        (raise-argument-error 'hashtable-size "hashtable?" ht))))
 
 (define-values (hashtable-entries hashtable-keys hashtable-vals)
   (let-values ([(check-arg!)
@@ -1520,7 +1520,7 @@
           (loop ($hashtable-cells store) 0)))
       ; hashtable-keys
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
+        (check-arg! 'hashtable-keys ht)
         (letrec-values ([(store) ($hashtable-store ht)]
                         [(size) ($hashtable-size store)]
                         [(keys) ($make-vector size #f)]
@@ -1533,7 +1533,7 @@
           (loop ($hashtable-cells store) 0)))
       ; hashtable-vals
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
+        (check-arg! 'hashtable-vals ht)
         (letrec-values ([(store) ($hashtable-store ht)]
                         [(size) ($hashtable-size store)]
                         [(vals) ($make-vector size #f)]
@@ -1673,7 +1673,7 @@
       (lambda (ht k)
         (if (hashtable? ht)
             (1/hashtable-contains? ht k)
-            (non-hashtable-error 'hashtable-set! ht)))
+            (non-hashtable-error 'hashtable-contains? ht)))
       ; hashtable-ref
       (case-lambda
         [(ht k)
@@ -1695,7 +1695,7 @@
          (if (hashtable? ht)
              (if (procedure? updater)
                  (1/hashtable-update! ht k updater
-                                      (lambda () (no-key! 'hashtable-update ht k)))
+                                      (lambda () (no-key! 'hashtable-update! ht k)))
                  (raise-argument-error 'hashtable-update! "procedure?" updater))
              (non-hashtable-error 'hashtable-update! ht))]
         [(ht k updater default)
@@ -1708,7 +1708,7 @@
       (lambda (ht k)
         (if (hashtable? ht)
             (1/hashtable-cell-delete! ht k)
-            (non-hashtable-error 'hashtable-set! ht))))))
+            (non-hashtable-error 'hashtable-delete! ht))))))
 
 (define-values (hashtable-clear!)
   (lambda (ht)
-- 
2.43.0


From 06946f2fdcbd78bc1cd9fb78d3fdfeaca1e6a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:56 +0000
Subject: [PATCH 28/64] fix: the reader tells byte 255 from the end of input

---
 src/core/c/read.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 8b216bd..1087e74 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -14,19 +14,19 @@ static int is_symbol_char(int c) {
     return !is_delimeter(c);
 }
 
-static void assert_not_eof(char c) {
+static void assert_not_eof(int c) {
     if (c == EOF) {
         minim_error("read_object", "unexpected end of input");
     }
 }
 
-static void assert_delimeter(char c) {
+static void assert_delimeter(int c) {
     if (!is_delimeter(c)) {
         minim_error1("read_object", "expected delimeter", Mchar(c));
     }
 }
 
-static void assert_matching_paren(char open, char closed) {
+static void assert_matching_paren(int open, int closed) {
     if (!(open == '(' && closed == ')') && 
         !(open == '[' && closed == ']') &&
         !(open == '{' && closed == '}')) {
@@ -186,7 +186,7 @@ static mobj read_char(FILE *in) {
     return Mchar(c);
 }
 
-static mobj read_pair(FILE *in, char open_paren) {
+static mobj read_pair(FILE *in, int open_paren) {
     mobj car, cdr;
     int c;
 
@@ -258,7 +258,7 @@ mobj read_object(FILE *in) {
     char buffer[symbol_max_len];
     long num, i, block_level;
     short sign;
-    char c;
+    int c;
 
 loop:
 
-- 
2.43.0


From be81164afe8b1ca55d2de8e2b8550ca52a7d4afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:56 +0000
Subject: [PATCH 29/64] fix: characters are bytes 0 to 255

---
 src/core/minim.h       | 2 +-
 src/core/s/prelude.min | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/minim.h b/src/core/minim.h
index 780069c..e1971d3 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -175,7 +175,7 @@ extern mobj minim_unbound;
 // +------------+
 #define minim_char_size         ptr_size
 #define minim_charp(o)          (minim_type(o) == MINIM_OBJ_CHAR)
-#define minim_char(o)           (*((char *) ptr_add(o, 4)))
+#define minim_char(o)           (*((unsigned char *) ptr_add(o, 4)))
 
 #define NUL_CHAR        ((mchar) 0x00)      // null
 #define BEL_CHAR        ((mchar) 0x07)      // alarm / bell
diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 5622c99..5c0fd18 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -793,9 +793,9 @@
 
 (define-values (integer->char)
   (lambda (x)
-    (if (integer? x) ; TODO: bounds on characters
+    (if (if (integer? x) (if (>= x 0) (<= x 255) #f) #f)
         ($integer->char x)
-        (raise-argument-error 'integer->char "integer?" x))))
+        (raise-argument-error 'integer->char "integer in [0, 255]" x))))
 
 ;; --------------------------------------------------------
 ;; String
-- 
2.43.0


From 9db15c55422271b8ce3d499e26fb5ed846696576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:22 +0000
Subject: [PATCH 30/64] fix: the reader handles comments before a closing
 parenthesis, ends of input inside a datum, tokens of any length, signs and
 deep nesting

---
 src/core/c/read.c | 406 +++++++++++++++++++++++-----------------------
 1 file changed, 202 insertions(+), 204 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 1087e74..8a31d7e 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -1,6 +1,7 @@
 // read.c: reader
 
 #include "../minim.h"
+#include <limits.h>
 
 static int is_delimeter(int c) {
     return isspace(c) || c == EOF || 
@@ -53,6 +54,10 @@ static int is_cons_dot(FILE *in, int c) {
     return isspace(c);
 }
 
+static int is_closing_paren(int c) {
+    return c == ')' || c == ']' || c == '}';
+}
+
 static void skip_whitespace(FILE *in) {
     int c;
 
@@ -186,86 +191,200 @@ static mobj read_char(FILE *in) {
     return Mchar(c);
 }
 
-static mobj read_pair(FILE *in, int open_paren) {
-    mobj car, cdr;
-    int c;
+// Data nested deeper than this are rejected, they would exhaust the C stack
+#define read_max_depth      20000
 
-    skip_whitespace(in);
-    c = getc(in);
-    assert_not_eof(c);
+// Text of a token; any length
+typedef struct {
+    char *chars;
+    size_t len, alloc;
+} token;
+
+static void token_add(token *t, int c) {
+    if (t->len + 1 >= t->alloc) {
+        char *chars;
+        size_t alloc = t->alloc ? 2 * t->alloc : 64;
 
-    if (c == ')' || c == ']' || c == '}') {
-        // empty list
-        assert_matching_paren(open_paren, c);
-        return minim_null;
+        chars = GC_alloc_atomic(alloc * sizeof(char));
+        if (t->len > 0) memcpy(chars, t->chars, t->len);
+        t->chars = chars;
+        t->alloc = alloc;
     }
 
-    ungetc(c, in);
-    car = read_object(in);
+    t->chars[t->len++] = c;
+    t->chars[t->len] = '\0';
+}
 
-    skip_whitespace(in);
-    c = fgetc(in);
-    assert_not_eof(c);
+// Reads the remaining characters of a symbol, starting at `c`
+static mobj read_symbol(FILE *in, token *t, int c) {
+    for (; is_symbol_char(c); c = getc(in))
+        token_add(t, c);
 
-    if (is_cons_dot(in, c)) {
-        // improper list
-        peek_expected_delimeter(in);
-        cdr = read_object(in);
+    assert_delimeter(c);
+    ungetc(c, in);
+    return intern(t->chars);
+}
+
+static int digit_value(int c) {
+    if ('0' <= c && c <= '9')       return c - '0';
+    else if ('a' <= c && c <= 'f')  return 10 + (c - 'a');
+    else if ('A' <= c && c <= 'F')  return 10 + (c - 'A');
+    else                            return 16;
+}
 
-        skip_whitespace(in);
+// Reads a number in the given base, starting at `c`
+// if we encounter a non-digit, the token is a symbol
+static mobj read_number(FILE *in, int c, int base) {
+    token t = { NULL, 0, 0 };
+    unsigned long num, limit;
+    int neg, digits, overflow;
+
+    // optional sign
+    neg = (c == '-');
+    if (c == '-' || c == '+') {
+        token_add(&t, c);
         c = getc(in);
-        assert_not_eof(c);
+    }
 
-       if (c == ')' || c == ']' || c == '}') {
-            // list read
-            assert_matching_paren(open_paren, c);
-            return Mcons(car, cdr);
-        }
+    // magnitude
+    limit = neg ? ((unsigned long) LONG_MAX) + 1 : LONG_MAX;
+    num = digits = overflow = 0;
+    for (; digit_value(c) < base; c = getc(in)) {
+        token_add(&t, c);
+        if (num > (limit - digit_value(c)) / base) overflow = 1;
+        num = num * base + digit_value(c);
+        digits = 1;
+    }
 
-        minim_error1("read_object", "expected pair terminator", Mchar(c));      
-    } else {
-        // list
-        ungetc(c, in);
-        cdr = read_pair(in, open_paren);
-        return Mcons(car, cdr);
+    if (is_symbol_char(c))
+        return read_symbol(in, &t, c);
+
+    assert_delimeter(c);
+    ungetc(c, in);
+    if (digits == 0) {
+        minim_error("read_object", "expected digits");
+    } else if (overflow) {
+        minim_error1("read_object", "number out of range", Mstring(t.chars));
     }
+
+    return Mfixnum((long) (neg ? 0 - num : num));
 }
 
-static mobj read_vector(FILE *in) {
-    mobj l;
+static mobj read_string(FILE *in) {
+    token t = { NULL, 0, 0 };
     int c;
 
-    l = minim_null;
-    while (1) {
-        skip_whitespace(in);
-        c = peek_char(in);
-        if (c == ')') {
-            read_char(in);
-            break;
+    while ((c = getc(in)) != '"') {
+        assert_not_eof(c);
+        if (c == '\\') {
+            c = getc(in);
+            assert_not_eof(c);
+            switch (c) {
+            case 'a':  c = BEL_CHAR; break;
+            case 'b':  c = BS_CHAR;  break;
+            case 'f':  c = FF_CHAR;  break;
+            case 'n':  c = '\n';     break;
+            case 'r':  c = CR_CHAR;  break;
+            case 't':  c = '\t';     break;
+            case 'v':  c = VT_CHAR;  break;
+            case '\\': case '\'': case '"':
+                break;
+            default:
+                minim_error1("read_object", "unknown escape character", Mchar(c));
+            }
         }
 
-        l = Mcons(read_object(in), l);
+        token_add(&t, c);
     }
 
-    if (minim_nullp(l)) {
-        return minim_empty_vec;
-    } else {
-        return list_to_vector(list_reverse(l));
+    return Mstring(t.len == 0 ? "" : t.chars);
+}
+
+static void skip_block_comment(FILE *in) {
+    int c, prev, level;
+
+    prev = 0;
+    level = 1;
+    while (level > 0) {
+        c = getc(in);
+        assert_not_eof(c);
+        if (prev == '#' && c == '|') {
+            ++level;
+            prev = 0;
+        } else if (prev == '|' && c == '#') {
+            --level;
+            prev = 0;
+        } else {
+            prev = c;
+        }
     }
 }
 
-mobj read_object(FILE *in) {
-    char buffer[symbol_max_len];
-    long num, i, block_level;
-    short sign;
+static mobj read_datum(FILE *in, int *end, int depth);
+
+// Reads a datum that must be there
+static mobj read_required(FILE *in, int depth) {
+    mobj o;
+    int end;
+
+    end = 0;
+    o = read_datum(in, &end, depth);
+    if (o == NULL) {
+        assert_not_eof(end);
+        minim_error1("read_object", "unexpected input", Mchar(end));
+    }
+
+    return o;
+}
+
+// Reads elements up to the closing parenthesis
+static mobj read_list(FILE *in, int open_paren, int improper, int depth) {
+    mobj hd, tl, o;
+    int end;
+
+    hd = tl = minim_null;
+    while (1) {
+        end = (improper && !minim_nullp(hd)) ? '.' : 0;
+        o = read_datum(in, &end, depth);
+        if (o != NULL) {
+            o = Mcons(o, minim_null);
+            if (minim_nullp(hd)) hd = o;
+            else minim_cdr(tl) = o;
+            tl = o;
+        } else if (is_closing_paren(end)) {
+            assert_matching_paren(open_paren, end);
+            return hd;
+        } else {
+            assert_not_eof(end);
+
+            // improper list
+            minim_cdr(tl) = read_required(in, depth);
+            end = 0;
+            if (read_datum(in, &end, depth) != NULL || !is_closing_paren(end)) {
+                minim_error("read_object", "expected pair terminator");
+            }
+
+            assert_matching_paren(open_paren, end);
+            return hd;
+        }
+    }
+}
+
+// Reads a datum.  If there is none, returns NULL and sets `end` to what there is:
+// EOF, a closing parenthesis, or, when `end` asks for it, the dot of an improper list.
+static mobj read_datum(FILE *in, int *end, int depth) {
+    token t = { NULL, 0, 0 };
+    mobj o;
     int c;
 
+    if (++depth > read_max_depth) {
+        minim_error("read_object", "datum nested too deeply");
+    }
+
 loop:
 
     skip_whitespace(in);
     c = getc(in);
-    // no assertion: may actually be at end
-    // assert_not_eof(c);
 
     if (c == '#') {
         // special value
@@ -273,10 +392,8 @@ loop:
         switch (c) {
         case '%':
             // symbol
-            ungetc(c, in);
-            c = '#';
-            i = 0;
-            goto read_symbol;
+            token_add(&t, '#');
+            return read_symbol(in, &t, c);
         case 't':
             // true
             return minim_true;
@@ -288,177 +405,58 @@ loop:
             return read_char(in);
         case '\'':
             // quote
-            return Mcons(intern("quote-syntax"), Mcons(read_object(in), minim_null));
+            return Mcons(intern("quote-syntax"), Mcons(read_required(in, depth), minim_null));
         case '(':
             // vector
-            return read_vector(in);
+            o = read_list(in, c, 0, depth);
+            return minim_nullp(o) ? minim_empty_vec : list_to_vector(o);
         case '&':
-            // vector
-            return Mbox(read_object(in));
+            // box
+            return Mbox(read_required(in, depth));
         case 'x':
             // hex number
-            c = getc(in);
-            goto read_hex;
+            return read_number(in, getc(in), 16);
         case ';':
             // datum comment
-            skip_whitespace(in);
-            c = peek_char(in);
-            assert_not_eof(c);
-            read_object(in);        // throw away
+            read_required(in, depth);      // throw away
             goto loop;
         case '|':
             // block comment
-            block_level = 1;
-            while (block_level > 0) {
-                c = fgetc(in);
-                assert_not_eof(c);
-                switch (c)
-                {
-                case '#':
-                    c = fgetc(in);
-                    assert_not_eof(c);
-                    if (c == '|') ++block_level;
-                    break;
-                
-                case '|':
-                    c = fgetc(in);
-                    assert_not_eof(c);
-                    if (c == '#') --block_level;
-                    break;
-                }
-            }
-
+            skip_block_comment(in);
             goto loop;
         default:
-            minim_error1("read_object", "unknown special datum", Mchar(c));   
+            assert_not_eof(c);
+            minim_error1("read_object", "unknown special datum", Mchar(c));
         }
     } else if (isdigit(c) || ((c == '-' || c == '+') && isdigit(peek_char(in)))) {
         // decimal number (possibly)
-        // if we encounter a non-digit, the token is a symbol
-        num = 0;
-        sign = 1;
-        i = 0;
-
-        // optional sign
-        if (c == '-') {
-            sign = -1;
-            buffer[i++] = c;
-        } else if (c != '+') {
-            ungetc(c, in);
-            buffer[i++] = c;
-        }
-
-        // magnitude
-        while (isdigit(c = getc(in))) {
-            buffer[i++] = c;
-            num = (num * 10) + (c - '0');
-        }
-
-        if (is_symbol_char(c)) {
-            goto read_symbol;
-        }
-
-        // check for delimeter
-        assert_delimeter(c);
-        ungetc(c, in);
-    
-        return Mfixnum(num * sign);
-    } else if (0) {
-        // hexadecimal number
-        // same caveat applies: if we encounter a non-digit, the token is a symbol
-read_hex:
-        num = 0;
-        sign = 1;
-        i = 0;
-
-        // optional sign
-        if (c == '-') {
-            sign = -1;
-            buffer[i++] = c;
-        } else if (c != '+') {
-            ungetc(c, in);
-            buffer[i++] = c;
-        }
-
-        // magnitude
-        while (isxdigit(c = getc(in))) {
-            buffer[i++] = c;
-            if ('A' <= c && c <= 'F')       num = (num * 16) + (10 + (c - 'A'));
-            else if ('a' <= c && c <= 'f')  num = (num * 16) + (10 + (c - 'a'));
-            else                            num = (num * 16) + (c - '0');
-        }
-
-        if (is_symbol_char(c)) {
-            goto read_symbol;
-        }
-
-        // check for delimeter
-        assert_delimeter(c);
-        ungetc(c, in);
-
-        return Mfixnum(num * sign);
+        return read_number(in, c, 10);
     } else if (c == '"') {
-        // string
-        i = 0;
-        while ((c = getc(in)) != '"') {
-            assert_not_eof(c);
-            if (c == '\\') {
-                c = getc(in);
-                if (c == 'n') {
-                    c = '\n';
-                } else if (c == 't') {
-                    c = '\t';
-                } else if (c == '\\') {
-                    c = '\\';
-                } else if (c == '\'') {
-                    c = '\'';
-                } else if (c == '\"') {
-                    c = '\"';
-                } else {
-                    minim_error1("read_object", "unknown escape character", Mchar(c));
-                }
-            }
-
-            if (i >= symbol_max_len) {
-                minim_error("read_object", "string exceeded max length");
-            }
-
-            buffer[i++] = c;
-        }
-
-        buffer[i] = '\0';
-        return Mstring(buffer);
+        return read_string(in);
     } else if (c == '(' || c == '[' || c == '{') {
         // empty list or pair
-        return read_pair(in, c);
+        return read_list(in, c, 1, depth);
     } else if (c == '\'') {
         // quoted expression
-        return Mcons(intern("quote"), Mcons(read_object(in), minim_null));
-    } else if (is_symbol_char(c) || ((c == '+' || c == '-') && is_delimeter(peek_char(in)))) {
+        return Mcons(intern("quote"), Mcons(read_required(in, depth), minim_null));
+    } else if (c == EOF || is_closing_paren(c) || (*end == '.' && is_cons_dot(in, c))) {
+        *end = c;
+        return NULL;
+    } else {
         // symbol
-        i = 0;
-
-read_symbol:
-
-        while (is_symbol_char(c)) {
-            if (i >= symbol_max_len) {
-                minim_error("read_object", "symbol exceeded max length");
-            }
-
-            buffer[i++] = c;
-            c = getc(in);
-        }
+        return read_symbol(in, &t, c);
+    }
+}
 
-        assert_delimeter(c);
-        ungetc(c, in);
+mobj read_object(FILE *in) {
+    mobj o;
+    int end;
 
-        buffer[i] = '\0';
-        return intern(buffer);
-    } else if (c == EOF) {
-        return NULL;
-    } else {
-        minim_error1("read_object", "unexpected input", Mchar(c));
+    end = 0;
+    o = read_datum(in, &end, 0);
+    if (o == NULL && end != EOF) {
+        minim_error1("read_object", "unexpected input", Mchar(end));
     }
 
-    minim_error("read_object", "unreachable");
+    return o;
 }
-- 
2.43.0


From 3e0e2f1ad22578f7cfada4a61043af00f5ca12ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:19 +0000
Subject: [PATCH 31/64] fix: read returns the eof object at the end of input

---
 src/core/c/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index b6b0baa..4ba7e5e 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -174,7 +174,8 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
-    return read_object(minim_port(port));
+    mobj o = read_object(minim_port(port));
+    return (o == NULL) ? minim_eof : o;
 }
 
 mobj read_char_proc(mobj port) {
-- 
2.43.0


From 768fed045306fd61c4913cb26ea02d06f2123349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:19 +0000
Subject: [PATCH 32/64] fix: string->number reads the whole 64-bit range and
 rejects other strings

---
 src/core/c/string.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index b2a728f..7a33566 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -3,6 +3,8 @@
 */
 
 #include "../minim.h"
+#include <ctype.h>
+#include <errno.h>
 
 #define FIXNUM_STRING_LEN   24
 
@@ -70,8 +72,17 @@ mobj number_to_string(mobj n) {
 }
 
 mobj string_to_number(mobj s) {
-    // (-> string number)
-    return Mfixnum(atoi(minim_string(s)));
+    // (-> string (or number #f))
+    const char *str = minim_string(s);
+    char *end;
+    long n;
+
+    if (!isdigit((unsigned char) str[(*str == '-' || *str == '+') ? 1 : 0]))
+        return minim_false;
+
+    errno = 0;
+    n = strtol(str, &end, 10);
+    return (*end == '\0' && errno == 0) ? Mfixnum(n) : minim_false;
 }
 
 mobj symbol_to_string(mobj s) {
-- 
2.43.0


From 8af8ea95ed7c159ff3b4a637c892507a80cf87f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:19 +0000
Subject: [PATCH 33/64] fix: put-char reports the port that is not an output
 port

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 5c0fd18..9dc5305 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1963,7 +1963,7 @@
         (if (char? ch)
             ($put-char p ch)
             (raise-argument-error 'put-char "char?" ch))
-        (raise-argument-error 'put-char "output-port?" ch))))
+        (raise-argument-error 'put-char "output-port?" p))))
 
 (define-values (put-string)
   (let-values ([(non-output-port-error)
-- 
2.43.0


From 0c2c189f3a63ce72b23b92b441463b0468a34990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:19 +0000
Subject: [PATCH 34/64] fix: the runtime writer escapes strings like write does

---
 src/core/c/print.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/core/c/print.c b/src/core/c/print.c
index 968f663..84b53d1 100644
--- a/src/core/c/print.c
+++ b/src/core/c/print.c
@@ -20,6 +20,28 @@ static void write_char(FILE *out, mobj o) {
     else fputc(c, out);
 }
 
+static void write_string(FILE *out, mobj o) {
+    const char *s;
+
+    fputc('"', out);
+    for (s = minim_string(o); *s; s++) {
+        switch (*s) {
+        case BEL_CHAR:  fputs("\\a", out); break;
+        case BS_CHAR:   fputs("\\b", out); break;
+        case '\n':      fputs("\\n", out); break;
+        case FF_CHAR:   fputs("\\f", out); break;
+        case CR_CHAR:   fputs("\\r", out); break;
+        case '\t':      fputs("\\t", out); break;
+        case VT_CHAR:   fputs("\\v", out); break;
+        case '"':       fputs("\\\"", out); break;
+        case '\\':      fputs("\\\\", out); break;
+        default:        fputc(*s, out); break;
+        }
+    }
+
+    fputc('"', out);
+}
+
 static void write_pair(FILE *out, mobj o) {
     fputc('(', out);
 loop:
@@ -85,7 +107,7 @@ void write_object(FILE *out, mobj o) {
     else if (minim_charp(o)) write_char(out, o);
     else if (minim_fixnump(o)) fprintf(out, "%ld", minim_fixnum(o));
     else if (minim_symbolp(o)) fprintf(out, "%s", minim_symbol(o));
-    else if (minim_stringp(o)) fprintf(out, "\"%s\"", minim_string(o));
+    else if (minim_stringp(o)) write_string(out, o);
     else if (minim_consp(o)) write_pair(out, o);
     else if (minim_vectorp(o)) write_vector(out, o);
     else if (minim_boxp(o)) write_box(out, o);
-- 
2.43.0


From 7c95f89cf8bcdcda9d1bc5fccabbda04b7d51516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:58 +0000
Subject: [PATCH 35/64] fix: operations on a closed port raise an error

---
 src/core/c/fasl.c   |  2 ++
 src/core/c/io.c     | 35 +++++++++++++++++++++++++++++++----
 src/core/c/thread.c |  3 +++
 src/core/minim.h    |  1 +
 4 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index 27146aa..7a64264 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -345,11 +345,13 @@ void write_fasl(FILE *out, mobj o) {
 
 mobj fasl_read_proc(mobj port) {
     // (-> input-port any)
+    check_port_open("fasl-read", port);
     return read_fasl(minim_port(port));
 }
 
 mobj fasl_write_proc(mobj x, mobj port) {
     // (-> any output-port void)
+    check_port_open("fasl-write", port);
     write_fasl(minim_port(port), x);
     return minim_void;
 }
diff --git a/src/core/c/io.c b/src/core/c/io.c
index 4ba7e5e..15f9265 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -35,6 +35,13 @@ mobj Moutput_port(FILE *stream) {
     return o;
 }
 
+// Operations on a closed port are an error
+void check_port_open(const char *who, mobj port) {
+    if (!minim_port_openp(port)) {
+        minim_error1(who, "port is closed", port);
+    }
+}
+
 //
 //  Primitives
 //
@@ -136,6 +143,7 @@ mobj open_output_string() {
 
 mobj close_input_port(mobj port) {
     // (-> input-port? void)
+    check_port_open("close-input-port", port);
     fclose(minim_port(port));
     minim_port_unset(port, PORT_FLAG_OPEN);
     return minim_void;
@@ -143,6 +151,7 @@ mobj close_input_port(mobj port) {
 
 mobj close_output_port(mobj port) {
     // (-> output-port? void)
+    check_port_open("close-output-port", port);
     fclose(minim_port(port));
     minim_port_unset(port, PORT_FLAG_OPEN);
     return minim_void;
@@ -153,6 +162,7 @@ mobj get_output_string(mobj port) {
     mobj str;
     size_t len, read;
     
+    check_port_open("get-output-string", port);
     // read from file
     len = ftell(minim_port(port));
     if (len != 0) {
@@ -174,38 +184,52 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
-    mobj o = read_object(minim_port(port));
+    mobj o;
+
+    check_port_open("read", port);
+    o = read_object(minim_port(port));
     return (o == NULL) ? minim_eof : o;
 }
 
 mobj read_char_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
+    mchar ch;
+
+    check_port_open("read-char", port);
+    ch = getc(minim_port(port));
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj peek_char_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
+    mchar ch;
+
+    check_port_open("peek-char", port);
+    ch = getc(minim_port(port));
     ungetc(ch, minim_port(port));
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj char_readyp_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
+    mchar ch;
+
+    check_port_open("char-ready?", port);
+    ch = getc(minim_port(port));
     ungetc(ch, minim_port(port));
     return (ch == EOF) ? minim_false : minim_true;
 }
 
 mobj put_char_proc(mobj port, mobj ch) {
     // (-> output-port? char? void)
+    check_port_open("put-char", port);
     putc(minim_char(ch), minim_port(port));
     return minim_void;
 }
 
 mobj flush_output_proc(mobj port) {
     // (-> output-port? void)
+    check_port_open("flush-output-port", port);
     fflush(minim_port(port));
     return minim_void;
 }
@@ -214,6 +238,8 @@ mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
     // (-> output-port? string? integer? integer?)
     long start_idx = minim_fixnum(start);
     long end_idx = start_idx + minim_fixnum(len);
+
+    check_port_open("put-string", port);
     for (long i = start_idx; i < end_idx; i++) {
         putc(minim_string_ref(str, i), minim_port(port));
     }
@@ -223,6 +249,7 @@ mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
 
 mobj newline_proc(mobj port) {
     // (-> output-port? void)
+    check_port_open("newline", port);
     putc('\n', minim_port(port));
     return minim_void;
 }
diff --git a/src/core/c/thread.c b/src/core/c/thread.c
index 98c908c..55be0ac 100644
--- a/src/core/c/thread.c
+++ b/src/core/c/thread.c
@@ -23,6 +23,9 @@ mobj Mthread_context() {
     tc_input_port(tc) = Minput_port(stdin);
     tc_output_port(tc) = Moutput_port(stdout);
     tc_error_port(tc) = Moutput_port(stderr);
+    minim_port_set(tc_input_port(tc), PORT_FLAG_OPEN);
+    minim_port_set(tc_output_port(tc), PORT_FLAG_OPEN);
+    minim_port_set(tc_error_port(tc), PORT_FLAG_OPEN);
     tc_directory(tc) = Mstring(get_current_dir());
     tc_command_line(tc) = minim_null;
     tc_record_equal(tc) = minim_false;
diff --git a/src/core/minim.h b/src/core/minim.h
index e1971d3..35882e7 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -479,6 +479,7 @@ mobj Mbox(mobj x);
 mobj Mclosure(mobj env, mobj code, size_t free_count);
 mobj Minput_port(FILE *stream);
 mobj Moutput_port(FILE *stream);
+void check_port_open(const char *who, mobj port);
 mobj Msyntax(mobj e, mobj loc);
 mobj Mrecord(mobj rtd, int fieldc);
 mobj Mhashtable(size_t size_hint);
-- 
2.43.0


From 548c0636cdf00ac2b5311a390d347db908f0797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:59 +0000
Subject: [PATCH 36/64] fix: allocate the whole of a character object

---
 src/core/c/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/char.c b/src/core/c/char.c
index 9a64b43..b46fd1f 100644
--- a/src/core/c/char.c
+++ b/src/core/c/char.c
@@ -5,7 +5,7 @@
 #include "../minim.h"
 
 mobj Mchar(mchar c) {
-    mobj o = GC_alloc_atomic(sizeof(minim_char_size));
+    mobj o = GC_alloc_atomic(minim_char_size);
     minim_type(o) = MINIM_OBJ_CHAR;
     minim_char(o) = c;
     return o;
-- 
2.43.0


From e4afda5cf20916387608df5ad8a0489b0b386a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:32 +0000
Subject: [PATCH 37/64] fix: generated temporaries are uninterned symbols

---
 src/core/c/prim.c                | 1 +
 src/core/c/string.c              | 5 +++++
 src/core/minim.h                 | 1 +
 src/library/private/gen-temp.min | 9 ++++-----
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/core/c/prim.c b/src/core/c/prim.c
index 4b35fe5..410ed12 100644
--- a/src/core/c/prim.c
+++ b/src/core/c/prim.c
@@ -112,6 +112,7 @@ void init_prims(mobj env) {
     add_procedure("$string->number", string_to_number, 1);
     add_procedure("$symbol->string", symbol_to_string, 1);
     add_procedure("$string->symbol", string_to_symbol, 1);
+    add_procedure("$string->gensym", string_to_gensym, 1);
     add_procedure("$list->string", list_to_string, 1);
     add_procedure("$string->list", string_to_list, 1);
 
diff --git a/src/core/c/string.c b/src/core/c/string.c
index 7a33566..ad32228 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -95,6 +95,11 @@ mobj string_to_symbol(mobj s) {
     return intern(minim_string(s));
 }
 
+mobj string_to_gensym(mobj s) {
+    // (-> string symbol)
+    return Mgensym(minim_string(s));
+}
+
 mobj list_to_string(mobj xs) {
     // (-> (listof char) string)
     mobj s;
diff --git a/src/core/minim.h b/src/core/minim.h
index 35882e7..c87c3df 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -540,6 +540,7 @@ mobj number_to_string(mobj n);
 mobj string_to_number(mobj s);
 mobj symbol_to_string(mobj s);
 mobj string_to_symbol(mobj s);
+mobj string_to_gensym(mobj s);
 mobj list_to_string(mobj xs);
 mobj string_to_list(mobj s);
 
diff --git a/src/library/private/gen-temp.min b/src/library/private/gen-temp.min
index e4427d9..1bcf639 100644
--- a/src/library/private/gen-temp.min
+++ b/src/library/private/gen-temp.min
@@ -4,10 +4,9 @@
 
 (export gen-temp-id)
 
-(define-values (counter) 0)
+; An uninterned symbol differs from every symbol of the program
 (define-values (gen-temp-id)
   (lambda (name)
-    (set! counter (+ counter 1))
-    (datum->syntax
-      (string->symbol
-        (string-append name (number->string counter))))))
+    (if (string? name)
+        (datum->syntax ($string->gensym name))
+        (raise-argument-error 'gen-temp-id "string?" name))))
-- 
2.43.0


From 741493b48dcbd9007cb77b83cba3de840ee09077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:34 +0000
Subject: [PATCH 38/64] fix: the library reader accepts what the core reader
 accepts and stops at the end of input

---
 src/boot/s/boot.min  |   4 +-
 src/library/read.min | 428 +++++++++++++++++++------------------------
 2 files changed, 191 insertions(+), 241 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 08c26a0..a7de0f2 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -59,7 +59,7 @@
 (define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) (letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) (loop (cdr ss) i))))))))
 (define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) (loop sts)))))
 (define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) (loop sts)))))
-(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 end))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
+(define-values (substring) (lambda (str start end) (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (letrec-values (((len) (string-length str)) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 (+ end 1) start))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
 (define-values (identifier?) (lambda (t) (if (syntax? t) (symbol? (syntax-e t)) #f)))
 (define-values (free-identifier=?) (lambda (a b) (if (not (identifier? a)) (raise-argument-error (quote free-identifier=?) "identifier?" a) (if (not (identifier? b)) (raise-argument-error (quote free-identifier=?) "identifier?" b) (eq? (syntax-e a) (syntax-e b))))))
 (define-values (stx-null?) (lambda (t) (if (null? t) #t (if (syntax? t) (null? (syntax-e t)) #f))))
@@ -136,4 +136,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9)) ((i) (char->integer c))) (<= 0-char i 9-char)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (let-values (((or-t) (eq? c #\newline))) (if or-t or-t (let-values (((or-t) (eq? c tab))) (if or-t or-t (let-values (((or-t) (eq? c vtab))) (if or-t or-t (let-values (((or-t) (eq? c page))) (if or-t or-t (eq? c return))))))))))))) ((closing?) (lambda (c) (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((digit-value) (lambda (c) (if (char? c) (let-values () (letrec-values (((i) (char->integer c))) (if (<= (char->integer #\0) i (char->integer #\9)) (- i (char->integer #\0)) (if (<= (char->integer #\a) i (char->integer #\f)) (+ 10 (- i (char->integer #\a))) (if (<= (char->integer #\A) i (char->integer #\F)) (+ 10 (- i (char->integer #\A))) #f))))) #f))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (prev block-level) (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (if (eq? prev #\#) (eq? c #\|) #f) (loop #f (+ block-level 1)) (if (if (eq? prev #\|) (eq? c #\#) #f) (if (= block-level 1) (void) (loop #f (- block-level 1))) (loop c block-level))))))) (loop #f 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((end) (box #f)) ((end!) (lambda (c) (set-box! end c) end)) ((end-char) (lambda () (unbox end))) ((read-required) (lambda () (letrec-values (((o) (read-datum #f))) (if (eq? o end) (let-values () (assert-not-eof! (end-char)) (errorf (quote read) "unexpected input: ~a" (end-char))) o)))) ((read-list) (lambda (open improper?) (letrec-values (((loop) (lambda (elems) (letrec-values (((o) (read-datum (if improper? (pair? elems) #f)))) (if (not (eq? o end)) (loop (cons o elems)) (if (closing? (end-char)) (let-values () (assert-matching-parens! open (end-char)) (reverse elems)) (let-values () (assert-not-eof! (end-char)) (letrec-values (((tail) (read-required)) (() (let-values () (if (if (eq? (read-datum #f) end) (closing? (end-char)) #f) (void) (let-values () (error (quote read) "missing closing parenthesis"))) (values))) (() (let-values () (assert-matching-parens! open (end-char)) (values)))) (letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) (loop elems tail)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((named) (lambda (next rest code) (if (eq? (peek-char p) next) (let-values () (check-expected-string! rest) (integer->char code)) c))) ((r) (let-values (((tmp) c)) (if (equal? tmp (quote #\a)) (let-values () (named #\l "larm" 7)) (if (equal? tmp (quote #\b)) (let-values () (named #\a "ackspace" 8)) (if (equal? tmp (quote #\d)) (let-values () (named #\e "elete" 127)) (if (equal? tmp (quote #\e)) (let-values () (named #\s "sc" 27)) (if (equal? tmp (quote #\l)) (let-values () (named #\i "inefeed" 10)) (if (equal? tmp (quote #\n)) (let-values () (if (eq? (peek-char p) #\u) (named #\u "ul" 0) (named #\e "ewline" 10))) (if (equal? tmp (quote #\p)) (let-values () (named #\a "age" 12)) (if (equal? tmp (quote #\r)) (let-values () (named #\e "eturn" 13)) (if (equal? tmp (quote #\s)) (let-values () (named #\p "pace" 32)) (if (equal? tmp (quote #\t)) (let-values () (named #\a "ab" 9)) (if (equal? tmp (quote #\v)) (let-values () (named #\t "tab" 11)) (let-values () c)))))))))))))) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) r))) ((read-number) (lambda (base sign-char) (letrec-values (((sign) (if (eq? sign-char #\-) -1 1))) (letrec-values (((loop) (lambda (chars num digits?) (letrec-values (((c) (peek-char p)) ((d) (digit-value c))) (if (if d (< d base) #f) (let-values () (read-char p) (letrec-values (((num*) (if num (+ (* base num) (* sign d)) #f))) (loop (cons c chars) (if num* (if (= (/ (- num* (* sign d)) base) num) (if (if (< sign 0) (<= num* 0) (>= num* 0)) num* #f) #f) #f) #t))) (if (symbol-char? c) (read-symbol chars) (if (not digits?) (error (quote read) "expected digits") (if num num (errorf (quote read) "number out of range: ~a" (list->string (reverse chars))))))))))) (loop (if sign-char (list sign-char) (quote ())) 0 #f))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "non-terminated string literal") (if (eq? c #\\) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (loop (cons (let-values (((tmp) c)) (if (equal? tmp (quote #\a)) (let-values () (integer->char 7)) (if (equal? tmp (quote #\b)) (let-values () (integer->char 8)) (if (equal? tmp (quote #\f)) (let-values () page) (if (equal? tmp (quote #\n)) (let-values () #\newline) (if (equal? tmp (quote #\r)) (let-values () return) (if (equal? tmp (quote #\t)) (let-values () tab) (if (equal? tmp (quote #\v)) (let-values () vtab) (if (if (equal? tmp (quote #\\)) #t (if (equal? tmp (quote #\')) #t (equal? tmp (quote #\")))) (let-values () c) (let-values () (errorf (quote read) "unknown escape character ~a" c))))))))))) acc)))) (if (eq? c #\") (list->string (reverse acc)) (loop (cons c acc))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (string->symbol (list->string (reverse acc)))))))) (loop acc)))) ((read-datum) (lambda (dot?) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (let-values (((or-t) (eof-object? c))) (if or-t or-t (closing? c))) (let-values () (read-char p) (end! c)) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (list->vector (read-list c #f)))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) ((signed?) (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+)))) (() (let-values () (if signed? (let-values () (read-char p)) (void)) (values)))) (datum->syntax (read-number 16 (if signed? c #f))))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-datum dot?)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-datum dot?)) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (digit? c) (datum->syntax (read-number 10 #f)) (if (eq? c #\") (let-values () (read-char p) (datum->syntax (read-string))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-list c #t))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (if (digit? (peek-char p)) (datum->syntax (read-number 10 c)) (datum->syntax (read-symbol (list c))))) (if (eq? c #\.) (let-values () (read-char p) (if (if dot? (space? (peek-char p)) #f) (end! c) (datum->syntax (read-symbol (list c))))) (datum->syntax (read-symbol (quote ())))))))))))))) ((o) (read-datum #f))) (if (not (eq? o end)) o (if (eof-object? (end-char)) (end-char) (errorf (quote read) "unexpected input: ~a" (end-char))))))))
diff --git a/src/library/read.min b/src/library/read.min
index 06fce4e..3bcd9aa 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -25,9 +25,18 @@
      (define obrace (integer->char 123))
      (define cbrace (integer->char 125))
  
+     (define tab (integer->char 9))
+     (define vtab (integer->char 11))
+     (define page (integer->char 12))
+     (define return (integer->char 13))
+ 
      (define (space? c)
-       (or (eq? c #\space)
-           (eq? c #\newline)))
+       (or (eq? c #\space) (eq? c #\newline)
+           (eq? c tab) (eq? c vtab)
+           (eq? c page) (eq? c return)))
+ 
+     (define (closing? c)
+       (or (eq? c cparen) (eq? c cbrack) (eq? c cbrace)))
  
      (define (delimeter? c)
        (or (eof-object? c) (space? c)
@@ -39,21 +48,25 @@
        (not (delimeter? c)))
  
      (define (digit? c)
-       (define 0-char (char->integer #\0))
-       (define 9-char (char->integer #\9))
-       (define i (char->integer c))
-       (<= 0-char i 9-char))
- 
-     (define (hex-digit? c)
-       (define i (char->integer c))
-       (or (<= (char->integer #\0) i (char->integer #\9))
-           (<= (char->integer #\a) i (char->integer #\f))
-           (<= (char->integer #\A) i (char->integer #\F))))
- 
-     (define (digit-prefix? c)
-       (or (digit? c)
-           (and (or (eq? c #\-) (eq? c #\+))
-                (digit? (peek-char p)))))
+       (and (char? c)
+            (<= (char->integer #\0) (char->integer c) (char->integer #\9))))
+ 
+     ; value of a (hexadecimal) digit or #f
+     (define (digit-value c)
+       (cond
+         [(char? c)
+          (define i (char->integer c))
+          (cond
+            [(<= (char->integer #\0) i (char->integer #\9))
+             (- i (char->integer #\0))]
+            [(<= (char->integer #\a) i (char->integer #\f))
+             (+ 10 (- i (char->integer #\a)))]
+            [(<= (char->integer #\A) i (char->integer #\F))
+             (+ 10 (- i (char->integer #\A)))]
+            [else
+             #f])]
+         [else
+          #f]))
  
      ;; Errors
  
@@ -86,32 +99,18 @@
           (skip-comment!)]))
  
      (define (skip-block-comment!)
-       (let loop ([block-level 1])
+       (let loop ([prev #f] [block-level 1])
+         (define c (read-char p))
+         (assert-not-eof! c)
          (cond
-           [(= block-level 0) (void)]
+           [(and (eq? prev #\#) (eq? c #\|))
+            (loop #f (+ block-level 1))]
+           [(and (eq? prev #\|) (eq? c #\#))
+            (if (= block-level 1)
+                (void)
+                (loop #f (- block-level 1)))]
            [else
-            (define c (read-char p))
-            (cond
-              [(eq? c #\#)
-               (define c (peek-char p))
-               (assert-not-eof! c)
-               (cond
-                 [(eq? c #\|)
-                  (read-char p)
-                  (loop (+ block-level 1))]
-                 [else
-                  (loop block-level)])]
-                 [(eq? c #\|)
-                  (define c (peek-char p))
-                  (assert-not-eof! c)
-                  (cond
-                    [(eq? c #\#)
-                     (read-char p)
-                     (loop (- block-level 1))]
-                    [else
-                     (loop block-level)])]
-                 [else
-                   (loop block-level)])])))
+            (loop c block-level)])))
  
      (define (skip-until-token!)
        (define c (peek-char p))
@@ -142,195 +141,140 @@
            [else
             (void)])))
  
-     ; pair reader
-     (define (read-pair open)
-       (skip-until-token!)
-       (define c (peek-char p))
-       (assert-not-eof! c)
+     ; What there is when there is no datum: eof, a closing parenthesis
+     ; or the dot of an improper list
+     (define end (box #f))
+ 
+     (define (end! c)
+       (set-box! end c)
+       end)
+ 
+     (define (end-char)
+       (unbox end))
  
+     ; reads a datum that must be there
+     (define (read-required)
+       (define o (read-datum #f))
        (cond
-         [(or (eq? c cparen) (eq? c cbrack) (eq? c cbrace))
-          (assert-matching-parens! open c)
-          (read-char p)
-          '()]
+         [(eq? o end)
+          (assert-not-eof! (end-char))
+          (errorf 'read "unexpected input: ~a" (end-char))]
          [else
-          (define car (read-loop))
-          ;; possibly a dot
-          (let loop ([car car])
-            (skip-until-token!)
-            (define c (peek-char p))
-            (assert-not-eof! c)
-            (cond
-              [(eq? c #\.)
-               ; maybe a pair
-               (define maybe-dot (read-loop))
-               (cond
-                 [(eq? (syntax-e maybe-dot) '.)
-                  ; pair
-                  (define cdr (read-loop))
- 
-                  (skip-until-token!)
-                  (define c (peek-char p))
-                  (assert-not-eof! c)
- 
-                  (cond
-                    [(or (eq? c cparen) (eq? c cbrack) (eq? c cbrace))
-                     (assert-matching-parens! open c)
-                     (read-char p)
-                     (cons car cdr)]
-                    [else
-                     (error 'read "missing closing parenthesis")])]
-                 [else
-                  ; oops, just kidding
-                  (cons car (loop maybe-dot))])]
-              [else
-               (define cdr (read-pair open))
-               (cons car cdr)]))]))
+          o]))
  
-     ; vector reader
-     (define (read-vector)
+     ; list reader
+     (define (read-list open improper?)
        (let loop ([elems '()])
-         (skip-until-token!)
-         (define c (peek-char p))
+         (define o (read-datum (and improper? (pair? elems))))
          (cond
-           [(eq? c cparen)
-            (read-char p)
-            (list->vector (reverse elems))]
+           [(not (eq? o end))
+            (loop (cons o elems))]
+           [(closing? (end-char))
+            (assert-matching-parens! open (end-char))
+            (reverse elems)]
            [else
-            (loop (cons (read-loop) elems))])))
+            (assert-not-eof! (end-char))
+            ; improper list
+            (define tail (read-required))
+            (unless (and (eq? (read-datum #f) end) (closing? (end-char)))
+              (error 'read "missing closing parenthesis"))
+            (assert-matching-parens! open (end-char))
+            (let loop ([elems elems] [lst tail])
+              (if (null? elems)
+                  lst
+                  (loop (cdr elems) (cons (car elems) lst))))])))
  
      ; character reader
      (define (read-character)
-       (define c (read-char p))  
+       (define c (read-char p))
        (if (eof-object? c)
            (error 'read "incomplete character literal")
            (void))
-   
-       ; check for special values
-       (cond
-         [(eq? c #\s)
-          (define cn (peek-char p))
-          (cond
-            [(eq? cn #\p)
-             (check-expected-string! "pace")
-             #\space]
-            [else
-             (assert-delimeter! (peek-char p))
-             c])]
-         [(eq? c #\n)
-          (define cn (peek-char p))
-          (cond
-            [(eq? cn #\e)
-             (check-expected-string! "ewline")
-             #\newline]
-            [else
-             (assert-delimeter! (peek-char p))
-             c])]
-         [else
-          (assert-delimeter! (peek-char p))
-          c]))
- 
-     ; decimal number reader
-     (define (read-number)
-       ; if we encounter a non-digit, the token is a symbol
-       ; so we need to track characters that we read
-       (define 0-char (char->integer #\0))
-       (define chars '())
-       (define num 0)
- 
-       ; magnitude
-       (let read-digit! ()
-         (define c (peek-char p))
-         (set! chars (cons c chars))
-         (cond
-           [(digit? c)
-            (read-char p)
-            (set! num (+ (* 10 num) (- (char->integer c) 0-char)))
-            (read-digit!)]
-           [(symbol-char? c)
-            (read-char p)
-            (read-symbol chars)]
-           [else
-            (assert-delimeter! (peek-char p))
-            num])))
  
-     ; hexidecimal number reader
-     (define (read-hex-number c)
-       ; if we encounter a non-digit, the token is a symbol
-       ; so we need to track characters that we read
-       (define chars '())
- 
-       ; optional sign
-       (define sign
+       ; check for special values
+       (define (named next rest code)
          (cond
-           [(eq? c #\-)
-            (read-char p)
-            (set! chars (cons c chars))
-            -1]
-           [(eq? c #\+)
-            (read-char p)
-            (set! chars (cons c chars))
-            1]
+           [(eq? (peek-char p) next)
+            (check-expected-string! rest)
+            (integer->char code)]
            [else
-            1]))
- 
-       (define 0-char (char->integer #\0))
-       (define a-char (char->integer #\a))
-       (define A-char (char->integer #\A))
- 
-       ; magnitude
-       (define num 0)
-       (let read-digit! ()
+            c]))
+ 
+       (define r
+         (case c
+           [(#\a) (named #\l "larm" 7)]
+           [(#\b) (named #\a "ackspace" 8)]
+           [(#\d) (named #\e "elete" 127)]
+           [(#\e) (named #\s "sc" 27)]
+           [(#\l) (named #\i "inefeed" 10)]
+           [(#\n) (if (eq? (peek-char p) #\u)
+                      (named #\u "ul" 0)
+                      (named #\e "ewline" 10))]
+           [(#\p) (named #\a "age" 12)]
+           [(#\r) (named #\e "eturn" 13)]
+           [(#\s) (named #\p "pace" 32)]
+           [(#\t) (named #\a "ab" 9)]
+           [(#\v) (named #\t "tab" 11)]
+           [else c]))
+ 
+       (assert-delimeter! (peek-char p))
+       r)
+ 
+     ; number reader
+     ; if we encounter a non-digit, the token is a symbol
+     ; so we need to track characters that we read
+     (define (read-number base sign-char)
+       (define sign (if (eq? sign-char #\-) -1 1))
+       (let loop ([chars (if sign-char (list sign-char) '())] [num 0] [digits? #f])
          (define c (peek-char p))
-         (set! chars (cons c chars))
+         (define d (digit-value c))
          (cond
-           [(hex-digit? c)
+           [(and d (< d base))
             (read-char p)
-            (define i (char->integer c))
-            (cond
-              [(digit? c)
-               (set! num (+ (* 16 num) (- i 0-char)))]
-              [(>= i a-char)
-               (set! num (+ (* 16 num) (+ 10 (- i a-char))))]
-              [else
-               (set! num (+ (* 16 num) (+ 10 (- i A-char))))])
-            (read-digit!)]
+            ; `num` is #f once the number is out of range
+            (define num* (and num (+ (* base num) (* sign d))))
+            (loop (cons c chars)
+                  (and num*
+                       (= (/ (- num* (* sign d)) base) num)
+                       (if (< sign 0) (<= num* 0) (>= num* 0))
+                       num*)
+                  #t)]
            [(symbol-char? c)
-            (read-char p)
             (read-symbol chars)]
+           [(not digits?)
+            (error 'read "expected digits")]
+           [num
+            num]
            [else
-            (assert-delimeter! (peek-char p))
-            (* num sign)])))
+            (errorf 'read "number out of range: ~a" (list->string (reverse chars)))])))
  
      ; string reader
      (define (read-string)
        (let loop ([acc '()])
-         (define c (peek-char p))
+         (define c (read-char p))
          (cond
            [(eof-object? c)
-            (error 'read "non-terminated string literal")
-            (void)]
+            (error 'read "non-terminated string literal")]
            [(eq? c #\\)
             ; escape character
-            (read-char p)
-            (define c (peek-char p))
-            (cond
-              [(eq? c #\n)
-               (read-char p)
-               (loop (cons #\newline acc))]
-              [(eq? c #\\)
-               (read-char p)
-               (loop (cons #\\ acc))]
-              [(eq? c #\")
-               (read-char p)
-               (loop (cons #\" acc))]
-              [else
-               (errorf 'read "unknown escape character ~a" c)])]
+            (define c (read-char p))
+            (assert-not-eof! c)
+            (loop
+              (cons
+                (case c
+                  [(#\a) (integer->char 7)]
+                  [(#\b) (integer->char 8)]
+                  [(#\f) page]
+                  [(#\n) #\newline]
+                  [(#\r) return]
+                  [(#\t) tab]
+                  [(#\v) vtab]
+                  [(#\\ #\' #\") c]
+                  [else (errorf 'read "unknown escape character ~a" c)])
+                acc))]
            [(eq? c #\")
-            (read-char p)
-            (reverse acc)]
+            (list->string (reverse acc))]
            [else
-            (read-char p)
             (loop (cons c acc))])))
  
      ;; symbol reader
@@ -341,24 +285,28 @@
            [(symbol-char? c)
             (loop (cons (read-char p) acc))]
            [else
-            (assert-delimeter! (peek-char p))
-            (string->symbol (apply string (reverse acc)))])))
+            (string->symbol (list->string (reverse acc)))])))
  
      ;; Main loop
+     ;; reads a datum, or returns `end` when there is none
  
-     (define (read-loop)
+     (define (read-datum dot?)
        ; read and branch
        (skip-until-token!)
        (define c (peek-char p))
        (cond
-         [(eof-object? c)
+         [(or (eof-object? c) (closing? c))
           (read-char p)
-          c]
+          (end! c)]
          [(eq? c #\#)
           (read-char p)
           ; special values
           (define c (peek-char p))
+          (assert-not-eof! c)
           (cond
+            [(eq? c #\%)
+             ; symbol
+             (datum->syntax (read-symbol (list #\#)))]
             [(eq? c #\t)
              ; true
              (read-char p)
@@ -374,70 +322,72 @@
             [(eq? c #\')
              ; quoted syntax
              (read-char p)
-             (datum->syntax (list 'syntax (read-loop)))]
+             (datum->syntax (list 'syntax (read-required)))]
             [(eq? c oparen)
              ; vector
              (read-char p)
-             (datum->syntax (read-vector))]
+             (datum->syntax (list->vector (read-list c #f)))]
             [(eq? c #\&)
              ; box
              (read-char p)
-             (datum->syntax (box (read-loop)))]
+             (datum->syntax (box (read-required)))]
             [(eq? c #\x)
              ; hex number
              (read-char p)
-             (datum->syntax (read-hex-number (peek-char p)))]
+             (define c (peek-char p))
+             (define signed? (or (eq? c #\-) (eq? c #\+)))
+             (when signed? (read-char p))
+             (datum->syntax (read-number 16 (and signed? c)))]
             [(eq? c #\;)
              ; datum comment
              (read-char p)
-             (skip-until-token!)
-             (define c (peek-char p))
-             (assert-not-eof! c)
              ; read and ignore, then actually read
-             (read-loop)
-             (read-loop)]
+             (read-required)
+             (read-datum dot?)]
             [(eq? c #\|)
              ; block comment
-             (read-char p)         
+             (read-char p)
              (skip-block-comment!)
-             (datum->syntax (read-loop))]
+             (read-datum dot?)]
             [else
              ; unknown
              (errorf 'read "unknown special character ~a" c)])]
-         [(or (eq? c #\+) (eq? c #\-))
-          ; number or symbol
-          (read-char p)
-          (define n (peek-char p))
-          (cond
-            [(digit? n)
-             ; optional sign
-             (define pos-num (read-number))
-             (if (eq? c #\-)
-                 (datum->syntax (- pos-num))
-                 (datum->syntax pos-num))]
-            [else
-             (datum->syntax (read-symbol (list c)))])]
          [(digit? c)
           ; number
-          (datum->syntax (read-number))]
+          (datum->syntax (read-number 10 #f))]
          [(eq? c #\")
           ; string
           (read-char p)
-          (define str-chars (read-string))
-          (assert-delimeter! (peek-char p))
-          (datum->syntax (apply string str-chars))]
+          (datum->syntax (read-string))]
          [(or (eq? c oparen) (eq? c obrack) (eq? c obrace))
           ; pair
           (read-char p)
-          (datum->syntax (read-pair c))]
+          (datum->syntax (read-list c #t))]
          [(eq? c #\')
           ; quoted form
           (read-char p)
-          (datum->syntax (list 'quote (read-loop)))]
-         [(symbol-char? c)
-          ; symbol
-          (datum->syntax (read-symbol '()))]
+          (datum->syntax (list 'quote (read-required)))]
+         [(or (eq? c #\+) (eq? c #\-))
+          ; number or symbol
+          (read-char p)
+          (if (digit? (peek-char p))
+              (datum->syntax (read-number 10 c))
+              (datum->syntax (read-symbol (list c))))]
+         [(eq? c #\.)
+          ; a dot or a symbol
+          (read-char p)
+          (if (and dot? (space? (peek-char p)))
+              (end! c)
+              (datum->syntax (read-symbol (list c))))]
          [else
-          (errorf 'read "unexpected input: ~a" c)]))
- 
-     (read-loop)]))
+          ; symbol
+          (datum->syntax (read-symbol '()))]))
+ 
+     (define o (read-datum #f))
+     (cond
+       [(not (eq? o end))
+        o]
+       [(eof-object? (end-char))
+        (end-char)]
+       [else
+        (errorf 'read "unexpected input: ~a" (end-char))])]))
-- 
2.43.0


From f7a3e746e3f97769c9b9aa2be932c96af824d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:08 +0000
Subject: [PATCH 39/64] fix: an empty vector is written as #()

---
 src/core/s/prelude.min | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 9dc5305..bef7b5b 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2109,16 +2109,17 @@
                   [(wrvector)
                    (lambda (x d? p)
                      (put-char p #\#)
+                     (put-char p lparen)
                      (letrec-values ([(n) (vector-length x)]
                                      [(loop)
-                                      (lambda (i sep)
+                                      (lambda (i)
                                         (if (>= i n)
                                             (void)
                                             (begin
-                                              (put-char p sep)
+                                              (if (> i 0) (put-char p #\space) (void))
                                               (wr (vector-ref x i) d? p)
-                                              (loop (+ i 1) #\space))))])
-                       (loop 0 lparen))
+                                              (loop (+ i 1)))))])
+                       (loop 0))
                      (put-char p rparen))]
                   ; box writer
                   [(wrbox)
-- 
2.43.0


From 6c83b44bafae69118c5818579c12e95cb63f40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:29 +0000
Subject: [PATCH 40/64] fix: truncated or malformed FASL data raises an error

---
 src/core/c/fasl.c | 54 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index 7a64264..a6bb39d 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -72,8 +72,28 @@
 //  Reading FASL
 //
 
-#define read_fasl_type(ip)       ((mbyte) fgetc(ip))
-#define read_fasl_byte(ip)       ((mbyte) fgetc(ip))
+#define read_fasl_type(ip)       (read_fasl_byte(ip))
+
+// Data nested deeper than this is rejected rather than
+// overflowing the C stack
+#define FASL_MAX_DEPTH      100000
+
+static int fasl_depth = 0;
+
+static void fasl_enter(const char *who) {
+    if (++fasl_depth > FASL_MAX_DEPTH) {
+        minim_error(who, "data nested too deeply");
+    }
+}
+
+static mbyte read_fasl_byte(FILE *in) {
+    int b = fgetc(in);
+    if (b == EOF) {
+        minim_error("fasl-read", "unexpected end of FASL data");
+    }
+
+    return b;
+}
 
 // Unserializes a word that is encoded using a variable-length
 // block encoding 7-bits of the word per byte
@@ -83,6 +103,10 @@ static muptr read_fasl_uptr(FILE *in) {
     int offset = 0;
 
     do {
+        if (offset >= 8 * (int) sizeof(muptr)) {
+            minim_error("fasl-read", "malformed FASL data");
+        }
+
         // read and decompose the block
         b = read_fasl_byte(in);
         c = b & 0x1;
@@ -178,7 +202,7 @@ static mobj read_fasl_record(FILE *in) {
     return rec;
 }
 
-mobj read_fasl(FILE *in) {
+static mobj read_fasl_datum(FILE *in) {
     fasl_type type;
     
     type = read_fasl_type(in);
@@ -214,12 +238,19 @@ mobj read_fasl(FILE *in) {
         return read_fasl_record(in);
     
     default:
-        fprintf(stderr, "read_fasl: malformed FASL data\n");
-        exit(1);
-        break;
+        minim_error("fasl-read", "malformed FASL data");
     }
 }
 
+mobj read_fasl(FILE *in) {
+    mobj o;
+
+    fasl_enter("fasl-read");
+    o = read_fasl_datum(in);
+    --fasl_depth;
+    return o;
+}
+
 //
 //  Writing FASL
 //
@@ -292,6 +323,7 @@ static void write_fasl_record(FILE *out, mobj r) {
 }
 
 void write_fasl(FILE *out, mobj o) {
+    fasl_enter("fasl-write");
     if (minim_nullp(o)) {
         write_fasl_type(out, FASL_NULL);
     } else if (minim_truep(o)) {
@@ -331,12 +363,10 @@ void write_fasl(FILE *out, mobj o) {
         write_fasl_type(out, FASL_RECORD);
         write_fasl_record(out, o);
     } else {
-        fprintf(stderr, "write_fasl: object not serializable\n");
-        fprintf(stderr, " object: ");
-        write_object(stderr, o);
-        fprintf(stderr, "\n");
-        exit(1);
+        minim_error1("fasl-write", "object not serializable", o);
     }
+
+    --fasl_depth;
 }
 
 //
@@ -346,12 +376,14 @@ void write_fasl(FILE *out, mobj o) {
 mobj fasl_read_proc(mobj port) {
     // (-> input-port any)
     check_port_open("fasl-read", port);
+    fasl_depth = 0;
     return read_fasl(minim_port(port));
 }
 
 mobj fasl_write_proc(mobj x, mobj port) {
     // (-> any output-port void)
     check_port_open("fasl-write", port);
+    fasl_depth = 0;
     write_fasl(minim_port(port), x);
     return minim_void;
 }
-- 
2.43.0


From 22ff0f755e2c0d3e5fde4a08a8f87340e07a1527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:38 +0000
Subject: [PATCH 41/64] fix: environments list, copy and refer to each defined
 name once and ignore undefined ones

---
 src/core/c/env.c       | 9 ++++++---
 src/core/s/prelude.min | 7 ++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/core/c/env.c b/src/core/c/env.c
index 41a322a..83427ca 100644
--- a/src/core/c/env.c
+++ b/src/core/c/env.c
@@ -84,7 +84,9 @@ mobj top_env_copy2(mobj env, mobj syms, int mutablep) {
 
     for (; !minim_nullp(syms); syms = minim_cdr(syms)) {
         cell = top_env_find(env, minim_car(syms));
-        if (!minim_falsep(cell)) {
+        if (!minim_falsep(cell) &&
+            minim_cdar(cell) != minim_unbound &&
+            minim_falsep(top_env_find(env2, minim_car(syms)))) {
             i = minim_fixnum(minim_cadr(cell)) % minim_top_env_alloc(env2);
             b = minim_top_env_bucket(env2, i);
             cell = Mcons(
@@ -161,7 +163,8 @@ static mobj top_env_symbols(mobj env) {
         b = minim_top_env_bucket(env, i);
         for (; !minim_nullp(b); b = minim_cdr(b)) {
             cell = minim_car(b);
-            syms = Mcons(minim_caar(cell), syms);
+            if (minim_cdar(cell) != minim_unbound)
+                syms = Mcons(minim_caar(cell), syms);
         }
     }
 
@@ -236,7 +239,7 @@ mobj environment_names(mobj env) {
 mobj environment_variable_ref(mobj env, mobj k, mobj fail) {
     // (-> environment symbol any)
     mobj cell = top_env_find(env, k);
-    return minim_falsep(cell) ? fail : minim_cdar(cell);
+    return (minim_falsep(cell) || minim_cdar(cell) == minim_unbound) ? fail : minim_cdar(cell);
 }
 
 mobj environment_variable_set(mobj env, mobj k, mobj v) {
diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index bef7b5b..e33b46c 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2359,7 +2359,8 @@
         (raise-argument-error 'environment-symbols "environment?" env))))
 
 (define-values (environment-ref)
-  (letrec-values ([(default-fail)
+  (letrec-values ([(missing) (string #\m)]       ; only equal to itself
+                  [(default-fail)
                    (lambda (env k)
                      (lambda ()
                        (raise-missing-error 'environment-ref "key" env k)))]
@@ -2367,8 +2368,8 @@
                    (lambda (env k fail)
                      (if (environment? env)
                          (if (symbol? k)
-                             (let-values ([(v) ($environment-ref env k fail)])
-                               (if (eq? v fail)
+                             (let-values ([(v) ($environment-ref env k missing)])
+                               (if (eq? v missing)
                                    (if (procedure? fail)
                                        (fail)
                                        fail)
-- 
2.43.0


From 90d1e1f5048ada513109037ac9651eaa3c4aaea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:30 +0000
Subject: [PATCH 42/64] fix: put-string and fprintf report the argument that is
 wrong; put-string rejects any end past the string

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index e33b46c..d5ae7b7 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1979,7 +1979,7 @@
                 (lambda (p s start n)
                   (let-values ([(len) ($string-length s)])
                     (if (<= start len)
-                        (if (<= (+ start n) len)
+                        (if (<= n (- len start))
                             ($put-string p s start n)
                             (raise-range-error 'put-string s "end" 0 (+ len 1) (+ start n)))
                         (raise-range-error 'put-string s "start" 0 (+ len 1) start))))])
@@ -2004,7 +2004,7 @@
                (if (non-negative-integer? start)
                    (if (non-negative-integer? n)
                        (1/put-string p s start n)
-                       (non-integer-error start))
+                       (non-integer-error n))
                    (non-integer-error start))
                (non-string-error s))
            (non-output-port-error p))])))
@@ -2252,7 +2252,7 @@
             (begin
               (check-format! 'fprintf fmt args)
               (do-format p fmt args))
-            (raise-argument-error 'fprintf "output port?" fmt)))
+            (raise-argument-error 'fprintf "output port?" p)))
       ; printf
       (lambda (fmt . args)
         (check-format! 'printf fmt args)
-- 
2.43.0


From ef148bac01963e2a2f580627266574fe4b33aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:46 +0000
Subject: [PATCH 43/64] fix: strings may contain nul characters

---
 src/core/c/fasl.c      |  6 +++---
 src/core/c/hashtable.c |  2 +-
 src/core/c/io.c        |  2 +-
 src/core/c/object.c    |  3 ++-
 src/core/c/print.c     |  2 +-
 src/core/c/read.c      |  2 +-
 src/core/c/string.c    | 38 +++++++++++++++++++++++---------------
 src/core/minim.h       |  5 ++++-
 8 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index a6bb39d..08bebfd 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -144,7 +144,7 @@ static mobj read_fasl_string(FILE *in) {
         str[i] = read_fasl_byte(in);
     str[len] = '\0';
 
-    return Mstring(str);
+    return Mstring3(str, len);
 }
 
 static mobj read_fasl_fixnum(FILE *in) {
@@ -286,8 +286,8 @@ static void write_fasl_symbol(FILE *out, mobj sym) {
 
 // Serializes a string
 static void write_fasl_string(FILE *out, mobj str) {
-    write_fasl_uptr(out, strlen(minim_string(str)));
-    for (char *s = minim_string(str); *s; s++)
+    write_fasl_uptr(out, minim_string_len(str));
+    for (char *s = minim_string(str); s < minim_string(str) + minim_string_len(str); s++)
         fputc(*s, out);
 }
 
diff --git a/src/core/c/hashtable.c b/src/core/c/hashtable.c
index 461f086..346152e 100644
--- a/src/core/c/hashtable.c
+++ b/src/core/c/hashtable.c
@@ -238,7 +238,7 @@ mobj equal_hash_proc(mobj x) {
     if (minim_symbolp(x)) {
         hc = hash_bytes(minim_symbol(x), strlen(minim_symbol(x)), hash_init);
     } else if (minim_stringp(x)) {
-        hc = hash_bytes(minim_string(x), strlen(minim_string(x)), hash_init);
+        hc = hash_bytes(minim_string(x), minim_string_len(x), hash_init);
     } else {
         hc = eq_hash(x);
     }
diff --git a/src/core/c/io.c b/src/core/c/io.c
index 15f9265..7a29b28 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -117,7 +117,7 @@ mobj open_input_string(mobj str) {
         minim_error("open-input-string", "cannot create buffer");
     }
 
-    fputs(minim_string(str), stream);
+    fwrite(minim_string(str), 1, minim_string_len(str), stream);
     fseek(stream, 0, SEEK_SET);
 
     port = Minput_port(stream);
diff --git a/src/core/c/object.c b/src/core/c/object.c
index 139bc2e..2250851 100644
--- a/src/core/c/object.c
+++ b/src/core/c/object.c
@@ -116,7 +116,8 @@ int minim_equalp(mobj a, mobj b) {
         case MINIM_OBJ_FIXNUM:
             return minim_fixnum(a) == minim_fixnum(b);
         case MINIM_OBJ_STRING:
-            return strcmp(minim_string(a), minim_string(b)) == 0;
+            return minim_string_len(a) == minim_string_len(b) &&
+                memcmp(minim_string(a), minim_string(b), minim_string_len(a)) == 0;
         case MINIM_OBJ_PAIR:
             return minim_equalp(minim_car(a), minim_car(b)) &&
                 minim_equalp(minim_cdr(a), minim_cdr(b));
diff --git a/src/core/c/print.c b/src/core/c/print.c
index 84b53d1..51f8ddf 100644
--- a/src/core/c/print.c
+++ b/src/core/c/print.c
@@ -24,7 +24,7 @@ static void write_string(FILE *out, mobj o) {
     const char *s;
 
     fputc('"', out);
-    for (s = minim_string(o); *s; s++) {
+    for (s = minim_string(o); s < minim_string(o) + minim_string_len(o); s++) {
         switch (*s) {
         case BEL_CHAR:  fputs("\\a", out); break;
         case BS_CHAR:   fputs("\\b", out); break;
diff --git a/src/core/c/read.c b/src/core/c/read.c
index 8a31d7e..6a28c79 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -297,7 +297,7 @@ static mobj read_string(FILE *in) {
         token_add(&t, c);
     }
 
-    return Mstring(t.len == 0 ? "" : t.chars);
+    return Mstring3(t.len == 0 ? "" : t.chars, t.len);
 }
 
 static void skip_block_comment(FILE *in) {
diff --git a/src/core/c/string.c b/src/core/c/string.c
index ad32228..e255405 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -9,20 +9,13 @@
 #define FIXNUM_STRING_LEN   24
 
 mobj Mstring(const char *s) {
-    mobj o;
-    size_t len;
-
-    o = GC_alloc(minim_string_size);
-    len = strlen(s);
-    minim_type(o) = MINIM_OBJ_STRING;
-    minim_string(o) = GC_alloc_atomic((len + 1) * sizeof(char));
-    strncpy(minim_string(o), s, len + 1);
-    return o;
+    return Mstring3(s, strlen(s));
 }
 
 mobj Mstring2(long len, mchar c) {
     mobj o = GC_alloc(minim_string_size);
     minim_type(o) = MINIM_OBJ_STRING;
+    minim_string_len(o) = len;
     if (c == 0) {
         minim_string(o) = GC_calloc_atomic((len + 1), sizeof(char));
     } else {
@@ -35,6 +28,19 @@ mobj Mstring2(long len, mchar c) {
     return o;
 }
 
+// Makes a string of the `len` characters at `s`, which may contain nul.
+mobj Mstring3(const char *s, long len) {
+    mobj o = Mstring2(len, 0);
+    memcpy(minim_string(o), s, len);
+    return o;
+}
+
+// Symbols are identified by nul-terminated names.
+static void check_symbol_name(const char *who, mobj s) {
+    if (memchr(minim_string(s), '\0', minim_string_len(s)) != NULL)
+        minim_error1(who, "string contains a nul character", s);
+}
+
 //
 //  Primitives
 //
@@ -50,7 +56,7 @@ mobj make_string(mobj len, mobj init) {
 
 mobj string_length(mobj s) {
     // (-> string fixnum)
-    return Mfixnum(strlen(minim_string(s)));
+    return Mfixnum(minim_string_len(s));
 }
 
 mobj string_ref(mobj s, mobj idx) {
@@ -66,9 +72,9 @@ mobj string_set(mobj s, mobj idx, mobj x) {
 
 mobj number_to_string(mobj n) {
     // (-> number string)
-    mobj s = Mstring2(FIXNUM_STRING_LEN, 0);
-    sprintf(minim_string(s), "%ld", minim_fixnum(n));
-    return s;
+    char str[FIXNUM_STRING_LEN];
+    snprintf(str, sizeof(str), "%ld", minim_fixnum(n));
+    return Mstring(str);
 }
 
 mobj string_to_number(mobj s) {
@@ -82,7 +88,7 @@ mobj string_to_number(mobj s) {
 
     errno = 0;
     n = strtol(str, &end, 10);
-    return (*end == '\0' && errno == 0) ? Mfixnum(n) : minim_false;
+    return (end == str + minim_string_len(s) && errno == 0) ? Mfixnum(n) : minim_false;
 }
 
 mobj symbol_to_string(mobj s) {
@@ -92,11 +98,13 @@ mobj symbol_to_string(mobj s) {
 
 mobj string_to_symbol(mobj s) {
     // (-> string symbol)
+    check_symbol_name("string->symbol", s);
     return intern(minim_string(s));
 }
 
 mobj string_to_gensym(mobj s) {
     // (-> string symbol)
+    check_symbol_name("string->gensym", s);
     return Mgensym(minim_string(s));
 }
 
@@ -119,7 +127,7 @@ mobj list_to_string(mobj xs) {
 mobj string_to_list(mobj s) {
     // (-> string (listof char))
     mobj lst = minim_null;
-    for (long i = (long) strlen(minim_string(s)) - 1; i >= 0; i--)
+    for (long i = minim_string_len(s) - 1; i >= 0; i--)
         lst = Mcons(Mchar(minim_string(s)[i]), lst);
     return lst;
 }
diff --git a/src/core/minim.h b/src/core/minim.h
index c87c3df..1c41bd7 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -211,10 +211,12 @@ extern mobj minim_unbound;
 // +------------+
 // |    type    | [0, 1)
 // |    str     | [8, 16)
+// |    len     | [16, 24)
 // +------------+ 
-#define minim_string_size       (2 * ptr_size)
+#define minim_string_size       (3 * ptr_size)
 #define minim_stringp(o)        (minim_type(o) == MINIM_OBJ_STRING)
 #define minim_string(o)         (*((char **) ptr_add(o, ptr_size)))
+#define minim_string_len(o)     (*((long *) ptr_add(o, 2 * ptr_size)))
 #define minim_string_ref(o, i)  (minim_string(o)[(i)])
 
 // Pair
@@ -473,6 +475,7 @@ mobj Msymbol(const char *s);
 mobj Mgensym(const char *s);
 mobj Mstring(const char *s);
 mobj Mstring2(long len, mchar c);
+mobj Mstring3(const char *s, long len);
 mobj Mcons(mobj car, mobj cdr);
 mobj Mvector(long len, mobj init);
 mobj Mbox(mobj x);
-- 
2.43.0


From 7c3241d00927e113cf05d075406481ad8d8edf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:49 +0000
Subject: [PATCH 44/64] fix: a string made of nul characters is initialised

---
 src/core/c/string.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index e255405..470744e 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -16,13 +16,9 @@ mobj Mstring2(long len, mchar c) {
     mobj o = GC_alloc(minim_string_size);
     minim_type(o) = MINIM_OBJ_STRING;
     minim_string_len(o) = len;
-    if (c == 0) {
-        minim_string(o) = GC_calloc_atomic((len + 1), sizeof(char));
-    } else {
-        minim_string(o) = GC_alloc_atomic((len + 1) * sizeof(char));
-        for (long i = 0; i < len; i++)
-            minim_string(o)[i] = c;
-    }
+    minim_string(o) = GC_alloc_atomic((len + 1) * sizeof(char));
+    for (long i = 0; i < len; i++)
+        minim_string(o)[i] = c;
 
     minim_string(o)[len] = '\0';
     return o;
-- 
2.43.0


From 75f9527465dd099513a1a1587e1ad9f30c481d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:13 +0000
Subject: [PATCH 45/64] fix: member returns the rest of the list, so that #f
 can be found

---
 src/boot/s/boot.min          | 2 +-
 src/library/private/list.min | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index a7de0f2..47417c2 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -10,7 +10,7 @@
 (define-values (ninth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote ninth) "list contains too few elements: ~a" lst))))) (loop lst 9)) (raise-argument-error (quote ninth) "list?" lst))))
 (define-values (tenth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote tenth) "list contains too few elements: ~a" lst))))) (loop lst 10)) (raise-argument-error (quote tenth) "list?" lst))))
 (define-values (list-ref) (lambda (lst k) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-ref) "non-negative-integer?" k))) (letrec-values (((loop) (lambda (xs i) (if (null? xs) (errorf (quote list-ref) "index out of bounds ~a for ~a" k lst) (if (= i k) (car xs) (loop (cdr xs) (+ i 1))))))) (loop lst 0))))
-(define-values (member) (lambda (k xs) (letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (pair? xs) (if (equal? (car xs) k) (car xs) (loop (cdr xs))) (raise-argument-error (quote member) "list?" xs)))))) (loop xs))))
+(define-values (member) (lambda (k xs) (letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (pair? xs) (if (equal? (car xs) k) xs (loop (cdr xs))) (raise-argument-error (quote member) "list?" xs)))))) (loop xs))))
 (define-values (remove) (lambda (k xs) (letrec-values (((loop) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) k) (loop (cdr xs)) (cons (car xs) (loop (cdr xs)))) (raise-argument-error (quote remove) "list?" xs)))))) (loop xs))))
 (define-values (remove*) (lambda (ks xs) (if (list? ks) (void) (let-values () (raise-argument-error (quote remove*) "list?" ks))) (letrec-values (((loop) (lambda (ks xs) (if (null? ks) xs (if (null? xs) (quote ()) (loop (cdr ks) (letrec-values (((loop2) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) (car ks)) (loop2 (cdr xs)) (cons (car xs) (loop2 (cdr xs)))) (raise-argument-error (quote remove*) "list?" xs)))))) (loop2 xs)))))))) (loop ks xs))))
 (define-values (filter) (lambda (f lst) (letrec-values (((loop) (lambda (xs acc) (if (null? xs) (reverse acc) (if (pair? xs) (if (f (car xs)) (loop (cdr xs) (cons (car xs) acc)) (loop (cdr xs) acc)) (raise-argument-error (quote filter) "list?" lst)))))) (loop lst (quote ())))))
diff --git a/src/library/private/list.min b/src/library/private/list.min
index e13a0fe..1d9df6c 100644
--- a/src/library/private/list.min
+++ b/src/library/private/list.min
@@ -63,7 +63,7 @@
 (define (member k xs)
   (let loop ([xs xs])
     (cond [(null? xs) #f]
-          [(pair? xs) (if (equal? (car xs) k) (car xs) (loop (cdr xs)))]
+          [(pair? xs) (if (equal? (car xs) k) xs (loop (cdr xs)))]
           [else (raise-argument-error 'member "list?" xs)])))
 
 (define (remove k xs)
-- 
2.43.0


From c7ff53f4077cd7e39daa340e2901557a6b05c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:19 +0000
Subject: [PATCH 46/64] fix: make-record-type-descriptor checks its arguments

---
 src/core/s/prelude.min | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index d5ae7b7..4f483a1 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1233,7 +1233,7 @@
                      (if (pair? field)
                          (let-values ([(type) ($car field)]
                                       [(rib) ($cdr field)])
-                            (if (if (eq? type 'immutable) #t (eq? type 'mutable))
+                            (if (if (if (eq? type 'immutable) #t (eq? type 'mutable)) (pair? rib) #f)
                                 (let-values ([(name) ($car rib)]
                                              [(rib) ($cdr rib)])
                                    (if (symbol? name)
@@ -1244,7 +1244,7 @@
                                 #f))
                          #f))]
                   [(check-args!)
-                   (lambda (name parent uid sealed? opaque?)
+                   (lambda (name parent uid sealed? opaque? fields)
                      (if (symbol? name)
                          (if (if (record-type-descriptor? parent)
                                  (begin
@@ -1259,15 +1259,7 @@
                                  (if (boolean? sealed?)
                                      (if (boolean? opaque?)
                                          (if (vector? fields)
-                                            (begin
-                                              (check-fields! fields)
-                                              ($make-record-type-descriptor
-                                                 name
-                                                 parent
-                                                 uid
-                                                 sealed?
-                                                 opaque?
-                                                 fields))
+                                            (check-fields! fields)
                                             (raise-argument-error
                                               'make-record-type-descriptor
                                               "vector?"
@@ -1308,9 +1300,10 @@
                                  (raise-argument-error
                                    'make-record-type-descriptor
                                    "invalid field; '(immutable <name>) or '(mutable <name>)"
-                                   field))))
+                                   ($vector-ref fields i)))))
                          (iota ($vector-length fields)))))])
     (lambda (name parent uid sealed? opaque? fields)
+      (check-args! name parent uid sealed? opaque? fields)
       (let-values ([(rtd) ($make-record-type-descriptor name parent uid sealed? opaque? fields)])
         (if parent
             (let-values ([(rec-equal?) (record-type-equal-procedure parent)]
@@ -2440,7 +2433,7 @@
 
 ; base exception
 (define-values (&exn make-exn exn? exn-who exn-message)
-  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #t #t #(who message))])
+  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #f #t #((immutable who) (immutable message)))])
     (values &exn
             (record-constructor &exn)
             (record-predicate &exn)
@@ -2449,7 +2442,7 @@
 
 ; argument exception
 (define-values (&argument make-argument-exn argument-exn? argument-exn-expect argument-exn-actual)
-  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &argument
             (record-constructor &argument)
             (record-predicate &argument)
@@ -2458,7 +2451,7 @@
 
 ; arity exception
 (define-values (&arity make-arity-exn arity-exn? arity-exn-expect arity-exn-actual)
-  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &arity
             (record-constructor &arity)
             (record-predicate &arity)
@@ -2467,7 +2460,7 @@
 
 ; range exception
 (define-values (&range make-range-exn range-exn? range-exn-value range-exn-description range-exn-lower range-exn-upper range-exn-index)
-  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #(value description lower upper index))])
+  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #((immutable value) (immutable description) (immutable lower) (immutable upper) (immutable index)))])
     (values &range
             (record-constructor &range)
             (record-predicate &range)
@@ -2479,7 +2472,7 @@
 
 ; missing exception
 (define-values (&missing make-missing-exn missing-exn? missing-exn-description missing-exn-value missing-exn-key)
-  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #(description value key))])
+  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #((immutable description) (immutable value) (immutable key)))])
     (values &missing
             (record-constructor &missing)
             (record-predicate &missing)
@@ -2489,7 +2482,7 @@
 
 ; syntax exception
 (define-values (&syntax make-syntax-exn syntax-exn? syntax-exn-form syntax-exn-subform)
-  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #(form subform))])
+  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #((immutable form) (immutable subform)))])
     (values &syntax
             (record-constructor &syntax)
             (record-predicate &syntax)
-- 
2.43.0


From 89f736812b46c0f16ca0309ed321355861579ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:19 +0000
Subject: [PATCH 47/64] fix: an immutable field of a record has no mutator

---
 src/core/s/prelude.min | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 4f483a1..d34efae 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1431,20 +1431,22 @@
         (if (record-type-descriptor? rtd)
             (if (if (integer? idx) (>= idx 0) #f)
                 (if (< idx ($record-type-length rtd))
-                    (letrec-values ([(rtd?) (record-predicate rtd)]
-                                    [(actual-idx)
-                                     (if ($record-type-parent rtd)
-                                         (+ idx (record-size ($record-type-parent rtd)))
-                                         idx)]
-                                    [(mut)
-                                     (lambda (rec v)
-                                       (if (rtd? rec)
-                                           ($record-set! rec actual-idx v)
-                                           (raise-argument-error
-                                             (procedure-name mut)
-                                             (format "~a" (record-type-name rtd))
-                                             rec)))])
-                      mut)
+                    (if ($record-type-field-mutable? rtd idx)
+                        (letrec-values ([(rtd?) (record-predicate rtd)]
+                                        [(actual-idx)
+                                         (if ($record-type-parent rtd)
+                                             (+ idx (record-size ($record-type-parent rtd)))
+                                             idx)]
+                                        [(mut)
+                                         (lambda (rec v)
+                                           (if (rtd? rec)
+                                               ($record-set! rec actual-idx v)
+                                               (raise-argument-error
+                                                 (procedure-name mut)
+                                                 (format "~a" (record-type-name rtd))
+                                                 rec)))])
+                          mut)
+                        (raise-argument-error 'record-mutator "mutable field index" idx))
                     (raise-range-error 'record-mutator rtd "" 0 ($record-type-length rtd) idx))
                 (raise-argument-error 'record-mutator "non-negative-integer?" idx))
             (raise-argument-error 'record-mutator "record-type-descriptor?" rtd))))))  
-- 
2.43.0


From 05949b186a3c1a51e0747a8d59a8bc4f62319454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:39 +0000
Subject: [PATCH 48/64] fix: eval rejects an environment argument that is not
 an environment, hash values are checked

---
 src/core/c/eval.c      | 5 ++++-
 src/core/s/prelude.min | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index f7e1a2d..02868e6 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -581,7 +581,10 @@ application:
         store_reg(tc, tregs, ins, minim_cadr(ins), tc_tenv(tc));
     } else if (ty == set_tenv_symbol) {
         // (set-tenv <src reg>)
-        tc_tenv(tc) = load_reg(tc, tregs, ins, minim_cadr(ins));
+        v0 = load_reg(tc, tregs, ins, minim_cadr(ins));
+        if (!minim_top_envp(v0))
+            bad_type_exn("eval", "environment?", v0);
+        tc_tenv(tc) = v0;
     } else if (ty == do_apply_symbol) {
         // do-apply
         do_apply(tc);
diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index d34efae..32112d2 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1554,7 +1554,7 @@
         (let-values ([(h) (hash x)])
           (if (fixnum? h)
               h
-              (raise-argument-error 'do-hash "invalid hash function" hash h))))]
+              (raise-argument-error 'do-hash "fixnum? (from the hash function)" h))))]
      [(incr-size!)
       (lambda (ht store)
         (let-values ([(size) (add1 ($hashtable-size store))]
-- 
2.43.0


From e0c3ab79184980f817b9638389b1742aa38e469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:50 +0000
Subject: [PATCH 49/64] fix: GC_get_collectable subtracts from the bytes
 allocated, not the table size

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 2e57cb1..f15e872 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -465,7 +465,7 @@ gc_get_reachable(gc_t *gc) {
 
 size_t
 gc_get_collectable(gc_t *gc) {
-    return (gc->alloc - gc_get_reachable(gc));
+    return (gc->allocs - gc_get_reachable(gc));
 }
 
 // Signals to mark phase not to descend
-- 
2.43.0


From 2f1015ecf2c744312a59d11c21e92ff6d57a00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:50 +0000
Subject: [PATCH 50/64] fix: GC_free runs the destructor of the block

---
 src/gc/minim-gc/gc-impl.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index f15e872..31a3baf 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -305,8 +305,11 @@ gc_remove(gc_t *gc,
             if (pr)     gc_record_next_set(pr, r->next);
             else        gc->buckets[i] = gc_record_next(r);
 
-            // free if needed
-            if (destroy)    free(r);
+            // call dtor and free if needed
+            if (destroy) {
+                if (r->dtor)    r->dtor(gc_record_ptr(r), NULL);
+                free(r);
+            }
             return;
         }
 
-- 
2.43.0


From 9e0161ea4f398ac27f72fd985a1e6df0b1e02a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:51 +0000
Subject: [PATCH 51/64] fix: freeing a root block does not make its neighbour
 in the table a root

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 31a3baf..a763bad 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -302,7 +302,7 @@ gc_remove(gc_t *gc,
             --gc->size;
 
             // repair bucket entries as needed
-            if (pr)     gc_record_next_set(pr, r->next);
+            if (pr)     gc_record_next_set(pr, gc_record_next(r));
             else        gc->buckets[i] = gc_record_next(r);
 
             // call dtor and free if needed
-- 
2.43.0


From e6d5f6a2371f60412bd80d09947d563944ca36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:44 +0000
Subject: [PATCH 52/64] fix: marking does not recurse as deep as the data is
 linked

---
 src/gc/minim-gc/gc-impl.c  | 66 +++++++++++++++++++++++++++++---------
 src/gc/minim-gc/gc-types.h |  2 ++
 2 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index a763bad..95bf516 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -125,6 +125,46 @@ gc_shrink_if_needed(gc_t *gc) {
         gc_resize(gc, ideal_ptr);
 }
 
+static void gc_mark_ptr(gc_t *gc, void *ptr);
+
+// Marks everything `r` points to
+static void
+gc_scan_record(gc_t *gc,
+               gc_record_t *r) {
+    if (!r->mrk) {                                      // default (conservative)
+        for (size_t k = 0; k < r->size / POINTER_SIZE; ++k)
+            gc_mark_ptr(gc, ptr_arr_ref(gc_record_ptr(r), k));
+    } else if (r->mrk != (gc_mark_t) GC_atomic_mrk) {    // custom marker
+        r->mrk(gc_mark_ptr, gc, gc_record_ptr(r));
+    }
+}
+
+// Queues a marked record to be scanned, so that marking does not
+// recurse as deep as the data is linked
+static void
+gc_push_pending(gc_t *gc,
+                gc_record_t *r) {
+    if (gc->npending == gc->pending_alloc) {
+        size_t alloc = gc->pending_alloc ? 2 * gc->pending_alloc : 256;
+        gc_record_t **pending = realloc(gc->pending, alloc * sizeof(gc_record_t*));
+        if (pending == NULL) {      // no memory: recurse
+            gc_scan_record(gc, r);
+            return;
+        }
+
+        gc->pending = pending;
+        gc->pending_alloc = alloc;
+    }
+
+    gc->pending[gc->npending++] = r;
+}
+
+static void
+gc_scan_pending(gc_t *gc) {
+    while (gc->npending > 0)
+        gc_scan_record(gc, gc->pending[--gc->npending]);
+}
+
 static void
 gc_mark_ptr(gc_t *gc,
             void *ptr) {
@@ -143,17 +183,9 @@ gc_mark_ptr(gc_t *gc,
                 gc_record_rootp(r))
                 return;
 
-            // set mark flag
+            // set mark flag and scan the pointer block later
             gc_record_mark_set(r);
-
-            // recurse into pointer block
-            if (!r->mrk) {                                      // default (conservative)
-                for (size_t k = 0; k < r->size / POINTER_SIZE; ++k)
-                    gc_mark_ptr(gc, ptr_arr_ref(gc_record_ptr(r), k));
-            } else if (r->mrk != (gc_mark_t) GC_atomic_mrk) {    // custom marker
-                r->mrk(gc_mark_ptr, gc, gc_record_ptr(r));
-            }
-
+            gc_push_pending(gc, r);
             return;
         }
     }
@@ -184,12 +216,7 @@ gc_mark(gc_t *gc) {
         for (gc_record_t *r = gc->buckets[i]; r; r = gc_record_next(r)) {
             if (gc_record_rootp(r)) {
                 gc_record_mark_set(r);
-                if (!r->mrk) {                                      // default (conservative)
-                    for (size_t k = 0; k < r->size / POINTER_SIZE; ++k)
-                        gc_mark_ptr(gc, ptr_arr_ref(gc_record_ptr(r), k));
-                } else if (r->mrk != (gc_mark_t) GC_atomic_mrk) {    // custom marker
-                    r->mrk(gc_mark_ptr, gc, gc_record_ptr(r));
-                }
+                gc_push_pending(gc, r);
             }
         }
     }
@@ -198,6 +225,9 @@ gc_mark(gc_t *gc) {
     memset(&env, 0, sizeof(jmp_buf));
     setjmp(env);
     mark_stack(gc);
+
+    // scan everything marked
+    gc_scan_pending(gc);
 }
 
 static void
@@ -254,6 +284,9 @@ gc_create(void *stack) {
     gc->size = 0;
     gc->dirty = 0;
     gc->allocs = 0;
+    gc->pending = NULL;
+    gc->npending = 0;
+    gc->pending_alloc = 0;
     gc->flags = GC_COLLECT;
 
     return gc;
@@ -271,6 +304,7 @@ gc_destroy(gc_t* gc) {
     
     // free up gc structure
     gc_sweep(gc);
+    free(gc->pending);
     free(gc->buckets);
     free(gc);
 }
diff --git a/src/gc/minim-gc/gc-types.h b/src/gc/minim-gc/gc-types.h
index 4dce149..1dbe19c 100644
--- a/src/gc/minim-gc/gc-types.h
+++ b/src/gc/minim-gc/gc-types.h
@@ -31,6 +31,8 @@ typedef struct gc_t {
     size_t *alloc_ptr;
     size_t alloc, size;
     size_t allocs, dirty;
+    gc_record_t **pending;          // marked records still to be scanned
+    size_t npending, pending_alloc;
     uint8_t flags;
 } gc_t;
 
-- 
2.43.0


From a8ad9a199489a50307ea5426081cd031becf1692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:10 +0000
Subject: [PATCH 53/64] fix: the prompt after loading a module sees the
 definitions of the module

---
 src/boot/s/boot.min    | 2 +-
 src/library/module.min | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 47417c2..d7beef1 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -135,5 +135,5 @@
 (define-values (read/module) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) ($load-module path #f #f))))
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
-(define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
+(define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs) #f) (copy-environment (car envs)) xforms scope))))
 (define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (let-values (((or-t) (eq? c #\newline))) (if or-t or-t (let-values (((or-t) (eq? c tab))) (if or-t or-t (let-values (((or-t) (eq? c vtab))) (if or-t or-t (let-values (((or-t) (eq? c page))) (if or-t or-t (eq? c return))))))))))))) ((closing?) (lambda (c) (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((digit-value) (lambda (c) (if (char? c) (let-values () (letrec-values (((i) (char->integer c))) (if (<= (char->integer #\0) i (char->integer #\9)) (- i (char->integer #\0)) (if (<= (char->integer #\a) i (char->integer #\f)) (+ 10 (- i (char->integer #\a))) (if (<= (char->integer #\A) i (char->integer #\F)) (+ 10 (- i (char->integer #\A))) #f))))) #f))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (prev block-level) (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (if (eq? prev #\#) (eq? c #\|) #f) (loop #f (+ block-level 1)) (if (if (eq? prev #\|) (eq? c #\#) #f) (if (= block-level 1) (void) (loop #f (- block-level 1))) (loop c block-level))))))) (loop #f 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((end) (box #f)) ((end!) (lambda (c) (set-box! end c) end)) ((end-char) (lambda () (unbox end))) ((read-required) (lambda () (letrec-values (((o) (read-datum #f))) (if (eq? o end) (let-values () (assert-not-eof! (end-char)) (errorf (quote read) "unexpected input: ~a" (end-char))) o)))) ((read-list) (lambda (open improper?) (letrec-values (((loop) (lambda (elems) (letrec-values (((o) (read-datum (if improper? (pair? elems) #f)))) (if (not (eq? o end)) (loop (cons o elems)) (if (closing? (end-char)) (let-values () (assert-matching-parens! open (end-char)) (reverse elems)) (let-values () (assert-not-eof! (end-char)) (letrec-values (((tail) (read-required)) (() (let-values () (if (if (eq? (read-datum #f) end) (closing? (end-char)) #f) (void) (let-values () (error (quote read) "missing closing parenthesis"))) (values))) (() (let-values () (assert-matching-parens! open (end-char)) (values)))) (letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) (loop elems tail)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((named) (lambda (next rest code) (if (eq? (peek-char p) next) (let-values () (check-expected-string! rest) (integer->char code)) c))) ((r) (let-values (((tmp) c)) (if (equal? tmp (quote #\a)) (let-values () (named #\l "larm" 7)) (if (equal? tmp (quote #\b)) (let-values () (named #\a "ackspace" 8)) (if (equal? tmp (quote #\d)) (let-values () (named #\e "elete" 127)) (if (equal? tmp (quote #\e)) (let-values () (named #\s "sc" 27)) (if (equal? tmp (quote #\l)) (let-values () (named #\i "inefeed" 10)) (if (equal? tmp (quote #\n)) (let-values () (if (eq? (peek-char p) #\u) (named #\u "ul" 0) (named #\e "ewline" 10))) (if (equal? tmp (quote #\p)) (let-values () (named #\a "age" 12)) (if (equal? tmp (quote #\r)) (let-values () (named #\e "eturn" 13)) (if (equal? tmp (quote #\s)) (let-values () (named #\p "pace" 32)) (if (equal? tmp (quote #\t)) (let-values () (named #\a "ab" 9)) (if (equal? tmp (quote #\v)) (let-values () (named #\t "tab" 11)) (let-values () c)))))))))))))) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) r))) ((read-number) (lambda (base sign-char) (letrec-values (((sign) (if (eq? sign-char #\-) -1 1))) (letrec-values (((loop) (lambda (chars num digits?) (letrec-values (((c) (peek-char p)) ((d) (digit-value c))) (if (if d (< d base) #f) (let-values () (read-char p) (letrec-values (((num*) (if num (+ (* base num) (* sign d)) #f))) (loop (cons c chars) (if num* (if (= (/ (- num* (* sign d)) base) num) (if (if (< sign 0) (<= num* 0) (>= num* 0)) num* #f) #f) #f) #t))) (if (symbol-char? c) (read-symbol chars) (if (not digits?) (error (quote read) "expected digits") (if num num (errorf (quote read) "number out of range: ~a" (list->string (reverse chars))))))))))) (loop (if sign-char (list sign-char) (quote ())) 0 #f))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "non-terminated string literal") (if (eq? c #\\) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (loop (cons (let-values (((tmp) c)) (if (equal? tmp (quote #\a)) (let-values () (integer->char 7)) (if (equal? tmp (quote #\b)) (let-values () (integer->char 8)) (if (equal? tmp (quote #\f)) (let-values () page) (if (equal? tmp (quote #\n)) (let-values () #\newline) (if (equal? tmp (quote #\r)) (let-values () return) (if (equal? tmp (quote #\t)) (let-values () tab) (if (equal? tmp (quote #\v)) (let-values () vtab) (if (if (equal? tmp (quote #\\)) #t (if (equal? tmp (quote #\')) #t (equal? tmp (quote #\")))) (let-values () c) (let-values () (errorf (quote read) "unknown escape character ~a" c))))))))))) acc)))) (if (eq? c #\") (list->string (reverse acc)) (loop (cons c acc))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (string->symbol (list->string (reverse acc)))))))) (loop acc)))) ((read-datum) (lambda (dot?) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (let-values (((or-t) (eof-object? c))) (if or-t or-t (closing? c))) (let-values () (read-char p) (end! c)) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (list->vector (read-list c #f)))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) ((signed?) (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+)))) (() (let-values () (if signed? (let-values () (read-char p)) (void)) (values)))) (datum->syntax (read-number 16 (if signed? c #f))))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-datum dot?)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-datum dot?)) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (digit? c) (datum->syntax (read-number 10 #f)) (if (eq? c #\") (let-values () (read-char p) (datum->syntax (read-string))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-list c #t))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (if (digit? (peek-char p)) (datum->syntax (read-number 10 c)) (datum->syntax (read-symbol (list c))))) (if (eq? c #\.) (let-values () (read-char p) (if (if dot? (space? (peek-char p)) #f) (end! c) (datum->syntax (read-symbol (list c))))) (datum->syntax (read-symbol (quote ())))))))))))))) ((o) (read-datum #f))) (if (not (eq? o end)) o (if (eof-object? (end-char)) (end-char) (errorf (quote read) "unexpected input: ~a" (end-char))))))))
diff --git a/src/library/module.min b/src/library/module.min
index a99ca91..e05ed4f 100644
--- a/src/library/module.min
+++ b/src/library/module.min
@@ -256,7 +256,7 @@
   (define xforms (second internals))
   (define scope (sixth internals))
   ;; REPL
-  ($repl (copy-environment (car envs) #f)
-         (copy-environment (cdr envs))
+  ($repl (copy-environment (cdr envs) #f)
+         (copy-environment (car envs))
          xforms
          scope))
-- 
2.43.0


From d15e679af65548ea803c43004d208909ef5c6a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:29 +0000
Subject: [PATCH 54/64] fix: the prompt evaluates every form of a begin

---
 src/boot/s/boot.min      | 2 +-
 src/library/expander.min | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index d7beef1..96b709a 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -121,7 +121,7 @@
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
 (define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) (letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) (rec (syntax->datum formals))))) ((check/expr!) (lambda (expr0 scope) (letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values))) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) (loop expr0)))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
 (define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
-(define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (values (car exprs*) xforms*)))))
+(define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (if (null? (cdr exprs*)) (values (car exprs*) xforms*) (values (datum->syntax (cons (quote begin) exprs*)) xforms*))))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
 (define-values ($module-envs) (make-hashtable))
diff --git a/src/library/expander.min b/src/library/expander.min
index db46607..2da7703 100644
--- a/src/library/expander.min
+++ b/src/library/expander.min
@@ -754,4 +754,5 @@
 (define (expand expr env xforms scope)
   (define-values (exprs* xforms*) (expand/module #f (list expr) xforms env scope))
   (cond [(null? exprs*) (values (quote-syntax (void)) xforms*)]
-        [else (values (car exprs*) xforms*)]))
+        [(null? (cdr exprs*)) (values (car exprs*) xforms*)]
+        [else (values (datum->syntax (cons 'begin exprs*)) xforms*)]))
-- 
2.43.0


From 45640d18a0df8124d427b3adb799df164d147b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:08 +0000
Subject: [PATCH 55/64] fix: a promise keeps the first value when its body
 forces it

---
 src/library/private/promise.min | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/library/private/promise.min b/src/library/private/promise.min
index 39e6f6a..4ec66c9 100644
--- a/src/library/private/promise.min
+++ b/src/library/private/promise.min
@@ -42,6 +42,15 @@
 ;;  Operations
 ;;
 
+;; Runs the body of an unforced promise. When the body forces
+;; the promise itself, the first value is the one that is kept.
+(define (run-promise! p)
+  (define result ((promise-producer p)))
+  (unless (promise-forced? p)
+    (promise-cache-set! p result)
+    (promise-forced?-set! p #t))
+  (promise-cache p))
+
 (define (lazy p)
   (unless (promise? p)
     (raise-argument-error 'lazy "promise?" p))
@@ -51,10 +60,7 @@
         [(promise-forced? p)
          (promise-cache p)]
         [else
-         (define result ((promise-producer p)))
-         (promise-cache-set! p result)
-         (promise-forced?-set! p #t)
-         result]))
+         (run-promise! p)]))
     (if (promise? result) (loop result) result)))
 
 (define (force p)
@@ -64,9 +70,6 @@
     [(promise-forced? p)
      (promise-cache p)]
     [else
-     (define result ((promise-producer p)))
-     (promise-cache-set! p result)
-     (promise-forced?-set! p #t)
-     result]))
+     (run-promise! p)]))
 
 
-- 
2.43.0


From 5ab68abd992db5c548a55244b74173d63524dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:19 +0000
Subject: [PATCH 56/64] fix: the initial values of a named let are outside its
 scope

---
 src/library/private/let.min | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/library/private/let.min b/src/library/private/let.min
index b01bfe8..14e5a8c 100644
--- a/src/library/private/let.min
+++ b/src/library/private/let.min
@@ -51,11 +51,14 @@
                                              (datum->syntax
                                                (cons (quote-syntax lambda)
                                                  (cons vars e)))])
+                                 ; the initial values are not in the scope of `id`
                                  (datum->syntax
-                                   (list
-                                     (quote-syntax letrec-values)
-                                     (list (list (list id) fn-stx))
-                                     (cons id vals)))))))]
+                                   (cons
+                                     (list
+                                       (quote-syntax letrec-values)
+                                       (list (list (list id) fn-stx))
+                                       id)
+                                     vals))))))]
                       [else
                        ; let form
                        (if (not (stx-list? stx))
-- 
2.43.0


From 173659f606bfac9fdc3c86848346d5e63015b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:19 +0000
Subject: [PATCH 57/64] fix: syntax-case binds variables that no program can
 name

---
 src/library/private/stxcase.min | 136 +++++++++++++++++---------------
 1 file changed, 71 insertions(+), 65 deletions(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index a64fe74..cbe0d9a 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -10,7 +10,13 @@
   (define l (syntax->list stx))
   (unless (and (list? l) (> (length l) 3))
     (raise-syntax-error 'syntax-case "bad syntax" stx))
-  (let ([arg (quote-syntax arg)]
+  ; variables of the expansion: these differ from
+  ; all identifiers in the clauses
+  (define-values (e-id tmp-id t-id loop-id repeat-id pre-id post-id ok-id rslt-id)
+    (values (gen-temp-id "e") (gen-temp-id "tmp") (gen-temp-id "t") (gen-temp-id "loop")
+            (gen-temp-id "repeat") (gen-temp-id "pre") (gen-temp-id "post") (gen-temp-id "ok?")
+            (gen-temp-id "rslt")))
+  (let ([arg (gen-temp-id "arg")]
         [expr (cadr l)]
         [lits (caddr l)]
         [clauses (cdddr l)])
@@ -189,19 +195,19 @@
                        (list
                          (list
                            (quote-syntax lambda)
-                           (list (quote-syntax e))
+                           (list e-id)
                            (cond
                              [(and ellipsis? (= (+ idx 1) before-ellipsis))
                               (list
                                 (quote-syntax if)
                                 (list
                                   (quote-syntax stx-list?)
-                                  (quote-syntax e))
+                                  e-id)
                                 (list
                                   (quote-syntax if)
                                   (list
                                     (quote-syntax stx-null?)
-                                    (quote-syntax e))
+                                    e-id)
                                   (let ([n (length (get-pattern-vars head-pat))])
                                     (cons
                                       (quote-syntax list)
@@ -212,30 +218,30 @@
                                     (quote-syntax let)
                                     (list
                                       (list
-                                        (quote-syntax tmp)
+                                        tmp-id
                                         (list
                                           (quote-syntax map/#f)
                                           (list
                                             (quote-syntax lambda)
-                                            (list (quote-syntax e))
-                                            (gen-match/expr head-pat (quote-syntax e)))
+                                            (list e-id)
+                                            (gen-match/expr head-pat e-id))
                                           (list
                                             (quote-syntax stx->list)
-                                            (quote-syntax e)))))
+                                            e-id))))
                                     (list
                                       (quote-syntax if)
-                                      (quote-syntax tmp)
+                                      tmp-id
                                       (list
                                         (quote-syntax if)
                                         (list
                                           (quote-syntax null?)
-                                          (quote-syntax tmp))
-                                        (quote-syntax tmp)
+                                          tmp-id)
+                                        tmp-id
                                         (list
                                           (quote-syntax apply)
                                           (quote-syntax map/#f)
                                           (quote-syntax list)
-                                          (quote-syntax tmp)))
+                                          tmp-id))
                                       #f)))
                                 #f)]
                              [(stx-_? head-pat)
@@ -245,13 +251,13 @@
                                 (quote-syntax if)
                                 (list
                                   (quote-syntax stx-null/#f)
-                                  (quote-syntax e))
+                                  e-id)
                                 #f
                                 (loop tail-pat (+ idx 1)
                                       (datum->syntax
                                         (list
                                           (quote-syntax stx-cdr)
-                                          (quote-syntax e)))))]
+                                          e-id))))]
                              [(variable? head-pat)
                               ; variable =>
                               ;  bind one variable
@@ -259,17 +265,17 @@
                                 (quote-syntax if)
                                 (list
                                   (quote-syntax stx-pair?)
-                                  (quote-syntax e))
+                                  e-id)
                                 (list
                                   (quote-syntax cons/#f)
                                     (list
                                       (quote-syntax stx-car)
-                                      (quote-syntax e))
+                                      e-id)
                                     (loop tail-pat (+ idx 1)
                                           (datum->syntax
                                             (list
                                               (quote-syntax stx-cdr)
-                                              (quote-syntax e)))))
+                                              e-id))))
                                 #f)]
                              [(or (stx-pair? head-pat) (stx-vector? head-pat))
                               ; subpattern =>
@@ -278,19 +284,19 @@
                                 (quote-syntax if)
                                 (list
                                   (quote-syntax stx-pair?)
-                                  (quote-syntax e))
+                                  e-id)
                                 (list
                                   (quote-syntax append/#f)
                                   (gen-match/expr head-pat
                                                   (datum->syntax
                                                     (list
                                                       (quote-syntax stx-car)
-                                                      (quote-syntax e))))
+                                                      e-id)))
                                   (loop tail-pat (+ idx 1)
                                         (datum->syntax
                                           (list
                                             (quote-syntax stx-cdr)
-                                            (quote-syntax e)))))
+                                            e-id))))
                                 #f)]
                              [else
                               ; datum =>
@@ -299,19 +305,19 @@
                                 (quote-syntax if)
                                 (list
                                   (quote-syntax stx-pair?)
-                                  (quote-syntax e))
+                                  e-id)
                                 (list
                                   (quote-syntax if)
                                   (gen-match/expr head-pat
                                                   (datum->syntax
                                                     (list
                                                       (quote-syntax stx-car)
-                                                      (quote-syntax e))))
+                                                      e-id)))
                                   (loop tail-pat (+ idx 1)
                                         (datum->syntax
                                           (list
                                             (quote-syntax stx-cdr)
-                                            (quote-syntax e))))
+                                            e-id)))
                                   #f)
                                 #f)]))
                          arg))]))]
@@ -326,9 +332,9 @@
                   (list
                     (list
                       (list
-                        (quote-syntax pre)
-                        (quote-syntax post)
-                        (quote-syntax ok?))
+                        pre-id
+                        post-id
+                        ok-id)
                       (list
                         (quote-syntax split-stx-list)
                         arg
@@ -336,13 +342,13 @@
                         prop?)))
                   (list
                     (quote-syntax if)
-                    (quote-syntax ok?)
+                    ok-id
                     (list
                       (quote-syntax append/#f)
                       (gen-match/expr (datum->syntax pre)
-                                      (quote-syntax pre))
+                                      pre-id)
                       (gen-match/expr (datum->syntax post)
-                                      (quote-syntax post)))
+                                      post-id))
                     #f))])]
             [(stx-vector? pattern)
              (define v (syntax-e pattern))
@@ -372,12 +378,12 @@
               (list
                 (list
                   (quote-syntax lambda)
-                  (list (quote-syntax e))
+                  (list e-id)
                   (list
                     (quote-syntax if)
                     (list
                       (quote-syntax stx-vector?)
-                      (quote-syntax e))
+                      e-id)
                     (cond
                       [ellipsis?
                        (list
@@ -388,7 +394,7 @@
                              (quote-syntax vector-length)
                              (list
                                (quote-syntax syntax-e)
-                               (quote-syntax e)))
+                               e-id))
                            (- (+ before-ellipsis after-ellipsis) 1))
                          (let loop ([i 0])
                            (cond
@@ -398,20 +404,20 @@
                                   (quote-syntax let)
                                   (list
                                     (list
-                                      (quote-syntax repeat)
+                                      repeat-id
                                       (list
                                         (quote-syntax -)
                                         (list
                                           (quote-syntax vector-length)
                                           (list
                                             (quote-syntax syntax-e)
-                                            (quote-syntax e)))
+                                            e-id))
                                         (- (+ before-ellipsis after-ellipsis) 1))))
                                   (list
                                     (quote-syntax if)
                                     (list
                                       (quote-syntax =)
-                                      (quote-syntax repeat)
+                                      repeat-id
                                       0)
                                     (let ([n (length (get-pattern-vars (vector-ref v i)))])
                                       (cons
@@ -423,54 +429,54 @@
                                       (quote-syntax let)
                                       (list
                                         (list
-                                          (quote-syntax tmp)
+                                          tmp-id
                                           (list
                                             (quote-syntax map/#f)
                                             (list
                                               (quote-syntax lambda)
-                                              (list (quote-syntax e))
-                                              (gen-match/expr (vector-ref v i) (quote-syntax e)))
+                                              (list e-id)
+                                              (gen-match/expr (vector-ref v i) e-id))
                                             (list
                                               (quote-syntax let)
-                                              (quote-syntax loop)
+                                              loop-id
                                               (list
-                                                (list (quote-syntax t) 0))
+                                                (list t-id 0))
                                               (list
                                                 (quote-syntax if)
                                                 (list
                                                   (quote-syntax =)
-                                                  (quote-syntax t)
-                                                  (quote-syntax repeat))
+                                                  t-id
+                                                  repeat-id)
                                                 (quote-syntax '())
                                                 (list
                                                   (quote-syntax cons)
                                                   (list
                                                     (quote-syntax stx-vector-ref)
-                                                    (quote-syntax e)
+                                                    e-id
                                                     (list
                                                       (quote-syntax +)
                                                       (- before-ellipsis 1)
-                                                      (quote-syntax t)))
+                                                      t-id))
                                                   (list
-                                                    (quote-syntax loop)
+                                                    loop-id
                                                     (list
                                                       (quote-syntax +)
-                                                      (quote-syntax t)
+                                                      t-id
                                                       1))))))))
                                       (list
                                         (quote-syntax if)
-                                        (quote-syntax tmp)
+                                        tmp-id
                                         (list
                                           (quote-syntax if)
                                           (list
                                             (quote-syntax null?)
-                                            (quote-syntax tmp))
-                                          (quote-syntax tmp)
+                                            tmp-id)
+                                          tmp-id
                                           (list
                                             (quote-syntax apply)
                                             (quote-syntax map/#f)
                                             (quote-syntax list)
-                                            (quote-syntax tmp)))
+                                            tmp-id))
                                         #f)))))
                               (list
                                 (quote-syntax append/#f)  
@@ -479,14 +485,14 @@
                                   (quote-syntax let)
                                   (list
                                     (list
-                                      (quote-syntax repeat)
+                                      repeat-id
                                       (list
                                         (quote-syntax -)
                                         (list
                                           (quote-syntax vector-length)
                                           (list
                                             (quote-syntax syntax-e)
-                                            (quote-syntax e)))
+                                            e-id))
                                         (- (+ before-ellipsis after-ellipsis) 1))))
                                   (let loop ([i 0])
                                     (cond
@@ -498,11 +504,11 @@
                                                          (datum->syntax
                                                            (list
                                                              (quote-syntax stx-vector-ref)
-                                                             (quote-syntax e)
+                                                             e-id
                                                              (list
                                                                (quote-syntax +)
                                                                (- before-ellipsis 1)
-                                                               (quote-syntax repeat)
+                                                               repeat-id
                                                                i))))
                                          (loop (+ i 1)))]))))]
                              [else
@@ -512,7 +518,7 @@
                                                 (datum->syntax
                                                   (list
                                                     (quote-syntax stx-vector-ref)
-                                                    (quote-syntax e)
+                                                    e-id
                                                     i)))
                                 (loop (+ i 1)))]))
                          #f)]
@@ -525,7 +531,7 @@
                              (quote-syntax vector-length)
                              (list
                                (quote-syntax syntax-e)
-                               (quote-syntax e)))
+                               e-id))
                            len)
                          (let loop ([i 0])
                            (cond
@@ -537,7 +543,7 @@
                                                 (datum->syntax
                                                   (list
                                                     (quote-syntax stx-vector-ref)
-                                                    (quote-syntax e)
+                                                    e-id
                                                     i)))
                                 (loop (+ i 1)))]))
                          #f)])
@@ -554,10 +560,10 @@
                (list
                  (list
                    (quote-syntax lambda)
-                   (list (quote-syntax e))
+                   (list e-id)
                    (list
                      (quote-syntax stx-null/#f)
-                     (quote-syntax e)))
+                     e-id))
                  arg))]
             [(stx-_? pattern)
              ; wildcard
@@ -565,7 +571,7 @@
                (list
                  (list
                    (quote-syntax lambda)
-                   (list (quote-syntax e))
+                   (list e-id)
                    (quote-syntax null))
                  arg))]
             [(variable? pattern)
@@ -574,10 +580,10 @@
                (list
                  (list
                    (quote-syntax lambda)
-                   (list (quote-syntax e))
+                   (list e-id)
                    (list
                      (quote-syntax list)
-                     (quote-syntax e)))
+                     e-id))
                  arg))]
             [(not (syntax? (syntax-e pattern)))
              ;; datum
@@ -585,7 +591,7 @@
                (list
                  (list
                    (quote-syntax lambda)
-                   (list (quote-syntax e))
+                   (list e-id)
                    (list
                      (quote-syntax if)
                      (list
@@ -595,7 +601,7 @@
                          (syntax-e pattern))
                        (list
                          (quote-syntax syntax-e)
-                         (quote-syntax e)))
+                         e-id))
                      (quote-syntax null)
                      #f))
                  arg))]
@@ -636,7 +642,7 @@
                      [result (car results)]
                      [pat-vars (reverse (get-pattern-vars pattern))]
                      [matcher (gen-matcher pattern)]
-                     [result-stx (quote-syntax rslt)]
+                     [result-stx rslt-id]
                      [temp-vars (map (lambda (t) (gen-temp-id "sc")) pat-vars)])
 
                 (let ([bind-vars
-- 
2.43.0


From 10f79a00439ee239c6ad6b8b03b169c49e812379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:19 +0000
Subject: [PATCH 58/64] fix: or, case and do bind variables that no program can
 name

---
 src/library/private/and-or.min |  8 ++++----
 src/library/private/case.min   |  5 +++--
 src/library/private/do.min     | 21 +++++++++++----------
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/library/private/and-or.min b/src/library/private/and-or.min
index d2dfaee..fc1c633 100644
--- a/src/library/private/and-or.min
+++ b/src/library/private/and-or.min
@@ -2,7 +2,7 @@
 ;;; 'and', 'or'
 ;;;
 
-(import "stx.min")
+(import "gen-temp.min" "stx.min")
 (export and or)
 
 (define-syntaxes (and)
@@ -34,12 +34,12 @@
                       (stx-null? (stx-cdr e))
                       #f)
                   (stx-car e)
-                  (let-values ([(tmp) 'or-t])
+                  (let-values ([(tmp) (gen-temp-id "or-t")])
                     (datum->syntax
                       (list (quote-syntax let-values)
                         (list
                           (list (list tmp) (stx-car e)))
                         (list (quote-syntax if)
-                          (quote-syntax or-t)
-                          (quote-syntax or-t)
+                          tmp
+                          tmp
                           (cons (quote-syntax or) (stx-cdr e))))))))))))
diff --git a/src/library/private/case.min b/src/library/private/case.min
index e2e23df..2cc6ebf 100644
--- a/src/library/private/case.min
+++ b/src/library/private/case.min
@@ -2,7 +2,7 @@
 ;;; 'case'
 ;;;
 
-(import "and-or.min" "define.min" "let.min" "stx.min"
+(import "and-or.min" "define.min" "gen-temp.min" "let.min" "stx.min"
         "stxcase.min" "stxcase-extra.min" "template.min"
         "when-unless.min")
 
@@ -17,7 +17,8 @@
     [(_ v [(k ...) e es ...] ...)                       ; missing else
      #'(case v [(k ...) e es ...] ... [else (void)])]
     [(_ v [(k ...) e es ...] ... [else x xs ...])       ; general case
-     #'(let ([tmp v]) (case/else tmp [(k ...) e es ...] ... [else x xs ...]))]
+     (with-syntax ([case-t (gen-temp-id "case-t")])
+       #'(let ([case-t v]) (case/else case-t [(k ...) e es ...] ... [else x xs ...])))]
 
     [(_ v cls ...)                                      ; error cases
      (let loop ([clauses (syntax->list #'(cls ...))])
diff --git a/src/library/private/do.min b/src/library/private/do.min
index c3c68da..7eb455c 100644
--- a/src/library/private/do.min
+++ b/src/library/private/do.min
@@ -2,20 +2,21 @@
 ;;; 'do'
 ;;;
 
-(import "define.min" "let.min" "stx.min" "stxcase.min"
+(import "define.min" "gen-temp.min" "let.min" "stx.min" "stxcase.min"
         "stxcase-extra.min" "template.min")
 (export do)
 
 ;; TODO: omit `step`
-(define-syntax do
-  (syntax-rules ()
+(define-syntax (do stx)
+  (syntax-case stx ()
     [(_ ([var init step] ...)
         (test expr ...)
         command ...)
-     (let loop ([var init] ...)
-       (if test
-           (begin
-             expr ...)
-           (begin
-             command ...
-             (loop step ...))))]))
+     (with-syntax ([do-loop (gen-temp-id "do-loop")])
+       #'(let do-loop ([var init] ...)
+           (if test
+               (begin
+                 expr ...)
+               (begin
+                 command ...
+                 (do-loop step ...)))))]))
-- 
2.43.0


From 8383235bdb91fcd9fd2e27c2a54b7d2dd03c26ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:09 +0000
Subject: [PATCH 59/64] fix: malformed bindings of let forms and empty cond
 clauses are syntax errors

---
 src/boot/s/boot.min          | 88 ++++++++++++++++++------------------
 src/library/private/cond.min |  2 +-
 src/library/private/let.min  |  8 ++--
 3 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 96b709a..d1bf322 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -1,28 +1,28 @@
-(define-values (cons*) (lambda (x . xs) (letrec-values (((loop) (lambda (x xs) (if (null? xs) x (cons x (loop (car xs) (cdr xs))))))) (loop x xs))))
+(define-values (cons*) (lambda (x . xs) ((letrec-values (((loop) (lambda (x xs) (if (null? xs) x (cons x (loop (car xs) (cdr xs))))))) loop) x xs)))
 (define-values (first) (lambda (xs) (if (list? xs) (car xs) (raise-argument-error (quote first) "list?" xs))))
-(define-values (second) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote second) "list contains too few elements: ~a" lst))))) (loop lst 2)) (raise-argument-error (quote second) "list?" lst))))
-(define-values (third) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote third) "list contains too few elements: ~a" lst))))) (loop lst 3)) (raise-argument-error (quote third) "list?" lst))))
-(define-values (fourth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fourth) "list contains too few elements: ~a" lst))))) (loop lst 4)) (raise-argument-error (quote fourth) "list?" lst))))
-(define-values (fifth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fifth) "list contains too few elements: ~a" lst))))) (loop lst 5)) (raise-argument-error (quote fifth) "list?" lst))))
-(define-values (sixth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote sixth) "list contains too few elements: ~a" lst))))) (loop lst 6)) (raise-argument-error (quote sixth) "list?" lst))))
-(define-values (seventh) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote seventh) "list contains too few elements: ~a" lst))))) (loop lst 7)) (raise-argument-error (quote seventh) "list?" lst))))
-(define-values (eighth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote eighth) "list contains too few elements: ~a" lst))))) (loop lst 8)) (raise-argument-error (quote eighth) "list?" lst))))
-(define-values (ninth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote ninth) "list contains too few elements: ~a" lst))))) (loop lst 9)) (raise-argument-error (quote ninth) "list?" lst))))
-(define-values (tenth) (lambda (lst) (if (list? lst) (letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote tenth) "list contains too few elements: ~a" lst))))) (loop lst 10)) (raise-argument-error (quote tenth) "list?" lst))))
-(define-values (list-ref) (lambda (lst k) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-ref) "non-negative-integer?" k))) (letrec-values (((loop) (lambda (xs i) (if (null? xs) (errorf (quote list-ref) "index out of bounds ~a for ~a" k lst) (if (= i k) (car xs) (loop (cdr xs) (+ i 1))))))) (loop lst 0))))
-(define-values (member) (lambda (k xs) (letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (pair? xs) (if (equal? (car xs) k) xs (loop (cdr xs))) (raise-argument-error (quote member) "list?" xs)))))) (loop xs))))
-(define-values (remove) (lambda (k xs) (letrec-values (((loop) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) k) (loop (cdr xs)) (cons (car xs) (loop (cdr xs)))) (raise-argument-error (quote remove) "list?" xs)))))) (loop xs))))
-(define-values (remove*) (lambda (ks xs) (if (list? ks) (void) (let-values () (raise-argument-error (quote remove*) "list?" ks))) (letrec-values (((loop) (lambda (ks xs) (if (null? ks) xs (if (null? xs) (quote ()) (loop (cdr ks) (letrec-values (((loop2) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) (car ks)) (loop2 (cdr xs)) (cons (car xs) (loop2 (cdr xs)))) (raise-argument-error (quote remove*) "list?" xs)))))) (loop2 xs)))))))) (loop ks xs))))
-(define-values (filter) (lambda (f lst) (letrec-values (((loop) (lambda (xs acc) (if (null? xs) (reverse acc) (if (pair? xs) (if (f (car xs)) (loop (cdr xs) (cons (car xs) acc)) (loop (cdr xs) acc)) (raise-argument-error (quote filter) "list?" lst)))))) (loop lst (quote ())))))
-(define-values (foldl) (lambda (f acc lst) (letrec-values (((loop) (lambda (xs acc) (if (null? xs) acc (if (pair? xs) (loop (cdr xs) (f acc (car xs))) (raise-argument-error (quote foldl) "list?" lst)))))) (loop lst acc))))
-(define-values (foldr) (lambda (f acc lst) (letrec-values (((loop) (lambda (xs) (if (null? xs) acc (if (pair? xs) (f (loop (cdr xs)) (car xs)) (raise-argument-error (quote foldr) "list?" lst)))))) (loop lst))))
-(define-values (assoc) (lambda (k lst) (letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (not (pair? xs)) (raise-argument-error (quote assoc) "list?" lst) (if (not (pair? (car xs))) (raise-argument-error (quote assoc) "list?" lst) (if (equal? k (caar xs)) (car xs) (loop (cdr xs))))))))) (loop lst))))
-(define-values (index-of) (lambda (k lst) (letrec-values (((loop) (lambda (lst i) (if (null? lst) #f (if (equal? k (car lst)) i (loop (cdr lst) (+ i 1))))))) (loop lst 0))))
-(define-values (list-set) (lambda (lst k v) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-set) "non-negative-integer?" k))) (letrec-values (((loop) (lambda (xs i xs*) (if (null? xs) (errorf (quote list-set) "index out of bounds ~a for ~a" k lst) (if (= i k) (append (reverse xs*) (cons v (cdr xs))) (if (pair? xs) (loop (cdr xs) (+ i 1) (cons (car xs) xs*)) (raise-argument-error (quote list-set) "list?" lst))))))) (loop lst 0 (quote ())))))
+(define-values (second) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote second) "list contains too few elements: ~a" lst))))) loop) lst 2) (raise-argument-error (quote second) "list?" lst))))
+(define-values (third) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote third) "list contains too few elements: ~a" lst))))) loop) lst 3) (raise-argument-error (quote third) "list?" lst))))
+(define-values (fourth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fourth) "list contains too few elements: ~a" lst))))) loop) lst 4) (raise-argument-error (quote fourth) "list?" lst))))
+(define-values (fifth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote fifth) "list contains too few elements: ~a" lst))))) loop) lst 5) (raise-argument-error (quote fifth) "list?" lst))))
+(define-values (sixth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote sixth) "list contains too few elements: ~a" lst))))) loop) lst 6) (raise-argument-error (quote sixth) "list?" lst))))
+(define-values (seventh) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote seventh) "list contains too few elements: ~a" lst))))) loop) lst 7) (raise-argument-error (quote seventh) "list?" lst))))
+(define-values (eighth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote eighth) "list contains too few elements: ~a" lst))))) loop) lst 8) (raise-argument-error (quote eighth) "list?" lst))))
+(define-values (ninth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote ninth) "list contains too few elements: ~a" lst))))) loop) lst 9) (raise-argument-error (quote ninth) "list?" lst))))
+(define-values (tenth) (lambda (lst) (if (list? lst) ((letrec-values (((loop) (lambda (xs pos) (if (pair? xs) (if (= pos 1) (car xs) (loop (cdr xs) (- pos 1))) (errorf (quote tenth) "list contains too few elements: ~a" lst))))) loop) lst 10) (raise-argument-error (quote tenth) "list?" lst))))
+(define-values (list-ref) (lambda (lst k) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-ref) "non-negative-integer?" k))) ((letrec-values (((loop) (lambda (xs i) (if (null? xs) (errorf (quote list-ref) "index out of bounds ~a for ~a" k lst) (if (= i k) (car xs) (loop (cdr xs) (+ i 1))))))) loop) lst 0)))
+(define-values (member) (lambda (k xs) ((letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (pair? xs) (if (equal? (car xs) k) xs (loop (cdr xs))) (raise-argument-error (quote member) "list?" xs)))))) loop) xs)))
+(define-values (remove) (lambda (k xs) ((letrec-values (((loop) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) k) (loop (cdr xs)) (cons (car xs) (loop (cdr xs)))) (raise-argument-error (quote remove) "list?" xs)))))) loop) xs)))
+(define-values (remove*) (lambda (ks xs) (if (list? ks) (void) (let-values () (raise-argument-error (quote remove*) "list?" ks))) ((letrec-values (((loop) (lambda (ks xs) (if (null? ks) xs (if (null? xs) (quote ()) (loop (cdr ks) ((letrec-values (((loop2) (lambda (xs) (if (null? xs) (quote ()) (if (pair? xs) (if (equal? (car xs) (car ks)) (loop2 (cdr xs)) (cons (car xs) (loop2 (cdr xs)))) (raise-argument-error (quote remove*) "list?" xs)))))) loop2) xs))))))) loop) ks xs)))
+(define-values (filter) (lambda (f lst) ((letrec-values (((loop) (lambda (xs acc) (if (null? xs) (reverse acc) (if (pair? xs) (if (f (car xs)) (loop (cdr xs) (cons (car xs) acc)) (loop (cdr xs) acc)) (raise-argument-error (quote filter) "list?" lst)))))) loop) lst (quote ()))))
+(define-values (foldl) (lambda (f acc lst) ((letrec-values (((loop) (lambda (xs acc) (if (null? xs) acc (if (pair? xs) (loop (cdr xs) (f acc (car xs))) (raise-argument-error (quote foldl) "list?" lst)))))) loop) lst acc)))
+(define-values (foldr) (lambda (f acc lst) ((letrec-values (((loop) (lambda (xs) (if (null? xs) acc (if (pair? xs) (f (loop (cdr xs)) (car xs)) (raise-argument-error (quote foldr) "list?" lst)))))) loop) lst)))
+(define-values (assoc) (lambda (k lst) ((letrec-values (((loop) (lambda (xs) (if (null? xs) #f (if (not (pair? xs)) (raise-argument-error (quote assoc) "list?" lst) (if (not (pair? (car xs))) (raise-argument-error (quote assoc) "list?" lst) (if (equal? k (caar xs)) (car xs) (loop (cdr xs))))))))) loop) lst)))
+(define-values (index-of) (lambda (k lst) ((letrec-values (((loop) (lambda (lst i) (if (null? lst) #f (if (equal? k (car lst)) i (loop (cdr lst) (+ i 1))))))) loop) lst 0)))
+(define-values (list-set) (lambda (lst k v) (if (non-negative-integer? k) (void) (let-values () (raise-argument-error (quote list-set) "non-negative-integer?" k))) ((letrec-values (((loop) (lambda (xs i xs*) (if (null? xs) (errorf (quote list-set) "index out of bounds ~a for ~a" k lst) (if (= i k) (append (reverse xs*) (cons v (cdr xs))) (if (pair? xs) (loop (cdr xs) (+ i 1) (cons (car xs) xs*)) (raise-argument-error (quote list-set) "list?" lst))))))) loop) lst 0 (quote ()))))
 (define-values (is-absolute-path?) (lambda (path) (if (> (string-length path) 0) (eq? (string-ref path 0) #\/) #f)))
-(define-values (build-path) (lambda (base . subpaths) (letrec-values (((string-terminates-with-/?) (lambda (str) (letrec-values (((len) (string-length str))) (eq? (string-ref str (- len 1)) #\/)))) ((paths) (letrec-values (((loop) (lambda (paths accum) (if (null? paths) (reverse accum) (if (= (string-length (car paths)) 0) (loop (cdr paths) accum) (if (string-terminates-with-/? (car accum)) (loop (cdr paths) (cons (car paths) accum)) (loop (cdr paths) (cons (car paths) (cons "/" accum))))))))) (loop subpaths (list base))))) (apply string-append paths))))
+(define-values (build-path) (lambda (base . subpaths) (letrec-values (((string-terminates-with-/?) (lambda (str) (letrec-values (((len) (string-length str))) (eq? (string-ref str (- len 1)) #\/)))) ((paths) ((letrec-values (((loop) (lambda (paths accum) (if (null? paths) (reverse accum) (if (= (string-length (car paths)) 0) (loop (cdr paths) accum) (if (string-terminates-with-/? (car accum)) (loop (cdr paths) (cons (car paths) accum)) (loop (cdr paths) (cons (car paths) (cons "/" accum))))))))) loop) subpaths (list base)))) (apply string-append paths))))
 (define-values (split-path) (lambda (path) (if (string? path) (void) (let-values () (raise-argument-error (quote split-path) "string?" path))) (letrec-values (((path-elems) (reverse (path->list path)))) (if (pair? (cdr path-elems)) (let-values () (letrec-values (((end) (car path-elems)) ((rest) (cdr path-elems))) (cons (apply build-path (reverse rest)) end))) (cons #f (car path-elems))))))
-(define-values (path->list) (lambda (path) (if (string? path) (void) (let-values () (raise-argument-error (quote path->list) "string?" path))) (letrec-values (((loop) (lambda (path accum) (if (= (string-length path) 0) (reverse accum) (let-values () (letrec-values (((len) (string-length path))) (letrec-values (((loop2) (lambda (i) (if (= i len) (loop "" (cons path accum)) (if (eq? (string-ref path i) #\/) (if (= i 0) (loop (substring path 1 len) (cons "/" accum)) (let-values () (letrec-values (((elem) (substring path 0 i)) ((rest) (substring path (+ i 1) len))) (loop rest (cons elem accum))))) (loop2 (+ i 1))))))) (loop2 0)))))))) (loop path (quote ())))))
+(define-values (path->list) (lambda (path) (if (string? path) (void) (let-values () (raise-argument-error (quote path->list) "string?" path))) ((letrec-values (((loop) (lambda (path accum) (if (= (string-length path) 0) (reverse accum) (let-values () (letrec-values (((len) (string-length path))) ((letrec-values (((loop2) (lambda (i) (if (= i len) (loop "" (cons path accum)) (if (eq? (string-ref path i) #\/) (if (= i 0) (loop (substring path 1 len) (cons "/" accum)) (let-values () (letrec-values (((elem) (substring path 0 i)) ((rest) (substring path (+ i 1) len))) (loop rest (cons elem accum))))) (loop2 (+ i 1))))))) loop2) 0))))))) loop) path (quote ()))))
 (define-values ($generics-type) (make-record-type-descriptor (quote generics) #f #f #f #f (quote #((immutable name) (immutable methods)))))
 (define-values ($generics-type?) (record-predicate $generics-type))
 (define-values ($make-generics-type) (record-constructor $generics-type))
@@ -32,7 +32,7 @@
 (define-values (non-rtd-error) (lambda (who v) (raise-argument-error who "record-type-descriptor?" v)))
 (define-values ($generics-type-method-names) (lambda (generics) (if ($generics-type? generics) (void) (let-values () (non-generics-type-error (quote $generics-type-method-names) generics))) (map car ($generics-type-methods generics))))
 (define-values ($record-generics) (make-hashtable))
-(define-values (record-type-add-generic!) (lambda (rtd generic impls) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote record-type-add-generics!) generic))) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error (quote record-type-add-generics!) rtd))) (if (if (list? impls) (andmap procedure? impls) #f) (void) (let-values () (raise-argument-error (quote record-type-add-generics!) "list of procedures" impls))) (letrec-values (((names) ($generics-type-method-names generic)) (() (let-values () (if (= (length names) (length impls)) (void) (let-values () (error (quote record-type-add-generics!) "number of procedures does not match interface" (format "expected: ~a" (length names)) (format "got: ~a" (length impls))))) (values))) (() (let-values () (for-each (lambda (entry impl) (letrec-values (((id) (car entry)) ((formals) (cdr entry)) ((expected-arity) (letrec-values (((loop) (lambda (formals i) (if (null? formals) i (if (symbol? formals) (cons i #f) (loop (cdr formals) (+ i 1))))))) (loop formals 0))) ((arity) (procedure-arity impl))) (if (equal? arity expected-arity) (void) (let-values () (error (quote record-type-add-generics!) "method implementation does not match formals" (format "method definition: ~a ~a" id formals) (format "actual arity: ~a" arity)))))) ($generics-type-methods generic) impls) (values)))) (hashtable-set! $record-generics rtd (if (hashtable-contains? $record-generics rtd) (cons (cons generic impls) (hashtable-ref $record-generics rtd)) (list (cons generic impls)))))))
+(define-values (record-type-add-generic!) (lambda (rtd generic impls) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote record-type-add-generics!) generic))) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error (quote record-type-add-generics!) rtd))) (if (if (list? impls) (andmap procedure? impls) #f) (void) (let-values () (raise-argument-error (quote record-type-add-generics!) "list of procedures" impls))) (letrec-values (((names) ($generics-type-method-names generic)) (() (let-values () (if (= (length names) (length impls)) (void) (let-values () (error (quote record-type-add-generics!) "number of procedures does not match interface" (format "expected: ~a" (length names)) (format "got: ~a" (length impls))))) (values))) (() (let-values () (for-each (lambda (entry impl) (letrec-values (((id) (car entry)) ((formals) (cdr entry)) ((expected-arity) ((letrec-values (((loop) (lambda (formals i) (if (null? formals) i (if (symbol? formals) (cons i #f) (loop (cdr formals) (+ i 1))))))) loop) formals 0)) ((arity) (procedure-arity impl))) (if (equal? arity expected-arity) (void) (let-values () (error (quote record-type-add-generics!) "method implementation does not match formals" (format "method definition: ~a ~a" id formals) (format "actual arity: ~a" arity)))))) ($generics-type-methods generic) impls) (values)))) (hashtable-set! $record-generics rtd (if (hashtable-contains? $record-generics rtd) (cons (cons generic impls) (hashtable-ref $record-generics rtd)) (list (cons generic impls)))))))
 (define-values (generics-accessor) (lambda (generic name) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generics-accessor) generic))) (if (symbol? name) (void) (let-values () (raise-argument-error (quote generics-accessor) "symbol?" generic))) (letrec-values (((idx) (index-of name ($generics-type-method-names generic))) (() (let-values () (if idx (void) (let-values () (error (quote generics-accessor) "method name not associated with generics interface" name))) (values)))) (lambda (rtd) (if (record-type-descriptor? rtd) (void) (let-values () (non-rtd-error #f rtd))) (letrec-values (((rtd-generics) (hashtable-ref $record-generics rtd (quote ()))) ((maybe-entry) (assoc generic rtd-generics))) (if maybe-entry (list-ref (cdr maybe-entry) idx) (error (quote generics-accessor) "generic not associated with record type" ($generics-type-name generic) rtd)))))))
 (define-values (generic-instance?) (lambda (generic) (if ($generics-type? generic) (void) (let-values () (non-generics-type-error (quote generic-instance?) generic))) (lambda (rtd) (if (record-type-descriptor? rtd) (let-values (((generics) (hashtable-ref $record-generics rtd #f))) (if generics (assoc generic generics) #f)) #f))))
 (define-values (gen:equal+hash gen:equal+hash?) (let-values (((:gen) ($make-generics-type (quote equal+hash) (quote ((equal-proc a b rec-equal?) (hash-proc a rec-hash)))))) (values :gen (generic-instance? :gen))))
@@ -50,16 +50,16 @@
 (define-values (set-remove!) (lambda (st v) (if (set? st) (void) (let-values () (not-set-error (quote set-remove!) st))) (hashtable-delete! (set-store st) v)))
 (define-values (set-clear!) (lambda (st) (if (set? st) (void) (let-values () (not-set-error (quote set-clear!) st))) (hashtable-clear! (set-store st))))
 (define-values (set->list) (lambda (st) (if (set? st) (void) (let-values () (not-set-error (quote set->list) st))) (vector->list (hashtable-keys (set-store st)))))
-(define-values (subset?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote subset?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote subset?) st2))) (letrec-values (((loop) (lambda (elts) (if (null? elts) #t (if (set-member? st2 (car elts)) (loop (cdr elts)) #f))))) (loop (set->list st)))))
+(define-values (subset?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote subset?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote subset?) st2))) ((letrec-values (((loop) (lambda (elts) (if (null? elts) #t (if (set-member? st2 (car elts)) (loop (cdr elts)) #f))))) loop) (set->list st))))
 (define-values (proper-subset?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote proper-subset?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote proper-subset?) st2))) (if (subset? st st2) (not (subset? st2 st)) #f)))
 (define-values (set=?) (lambda (st st2) (if (set? st) (void) (let-values () (not-set-error (quote set=?) st))) (if (set? st2) (void) (let-values () (not-set-error (quote set=?) st2))) (if (subset? st st2) (subset? st2 st) #f)))
 (define-values (set-map) (lambda (proc st) (if (set? st) (void) (let-values () (not-set-error (quote set-map) st))) (map proc (set->list st))))
 (define-values (set-for-each) (lambda (proc st) (if (set? st) (void) (let-values () (not-set-error (quote set-for-each) st))) (for-each proc (set->list st))))
 (define-values (set-union) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-union) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((u) (make-set)) (() (let-values () (for-each (lambda (s) (for-each (lambda (x) (set-add! u x)) (set->list s))) ss) (values)))) u))))))
-(define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) (letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) (loop (cdr ss) i))))))))
-(define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) (loop sts)))))
-(define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) (loop sts)))))
-(define-values (substring) (lambda (str start end) (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (letrec-values (((len) (string-length str)) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 (+ end 1) start))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
+(define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) ((letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) loop) (cdr ss) i)))))))
+(define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) ((letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) loop) sts))))
+(define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) ((letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) loop) sts))))
+(define-values (substring) (lambda (str start end) (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (letrec-values (((len) (string-length str)) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 (+ end 1) start))) (values))) ((sstr) (make-string (- end start)))) ((letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) loop) 0 start))))
 (define-values (identifier?) (lambda (t) (if (syntax? t) (symbol? (syntax-e t)) #f)))
 (define-values (free-identifier=?) (lambda (a b) (if (not (identifier? a)) (raise-argument-error (quote free-identifier=?) "identifier?" a) (if (not (identifier? b)) (raise-argument-error (quote free-identifier=?) "identifier?" b) (eq? (syntax-e a) (syntax-e b))))))
 (define-values (stx-null?) (lambda (t) (if (null? t) #t (if (syntax? t) (null? (syntax-e t)) #f))))
@@ -85,12 +85,12 @@
 (define-values (make-base-scope) (lambda () (letrec-values (((bound) (make-set)) (() (let-values () (for-each (lambda (n) (set-add! bound n)) (environment-symbols $base-env)) (values)))) (make-scope bound #f))))
 (define-values (scope-extend) (lambda (prev) (make-scope (make-set) prev)))
 (define-values (scope-add!) (lambda (scope name) (set-add! (scope-bound scope) name)))
-(define-values (scope-names) (lambda (scope) (letrec-values (((names) (make-set)) (() (let-values () (letrec-values (((loop) (lambda (scope) (if scope (let-values () (for-each (lambda (n) (set-add! names n)) (set->list (scope-bound scope))) (loop (scope-prev scope))) (void))))) (loop scope)) (values)))) names)))
-(define-values (scope-contains?) (lambda (scope name) (letrec-values (((loop) (lambda (scope) (if (not scope) #f (if (set-member? (scope-bound scope) name) #t (loop (scope-prev scope))))))) (loop scope))))
+(define-values (scope-names) (lambda (scope) (letrec-values (((names) (make-set)) (() (let-values () ((letrec-values (((loop) (lambda (scope) (if scope (let-values () (for-each (lambda (n) (set-add! names n)) (set->list (scope-bound scope))) (loop (scope-prev scope))) (void))))) loop) scope) (values)))) names)))
+(define-values (scope-contains?) (lambda (scope name) ((letrec-values (((loop) (lambda (scope) (if (not scope) #f (if (set-member? (scope-bound scope) name) #t (loop (scope-prev scope))))))) loop) scope)))
 (define-values ($base-env) (make-base-environment))
 (define-values ($base-scope) (make-base-scope))
 (define-values (lookup-xform) (lambda (maybe-id xforms) (if (identifier? maybe-id) (let-values (((entry) (assoc (syntax-e maybe-id) xforms))) (if entry (cdr entry) #f)) #f)))
-(define-values (merge-xforms) (lambda (xforms new-xforms) (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? new-xforms) xforms (if (assoc (caar new-xforms) xforms) (loop xforms (cdr new-xforms)) (loop (cons (car new-xforms) xforms) (cdr new-xforms))))))) (loop xforms new-xforms))))
+(define-values (merge-xforms) (lambda (xforms new-xforms) ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? new-xforms) xforms (if (assoc (caar new-xforms) xforms) (loop xforms (cdr new-xforms)) (loop (cons (car new-xforms) xforms) (cdr new-xforms))))))) loop) xforms new-xforms)))
 (define-values (_-form?) (lambda (form-name) (lambda (expr) (if (stx-pair? expr) (let-values (((head) (stx-car expr))) (if (identifier? head) (eq? (syntax-e head) form-name) #f)) #f))))
 (define-values (define-values-form?) (_-form? (quote define-values)))
 (define-values (define-syntaxes-form?) (_-form? (quote define-syntaxes)))
@@ -104,13 +104,13 @@
 (define-values (case-lambda-form?) (_-form? (quote case-lambda)))
 (define-values (begin-form?) (_-form? (quote begin)))
 (define-values (if-form?) (_-form? (quote if)))
-(define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t) (boolean? datum))) (if or-t or-t (let-values (((or-t) (number? datum))) (if or-t or-t (let-values (((or-t) (string? datum))) (if or-t or-t (let-values (((or-t) (vector? datum))) (if or-t or-t (let-values (((or-t) (box? datum))) (if or-t or-t (char? datum))))))))))))))
-(define-values (duplicate-identifier) (lambda (ids new-ids) (letrec-values (((new-unique) (make-set))) (letrec-values (((loop) (lambda (new-ids) (if (null? new-ids) #f (if (set-member? ids (car new-ids)) (car new-ids) (if (set-member? new-unique (car new-ids)) (car new-ids) (let-values () (set-add! new-unique (car new-ids)) (loop (cdr new-ids))))))))) (loop new-ids)))))
+(define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t3003) (boolean? datum))) (if or-t3003 or-t3003 (let-values (((or-t3004) (number? datum))) (if or-t3004 or-t3004 (let-values (((or-t3005) (string? datum))) (if or-t3005 or-t3005 (let-values (((or-t3006) (vector? datum))) (if or-t3006 or-t3006 (let-values (((or-t3007) (box? datum))) (if or-t3007 or-t3007 (char? datum))))))))))))))
+(define-values (duplicate-identifier) (lambda (ids new-ids) (letrec-values (((new-unique) (make-set))) ((letrec-values (((loop) (lambda (new-ids) (if (null? new-ids) #f (if (set-member? ids (car new-ids)) (car new-ids) (if (set-member? new-unique (car new-ids)) (car new-ids) (let-values () (set-add! new-unique (car new-ids)) (loop (cdr new-ids))))))))) loop) new-ids))))
 (define-values (check-define-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((ids) (syntax->list (stx-car rib0))) ((rib1) (stx-cdr rib0)) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error name "expected an expression after identifiers" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
-(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t) (list? bind-rib))) (if or-t or-t (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) (letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) (loop bindings)))))
+(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t3008) (list? bind-rib))) (if or-t3008 or-t3008 (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) ((letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) loop) bindings))))
 (define-values (check-set!-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error (quote set!) "bad syntax" form)) (void)) (values))) ((id) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (identifier? id) (void) (let-values () (raise-syntax-error (quote set!) "not identifier" form id))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error (quote set!) "expected an expression after identifier" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error (quote set!) "too many expressions" form))))))
-(define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t) (list? rib2))) (if or-t or-t (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
-(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) (letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t) (list? rib2))) (if or-t or-t (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) (loop clauses)))))
+(define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t3009) (list? rib2))) (if or-t3009 or-t3009 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
+(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) ((letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t3010) (list? rib2))) (if or-t3010 or-t3010 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) loop) clauses))))
 (define-values (check-begin-form!) (lambda (form) (if (syntax->list form) (void) (let-values () (raise-syntax-error (quote begin) "bad syntax" form)))))
 (define-values (check-1ary-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "expected an expression" form)) (void)) (values))) ((rib1) (stx-cdr rib0))) (if (stx-null? rib1) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
 (define-values (check-if-form!) (lambda (form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((cond-rib) (stx-cdr rib)) (() (let-values () (if (stx-null? cond-rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((ift-rib) (stx-cdr cond-rib)) (() (let-values () (if (stx-null? ift-rib) (let-values () (raise-syntax-error (quote if) "missing an \"else\" statement" form)) (void)) (values))) ((iff-rib) (stx-cdr ift-rib))) (if (stx-null? iff-rib) (void) (let-values () (raise-syntax-error (quote if) "too many expressions" form))))))
@@ -119,21 +119,21 @@
 (define-values ($base-stx-env) (lambda (env) (let-values (((env) (copy-environment env #f))) (environment-set! env (quote get-pattern-variable) (lambda (k) (if (symbol? k) (letrec-values (((loop) (lambda (assoc) (if (null? assoc) #f (if (eq? (caar assoc) k) (cadar assoc) (loop (cdr assoc))))))) (loop $expander-pattern-vars)) (raise-argument-error (quote get-pattern-variable) "symbol?" k)))) env)))
 (define-values (define-syntaxes/values-identifiers) (lambda (form) (map syntax-e (syntax->list (stx-car (stx-cdr form))))))
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
-(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) (letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) (rec (syntax->datum formals))))) ((check/expr!) (lambda (expr0 scope) (letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values))) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) (loop expr0)))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
-(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
+(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) ((letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) rec) (syntax->datum formals)))) ((check/expr!) (lambda (expr0 scope) ((letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t3011) (let-values-form? expr))) (if or-t3011 or-t3011 (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values))) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t3012) (quote-form? expr))) (if or-t3012 or-t3012 (let-values (((or-t3013) (quote-syntax-form? expr))) (if or-t3013 or-t3013 (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) loop) expr0))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
+(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t3014) (define-values-form? expr))) (if or-t3014 or-t3014 (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t3015) (procedure? xform))) (if or-t3015 or-t3015 (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t3016) (let-values-form? expr))) (if or-t3016 or-t3016 (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) loop) expr)))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs) (if (null? exprs) null ((letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) with-scope) exprs xforms))))) loop) exprs))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
 (define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (if (null? (cdr exprs*)) (values (car exprs*) xforms*) (values (datum->syntax (cons (quote begin) exprs*)) xforms*))))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
 (define-values ($module-envs) (make-hashtable))
 (define-values ($module-internals) (make-hashtable))
-(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) (letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) (loop (quote ())))))) (($import) (lambda (exprs) (letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) (letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports))) ((path) (build-path new-cwd maybe-import))) (if (string? maybe-import) (let-values () ($load-or-import path print-handler result-handler) (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) (loop2 (cdr expr))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) (letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (build-path new-cwd module-name))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) (loop2 (cdr expr))) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) (loop exprs (quote ()))))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
-(define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) (letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) (loop imports)))))
-(define-values ($eval-exprs) (lambda (exprs env print-handler) (letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results (letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) (loop2 results (void))))))))))) (loop exprs (void)))))
-(define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () (letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) (loop exports)) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
-(define-values ($repl) (lambda (env stx-env xforms scope) (letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) (loop xforms))))
+(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports))) ((path) (build-path new-cwd maybe-import))) (if (string? maybe-import) (let-values () ($load-or-import path print-handler result-handler) (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (build-path new-cwd module-name))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
+(define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) ((letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) loop) imports))))
+(define-values ($eval-exprs) (lambda (exprs env print-handler) ((letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results ((letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) loop2) results (void)))))))))) loop) exprs (void))))
+(define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () ((letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) loop) exports) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
+(define-values ($repl) (lambda (env stx-env xforms scope) ((letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) loop) xforms)))
 (define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
 (define-values (read/module) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) ($load-module path #f #f))))
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs) #f) (copy-environment (car envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (let-values (((or-t) (eq? c #\newline))) (if or-t or-t (let-values (((or-t) (eq? c tab))) (if or-t or-t (let-values (((or-t) (eq? c vtab))) (if or-t or-t (let-values (((or-t) (eq? c page))) (if or-t or-t (eq? c return))))))))))))) ((closing?) (lambda (c) (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((digit-value) (lambda (c) (if (char? c) (let-values () (letrec-values (((i) (char->integer c))) (if (<= (char->integer #\0) i (char->integer #\9)) (- i (char->integer #\0)) (if (<= (char->integer #\a) i (char->integer #\f)) (+ 10 (- i (char->integer #\a))) (if (<= (char->integer #\A) i (char->integer #\F)) (+ 10 (- i (char->integer #\A))) #f))))) #f))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (prev block-level) (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (if (eq? prev #\#) (eq? c #\|) #f) (loop #f (+ block-level 1)) (if (if (eq? prev #\|) (eq? c #\#) #f) (if (= block-level 1) (void) (loop #f (- block-level 1))) (loop c block-level))))))) (loop #f 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((end) (box #f)) ((end!) (lambda (c) (set-box! end c) end)) ((end-char) (lambda () (unbox end))) ((read-required) (lambda () (letrec-values (((o) (read-datum #f))) (if (eq? o end) (let-values () (assert-not-eof! (end-char)) (errorf (quote read) "unexpected input: ~a" (end-char))) o)))) ((read-list) (lambda (open improper?) (letrec-values (((loop) (lambda (elems) (letrec-values (((o) (read-datum (if improper? (pair? elems) #f)))) (if (not (eq? o end)) (loop (cons o elems)) (if (closing? (end-char)) (let-values () (assert-matching-parens! open (end-char)) (reverse elems)) (let-values () (assert-not-eof! (end-char)) (letrec-values (((tail) (read-required)) (() (let-values () (if (if (eq? (read-datum #f) end) (closing? (end-char)) #f) (void) (let-values () (error (quote read) "missing closing parenthesis"))) (values))) (() (let-values () (assert-matching-parens! open (end-char)) (values)))) (letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) (loop elems tail)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((named) (lambda (next rest code) (if (eq? (peek-char p) next) (let-values () (check-expected-string! rest) (integer->char code)) c))) ((r) (let-values (((tmp) c)) (if (equal? tmp (quote #\a)) (let-values () (named #\l "larm" 7)) (if (equal? tmp (quote #\b)) (let-values () (named #\a "ackspace" 8)) (if (equal? tmp (quote #\d)) (let-values () (named #\e "elete" 127)) (if (equal? tmp (quote #\e)) (let-values () (named #\s "sc" 27)) (if (equal? tmp (quote #\l)) (let-values () (named #\i "inefeed" 10)) (if (equal? tmp (quote #\n)) (let-values () (if (eq? (peek-char p) #\u) (named #\u "ul" 0) (named #\e "ewline" 10))) (if (equal? tmp (quote #\p)) (let-values () (named #\a "age" 12)) (if (equal? tmp (quote #\r)) (let-values () (named #\e "eturn" 13)) (if (equal? tmp (quote #\s)) (let-values () (named #\p "pace" 32)) (if (equal? tmp (quote #\t)) (let-values () (named #\a "ab" 9)) (if (equal? tmp (quote #\v)) (let-values () (named #\t "tab" 11)) (let-values () c)))))))))))))) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) r))) ((read-number) (lambda (base sign-char) (letrec-values (((sign) (if (eq? sign-char #\-) -1 1))) (letrec-values (((loop) (lambda (chars num digits?) (letrec-values (((c) (peek-char p)) ((d) (digit-value c))) (if (if d (< d base) #f) (let-values () (read-char p) (letrec-values (((num*) (if num (+ (* base num) (* sign d)) #f))) (loop (cons c chars) (if num* (if (= (/ (- num* (* sign d)) base) num) (if (if (< sign 0) (<= num* 0) (>= num* 0)) num* #f) #f) #f) #t))) (if (symbol-char? c) (read-symbol chars) (if (not digits?) (error (quote read) "expected digits") (if num num (errorf (quote read) "number out of range: ~a" (list->string (reverse chars))))))))))) (loop (if sign-char (list sign-char) (quote ())) 0 #f))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "non-terminated string literal") (if (eq? c #\\) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (loop (cons (let-values (((tmp) c)) (if (equal? tmp (quote #\a)) (let-values () (integer->char 7)) (if (equal? tmp (quote #\b)) (let-values () (integer->char 8)) (if (equal? tmp (quote #\f)) (let-values () page) (if (equal? tmp (quote #\n)) (let-values () #\newline) (if (equal? tmp (quote #\r)) (let-values () return) (if (equal? tmp (quote #\t)) (let-values () tab) (if (equal? tmp (quote #\v)) (let-values () vtab) (if (if (equal? tmp (quote #\\)) #t (if (equal? tmp (quote #\')) #t (equal? tmp (quote #\")))) (let-values () c) (let-values () (errorf (quote read) "unknown escape character ~a" c))))))))))) acc)))) (if (eq? c #\") (list->string (reverse acc)) (loop (cons c acc))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (string->symbol (list->string (reverse acc)))))))) (loop acc)))) ((read-datum) (lambda (dot?) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (let-values (((or-t) (eof-object? c))) (if or-t or-t (closing? c))) (let-values () (read-char p) (end! c)) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (list->vector (read-list c #f)))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) ((signed?) (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+)))) (() (let-values () (if signed? (let-values () (read-char p)) (void)) (values)))) (datum->syntax (read-number 16 (if signed? c #f))))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-datum dot?)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-datum dot?)) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (digit? c) (datum->syntax (read-number 10 #f)) (if (eq? c #\") (let-values () (read-char p) (datum->syntax (read-string))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-list c #t))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (if (digit? (peek-char p)) (datum->syntax (read-number 10 c)) (datum->syntax (read-symbol (list c))))) (if (eq? c #\.) (let-values () (read-char p) (if (if dot? (space? (peek-char p)) #f) (end! c) (datum->syntax (read-symbol (list c))))) (datum->syntax (read-symbol (quote ())))))))))))))) ((o) (read-datum #f))) (if (not (eq? o end)) o (if (eof-object? (end-char)) (end-char) (errorf (quote read) "unexpected input: ~a" (end-char))))))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t3272) (eq? c #\space))) (if or-t3272 or-t3272 (let-values (((or-t3273) (eq? c #\newline))) (if or-t3273 or-t3273 (let-values (((or-t3274) (eq? c tab))) (if or-t3274 or-t3274 (let-values (((or-t3275) (eq? c vtab))) (if or-t3275 or-t3275 (let-values (((or-t3276) (eq? c page))) (if or-t3276 or-t3276 (eq? c return))))))))))))) ((closing?) (lambda (c) (let-values (((or-t3277) (eq? c cparen))) (if or-t3277 or-t3277 (let-values (((or-t3278) (eq? c cbrack))) (if or-t3278 or-t3278 (eq? c cbrace))))))) ((delimeter?) (lambda (c) (let-values (((or-t3279) (eof-object? c))) (if or-t3279 or-t3279 (let-values (((or-t3280) (space? c))) (if or-t3280 or-t3280 (let-values (((or-t3281) (eq? c oparen))) (if or-t3281 or-t3281 (let-values (((or-t3282) (eq? c obrack))) (if or-t3282 or-t3282 (let-values (((or-t3283) (eq? c obrace))) (if or-t3283 or-t3283 (let-values (((or-t3284) (eq? c cparen))) (if or-t3284 or-t3284 (let-values (((or-t3285) (eq? c cbrack))) (if or-t3285 or-t3285 (let-values (((or-t3286) (eq? c cbrace))) (if or-t3286 or-t3286 (let-values (((or-t3287) (eq? c #\"))) (if or-t3287 or-t3287 (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((digit-value) (lambda (c) (if (char? c) (let-values () (letrec-values (((i) (char->integer c))) (if (<= (char->integer #\0) i (char->integer #\9)) (- i (char->integer #\0)) (if (<= (char->integer #\a) i (char->integer #\f)) (+ 10 (- i (char->integer #\a))) (if (<= (char->integer #\A) i (char->integer #\F)) (+ 10 (- i (char->integer #\A))) #f))))) #f))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t3288) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t3288 or-t3288 (let-values (((or-t3289) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t3289 or-t3289 (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (prev block-level) (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (if (eq? prev #\#) (eq? c #\|) #f) (loop #f (+ block-level 1)) (if (if (eq? prev #\|) (eq? c #\#) #f) (if (= block-level 1) (void) (loop #f (- block-level 1))) (loop c block-level))))))) loop) #f 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((end) (box #f)) ((end!) (lambda (c) (set-box! end c) end)) ((end-char) (lambda () (unbox end))) ((read-required) (lambda () (letrec-values (((o) (read-datum #f))) (if (eq? o end) (let-values () (assert-not-eof! (end-char)) (errorf (quote read) "unexpected input: ~a" (end-char))) o)))) ((read-list) (lambda (open improper?) ((letrec-values (((loop) (lambda (elems) (letrec-values (((o) (read-datum (if improper? (pair? elems) #f)))) (if (not (eq? o end)) (loop (cons o elems)) (if (closing? (end-char)) (let-values () (assert-matching-parens! open (end-char)) (reverse elems)) (let-values () (assert-not-eof! (end-char)) (letrec-values (((tail) (read-required)) (() (let-values () (if (if (eq? (read-datum #f) end) (closing? (end-char)) #f) (void) (let-values () (error (quote read) "missing closing parenthesis"))) (values))) (() (let-values () (assert-matching-parens! open (end-char)) (values)))) ((letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) loop) elems tail))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((named) (lambda (next rest code) (if (eq? (peek-char p) next) (let-values () (check-expected-string! rest) (integer->char code)) c))) ((r) (let-values (((case-t3290) c)) (if (equal? case-t3290 (quote #\a)) (let-values () (named #\l "larm" 7)) (if (equal? case-t3290 (quote #\b)) (let-values () (named #\a "ackspace" 8)) (if (equal? case-t3290 (quote #\d)) (let-values () (named #\e "elete" 127)) (if (equal? case-t3290 (quote #\e)) (let-values () (named #\s "sc" 27)) (if (equal? case-t3290 (quote #\l)) (let-values () (named #\i "inefeed" 10)) (if (equal? case-t3290 (quote #\n)) (let-values () (if (eq? (peek-char p) #\u) (named #\u "ul" 0) (named #\e "ewline" 10))) (if (equal? case-t3290 (quote #\p)) (let-values () (named #\a "age" 12)) (if (equal? case-t3290 (quote #\r)) (let-values () (named #\e "eturn" 13)) (if (equal? case-t3290 (quote #\s)) (let-values () (named #\p "pace" 32)) (if (equal? case-t3290 (quote #\t)) (let-values () (named #\a "ab" 9)) (if (equal? case-t3290 (quote #\v)) (let-values () (named #\t "tab" 11)) (let-values () c)))))))))))))) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) r))) ((read-number) (lambda (base sign-char) (letrec-values (((sign) (if (eq? sign-char #\-) -1 1))) ((letrec-values (((loop) (lambda (chars num digits?) (letrec-values (((c) (peek-char p)) ((d) (digit-value c))) (if (if d (< d base) #f) (let-values () (read-char p) (letrec-values (((num*) (if num (+ (* base num) (* sign d)) #f))) (loop (cons c chars) (if num* (if (= (/ (- num* (* sign d)) base) num) (if (if (< sign 0) (<= num* 0) (>= num* 0)) num* #f) #f) #f) #t))) (if (symbol-char? c) (read-symbol chars) (if (not digits?) (error (quote read) "expected digits") (if num num (errorf (quote read) "number out of range: ~a" (list->string (reverse chars))))))))))) loop) (if sign-char (list sign-char) (quote ())) 0 #f)))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "non-terminated string literal") (if (eq? c #\\) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (loop (cons (let-values (((case-t3291) c)) (if (equal? case-t3291 (quote #\a)) (let-values () (integer->char 7)) (if (equal? case-t3291 (quote #\b)) (let-values () (integer->char 8)) (if (equal? case-t3291 (quote #\f)) (let-values () page) (if (equal? case-t3291 (quote #\n)) (let-values () #\newline) (if (equal? case-t3291 (quote #\r)) (let-values () return) (if (equal? case-t3291 (quote #\t)) (let-values () tab) (if (equal? case-t3291 (quote #\v)) (let-values () vtab) (if (if (equal? case-t3291 (quote #\\)) #t (if (equal? case-t3291 (quote #\')) #t (equal? case-t3291 (quote #\")))) (let-values () c) (let-values () (errorf (quote read) "unknown escape character ~a" c))))))))))) acc)))) (if (eq? c #\") (list->string (reverse acc)) (loop (cons c acc))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (string->symbol (list->string (reverse acc)))))))) loop) acc))) ((read-datum) (lambda (dot?) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (let-values (((or-t3292) (eof-object? c))) (if or-t3292 or-t3292 (closing? c))) (let-values () (read-char p) (end! c)) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (list->vector (read-list c #f)))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) ((signed?) (let-values (((or-t3293) (eq? c #\-))) (if or-t3293 or-t3293 (eq? c #\+)))) (() (let-values () (if signed? (let-values () (read-char p)) (void)) (values)))) (datum->syntax (read-number 16 (if signed? c #f))))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-datum dot?)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-datum dot?)) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (digit? c) (datum->syntax (read-number 10 #f)) (if (eq? c #\") (let-values () (read-char p) (datum->syntax (read-string))) (if (let-values (((or-t3294) (eq? c oparen))) (if or-t3294 or-t3294 (let-values (((or-t3295) (eq? c obrack))) (if or-t3295 or-t3295 (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-list c #t))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (let-values (((or-t3296) (eq? c #\+))) (if or-t3296 or-t3296 (eq? c #\-))) (let-values () (read-char p) (if (digit? (peek-char p)) (datum->syntax (read-number 10 c)) (datum->syntax (read-symbol (list c))))) (if (eq? c #\.) (let-values () (read-char p) (if (if dot? (space? (peek-char p)) #f) (end! c) (datum->syntax (read-symbol (list c))))) (datum->syntax (read-symbol (quote ())))))))))))))) ((o) (read-datum #f))) (if (not (eq? o end)) o (if (eof-object? (end-char)) (end-char) (errorf (quote read) "unexpected input: ~a" (end-char))))))))
diff --git a/src/library/private/cond.min b/src/library/private/cond.min
index 431c45e..a6a6fc4 100644
--- a/src/library/private/cond.min
+++ b/src/library/private/cond.min
@@ -14,7 +14,7 @@
           (if (stx-null? e)
               (quote-syntax (void))
               (let-values ([(c) (stx-car e)])
-                (if (and (stx-list? c) (not (null? c)))
+                (if (and (stx-list? c) (not (stx-null? c)))
                     (let-values ([(test) (stx-car c)]
                                  [(then) (stx-cdr c)]
                                  [(then-clause)
diff --git a/src/library/private/let.min b/src/library/private/let.min
index 14e5a8c..faa0584 100644
--- a/src/library/private/let.min
+++ b/src/library/private/let.min
@@ -43,7 +43,7 @@
                        (let-values ([(id) bindings]
                                     [(bindings) (stx-car e)]
                                     [(e) (stx-cdr e)])
-                         (if (not (stx-list? stx))
+                         (if (not (stx-list? bindings))
                              (serr "not a sequence of bindings" stx)
                              (let-values ([(vars vals)
                                            (splice-bindings (syntax-e bindings) null null)])
@@ -61,7 +61,7 @@
                                      vals))))))]
                       [else
                        ; let form
-                       (if (not (stx-list? stx))
+                       (if (not (stx-list? bindings))
                            (serr "not a sequence of bindings" stx)
                            (let-values ([(vars vals)
                                          (splice-bindings (syntax-e bindings) null null)])
@@ -112,7 +112,7 @@
                                                                [(vals) (cons val vals)])
                                                     (splice-bindings bindings vars vals))
                                                   (serr "not a sequence of bindings" stx)))))))))])
-                      (if (not (stx-list? stx))
+                      (if (not (stx-list? bindings))
                           (serr "not a sequence of bindings" stx)
                           (let-values ([(vars vals)
                                         (splice-bindings (syntax-e bindings) null null)])
@@ -168,7 +168,7 @@
                                                                [(vals) (cons val vals)])
                                                     (splice-bindings bindings vars vals))
                                                   (serr "not a sequence of bindings" stx)))))))))])
-                      (if (not (stx-list? stx))
+                      (if (not (stx-list? bindings))
                           (serr "not a sequence of bindings" stx)
                           (let-values ([(vars vals)
                                         (splice-bindings (syntax-e bindings) null null)])
-- 
2.43.0


From ef3c5beaed46ae9e6ad5806417c1a86ac4184716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:03 +0000
Subject: [PATCH 60/64] fix: core forms that end in an atom are syntax errors

---
 src/boot/s/boot.min      | 14 +++++++-------
 src/library/expander.min | 28 ++++++++++++++--------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index d1bf322..d76078b 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -106,14 +106,14 @@
 (define-values (if-form?) (_-form? (quote if)))
 (define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t3003) (boolean? datum))) (if or-t3003 or-t3003 (let-values (((or-t3004) (number? datum))) (if or-t3004 or-t3004 (let-values (((or-t3005) (string? datum))) (if or-t3005 or-t3005 (let-values (((or-t3006) (vector? datum))) (if or-t3006 or-t3006 (let-values (((or-t3007) (box? datum))) (if or-t3007 or-t3007 (char? datum))))))))))))))
 (define-values (duplicate-identifier) (lambda (ids new-ids) (letrec-values (((new-unique) (make-set))) ((letrec-values (((loop) (lambda (new-ids) (if (null? new-ids) #f (if (set-member? ids (car new-ids)) (car new-ids) (if (set-member? new-unique (car new-ids)) (car new-ids) (let-values () (set-add! new-unique (car new-ids)) (loop (cdr new-ids))))))))) loop) new-ids))))
-(define-values (check-define-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((ids) (syntax->list (stx-car rib0))) ((rib1) (stx-cdr rib0)) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error name "expected an expression after identifiers" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
-(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t3008) (list? bind-rib))) (if or-t3008 or-t3008 (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) ((letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) loop) bindings))))
-(define-values (check-set!-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error (quote set!) "bad syntax" form)) (void)) (values))) ((id) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (identifier? id) (void) (let-values () (raise-syntax-error (quote set!) "not identifier" form id))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error (quote set!) "expected an expression after identifier" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error (quote set!) "too many expressions" form))))))
-(define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t3009) (list? rib2))) (if or-t3009 or-t3009 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
-(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) ((letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t3010) (list? rib2))) (if or-t3010 or-t3010 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) loop) clauses))))
+(define-values (check-define-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-pair? rib0) (void) (let-values () (raise-syntax-error name "bad syntax" form))) (values))) ((ids) (syntax->list (stx-car rib0))) ((rib1) (stx-cdr rib0)) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values))) (() (let-values () (if (stx-pair? rib1) (void) (let-values () (raise-syntax-error name "expected an expression after identifiers" form))) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
+(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-pair? rib) (void) (let-values () (raise-syntax-error name "bad syntax" form))) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (stx-pair? bind-rib) (void) (let-values () (raise-syntax-error name "missing body" form))) (values))) (() (let-values () (if (let-values (((or-t3008) (list? bind-rib))) (if or-t3008 or-t3008 (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) ((letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) loop) bindings))))
+(define-values (check-set!-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-pair? rib0) (void) (let-values () (raise-syntax-error (quote set!) "bad syntax" form))) (values))) ((id) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (identifier? id) (void) (let-values () (raise-syntax-error (quote set!) "not identifier" form id))) (values))) (() (let-values () (if (stx-pair? rib1) (void) (let-values () (raise-syntax-error (quote set!) "expected an expression after identifier" form))) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error (quote set!) "too many expressions" form))))))
+(define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-pair? rib0) (void) (let-values () (raise-syntax-error #f "missing formals" form))) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (stx-pair? rib1) (void) (let-values () (raise-syntax-error #f "missing expression after formals" form))) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t3009) (list? rib2))) (if or-t3009 or-t3009 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
+(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) ((letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-pair? clause) (void) (let-values () (raise-syntax-error #f "missing formals" form))) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (stx-pair? rib1) (void) (let-values () (raise-syntax-error #f "missing expression after formals" form))) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t3010) (list? rib2))) (if or-t3010 or-t3010 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) loop) clauses))))
 (define-values (check-begin-form!) (lambda (form) (if (syntax->list form) (void) (let-values () (raise-syntax-error (quote begin) "bad syntax" form)))))
-(define-values (check-1ary-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "expected an expression" form)) (void)) (values))) ((rib1) (stx-cdr rib0))) (if (stx-null? rib1) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
-(define-values (check-if-form!) (lambda (form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((cond-rib) (stx-cdr rib)) (() (let-values () (if (stx-null? cond-rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((ift-rib) (stx-cdr cond-rib)) (() (let-values () (if (stx-null? ift-rib) (let-values () (raise-syntax-error (quote if) "missing an \"else\" statement" form)) (void)) (values))) ((iff-rib) (stx-cdr ift-rib))) (if (stx-null? iff-rib) (void) (let-values () (raise-syntax-error (quote if) "too many expressions" form))))))
+(define-values (check-1ary-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-pair? rib0) (void) (let-values () (raise-syntax-error name "expected an expression" form))) (values))) ((rib1) (stx-cdr rib0))) (if (stx-null? rib1) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
+(define-values (check-if-form!) (lambda (form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-pair? rib) (void) (let-values () (raise-syntax-error (quote if) "bad syntax" form))) (values))) ((cond-rib) (stx-cdr rib)) (() (let-values () (if (stx-pair? cond-rib) (void) (let-values () (raise-syntax-error (quote if) "bad syntax" form))) (values))) ((ift-rib) (stx-cdr cond-rib)) (() (let-values () (if (stx-pair? ift-rib) (void) (let-values () (raise-syntax-error (quote if) "missing an \"else\" statement" form))) (values))) ((iff-rib) (stx-cdr ift-rib))) (if (stx-null? iff-rib) (void) (let-values () (raise-syntax-error (quote if) "too many expressions" form))))))
 (define-values (check-duplicate-identifier!) (lambda (form name ids new-ids) (letrec-values (((dup) (duplicate-identifier ids new-ids))) (if dup (let-values () (raise-syntax-error name "duplicate identifier" form (datum->syntax dup))) (void)))))
 (define-values ($expander-pattern-vars) null)
 (define-values ($base-stx-env) (lambda (env) (let-values (((env) (copy-environment env #f))) (environment-set! env (quote get-pattern-variable) (lambda (k) (if (symbol? k) (letrec-values (((loop) (lambda (assoc) (if (null? assoc) #f (if (eq? (caar assoc) k) (cadar assoc) (loop (cdr assoc))))))) (loop $expander-pattern-vars)) (raise-argument-error (quote get-pattern-variable) "symbol?" k)))) env)))
diff --git a/src/library/expander.min b/src/library/expander.min
index 2da7703..4d30ef3 100644
--- a/src/library/expander.min
+++ b/src/library/expander.min
@@ -128,13 +128,13 @@
 ; assumes form is `(<name> . <rest>)
 (define (check-define-syntaxes/values-form! name form)
   (define rib0 (stx-cdr form))
-  (when (stx-null? rib0)
+  (unless (stx-pair? rib0)
     (raise-syntax-error name "bad syntax" form))
   (define ids (syntax->list (stx-car rib0)))
   (define rib1 (stx-cdr rib0))
   (unless (and (list? ids) (andmap identifier? ids))
     (raise-syntax-error name "not identifiers" form ids))
-  (when (stx-null? rib1)
+  (unless (stx-pair? rib1)
     (raise-syntax-error name "expected an expression after identifiers" form))
   (define rib2 (stx-cdr rib1))
   (unless (stx-null? rib2)
@@ -144,11 +144,11 @@
 ; assumes form is `(<name> . <rest>)
 (define (check-let-syntaxes/values-form! name form)
   (define rib (stx-cdr form))
-  (when (stx-null? rib)
+  (unless (stx-pair? rib)
     (raise-syntax-error name "bad syntax" form))
   (define bindings (syntax->list (stx-car rib)))
   (define bind-rib (stx-cdr rib))
-  (when (null? bind-rib)
+  (unless (stx-pair? bind-rib)
     (raise-syntax-error name "missing body" form))
   (unless (or (list? bind-rib)
               (and (syntax? bind-rib)
@@ -170,13 +170,13 @@
 ; assumes form is `(<name> . <rest>)
 (define (check-set!-form! form)
   (define rib0 (stx-cdr form))
-  (when (stx-null? rib0)
+  (unless (stx-pair? rib0)
     (raise-syntax-error 'set! "bad syntax" form))
   (define id (stx-car rib0))
   (define rib1 (stx-cdr rib0))
   (unless (identifier? id)
     (raise-syntax-error 'set! "not identifier" form id))
-  (when (stx-null? rib1)
+  (unless (stx-pair? rib1)
     (raise-syntax-error 'set! "expected an expression after identifier" form))
   (define rib2 (stx-cdr rib1))
   (unless (stx-null? rib2)
@@ -186,11 +186,11 @@
 ; assues form is `(lambda . <rest>)`
 (define (check-lambda-form! form)
   (define rib0 (stx-cdr form))
-  (when (stx-null? rib0)
+  (unless (stx-pair? rib0)
     (raise-syntax-error #f "missing formals" form))
   (define formals (stx-car rib0))
   (define rib1 (stx-cdr rib0))
-  (when (null? rib1)
+  (unless (stx-pair? rib1)
     (raise-syntax-error #f "missing expression after formals" form))
   (define rib2 (stx-cdr rib1))
   (unless (or (list? rib2)
@@ -206,11 +206,11 @@
     (cond
       [(pair? clauses)
        (define clause (car clauses))
-       (when (stx-null? clause)
+       (unless (stx-pair? clause)
          (raise-syntax-error #f "missing formals" form))
        (define formals (stx-car clause))
        (define rib1 (stx-cdr clause))
-       (when (null? rib1)
+       (unless (stx-pair? rib1)
          (raise-syntax-error #f "missing expression after formals" form))
        (define rib2 (stx-cdr rib1))
        (unless (or (list? rib2)
@@ -232,7 +232,7 @@
 ; checks if a unary form is valid, i.e. `(<name> <expr>)`.
 (define (check-1ary-form! name form)
   (define rib0 (stx-cdr form))
-  (when (stx-null? rib0)
+  (unless (stx-pair? rib0)
     (raise-syntax-error name "expected an expression" form))
   (define rib1 (stx-cdr rib0))
   (unless (stx-null? rib1)
@@ -241,13 +241,13 @@
 ; checks if an `if` form is valid, i.e. `(if <cond> <if-true> <if-false>)`.
 (define (check-if-form! form)
   (define rib (stx-cdr form))
-  (when (stx-null? rib)
+  (unless (stx-pair? rib)
     (raise-syntax-error 'if "bad syntax" form))
   (define cond-rib (stx-cdr rib))
-  (when (stx-null? cond-rib)
+  (unless (stx-pair? cond-rib)
     (raise-syntax-error 'if "bad syntax" form))
   (define ift-rib (stx-cdr cond-rib))
-  (when (stx-null? ift-rib)
+  (unless (stx-pair? ift-rib)
     (raise-syntax-error 'if "missing an \"else\" statement" form))
   (define iff-rib (stx-cdr ift-rib))
   (unless (stx-null? iff-rib)
-- 
2.43.0


From 50393f4af7faefd82599a2571b22190b21330d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:29 +0000
Subject: [PATCH 61/64] fix: syntax-case wildcards do not match atoms as pairs,
 and vector patterns match what follows an ellipsis

---
 src/library/private/stxcase.min | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index cbe0d9a..2417cef 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -250,14 +250,14 @@
                               (list
                                 (quote-syntax if)
                                 (list
-                                  (quote-syntax stx-null/#f)
+                                  (quote-syntax stx-pair?)
                                   e-id)
-                                #f
                                 (loop tail-pat (+ idx 1)
                                       (datum->syntax
                                         (list
                                           (quote-syntax stx-cdr)
-                                          e-id))))]
+                                          e-id)))
+                                #f)]
                              [(variable? head-pat)
                               ; variable =>
                               ;  bind one variable
@@ -500,7 +500,7 @@
                                       [else
                                        (list
                                          (quote-syntax append/#f)
-                                         (gen-match/expr (vector-ref v i)
+                                         (gen-match/expr (vector-ref v (+ before-ellipsis i 1))
                                                          (datum->syntax
                                                            (list
                                                              (quote-syntax stx-vector-ref)
-- 
2.43.0


From 149630e5616a69721965a31e981e28478d6a1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:43 +0000
Subject: [PATCH 62/64] fix: a template may have an ellipsis before a dotted
 tail

---
 src/boot/s/boot.min                    | 14 +++++++-------
 src/library/private/template-utils.min | 19 +++++++++++++++++--
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index d76078b..e10bfdf 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -104,13 +104,13 @@
 (define-values (case-lambda-form?) (_-form? (quote case-lambda)))
 (define-values (begin-form?) (_-form? (quote begin)))
 (define-values (if-form?) (_-form? (quote if)))
-(define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t3003) (boolean? datum))) (if or-t3003 or-t3003 (let-values (((or-t3004) (number? datum))) (if or-t3004 or-t3004 (let-values (((or-t3005) (string? datum))) (if or-t3005 or-t3005 (let-values (((or-t3006) (vector? datum))) (if or-t3006 or-t3006 (let-values (((or-t3007) (box? datum))) (if or-t3007 or-t3007 (char? datum))))))))))))))
+(define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t3005) (boolean? datum))) (if or-t3005 or-t3005 (let-values (((or-t3006) (number? datum))) (if or-t3006 or-t3006 (let-values (((or-t3007) (string? datum))) (if or-t3007 or-t3007 (let-values (((or-t3008) (vector? datum))) (if or-t3008 or-t3008 (let-values (((or-t3009) (box? datum))) (if or-t3009 or-t3009 (char? datum))))))))))))))
 (define-values (duplicate-identifier) (lambda (ids new-ids) (letrec-values (((new-unique) (make-set))) ((letrec-values (((loop) (lambda (new-ids) (if (null? new-ids) #f (if (set-member? ids (car new-ids)) (car new-ids) (if (set-member? new-unique (car new-ids)) (car new-ids) (let-values () (set-add! new-unique (car new-ids)) (loop (cdr new-ids))))))))) loop) new-ids))))
 (define-values (check-define-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-pair? rib0) (void) (let-values () (raise-syntax-error name "bad syntax" form))) (values))) ((ids) (syntax->list (stx-car rib0))) ((rib1) (stx-cdr rib0)) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values))) (() (let-values () (if (stx-pair? rib1) (void) (let-values () (raise-syntax-error name "expected an expression after identifiers" form))) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
-(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-pair? rib) (void) (let-values () (raise-syntax-error name "bad syntax" form))) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (stx-pair? bind-rib) (void) (let-values () (raise-syntax-error name "missing body" form))) (values))) (() (let-values () (if (let-values (((or-t3008) (list? bind-rib))) (if or-t3008 or-t3008 (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) ((letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) loop) bindings))))
+(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-pair? rib) (void) (let-values () (raise-syntax-error name "bad syntax" form))) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (stx-pair? bind-rib) (void) (let-values () (raise-syntax-error name "missing body" form))) (values))) (() (let-values () (if (let-values (((or-t3010) (list? bind-rib))) (if or-t3010 or-t3010 (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) ((letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) loop) bindings))))
 (define-values (check-set!-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-pair? rib0) (void) (let-values () (raise-syntax-error (quote set!) "bad syntax" form))) (values))) ((id) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (identifier? id) (void) (let-values () (raise-syntax-error (quote set!) "not identifier" form id))) (values))) (() (let-values () (if (stx-pair? rib1) (void) (let-values () (raise-syntax-error (quote set!) "expected an expression after identifier" form))) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error (quote set!) "too many expressions" form))))))
-(define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-pair? rib0) (void) (let-values () (raise-syntax-error #f "missing formals" form))) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (stx-pair? rib1) (void) (let-values () (raise-syntax-error #f "missing expression after formals" form))) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t3009) (list? rib2))) (if or-t3009 or-t3009 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
-(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) ((letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-pair? clause) (void) (let-values () (raise-syntax-error #f "missing formals" form))) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (stx-pair? rib1) (void) (let-values () (raise-syntax-error #f "missing expression after formals" form))) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t3010) (list? rib2))) (if or-t3010 or-t3010 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) loop) clauses))))
+(define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-pair? rib0) (void) (let-values () (raise-syntax-error #f "missing formals" form))) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (stx-pair? rib1) (void) (let-values () (raise-syntax-error #f "missing expression after formals" form))) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t3011) (list? rib2))) (if or-t3011 or-t3011 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
+(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) ((letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-pair? clause) (void) (let-values () (raise-syntax-error #f "missing formals" form))) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (stx-pair? rib1) (void) (let-values () (raise-syntax-error #f "missing expression after formals" form))) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t3012) (list? rib2))) (if or-t3012 or-t3012 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) loop) clauses))))
 (define-values (check-begin-form!) (lambda (form) (if (syntax->list form) (void) (let-values () (raise-syntax-error (quote begin) "bad syntax" form)))))
 (define-values (check-1ary-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-pair? rib0) (void) (let-values () (raise-syntax-error name "expected an expression" form))) (values))) ((rib1) (stx-cdr rib0))) (if (stx-null? rib1) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
 (define-values (check-if-form!) (lambda (form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-pair? rib) (void) (let-values () (raise-syntax-error (quote if) "bad syntax" form))) (values))) ((cond-rib) (stx-cdr rib)) (() (let-values () (if (stx-pair? cond-rib) (void) (let-values () (raise-syntax-error (quote if) "bad syntax" form))) (values))) ((ift-rib) (stx-cdr cond-rib)) (() (let-values () (if (stx-pair? ift-rib) (void) (let-values () (raise-syntax-error (quote if) "missing an \"else\" statement" form))) (values))) ((iff-rib) (stx-cdr ift-rib))) (if (stx-null? iff-rib) (void) (let-values () (raise-syntax-error (quote if) "too many expressions" form))))))
@@ -119,8 +119,8 @@
 (define-values ($base-stx-env) (lambda (env) (let-values (((env) (copy-environment env #f))) (environment-set! env (quote get-pattern-variable) (lambda (k) (if (symbol? k) (letrec-values (((loop) (lambda (assoc) (if (null? assoc) #f (if (eq? (caar assoc) k) (cadar assoc) (loop (cdr assoc))))))) (loop $expander-pattern-vars)) (raise-argument-error (quote get-pattern-variable) "symbol?" k)))) env)))
 (define-values (define-syntaxes/values-identifiers) (lambda (form) (map syntax-e (syntax->list (stx-car (stx-cdr form))))))
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
-(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) ((letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) rec) (syntax->datum formals)))) ((check/expr!) (lambda (expr0 scope) ((letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t3011) (let-values-form? expr))) (if or-t3011 or-t3011 (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values))) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t3012) (quote-form? expr))) (if or-t3012 or-t3012 (let-values (((or-t3013) (quote-syntax-form? expr))) (if or-t3013 or-t3013 (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) loop) expr0))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
-(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t3014) (define-values-form? expr))) (if or-t3014 or-t3014 (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t3015) (procedure? xform))) (if or-t3015 or-t3015 (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t3016) (let-values-form? expr))) (if or-t3016 or-t3016 (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) loop) expr)))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs) (if (null? exprs) null ((letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) with-scope) exprs xforms))))) loop) exprs))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
+(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) ((letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) rec) (syntax->datum formals)))) ((check/expr!) (lambda (expr0 scope) ((letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t3013) (let-values-form? expr))) (if or-t3013 or-t3013 (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values))) (() (let-values () ((letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) rec) (syntax->list bindings)) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t3014) (quote-form? expr))) (if or-t3014 or-t3014 (let-values (((or-t3015) (quote-syntax-form? expr))) (if or-t3015 or-t3015 (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) loop) expr0))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
+(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) loop) (car exprs) (cdr exprs) (quote ())))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) ((letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t3016) (define-values-form? expr))) (if or-t3016 or-t3016 (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) ((letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) ((letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t3017) (procedure? xform))) (if or-t3017 or-t3017 (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) bind-xforms) binding-ids results xforms))))))) rec) (syntax->list (cadr form)) xforms))) (if (let-values (((or-t3018) (let-values-form? expr))) (if or-t3018 or-t3018 (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) loop) expr)))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) ((letrec-values (((loop) (lambda (exprs) (if (null? exprs) null ((letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) ((letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms ((letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) loop) xforms-in-scope (quote ()))) (values)))) (rec (cdr ids) (cdr results)))))))) rec) ids results))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) with-scope) exprs xforms))))) loop) exprs))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) ((letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) loop) exprs null))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
 (define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (if (null? (cdr exprs*)) (values (car exprs*) xforms*) (values (datum->syntax (cons (quote begin) exprs*)) xforms*))))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
@@ -136,4 +136,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs) #f) (copy-environment (car envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t3272) (eq? c #\space))) (if or-t3272 or-t3272 (let-values (((or-t3273) (eq? c #\newline))) (if or-t3273 or-t3273 (let-values (((or-t3274) (eq? c tab))) (if or-t3274 or-t3274 (let-values (((or-t3275) (eq? c vtab))) (if or-t3275 or-t3275 (let-values (((or-t3276) (eq? c page))) (if or-t3276 or-t3276 (eq? c return))))))))))))) ((closing?) (lambda (c) (let-values (((or-t3277) (eq? c cparen))) (if or-t3277 or-t3277 (let-values (((or-t3278) (eq? c cbrack))) (if or-t3278 or-t3278 (eq? c cbrace))))))) ((delimeter?) (lambda (c) (let-values (((or-t3279) (eof-object? c))) (if or-t3279 or-t3279 (let-values (((or-t3280) (space? c))) (if or-t3280 or-t3280 (let-values (((or-t3281) (eq? c oparen))) (if or-t3281 or-t3281 (let-values (((or-t3282) (eq? c obrack))) (if or-t3282 or-t3282 (let-values (((or-t3283) (eq? c obrace))) (if or-t3283 or-t3283 (let-values (((or-t3284) (eq? c cparen))) (if or-t3284 or-t3284 (let-values (((or-t3285) (eq? c cbrack))) (if or-t3285 or-t3285 (let-values (((or-t3286) (eq? c cbrace))) (if or-t3286 or-t3286 (let-values (((or-t3287) (eq? c #\"))) (if or-t3287 or-t3287 (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((digit-value) (lambda (c) (if (char? c) (let-values () (letrec-values (((i) (char->integer c))) (if (<= (char->integer #\0) i (char->integer #\9)) (- i (char->integer #\0)) (if (<= (char->integer #\a) i (char->integer #\f)) (+ 10 (- i (char->integer #\a))) (if (<= (char->integer #\A) i (char->integer #\F)) (+ 10 (- i (char->integer #\A))) #f))))) #f))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t3288) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t3288 or-t3288 (let-values (((or-t3289) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t3289 or-t3289 (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (prev block-level) (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (if (eq? prev #\#) (eq? c #\|) #f) (loop #f (+ block-level 1)) (if (if (eq? prev #\|) (eq? c #\#) #f) (if (= block-level 1) (void) (loop #f (- block-level 1))) (loop c block-level))))))) loop) #f 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((end) (box #f)) ((end!) (lambda (c) (set-box! end c) end)) ((end-char) (lambda () (unbox end))) ((read-required) (lambda () (letrec-values (((o) (read-datum #f))) (if (eq? o end) (let-values () (assert-not-eof! (end-char)) (errorf (quote read) "unexpected input: ~a" (end-char))) o)))) ((read-list) (lambda (open improper?) ((letrec-values (((loop) (lambda (elems) (letrec-values (((o) (read-datum (if improper? (pair? elems) #f)))) (if (not (eq? o end)) (loop (cons o elems)) (if (closing? (end-char)) (let-values () (assert-matching-parens! open (end-char)) (reverse elems)) (let-values () (assert-not-eof! (end-char)) (letrec-values (((tail) (read-required)) (() (let-values () (if (if (eq? (read-datum #f) end) (closing? (end-char)) #f) (void) (let-values () (error (quote read) "missing closing parenthesis"))) (values))) (() (let-values () (assert-matching-parens! open (end-char)) (values)))) ((letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) loop) elems tail))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((named) (lambda (next rest code) (if (eq? (peek-char p) next) (let-values () (check-expected-string! rest) (integer->char code)) c))) ((r) (let-values (((case-t3290) c)) (if (equal? case-t3290 (quote #\a)) (let-values () (named #\l "larm" 7)) (if (equal? case-t3290 (quote #\b)) (let-values () (named #\a "ackspace" 8)) (if (equal? case-t3290 (quote #\d)) (let-values () (named #\e "elete" 127)) (if (equal? case-t3290 (quote #\e)) (let-values () (named #\s "sc" 27)) (if (equal? case-t3290 (quote #\l)) (let-values () (named #\i "inefeed" 10)) (if (equal? case-t3290 (quote #\n)) (let-values () (if (eq? (peek-char p) #\u) (named #\u "ul" 0) (named #\e "ewline" 10))) (if (equal? case-t3290 (quote #\p)) (let-values () (named #\a "age" 12)) (if (equal? case-t3290 (quote #\r)) (let-values () (named #\e "eturn" 13)) (if (equal? case-t3290 (quote #\s)) (let-values () (named #\p "pace" 32)) (if (equal? case-t3290 (quote #\t)) (let-values () (named #\a "ab" 9)) (if (equal? case-t3290 (quote #\v)) (let-values () (named #\t "tab" 11)) (let-values () c)))))))))))))) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) r))) ((read-number) (lambda (base sign-char) (letrec-values (((sign) (if (eq? sign-char #\-) -1 1))) ((letrec-values (((loop) (lambda (chars num digits?) (letrec-values (((c) (peek-char p)) ((d) (digit-value c))) (if (if d (< d base) #f) (let-values () (read-char p) (letrec-values (((num*) (if num (+ (* base num) (* sign d)) #f))) (loop (cons c chars) (if num* (if (= (/ (- num* (* sign d)) base) num) (if (if (< sign 0) (<= num* 0) (>= num* 0)) num* #f) #f) #f) #t))) (if (symbol-char? c) (read-symbol chars) (if (not digits?) (error (quote read) "expected digits") (if num num (errorf (quote read) "number out of range: ~a" (list->string (reverse chars))))))))))) loop) (if sign-char (list sign-char) (quote ())) 0 #f)))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "non-terminated string literal") (if (eq? c #\\) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (loop (cons (let-values (((case-t3291) c)) (if (equal? case-t3291 (quote #\a)) (let-values () (integer->char 7)) (if (equal? case-t3291 (quote #\b)) (let-values () (integer->char 8)) (if (equal? case-t3291 (quote #\f)) (let-values () page) (if (equal? case-t3291 (quote #\n)) (let-values () #\newline) (if (equal? case-t3291 (quote #\r)) (let-values () return) (if (equal? case-t3291 (quote #\t)) (let-values () tab) (if (equal? case-t3291 (quote #\v)) (let-values () vtab) (if (if (equal? case-t3291 (quote #\\)) #t (if (equal? case-t3291 (quote #\')) #t (equal? case-t3291 (quote #\")))) (let-values () c) (let-values () (errorf (quote read) "unknown escape character ~a" c))))))))))) acc)))) (if (eq? c #\") (list->string (reverse acc)) (loop (cons c acc))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (string->symbol (list->string (reverse acc)))))))) loop) acc))) ((read-datum) (lambda (dot?) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (let-values (((or-t3292) (eof-object? c))) (if or-t3292 or-t3292 (closing? c))) (let-values () (read-char p) (end! c)) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (list->vector (read-list c #f)))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) ((signed?) (let-values (((or-t3293) (eq? c #\-))) (if or-t3293 or-t3293 (eq? c #\+)))) (() (let-values () (if signed? (let-values () (read-char p)) (void)) (values)))) (datum->syntax (read-number 16 (if signed? c #f))))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-datum dot?)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-datum dot?)) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (digit? c) (datum->syntax (read-number 10 #f)) (if (eq? c #\") (let-values () (read-char p) (datum->syntax (read-string))) (if (let-values (((or-t3294) (eq? c oparen))) (if or-t3294 or-t3294 (let-values (((or-t3295) (eq? c obrack))) (if or-t3295 or-t3295 (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-list c #t))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (let-values (((or-t3296) (eq? c #\+))) (if or-t3296 or-t3296 (eq? c #\-))) (let-values () (read-char p) (if (digit? (peek-char p)) (datum->syntax (read-number 10 c)) (datum->syntax (read-symbol (list c))))) (if (eq? c #\.) (let-values () (read-char p) (if (if dot? (space? (peek-char p)) #f) (end! c) (datum->syntax (read-symbol (list c))))) (datum->syntax (read-symbol (quote ())))))))))))))) ((o) (read-datum #f))) (if (not (eq? o end)) o (if (eof-object? (end-char)) (end-char) (errorf (quote read) "unexpected input: ~a" (end-char))))))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t3274) (eq? c #\space))) (if or-t3274 or-t3274 (let-values (((or-t3275) (eq? c #\newline))) (if or-t3275 or-t3275 (let-values (((or-t3276) (eq? c tab))) (if or-t3276 or-t3276 (let-values (((or-t3277) (eq? c vtab))) (if or-t3277 or-t3277 (let-values (((or-t3278) (eq? c page))) (if or-t3278 or-t3278 (eq? c return))))))))))))) ((closing?) (lambda (c) (let-values (((or-t3279) (eq? c cparen))) (if or-t3279 or-t3279 (let-values (((or-t3280) (eq? c cbrack))) (if or-t3280 or-t3280 (eq? c cbrace))))))) ((delimeter?) (lambda (c) (let-values (((or-t3281) (eof-object? c))) (if or-t3281 or-t3281 (let-values (((or-t3282) (space? c))) (if or-t3282 or-t3282 (let-values (((or-t3283) (eq? c oparen))) (if or-t3283 or-t3283 (let-values (((or-t3284) (eq? c obrack))) (if or-t3284 or-t3284 (let-values (((or-t3285) (eq? c obrace))) (if or-t3285 or-t3285 (let-values (((or-t3286) (eq? c cparen))) (if or-t3286 or-t3286 (let-values (((or-t3287) (eq? c cbrack))) (if or-t3287 or-t3287 (let-values (((or-t3288) (eq? c cbrace))) (if or-t3288 or-t3288 (let-values (((or-t3289) (eq? c #\"))) (if or-t3289 or-t3289 (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((digit-value) (lambda (c) (if (char? c) (let-values () (letrec-values (((i) (char->integer c))) (if (<= (char->integer #\0) i (char->integer #\9)) (- i (char->integer #\0)) (if (<= (char->integer #\a) i (char->integer #\f)) (+ 10 (- i (char->integer #\a))) (if (<= (char->integer #\A) i (char->integer #\F)) (+ 10 (- i (char->integer #\A))) #f))))) #f))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t3290) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t3290 or-t3290 (let-values (((or-t3291) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t3291 or-t3291 (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (prev block-level) (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (if (eq? prev #\#) (eq? c #\|) #f) (loop #f (+ block-level 1)) (if (if (eq? prev #\|) (eq? c #\#) #f) (if (= block-level 1) (void) (loop #f (- block-level 1))) (loop c block-level))))))) loop) #f 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((end) (box #f)) ((end!) (lambda (c) (set-box! end c) end)) ((end-char) (lambda () (unbox end))) ((read-required) (lambda () (letrec-values (((o) (read-datum #f))) (if (eq? o end) (let-values () (assert-not-eof! (end-char)) (errorf (quote read) "unexpected input: ~a" (end-char))) o)))) ((read-list) (lambda (open improper?) ((letrec-values (((loop) (lambda (elems) (letrec-values (((o) (read-datum (if improper? (pair? elems) #f)))) (if (not (eq? o end)) (loop (cons o elems)) (if (closing? (end-char)) (let-values () (assert-matching-parens! open (end-char)) (reverse elems)) (let-values () (assert-not-eof! (end-char)) (letrec-values (((tail) (read-required)) (() (let-values () (if (if (eq? (read-datum #f) end) (closing? (end-char)) #f) (void) (let-values () (error (quote read) "missing closing parenthesis"))) (values))) (() (let-values () (assert-matching-parens! open (end-char)) (values)))) ((letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) loop) elems tail))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((named) (lambda (next rest code) (if (eq? (peek-char p) next) (let-values () (check-expected-string! rest) (integer->char code)) c))) ((r) (let-values (((case-t3292) c)) (if (equal? case-t3292 (quote #\a)) (let-values () (named #\l "larm" 7)) (if (equal? case-t3292 (quote #\b)) (let-values () (named #\a "ackspace" 8)) (if (equal? case-t3292 (quote #\d)) (let-values () (named #\e "elete" 127)) (if (equal? case-t3292 (quote #\e)) (let-values () (named #\s "sc" 27)) (if (equal? case-t3292 (quote #\l)) (let-values () (named #\i "inefeed" 10)) (if (equal? case-t3292 (quote #\n)) (let-values () (if (eq? (peek-char p) #\u) (named #\u "ul" 0) (named #\e "ewline" 10))) (if (equal? case-t3292 (quote #\p)) (let-values () (named #\a "age" 12)) (if (equal? case-t3292 (quote #\r)) (let-values () (named #\e "eturn" 13)) (if (equal? case-t3292 (quote #\s)) (let-values () (named #\p "pace" 32)) (if (equal? case-t3292 (quote #\t)) (let-values () (named #\a "ab" 9)) (if (equal? case-t3292 (quote #\v)) (let-values () (named #\t "tab" 11)) (let-values () c)))))))))))))) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) r))) ((read-number) (lambda (base sign-char) (letrec-values (((sign) (if (eq? sign-char #\-) -1 1))) ((letrec-values (((loop) (lambda (chars num digits?) (letrec-values (((c) (peek-char p)) ((d) (digit-value c))) (if (if d (< d base) #f) (let-values () (read-char p) (letrec-values (((num*) (if num (+ (* base num) (* sign d)) #f))) (loop (cons c chars) (if num* (if (= (/ (- num* (* sign d)) base) num) (if (if (< sign 0) (<= num* 0) (>= num* 0)) num* #f) #f) #f) #t))) (if (symbol-char? c) (read-symbol chars) (if (not digits?) (error (quote read) "expected digits") (if num num (errorf (quote read) "number out of range: ~a" (list->string (reverse chars))))))))))) loop) (if sign-char (list sign-char) (quote ())) 0 #f)))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "non-terminated string literal") (if (eq? c #\\) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (loop (cons (let-values (((case-t3293) c)) (if (equal? case-t3293 (quote #\a)) (let-values () (integer->char 7)) (if (equal? case-t3293 (quote #\b)) (let-values () (integer->char 8)) (if (equal? case-t3293 (quote #\f)) (let-values () page) (if (equal? case-t3293 (quote #\n)) (let-values () #\newline) (if (equal? case-t3293 (quote #\r)) (let-values () return) (if (equal? case-t3293 (quote #\t)) (let-values () tab) (if (equal? case-t3293 (quote #\v)) (let-values () vtab) (if (if (equal? case-t3293 (quote #\\)) #t (if (equal? case-t3293 (quote #\')) #t (equal? case-t3293 (quote #\")))) (let-values () c) (let-values () (errorf (quote read) "unknown escape character ~a" c))))))))))) acc)))) (if (eq? c #\") (list->string (reverse acc)) (loop (cons c acc))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (string->symbol (list->string (reverse acc)))))))) loop) acc))) ((read-datum) (lambda (dot?) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (let-values (((or-t3294) (eof-object? c))) (if or-t3294 or-t3294 (closing? c))) (let-values () (read-char p) (end! c)) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (list->vector (read-list c #f)))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) ((signed?) (let-values (((or-t3295) (eq? c #\-))) (if or-t3295 or-t3295 (eq? c #\+)))) (() (let-values () (if signed? (let-values () (read-char p)) (void)) (values)))) (datum->syntax (read-number 16 (if signed? c #f))))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-datum dot?)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-datum dot?)) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (digit? c) (datum->syntax (read-number 10 #f)) (if (eq? c #\") (let-values () (read-char p) (datum->syntax (read-string))) (if (let-values (((or-t3296) (eq? c oparen))) (if or-t3296 or-t3296 (let-values (((or-t3297) (eq? c obrack))) (if or-t3297 or-t3297 (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-list c #t))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (let-values (((or-t3298) (eq? c #\+))) (if or-t3298 or-t3298 (eq? c #\-))) (let-values () (read-char p) (if (digit? (peek-char p)) (datum->syntax (read-number 10 c)) (datum->syntax (read-symbol (list c))))) (if (eq? c #\.) (let-values () (read-char p) (if (if dot? (space? (peek-char p)) #f) (end! c) (datum->syntax (read-symbol (list c))))) (datum->syntax (read-symbol (quote ())))))))))))))) ((o) (read-datum #f))) (if (not (eq? o end)) o (if (eof-object? (end-char)) (end-char) (errorf (quote read) "unexpected input: ~a" (end-char))))))))
diff --git a/src/library/private/template-utils.min b/src/library/private/template-utils.min
index dfc9bb7..776cf4f 100644
--- a/src/library/private/template-utils.min
+++ b/src/library/private/template-utils.min
@@ -320,14 +320,29 @@
   (define prog (parse-template stx tstx get-pattern))
   (make-template-builder prog))
 
+;; Puts the elements of `lst` before `tail`, which may be any datum
+(define (append-onto lst tail)
+  (if (null? lst)
+      tail
+      (cons (car lst) (append-onto (cdr lst) tail))))
+
+;; The tail of a list: a syntax object of a (possibly improper) list
+;; is replaced by its elements
+(define (splice-tail tail)
+  (cond
+    [(pair? tail) (cons (car tail) (splice-tail (cdr tail)))]
+    [(null? tail) null]
+    [(or (stx-null? tail) (stx-pair? tail)) (splice-tail (syntax-e tail))]
+    [else tail]))
+
 (define (template-subst guide instrs . args)
   (define (run/mode mode n idx guide arg)
     (let loop ([idx idx] [guide guide])
       (cond
         [(< idx n) (cons (car guide) (loop (+ idx 1) (cdr guide)))]
         [(not mode) (cons arg (cdr guide))]
-        [(eq? mode 'append) (append arg (cdr guide))]
-        [(eq? mode 'tail) arg]
+        [(eq? mode 'append) (append-onto arg (cdr guide))]
+        [(eq? mode 'tail) (splice-tail arg)]
         [else (error #f "unknown substitution operator" mode)])))
     
   (define (run guide instrs args)
-- 
2.43.0


From aa401a01e7deb3d05bed0f542ee00ce4915f9750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:24 +0000
Subject: [PATCH 63/64] fix: syntax-case tails match data, and are syntax when
 bound

---
 src/library/private/stxcase.min | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index 2417cef..762c87c 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -583,7 +583,9 @@
                    (list e-id)
                    (list
                      (quote-syntax list)
-                     e-id))
+                     (list
+                       (quote-syntax datum->syntax)
+                       e-id)))
                  arg))]
             [(not (syntax? (syntax-e pattern)))
              ;; datum
@@ -595,14 +597,20 @@
                    (list
                      (quote-syntax if)
                      (list
-                       (quote-syntax equal?)
-                       (list
-                         (quote-syntax quote)
-                         (syntax-e pattern))
+                       (quote-syntax syntax?)
+                       e-id)
+                     (list
+                       (quote-syntax if)
                        (list
-                         (quote-syntax syntax-e)
-                         e-id))
-                     (quote-syntax null)
+                         (quote-syntax equal?)
+                         (list
+                           (quote-syntax quote)
+                           (syntax-e pattern))
+                         (list
+                           (quote-syntax syntax-e)
+                           e-id))
+                       (quote-syntax null)
+                       #f)
                      #f))
                  arg))]
             [else
-- 
2.43.0


From 9008e359aa3fd5daf84930eb68130f5a312f4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:00 +0000
Subject: [PATCH 64/64] fix: a module is instantiated once however its path is
 written

---
 src/boot/s/boot.min    | 10 +++++----
 src/library/module.min | 48 ++++++++++++++++++++++++++++--------------
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index e10bfdf..288c232 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -126,14 +126,16 @@
 (define-values ($module-table) (make-hashtable))
 (define-values ($module-envs) (make-hashtable))
 (define-values ($module-internals) (make-hashtable))
-(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports))) ((path) (build-path new-cwd maybe-import))) (if (string? maybe-import) (let-values () ($load-or-import path print-handler result-handler) (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (build-path new-cwd module-name))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
+(define-values (simplify-path) (lambda (path) ((letrec-values (((loop) (lambda (elems acc) (if (null? elems) (if (null? acc) path (apply build-path (reverse acc))) (if (equal? (car elems) ".") (loop (cdr elems) acc) (if (if (equal? (car elems) "/") (pair? acc) #f) (loop (cdr elems) acc) (if (if (equal? (car elems) "..") (if (pair? acc) (equal? (car acc) "/") #f) #f) (loop (cdr elems) acc) (if (if (equal? (car elems) "..") (if (pair? acc) (not (equal? (car acc) "..")) #f) #f) (loop (cdr elems) (cdr acc)) (loop (cdr elems) (cons (car elems) acc)))))))))) loop) (path->list path) (quote ()))))
+(define-values (resolve-path) (lambda (dir name) (simplify-path (if (is-absolute-path? name) name (build-path dir name)))))
+(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) ((letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) loop) (quote ()))))) (($import) (lambda (exprs) ((letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) ((letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports)))) (if (string? maybe-import) (let-values () (letrec-values (((path) (resolve-path new-cwd maybe-import)) (() (let-values () ($load-or-import path print-handler result-handler) (values))) ((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) loop2) (cdr expr)) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) ((letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export)))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member (resolve-path new-cwd module-name) imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table (resolve-path new-cwd module-name))) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) loop2) (cdr expr)) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) loop) exprs (quote ())))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
 (define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) ((letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) loop) imports))))
 (define-values ($eval-exprs) (lambda (exprs env print-handler) ((letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results ((letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) loop2) results (void)))))))))) loop) exprs (void))))
 (define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () ((letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) loop) exports) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
 (define-values ($repl) (lambda (env stx-env xforms scope) ((letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) loop) xforms)))
-(define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
-(define-values (read/module) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) ($load-module path #f #f))))
+(define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) (resolve-path (current-directory) name))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
+(define-values (read/module) (lambda (name) (letrec-values (((path) (resolve-path (current-directory) name))) ($load-module path #f #f))))
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
-(define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs) #f) (copy-environment (car envs)) xforms scope))))
+(define-values (enter!) (lambda (name) (letrec-values (((path) (resolve-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (cdr envs) #f) (copy-environment (car envs)) xforms scope))))
 (define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((tab) (integer->char 9)) ((vtab) (integer->char 11)) ((page) (integer->char 12)) ((return) (integer->char 13)) ((space?) (lambda (c) (let-values (((or-t3274) (eq? c #\space))) (if or-t3274 or-t3274 (let-values (((or-t3275) (eq? c #\newline))) (if or-t3275 or-t3275 (let-values (((or-t3276) (eq? c tab))) (if or-t3276 or-t3276 (let-values (((or-t3277) (eq? c vtab))) (if or-t3277 or-t3277 (let-values (((or-t3278) (eq? c page))) (if or-t3278 or-t3278 (eq? c return))))))))))))) ((closing?) (lambda (c) (let-values (((or-t3279) (eq? c cparen))) (if or-t3279 or-t3279 (let-values (((or-t3280) (eq? c cbrack))) (if or-t3280 or-t3280 (eq? c cbrace))))))) ((delimeter?) (lambda (c) (let-values (((or-t3281) (eof-object? c))) (if or-t3281 or-t3281 (let-values (((or-t3282) (space? c))) (if or-t3282 or-t3282 (let-values (((or-t3283) (eq? c oparen))) (if or-t3283 or-t3283 (let-values (((or-t3284) (eq? c obrack))) (if or-t3284 or-t3284 (let-values (((or-t3285) (eq? c obrace))) (if or-t3285 or-t3285 (let-values (((or-t3286) (eq? c cparen))) (if or-t3286 or-t3286 (let-values (((or-t3287) (eq? c cbrack))) (if or-t3287 or-t3287 (let-values (((or-t3288) (eq? c cbrace))) (if or-t3288 or-t3288 (let-values (((or-t3289) (eq? c #\"))) (if or-t3289 or-t3289 (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (if (char? c) (<= (char->integer #\0) (char->integer c) (char->integer #\9)) #f))) ((digit-value) (lambda (c) (if (char? c) (let-values () (letrec-values (((i) (char->integer c))) (if (<= (char->integer #\0) i (char->integer #\9)) (- i (char->integer #\0)) (if (<= (char->integer #\a) i (char->integer #\f)) (+ 10 (- i (char->integer #\a))) (if (<= (char->integer #\A) i (char->integer #\F)) (+ 10 (- i (char->integer #\A))) #f))))) #f))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t3290) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t3290 or-t3290 (let-values (((or-t3291) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t3291 or-t3291 (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () ((letrec-values (((loop) (lambda (prev block-level) (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (if (eq? prev #\#) (eq? c #\|) #f) (loop #f (+ block-level 1)) (if (if (eq? prev #\|) (eq? c #\#) #f) (if (= block-level 1) (void) (loop #f (- block-level 1))) (loop c block-level))))))) loop) #f 1))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) ((letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) loop) 0)))) ((end) (box #f)) ((end!) (lambda (c) (set-box! end c) end)) ((end-char) (lambda () (unbox end))) ((read-required) (lambda () (letrec-values (((o) (read-datum #f))) (if (eq? o end) (let-values () (assert-not-eof! (end-char)) (errorf (quote read) "unexpected input: ~a" (end-char))) o)))) ((read-list) (lambda (open improper?) ((letrec-values (((loop) (lambda (elems) (letrec-values (((o) (read-datum (if improper? (pair? elems) #f)))) (if (not (eq? o end)) (loop (cons o elems)) (if (closing? (end-char)) (let-values () (assert-matching-parens! open (end-char)) (reverse elems)) (let-values () (assert-not-eof! (end-char)) (letrec-values (((tail) (read-required)) (() (let-values () (if (if (eq? (read-datum #f) end) (closing? (end-char)) #f) (void) (let-values () (error (quote read) "missing closing parenthesis"))) (values))) (() (let-values () (assert-matching-parens! open (end-char)) (values)))) ((letrec-values (((loop) (lambda (elems lst) (if (null? elems) lst (loop (cdr elems) (cons (car elems) lst)))))) loop) elems tail))))))))) loop) (quote ())))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((named) (lambda (next rest code) (if (eq? (peek-char p) next) (let-values () (check-expected-string! rest) (integer->char code)) c))) ((r) (let-values (((case-t3292) c)) (if (equal? case-t3292 (quote #\a)) (let-values () (named #\l "larm" 7)) (if (equal? case-t3292 (quote #\b)) (let-values () (named #\a "ackspace" 8)) (if (equal? case-t3292 (quote #\d)) (let-values () (named #\e "elete" 127)) (if (equal? case-t3292 (quote #\e)) (let-values () (named #\s "sc" 27)) (if (equal? case-t3292 (quote #\l)) (let-values () (named #\i "inefeed" 10)) (if (equal? case-t3292 (quote #\n)) (let-values () (if (eq? (peek-char p) #\u) (named #\u "ul" 0) (named #\e "ewline" 10))) (if (equal? case-t3292 (quote #\p)) (let-values () (named #\a "age" 12)) (if (equal? case-t3292 (quote #\r)) (let-values () (named #\e "eturn" 13)) (if (equal? case-t3292 (quote #\s)) (let-values () (named #\p "pace" 32)) (if (equal? case-t3292 (quote #\t)) (let-values () (named #\a "ab" 9)) (if (equal? case-t3292 (quote #\v)) (let-values () (named #\t "tab" 11)) (let-values () c)))))))))))))) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) r))) ((read-number) (lambda (base sign-char) (letrec-values (((sign) (if (eq? sign-char #\-) -1 1))) ((letrec-values (((loop) (lambda (chars num digits?) (letrec-values (((c) (peek-char p)) ((d) (digit-value c))) (if (if d (< d base) #f) (let-values () (read-char p) (letrec-values (((num*) (if num (+ (* base num) (* sign d)) #f))) (loop (cons c chars) (if num* (if (= (/ (- num* (* sign d)) base) num) (if (if (< sign 0) (<= num* 0) (>= num* 0)) num* #f) #f) #f) #t))) (if (symbol-char? c) (read-symbol chars) (if (not digits?) (error (quote read) "expected digits") (if num num (errorf (quote read) "number out of range: ~a" (list->string (reverse chars))))))))))) loop) (if sign-char (list sign-char) (quote ())) 0 #f)))) ((read-string) (lambda () ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "non-terminated string literal") (if (eq? c #\\) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (loop (cons (let-values (((case-t3293) c)) (if (equal? case-t3293 (quote #\a)) (let-values () (integer->char 7)) (if (equal? case-t3293 (quote #\b)) (let-values () (integer->char 8)) (if (equal? case-t3293 (quote #\f)) (let-values () page) (if (equal? case-t3293 (quote #\n)) (let-values () #\newline) (if (equal? case-t3293 (quote #\r)) (let-values () return) (if (equal? case-t3293 (quote #\t)) (let-values () tab) (if (equal? case-t3293 (quote #\v)) (let-values () vtab) (if (if (equal? case-t3293 (quote #\\)) #t (if (equal? case-t3293 (quote #\')) #t (equal? case-t3293 (quote #\")))) (let-values () c) (let-values () (errorf (quote read) "unknown escape character ~a" c))))))))))) acc)))) (if (eq? c #\") (list->string (reverse acc)) (loop (cons c acc))))))))) loop) (quote ())))) ((read-symbol) (lambda (acc) ((letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (string->symbol (list->string (reverse acc)))))))) loop) acc))) ((read-datum) (lambda (dot?) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (let-values (((or-t3294) (eof-object? c))) (if or-t3294 or-t3294 (closing? c))) (let-values () (read-char p) (end! c)) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\%) (datum->syntax (read-symbol (list #\#))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-required)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (list->vector (read-list c #f)))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-required)))) (if (eq? c #\x) (let-values () (read-char p) (letrec-values (((c) (peek-char p)) ((signed?) (let-values (((or-t3295) (eq? c #\-))) (if or-t3295 or-t3295 (eq? c #\+)))) (() (let-values () (if signed? (let-values () (read-char p)) (void)) (values)))) (datum->syntax (read-number 16 (if signed? c #f))))) (if (eq? c #\;) (let-values () (read-char p) (read-required) (read-datum dot?)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (read-datum dot?)) (errorf (quote read) "unknown special character ~a" c))))))))))))) (if (digit? c) (datum->syntax (read-number 10 #f)) (if (eq? c #\") (let-values () (read-char p) (datum->syntax (read-string))) (if (let-values (((or-t3296) (eq? c oparen))) (if or-t3296 or-t3296 (let-values (((or-t3297) (eq? c obrack))) (if or-t3297 or-t3297 (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-list c #t))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-required)))) (if (let-values (((or-t3298) (eq? c #\+))) (if or-t3298 or-t3298 (eq? c #\-))) (let-values () (read-char p) (if (digit? (peek-char p)) (datum->syntax (read-number 10 c)) (datum->syntax (read-symbol (list c))))) (if (eq? c #\.) (let-values () (read-char p) (if (if dot? (space? (peek-char p)) #f) (end! c) (datum->syntax (read-symbol (list c))))) (datum->syntax (read-symbol (quote ())))))))))))))) ((o) (read-datum #f))) (if (not (eq? o end)) o (if (eof-object? (end-char)) (end-char) (errorf (quote read) "unexpected input: ~a" (end-char))))))))
diff --git a/src/library/module.min b/src/library/module.min
index e05ed4f..007f4f9 100644
--- a/src/library/module.min
+++ b/src/library/module.min
@@ -17,6 +17,31 @@
 (define $module-envs (make-hashtable))
 (define $module-internals (make-hashtable))
 
+;; Removes the `.` and `..` elements of a path so that a module
+;; has one name regardless of how it is imported.
+(define (simplify-path path)
+  (let loop ([elems (path->list path)] [acc '()])
+    (cond
+      [(null? elems)
+       (if (null? acc) path (apply build-path (reverse acc)))]
+      [(equal? (car elems) ".")
+       (loop (cdr elems) acc)]
+      [(and (equal? (car elems) "/") (pair? acc))
+       (loop (cdr elems) acc)]
+      [(and (equal? (car elems) "..") (pair? acc) (equal? (car acc) "/"))
+       (loop (cdr elems) acc)]
+      [(and (equal? (car elems) "..") (pair? acc) (not (equal? (car acc) "..")))
+       (loop (cdr elems) (cdr acc))]
+      [else
+       (loop (cdr elems) (cons (car elems) acc))])))
+
+;; The path of the file `name`, seen from directory `dir`
+(define (resolve-path dir name)
+  (simplify-path
+    (if (is-absolute-path? name)
+        name
+        (build-path dir name))))
+
 ;; Like `$load-module`, but does not check the cache
 (define ($load-module path print-handler result-handler)
   ;; paths
@@ -59,9 +84,9 @@
                  (loop (cdr exprs) evalable)]
                 [(pair? imports)
                  (define maybe-import (syntax-e (car imports)))
-                 (define path (build-path new-cwd maybe-import))
                  (cond
                    [(string? maybe-import)
+                    (define path (resolve-path new-cwd maybe-import))
                     ($load-or-import path print-handler result-handler)
                     (define from-module (hashtable-ref $module-table path))
                     (set! imported-modules (cons path imported-modules))
@@ -88,12 +113,12 @@
                     (cond
                       [(eq? (syntax-e (car maybe-export)) 'all)
                        (define module-name (syntax-e (cadr maybe-export)))
-                       (define path (build-path new-cwd module-name))
                        (cond
                          [(and (string? module-name)
                                (null? (cddr maybe-export))
-                               (member path imported-modules))
-                          (define from-module (hashtable-ref $module-table path))
+                               (member (resolve-path new-cwd module-name) imported-modules))
+                          (define from-module
+                            (hashtable-ref $module-table (resolve-path new-cwd module-name)))
                           (set! exported (append (map car (car from-module))
                                                  (map car (cdr from-module))
                                                  exported))
@@ -216,20 +241,14 @@
 
 (define ($load-or-import name print-handler result-handler)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path (resolve-path (current-directory) name))
   ;; check cache first
   (unless (hashtable-contains? $module-table path)
     ($load-or-import-no-check path print-handler result-handler)))
 
 (define (read/module name)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path (resolve-path (current-directory) name))
   ($load-module path #f #f))
 
 ;; imports a file
@@ -244,10 +263,7 @@
 
 (define (enter! name)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path (resolve-path (current-directory) name))
   ;; set up environments
   (unless (hashtable-contains? $module-envs path)
     (error 'enter! "unknown module" name))
-- 
2.43.0

