From 83673c447a15b3d717e5a63c01cde48e1c4af4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:16 +0000
Subject: [PATCH 01/81] fix: mark arg_stack in gc

The `this` value of a call is kept on arg_stack while the call arguments are
being evaluated; a gc during that time freed (or, for strings, failed to
relocate) it.
---
 mjs.c        | 1 +
 src/mjs_gc.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 49c3d92..e0b4034 100644
--- a/mjs.c
+++ b/mjs.c
@@ -10818,6 +10818,7 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_val(mjs, &mjs->scopes);
   gc_mark_mbuf_val(mjs, &mjs->stack);
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
+  gc_mark_mbuf_val(mjs, &mjs->arg_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
 
diff --git a/src/mjs_gc.c b/src/mjs_gc.c
index a129fa2..6cb79c4 100644
--- a/src/mjs_gc.c
+++ b/src/mjs_gc.c
@@ -494,6 +494,7 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_val(mjs, &mjs->scopes);
   gc_mark_mbuf_val(mjs, &mjs->stack);
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
+  gc_mark_mbuf_val(mjs, &mjs->arg_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
 
-- 
2.43.0


From f7ae628db3820683c02abe50eefa79af754a35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:05 +0000
Subject: [PATCH 02/81] fix: clean up after a native callee in mjs_apply

A cfunction or an ffi-ed function called via mjs_apply() / Function.apply left
its call frame and arguments on the VM stacks, so the next `return` of the
enclosing script function used a bogus frame. Also, the return value was read
via a pointer which dangles if the callee makes the stack grow.
---
 mjs.c          | 18 ++++++++----------
 src/mjs_exec.c | 18 ++++++++----------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/mjs.c b/mjs.c
index e0b4034..c001f27 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9092,8 +9092,8 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
-  int i;
+  mjs_val_t r, prev_this_val, retval_stack_idx;
+  int i, is_native = !mjs_is_function(func);
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
       !mjs_is_ffi_sig(func)) {
@@ -9106,7 +9106,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -9124,10 +9123,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   if (mjs_is_foreign(func)) {
     ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
   } else if (mjs_is_ffi_sig(func)) {
     mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
@@ -9135,14 +9132,15 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   }
 
   /*
-   * If there was an error, we need to restore frame and do the cleanup
-   * which is otherwise done by OP_RETURN
+   * If the callee is not a bytecode function, or if there was an error, we need
+   * to restore frame and do the cleanup which is otherwise done by OP_RETURN
    */
-  if (mjs->error != MJS_OK) {
+  if (is_native || mjs->error != MJS_OK) {
     call_stack_restore_frame(mjs);
 
-    // Pop cell at which the returned value should've been written
-    mjs_pop(mjs);
+    // Pop cell at which the returned value is (or should've been) written
+    r = mjs_pop(mjs);
+    if (is_native && res != NULL) *res = r;
   }
   mjs->vals.this_obj = prev_this_val;
 
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index bd48fea..a6dd52f 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1121,8 +1121,8 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
-  int i;
+  mjs_val_t r, prev_this_val, retval_stack_idx;
+  int i, is_native = !mjs_is_function(func);
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
       !mjs_is_ffi_sig(func)) {
@@ -1135,7 +1135,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -1153,10 +1152,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   if (mjs_is_foreign(func)) {
     ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
   } else if (mjs_is_ffi_sig(func)) {
     mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
@@ -1164,14 +1161,15 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   }
 
   /*
-   * If there was an error, we need to restore frame and do the cleanup
-   * which is otherwise done by OP_RETURN
+   * If the callee is not a bytecode function, or if there was an error, we need
+   * to restore frame and do the cleanup which is otherwise done by OP_RETURN
    */
-  if (mjs->error != MJS_OK) {
+  if (is_native || mjs->error != MJS_OK) {
     call_stack_restore_frame(mjs);
 
-    // Pop cell at which the returned value should've been written
-    mjs_pop(mjs);
+    // Pop cell at which the returned value is (or should've been) written
+    r = mjs_pop(mjs);
+    if (is_native && res != NULL) *res = r;
   }
   mjs->vals.this_obj = prev_this_val;
 
-- 
2.43.0


From 263374590427a8f0f091887b2e0dabe310b8c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:06 +0000
Subject: [PATCH 03/81] fix: do not restore stale this value in mjs_apply

The previous `this` is kept in the call frame, where gc can see and relocate
it, and it is restored from there; the copy in a C local may be out of date.
---
 mjs.c          | 5 +----
 src/mjs_exec.c | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/mjs.c b/mjs.c
index c001f27..3ad8013 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9092,7 +9092,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx;
+  mjs_val_t r, retval_stack_idx;
   int i, is_native = !mjs_is_function(func);
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -9102,8 +9102,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
-  prev_this_val = mjs->vals.this_obj;
-
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
 
@@ -9142,7 +9140,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
     r = mjs_pop(mjs);
     if (is_native && res != NULL) *res = r;
   }
-  mjs->vals.this_obj = prev_this_val;
 
   return mjs->error;
 }
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index a6dd52f..1aa597b 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1121,7 +1121,7 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx;
+  mjs_val_t r, retval_stack_idx;
   int i, is_native = !mjs_is_function(func);
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
@@ -1131,8 +1131,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
-  prev_this_val = mjs->vals.this_obj;
-
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
 
@@ -1171,7 +1169,6 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
     r = mjs_pop(mjs);
     if (is_native && res != NULL) *res = r;
   }
-  mjs->vals.this_obj = prev_this_val;
 
   return mjs->error;
 }
-- 
2.43.0


From 3ad5706463994dd98b2ec90936c246284a5dc875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:28 +0000
Subject: [PATCH 04/81] fix: `return` outside of a function must not pop the
 caller's frame

When a script is executed by native code which itself has been called from a
script (e.g. by load()), a top-level `return` in it used to return from the
native function's frame instead of reporting an error.
---
 mjs.c          | 11 ++++++++++-
 src/mjs_exec.c | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 3ad8013..acb9929 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8532,6 +8532,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   int scopes_len = mjs->scopes.len;
   int loop_addresses_len = mjs->loop_addresses.len;
   size_t start_off = off;
+  size_t min_call_stack_len = call_stack_len;
   const uint8_t *code;
 
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
@@ -8542,6 +8543,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 
   off -= bp.start_idx;
 
+  /*
+   * A function has been given its own frame by the caller, but a script has
+   * none, so it should not touch the frame of the native code which executes it
+   */
+  if (((const uint8_t *) bp.data.p)[off] == OP_BCODE_HEADER) {
+    min_call_stack_len += CALL_STACK_FRAME_ITEMS_CNT * sizeof(mjs_val_t);
+  }
+
   for (i = off; i < bp.data.len; i++) {
     mjs->cur_bcode_offset = i;
 
@@ -8842,7 +8851,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_SETRETVAL: {
-        if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT) {
+        if (mjs->call_stack.len < min_call_stack_len) {
           mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "cannot return");
         } else {
           size_t retval_pos = mjs_get_int(
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 1aa597b..fb26933 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -561,6 +561,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   int scopes_len = mjs->scopes.len;
   int loop_addresses_len = mjs->loop_addresses.len;
   size_t start_off = off;
+  size_t min_call_stack_len = call_stack_len;
   const uint8_t *code;
 
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
@@ -571,6 +572,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 
   off -= bp.start_idx;
 
+  /*
+   * A function has been given its own frame by the caller, but a script has
+   * none, so it should not touch the frame of the native code which executes it
+   */
+  if (((const uint8_t *) bp.data.p)[off] == OP_BCODE_HEADER) {
+    min_call_stack_len += CALL_STACK_FRAME_ITEMS_CNT * sizeof(mjs_val_t);
+  }
+
   for (i = off; i < bp.data.len; i++) {
     mjs->cur_bcode_offset = i;
 
@@ -871,7 +880,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_SETRETVAL: {
-        if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT) {
+        if (mjs->call_stack.len < min_call_stack_len) {
           mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "cannot return");
         } else {
           size_t retval_pos = mjs_get_int(
-- 
2.43.0


From 0d0347f9009e09a92dba5750030a610b6e10c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:03 +0000
Subject: [PATCH 05/81] fix: break/continue must not affect the loop of a
 calling function

`break` and `continue` in a function (or a load()ed file) with no enclosing
loop jumped to the addresses of a loop in the caller, which might even belong
to a different bcode chunk.
---
 mjs.c          | 17 +++++++++++++++--
 src/mjs_exec.c | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index acb9929..0871ee5 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8051,6 +8051,19 @@ static size_t call_stack_restore_frame(struct mjs *mjs) {
   return return_address;
 }
 
+/*
+ * Returns true if there is a loop to break out of (or to continue) in the
+ * function which is being executed, not counting the loops of its callers.
+ */
+static bool is_inside_loop(struct mjs *mjs) {
+  size_t outer = 0;
+  if (mjs_stack_size(&mjs->call_stack) >= CALL_STACK_FRAME_ITEMS_CNT) {
+    outer = mjs_get_int(mjs, *vptr(&mjs->call_stack,
+                                   -1 - CALL_STACK_FRAME_ITEM_LOOP_ADDR_IDX));
+  }
+  return (size_t) mjs_stack_size(&mjs->loop_addresses) >= outer + 3;
+}
+
 static mjs_val_t mjs_find_scope(struct mjs *mjs, mjs_val_t key) {
   size_t num_scopes = mjs_stack_size(&mjs->scopes);
   while (num_scopes > 0) {
@@ -8904,7 +8917,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_CONTINUE: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_inside_loop(mjs)) {
           size_t scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));
           assert(mjs_stack_size(&mjs->scopes) >= scopes_len);
           mjs->scopes.len = scopes_len * sizeof(mjs_val_t);
@@ -8916,7 +8929,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         }
       } break;
       case OP_BREAK: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_inside_loop(mjs)) {
           size_t scopes_len;
           /* drop "continue" address */
           mjs_pop_val(&mjs->loop_addresses);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index fb26933..04159f3 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -80,6 +80,19 @@ static size_t call_stack_restore_frame(struct mjs *mjs) {
   return return_address;
 }
 
+/*
+ * Returns true if there is a loop to break out of (or to continue) in the
+ * function which is being executed, not counting the loops of its callers.
+ */
+static bool is_inside_loop(struct mjs *mjs) {
+  size_t outer = 0;
+  if (mjs_stack_size(&mjs->call_stack) >= CALL_STACK_FRAME_ITEMS_CNT) {
+    outer = mjs_get_int(mjs, *vptr(&mjs->call_stack,
+                                   -1 - CALL_STACK_FRAME_ITEM_LOOP_ADDR_IDX));
+  }
+  return (size_t) mjs_stack_size(&mjs->loop_addresses) >= outer + 3;
+}
+
 static mjs_val_t mjs_find_scope(struct mjs *mjs, mjs_val_t key) {
   size_t num_scopes = mjs_stack_size(&mjs->scopes);
   while (num_scopes > 0) {
@@ -933,7 +946,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_CONTINUE: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_inside_loop(mjs)) {
           size_t scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));
           assert(mjs_stack_size(&mjs->scopes) >= scopes_len);
           mjs->scopes.len = scopes_len * sizeof(mjs_val_t);
@@ -945,7 +958,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         }
       } break;
       case OP_BREAK: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_inside_loop(mjs)) {
           size_t scopes_len;
           /* drop "continue" address */
           mjs_pop_val(&mjs->loop_addresses);
-- 
2.43.0


From 09eccafae92f90ac3d1e0fcd46ec4da7288161b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:03 +0000
Subject: [PATCH 06/81] fix: compound assignment must evaluate to the new value

---
 mjs.c          | 3 ++-
 src/mjs_exec.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 0871ee5..11d2be5 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8193,7 +8193,8 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
     mjs_val_t v = mjs_get_v(mjs, obj, key);
-    mjs_set_v(mjs, obj, key, do_op(mjs, v, val, op));
+    v = do_op(mjs, v, val, op);
+    mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 04159f3..d92b686 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -222,7 +222,8 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t key = mjs_pop(mjs);
   if (mjs_is_object(obj) && mjs_is_string(key)) {
     mjs_val_t v = mjs_get_v(mjs, obj, key);
-    mjs_set_v(mjs, obj, key, do_op(mjs, v, val, op));
+    v = do_op(mjs, v, val, op);
+    mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
-- 
2.43.0


From d3084dfacb696e1d3b470a50117691f60b3983fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:20 +0000
Subject: [PATCH 07/81] fix: 0 === -0 must be true

---
 mjs.c          | 6 +++---
 src/mjs_exec.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index 11d2be5..92a9b54 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8209,10 +8209,10 @@ static int check_equal(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
     ret = 1;
   } else if (mjs_is_number(a) && mjs_is_number(b)) {
     /*
-     * The case of equal numbers is handled above, so here the result is always
-     * false
+     * The representations differ, but it might be a zero compared to a negative
+     * zero
      */
-    ret = 0;
+    ret = mjs_get_double(mjs, a) == mjs_get_double(mjs, b);
   } else if (mjs_is_string(a) && mjs_is_string(b)) {
     ret = s_cmp(mjs, a, b) == 0;
   } else if (mjs_is_foreign(a) && b == MJS_NULL) {
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index d92b686..9268447 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -238,10 +238,10 @@ static int check_equal(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
     ret = 1;
   } else if (mjs_is_number(a) && mjs_is_number(b)) {
     /*
-     * The case of equal numbers is handled above, so here the result is always
-     * false
+     * The representations differ, but it might be a zero compared to a negative
+     * zero
      */
-    ret = 0;
+    ret = mjs_get_double(mjs, a) == mjs_get_double(mjs, b);
   } else if (mjs_is_string(a) && mjs_is_string(b)) {
     ret = s_cmp(mjs, a, b) == 0;
   } else if (mjs_is_foreign(a) && b == MJS_NULL) {
-- 
2.43.0


From 4b3fb066a6d7e26d2de7717fbefccb92057e0d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:41 +0000
Subject: [PATCH 08/81] fix: treat imported C functions as functions

typeof, JSON.stringify() and argument type checks abort()ed the process when
given a value returned by ffi(), and such a value was considered falsy.
---
 mjs.c                | 4 +++-
 src/mjs_conversion.c | 3 ++-
 src/mjs_core.c       | 1 +
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 92a9b54..e53f34b 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7426,6 +7426,7 @@ void mjs_init_builtin(struct mjs *mjs, mjs_val_t obj) {
 #endif
 
 /* Amalgamated: #include "mjs_conversion.h" */
+/* Amalgamated: #include "mjs_ffi.h" */
 /* Amalgamated: #include "mjs_object.h" */
 /* Amalgamated: #include "mjs_primitive.h" */
 /* Amalgamated: #include "mjs_string.h" */
@@ -7491,7 +7492,7 @@ MJS_PRIVATE mjs_val_t mjs_to_boolean_v(struct mjs *mjs, mjs_val_t v) {
       ((mjs_is_boolean(v) && mjs_get_bool(mjs, v)) ||
        (mjs_is_number(v) && mjs_get_double(mjs, v) != 0.0) ||
        (mjs_is_string(v) && mjs_get_string(mjs, &v, &len) && len > 0) ||
-       (mjs_is_function(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
+       (mjs_is_function(v)) || (mjs_is_ffi_sig(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
       v != MJS_TAG_NAN;
 
   return mjs_mk_boolean(mjs, is_truthy);
@@ -7716,6 +7717,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
diff --git a/src/mjs_conversion.c b/src/mjs_conversion.c
index 2dec2dd..3afae93 100644
--- a/src/mjs_conversion.c
+++ b/src/mjs_conversion.c
@@ -4,6 +4,7 @@
  */
 
 #include "mjs_conversion.h"
+#include "mjs_ffi.h"
 #include "mjs_object.h"
 #include "mjs_primitive.h"
 #include "mjs_string.h"
@@ -69,7 +70,7 @@ MJS_PRIVATE mjs_val_t mjs_to_boolean_v(struct mjs *mjs, mjs_val_t v) {
       ((mjs_is_boolean(v) && mjs_get_bool(mjs, v)) ||
        (mjs_is_number(v) && mjs_get_double(mjs, v) != 0.0) ||
        (mjs_is_string(v) && mjs_get_string(mjs, &v, &len) && len > 0) ||
-       (mjs_is_function(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
+       (mjs_is_function(v)) || (mjs_is_ffi_sig(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
       v != MJS_TAG_NAN;
 
   return mjs_mk_boolean(mjs, is_truthy);
diff --git a/src/mjs_core.c b/src/mjs_core.c
index 2ba0765..dbf8c49 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -215,6 +215,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
-- 
2.43.0


From 0a12b43aaeedc215e9153aa217068e5f289834e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:27 +0000
Subject: [PATCH 09/81] fix: JSON.parse() of empty keys, of keys ending with a
 dot, and of long paths

Whether a token is a key was deduced from the last character of the path, so
values of the keys which are empty or end with a dot were lost, and when the
path did not fit into its buffer, keys were taken for values (which fails an
assertion). Index of an array element was also wrong if the path is too long.
---
 mjs.c               | 18 ++++++++++--------
 src/frozen/frozen.c | 11 +++++++----
 src/mjs_json.c      |  7 +++----
 3 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/mjs.c b/mjs.c
index e53f34b..4651e1f 100644
--- a/mjs.c
+++ b/mjs.c
@@ -4905,6 +4905,9 @@ struct frozen {
   const char *cur_name;
   size_t cur_name_len;
 
+  /* Set while a key is being parsed: no callback should be invoked for it */
+  int is_key;
+
   /* For callback API */
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
@@ -4923,8 +4926,7 @@ struct fstate {
 
 #define CALL_BACK(fr, tok, value, len)                                        \
   do {                                                                        \
-    if ((fr)->callback &&                                                     \
-        ((fr)->path_len == 0 || (fr)->path[(fr)->path_len - 1] != '.')) {     \
+    if ((fr)->callback && !(fr)->is_key) {                                    \
       struct json_token t = {(value), (int) (len), (tok)};                    \
                                                                               \
       /* Call the callback with the given value and current name */           \
@@ -5129,8 +5131,7 @@ static int json_parse_array(struct frozen *f) {
         snprintf(buf, sizeof(buf), "[%d]", i);
         i++;
         current_path_len = json_append_to_path(f, buf, strlen(buf));
-        f->cur_name =
-            f->path + strlen(f->path) - strlen(buf) + 1 /*opening brace*/;
+        f->cur_name = buf + 1 /*opening brace*/;
         f->cur_name_len = strlen(buf) - 2 /*braces*/;
         TRY(json_parse_value(f));
         json_truncate_path(f, current_path_len);
@@ -5225,7 +5226,9 @@ static int json_parse_pair(struct frozen *f) {
   const char *tok;
   json_skip_whitespaces(f);
   tok = f->cur;
+  f->is_key = 1;
   TRY(json_parse_key(f));
+  f->is_key = 0;
   {
     f->cur_name = *tok == '"' ? tok + 1 : tok;
     f->cur_name_len = *tok == '"' ? f->cur - tok - 2 : f->cur - tok;
@@ -11269,7 +11272,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
   }
 
   if (!mjs_is_undefined(v)) {
-    if (name != NULL && name_len != 0) {
+    if (ctx->frame != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
         mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
@@ -11284,10 +11287,9 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         LOG(LL_ERROR, ("Current value is neither object nor array\n"));
       }
     } else {
-      /* This is a root value */
-      assert(ctx->frame == NULL);
-
       /*
+       * This is a root value
+       *
        * This value will also be the overall result of JSON parsing
        * (it's already owned by the `mjs_alt_json_parse()`)
        */
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 06f3389..d99d0d3 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -79,6 +79,9 @@ struct frozen {
   const char *cur_name;
   size_t cur_name_len;
 
+  /* Set while a key is being parsed: no callback should be invoked for it */
+  int is_key;
+
   /* For callback API */
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
@@ -97,8 +100,7 @@ struct fstate {
 
 #define CALL_BACK(fr, tok, value, len)                                        \
   do {                                                                        \
-    if ((fr)->callback &&                                                     \
-        ((fr)->path_len == 0 || (fr)->path[(fr)->path_len - 1] != '.')) {     \
+    if ((fr)->callback && !(fr)->is_key) {                                    \
       struct json_token t = {(value), (int) (len), (tok)};                    \
                                                                               \
       /* Call the callback with the given value and current name */           \
@@ -303,8 +305,7 @@ static int json_parse_array(struct frozen *f) {
         snprintf(buf, sizeof(buf), "[%d]", i);
         i++;
         current_path_len = json_append_to_path(f, buf, strlen(buf));
-        f->cur_name =
-            f->path + strlen(f->path) - strlen(buf) + 1 /*opening brace*/;
+        f->cur_name = buf + 1 /*opening brace*/;
         f->cur_name_len = strlen(buf) - 2 /*braces*/;
         TRY(json_parse_value(f));
         json_truncate_path(f, current_path_len);
@@ -399,7 +400,9 @@ static int json_parse_pair(struct frozen *f) {
   const char *tok;
   json_skip_whitespaces(f);
   tok = f->cur;
+  f->is_key = 1;
   TRY(json_parse_key(f));
+  f->is_key = 0;
   {
     f->cur_name = *tok == '"' ? tok + 1 : tok;
     f->cur_name_len = *tok == '"' ? f->cur - tok - 2 : f->cur - tok;
diff --git a/src/mjs_json.c b/src/mjs_json.c
index eeb2ea3..26473a5 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -387,7 +387,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
   }
 
   if (!mjs_is_undefined(v)) {
-    if (name != NULL && name_len != 0) {
+    if (ctx->frame != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
         mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
@@ -402,10 +402,9 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         LOG(LL_ERROR, ("Current value is neither object nor array\n"));
       }
     } else {
-      /* This is a root value */
-      assert(ctx->frame == NULL);
-
       /*
+       * This is a root value
+       *
        * This value will also be the overall result of JSON parsing
        * (it's already owned by the `mjs_alt_json_parse()`)
        */
-- 
2.43.0


From 54f358c329fc8fccefe631a4eae7acfed318c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:28 +0000
Subject: [PATCH 10/81] fix: JSON.parse() must not read past the end of the
 string

A number at the end of the string was converted by strtod() from the buffer
which is not NUL-terminated.
---
 mjs.c          | 4 +++-
 src/mjs_json.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 4651e1f..7c92ee1 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11329,8 +11329,10 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    /* frozen and strtod() might look at the character past the end */
+    stmp[len] = '\0';
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
diff --git a/src/mjs_json.c b/src/mjs_json.c
index 26473a5..2311367 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -444,8 +444,10 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    /* frozen and strtod() might look at the character past the end */
+    stmp[len] = '\0';
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
-- 
2.43.0


From 56ad014c41e071c1797480e0cbe74cf9559c032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:28 +0000
Subject: [PATCH 11/81] fix: memory leak in JSON.parse() of a string with an
 unsupported escape

---
 mjs.c          | 1 +
 src/mjs_json.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 7c92ee1..fe93907 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11228,6 +11228,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
           mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+          free(dst);
           break;
         }
         v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
diff --git a/src/mjs_json.c b/src/mjs_json.c
index 2311367..de7925d 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -343,6 +343,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
           mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+          free(dst);
           break;
         }
         v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
-- 
2.43.0


From c608659a9392d5b503d7e27d39a71ddc6a8ee55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:28 +0000
Subject: [PATCH 12/81] fix: JSON.parse() must unescape object keys

---
 mjs.c          | 9 ++++++++-
 src/mjs_json.c | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index fe93907..25321e9 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11276,7 +11276,14 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
     if (ctx->frame != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
-        mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
+        char *key = malloc(name_len + 1);
+        int key_len = json_unescape(name, name_len, key, name_len);
+        if (key_len < 0) {
+          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+        } else {
+          mjs_set(ctx->mjs, ctx->frame->val, key, key_len, v);
+        }
+        free(key);
       } else if (mjs_is_array(ctx->frame->val)) {
         /*
          * TODO(dfrank): consult name_len. Currently it's not a problem due to
diff --git a/src/mjs_json.c b/src/mjs_json.c
index de7925d..c23f832 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -391,7 +391,14 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
     if (ctx->frame != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
-        mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
+        char *key = malloc(name_len + 1);
+        int key_len = json_unescape(name, name_len, key, name_len);
+        if (key_len < 0) {
+          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+        } else {
+          mjs_set(ctx->mjs, ctx->frame->val, key, key_len, v);
+        }
+        free(key);
       } else if (mjs_is_array(ctx->frame->val)) {
         /*
          * TODO(dfrank): consult name_len. Currently it's not a problem due to
-- 
2.43.0


From a1a8b709a5f688c9fb1d64467a3a87595ce75c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:29 +0000
Subject: [PATCH 13/81] fix: JSON.stringify() must escape object keys

---
 mjs.c          | 3 ++-
 src/mjs_json.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 25321e9..7f0bbc5 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11072,7 +11072,8 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
           b += c_snprintf(b, BUF_LEFT(size, b - buf), ",");
         }
         s = mjs_get_string(mjs, &prop->name, &n);
-        b += c_snprintf(b, BUF_LEFT(size, b - buf), "\"%.*s\":", (int) n, s);
+        b += snquote(b, BUF_LEFT(size, b - buf), s, n);
+        b += c_snprintf(b, BUF_LEFT(size, b - buf), ":");
         {
           size_t tmp = 0;
           rcode = to_json_or_debug(mjs, prop->value, b, BUF_LEFT(size, b - buf),
diff --git a/src/mjs_json.c b/src/mjs_json.c
index c23f832..d28b2c7 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -187,7 +187,8 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
           b += c_snprintf(b, BUF_LEFT(size, b - buf), ",");
         }
         s = mjs_get_string(mjs, &prop->name, &n);
-        b += c_snprintf(b, BUF_LEFT(size, b - buf), "\"%.*s\":", (int) n, s);
+        b += snquote(b, BUF_LEFT(size, b - buf), s, n);
+        b += c_snprintf(b, BUF_LEFT(size, b - buf), ":");
         {
           size_t tmp = 0;
           rcode = to_json_or_debug(mjs, prop->value, b, BUF_LEFT(size, b - buf),
-- 
2.43.0


From 09d9eddc8042e7c0170d28420069155ff7bec860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:29 +0000
Subject: [PATCH 14/81] fix: JSON.stringify() must not emit \v, which is not a
 JSON escape

---
 mjs.c          | 7 +++----
 src/mjs_json.c | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/mjs.c b/mjs.c
index 7f0bbc5..156f4db 100644
--- a/mjs.c
+++ b/mjs.c
@@ -10952,11 +10952,10 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
    * 0x8 -> \b
    * 0x9 -> \t
    * 0xa -> \n
-   * 0xb -> \v
    * 0xc -> \f
    * 0xd -> \r
    */
-  const char *specials = "btnvfr";
+  const char *specials = "btn\0fr";
   size_t i = 0;
 
   i++;
@@ -10966,12 +10965,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
     if (*s == '"' || *s == '\\') {
       i++;
       if (buf < limit) *buf++ = '\\';
-    } else if (*s >= '\b' && *s <= '\r') {
+    } else if (*s >= '\b' && *s <= '\r' && *s != '\v') {
       i += 2;
       if (buf < limit) *buf++ = '\\';
       if (buf < limit) *buf++ = specials[*s - '\b'];
       continue;
-    } else if ((unsigned char) *s < '\b' || (*s > '\r' && *s < ' ')) {
+    } else if ((unsigned char) *s < ' ') {
       i += 6 /* \uXXXX */;
       if (buf < limit) *buf++ = '\\';
       buf = append_hex(buf, limit, (uint8_t) *s);
diff --git a/src/mjs_json.c b/src/mjs_json.c
index d28b2c7..79fc45c 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -67,11 +67,10 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
    * 0x8 -> \b
    * 0x9 -> \t
    * 0xa -> \n
-   * 0xb -> \v
    * 0xc -> \f
    * 0xd -> \r
    */
-  const char *specials = "btnvfr";
+  const char *specials = "btn\0fr";
   size_t i = 0;
 
   i++;
@@ -81,12 +80,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
     if (*s == '"' || *s == '\\') {
       i++;
       if (buf < limit) *buf++ = '\\';
-    } else if (*s >= '\b' && *s <= '\r') {
+    } else if (*s >= '\b' && *s <= '\r' && *s != '\v') {
       i += 2;
       if (buf < limit) *buf++ = '\\';
       if (buf < limit) *buf++ = specials[*s - '\b'];
       continue;
-    } else if ((unsigned char) *s < '\b' || (*s > '\r' && *s < ' ')) {
+    } else if ((unsigned char) *s < ' ') {
       i += 6 /* \uXXXX */;
       if (buf < limit) *buf++ = '\\';
       buf = append_hex(buf, limit, (uint8_t) *s);
-- 
2.43.0


From 251152b479363e2759581e0aed63f1ed6d3e2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:29 +0000
Subject: [PATCH 15/81] fix: integer literals which do not fit into int64_t

---
 mjs.c            | 2 +-
 src/mjs_parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 156f4db..24212fe 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12169,7 +12169,7 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       double iv, d = strtod(t->ptr, NULL);
       unsigned long uv = strtoul(t->ptr + 2, NULL, 16);
       if (t->ptr[0] == '0' && t->ptr[1] == 'x') d = uv;
-      if (modf(d, &iv) == 0) {
+      if (modf(d, &iv) == 0 && d < 9223372036854775808.0 /* 2^63 */) {
         emit_byte(p, OP_PUSH_INT);
         emit_int(p, (int64_t) d);
       } else {
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 7d9f383..c004099 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -305,7 +305,7 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       double iv, d = strtod(t->ptr, NULL);
       unsigned long uv = strtoul(t->ptr + 2, NULL, 16);
       if (t->ptr[0] == '0' && t->ptr[1] == 'x') d = uv;
-      if (modf(d, &iv) == 0) {
+      if (modf(d, &iv) == 0 && d < 9223372036854775808.0 /* 2^63 */) {
         emit_byte(p, OP_PUSH_INT);
         emit_int(p, (int64_t) d);
       } else {
-- 
2.43.0


From 500c65d11f889a3197042465d58cfec67e2e1650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:20 +0000
Subject: [PATCH 16/81] fix: string representation of numbers

Integral numbers beyond the range of int64_t were printed as an arbitrary
integer, fractions lost all but 6 digits after the point, and JSON.stringify()
produced invalid JSON for NaN.
---
 mjs.c          | 19 +++++++++++++++++--
 src/mjs_json.c |  5 +++++
 src/mjs_util.c | 14 ++++++++++++--
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 24212fe..78078ea 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11022,6 +11022,11 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
     }
   }
 
+  /* There are no such numbers in JSON */
+  if (!is_debug && mjs_is_number(v) && !isfinite(mjs_get_double(mjs, v))) {
+    v = MJS_NULL;
+  }
+
   switch (mjs_get_type(v)) {
     case MJS_TYPE_NULL:
     case MJS_TYPE_BOOLEAN:
@@ -13946,10 +13951,20 @@ MJS_PRIVATE const char *mjs_stringify_type(enum mjs_type t) {
 void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
   if (mjs_is_number(v)) {
     double iv, d = mjs_get_double(mjs, v);
-    if (modf(d, &iv) == 0) {
+    if (modf(d, &iv) == 0 && fabs(d) < 9223372036854775808.0 /* 2^63 */) {
       json_printf(out, "%" INT64_FMT, (int64_t) d);
+    } else if (isnan(d)) {
+      json_printf(out, "%s", "NaN");
+    } else if (isinf(d)) {
+      json_printf(out, "%s", d < 0 ? "-Infinity" : "Infinity");
     } else {
-      json_printf(out, "%f", mjs_get_double(mjs, v));
+      /* Use as many digits as needed to get the same number when parsed back */
+      char buf[30];
+      int prec = 6;
+      do {
+        snprintf(buf, sizeof(buf), "%.*g", prec, d);
+      } while (strtod(buf, NULL) != d && prec++ < 17);
+      json_printf(out, "%s", buf);
     }
   } else if (mjs_is_boolean(v)) {
     json_printf(out, "%s", mjs_get_bool(mjs, v) ? "true" : "false");
diff --git a/src/mjs_json.c b/src/mjs_json.c
index 79fc45c..a792af7 100644
--- a/src/mjs_json.c
+++ b/src/mjs_json.c
@@ -137,6 +137,11 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
     }
   }
 
+  /* There are no such numbers in JSON */
+  if (!is_debug && mjs_is_number(v) && !isfinite(mjs_get_double(mjs, v))) {
+    v = MJS_NULL;
+  }
+
   switch (mjs_get_type(v)) {
     case MJS_TYPE_NULL:
     case MJS_TYPE_BOOLEAN:
diff --git a/src/mjs_util.c b/src/mjs_util.c
index b14a18d..6b6a668 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -47,10 +47,20 @@ MJS_PRIVATE const char *mjs_stringify_type(enum mjs_type t) {
 void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
   if (mjs_is_number(v)) {
     double iv, d = mjs_get_double(mjs, v);
-    if (modf(d, &iv) == 0) {
+    if (modf(d, &iv) == 0 && fabs(d) < 9223372036854775808.0 /* 2^63 */) {
       json_printf(out, "%" INT64_FMT, (int64_t) d);
+    } else if (isnan(d)) {
+      json_printf(out, "%s", "NaN");
+    } else if (isinf(d)) {
+      json_printf(out, "%s", d < 0 ? "-Infinity" : "Infinity");
     } else {
-      json_printf(out, "%f", mjs_get_double(mjs, v));
+      /* Use as many digits as needed to get the same number when parsed back */
+      char buf[30];
+      int prec = 6;
+      do {
+        snprintf(buf, sizeof(buf), "%.*g", prec, d);
+      } while (strtod(buf, NULL) != d && prec++ < 17);
+      json_printf(out, "%s", buf);
     }
   } else if (mjs_is_boolean(v)) {
     json_printf(out, "%s", mjs_get_bool(mjs, v) ? "true" : "false");
-- 
2.43.0


From c3e5a925ffccff46c113dfd110526482c4bd61ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:20 +0000
Subject: [PATCH 17/81] fix: process escape sequences in string keys of object
 literals

---
 mjs.c            | 29 +++++++++++++++++++----------
 src/mjs_parser.c | 29 +++++++++++++++++++----------
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/mjs.c b/mjs.c
index 78078ea..be3ac65 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12101,6 +12101,16 @@ static mjs_err_t parse_function(struct pstate *p) {
   return res;
 }
 
+/* Emit the code which pushes the value of the given string literal */
+static void emit_str_literal(struct pstate *p, const struct tok *t) {
+  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
+  size_t oldlen;
+  emit_byte(p, OP_PUSH_STR);
+  oldlen = bcode_gen->len;
+  embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
+  p->cur_idx += bcode_gen->len - oldlen;
+}
+
 static mjs_err_t parse_object_literal(struct pstate *p) {
   mjs_err_t res = MJS_OK;
   EXPECT(p, TOK_OPEN_CURLY);
@@ -12108,8 +12118,12 @@ static mjs_err_t parse_object_literal(struct pstate *p) {
   while (p->tok.tok != TOK_CLOSE_CURLY) {
     if (p->tok.tok != TOK_IDENT && p->tok.tok != TOK_STR) SYNTAX_ERROR(p);
     emit_byte(p, OP_DUP);
-    emit_byte(p, OP_PUSH_STR);
-    emit_str(p, p->tok.ptr, p->tok.len);
+    if (p->tok.tok == TOK_STR) {
+      emit_str_literal(p, &p->tok);
+    } else {
+      emit_byte(p, OP_PUSH_STR);
+      emit_str(p, p->tok.ptr, p->tok.len);
+    }
     emit_byte(p, OP_SWAP);
     pnext1(p);
     EXPECT(p, TOK_COLON);
@@ -12139,7 +12153,6 @@ static mjs_err_t parse_array_literal(struct pstate *p) {
 }
 
 static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
-  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
   enum mjs_err res = MJS_OK;
   int tok = t->tok;
   LOG(LL_VERBOSE_DEBUG, ("[%.*s] %p", p->tok.len, p->tok.ptr, (void *) &t));
@@ -12183,13 +12196,9 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       }
       break;
     }
-    case TOK_STR: {
-      size_t oldlen;
-      emit_byte(p, OP_PUSH_STR);
-      oldlen = bcode_gen->len;
-      embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
-      p->cur_idx += bcode_gen->len - oldlen;
-    } break;
+    case TOK_STR:
+      emit_str_literal(p, t);
+      break;
     case TOK_OPEN_BRACKET:
       res = parse_array_literal(p);
       break;
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index c004099..c2a7325 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -232,6 +232,16 @@ static mjs_err_t parse_function(struct pstate *p) {
   return res;
 }
 
+/* Emit the code which pushes the value of the given string literal */
+static void emit_str_literal(struct pstate *p, const struct tok *t) {
+  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
+  size_t oldlen;
+  emit_byte(p, OP_PUSH_STR);
+  oldlen = bcode_gen->len;
+  embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
+  p->cur_idx += bcode_gen->len - oldlen;
+}
+
 static mjs_err_t parse_object_literal(struct pstate *p) {
   mjs_err_t res = MJS_OK;
   EXPECT(p, TOK_OPEN_CURLY);
@@ -239,8 +249,12 @@ static mjs_err_t parse_object_literal(struct pstate *p) {
   while (p->tok.tok != TOK_CLOSE_CURLY) {
     if (p->tok.tok != TOK_IDENT && p->tok.tok != TOK_STR) SYNTAX_ERROR(p);
     emit_byte(p, OP_DUP);
-    emit_byte(p, OP_PUSH_STR);
-    emit_str(p, p->tok.ptr, p->tok.len);
+    if (p->tok.tok == TOK_STR) {
+      emit_str_literal(p, &p->tok);
+    } else {
+      emit_byte(p, OP_PUSH_STR);
+      emit_str(p, p->tok.ptr, p->tok.len);
+    }
     emit_byte(p, OP_SWAP);
     pnext1(p);
     EXPECT(p, TOK_COLON);
@@ -270,7 +284,6 @@ static mjs_err_t parse_array_literal(struct pstate *p) {
 }
 
 static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
-  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
   enum mjs_err res = MJS_OK;
   int tok = t->tok;
   LOG(LL_VERBOSE_DEBUG, ("[%.*s] %p", p->tok.len, p->tok.ptr, (void *) &t));
@@ -314,13 +327,9 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       }
       break;
     }
-    case TOK_STR: {
-      size_t oldlen;
-      emit_byte(p, OP_PUSH_STR);
-      oldlen = bcode_gen->len;
-      embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
-      p->cur_idx += bcode_gen->len - oldlen;
-    } break;
+    case TOK_STR:
+      emit_str_literal(p, t);
+      break;
     case TOK_OPEN_BRACKET:
       res = parse_array_literal(p);
       break;
-- 
2.43.0


From d6ec34e89dc5966e28a3100c19b2312584432204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:21 +0000
Subject: [PATCH 18/81] fix: do not count consecutive blocks as nested ones

Parser depth was not decremented at the end of a block, so a script with more
than 512 blocks and functions in total failed with "parser stack overflow".
---
 mjs.c            | 1 +
 src/mjs_parser.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index be3ac65..977a598 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12042,6 +12042,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   if (mkscope) emit_byte(p, OP_NEW_SCOPE);
   res = parse_statement_list(p, TOK_CLOSE_CURLY);
+  p->depth--;
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
   return res;
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index c2a7325..215976a 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -173,6 +173,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   if (mkscope) emit_byte(p, OP_NEW_SCOPE);
   res = parse_statement_list(p, TOK_CLOSE_CURLY);
+  p->depth--;
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
   return res;
-- 
2.43.0


From cba588c9d9b4b0cb3634a106c426a9c4cf6adb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:20 +0000
Subject: [PATCH 19/81] fix: line number of the code on the last line

If the source does not end with a newline, errors on the last line of it were
reported on line 1.
---
 mjs.c          | 6 ++----
 src/mjs_util.c | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/mjs.c b/mjs.c
index 977a598..8948c4e 100644
--- a/mjs.c
+++ b/mjs.c
@@ -14327,12 +14327,10 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
       cs_varint_decode(p, ~0, &line_no, &llen);
       p += llen;
 
-      if (cur_offset >= (uint64_t) offset) {
-        ret = prev_line_no;
-        break;
-      }
+      if (cur_offset >= (uint64_t) offset) break;
       prev_line_no = line_no;
     }
+    ret = prev_line_no;
   }
   return ret;
 }
diff --git a/src/mjs_util.c b/src/mjs_util.c
index 6b6a668..c78d912 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -413,12 +413,10 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
       cs_varint_decode(p, ~0, &line_no, &llen);
       p += llen;
 
-      if (cur_offset >= (uint64_t) offset) {
-        ret = prev_line_no;
-        break;
-      }
+      if (cur_offset >= (uint64_t) offset) break;
       prev_line_no = line_no;
     }
+    ret = prev_line_no;
   }
   return ret;
 }
-- 
2.43.0


From 560b18f2648700445d22711edee8765a351eb74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:17 +0000
Subject: [PATCH 20/81] fix: keep line numbers in sync with the code being
 moved

When a jump offset takes more (or less) room than it was reserved, the code is
moved, but the offset-to-line map was not adjusted, so errors were attributed
to wrong lines in scripts with long blocks or functions.
---
 mjs.c           | 27 +++++++++++++++++++++++++++
 src/mjs_bcode.c | 27 +++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/mjs.c b/mjs.c
index 8948c4e..c454599 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7158,6 +7158,32 @@ MJS_PRIVATE void emit_str(struct pstate *pstate, const char *ptr, size_t len) {
   pstate->cur_idx += llen + len;
 }
 
+/*
+ * Adjust offset-to-line_no map after the code which starts at the given index
+ * has been moved by `diff` bytes.
+ */
+static void shift_lineno_map(struct pstate *p, size_t idx, int diff) {
+  struct mbuf map;
+  uint8_t *ptr = (uint8_t *) p->offset_lineno_map.buf;
+  uint8_t *end = ptr + p->offset_lineno_map.len;
+  mbuf_init(&map, 0);
+  while (ptr < end) {
+    size_t llen;
+    uint64_t v[2]; /* offset, line_no */
+    int i;
+    for (i = 0; i < 2; i++) {
+      uint8_t tmp[10];
+      cs_varint_decode(ptr, end - ptr, &v[i], &llen);
+      ptr += llen;
+      if (i == 0 && v[i] + p->start_bcode_idx >= idx) v[i] += diff;
+      llen = cs_varint_encode(v[i], tmp, sizeof(tmp));
+      mbuf_append(&map, tmp, llen);
+    }
+  }
+  mbuf_free(&p->offset_lineno_map);
+  p->offset_lineno_map = map;
+}
+
 MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
                                         size_t offset, size_t v) {
   int llen = (int) cs_varint_llen(v);
@@ -7175,6 +7201,7 @@ MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
           mjs->bcode_gen.len - offset - MJS_INIT_OFFSET_SIZE);
   mjs->bcode_gen.len += diff;
   cs_varint_encode(v, (uint8_t *) mjs->bcode_gen.buf + offset, llen);
+  if (diff != 0) shift_lineno_map(p, offset + MJS_INIT_OFFSET_SIZE, diff);
 
   /*
    * If current parsing index is after the offset at which we've inserted new
diff --git a/src/mjs_bcode.c b/src/mjs_bcode.c
index 835f6c6..fc709bf 100644
--- a/src/mjs_bcode.c
+++ b/src/mjs_bcode.c
@@ -60,6 +60,32 @@ MJS_PRIVATE void emit_str(struct pstate *pstate, const char *ptr, size_t len) {
   pstate->cur_idx += llen + len;
 }
 
+/*
+ * Adjust offset-to-line_no map after the code which starts at the given index
+ * has been moved by `diff` bytes.
+ */
+static void shift_lineno_map(struct pstate *p, size_t idx, int diff) {
+  struct mbuf map;
+  uint8_t *ptr = (uint8_t *) p->offset_lineno_map.buf;
+  uint8_t *end = ptr + p->offset_lineno_map.len;
+  mbuf_init(&map, 0);
+  while (ptr < end) {
+    size_t llen;
+    uint64_t v[2]; /* offset, line_no */
+    int i;
+    for (i = 0; i < 2; i++) {
+      uint8_t tmp[10];
+      cs_varint_decode(ptr, end - ptr, &v[i], &llen);
+      ptr += llen;
+      if (i == 0 && v[i] + p->start_bcode_idx >= idx) v[i] += diff;
+      llen = cs_varint_encode(v[i], tmp, sizeof(tmp));
+      mbuf_append(&map, tmp, llen);
+    }
+  }
+  mbuf_free(&p->offset_lineno_map);
+  p->offset_lineno_map = map;
+}
+
 MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
                                         size_t offset, size_t v) {
   int llen = (int) cs_varint_llen(v);
@@ -77,6 +103,7 @@ MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
           mjs->bcode_gen.len - offset - MJS_INIT_OFFSET_SIZE);
   mjs->bcode_gen.len += diff;
   cs_varint_encode(v, (uint8_t *) mjs->bcode_gen.buf + offset, llen);
+  if (diff != 0) shift_lineno_map(p, offset + MJS_INIT_OFFSET_SIZE, diff);
 
   /*
    * If current parsing index is after the offset at which we've inserted new
-- 
2.43.0


From afdf84530a62eb3886a37105e0ecdc60fb0ca792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:17 +0000
Subject: [PATCH 21/81] fix: gc() must not return a string which has just been
 relocated

---
 mjs.c             | 3 ++-
 src/mjs_builtin.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index c454599..1a74ee4 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7390,7 +7390,8 @@ static void mjs_chr(struct mjs *mjs) {
 static void mjs_do_gc(struct mjs *mjs) {
   mjs_val_t arg0 = mjs_arg(mjs, 0);
   mjs_gc(mjs, mjs_is_boolean(arg0) ? mjs_get_bool(mjs, arg0) : 0);
-  mjs_return(mjs, arg0);
+  /* gc relocates strings, so get the argument again */
+  mjs_return(mjs, mjs_arg(mjs, 0));
 }
 
 static void mjs_s2o(struct mjs *mjs) {
diff --git a/src/mjs_builtin.c b/src/mjs_builtin.c
index 6f51e08..1987d5e 100644
--- a/src/mjs_builtin.c
+++ b/src/mjs_builtin.c
@@ -118,7 +118,8 @@ static void mjs_chr(struct mjs *mjs) {
 static void mjs_do_gc(struct mjs *mjs) {
   mjs_val_t arg0 = mjs_arg(mjs, 0);
   mjs_gc(mjs, mjs_is_boolean(arg0) ? mjs_get_bool(mjs, arg0) : 0);
-  mjs_return(mjs, arg0);
+  /* gc relocates strings, so get the argument again */
+  mjs_return(mjs, mjs_arg(mjs, 0));
 }
 
 static void mjs_s2o(struct mjs *mjs) {
-- 
2.43.0


From 6683afa731c035bf0588ab294c52db8280c41ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:11 +0000
Subject: [PATCH 22/81] fix: restore `this` when a function fails

After an error in a function, `this` kept the value it had in that function
in the scripts evaluated later.
---
 mjs.c          | 9 +++++++++
 src/mjs_exec.c | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/mjs.c b/mjs.c
index 1a74ee4..781cae3 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8996,6 +8996,15 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
     }
     if (mjs->error != MJS_OK) {
+      /*
+       * If there are unfinished calls, then restore `this`, which is stored at
+       * the bottom of the outermost frame
+       */
+      if ((int) mjs->call_stack.len > call_stack_len) {
+        mjs->vals.this_obj =
+            *vptr(&mjs->call_stack, call_stack_len / sizeof(mjs_val_t));
+      }
+
       mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
 
       /* restore stack lenghts */
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 9268447..dce0c46 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -992,6 +992,15 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
     }
     if (mjs->error != MJS_OK) {
+      /*
+       * If there are unfinished calls, then restore `this`, which is stored at
+       * the bottom of the outermost frame
+       */
+      if ((int) mjs->call_stack.len > call_stack_len) {
+        mjs->vals.this_obj =
+            *vptr(&mjs->call_stack, call_stack_len / sizeof(mjs_val_t));
+      }
+
       mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
 
       /* restore stack lenghts */
-- 
2.43.0


From adcfee60f21ec7019a33702858576d93abda1e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:12 +0000
Subject: [PATCH 23/81] fix: mjs_disown() of a value when there are no owned
 values

In this case the pointer to the list is NULL, and the loop read invalid
memory.
---
 mjs.c          | 11 +++++------
 src/mjs_core.c | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/mjs.c b/mjs.c
index 781cae3..79c1486 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7819,13 +7819,12 @@ void mjs_own(struct mjs *mjs, mjs_val_t *v) {
 }
 
 int mjs_disown(struct mjs *mjs, mjs_val_t *v) {
-  mjs_val_t **vp = (mjs_val_t **) (mjs->owned_values.buf +
-                                   mjs->owned_values.len - sizeof(v));
+  mjs_val_t **vals = (mjs_val_t **) mjs->owned_values.buf;
+  int i, n = mjs->owned_values.len / sizeof(v);
 
-  for (; (char *) vp >= mjs->owned_values.buf; vp--) {
-    if (*vp == v) {
-      *vp = *(mjs_val_t **) (mjs->owned_values.buf + mjs->owned_values.len -
-                             sizeof(v));
+  for (i = n - 1; i >= 0; i--) {
+    if (vals[i] == v) {
+      vals[i] = vals[n - 1];
       mjs->owned_values.len -= sizeof(v);
       return 1;
     }
diff --git a/src/mjs_core.c b/src/mjs_core.c
index dbf8c49..c965803 100644
--- a/src/mjs_core.c
+++ b/src/mjs_core.c
@@ -286,13 +286,12 @@ void mjs_own(struct mjs *mjs, mjs_val_t *v) {
 }
 
 int mjs_disown(struct mjs *mjs, mjs_val_t *v) {
-  mjs_val_t **vp = (mjs_val_t **) (mjs->owned_values.buf +
-                                   mjs->owned_values.len - sizeof(v));
+  mjs_val_t **vals = (mjs_val_t **) mjs->owned_values.buf;
+  int i, n = mjs->owned_values.len / sizeof(v);
 
-  for (; (char *) vp >= mjs->owned_values.buf; vp--) {
-    if (*vp == v) {
-      *vp = *(mjs_val_t **) (mjs->owned_values.buf + mjs->owned_values.len -
-                             sizeof(v));
+  for (i = n - 1; i >= 0; i--) {
+    if (vals[i] == v) {
+      vals[i] = vals[n - 1];
       mjs->owned_values.len -= sizeof(v);
       return 1;
     }
-- 
2.43.0


From 820d92ac502613277a5160a29cc91267140e9e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:12 +0000
Subject: [PATCH 24/81] fix: memory leak when setting a numeric property of a
 non-object

---
 mjs.c            | 3 ++-
 src/mjs_object.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 79c1486..5640c2d 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11692,7 +11692,8 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
   if (p == NULL) {
     struct mjs_object *o;
     if (!mjs_is_object(obj)) {
-      return MJS_REFERENCE_ERROR;
+      rcode = MJS_REFERENCE_ERROR;
+      goto clean;
     }
 
     /*
diff --git a/src/mjs_object.c b/src/mjs_object.c
index 72db6e2..f41d4ed 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -183,7 +183,8 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
   if (p == NULL) {
     struct mjs_object *o;
     if (!mjs_is_object(obj)) {
-      return MJS_REFERENCE_ERROR;
+      rcode = MJS_REFERENCE_ERROR;
+      goto clean;
     }
 
     /*
-- 
2.43.0


From 7197642223966f8d2bdacad762dfcbb73b684679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:49 +0000
Subject: [PATCH 25/81] fix: copy foreign strings used as property names

Properties whose names are given by short foreign strings could not be found,
since short names are looked up by value of an inlined string; besides, the
foreign memory may change or go away later.
---
 mjs.c            | 6 ++++--
 src/mjs_object.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 5640c2d..48cb0f1 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11698,9 +11698,11 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
 
     /*
      * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * `name_v`, which will be a string. A foreign string is copied as well: the
+     * memory it refers to may change, and short names are looked up by value.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) ||
+        (name_v & MJS_TAG_MASK) == MJS_TAG_STRING_F) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
diff --git a/src/mjs_object.c b/src/mjs_object.c
index f41d4ed..a7f50ca 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -189,9 +189,11 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
 
     /*
      * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * `name_v`, which will be a string. A foreign string is copied as well: the
+     * memory it refers to may change, and short names are looked up by value.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) ||
+        (name_v & MJS_TAG_MASK) == MJS_TAG_STRING_F) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
-- 
2.43.0


From 724c5766143c814db8e8f8edbe13777c7d71d6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:24 +0000
Subject: [PATCH 26/81] fix: compare strings with embedded NUL characters by
 all bytes

---
 mjs.c            | 4 ++--
 src/mjs_object.c | 2 +-
 src/mjs_string.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 48cb0f1..95e5313 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11743,7 +11743,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
        prev = prop, prop = prop->next) {
     size_t n;
     const char *s = mjs_get_string(mjs, &prop->name, &n);
-    if (n == len && strncmp(s, name, len) == 0) {
+    if (n == len && memcmp(s, name, len) == 0) {
       if (prev) {
         prev->next = prop->next;
       } else {
@@ -13328,7 +13328,7 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
   if (n != len) {
     return n - len;
   }
-  return strncmp(s, b, len);
+  return memcmp(s, b, len);
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
diff --git a/src/mjs_object.c b/src/mjs_object.c
index a7f50ca..66111bf 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -234,7 +234,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
        prev = prop, prop = prop->next) {
     size_t n;
     const char *s = mjs_get_string(mjs, &prop->name, &n);
-    if (n == len && strncmp(s, name, len) == 0) {
+    if (n == len && memcmp(s, name, len) == 0) {
       if (prev) {
         prev->next = prop->next;
       } else {
diff --git a/src/mjs_string.c b/src/mjs_string.c
index b8f9ce1..bfd1af6 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -224,7 +224,7 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
   if (n != len) {
     return n - len;
   }
-  return strncmp(s, b, len);
+  return memcmp(s, b, len);
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
-- 
2.43.0


From 5cfbafc97b21a30e9329cb5fc033c1d94bbdefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:56 +0000
Subject: [PATCH 27/81] fix: property lookup must terminate if the prototype
 chain is circular

---
 mjs.c            | 17 ++++++++++++++---
 src/mjs_object.c | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index 95e5313..ca15ace 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11648,9 +11648,20 @@ mjs_val_t mjs_get_v(struct mjs *mjs, mjs_val_t obj, mjs_val_t name) {
 mjs_val_t mjs_get_v_proto(struct mjs *mjs, mjs_val_t obj, mjs_val_t key) {
   struct mjs_property *p;
   mjs_val_t pn = mjs_mk_string(mjs, MJS_PROTO_PROP_NAME, ~0, 1);
-  if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
-  if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) return MJS_UNDEFINED;
-  return mjs_get_v_proto(mjs, p->value, key);
+  mjs_val_t mark = obj; /* some previously visited object, to detect cycles */
+  unsigned int cnt = 0, limit = 1;
+  for (;;) {
+    if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
+    if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) break;
+    obj = p->value;
+    if (obj == mark) break;
+    if (++cnt == limit) {
+      mark = obj;
+      limit *= 2;
+      cnt = 0;
+    }
+  }
+  return MJS_UNDEFINED;
 }
 
 mjs_err_t mjs_set(struct mjs *mjs, mjs_val_t obj, const char *name,
diff --git a/src/mjs_object.c b/src/mjs_object.c
index 66111bf..3fa8eeb 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -139,9 +139,20 @@ mjs_val_t mjs_get_v(struct mjs *mjs, mjs_val_t obj, mjs_val_t name) {
 mjs_val_t mjs_get_v_proto(struct mjs *mjs, mjs_val_t obj, mjs_val_t key) {
   struct mjs_property *p;
   mjs_val_t pn = mjs_mk_string(mjs, MJS_PROTO_PROP_NAME, ~0, 1);
-  if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
-  if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) return MJS_UNDEFINED;
-  return mjs_get_v_proto(mjs, p->value, key);
+  mjs_val_t mark = obj; /* some previously visited object, to detect cycles */
+  unsigned int cnt = 0, limit = 1;
+  for (;;) {
+    if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
+    if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) break;
+    obj = p->value;
+    if (obj == mark) break;
+    if (++cnt == limit) {
+      mark = obj;
+      limit *= 2;
+      cnt = 0;
+    }
+  }
+  return MJS_UNDEFINED;
 }
 
 mjs_err_t mjs_set(struct mjs *mjs, mjs_val_t obj, const char *name,
-- 
2.43.0


From f2f61b815034e7ce5cf4daec33f322bebdb7fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:11 +0000
Subject: [PATCH 28/81] fix: builtin property names and string subscripts are
 compared in full

---
 mjs.c          | 23 +++++++++++++----------
 src/mjs_exec.c | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/mjs.c b/mjs.c
index ca15ace..0bd6715 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8450,24 +8450,28 @@ static void exec_expr(struct mjs *mjs, int op) {
   }
 }
 
+static int is_name(const char *name, size_t name_len, const char *s) {
+  return name_len == strlen(s) && memcmp(name, s, name_len) == 0;
+}
+
 static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
-  if (strcmp(name, "length") == 0) {
+  if (is_name(name, name_len, "length")) {
     size_t val_len;
     mjs_get_string(mjs, &val, &val_len);
     *res = mjs_mk_number(mjs, (double) val_len);
     return 1;
-  } else if (strcmp(name, "at") == 0 || strcmp(name, "charCodeAt") == 0) {
+  } else if (is_name(name, name_len, "at") || is_name(name, name_len, "charCodeAt")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_char_code_at);
     return 1;
-  } else if (strcmp(name, "indexOf") == 0) {
+  } else if (is_name(name, name_len, "indexOf")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_index_of);
     return 1;
-  } else if (strcmp(name, "slice") == 0) {
+  } else if (is_name(name, name_len, "slice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_slice);
     return 1;
   } else if (isnum) {
@@ -8477,7 +8481,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx >= 0 && idx < (int) val_len) {
+    if (idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
@@ -8490,18 +8494,17 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
 static int getprop_builtin_array(struct mjs *mjs, mjs_val_t val,
                                  const char *name, size_t name_len,
                                  mjs_val_t *res) {
-  if (strcmp(name, "splice") == 0) {
+  if (is_name(name, name_len, "splice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_splice);
     return 1;
-  } else if (strcmp(name, "push") == 0) {
+  } else if (is_name(name, name_len, "push")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_push_internal);
     return 1;
-  } else if (strcmp(name, "length") == 0) {
+  } else if (is_name(name, name_len, "length")) {
     *res = mjs_mk_number(mjs, mjs_array_length(mjs, val));
     return 1;
   }
 
-  (void) name_len;
   return 0;
 }
 
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index dce0c46..2ec1b9a 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -447,24 +447,28 @@ static void exec_expr(struct mjs *mjs, int op) {
   }
 }
 
+static int is_name(const char *name, size_t name_len, const char *s) {
+  return name_len == strlen(s) && memcmp(name, s, name_len) == 0;
+}
+
 static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
-  if (strcmp(name, "length") == 0) {
+  if (is_name(name, name_len, "length")) {
     size_t val_len;
     mjs_get_string(mjs, &val, &val_len);
     *res = mjs_mk_number(mjs, (double) val_len);
     return 1;
-  } else if (strcmp(name, "at") == 0 || strcmp(name, "charCodeAt") == 0) {
+  } else if (is_name(name, name_len, "at") || is_name(name, name_len, "charCodeAt")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_char_code_at);
     return 1;
-  } else if (strcmp(name, "indexOf") == 0) {
+  } else if (is_name(name, name_len, "indexOf")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_index_of);
     return 1;
-  } else if (strcmp(name, "slice") == 0) {
+  } else if (is_name(name, name_len, "slice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_slice);
     return 1;
   } else if (isnum) {
@@ -474,7 +478,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx >= 0 && idx < (int) val_len) {
+    if (idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
@@ -487,18 +491,17 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
 static int getprop_builtin_array(struct mjs *mjs, mjs_val_t val,
                                  const char *name, size_t name_len,
                                  mjs_val_t *res) {
-  if (strcmp(name, "splice") == 0) {
+  if (is_name(name, name_len, "splice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_splice);
     return 1;
-  } else if (strcmp(name, "push") == 0) {
+  } else if (is_name(name, name_len, "push")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_push_internal);
     return 1;
-  } else if (strcmp(name, "length") == 0) {
+  } else if (is_name(name, name_len, "length")) {
     *res = mjs_mk_number(mjs, mjs_array_length(mjs, val));
     return 1;
   }
 
-  (void) name_len;
   return 0;
 }
 
-- 
2.43.0


From 695c6f92d20e555c6bcc2745612898c8ff56f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:11 +0000
Subject: [PATCH 29/81] fix: NULL char pointer in a struct being converted to
 an object

---
 mjs.c            | 2 +-
 src/mjs_object.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 0bd6715..5fc962a 100644
--- a/mjs.c
+++ b/mjs.c
@@ -11862,7 +11862,7 @@ mjs_val_t mjs_struct_to_obj(struct mjs *mjs, const void *base,
       }
       case MJS_STRUCT_FIELD_TYPE_CHAR_PTR: {
         const char *value = *(const char **) ptr;
-        v = mjs_mk_string(mjs, value, ~0, 1);
+        v = (value != NULL) ? mjs_mk_string(mjs, value, ~0, 1) : MJS_NULL;
         break;
       }
       case MJS_STRUCT_FIELD_TYPE_VOID_PTR: {
diff --git a/src/mjs_object.c b/src/mjs_object.c
index 3fa8eeb..ead91cd 100644
--- a/src/mjs_object.c
+++ b/src/mjs_object.c
@@ -350,7 +350,7 @@ mjs_val_t mjs_struct_to_obj(struct mjs *mjs, const void *base,
       }
       case MJS_STRUCT_FIELD_TYPE_CHAR_PTR: {
         const char *value = *(const char **) ptr;
-        v = mjs_mk_string(mjs, value, ~0, 1);
+        v = (value != NULL) ? mjs_mk_string(mjs, value, ~0, 1) : MJS_NULL;
         break;
       }
       case MJS_STRUCT_FIELD_TYPE_VOID_PTR: {
-- 
2.43.0


From 21ca9b0316ca23ff71e49a68d9f3caa4a28c5ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:11 +0000
Subject: [PATCH 30/81] fix: file handle leak in cs_read_file() on a read error

---
 mjs.c                | 1 +
 src/common/cs_file.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 5fc962a..b66d2f2 100644
--- a/mjs.c
+++ b/mjs.c
@@ -3929,6 +3929,7 @@ char *cs_read_file(const char *path, size_t *size) {
       fseek(fp, 0, SEEK_SET); /* Some platforms might not have rewind(), Oo */
       if (fread(data, 1, *size, fp) != *size) {
         free(data);
+        fclose(fp);
         return NULL;
       }
       data[*size] = '\0';
diff --git a/src/common/cs_file.c b/src/common/cs_file.c
index 24d0ce9..f6ed275 100644
--- a/src/common/cs_file.c
+++ b/src/common/cs_file.c
@@ -41,6 +41,7 @@ char *cs_read_file(const char *path, size_t *size) {
       fseek(fp, 0, SEEK_SET); /* Some platforms might not have rewind(), Oo */
       if (fread(data, 1, *size, fp) != *size) {
         free(data);
+        fclose(fp);
         return NULL;
       }
       data[*size] = '\0';
-- 
2.43.0


From 9d35334343edd06f01d5ab93793905c566d10f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:32 +0000
Subject: [PATCH 31/81] fix: do not use .jsc file which can't be mapped or was
 not written properly

---
 mjs.c          | 21 +++++++++++++++------
 src/mjs_exec.c | 21 +++++++++++++++------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/mjs.c b/mjs.c
index b66d2f2..80cb403 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9096,12 +9096,21 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
         }
 
         if (read_mmapped) {
-          /* free RAM buffer with last bcode part */
-          free((void *) bp->data.p);
-
-          /* mmap .jsc file and set last bcode part buffer to it */
-          bp->data.p = cs_mmap_file(filename_jsc, &bp->data.len);
-          bp->in_rom = 1;
+          /*
+           * mmap .jsc file and set last bcode part buffer to it, unless the
+           * file can't be mapped or was not written properly
+           */
+          size_t size;
+          char *data = cs_mmap_file(filename_jsc, &size);
+          if (data != NULL && size == bp->data.len &&
+              memcmp(data, bp->data.p, size) == 0) {
+            /* free RAM buffer with last bcode part */
+            free((void *) bp->data.p);
+            bp->data.p = data;
+            bp->in_rom = 1;
+          } else if (data != NULL) {
+            munmap(data, size);
+          }
         }
       }
     }
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 2ec1b9a..e601ce2 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1092,12 +1092,21 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
         }
 
         if (read_mmapped) {
-          /* free RAM buffer with last bcode part */
-          free((void *) bp->data.p);
-
-          /* mmap .jsc file and set last bcode part buffer to it */
-          bp->data.p = cs_mmap_file(filename_jsc, &bp->data.len);
-          bp->in_rom = 1;
+          /*
+           * mmap .jsc file and set last bcode part buffer to it, unless the
+           * file can't be mapped or was not written properly
+           */
+          size_t size;
+          char *data = cs_mmap_file(filename_jsc, &size);
+          if (data != NULL && size == bp->data.len &&
+              memcmp(data, bp->data.p, size) == 0) {
+            /* free RAM buffer with last bcode part */
+            free((void *) bp->data.p);
+            bp->data.p = data;
+            bp->in_rom = 1;
+          } else if (data != NULL) {
+            munmap(data, size);
+          }
         }
       }
     }
-- 
2.43.0


From 931f3b670a3a6135d32a0063b36d82a7469ea4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:32 +0000
Subject: [PATCH 32/81] fix: file descriptor leak in cs_mmap_file()

---
 mjs.c                | 1 +
 src/common/cs_file.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 80cb403..bf0259f 100644
--- a/mjs.c
+++ b/mjs.c
@@ -3950,6 +3950,7 @@ char *cs_mmap_file(const char *path, size_t *size) {
   fstat(fd, &st);
   *size = (size_t) st.st_size;
   r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
+  close(fd);
   if (r == MAP_FAILED) return NULL;
   return r;
 }
diff --git a/src/common/cs_file.c b/src/common/cs_file.c
index f6ed275..9d2290f 100644
--- a/src/common/cs_file.c
+++ b/src/common/cs_file.c
@@ -62,6 +62,7 @@ char *cs_mmap_file(const char *path, size_t *size) {
   fstat(fd, &st);
   *size = (size_t) st.st_size;
   r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
+  close(fd);
   if (r == MAP_FAILED) return NULL;
   return r;
 }
-- 
2.43.0


From 37988849da2e32813d961dff0cf6aec6a110ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:32 +0000
Subject: [PATCH 33/81] fix: load() with a file name which contains NUL
 characters

---
 mjs.c             | 4 ++++
 src/mjs_builtin.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mjs.c b/mjs.c
index bf0259f..8c999a1 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7333,6 +7333,10 @@ static void mjs_load(struct mjs *mjs) {
     struct mjs_bcode_part *bp = NULL;
     mjs_err_t ret;
 
+    if (path == NULL) {
+      mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "invalid file name");
+      goto clean;
+    }
     if (mjs_is_object(arg1)) {
       custom_global = 1;
       push_mjs_val(&mjs->scopes, arg1);
diff --git a/src/mjs_builtin.c b/src/mjs_builtin.c
index 1987d5e..2638343 100644
--- a/src/mjs_builtin.c
+++ b/src/mjs_builtin.c
@@ -59,6 +59,10 @@ static void mjs_load(struct mjs *mjs) {
     struct mjs_bcode_part *bp = NULL;
     mjs_err_t ret;
 
+    if (path == NULL) {
+      mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "invalid file name");
+      goto clean;
+    }
     if (mjs_is_object(arg1)) {
       custom_global = 1;
       push_mjs_val(&mjs->scopes, arg1);
-- 
2.43.0


From d31e70165d1cbbb8e36c4a5b06ed08f8cdb14d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:57 +0000
Subject: [PATCH 34/81] fix: negative int arguments of ffi callbacks

---
 mjs.c         | 2 +-
 src/mjs_ffi.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 8c999a1..c3420a4 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9575,7 +9575,7 @@ static union ffi_cb_data_val ffi_cb_impl_generic(void *param,
         args[i] = cbargs->userdata;
         break;
       case MJS_FFI_CTYPE_INT:
-        args[i] = mjs_mk_number(mjs, (double) data->args[i].w);
+        args[i] = mjs_mk_number(mjs, (double) (int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_BOOL:
         args[i] = mjs_mk_boolean(mjs, !!data->args[i].w);
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 129bd1f..8f0c214 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -349,7 +349,7 @@ static union ffi_cb_data_val ffi_cb_impl_generic(void *param,
         args[i] = cbargs->userdata;
         break;
       case MJS_FFI_CTYPE_INT:
-        args[i] = mjs_mk_number(mjs, (double) data->args[i].w);
+        args[i] = mjs_mk_number(mjs, (double) (int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_BOOL:
         args[i] = mjs_mk_boolean(mjs, !!data->args[i].w);
-- 
2.43.0


From ea6070bad43472d8dc79c42e607d02abf6929adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:57 +0000
Subject: [PATCH 35/81] fix: do not call ffi-ed function if an int or bool
 argument is wrong

---
 mjs.c         | 2 ++
 src/mjs_ffi.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mjs.c b/mjs.c
index c3420a4..4d58cf6 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9993,6 +9993,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not an int (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
@@ -10024,6 +10025,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not a bool (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 8f0c214..0d97e79 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -767,6 +767,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not an int (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
@@ -798,6 +799,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not a bool (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
-- 
2.43.0


From 98470b4785ba508c385200cd89b6f8bcbba06d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:57 +0000
Subject: [PATCH 36/81] fix: report unsupported ffi signatures

---
 mjs.c         | 6 +++++-
 src/mjs_ffi.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 4d58cf6..643acea 100644
--- a/mjs.c
+++ b/mjs.c
@@ -10146,7 +10146,11 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
     abort();
   }
 
-  ffi_call(psig->fn, nargs, &res, args);
+  if (ffi_call(psig->fn, nargs, &res, args) != 0) {
+    ret = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, ret, "unsupported combination of argument types");
+    goto clean;
+  }
 
   switch (rtype) {
     case MJS_FFI_CTYPE_CHAR_PTR: {
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 0d97e79..7194478 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -920,7 +920,11 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
     abort();
   }
 
-  ffi_call(psig->fn, nargs, &res, args);
+  if (ffi_call(psig->fn, nargs, &res, args) != 0) {
+    ret = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, ret, "unsupported combination of argument types");
+    goto clean;
+  }
 
   switch (rtype) {
     case MJS_FFI_CTYPE_CHAR_PTR: {
-- 
2.43.0


From 12f7bccbe42d0d26bbe1ab139e7636b5b68d35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:58 +0000
Subject: [PATCH 37/81] fix: callbacks with a double and more than two
 arguments are not supported

---
 mjs.c         | 3 ++-
 src/mjs_ffi.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 643acea..0de5810 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9810,7 +9810,8 @@ static ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {
             }
             break;
           case 1:
-            /* 1 double argument */
+            /* 1 double argument; the only other one must be the userdata */
+            if (sig->args_cnt != 2) return NULL;
             switch (userdata_idx) {
               case 1:
                 return (ffi_fn_t *) ffi_cb_impl_wpd;
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 7194478..00f38ff 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -584,7 +584,8 @@ static ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {
             }
             break;
           case 1:
-            /* 1 double argument */
+            /* 1 double argument; the only other one must be the userdata */
+            if (sig->args_cnt != 2) return NULL;
             switch (userdata_idx) {
               case 1:
                 return (ffi_fn_t *) ffi_cb_impl_wpd;
-- 
2.43.0


From b6a5b0e57d2b877afbbabcddba77a2e7d9359037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:23 +0000
Subject: [PATCH 38/81] fix: do not use a callback with a wrong signature

---
 mjs.c         | 20 ++++++++++++++------
 src/mjs_ffi.c | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/mjs.c b/mjs.c
index 0de5810..82056a3 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9743,9 +9743,12 @@ static uintptr_t ffi_cb_impl_wdp(double d0, uintptr_t w1) {
 
 static struct mjs_ffi_cb_args **ffi_get_matching(struct mjs_ffi_cb_args **plist,
                                                  mjs_val_t func,
-                                                 mjs_val_t userdata) {
+                                                 mjs_val_t userdata,
+                                                 const mjs_ffi_sig_t *sig) {
   for (; *plist != NULL; plist = &((*plist)->next)) {
-    if ((*plist)->func == func && (*plist)->userdata == userdata) {
+    if ((*plist)->func == func && (*plist)->userdata == userdata &&
+        (sig == NULL || memcmp((*plist)->sig.val_types, sig->val_types,
+                               sizeof(sig->val_types)) == 0)) {
       break;
     }
   }
@@ -10112,7 +10115,8 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
      * Get cbargs: either reuse the existing one (if the matching item exists),
      * or create a new one.
      */
-    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata);
+    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata,
+                             psig->cb_sig);
     if (*pitem == NULL) {
       /* No matching cbargs item; we need to add a new one */
       cbargs = calloc(1, sizeof(*cbargs));
@@ -10208,14 +10212,18 @@ MJS_PRIVATE void mjs_ffi_cb_free(struct mjs *mjs) {
 
   if (mjs_is_function(func)) {
     struct mjs_ffi_cb_args **pitem =
-        ffi_get_matching(&mjs->ffi_cb_args, func, userdata);
-    if (*pitem != NULL) {
-      /* Found matching item: remove it from the linked list, and free */
+        ffi_get_matching(&mjs->ffi_cb_args, func, userdata, NULL);
+    while (*pitem != NULL) {
+      /*
+       * Found matching item (there might be several of them, with different
+       * signatures): remove it from the linked list, and free
+       */
       struct mjs_ffi_cb_args *cbargs = *pitem;
       *pitem = cbargs->next;
       mjs_ffi_sig_free(&cbargs->sig);
       free(cbargs);
       ret = mjs_mk_number(mjs, 1);
+      pitem = ffi_get_matching(pitem, func, userdata, NULL);
     }
   } else {
     mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "missing argument 'func'");
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 00f38ff..117713b 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -517,9 +517,12 @@ static uintptr_t ffi_cb_impl_wdp(double d0, uintptr_t w1) {
 
 static struct mjs_ffi_cb_args **ffi_get_matching(struct mjs_ffi_cb_args **plist,
                                                  mjs_val_t func,
-                                                 mjs_val_t userdata) {
+                                                 mjs_val_t userdata,
+                                                 const mjs_ffi_sig_t *sig) {
   for (; *plist != NULL; plist = &((*plist)->next)) {
-    if ((*plist)->func == func && (*plist)->userdata == userdata) {
+    if ((*plist)->func == func && (*plist)->userdata == userdata &&
+        (sig == NULL || memcmp((*plist)->sig.val_types, sig->val_types,
+                               sizeof(sig->val_types)) == 0)) {
       break;
     }
   }
@@ -886,7 +889,8 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
      * Get cbargs: either reuse the existing one (if the matching item exists),
      * or create a new one.
      */
-    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata);
+    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata,
+                             psig->cb_sig);
     if (*pitem == NULL) {
       /* No matching cbargs item; we need to add a new one */
       cbargs = calloc(1, sizeof(*cbargs));
@@ -982,14 +986,18 @@ MJS_PRIVATE void mjs_ffi_cb_free(struct mjs *mjs) {
 
   if (mjs_is_function(func)) {
     struct mjs_ffi_cb_args **pitem =
-        ffi_get_matching(&mjs->ffi_cb_args, func, userdata);
-    if (*pitem != NULL) {
-      /* Found matching item: remove it from the linked list, and free */
+        ffi_get_matching(&mjs->ffi_cb_args, func, userdata, NULL);
+    while (*pitem != NULL) {
+      /*
+       * Found matching item (there might be several of them, with different
+       * signatures): remove it from the linked list, and free
+       */
       struct mjs_ffi_cb_args *cbargs = *pitem;
       *pitem = cbargs->next;
       mjs_ffi_sig_free(&cbargs->sig);
       free(cbargs);
       ret = mjs_mk_number(mjs, 1);
+      pitem = ffi_get_matching(pitem, func, userdata, NULL);
     }
   } else {
     mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "missing argument 'func'");
-- 
2.43.0


From 788428072e818541401a1571f550e20c0d3ddaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:26 +0000
Subject: [PATCH 39/81] verification hook: mjs_verif_point(), guarded by
 MJS_VERIF

---
 mjs.c                 | 3 +++
 mjs.h                 | 8 ++++++++
 src/mjs_exec.c        | 3 +++
 src/mjs_exec_public.h | 8 ++++++++
 4 files changed, 22 insertions(+)

diff --git a/mjs.c b/mjs.c
index 82056a3..38f0ece 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9003,6 +9003,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         i = bp.data.len;
         break;
     }
+#ifdef MJS_VERIF
+    if (mjs->error == MJS_OK) mjs_verif_point(mjs);
+#endif
     if (mjs->error != MJS_OK) {
       /*
        * If there are unfinished calls, then restore `this`, which is stored at
diff --git a/mjs.h b/mjs.h
index 80593fd..c13b936 100644
--- a/mjs.h
+++ b/mjs.h
@@ -622,6 +622,14 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                    mjs_val_t this_val, int nargs, ...);
 mjs_val_t mjs_get_this(struct mjs *mjs);
 
+#ifdef MJS_VERIF
+/*
+ * Verification hook, provided by a test harness: called after each successfully
+ * executed opcode; might call `mjs_gc()` or `mjs_set_errorf()`.
+ */
+void mjs_verif_point(struct mjs *mjs);
+#endif
+
 #if defined(__cplusplus)
 }
 #endif /* __cplusplus */
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index e601ce2..648470f 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -994,6 +994,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         i = bp.data.len;
         break;
     }
+#ifdef MJS_VERIF
+    if (mjs->error == MJS_OK) mjs_verif_point(mjs);
+#endif
     if (mjs->error != MJS_OK) {
       /*
        * If there are unfinished calls, then restore `this`, which is stored at
diff --git a/src/mjs_exec_public.h b/src/mjs_exec_public.h
index 559fa34..df4f7f6 100644
--- a/src/mjs_exec_public.h
+++ b/src/mjs_exec_public.h
@@ -23,6 +23,14 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                    mjs_val_t this_val, int nargs, ...);
 mjs_val_t mjs_get_this(struct mjs *mjs);
 
+#ifdef MJS_VERIF
+/*
+ * Verification hook, provided by a test harness: called after each successfully
+ * executed opcode; might call `mjs_gc()` or `mjs_set_errorf()`.
+ */
+void mjs_verif_point(struct mjs *mjs);
+#endif
+
 #if defined(__cplusplus)
 }
 #endif /* __cplusplus */
-- 
2.43.0


From 9ac72ff2fe03f6ba4f0bac0f354029dd556176eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:21 +0000
Subject: [PATCH 40/81] fix: compound assignment, increment and decrement of
 array elements

---
 mjs.c          | 18 +++++++++++++-----
 src/mjs_exec.c | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/mjs.c b/mjs.c
index 38f0ece..7397bc1 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8225,11 +8225,19 @@ static mjs_val_t do_op(struct mjs *mjs, mjs_val_t a, mjs_val_t b, int op) {
   return ret;
 }
 
+/*
+ * Returns whether the given property can be an operand of a compound
+ * assignment, increment or decrement
+ */
+static int is_assignable(mjs_val_t obj, mjs_val_t key) {
+  return mjs_is_object(obj) && (mjs_is_string(key) || mjs_is_number(key));
+}
+
 static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t val = mjs_pop(mjs);
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
-  if (mjs_is_object(obj) && mjs_is_string(key)) {
+  if (is_assignable(obj, key)) {
     mjs_val_t v = mjs_get_v(mjs, obj, key);
     v = do_op(mjs, v, val, op);
     mjs_set_v(mjs, obj, key, v);
@@ -8378,7 +8386,7 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_POSTFIX_PLUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
+      if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
         mjs_set_v(mjs, obj, key, v1);
@@ -8391,7 +8399,7 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_POSTFIX_MINUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
+      if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
         mjs_set_v(mjs, obj, key, v1);
@@ -8404,7 +8412,7 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_MINUS_MINUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
+      if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
         mjs_set_v(mjs, obj, key, v);
@@ -8417,7 +8425,7 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_PLUS_PLUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
+      if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
         mjs_set_v(mjs, obj, key, v);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 648470f..fe19f37 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -216,11 +216,19 @@ static mjs_val_t do_op(struct mjs *mjs, mjs_val_t a, mjs_val_t b, int op) {
   return ret;
 }
 
+/*
+ * Returns whether the given property can be an operand of a compound
+ * assignment, increment or decrement
+ */
+static int is_assignable(mjs_val_t obj, mjs_val_t key) {
+  return mjs_is_object(obj) && (mjs_is_string(key) || mjs_is_number(key));
+}
+
 static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t val = mjs_pop(mjs);
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
-  if (mjs_is_object(obj) && mjs_is_string(key)) {
+  if (is_assignable(obj, key)) {
     mjs_val_t v = mjs_get_v(mjs, obj, key);
     v = do_op(mjs, v, val, op);
     mjs_set_v(mjs, obj, key, v);
@@ -369,7 +377,7 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_POSTFIX_PLUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
+      if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
         mjs_set_v(mjs, obj, key, v1);
@@ -382,7 +390,7 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_POSTFIX_MINUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
+      if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
         mjs_set_v(mjs, obj, key, v1);
@@ -395,7 +403,7 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_MINUS_MINUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
+      if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
         mjs_set_v(mjs, obj, key, v);
@@ -408,7 +416,7 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_PLUS_PLUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
+      if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
         mjs_set_v(mjs, obj, key, v);
-- 
2.43.0


From eec0121fac5c04d840a0ee3cc748bc39c0273e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:21 +0000
Subject: [PATCH 41/81] fix: compound assignment, increment and decrement of
 inherited properties

---
 mjs.c          | 10 +++++-----
 src/mjs_exec.c | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mjs.c b/mjs.c
index 7397bc1..3a03883 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8238,7 +8238,7 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
   if (is_assignable(obj, key)) {
-    mjs_val_t v = mjs_get_v(mjs, obj, key);
+    mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
     v = do_op(mjs, v, val, op);
     mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
@@ -8387,7 +8387,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
       if (is_assignable(obj, key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
         mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
@@ -8400,7 +8400,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
       if (is_assignable(obj, key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
         mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
@@ -8413,7 +8413,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
       if (is_assignable(obj, key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
         mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
@@ -8426,7 +8426,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
       if (is_assignable(obj, key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
         mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index fe19f37..84f7891 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -229,7 +229,7 @@ static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
   if (is_assignable(obj, key)) {
-    mjs_val_t v = mjs_get_v(mjs, obj, key);
+    mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
     v = do_op(mjs, v, val, op);
     mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
@@ -378,7 +378,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
       if (is_assignable(obj, key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
         mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
@@ -391,7 +391,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
       if (is_assignable(obj, key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
         mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
@@ -404,7 +404,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
       if (is_assignable(obj, key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
         mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
@@ -417,7 +417,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
       if (is_assignable(obj, key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
         mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
-- 
2.43.0


From ad862211be4a4e25318095cb24e7842ee7489797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:26 +0000
Subject: [PATCH 42/81] fix: report an unterminated loop body as a syntax error

---
 mjs.c            | 6 +++---
 src/mjs_parser.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index 3a03883..590100c 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12561,7 +12561,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   // Parse loop body
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
@@ -12688,7 +12688,7 @@ static mjs_err_t parse_for(struct pstate *p) {
   /* Parse loop body */
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
@@ -12764,7 +12764,7 @@ static mjs_err_t parse_while(struct pstate *p) {
   // Parse loop body
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 215976a..71bf836 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -598,7 +598,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   // Parse loop body
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
@@ -725,7 +725,7 @@ static mjs_err_t parse_for(struct pstate *p) {
   /* Parse loop body */
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
@@ -801,7 +801,7 @@ static mjs_err_t parse_while(struct pstate *p) {
   // Parse loop body
   if (p->tok.tok == TOK_OPEN_CURLY) {
     if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
+    EXPECT(p, TOK_CLOSE_CURLY);
   } else {
     if ((res = parse_statement(p)) != MJS_OK) return res;
   }
-- 
2.43.0


From 8ccb528976dbe8ebeb2b82bb0c7161be9c37ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:26 +0000
Subject: [PATCH 43/81] fix: report syntax errors in return and for-in
 expressions

---
 mjs.c            | 33 ++++++++-------------------------
 src/mjs_parser.c | 33 ++++++++-------------------------
 2 files changed, 16 insertions(+), 50 deletions(-)

diff --git a/mjs.c b/mjs.c
index 590100c..b061660 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12541,7 +12541,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   /* Put object to the stack */
   EXPECT(p, TOK_IDENT);
   EXPECT(p, TOK_KEYWORD_IN);
-  parse_expr(p);
+  if ((res = parse_expr(p)) != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_PAREN);
 
   emit_byte(p, OP_PUSH_UNDEF); /* Push iterator */
@@ -12837,36 +12837,19 @@ static mjs_err_t parse_if(struct pstate *p) {
   return res;
 }
 
-static void pstate_revert(struct pstate *p, struct pstate *old,
-                          int old_bcode_gen_len) {
-  p->pos = old->pos;
-  p->line_no = old->line_no;
-  p->last_emitted_line_no = old->last_emitted_line_no;
-  p->offset_lineno_map.len = old->offset_lineno_map.len;
-  p->prev_tok = old->prev_tok;
-  p->tok = old->tok;
-  p->mjs->bcode_gen.len = old_bcode_gen_len;
-  p->cur_idx = old->cur_idx;
-  p->depth = old->depth;
-}
-
 static mjs_err_t parse_return(struct pstate *p) {
-  int old_bcode_gen_len;
-  struct pstate p_saved;
+  mjs_err_t res = MJS_OK;
   EXPECT(p, TOK_KEYWORD_RETURN);
-  p_saved = *p;
-  old_bcode_gen_len = p->mjs->bcode_gen.len;
-  if (parse_expr(p) != MJS_OK) {
-    /*
-     * Failed to parse an expression to return, so return the parser to the
-     * prior state and push undefined.
-     */
-    pstate_revert(p, &p_saved, old_bcode_gen_len);
+  if (p->tok.tok == TOK_SEMICOLON || p->tok.tok == TOK_CLOSE_CURLY ||
+      p->tok.tok == TOK_EOF) {
+    /* There is no expression to return, so push undefined. */
     emit_byte(p, OP_PUSH_UNDEF);
+  } else if ((res = parse_expr(p)) != MJS_OK) {
+    return res;
   }
   emit_byte(p, OP_SETRETVAL);
   emit_byte(p, OP_RETURN);
-  return MJS_OK;
+  return res;
 }
 
 static mjs_err_t parse_statement(struct pstate *p) {
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 71bf836..0b06b95 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -578,7 +578,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   /* Put object to the stack */
   EXPECT(p, TOK_IDENT);
   EXPECT(p, TOK_KEYWORD_IN);
-  parse_expr(p);
+  if ((res = parse_expr(p)) != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_PAREN);
 
   emit_byte(p, OP_PUSH_UNDEF); /* Push iterator */
@@ -874,36 +874,19 @@ static mjs_err_t parse_if(struct pstate *p) {
   return res;
 }
 
-static void pstate_revert(struct pstate *p, struct pstate *old,
-                          int old_bcode_gen_len) {
-  p->pos = old->pos;
-  p->line_no = old->line_no;
-  p->last_emitted_line_no = old->last_emitted_line_no;
-  p->offset_lineno_map.len = old->offset_lineno_map.len;
-  p->prev_tok = old->prev_tok;
-  p->tok = old->tok;
-  p->mjs->bcode_gen.len = old_bcode_gen_len;
-  p->cur_idx = old->cur_idx;
-  p->depth = old->depth;
-}
-
 static mjs_err_t parse_return(struct pstate *p) {
-  int old_bcode_gen_len;
-  struct pstate p_saved;
+  mjs_err_t res = MJS_OK;
   EXPECT(p, TOK_KEYWORD_RETURN);
-  p_saved = *p;
-  old_bcode_gen_len = p->mjs->bcode_gen.len;
-  if (parse_expr(p) != MJS_OK) {
-    /*
-     * Failed to parse an expression to return, so return the parser to the
-     * prior state and push undefined.
-     */
-    pstate_revert(p, &p_saved, old_bcode_gen_len);
+  if (p->tok.tok == TOK_SEMICOLON || p->tok.tok == TOK_CLOSE_CURLY ||
+      p->tok.tok == TOK_EOF) {
+    /* There is no expression to return, so push undefined. */
     emit_byte(p, OP_PUSH_UNDEF);
+  } else if ((res = parse_expr(p)) != MJS_OK) {
+    return res;
   }
   emit_byte(p, OP_SETRETVAL);
   emit_byte(p, OP_RETURN);
-  return MJS_OK;
+  return res;
 }
 
 static mjs_err_t parse_statement(struct pstate *p) {
-- 
2.43.0


From a23296b239a2a72e2335ac0af34b1305f1904550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:25 +0000
Subject: [PATCH 44/81] fix: return of an object literal as the body of an if
 statement

---
 mjs.c            | 2 +-
 src/mjs_parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index b061660..11afee9 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12513,7 +12513,7 @@ static mjs_err_t parse_let(struct pstate *p) {
 }
 
 static mjs_err_t parse_block_or_stmt(struct pstate *p, int cs) {
-  if (ptest(p) == TOK_OPEN_CURLY) {
+  if (p->tok.tok == TOK_OPEN_CURLY) {
     return parse_block(p, cs);
   } else {
     return parse_statement(p);
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 0b06b95..24d0de8 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -550,7 +550,7 @@ static mjs_err_t parse_let(struct pstate *p) {
 }
 
 static mjs_err_t parse_block_or_stmt(struct pstate *p, int cs) {
-  if (ptest(p) == TOK_OPEN_CURLY) {
+  if (p->tok.tok == TOK_OPEN_CURLY) {
     return parse_block(p, cs);
   } else {
     return parse_statement(p);
-- 
2.43.0


From 2b7a56f17417d70cfbe7abe662aaebb999e62c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:26 +0000
Subject: [PATCH 45/81] fix: a function body must start with a brace

---
 mjs.c            | 1 +
 src/mjs_parser.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index 11afee9..6417e28 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12183,6 +12183,7 @@ static mjs_err_t parse_function(struct pstate *p) {
     pnext1(p);
   }
   EXPECT(p, TOK_CLOSE_PAREN);
+  if (p->tok.tok != TOK_OPEN_CURLY) SYNTAX_ERROR(p);
   if ((res = parse_block(p, 0)) != MJS_OK) return res;
   emit_byte(p, OP_RETURN);
   prologue += mjs_bcode_insert_offset(p, p->mjs, off,
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 24d0de8..ec8d51e 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -220,6 +220,7 @@ static mjs_err_t parse_function(struct pstate *p) {
     pnext1(p);
   }
   EXPECT(p, TOK_CLOSE_PAREN);
+  if (p->tok.tok != TOK_OPEN_CURLY) SYNTAX_ERROR(p);
   if ((res = parse_block(p, 0)) != MJS_OK) return res;
   emit_byte(p, OP_RETURN);
   prologue += mjs_bcode_insert_offset(p, p->mjs, off,
-- 
2.43.0


From 2dcf93fe3b8a9002f1d81b8d6be4f21849629a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:55 +0000
Subject: [PATCH 46/81] fix: limit the depth of every recursion in the parser

---
 mjs.c            | 46 +++++++++++++++++++++++++++++++++++++++++-----
 src/mjs_parser.c | 46 +++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 82 insertions(+), 10 deletions(-)

diff --git a/mjs.c b/mjs.c
index 6417e28..6fa2510 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12036,6 +12036,20 @@ static void emit_op(struct pstate *pstate, int tok) {
 #define BINOP_STACK_FRAME_SIZE 16
 #define STACK_LIMIT 8192
 
+/* Guards the recursion in the parser; every successful enter needs a leave */
+static mjs_err_t enter(struct pstate *p) {
+  if (p->depth >= (STACK_LIMIT / BINOP_STACK_FRAME_SIZE)) {
+    mjs_set_errorf(p->mjs, MJS_SYNTAX_ERROR, "parser stack overflow");
+    return MJS_SYNTAX_ERROR;
+  }
+  p->depth++;
+  return MJS_OK;
+}
+
+static void leave(struct pstate *p) {
+  p->depth--;
+}
+
 // Intentionally left as macro rather than a function, to let the
 // compiler to inline calls and mimimize runtime stack usage.
 #define PARSE_LTR_BINOP(p, f1, f2, ops, prev_op)                               \
@@ -12085,7 +12099,10 @@ static void emit_op(struct pstate *pstate, int tok) {
     if (findtok(ops, p->tok.tok) != TOK_EOF) {          \
       int op = p->tok.tok;                              \
       pnext1(p);                                        \
-      if ((res = f2(p, TOK_EOF)) != MJS_OK) return res; \
+      if ((res = enter(p)) != MJS_OK) return res;       \
+      res = f2(p, TOK_EOF);                             \
+      leave(p);                                         \
+      if (res != MJS_OK) return res;                    \
       emit_op(p, op);                                   \
     }                                                   \
     return res;                                         \
@@ -12347,7 +12364,10 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
-      if ((res = parse_call_dot_mem(p, TOK_DOT)) != MJS_OK) return res;
+      if ((res = enter(p)) != MJS_OK) return res;
+      res = parse_call_dot_mem(p, TOK_DOT);
+      leave(p);
+      if (res != MJS_OK) return res;
     }
   }
   (void) prev_op;
@@ -12373,7 +12393,9 @@ static mjs_err_t parse_unary(struct pstate *p, int prev_op) {
     pnext1(p);
   }
   if (findtok(s_unary_ops, p->tok.tok) != TOK_EOF) {
+    if ((res = enter(p)) != MJS_OK) return res;
     res = parse_unary(p, prev_op);
+    leave(p);
   } else {
     res = parse_postfix(p, prev_op);
   }
@@ -12447,7 +12469,10 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     off_if = p->cur_idx;
     emit_init_offset(p);
 
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    if ((res = enter(p)) != MJS_OK) return res;
+    res = parse_ternary(p, TOK_EOF);
+    leave(p);
+    if (res != MJS_OK) return res;
 
     emit_byte(p, OP_JMP);
     off_else = p->cur_idx;
@@ -12457,7 +12482,10 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     emit_byte(p, OP_DROP);
 
     EXPECT(p, TOK_COLON);
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    if ((res = enter(p)) != MJS_OK) return res;
+    res = parse_ternary(p, TOK_EOF);
+    leave(p);
+    if (res != MJS_OK) return res;
 
     /*
      * NOTE: if inserting offset causes the code to move, off_endif needs to be
@@ -12853,7 +12881,7 @@ static mjs_err_t parse_return(struct pstate *p) {
   return res;
 }
 
-static mjs_err_t parse_statement(struct pstate *p) {
+static mjs_err_t parse_single_statement(struct pstate *p) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   switch (p->tok.tok) {
     case TOK_SEMICOLON:
@@ -12909,6 +12937,14 @@ static mjs_err_t parse_statement(struct pstate *p) {
   }
 }
 
+static mjs_err_t parse_statement(struct pstate *p) {
+  mjs_err_t res = enter(p);
+  if (res != MJS_OK) return res;
+  res = parse_single_statement(p);
+  leave(p);
+  return res;
+}
+
 MJS_PRIVATE mjs_err_t
 mjs_parse(const char *path, const char *buf, struct mjs *mjs) {
   mjs_err_t res = MJS_OK;
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index ec8d51e..762525a 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -73,6 +73,20 @@ static void emit_op(struct pstate *pstate, int tok) {
 #define BINOP_STACK_FRAME_SIZE 16
 #define STACK_LIMIT 8192
 
+/* Guards the recursion in the parser; every successful enter needs a leave */
+static mjs_err_t enter(struct pstate *p) {
+  if (p->depth >= (STACK_LIMIT / BINOP_STACK_FRAME_SIZE)) {
+    mjs_set_errorf(p->mjs, MJS_SYNTAX_ERROR, "parser stack overflow");
+    return MJS_SYNTAX_ERROR;
+  }
+  p->depth++;
+  return MJS_OK;
+}
+
+static void leave(struct pstate *p) {
+  p->depth--;
+}
+
 // Intentionally left as macro rather than a function, to let the
 // compiler to inline calls and mimimize runtime stack usage.
 #define PARSE_LTR_BINOP(p, f1, f2, ops, prev_op)                               \
@@ -122,7 +136,10 @@ static void emit_op(struct pstate *pstate, int tok) {
     if (findtok(ops, p->tok.tok) != TOK_EOF) {          \
       int op = p->tok.tok;                              \
       pnext1(p);                                        \
-      if ((res = f2(p, TOK_EOF)) != MJS_OK) return res; \
+      if ((res = enter(p)) != MJS_OK) return res;       \
+      res = f2(p, TOK_EOF);                             \
+      leave(p);                                         \
+      if (res != MJS_OK) return res;                    \
       emit_op(p, op);                                   \
     }                                                   \
     return res;                                         \
@@ -384,7 +401,10 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
-      if ((res = parse_call_dot_mem(p, TOK_DOT)) != MJS_OK) return res;
+      if ((res = enter(p)) != MJS_OK) return res;
+      res = parse_call_dot_mem(p, TOK_DOT);
+      leave(p);
+      if (res != MJS_OK) return res;
     }
   }
   (void) prev_op;
@@ -410,7 +430,9 @@ static mjs_err_t parse_unary(struct pstate *p, int prev_op) {
     pnext1(p);
   }
   if (findtok(s_unary_ops, p->tok.tok) != TOK_EOF) {
+    if ((res = enter(p)) != MJS_OK) return res;
     res = parse_unary(p, prev_op);
+    leave(p);
   } else {
     res = parse_postfix(p, prev_op);
   }
@@ -484,7 +506,10 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     off_if = p->cur_idx;
     emit_init_offset(p);
 
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    if ((res = enter(p)) != MJS_OK) return res;
+    res = parse_ternary(p, TOK_EOF);
+    leave(p);
+    if (res != MJS_OK) return res;
 
     emit_byte(p, OP_JMP);
     off_else = p->cur_idx;
@@ -494,7 +519,10 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     emit_byte(p, OP_DROP);
 
     EXPECT(p, TOK_COLON);
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    if ((res = enter(p)) != MJS_OK) return res;
+    res = parse_ternary(p, TOK_EOF);
+    leave(p);
+    if (res != MJS_OK) return res;
 
     /*
      * NOTE: if inserting offset causes the code to move, off_endif needs to be
@@ -890,7 +918,7 @@ static mjs_err_t parse_return(struct pstate *p) {
   return res;
 }
 
-static mjs_err_t parse_statement(struct pstate *p) {
+static mjs_err_t parse_single_statement(struct pstate *p) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   switch (p->tok.tok) {
     case TOK_SEMICOLON:
@@ -946,6 +974,14 @@ static mjs_err_t parse_statement(struct pstate *p) {
   }
 }
 
+static mjs_err_t parse_statement(struct pstate *p) {
+  mjs_err_t res = enter(p);
+  if (res != MJS_OK) return res;
+  res = parse_single_statement(p);
+  leave(p);
+  return res;
+}
+
 MJS_PRIVATE mjs_err_t
 mjs_parse(const char *path, const char *buf, struct mjs *mjs) {
   mjs_err_t res = MJS_OK;
-- 
2.43.0


From 9de4c0bd8c39f1a86547f3b33d089d8ca332046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:37 +0000
Subject: [PATCH 47/81] fix: else after an unbraced statement which ends with a
 semicolon

---
 mjs.c            | 8 ++++++++
 src/mjs_parser.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/mjs.c b/mjs.c
index 6fa2510..40d6ac4 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12818,6 +12818,7 @@ static mjs_err_t parse_while(struct pstate *p) {
 
 static mjs_err_t parse_if(struct pstate *p) {
   size_t off_if, off_endif;
+  int is_block;
   mjs_err_t res = MJS_OK;
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   EXPECT(p, TOK_KEYWORD_IF);
@@ -12829,8 +12830,15 @@ static mjs_err_t parse_if(struct pstate *p) {
   emit_init_offset(p);
 
   EXPECT(p, TOK_CLOSE_PAREN);
+  is_block = (p->tok.tok == TOK_OPEN_CURLY);
   if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
 
+  /* A semicolon which ends the statement may be followed by `else` */
+  if (!is_block && p->tok.tok == TOK_SEMICOLON &&
+      ptest(p) == TOK_KEYWORD_ELSE) {
+    pnext1(p);
+  }
+
   if (p->tok.tok == TOK_KEYWORD_ELSE) {
     /*
      * Else clause is present, so, if the condition is not true, the jump
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index 762525a..bb0cc90 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -855,6 +855,7 @@ static mjs_err_t parse_while(struct pstate *p) {
 
 static mjs_err_t parse_if(struct pstate *p) {
   size_t off_if, off_endif;
+  int is_block;
   mjs_err_t res = MJS_OK;
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   EXPECT(p, TOK_KEYWORD_IF);
@@ -866,8 +867,15 @@ static mjs_err_t parse_if(struct pstate *p) {
   emit_init_offset(p);
 
   EXPECT(p, TOK_CLOSE_PAREN);
+  is_block = (p->tok.tok == TOK_OPEN_CURLY);
   if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
 
+  /* A semicolon which ends the statement may be followed by `else` */
+  if (!is_block && p->tok.tok == TOK_SEMICOLON &&
+      ptest(p) == TOK_KEYWORD_ELSE) {
+    pnext1(p);
+  }
+
   if (p->tok.tok == TOK_KEYWORD_ELSE) {
     /*
      * Else clause is present, so, if the condition is not true, the jump
-- 
2.43.0


From f66fa3834b1764143c1939fad7660e74f3e223ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:04 +0000
Subject: [PATCH 48/81] fix: every iteration of a loop has a block scope of its
 own

---
 mjs.c            | 21 +++------------------
 src/mjs_parser.c | 21 +++------------------
 2 files changed, 6 insertions(+), 36 deletions(-)

diff --git a/mjs.c b/mjs.c
index 40d6ac4..09c75d8 100644
--- a/mjs.c
+++ b/mjs.c
@@ -12588,12 +12588,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   emit_init_offset(p);
 
   // Parse loop body
-  if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    EXPECT(p, TOK_CLOSE_CURLY);
-  } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
-  }
+  if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
 
@@ -12715,12 +12710,7 @@ static mjs_err_t parse_for(struct pstate *p) {
   emit_init_offset(p);
 
   /* Parse loop body */
-  if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    EXPECT(p, TOK_CLOSE_CURLY);
-  } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
-  }
+  if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
 
@@ -12791,12 +12781,7 @@ static mjs_err_t parse_while(struct pstate *p) {
   emit_init_offset(p);
 
   // Parse loop body
-  if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    EXPECT(p, TOK_CLOSE_CURLY);
-  } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
-  }
+  if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
 
diff --git a/src/mjs_parser.c b/src/mjs_parser.c
index bb0cc90..4ab3970 100644
--- a/src/mjs_parser.c
+++ b/src/mjs_parser.c
@@ -625,12 +625,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   emit_init_offset(p);
 
   // Parse loop body
-  if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    EXPECT(p, TOK_CLOSE_CURLY);
-  } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
-  }
+  if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
 
@@ -752,12 +747,7 @@ static mjs_err_t parse_for(struct pstate *p) {
   emit_init_offset(p);
 
   /* Parse loop body */
-  if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    EXPECT(p, TOK_CLOSE_CURLY);
-  } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
-  }
+  if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
 
@@ -828,12 +818,7 @@ static mjs_err_t parse_while(struct pstate *p) {
   emit_init_offset(p);
 
   // Parse loop body
-  if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    EXPECT(p, TOK_CLOSE_CURLY);
-  } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
-  }
+  if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
 
-- 
2.43.0


From df00023e739b4ea718ef58ba8ea1607a4d50e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:15 +0000
Subject: [PATCH 49/81] fix: don't call an ffi function with a wrong double or
 float argument

---
 mjs.c         | 24 +++++++++++++++++++-----
 src/mjs_ffi.c | 24 +++++++++++++++++++-----
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/mjs.c b/mjs.c
index 09c75d8..48edd51 100644
--- a/mjs.c
+++ b/mjs.c
@@ -10045,11 +10045,25 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
         ffi_set_word(&args[i], intval);
       } break;
       case MJS_FFI_CTYPE_DOUBLE:
-        ffi_set_double(&args[i], mjs_get_double(mjs, arg));
-        break;
-      case MJS_FFI_CTYPE_FLOAT:
-        ffi_set_float(&args[i], (float) mjs_get_double(mjs, arg));
-        break;
+      case MJS_FFI_CTYPE_FLOAT: {
+        double dval = 0;
+        if (mjs_is_number(arg)) {
+          dval = mjs_get_double(mjs, arg);
+        } else if (mjs_is_boolean(arg)) {
+          dval = mjs_get_bool(mjs, arg);
+        } else {
+          ret = MJS_TYPE_ERROR;
+          mjs_prepend_errorf(
+              mjs, ret, "actual arg #%d is not a number (the type idx is: %s)",
+              i, mjs_typeof(arg));
+          goto clean;
+        }
+        if (psig->val_types[1 + i] == MJS_FFI_CTYPE_DOUBLE) {
+          ffi_set_double(&args[i], dval);
+        } else {
+          ffi_set_float(&args[i], (float) dval);
+        }
+      } break;
       case MJS_FFI_CTYPE_CHAR_PTR: {
         size_t s;
         if (mjs_is_string(arg)) {
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index 117713b..f65ea3d 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -808,11 +808,25 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
         ffi_set_word(&args[i], intval);
       } break;
       case MJS_FFI_CTYPE_DOUBLE:
-        ffi_set_double(&args[i], mjs_get_double(mjs, arg));
-        break;
-      case MJS_FFI_CTYPE_FLOAT:
-        ffi_set_float(&args[i], (float) mjs_get_double(mjs, arg));
-        break;
+      case MJS_FFI_CTYPE_FLOAT: {
+        double dval = 0;
+        if (mjs_is_number(arg)) {
+          dval = mjs_get_double(mjs, arg);
+        } else if (mjs_is_boolean(arg)) {
+          dval = mjs_get_bool(mjs, arg);
+        } else {
+          ret = MJS_TYPE_ERROR;
+          mjs_prepend_errorf(
+              mjs, ret, "actual arg #%d is not a number (the type idx is: %s)",
+              i, mjs_typeof(arg));
+          goto clean;
+        }
+        if (psig->val_types[1 + i] == MJS_FFI_CTYPE_DOUBLE) {
+          ffi_set_double(&args[i], dval);
+        } else {
+          ffi_set_float(&args[i], (float) dval);
+        }
+      } break;
       case MJS_FFI_CTYPE_CHAR_PTR: {
         size_t s;
         if (mjs_is_string(arg)) {
-- 
2.43.0


From 769a9654dcc5f4a55af48f2119c3839c40634332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:14 +0000
Subject: [PATCH 50/81] fix: ffi functions returning double with float
 arguments and vice versa

---
 mjs.c         | 124 +++++++++++++++++++++++++++++++++++++++++++++++++-
 src/ffi/ffi.c | 124 +++++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 244 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 48edd51..75d7dba 100644
--- a/mjs.c
+++ b/mjs.c
@@ -6446,6 +6446,18 @@ typedef double (*ddwd_t)(double, ffi_word_t, double);
 typedef double (*dddw_t)(double, double, ffi_word_t);
 typedef double (*dddd_t)(double, double, double);
 
+typedef double (*dfw_t)(float, ffi_word_t);
+typedef double (*dwf_t)(ffi_word_t, float);
+typedef double (*dff_t)(float, float);
+
+typedef double (*dwwf_t)(ffi_word_t, ffi_word_t, float);
+typedef double (*dwfw_t)(ffi_word_t, float, ffi_word_t);
+typedef double (*dwff_t)(ffi_word_t, float, float);
+typedef double (*dfww_t)(float, ffi_word_t, ffi_word_t);
+typedef double (*dfwf_t)(float, ffi_word_t, float);
+typedef double (*dffw_t)(float, float, ffi_word_t);
+typedef double (*dfff_t)(float, float, float);
+
 typedef float (*f4w_t)(ffi_word_t, ffi_word_t, ffi_word_t, ffi_word_t);
 typedef float (*f5w_t)(ffi_word_t, ffi_word_t, ffi_word_t, ffi_word_t,
                        ffi_word_t);
@@ -6463,6 +6475,18 @@ typedef float (*ffwf_t)(float, ffi_word_t, float);
 typedef float (*fffw_t)(float, float, ffi_word_t);
 typedef float (*ffff_t)(float, float, float);
 
+typedef float (*fdw_t)(double, ffi_word_t);
+typedef float (*fwd_t)(ffi_word_t, double);
+typedef float (*fdd_t)(double, double);
+
+typedef float (*fwwd_t)(ffi_word_t, ffi_word_t, double);
+typedef float (*fwdw_t)(ffi_word_t, double, ffi_word_t);
+typedef float (*fwdd_t)(ffi_word_t, double, double);
+typedef float (*fdww_t)(double, ffi_word_t, ffi_word_t);
+typedef float (*fdwd_t)(double, ffi_word_t, double);
+typedef float (*fddw_t)(double, double, ffi_word_t);
+typedef float (*fddd_t)(double, double, double);
+
 int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
              struct ffi_arg *args) {
   int i, doubles = 0, floats = 0;
@@ -6723,7 +6747,55 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
     } break;                 /* }}} */
     case FFI_CTYPE_DOUBLE: { /* {{{ */
       double r;
-      if (doubles == 0) {
+      if (floats > 0) {
+        /* There are some float args */
+        switch (nargs) {
+          case 0:
+          case 1:
+          case 2:
+            if (IS_F(args[0]) && IS_F(args[1])) {
+              dff_t f = (dff_t) func;
+              r = f(F(args[0]), F(args[1]));
+            } else if (IS_F(args[0])) {
+              dfw_t f = (dfw_t) func;
+              r = f(F(args[0]), W(args[1]));
+            } else {
+              dwf_t f = (dwf_t) func;
+              r = f(W(args[0]), F(args[1]));
+            }
+            break;
+
+          case 3:
+            if (IS_W(args[0]) && IS_W(args[1]) && IS_F(args[2])) {
+              dwwf_t f = (dwwf_t) func;
+              r = f(W(args[0]), W(args[1]), F(args[2]));
+            } else if (IS_W(args[0]) && IS_F(args[1]) && IS_W(args[2])) {
+              dwfw_t f = (dwfw_t) func;
+              r = f(W(args[0]), F(args[1]), W(args[2]));
+            } else if (IS_W(args[0]) && IS_F(args[1]) && IS_F(args[2])) {
+              dwff_t f = (dwff_t) func;
+              r = f(W(args[0]), F(args[1]), F(args[2]));
+            } else if (IS_F(args[0]) && IS_W(args[1]) && IS_W(args[2])) {
+              dfww_t f = (dfww_t) func;
+              r = f(F(args[0]), W(args[1]), W(args[2]));
+            } else if (IS_F(args[0]) && IS_W(args[1]) && IS_F(args[2])) {
+              dfwf_t f = (dfwf_t) func;
+              r = f(F(args[0]), W(args[1]), F(args[2]));
+            } else if (IS_F(args[0]) && IS_F(args[1]) && IS_W(args[2])) {
+              dffw_t f = (dffw_t) func;
+              r = f(F(args[0]), F(args[1]), W(args[2]));
+            } else if (IS_F(args[0]) && IS_F(args[1]) && IS_F(args[2])) {
+              dfff_t f = (dfff_t) func;
+              r = f(F(args[0]), F(args[1]), F(args[2]));
+            } else {
+              // The above checks should be exhaustive
+              abort();
+            }
+            break;
+          default:
+            return -1;
+        }
+      } else if (doubles == 0) {
         /* No double args: we currently support up to 6 word-sized arguments
          */
         if (nargs <= 4) {
@@ -6791,7 +6863,55 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
     } break;                /* }}} */
     case FFI_CTYPE_FLOAT: { /* {{{ */
       double r;
-      if (floats == 0) {
+      if (doubles > 0) {
+        /* There are some double args */
+        switch (nargs) {
+          case 0:
+          case 1:
+          case 2:
+            if (IS_D(args[0]) && IS_D(args[1])) {
+              fdd_t f = (fdd_t) func;
+              r = f(D(args[0]), D(args[1]));
+            } else if (IS_D(args[0])) {
+              fdw_t f = (fdw_t) func;
+              r = f(D(args[0]), W(args[1]));
+            } else {
+              fwd_t f = (fwd_t) func;
+              r = f(W(args[0]), D(args[1]));
+            }
+            break;
+
+          case 3:
+            if (IS_W(args[0]) && IS_W(args[1]) && IS_D(args[2])) {
+              fwwd_t f = (fwwd_t) func;
+              r = f(W(args[0]), W(args[1]), D(args[2]));
+            } else if (IS_W(args[0]) && IS_D(args[1]) && IS_W(args[2])) {
+              fwdw_t f = (fwdw_t) func;
+              r = f(W(args[0]), D(args[1]), W(args[2]));
+            } else if (IS_W(args[0]) && IS_D(args[1]) && IS_D(args[2])) {
+              fwdd_t f = (fwdd_t) func;
+              r = f(W(args[0]), D(args[1]), D(args[2]));
+            } else if (IS_D(args[0]) && IS_W(args[1]) && IS_W(args[2])) {
+              fdww_t f = (fdww_t) func;
+              r = f(D(args[0]), W(args[1]), W(args[2]));
+            } else if (IS_D(args[0]) && IS_W(args[1]) && IS_D(args[2])) {
+              fdwd_t f = (fdwd_t) func;
+              r = f(D(args[0]), W(args[1]), D(args[2]));
+            } else if (IS_D(args[0]) && IS_D(args[1]) && IS_W(args[2])) {
+              fddw_t f = (fddw_t) func;
+              r = f(D(args[0]), D(args[1]), W(args[2]));
+            } else if (IS_D(args[0]) && IS_D(args[1]) && IS_D(args[2])) {
+              fddd_t f = (fddd_t) func;
+              r = f(D(args[0]), D(args[1]), D(args[2]));
+            } else {
+              // The above checks should be exhaustive
+              abort();
+            }
+            break;
+          default:
+            return -1;
+        }
+      } else if (floats == 0) {
         /* No float args: we currently support up to 6 word-sized arguments
          */
         if (nargs <= 4) {
diff --git a/src/ffi/ffi.c b/src/ffi/ffi.c
index 42cd771..044cb4d 100644
--- a/src/ffi/ffi.c
+++ b/src/ffi/ffi.c
@@ -148,6 +148,18 @@ typedef double (*ddwd_t)(double, ffi_word_t, double);
 typedef double (*dddw_t)(double, double, ffi_word_t);
 typedef double (*dddd_t)(double, double, double);
 
+typedef double (*dfw_t)(float, ffi_word_t);
+typedef double (*dwf_t)(ffi_word_t, float);
+typedef double (*dff_t)(float, float);
+
+typedef double (*dwwf_t)(ffi_word_t, ffi_word_t, float);
+typedef double (*dwfw_t)(ffi_word_t, float, ffi_word_t);
+typedef double (*dwff_t)(ffi_word_t, float, float);
+typedef double (*dfww_t)(float, ffi_word_t, ffi_word_t);
+typedef double (*dfwf_t)(float, ffi_word_t, float);
+typedef double (*dffw_t)(float, float, ffi_word_t);
+typedef double (*dfff_t)(float, float, float);
+
 typedef float (*f4w_t)(ffi_word_t, ffi_word_t, ffi_word_t, ffi_word_t);
 typedef float (*f5w_t)(ffi_word_t, ffi_word_t, ffi_word_t, ffi_word_t,
                        ffi_word_t);
@@ -165,6 +177,18 @@ typedef float (*ffwf_t)(float, ffi_word_t, float);
 typedef float (*fffw_t)(float, float, ffi_word_t);
 typedef float (*ffff_t)(float, float, float);
 
+typedef float (*fdw_t)(double, ffi_word_t);
+typedef float (*fwd_t)(ffi_word_t, double);
+typedef float (*fdd_t)(double, double);
+
+typedef float (*fwwd_t)(ffi_word_t, ffi_word_t, double);
+typedef float (*fwdw_t)(ffi_word_t, double, ffi_word_t);
+typedef float (*fwdd_t)(ffi_word_t, double, double);
+typedef float (*fdww_t)(double, ffi_word_t, ffi_word_t);
+typedef float (*fdwd_t)(double, ffi_word_t, double);
+typedef float (*fddw_t)(double, double, ffi_word_t);
+typedef float (*fddd_t)(double, double, double);
+
 int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
              struct ffi_arg *args) {
   int i, doubles = 0, floats = 0;
@@ -425,7 +449,55 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
     } break;                 /* }}} */
     case FFI_CTYPE_DOUBLE: { /* {{{ */
       double r;
-      if (doubles == 0) {
+      if (floats > 0) {
+        /* There are some float args */
+        switch (nargs) {
+          case 0:
+          case 1:
+          case 2:
+            if (IS_F(args[0]) && IS_F(args[1])) {
+              dff_t f = (dff_t) func;
+              r = f(F(args[0]), F(args[1]));
+            } else if (IS_F(args[0])) {
+              dfw_t f = (dfw_t) func;
+              r = f(F(args[0]), W(args[1]));
+            } else {
+              dwf_t f = (dwf_t) func;
+              r = f(W(args[0]), F(args[1]));
+            }
+            break;
+
+          case 3:
+            if (IS_W(args[0]) && IS_W(args[1]) && IS_F(args[2])) {
+              dwwf_t f = (dwwf_t) func;
+              r = f(W(args[0]), W(args[1]), F(args[2]));
+            } else if (IS_W(args[0]) && IS_F(args[1]) && IS_W(args[2])) {
+              dwfw_t f = (dwfw_t) func;
+              r = f(W(args[0]), F(args[1]), W(args[2]));
+            } else if (IS_W(args[0]) && IS_F(args[1]) && IS_F(args[2])) {
+              dwff_t f = (dwff_t) func;
+              r = f(W(args[0]), F(args[1]), F(args[2]));
+            } else if (IS_F(args[0]) && IS_W(args[1]) && IS_W(args[2])) {
+              dfww_t f = (dfww_t) func;
+              r = f(F(args[0]), W(args[1]), W(args[2]));
+            } else if (IS_F(args[0]) && IS_W(args[1]) && IS_F(args[2])) {
+              dfwf_t f = (dfwf_t) func;
+              r = f(F(args[0]), W(args[1]), F(args[2]));
+            } else if (IS_F(args[0]) && IS_F(args[1]) && IS_W(args[2])) {
+              dffw_t f = (dffw_t) func;
+              r = f(F(args[0]), F(args[1]), W(args[2]));
+            } else if (IS_F(args[0]) && IS_F(args[1]) && IS_F(args[2])) {
+              dfff_t f = (dfff_t) func;
+              r = f(F(args[0]), F(args[1]), F(args[2]));
+            } else {
+              // The above checks should be exhaustive
+              abort();
+            }
+            break;
+          default:
+            return -1;
+        }
+      } else if (doubles == 0) {
         /* No double args: we currently support up to 6 word-sized arguments
          */
         if (nargs <= 4) {
@@ -493,7 +565,55 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
     } break;                /* }}} */
     case FFI_CTYPE_FLOAT: { /* {{{ */
       double r;
-      if (floats == 0) {
+      if (doubles > 0) {
+        /* There are some double args */
+        switch (nargs) {
+          case 0:
+          case 1:
+          case 2:
+            if (IS_D(args[0]) && IS_D(args[1])) {
+              fdd_t f = (fdd_t) func;
+              r = f(D(args[0]), D(args[1]));
+            } else if (IS_D(args[0])) {
+              fdw_t f = (fdw_t) func;
+              r = f(D(args[0]), W(args[1]));
+            } else {
+              fwd_t f = (fwd_t) func;
+              r = f(W(args[0]), D(args[1]));
+            }
+            break;
+
+          case 3:
+            if (IS_W(args[0]) && IS_W(args[1]) && IS_D(args[2])) {
+              fwwd_t f = (fwwd_t) func;
+              r = f(W(args[0]), W(args[1]), D(args[2]));
+            } else if (IS_W(args[0]) && IS_D(args[1]) && IS_W(args[2])) {
+              fwdw_t f = (fwdw_t) func;
+              r = f(W(args[0]), D(args[1]), W(args[2]));
+            } else if (IS_W(args[0]) && IS_D(args[1]) && IS_D(args[2])) {
+              fwdd_t f = (fwdd_t) func;
+              r = f(W(args[0]), D(args[1]), D(args[2]));
+            } else if (IS_D(args[0]) && IS_W(args[1]) && IS_W(args[2])) {
+              fdww_t f = (fdww_t) func;
+              r = f(D(args[0]), W(args[1]), W(args[2]));
+            } else if (IS_D(args[0]) && IS_W(args[1]) && IS_D(args[2])) {
+              fdwd_t f = (fdwd_t) func;
+              r = f(D(args[0]), W(args[1]), D(args[2]));
+            } else if (IS_D(args[0]) && IS_D(args[1]) && IS_W(args[2])) {
+              fddw_t f = (fddw_t) func;
+              r = f(D(args[0]), D(args[1]), W(args[2]));
+            } else if (IS_D(args[0]) && IS_D(args[1]) && IS_D(args[2])) {
+              fddd_t f = (fddd_t) func;
+              r = f(D(args[0]), D(args[1]), D(args[2]));
+            } else {
+              // The above checks should be exhaustive
+              abort();
+            }
+            break;
+          default:
+            return -1;
+        }
+      } else if (floats == 0) {
         /* No float args: we currently support up to 6 word-sized arguments
          */
         if (nargs <= 4) {
-- 
2.43.0


From f6c9afac24418d14ebd3ca51c2c601067e448f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:47 +0000
Subject: [PATCH 51/81] fix: report too long names of ffi functions instead of
 truncating them

---
 mjs.c         | 6 ++++++
 src/mjs_ffi.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mjs.c b/mjs.c
index 75d7dba..ccde041 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9544,6 +9544,12 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
       goto clean;
     }
 
+    if (fn.len >= sizeof(buf)) {
+      /* A truncated name might be the name of another function */
+      ret = MJS_TYPE_ERROR;
+      mjs_prepend_errorf(mjs, ret, "function name is too long");
+      goto clean;
+    }
     snprintf(buf, sizeof(buf), "%.*s", (int) fn.len, fn.p);
     sig->fn = (ffi_fn_t *) mjs->dlsym(RTLD_DEFAULT, buf);
     if (sig->fn == NULL) {
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index f65ea3d..b58ba9e 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -187,6 +187,12 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
       goto clean;
     }
 
+    if (fn.len >= sizeof(buf)) {
+      /* A truncated name might be the name of another function */
+      ret = MJS_TYPE_ERROR;
+      mjs_prepend_errorf(mjs, ret, "function name is too long");
+      goto clean;
+    }
     snprintf(buf, sizeof(buf), "%.*s", (int) fn.len, fn.p);
     sig->fn = (ffi_fn_t *) mjs->dlsym(RTLD_DEFAULT, buf);
     if (sig->fn == NULL) {
-- 
2.43.0


From c8cbc2c3a5544aa375465d9dba99bdab8107364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:58 +0000
Subject: [PATCH 52/81] fix: mjs_apply of a native function returned the
 previous error

---
 mjs.c          | 7 +++++++
 src/mjs_exec.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/mjs.c b/mjs.c
index ccde041..fca4808 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9332,6 +9332,13 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
+  /* Forget the previous error, just like mjs_execute() does that */
+  if (is_native) {
+    mjs_set_errorf(mjs, MJS_OK, NULL);
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
+  }
+
   if (mjs_is_foreign(func)) {
     ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
   } else if (mjs_is_ffi_sig(func)) {
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 84f7891..cd188fb 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1203,6 +1203,13 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
+  /* Forget the previous error, just like mjs_execute() does that */
+  if (is_native) {
+    mjs_set_errorf(mjs, MJS_OK, NULL);
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
+  }
+
   if (mjs_is_foreign(func)) {
     ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
   } else if (mjs_is_ffi_sig(func)) {
-- 
2.43.0


From ae19ba403fbae15ae9203b695b1bc677a3b48821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:08 +0000
Subject: [PATCH 53/81] fix: c_snprintf pads integers like snprintf and prints
 all 64-bit values

---
 mjs.c                 | 45 +++++++++++++++++++++++++++----------------
 src/common/str_util.c | 45 +++++++++++++++++++++++++++----------------
 2 files changed, 56 insertions(+), 34 deletions(-)

diff --git a/mjs.c b/mjs.c
index fca4808..6d3a473 100644
--- a/mjs.c
+++ b/mjs.c
@@ -4359,15 +4359,10 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   return vsnprintf(buf, buf_size, fmt, ap);
 }
 #else
-static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
-                  int field_width) {
+static int c_utoa(char *buf, size_t buf_size, uint64_t num, int neg, int base,
+                  int flags, int field_width) {
   char tmp[40];
-  int i = 0, k = 0, neg = 0;
-
-  if (num < 0) {
-    neg++;
-    num = -num;
-  }
+  int i = 0, k = 0, pad;
 
   /* Print into temporary buffer - in reverse order */
   do {
@@ -4380,16 +4375,25 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
     num /= base;
   } while (num > 0);
 
-  /* Zero padding */
-  if (flags && C_SNPRINTF_FLAG_ZERO) {
-    while (k < field_width && k < (int) sizeof(tmp) - 1) {
-      tmp[k++] = '0';
+  pad = field_width - k - neg;
+
+  /* Space padding */
+  if (!(flags & C_SNPRINTF_FLAG_ZERO)) {
+    while (pad-- > 0) {
+      C_SNPRINTF_APPEND_CHAR(' ');
     }
   }
 
   /* And sign */
   if (neg) {
-    tmp[k++] = '-';
+    C_SNPRINTF_APPEND_CHAR('-');
+  }
+
+  /* Zero padding */
+  if (flags & C_SNPRINTF_FLAG_ZERO) {
+    while (pad-- > 0) {
+      C_SNPRINTF_APPEND_CHAR('0');
+    }
   }
 
   /* Now output */
@@ -4400,6 +4404,13 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
   return i;
 }
 
+static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
+                  int field_width) {
+  int neg = (num < 0);
+  return c_utoa(buf, buf_size, neg ? ~(uint64_t) num + 1 : (uint64_t) num, neg,
+                base, flags, field_width);
+}
+
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) WEAK;
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   int ch, i = 0, len_mod, flags, precision, field_width;
@@ -4504,19 +4515,19 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
         i += c_itoa(buf + i, buf_size - i, va_arg(ap, int64_t), 10, flags,
                     field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 0) {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'l') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned long),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned long), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'z') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, size_t),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, size_t), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if (ch == 'p') {
         unsigned long num = (unsigned long) (uintptr_t) va_arg(ap, void *);
         C_SNPRINTF_APPEND_CHAR('0');
         C_SNPRINTF_APPEND_CHAR('x');
-        i += c_itoa(buf + i, buf_size - i, num, 16, flags, 0);
+        i += c_utoa(buf + i, buf_size - i, num, 0, 16, flags, 0);
       } else {
 #ifndef NO_LIBC
         /*
diff --git a/src/common/str_util.c b/src/common/str_util.c
index 2f325fb..6e43c2b 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -49,15 +49,10 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   return vsnprintf(buf, buf_size, fmt, ap);
 }
 #else
-static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
-                  int field_width) {
+static int c_utoa(char *buf, size_t buf_size, uint64_t num, int neg, int base,
+                  int flags, int field_width) {
   char tmp[40];
-  int i = 0, k = 0, neg = 0;
-
-  if (num < 0) {
-    neg++;
-    num = -num;
-  }
+  int i = 0, k = 0, pad;
 
   /* Print into temporary buffer - in reverse order */
   do {
@@ -70,16 +65,25 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
     num /= base;
   } while (num > 0);
 
-  /* Zero padding */
-  if (flags && C_SNPRINTF_FLAG_ZERO) {
-    while (k < field_width && k < (int) sizeof(tmp) - 1) {
-      tmp[k++] = '0';
+  pad = field_width - k - neg;
+
+  /* Space padding */
+  if (!(flags & C_SNPRINTF_FLAG_ZERO)) {
+    while (pad-- > 0) {
+      C_SNPRINTF_APPEND_CHAR(' ');
     }
   }
 
   /* And sign */
   if (neg) {
-    tmp[k++] = '-';
+    C_SNPRINTF_APPEND_CHAR('-');
+  }
+
+  /* Zero padding */
+  if (flags & C_SNPRINTF_FLAG_ZERO) {
+    while (pad-- > 0) {
+      C_SNPRINTF_APPEND_CHAR('0');
+    }
   }
 
   /* Now output */
@@ -90,6 +94,13 @@ static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
   return i;
 }
 
+static int c_itoa(char *buf, size_t buf_size, int64_t num, int base, int flags,
+                  int field_width) {
+  int neg = (num < 0);
+  return c_utoa(buf, buf_size, neg ? ~(uint64_t) num + 1 : (uint64_t) num, neg,
+                base, flags, field_width);
+}
+
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) WEAK;
 int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
   int ch, i = 0, len_mod, flags, precision, field_width;
@@ -194,19 +205,19 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
         i += c_itoa(buf + i, buf_size - i, va_arg(ap, int64_t), 10, flags,
                     field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 0) {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'l') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, unsigned long),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, unsigned long), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if ((ch == 'x' || ch == 'u') && len_mod == 'z') {
-        i += c_itoa(buf + i, buf_size - i, va_arg(ap, size_t),
+        i += c_utoa(buf + i, buf_size - i, va_arg(ap, size_t), 0,
                     ch == 'x' ? 16 : 10, flags, field_width);
       } else if (ch == 'p') {
         unsigned long num = (unsigned long) (uintptr_t) va_arg(ap, void *);
         C_SNPRINTF_APPEND_CHAR('0');
         C_SNPRINTF_APPEND_CHAR('x');
-        i += c_itoa(buf + i, buf_size - i, num, 16, flags, 0);
+        i += c_utoa(buf + i, buf_size - i, num, 0, 16, flags, 0);
       } else {
 #ifndef NO_LIBC
         /*
-- 
2.43.0


From 3d5a98eba66d33709cec9fc92ae65bbf953a2675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:21 +0000
Subject: [PATCH 54/81] fix: c_snprintf pads strings to the field width and
 prints nothing for precision 0

---
 mjs.c                 | 23 +++++++++++++----------
 src/common/str_util.c | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/mjs.c b/mjs.c
index 6d3a473..bb0f064 100644
--- a/mjs.c
+++ b/mjs.c
@@ -4427,7 +4427,8 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
        *   an optional length modifier (one of: hh h l ll L q j z t)
        *   conversion specifier (one of: d i o u x X e E f F g G a A c s p n)
        */
-      flags = field_width = precision = len_mod = 0;
+      flags = field_width = len_mod = 0;
+      precision = -1; /* not given */
 
       /* Flags. only zero-pad flag is supported. */
       if (*fmt == '0') {
@@ -4447,6 +4448,7 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
 
       /* Precision */
       if (*fmt == '.') {
+        precision = 0;
         fmt++;
         if (*fmt == '*') {
           precision = va_arg(ap, int);
@@ -4485,20 +4487,21 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
       if (ch == 's') {
         const char *s = va_arg(ap, const char *); /* Always fetch parameter */
         int j;
-        int pad = field_width - (precision >= 0 ? c_strnlen(s, precision) : 0);
-        for (j = 0; j < pad; j++) {
+        /* `s` may be NULL in case of %.*s. Ignore negative precisions. */
+        int n = (s == NULL) ? 0 : (int) c_strnlen(s, precision < 0
+                                                         ? ~((size_t) 0)
+                                                         : (size_t) precision);
+        for (j = n; j < field_width; j++) {
           C_SNPRINTF_APPEND_CHAR(' ');
         }
-
-        /* `s` may be NULL in case of %.*s */
-        if (s != NULL) {
-          /* Ignore negative and 0 precisions */
-          for (j = 0; (precision <= 0 || j < precision) && s[j] != '\0'; j++) {
-            C_SNPRINTF_APPEND_CHAR(s[j]);
-          }
+        for (j = 0; j < n; j++) {
+          C_SNPRINTF_APPEND_CHAR(s[j]);
         }
       } else if (ch == 'c') {
         ch = va_arg(ap, int); /* Always fetch parameter */
+        while (field_width-- > 1) {
+          C_SNPRINTF_APPEND_CHAR(' ');
+        }
         C_SNPRINTF_APPEND_CHAR(ch);
       } else if (ch == 'd' && len_mod == 0) {
         i += c_itoa(buf + i, buf_size - i, va_arg(ap, int), 10, flags,
diff --git a/src/common/str_util.c b/src/common/str_util.c
index 6e43c2b..12dd058 100644
--- a/src/common/str_util.c
+++ b/src/common/str_util.c
@@ -117,7 +117,8 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
        *   an optional length modifier (one of: hh h l ll L q j z t)
        *   conversion specifier (one of: d i o u x X e E f F g G a A c s p n)
        */
-      flags = field_width = precision = len_mod = 0;
+      flags = field_width = len_mod = 0;
+      precision = -1; /* not given */
 
       /* Flags. only zero-pad flag is supported. */
       if (*fmt == '0') {
@@ -137,6 +138,7 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
 
       /* Precision */
       if (*fmt == '.') {
+        precision = 0;
         fmt++;
         if (*fmt == '*') {
           precision = va_arg(ap, int);
@@ -175,20 +177,21 @@ int c_vsnprintf(char *buf, size_t buf_size, const char *fmt, va_list ap) {
       if (ch == 's') {
         const char *s = va_arg(ap, const char *); /* Always fetch parameter */
         int j;
-        int pad = field_width - (precision >= 0 ? c_strnlen(s, precision) : 0);
-        for (j = 0; j < pad; j++) {
+        /* `s` may be NULL in case of %.*s. Ignore negative precisions. */
+        int n = (s == NULL) ? 0 : (int) c_strnlen(s, precision < 0
+                                                         ? ~((size_t) 0)
+                                                         : (size_t) precision);
+        for (j = n; j < field_width; j++) {
           C_SNPRINTF_APPEND_CHAR(' ');
         }
-
-        /* `s` may be NULL in case of %.*s */
-        if (s != NULL) {
-          /* Ignore negative and 0 precisions */
-          for (j = 0; (precision <= 0 || j < precision) && s[j] != '\0'; j++) {
-            C_SNPRINTF_APPEND_CHAR(s[j]);
-          }
+        for (j = 0; j < n; j++) {
+          C_SNPRINTF_APPEND_CHAR(s[j]);
         }
       } else if (ch == 'c') {
         ch = va_arg(ap, int); /* Always fetch parameter */
+        while (field_width-- > 1) {
+          C_SNPRINTF_APPEND_CHAR(' ');
+        }
         C_SNPRINTF_APPEND_CHAR(ch);
       } else if (ch == 'd' && len_mod == 0) {
         i += c_itoa(buf + i, buf_size - i, va_arg(ap, int), 10, flags,
-- 
2.43.0


From 6f164e55a6a8c8e165b23fb53b181de64e83522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:21 +0000
Subject: [PATCH 55/81] fix: mg_strcmp and mg_strcasecmp compare unsigned
 characters

---
 mjs.c               | 12 ++++++------
 src/common/mg_str.c | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mjs.c b/mjs.c
index bb0f064..2f37d67 100644
--- a/mjs.c
+++ b/mjs.c
@@ -4241,8 +4241,8 @@ int mg_strcmp(const struct mg_str str1, const struct mg_str str2) WEAK;
 int mg_strcmp(const struct mg_str str1, const struct mg_str str2) {
   size_t i = 0;
   while (i < str1.len && i < str2.len) {
-    int c1 = str1.p[i];
-    int c2 = str2.p[i];
+    int c1 = (unsigned char) str1.p[i];
+    int c2 = (unsigned char) str2.p[i];
     if (c1 < c2) return -1;
     if (c1 > c2) return 1;
     i++;
@@ -4270,8 +4270,8 @@ int mg_strcasecmp(const struct mg_str str1, const struct mg_str str2) WEAK;
 int mg_strcasecmp(const struct mg_str str1, const struct mg_str str2) {
   size_t i = 0;
   while (i < str1.len && i < str2.len) {
-    int c1 = tolower((int) str1.p[i]);
-    int c2 = tolower((int) str2.p[i]);
+    int c1 = tolower((unsigned char) str1.p[i]);
+    int c2 = tolower((unsigned char) str2.p[i]);
     if (c1 < c2) return -1;
     if (c1 > c2) return 1;
     i++;
@@ -4305,11 +4305,11 @@ const char *mg_strstr(const struct mg_str haystack,
 
 struct mg_str mg_strstrip(struct mg_str s) WEAK;
 struct mg_str mg_strstrip(struct mg_str s) {
-  while (s.len > 0 && isspace((int) *s.p)) {
+  while (s.len > 0 && isspace((unsigned char) *s.p)) {
     s.p++;
     s.len--;
   }
-  while (s.len > 0 && isspace((int) *(s.p + s.len - 1))) {
+  while (s.len > 0 && isspace((unsigned char) *(s.p + s.len - 1))) {
     s.len--;
   }
   return s;
diff --git a/src/common/mg_str.c b/src/common/mg_str.c
index 6f7d028..27131c6 100644
--- a/src/common/mg_str.c
+++ b/src/common/mg_str.c
@@ -96,8 +96,8 @@ int mg_strcmp(const struct mg_str str1, const struct mg_str str2) WEAK;
 int mg_strcmp(const struct mg_str str1, const struct mg_str str2) {
   size_t i = 0;
   while (i < str1.len && i < str2.len) {
-    int c1 = str1.p[i];
-    int c2 = str2.p[i];
+    int c1 = (unsigned char) str1.p[i];
+    int c2 = (unsigned char) str2.p[i];
     if (c1 < c2) return -1;
     if (c1 > c2) return 1;
     i++;
@@ -125,8 +125,8 @@ int mg_strcasecmp(const struct mg_str str1, const struct mg_str str2) WEAK;
 int mg_strcasecmp(const struct mg_str str1, const struct mg_str str2) {
   size_t i = 0;
   while (i < str1.len && i < str2.len) {
-    int c1 = tolower((int) str1.p[i]);
-    int c2 = tolower((int) str2.p[i]);
+    int c1 = tolower((unsigned char) str1.p[i]);
+    int c2 = tolower((unsigned char) str2.p[i]);
     if (c1 < c2) return -1;
     if (c1 > c2) return 1;
     i++;
@@ -160,11 +160,11 @@ const char *mg_strstr(const struct mg_str haystack,
 
 struct mg_str mg_strstrip(struct mg_str s) WEAK;
 struct mg_str mg_strstrip(struct mg_str s) {
-  while (s.len > 0 && isspace((int) *s.p)) {
+  while (s.len > 0 && isspace((unsigned char) *s.p)) {
     s.p++;
     s.len--;
   }
-  while (s.len > 0 && isspace((int) *(s.p + s.len - 1))) {
+  while (s.len > 0 && isspace((unsigned char) *(s.p + s.len - 1))) {
     s.len--;
   }
   return s;
-- 
2.43.0


From 500f7221601b25507494c21d4612a4351c8f3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:42 +0000
Subject: [PATCH 56/81] fix: mjs_sprintf terminates the buffer for an empty
 string

---
 mjs.c          | 2 ++
 src/mjs_util.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mjs.c b/mjs.c
index 2f37d67..c338878 100644
--- a/mjs.c
+++ b/mjs.c
@@ -14277,6 +14277,8 @@ void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
 
 void mjs_sprintf(mjs_val_t v, struct mjs *mjs, char *buf, size_t n) {
   struct json_out out = JSON_OUT_BUF(buf, n);
+  /* json_printf() terminates the buffer, but it isn't called for "" */
+  if (n > 0) buf[0] = '\0';
   mjs_jprintf(v, mjs, &out);
 }
 
diff --git a/src/mjs_util.c b/src/mjs_util.c
index c78d912..e7f7fb3 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -95,6 +95,8 @@ void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
 
 void mjs_sprintf(mjs_val_t v, struct mjs *mjs, char *buf, size_t n) {
   struct json_out out = JSON_OUT_BUF(buf, n);
+  /* json_printf() terminates the buffer, but it isn't called for "" */
+  if (n > 0) buf[0] = '\0';
   mjs_jprintf(v, mjs, &out);
 }
 
-- 
2.43.0


From f3dcb2ad60999dd144b2ae3d80ae761694696250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:44 +0000
Subject: [PATCH 57/81] fix: stack trace of a nested error names every call
 once

---
 mjs.c          | 8 +++++++-
 src/mjs_exec.c | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index c338878..12df2bd 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9158,7 +9158,13 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
             *vptr(&mjs->call_stack, call_stack_len / sizeof(mjs_val_t));
       }
 
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      /*
+       * If the error comes from a nested execution, then the trace is already
+       * there, including all the outer calls
+       */
+      if (mjs->stack_trace == NULL) {
+        mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      }
 
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index cd188fb..f954be7 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1015,7 +1015,13 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
             *vptr(&mjs->call_stack, call_stack_len / sizeof(mjs_val_t));
       }
 
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      /*
+       * If the error comes from a nested execution, then the trace is already
+       * there, including all the outer calls
+       */
+      if (mjs->stack_trace == NULL) {
+        mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      }
 
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
-- 
2.43.0


From a6f8e5aca012f4035cc411a1a38582251580b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:44 +0000
Subject: [PATCH 58/81] fix: no stack trace of an earlier error for a syntax
 error

---
 mjs.c          | 5 +++++
 src/mjs_exec.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/mjs.c b/mjs.c
index 12df2bd..afe0439 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9192,6 +9192,11 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
                                         mjs_val_t *res) {
   size_t off = mjs->bcode_len;
   mjs_val_t r = MJS_UNDEFINED;
+
+  /* Forget the trace of the previous error: a syntax error doesn't have any */
+  free(mjs->stack_trace);
+  mjs->stack_trace = NULL;
+
   mjs->error = mjs_parse(path, src, mjs);
 #if MJS_ENABLE_DEBUG
   if (cs_log_level >= LL_VERBOSE_DEBUG) mjs_dump(mjs, 1);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index f954be7..8358d1a 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1049,6 +1049,11 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
                                         mjs_val_t *res) {
   size_t off = mjs->bcode_len;
   mjs_val_t r = MJS_UNDEFINED;
+
+  /* Forget the trace of the previous error: a syntax error doesn't have any */
+  free(mjs->stack_trace);
+  mjs->stack_trace = NULL;
+
   mjs->error = mjs_parse(path, src, mjs);
 #if MJS_ENABLE_DEBUG
   if (cs_log_level >= LL_VERBOSE_DEBUG) mjs_dump(mjs, 1);
-- 
2.43.0


From ea1e17745f7011ce16ec1275311b369aa2d2b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 59/81] fix: .jsc file which might be in use is replaced, not
 overwritten

---
 mjs.c          | 12 ++++++++++--
 src/mjs_exec.c | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index afe0439..5c2297e 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8163,7 +8163,9 @@ void mjs_mem_set_int(void *ptr, int val, int size, int bigendian) {
 /* Amalgamated: #include "mjs_util.h" */
 
 #if MJS_GENERATE_JSC && defined(CS_MMAP)
+#include <errno.h>
 #include <sys/mman.h>
+#include <unistd.h>
 #endif
 
 /*
@@ -9243,9 +9245,15 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
           }
         }
 
-        /* try to open .jsc file for writing */
+        /*
+         * try to open .jsc file for writing. The old file might be mmapped by
+         * bcode which is in use, so it should be replaced, not overwritten.
+         */
         if (rewrite) {
-          FILE *fp = fopen(filename_jsc, "wb");
+          FILE *fp = NULL;
+          if (unlink(filename_jsc) == 0 || errno == ENOENT) {
+            fp = fopen(filename_jsc, "wb");
+          }
           if (fp != NULL) {
             /* write last bcode part to .jsc */
             fwrite(bp->data.p, bp->data.len, 1, fp);
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 8358d1a..116cdc9 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -20,7 +20,9 @@
 #include "mjs_util.h"
 
 #if MJS_GENERATE_JSC && defined(CS_MMAP)
+#include <errno.h>
 #include <sys/mman.h>
+#include <unistd.h>
 #endif
 
 /*
@@ -1100,9 +1102,15 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
           }
         }
 
-        /* try to open .jsc file for writing */
+        /*
+         * try to open .jsc file for writing. The old file might be mmapped by
+         * bcode which is in use, so it should be replaced, not overwritten.
+         */
         if (rewrite) {
-          FILE *fp = fopen(filename_jsc, "wb");
+          FILE *fp = NULL;
+          if (unlink(filename_jsc) == 0 || errno == ENOENT) {
+            fp = fopen(filename_jsc, "wb");
+          }
           if (fp != NULL) {
             /* write last bcode part to .jsc */
             fwrite(bp->data.p, bp->data.len, 1, fp);
-- 
2.43.0


From 813c2ae2efedabbb9ab651f1b5419b48c812a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:10 +0000
Subject: [PATCH 60/81] fix: calling a function of a file doesn't change
 whether the file is loaded

---
 mjs.c          | 10 ++++++++--
 src/mjs_exec.c | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 5c2297e..9e0a0fc 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9182,8 +9182,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   }
 
 clean:
-  /* Remember result of the evaluation of this bcode part */
-  mjs_bcode_part_get_by_offset(mjs, start_off)->exec_res = mjs->error;
+  /*
+   * Remember result of the evaluation of this bcode part (but not of a function
+   * from it)
+   */
+  {
+    struct mjs_bcode_part *bp = mjs_bcode_part_get_by_offset(mjs, start_off);
+    if (bp->start_idx == start_off) bp->exec_res = mjs->error;
+  }
 
   *res = mjs_pop(mjs);
   return mjs->error;
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 116cdc9..700075b 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1039,8 +1039,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   }
 
 clean:
-  /* Remember result of the evaluation of this bcode part */
-  mjs_bcode_part_get_by_offset(mjs, start_off)->exec_res = mjs->error;
+  /*
+   * Remember result of the evaluation of this bcode part (but not of a function
+   * from it)
+   */
+  {
+    struct mjs_bcode_part *bp = mjs_bcode_part_get_by_offset(mjs, start_off);
+    if (bp->start_idx == start_off) bp->exec_res = mjs->error;
+  }
 
   *res = mjs_pop(mjs);
   return mjs->error;
-- 
2.43.0


From 80e337ad798fd4846394169b85d11496eb7715a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:05 +0000
Subject: [PATCH 61/81] fix: cs_read_file, cs_mmap_file: handle failures to get
 the file size

---
 mjs.c                | 16 ++++++++++++----
 src/common/cs_file.c | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/mjs.c b/mjs.c
index 9e0a0fc..a2093d3 100644
--- a/mjs.c
+++ b/mjs.c
@@ -3923,11 +3923,16 @@ char *cs_read_file(const char *path, size_t *size) {
   } else if (fseek(fp, 0, SEEK_END) != 0) {
     fclose(fp);
   } else {
-    *size = ftell(fp);
+    long len = ftell(fp);
+    if (len < 0) {
+      fclose(fp);
+      return NULL;
+    }
+    *size = (size_t) len;
     data = (char *) malloc(*size + 1);
     if (data != NULL) {
-      fseek(fp, 0, SEEK_SET); /* Some platforms might not have rewind(), Oo */
-      if (fread(data, 1, *size, fp) != *size) {
+      /* Some platforms might not have rewind(), Oo */
+      if (fseek(fp, 0, SEEK_SET) != 0 || fread(data, 1, *size, fp) != *size) {
         free(data);
         fclose(fp);
         return NULL;
@@ -3947,7 +3952,10 @@ char *cs_mmap_file(const char *path, size_t *size) {
   int fd = open(path, O_RDONLY, 0);
   struct stat st;
   if (fd < 0) return NULL;
-  fstat(fd, &st);
+  if (fstat(fd, &st) != 0) {
+    close(fd);
+    return NULL;
+  }
   *size = (size_t) st.st_size;
   r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
   close(fd);
diff --git a/src/common/cs_file.c b/src/common/cs_file.c
index 9d2290f..1447374 100644
--- a/src/common/cs_file.c
+++ b/src/common/cs_file.c
@@ -35,11 +35,16 @@ char *cs_read_file(const char *path, size_t *size) {
   } else if (fseek(fp, 0, SEEK_END) != 0) {
     fclose(fp);
   } else {
-    *size = ftell(fp);
+    long len = ftell(fp);
+    if (len < 0) {
+      fclose(fp);
+      return NULL;
+    }
+    *size = (size_t) len;
     data = (char *) malloc(*size + 1);
     if (data != NULL) {
-      fseek(fp, 0, SEEK_SET); /* Some platforms might not have rewind(), Oo */
-      if (fread(data, 1, *size, fp) != *size) {
+      /* Some platforms might not have rewind(), Oo */
+      if (fseek(fp, 0, SEEK_SET) != 0 || fread(data, 1, *size, fp) != *size) {
         free(data);
         fclose(fp);
         return NULL;
@@ -59,7 +64,10 @@ char *cs_mmap_file(const char *path, size_t *size) {
   int fd = open(path, O_RDONLY, 0);
   struct stat st;
   if (fd < 0) return NULL;
-  fstat(fd, &st);
+  if (fstat(fd, &st) != 0) {
+    close(fd);
+    return NULL;
+  }
   *size = (size_t) st.st_size;
   r = (char *) mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
   close(fd);
-- 
2.43.0


From 93c157aa2078ce94b85ff78f86a504e2350b6fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:10 +0000
Subject: [PATCH 62/81] fix: failed compound assignment leaves the operand
 alone

---
 mjs.c          | 11 ++++++-----
 src/mjs_exec.c | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/mjs.c b/mjs.c
index a2093d3..37ac18c 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8384,7 +8384,8 @@ static void op_assign(struct mjs *mjs, int op) {
   if (is_assignable(obj, key)) {
     mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
     v = do_op(mjs, v, val, op);
-    mjs_set_v(mjs, obj, key, v);
+    /* If the operation has failed, the operand keeps its value */
+    if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
@@ -8533,7 +8534,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
-        mjs_set_v(mjs, obj, key, v1);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for ++");
@@ -8546,7 +8547,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
-        mjs_set_v(mjs, obj, key, v1);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for --");
@@ -8559,7 +8560,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
-        mjs_set_v(mjs, obj, key, v);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for --");
@@ -8572,7 +8573,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
-        mjs_set_v(mjs, obj, key, v);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for ++");
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 700075b..aabbed8 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -233,7 +233,8 @@ static void op_assign(struct mjs *mjs, int op) {
   if (is_assignable(obj, key)) {
     mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
     v = do_op(mjs, v, val, op);
-    mjs_set_v(mjs, obj, key, v);
+    /* If the operation has failed, the operand keeps its value */
+    if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
@@ -382,7 +383,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
-        mjs_set_v(mjs, obj, key, v1);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for ++");
@@ -395,7 +396,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
-        mjs_set_v(mjs, obj, key, v1);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for --");
@@ -408,7 +409,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
-        mjs_set_v(mjs, obj, key, v);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for --");
@@ -421,7 +422,7 @@ static void exec_expr(struct mjs *mjs, int op) {
       if (is_assignable(obj, key)) {
         mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
-        mjs_set_v(mjs, obj, key, v);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for ++");
-- 
2.43.0


From 11f71d401e07d326c565b806edb88d416f59df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:27 +0000
Subject: [PATCH 63/81] fix: DataView accesses before the start of the view are
 rejected

---
 lib/api_dataview.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/api_dataview.js b/lib/api_dataview.js
index 428216a..570ac65 100644
--- a/lib/api_dataview.js
+++ b/lib/api_dataview.js
@@ -206,7 +206,7 @@ let DataView = {
   },
 
   _cl: function(idx, len, ilen) {
-    if (len !== undefined && idx + ilen > len) {
+    if (len !== undefined && !(idx >= 0 && idx + ilen <= len)) {
       die(DataView._errm);
       return false;
     }
-- 
2.43.0


From 5905c175c910f684ab4715af99dbc762f74da9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 64/81] fix: errors of mjs_exec_file() and mjs_apply() don't
 include parts of earlier errors

---
 mjs.c          | 6 +++++-
 src/mjs_exec.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 37ac18c..caa6287 100644
--- a/mjs.c
+++ b/mjs.c
@@ -9320,7 +9320,9 @@ mjs_err_t mjs_exec_file(struct mjs *mjs, const char *path, mjs_val_t *res) {
 
   if (source_code == NULL) {
     error = MJS_FILE_READ_ERROR;
-    mjs_prepend_errorf(mjs, error, "failed to read file \"%s\"", path);
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
+    mjs_set_errorf(mjs, error, "failed to read file \"%s\"", path);
     goto clean;
   }
 
@@ -9358,6 +9360,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
       !mjs_is_ffi_sig(func)) {
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
     return mjs_set_errorf(mjs, MJS_TYPE_ERROR, "calling non-callable");
   }
 
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index aabbed8..3175062 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -1169,7 +1169,9 @@ mjs_err_t mjs_exec_file(struct mjs *mjs, const char *path, mjs_val_t *res) {
 
   if (source_code == NULL) {
     error = MJS_FILE_READ_ERROR;
-    mjs_prepend_errorf(mjs, error, "failed to read file \"%s\"", path);
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
+    mjs_set_errorf(mjs, error, "failed to read file \"%s\"", path);
     goto clean;
   }
 
@@ -1207,6 +1209,8 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
       !mjs_is_ffi_sig(func)) {
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
     return mjs_set_errorf(mjs, MJS_TYPE_ERROR, "calling non-callable");
   }
 
-- 
2.43.0


From ab19253c9288c713a0ee3072bde99abedb7d5186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 65/81] fix: JSON.parse() rejects too deeply nested texts
 instead of overflowing the stack

---
 mjs.c               | 12 ++++++++++++
 src/frozen/frozen.c |  7 +++++++
 src/frozen/frozen.h |  5 +++++
 3 files changed, 24 insertions(+)

diff --git a/mjs.c b/mjs.c
index caa6287..749bae4 100644
--- a/mjs.c
+++ b/mjs.c
@@ -2509,6 +2509,11 @@ void *json_next_key(const char *s, int len, void *handle, const char *path,
 void *json_next_elem(const char *s, int len, void *handle, const char *path,
                      int *idx, struct json_token *val);
 
+/* Arrays and objects which are nested deeper are rejected as invalid */
+#ifndef JSON_MAX_DEPTH
+#define JSON_MAX_DEPTH 1000
+#endif
+
 #ifndef JSON_MAX_PATH_LEN
 #define JSON_MAX_PATH_LEN 256
 #endif
@@ -4932,6 +4937,9 @@ struct frozen {
   /* Set while a key is being parsed: no callback should be invoked for it */
   int is_key;
 
+  /* Number of arrays and objects around the current position */
+  int depth;
+
   /* For callback API */
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
@@ -5195,11 +5203,15 @@ static int json_parse_value(struct frozen *f) {
       TRY(json_parse_string(f));
       break;
     case '{':
+      if (++f->depth > JSON_MAX_DEPTH) return JSON_STRING_INVALID;
       TRY(json_parse_object(f));
+      f->depth--;
       break;
 #if JSON_ENABLE_ARRAY
     case '[':
+      if (++f->depth > JSON_MAX_DEPTH) return JSON_STRING_INVALID;
       TRY(json_parse_array(f));
+      f->depth--;
       break;
 #endif
     case 'n':
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index d99d0d3..8280d62 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -82,6 +82,9 @@ struct frozen {
   /* Set while a key is being parsed: no callback should be invoked for it */
   int is_key;
 
+  /* Number of arrays and objects around the current position */
+  int depth;
+
   /* For callback API */
   char path[JSON_MAX_PATH_LEN];
   size_t path_len;
@@ -345,11 +348,15 @@ static int json_parse_value(struct frozen *f) {
       TRY(json_parse_string(f));
       break;
     case '{':
+      if (++f->depth > JSON_MAX_DEPTH) return JSON_STRING_INVALID;
       TRY(json_parse_object(f));
+      f->depth--;
       break;
 #if JSON_ENABLE_ARRAY
     case '[':
+      if (++f->depth > JSON_MAX_DEPTH) return JSON_STRING_INVALID;
       TRY(json_parse_array(f));
+      f->depth--;
       break;
 #endif
     case 'n':
diff --git a/src/frozen/frozen.h b/src/frozen/frozen.h
index 97643be..15fe9c4 100644
--- a/src/frozen/frozen.h
+++ b/src/frozen/frozen.h
@@ -306,6 +306,11 @@ void *json_next_key(const char *s, int len, void *handle, const char *path,
 void *json_next_elem(const char *s, int len, void *handle, const char *path,
                      int *idx, struct json_token *val);
 
+/* Arrays and objects which are nested deeper are rejected as invalid */
+#ifndef JSON_MAX_DEPTH
+#define JSON_MAX_DEPTH 1000
+#endif
+
 #ifndef JSON_MAX_PATH_LEN
 #define JSON_MAX_PATH_LEN 256
 #endif
-- 
2.43.0


From fe230ae732ca8b69dbe25dcbec6e7102ee2e4daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:13 +0000
Subject: [PATCH 66/81] fix: properties which a for-in loop is about to visit
 survive deletion and gc

---
 mjs.c        | 30 ++++++++++++++++++++++++++++++
 src/mjs_gc.c | 30 ++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/mjs.c b/mjs.c
index 749bae4..d92799c 100644
--- a/mjs.c
+++ b/mjs.c
@@ -10941,6 +10941,9 @@ static void gc_mark_object(struct mjs *mjs, mjs_val_t *v) {
       abort();
     }
 
+    /* If already marked by gc_mark_iterator(), so are all the next ones */
+    if (MARKED(prop)) break;
+
     gc_mark(mjs, &prop->name);
     gc_mark(mjs, &prop->value);
 
@@ -11123,8 +11126,35 @@ static void gc_mark_ffi_cbargs_list(struct mjs *mjs, ffi_cb_args_t *cbargs) {
   }
 }
 
+/*
+ * Data stack might contain iterators of for-in loops, which are foreign
+ * pointers to properties. The property might have been deleted from the object
+ * meanwhile, but the loop is still going to use it (and those after it).
+ */
+static void gc_mark_iterators(struct mjs *mjs, const struct mbuf *stack) {
+  const mjs_val_t *v = (const mjs_val_t *) stack->buf;
+  const mjs_val_t *end = v + stack->len / sizeof(*v);
+
+  for (; v < end; v++) {
+    struct mjs_property *prop, *next;
+    if (!mjs_is_foreign(*v)) continue;
+    prop = (struct mjs_property *) get_ptr(*v);
+    while (prop != NULL && gc_check_ptr(&mjs->property_arena, prop) &&
+           !MARKED(prop)) {
+      next = prop->next;
+      MARK(prop);
+      gc_mark(mjs, &prop->name);
+      gc_mark(mjs, &prop->value);
+      prop = next;
+    }
+  }
+}
+
 /* Perform garbage collection */
 void mjs_gc(struct mjs *mjs, int full) {
+  /* Before the values on the stack are replaced by gc_mark_string() */
+  gc_mark_iterators(mjs, &mjs->stack);
+
   gc_mark_val_array(mjs, (mjs_val_t *) &mjs->vals,
                     sizeof(mjs->vals) / sizeof(mjs_val_t));
 
diff --git a/src/mjs_gc.c b/src/mjs_gc.c
index 6cb79c4..3cea3a4 100644
--- a/src/mjs_gc.c
+++ b/src/mjs_gc.c
@@ -303,6 +303,9 @@ static void gc_mark_object(struct mjs *mjs, mjs_val_t *v) {
       abort();
     }
 
+    /* If already marked by gc_mark_iterator(), so are all the next ones */
+    if (MARKED(prop)) break;
+
     gc_mark(mjs, &prop->name);
     gc_mark(mjs, &prop->value);
 
@@ -485,8 +488,35 @@ static void gc_mark_ffi_cbargs_list(struct mjs *mjs, ffi_cb_args_t *cbargs) {
   }
 }
 
+/*
+ * Data stack might contain iterators of for-in loops, which are foreign
+ * pointers to properties. The property might have been deleted from the object
+ * meanwhile, but the loop is still going to use it (and those after it).
+ */
+static void gc_mark_iterators(struct mjs *mjs, const struct mbuf *stack) {
+  const mjs_val_t *v = (const mjs_val_t *) stack->buf;
+  const mjs_val_t *end = v + stack->len / sizeof(*v);
+
+  for (; v < end; v++) {
+    struct mjs_property *prop, *next;
+    if (!mjs_is_foreign(*v)) continue;
+    prop = (struct mjs_property *) get_ptr(*v);
+    while (prop != NULL && gc_check_ptr(&mjs->property_arena, prop) &&
+           !MARKED(prop)) {
+      next = prop->next;
+      MARK(prop);
+      gc_mark(mjs, &prop->name);
+      gc_mark(mjs, &prop->value);
+      prop = next;
+    }
+  }
+}
+
 /* Perform garbage collection */
 void mjs_gc(struct mjs *mjs, int full) {
+  /* Before the values on the stack are replaced by gc_mark_string() */
+  gc_mark_iterators(mjs, &mjs->stack);
+
   gc_mark_val_array(mjs, (mjs_val_t *) &mjs->vals,
                     sizeof(mjs->vals) / sizeof(mjs_val_t));
 
-- 
2.43.0


From 7a7d76b6e1fe1767727d87e3dd34154e8dc5f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:52 +0000
Subject: [PATCH 67/81] fix: array length doesn't count names like "07" as
 indices

---
 mjs.c            | 2 ++
 src/mjs_string.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mjs.c b/mjs.c
index d92799c..f675bae 100644
--- a/mjs.c
+++ b/mjs.c
@@ -13653,6 +13653,8 @@ str_to_ulong(struct mjs *mjs, mjs_val_t v, int *ok, unsigned long *res) {
   size_t len = 0;
   const char *p = mjs_get_string(mjs, &v, &len);
   *res = cstr_to_ulong(p, len, ok);
+  /* only the canonical form is an index: "07", " 1" or "+1" are plain names */
+  if (*ok && (!isdigit((unsigned char) *p) || (*p == '0' && len > 1))) *ok = 0;
 
   return ret;
 }
diff --git a/src/mjs_string.c b/src/mjs_string.c
index bfd1af6..b20fbde 100644
--- a/src/mjs_string.c
+++ b/src/mjs_string.c
@@ -240,6 +240,8 @@ str_to_ulong(struct mjs *mjs, mjs_val_t v, int *ok, unsigned long *res) {
   size_t len = 0;
   const char *p = mjs_get_string(mjs, &v, &len);
   *res = cstr_to_ulong(p, len, ok);
+  /* only the canonical form is an index: "07", " 1" or "+1" are plain names */
+  if (*ok && (!isdigit((unsigned char) *p) || (*p == '0' && len > 1))) *ok = 0;
 
   return ret;
 }
-- 
2.43.0


From 115b27c81596d2c0cbc46dd193a444a99fd9309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:52 +0000
Subject: [PATCH 68/81] fix: array functions with indices of 20 digits use the
 whole index

---
 mjs.c           | 6 +++---
 src/mjs_array.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index f675bae..7f18b92 100644
--- a/mjs.c
+++ b/mjs.c
@@ -7071,7 +7071,7 @@ mjs_val_t mjs_array_get2(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 
   if (mjs_is_object(arr)) {
     struct mjs_property *p;
-    char buf[20];
+    char buf[24];
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     p = mjs_get_own_property(mjs, arr, buf, n);
     if (p != NULL) {
@@ -7112,7 +7112,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
   mjs_err_t ret = MJS_OK;
 
   if (mjs_is_object(arr)) {
-    char buf[20];
+    char buf[24];
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     ret = mjs_set(mjs, arr, buf, n, v);
   } else {
@@ -7123,7 +7123,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 }
 
 void mjs_array_del(struct mjs *mjs, mjs_val_t arr, unsigned long index) {
-  char buf[20];
+  char buf[24];
   int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
   mjs_del(mjs, arr, buf, n);
 }
diff --git a/src/mjs_array.c b/src/mjs_array.c
index 649819a..b4f836a 100644
--- a/src/mjs_array.c
+++ b/src/mjs_array.c
@@ -54,7 +54,7 @@ mjs_val_t mjs_array_get2(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 
   if (mjs_is_object(arr)) {
     struct mjs_property *p;
-    char buf[20];
+    char buf[24];
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     p = mjs_get_own_property(mjs, arr, buf, n);
     if (p != NULL) {
@@ -95,7 +95,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
   mjs_err_t ret = MJS_OK;
 
   if (mjs_is_object(arr)) {
-    char buf[20];
+    char buf[24];
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     ret = mjs_set(mjs, arr, buf, n, v);
   } else {
@@ -106,7 +106,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 }
 
 void mjs_array_del(struct mjs *mjs, mjs_val_t arr, unsigned long index) {
-  char buf[20];
+  char buf[24];
   int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
   mjs_del(mjs, arr, buf, n);
 }
-- 
2.43.0


From 2128e3523bf1f5507868623edda4594e761860c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:43 +0000
Subject: [PATCH 69/81] fix: the disassembler takes the last byte of a line map
 as an instruction

---
 mjs.c          | 2 +-
 src/mjs_util.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 7f18b92..b0f216d 100644
--- a/mjs.c
+++ b/mjs.c
@@ -14543,7 +14543,7 @@ void mjs_disasm(const uint8_t *code, size_t len) {
     i += delta;
 
     if (map_offset > 0 && i == start + map_offset) {
-      i = start + total_size - 1;
+      i = start + total_size;
       continue;
     }
   }
diff --git a/src/mjs_util.c b/src/mjs_util.c
index e7f7fb3..cd3b79d 100644
--- a/src/mjs_util.c
+++ b/src/mjs_util.c
@@ -279,7 +279,7 @@ void mjs_disasm(const uint8_t *code, size_t len) {
     i += delta;
 
     if (map_offset > 0 && i == start + map_offset) {
-      i = start + total_size - 1;
+      i = start + total_size;
       continue;
     }
   }
-- 
2.43.0


From ed3746cf052c9ef026b7c082f190e015ae74cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:57 +0000
Subject: [PATCH 70/81] fix: C functions get NaN as a signaling NaN,
 Math.max(NaN, 1) is NaN

---
 mjs.c               | 6 +++++-
 src/mjs_primitive.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index b0f216d..0d68ff6 100644
--- a/mjs.c
+++ b/mjs.c
@@ -13300,7 +13300,11 @@ static double get_double(mjs_val_t v) {
     mjs_val_t v;
   } u;
   u.v = v;
-  /* Due to NaN packing, any non-numeric value is already a valid NaN value */
+  /*
+   * Due to NaN packing, any non-numeric value is already a valid NaN value;
+   * make it a quiet one, C functions treat signaling NaNs differently
+   */
+  if (isnan(u.d)) u.v |= (mjs_val_t) 1 << 51;
   return u.d;
 }
 
diff --git a/src/mjs_primitive.c b/src/mjs_primitive.c
index ae28188..ae6a434 100644
--- a/src/mjs_primitive.c
+++ b/src/mjs_primitive.c
@@ -46,7 +46,11 @@ static double get_double(mjs_val_t v) {
     mjs_val_t v;
   } u;
   u.v = v;
-  /* Due to NaN packing, any non-numeric value is already a valid NaN value */
+  /*
+   * Due to NaN packing, any non-numeric value is already a valid NaN value;
+   * make it a quiet one, C functions treat signaling NaNs differently
+   */
+  if (isnan(u.d)) u.v |= (mjs_val_t) 1 << 51;
   return u.d;
 }
 
-- 
2.43.0


From c092ac67cf163b1870b96388b46328bea21f2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:57 +0000
Subject: [PATCH 71/81] fix: File.write never returns if the file system is
 full

---
 lib/api_file.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/api_file.js b/lib/api_file.js
index ea01b8d..b2c2f43 100644
--- a/lib/api_file.js
+++ b/lib/api_file.js
@@ -49,7 +49,7 @@ let File = {
       let len = 5;  // Use light 5-byte strings for writing
       if (off + len > tot) len = tot - off;
       let n = File.fwrite(str.slice(off, off + len), 1, len, fp);
-      // if (n <= 0) break;
+      if (n <= 0) break;
       off += n;
     }
     File.fclose(fp);
-- 
2.43.0


From 7a734298c57ca5786f99b4302207222241fa470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:11 +0000
Subject: [PATCH 72/81] fix: ffi: a function pointer is not a function

---
 mjs.c         | 10 ++++++++++
 src/mjs_ffi.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/mjs.c b/mjs.c
index 0d68ff6..3e79f09 100644
--- a/mjs.c
+++ b/mjs.c
@@ -10506,6 +10506,11 @@ MJS_PRIVATE int mjs_ffi_sig_validate(struct mjs *mjs, mjs_ffi_sig_t *sig,
 
   switch (sig_type) {
     case FFI_SIG_FUNC:
+      if (sig->is_callback) {
+        /* There is nothing to call: a pointer type doesn't name a function */
+        mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "not a function");
+        goto clean;
+      }
       /* Make sure return type is fine */
       if (sig->val_types[0] != MJS_FFI_CTYPE_NONE &&
           sig->val_types[0] != MJS_FFI_CTYPE_INT &&
@@ -10519,6 +10524,11 @@ MJS_PRIVATE int mjs_ffi_sig_validate(struct mjs *mjs, mjs_ffi_sig_t *sig,
       }
       break;
     case FFI_SIG_CALLBACK:
+      if (!sig->is_callback) {
+        mjs_prepend_errorf(mjs, MJS_TYPE_ERROR,
+                           "callback should be a function pointer");
+        goto clean;
+      }
       /* Make sure return type is fine */
       if (sig->val_types[0] != MJS_FFI_CTYPE_NONE &&
           sig->val_types[0] != MJS_FFI_CTYPE_INT &&
diff --git a/src/mjs_ffi.c b/src/mjs_ffi.c
index b58ba9e..9e6c3c2 100644
--- a/src/mjs_ffi.c
+++ b/src/mjs_ffi.c
@@ -1078,6 +1078,11 @@ MJS_PRIVATE int mjs_ffi_sig_validate(struct mjs *mjs, mjs_ffi_sig_t *sig,
 
   switch (sig_type) {
     case FFI_SIG_FUNC:
+      if (sig->is_callback) {
+        /* There is nothing to call: a pointer type doesn't name a function */
+        mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "not a function");
+        goto clean;
+      }
       /* Make sure return type is fine */
       if (sig->val_types[0] != MJS_FFI_CTYPE_NONE &&
           sig->val_types[0] != MJS_FFI_CTYPE_INT &&
@@ -1091,6 +1096,11 @@ MJS_PRIVATE int mjs_ffi_sig_validate(struct mjs *mjs, mjs_ffi_sig_t *sig,
       }
       break;
     case FFI_SIG_CALLBACK:
+      if (!sig->is_callback) {
+        mjs_prepend_errorf(mjs, MJS_TYPE_ERROR,
+                           "callback should be a function pointer");
+        goto clean;
+      }
       /* Make sure return type is fine */
       if (sig->val_types[0] != MJS_FFI_CTYPE_NONE &&
           sig->val_types[0] != MJS_FFI_CTYPE_INT &&
-- 
2.43.0


From 73f2ec83b9891255bfd068be8e696d2c78c40a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:11 +0000
Subject: [PATCH 73/81] fix: mjs_no_common.c is generated from src like mjs.c

---
 mjs_no_common.c | 742 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 569 insertions(+), 173 deletions(-)

diff --git a/mjs_no_common.c b/mjs_no_common.c
index 2e07937..957ae81 100644
--- a/mjs_no_common.c
+++ b/mjs_no_common.c
@@ -1542,8 +1542,11 @@ extern "C" {
 
 struct mjs_bcode_part;
 
+#if MJS_ENABLE_DEBUG
 MJS_PRIVATE const char *opcodetostr(uint8_t opcode);
 MJS_PRIVATE size_t mjs_disasm_single(const uint8_t *code, size_t i);
+#endif
+
 MJS_PRIVATE const char *mjs_stringify_type(enum mjs_type t);
 
 /*
@@ -1877,6 +1880,14 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                    mjs_val_t this_val, int nargs, ...);
 mjs_val_t mjs_get_this(struct mjs *mjs);
 
+#ifdef MJS_VERIF
+/*
+ * Verification hook, provided by a test harness: called after each successfully
+ * executed opcode; might call `mjs_gc()` or `mjs_set_errorf()`.
+ */
+void mjs_verif_point(struct mjs *mjs);
+#endif
+
 #if defined(__cplusplus)
 }
 #endif /* __cplusplus */
@@ -2127,6 +2138,18 @@ typedef double (*ddwd_t)(double, ffi_word_t, double);
 typedef double (*dddw_t)(double, double, ffi_word_t);
 typedef double (*dddd_t)(double, double, double);
 
+typedef double (*dfw_t)(float, ffi_word_t);
+typedef double (*dwf_t)(ffi_word_t, float);
+typedef double (*dff_t)(float, float);
+
+typedef double (*dwwf_t)(ffi_word_t, ffi_word_t, float);
+typedef double (*dwfw_t)(ffi_word_t, float, ffi_word_t);
+typedef double (*dwff_t)(ffi_word_t, float, float);
+typedef double (*dfww_t)(float, ffi_word_t, ffi_word_t);
+typedef double (*dfwf_t)(float, ffi_word_t, float);
+typedef double (*dffw_t)(float, float, ffi_word_t);
+typedef double (*dfff_t)(float, float, float);
+
 typedef float (*f4w_t)(ffi_word_t, ffi_word_t, ffi_word_t, ffi_word_t);
 typedef float (*f5w_t)(ffi_word_t, ffi_word_t, ffi_word_t, ffi_word_t,
                        ffi_word_t);
@@ -2144,6 +2167,18 @@ typedef float (*ffwf_t)(float, ffi_word_t, float);
 typedef float (*fffw_t)(float, float, ffi_word_t);
 typedef float (*ffff_t)(float, float, float);
 
+typedef float (*fdw_t)(double, ffi_word_t);
+typedef float (*fwd_t)(ffi_word_t, double);
+typedef float (*fdd_t)(double, double);
+
+typedef float (*fwwd_t)(ffi_word_t, ffi_word_t, double);
+typedef float (*fwdw_t)(ffi_word_t, double, ffi_word_t);
+typedef float (*fwdd_t)(ffi_word_t, double, double);
+typedef float (*fdww_t)(double, ffi_word_t, ffi_word_t);
+typedef float (*fdwd_t)(double, ffi_word_t, double);
+typedef float (*fddw_t)(double, double, ffi_word_t);
+typedef float (*fddd_t)(double, double, double);
+
 int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
              struct ffi_arg *args) {
   int i, doubles = 0, floats = 0;
@@ -2404,7 +2439,55 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
     } break;                 /* }}} */
     case FFI_CTYPE_DOUBLE: { /* {{{ */
       double r;
-      if (doubles == 0) {
+      if (floats > 0) {
+        /* There are some float args */
+        switch (nargs) {
+          case 0:
+          case 1:
+          case 2:
+            if (IS_F(args[0]) && IS_F(args[1])) {
+              dff_t f = (dff_t) func;
+              r = f(F(args[0]), F(args[1]));
+            } else if (IS_F(args[0])) {
+              dfw_t f = (dfw_t) func;
+              r = f(F(args[0]), W(args[1]));
+            } else {
+              dwf_t f = (dwf_t) func;
+              r = f(W(args[0]), F(args[1]));
+            }
+            break;
+
+          case 3:
+            if (IS_W(args[0]) && IS_W(args[1]) && IS_F(args[2])) {
+              dwwf_t f = (dwwf_t) func;
+              r = f(W(args[0]), W(args[1]), F(args[2]));
+            } else if (IS_W(args[0]) && IS_F(args[1]) && IS_W(args[2])) {
+              dwfw_t f = (dwfw_t) func;
+              r = f(W(args[0]), F(args[1]), W(args[2]));
+            } else if (IS_W(args[0]) && IS_F(args[1]) && IS_F(args[2])) {
+              dwff_t f = (dwff_t) func;
+              r = f(W(args[0]), F(args[1]), F(args[2]));
+            } else if (IS_F(args[0]) && IS_W(args[1]) && IS_W(args[2])) {
+              dfww_t f = (dfww_t) func;
+              r = f(F(args[0]), W(args[1]), W(args[2]));
+            } else if (IS_F(args[0]) && IS_W(args[1]) && IS_F(args[2])) {
+              dfwf_t f = (dfwf_t) func;
+              r = f(F(args[0]), W(args[1]), F(args[2]));
+            } else if (IS_F(args[0]) && IS_F(args[1]) && IS_W(args[2])) {
+              dffw_t f = (dffw_t) func;
+              r = f(F(args[0]), F(args[1]), W(args[2]));
+            } else if (IS_F(args[0]) && IS_F(args[1]) && IS_F(args[2])) {
+              dfff_t f = (dfff_t) func;
+              r = f(F(args[0]), F(args[1]), F(args[2]));
+            } else {
+              // The above checks should be exhaustive
+              abort();
+            }
+            break;
+          default:
+            return -1;
+        }
+      } else if (doubles == 0) {
         /* No double args: we currently support up to 6 word-sized arguments
          */
         if (nargs <= 4) {
@@ -2472,7 +2555,55 @@ int ffi_call(ffi_fn_t *func, int nargs, struct ffi_arg *res,
     } break;                /* }}} */
     case FFI_CTYPE_FLOAT: { /* {{{ */
       double r;
-      if (floats == 0) {
+      if (doubles > 0) {
+        /* There are some double args */
+        switch (nargs) {
+          case 0:
+          case 1:
+          case 2:
+            if (IS_D(args[0]) && IS_D(args[1])) {
+              fdd_t f = (fdd_t) func;
+              r = f(D(args[0]), D(args[1]));
+            } else if (IS_D(args[0])) {
+              fdw_t f = (fdw_t) func;
+              r = f(D(args[0]), W(args[1]));
+            } else {
+              fwd_t f = (fwd_t) func;
+              r = f(W(args[0]), D(args[1]));
+            }
+            break;
+
+          case 3:
+            if (IS_W(args[0]) && IS_W(args[1]) && IS_D(args[2])) {
+              fwwd_t f = (fwwd_t) func;
+              r = f(W(args[0]), W(args[1]), D(args[2]));
+            } else if (IS_W(args[0]) && IS_D(args[1]) && IS_W(args[2])) {
+              fwdw_t f = (fwdw_t) func;
+              r = f(W(args[0]), D(args[1]), W(args[2]));
+            } else if (IS_W(args[0]) && IS_D(args[1]) && IS_D(args[2])) {
+              fwdd_t f = (fwdd_t) func;
+              r = f(W(args[0]), D(args[1]), D(args[2]));
+            } else if (IS_D(args[0]) && IS_W(args[1]) && IS_W(args[2])) {
+              fdww_t f = (fdww_t) func;
+              r = f(D(args[0]), W(args[1]), W(args[2]));
+            } else if (IS_D(args[0]) && IS_W(args[1]) && IS_D(args[2])) {
+              fdwd_t f = (fdwd_t) func;
+              r = f(D(args[0]), W(args[1]), D(args[2]));
+            } else if (IS_D(args[0]) && IS_D(args[1]) && IS_W(args[2])) {
+              fddw_t f = (fddw_t) func;
+              r = f(D(args[0]), D(args[1]), W(args[2]));
+            } else if (IS_D(args[0]) && IS_D(args[1]) && IS_D(args[2])) {
+              fddd_t f = (fddd_t) func;
+              r = f(D(args[0]), D(args[1]), D(args[2]));
+            } else {
+              // The above checks should be exhaustive
+              abort();
+            }
+            break;
+          default:
+            return -1;
+        }
+      } else if (floats == 0) {
         /* No float args: we currently support up to 6 word-sized arguments
          */
         if (nargs <= 4) {
@@ -2598,7 +2729,7 @@ mjs_val_t mjs_array_get2(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 
   if (mjs_is_object(arr)) {
     struct mjs_property *p;
-    char buf[20];
+    char buf[24];
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     p = mjs_get_own_property(mjs, arr, buf, n);
     if (p != NULL) {
@@ -2639,7 +2770,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
   mjs_err_t ret = MJS_OK;
 
   if (mjs_is_object(arr)) {
-    char buf[20];
+    char buf[24];
     int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
     ret = mjs_set(mjs, arr, buf, n, v);
   } else {
@@ -2650,7 +2781,7 @@ mjs_err_t mjs_array_set(struct mjs *mjs, mjs_val_t arr, unsigned long index,
 }
 
 void mjs_array_del(struct mjs *mjs, mjs_val_t arr, unsigned long index) {
-  char buf[20];
+  char buf[24];
   int n = v_sprintf_s(buf, sizeof(buf), "%lu", index);
   mjs_del(mjs, arr, buf, n);
 }
@@ -2841,6 +2972,32 @@ MJS_PRIVATE void emit_str(struct pstate *pstate, const char *ptr, size_t len) {
   pstate->cur_idx += llen + len;
 }
 
+/*
+ * Adjust offset-to-line_no map after the code which starts at the given index
+ * has been moved by `diff` bytes.
+ */
+static void shift_lineno_map(struct pstate *p, size_t idx, int diff) {
+  struct mbuf map;
+  uint8_t *ptr = (uint8_t *) p->offset_lineno_map.buf;
+  uint8_t *end = ptr + p->offset_lineno_map.len;
+  mbuf_init(&map, 0);
+  while (ptr < end) {
+    size_t llen;
+    uint64_t v[2]; /* offset, line_no */
+    int i;
+    for (i = 0; i < 2; i++) {
+      uint8_t tmp[10];
+      cs_varint_decode(ptr, end - ptr, &v[i], &llen);
+      ptr += llen;
+      if (i == 0 && v[i] + p->start_bcode_idx >= idx) v[i] += diff;
+      llen = cs_varint_encode(v[i], tmp, sizeof(tmp));
+      mbuf_append(&map, tmp, llen);
+    }
+  }
+  mbuf_free(&p->offset_lineno_map);
+  p->offset_lineno_map = map;
+}
+
 MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
                                         size_t offset, size_t v) {
   int llen = (int) cs_varint_llen(v);
@@ -2858,6 +3015,7 @@ MJS_PRIVATE int mjs_bcode_insert_offset(struct pstate *p, struct mjs *mjs,
           mjs->bcode_gen.len - offset - MJS_INIT_OFFSET_SIZE);
   mjs->bcode_gen.len += diff;
   cs_varint_encode(v, (uint8_t *) mjs->bcode_gen.buf + offset, llen);
+  if (diff != 0) shift_lineno_map(p, offset + MJS_INIT_OFFSET_SIZE, diff);
 
   /*
    * If current parsing index is after the offset at which we've inserted new
@@ -2987,6 +3145,10 @@ static void mjs_load(struct mjs *mjs) {
     struct mjs_bcode_part *bp = NULL;
     mjs_err_t ret;
 
+    if (path == NULL) {
+      mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "invalid file name");
+      goto clean;
+    }
     if (mjs_is_object(arg1)) {
       custom_global = 1;
       push_mjs_val(&mjs->scopes, arg1);
@@ -3046,7 +3208,8 @@ static void mjs_chr(struct mjs *mjs) {
 static void mjs_do_gc(struct mjs *mjs) {
   mjs_val_t arg0 = mjs_arg(mjs, 0);
   mjs_gc(mjs, mjs_is_boolean(arg0) ? mjs_get_bool(mjs, arg0) : 0);
-  mjs_return(mjs, arg0);
+  /* gc relocates strings, so get the argument again */
+  mjs_return(mjs, mjs_arg(mjs, 0));
 }
 
 static void mjs_s2o(struct mjs *mjs) {
@@ -3112,6 +3275,7 @@ void mjs_init_builtin(struct mjs *mjs, mjs_val_t obj) {
 #endif
 
 /* Amalgamated: #include "mjs_conversion.h" */
+/* Amalgamated: #include "mjs_ffi.h" */
 /* Amalgamated: #include "mjs_object.h" */
 /* Amalgamated: #include "mjs_primitive.h" */
 /* Amalgamated: #include "mjs_string.h" */
@@ -3177,7 +3341,7 @@ MJS_PRIVATE mjs_val_t mjs_to_boolean_v(struct mjs *mjs, mjs_val_t v) {
       ((mjs_is_boolean(v) && mjs_get_bool(mjs, v)) ||
        (mjs_is_number(v) && mjs_get_double(mjs, v) != 0.0) ||
        (mjs_is_string(v) && mjs_get_string(mjs, &v, &len) && len > 0) ||
-       (mjs_is_function(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
+       (mjs_is_function(v)) || (mjs_is_ffi_sig(v)) || (mjs_is_foreign(v)) || (mjs_is_object(v))) &&
       v != MJS_TAG_NAN;
 
   return mjs_mk_boolean(mjs, is_truthy);
@@ -3402,6 +3566,7 @@ MJS_PRIVATE enum mjs_type mjs_get_type(mjs_val_t v) {
     case MJS_TAG_ARRAY >> 48:
       return MJS_TYPE_OBJECT_ARRAY;
     case MJS_TAG_FUNCTION >> 48:
+    case MJS_TAG_FUNCTION_FFI >> 48:
       return MJS_TYPE_OBJECT_FUNCTION;
     case MJS_TAG_STRING_I >> 48:
     case MJS_TAG_STRING_O >> 48:
@@ -3472,13 +3637,12 @@ void mjs_own(struct mjs *mjs, mjs_val_t *v) {
 }
 
 int mjs_disown(struct mjs *mjs, mjs_val_t *v) {
-  mjs_val_t **vp = (mjs_val_t **) (mjs->owned_values.buf +
-                                   mjs->owned_values.len - sizeof(v));
+  mjs_val_t **vals = (mjs_val_t **) mjs->owned_values.buf;
+  int i, n = mjs->owned_values.len / sizeof(v);
 
-  for (; (char *) vp >= mjs->owned_values.buf; vp--) {
-    if (*vp == v) {
-      *vp = *(mjs_val_t **) (mjs->owned_values.buf + mjs->owned_values.len -
-                             sizeof(v));
+  for (i = n - 1; i >= 0; i--) {
+    if (vals[i] == v) {
+      vals[i] = vals[n - 1];
       mjs->owned_values.len -= sizeof(v);
       return 1;
     }
@@ -3677,7 +3841,9 @@ void mjs_mem_set_int(void *ptr, int val, int size, int bigendian) {
 /* Amalgamated: #include "mjs_util.h" */
 
 #if MJS_GENERATE_JSC && defined(CS_MMAP)
+#include <errno.h>
 #include <sys/mman.h>
+#include <unistd.h>
 #endif
 
 /*
@@ -3737,6 +3903,19 @@ static size_t call_stack_restore_frame(struct mjs *mjs) {
   return return_address;
 }
 
+/*
+ * Returns true if there is a loop to break out of (or to continue) in the
+ * function which is being executed, not counting the loops of its callers.
+ */
+static bool is_inside_loop(struct mjs *mjs) {
+  size_t outer = 0;
+  if (mjs_stack_size(&mjs->call_stack) >= CALL_STACK_FRAME_ITEMS_CNT) {
+    outer = mjs_get_int(mjs, *vptr(&mjs->call_stack,
+                                   -1 - CALL_STACK_FRAME_ITEM_LOOP_ADDR_IDX));
+  }
+  return (size_t) mjs_stack_size(&mjs->loop_addresses) >= outer + 3;
+}
+
 static mjs_val_t mjs_find_scope(struct mjs *mjs, mjs_val_t key) {
   size_t num_scopes = mjs_stack_size(&mjs->scopes);
   while (num_scopes > 0) {
@@ -3860,13 +4039,23 @@ static mjs_val_t do_op(struct mjs *mjs, mjs_val_t a, mjs_val_t b, int op) {
   return ret;
 }
 
+/*
+ * Returns whether the given property can be an operand of a compound
+ * assignment, increment or decrement
+ */
+static int is_assignable(mjs_val_t obj, mjs_val_t key) {
+  return mjs_is_object(obj) && (mjs_is_string(key) || mjs_is_number(key));
+}
+
 static void op_assign(struct mjs *mjs, int op) {
   mjs_val_t val = mjs_pop(mjs);
   mjs_val_t obj = mjs_pop(mjs);
   mjs_val_t key = mjs_pop(mjs);
-  if (mjs_is_object(obj) && mjs_is_string(key)) {
-    mjs_val_t v = mjs_get_v(mjs, obj, key);
-    mjs_set_v(mjs, obj, key, do_op(mjs, v, val, op));
+  if (is_assignable(obj, key)) {
+    mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
+    v = do_op(mjs, v, val, op);
+    /* If the operation has failed, the operand keeps its value */
+    if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
     mjs_push(mjs, v);
   } else {
     mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand");
@@ -3881,10 +4070,10 @@ static int check_equal(struct mjs *mjs, mjs_val_t a, mjs_val_t b) {
     ret = 1;
   } else if (mjs_is_number(a) && mjs_is_number(b)) {
     /*
-     * The case of equal numbers is handled above, so here the result is always
-     * false
+     * The representations differ, but it might be a zero compared to a negative
+     * zero
      */
-    ret = 0;
+    ret = mjs_get_double(mjs, a) == mjs_get_double(mjs, b);
   } else if (mjs_is_string(a) && mjs_is_string(b)) {
     ret = s_cmp(mjs, a, b) == 0;
   } else if (mjs_is_foreign(a) && b == MJS_NULL) {
@@ -4012,10 +4201,10 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_POSTFIX_PLUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+      if (is_assignable(obj, key)) {
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
-        mjs_set_v(mjs, obj, key, v1);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for ++");
@@ -4025,10 +4214,10 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_POSTFIX_MINUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+      if (is_assignable(obj, key)) {
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         mjs_val_t v1 = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
-        mjs_set_v(mjs, obj, key, v1);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v1);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for --");
@@ -4038,10 +4227,10 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_MINUS_MINUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+      if (is_assignable(obj, key)) {
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_MINUS);
-        mjs_set_v(mjs, obj, key, v);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for --");
@@ -4051,10 +4240,10 @@ static void exec_expr(struct mjs *mjs, int op) {
     case TOK_PLUS_PLUS: {
       mjs_val_t obj = mjs_pop(mjs);
       mjs_val_t key = mjs_pop(mjs);
-      if (mjs_is_object(obj) && mjs_is_string(key)) {
-        mjs_val_t v = mjs_get_v(mjs, obj, key);
+      if (is_assignable(obj, key)) {
+        mjs_val_t v = mjs_get_v_proto(mjs, obj, key);
         v = do_op(mjs, v, mjs_mk_number(mjs, 1), TOK_PLUS);
-        mjs_set_v(mjs, obj, key, v);
+        if (mjs->error == MJS_OK) mjs_set_v(mjs, obj, key, v);
         mjs_push(mjs, v);
       } else {
         mjs_set_errorf(mjs, MJS_TYPE_ERROR, "invalid operand for ++");
@@ -4090,24 +4279,28 @@ static void exec_expr(struct mjs *mjs, int op) {
   }
 }
 
+static int is_name(const char *name, size_t name_len, const char *s) {
+  return name_len == strlen(s) && memcmp(name, s, name_len) == 0;
+}
+
 static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
                                   const char *name, size_t name_len,
                                   mjs_val_t *res) {
   int isnum = 0;
-  int idx = cstr_to_ulong(name, name_len, &isnum);
+  unsigned long idx = cstr_to_ulong(name, name_len, &isnum);
 
-  if (strcmp(name, "length") == 0) {
+  if (is_name(name, name_len, "length")) {
     size_t val_len;
     mjs_get_string(mjs, &val, &val_len);
     *res = mjs_mk_number(mjs, (double) val_len);
     return 1;
-  } else if (strcmp(name, "at") == 0 || strcmp(name, "charCodeAt") == 0) {
+  } else if (is_name(name, name_len, "at") || is_name(name, name_len, "charCodeAt")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_char_code_at);
     return 1;
-  } else if (strcmp(name, "indexOf") == 0) {
+  } else if (is_name(name, name_len, "indexOf")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_index_of);
     return 1;
-  } else if (strcmp(name, "slice") == 0) {
+  } else if (is_name(name, name_len, "slice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_string_slice);
     return 1;
   } else if (isnum) {
@@ -4117,7 +4310,7 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
      */
     size_t val_len;
     const char *str = mjs_get_string(mjs, &val, &val_len);
-    if (idx >= 0 && idx < (int) val_len) {
+    if (idx < val_len) {
       *res = mjs_mk_string(mjs, str + idx, 1, 1);
     } else {
       *res = MJS_UNDEFINED;
@@ -4130,18 +4323,17 @@ static int getprop_builtin_string(struct mjs *mjs, mjs_val_t val,
 static int getprop_builtin_array(struct mjs *mjs, mjs_val_t val,
                                  const char *name, size_t name_len,
                                  mjs_val_t *res) {
-  if (strcmp(name, "splice") == 0) {
+  if (is_name(name, name_len, "splice")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_splice);
     return 1;
-  } else if (strcmp(name, "push") == 0) {
+  } else if (is_name(name, name_len, "push")) {
     *res = mjs_mk_foreign_func(mjs, (mjs_func_ptr_t) mjs_array_push_internal);
     return 1;
-  } else if (strcmp(name, "length") == 0) {
+  } else if (is_name(name, name_len, "length")) {
     *res = mjs_mk_number(mjs, mjs_array_length(mjs, val));
     return 1;
   }
 
-  (void) name_len;
   return 0;
 }
 
@@ -4218,6 +4410,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   int scopes_len = mjs->scopes.len;
   int loop_addresses_len = mjs->loop_addresses.len;
   size_t start_off = off;
+  size_t min_call_stack_len = call_stack_len;
   const uint8_t *code;
 
   struct mjs_bcode_part bp = *mjs_bcode_part_get_by_offset(mjs, off);
@@ -4228,6 +4421,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 
   off -= bp.start_idx;
 
+  /*
+   * A function has been given its own frame by the caller, but a script has
+   * none, so it should not touch the frame of the native code which executes it
+   */
+  if (((const uint8_t *) bp.data.p)[off] == OP_BCODE_HEADER) {
+    min_call_stack_len += CALL_STACK_FRAME_ITEMS_CNT * sizeof(mjs_val_t);
+  }
+
   for (i = off; i < bp.data.len; i++) {
     mjs->cur_bcode_offset = i;
 
@@ -4241,7 +4442,9 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
 #endif
 
     code = (const uint8_t *) bp.data.p;
+#if MJS_ENABLE_DEBUG
     mjs_disasm_single(code, i);
+#endif
     prev_opcode = opcode;
     opcode = code[i];
     switch (opcode) {
@@ -4526,7 +4729,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_SETRETVAL: {
-        if (mjs_stack_size(&mjs->call_stack) < CALL_STACK_FRAME_ITEMS_CNT) {
+        if (mjs->call_stack.len < min_call_stack_len) {
           mjs_set_errorf(mjs, MJS_INTERNAL_ERROR, "cannot return");
         } else {
           size_t retval_pos = mjs_get_int(
@@ -4579,7 +4782,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         break;
       }
       case OP_CONTINUE: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_inside_loop(mjs)) {
           size_t scopes_len = mjs_get_int(mjs, *vptr(&mjs->loop_addresses, -3));
           assert(mjs_stack_size(&mjs->scopes) >= scopes_len);
           mjs->scopes.len = scopes_len * sizeof(mjs_val_t);
@@ -4591,7 +4794,7 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         }
       } break;
       case OP_BREAK: {
-        if (mjs_stack_size(&mjs->loop_addresses) >= 3) {
+        if (is_inside_loop(mjs)) {
           size_t scopes_len;
           /* drop "continue" address */
           mjs_pop_val(&mjs->loop_addresses);
@@ -4623,8 +4826,26 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
         i = bp.data.len;
         break;
     }
+#ifdef MJS_VERIF
+    if (mjs->error == MJS_OK) mjs_verif_point(mjs);
+#endif
     if (mjs->error != MJS_OK) {
-      mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      /*
+       * If there are unfinished calls, then restore `this`, which is stored at
+       * the bottom of the outermost frame
+       */
+      if ((int) mjs->call_stack.len > call_stack_len) {
+        mjs->vals.this_obj =
+            *vptr(&mjs->call_stack, call_stack_len / sizeof(mjs_val_t));
+      }
+
+      /*
+       * If the error comes from a nested execution, then the trace is already
+       * there, including all the outer calls
+       */
+      if (mjs->stack_trace == NULL) {
+        mjs_gen_stack_trace(mjs, bp.start_idx + i - 1 /* undo the i++ */);
+      }
 
       /* restore stack lenghts */
       mjs->stack.len = stack_len;
@@ -4640,8 +4861,14 @@ MJS_PRIVATE mjs_err_t mjs_execute(struct mjs *mjs, size_t off, mjs_val_t *res) {
   }
 
 clean:
-  /* Remember result of the evaluation of this bcode part */
-  mjs_bcode_part_get_by_offset(mjs, start_off)->exec_res = mjs->error;
+  /*
+   * Remember result of the evaluation of this bcode part (but not of a function
+   * from it)
+   */
+  {
+    struct mjs_bcode_part *bp = mjs_bcode_part_get_by_offset(mjs, start_off);
+    if (bp->start_idx == start_off) bp->exec_res = mjs->error;
+  }
 
   *res = mjs_pop(mjs);
   return mjs->error;
@@ -4652,6 +4879,11 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
                                         mjs_val_t *res) {
   size_t off = mjs->bcode_len;
   mjs_val_t r = MJS_UNDEFINED;
+
+  /* Forget the trace of the previous error: a syntax error doesn't have any */
+  free(mjs->stack_trace);
+  mjs->stack_trace = NULL;
+
   mjs->error = mjs_parse(path, src, mjs);
 #if MJS_ENABLE_DEBUG
   if (cs_log_level >= LL_VERBOSE_DEBUG) mjs_dump(mjs, 1);
@@ -4698,9 +4930,15 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
           }
         }
 
-        /* try to open .jsc file for writing */
+        /*
+         * try to open .jsc file for writing. The old file might be mmapped by
+         * bcode which is in use, so it should be replaced, not overwritten.
+         */
         if (rewrite) {
-          FILE *fp = fopen(filename_jsc, "wb");
+          FILE *fp = NULL;
+          if (unlink(filename_jsc) == 0 || errno == ENOENT) {
+            fp = fopen(filename_jsc, "wb");
+          }
           if (fp != NULL) {
             /* write last bcode part to .jsc */
             fwrite(bp->data.p, bp->data.len, 1, fp);
@@ -4712,12 +4950,21 @@ MJS_PRIVATE mjs_err_t mjs_exec_internal(struct mjs *mjs, const char *path,
         }
 
         if (read_mmapped) {
-          /* free RAM buffer with last bcode part */
-          free((void *) bp->data.p);
-
-          /* mmap .jsc file and set last bcode part buffer to it */
-          bp->data.p = cs_mmap_file(filename_jsc, &bp->data.len);
-          bp->in_rom = 1;
+          /*
+           * mmap .jsc file and set last bcode part buffer to it, unless the
+           * file can't be mapped or was not written properly
+           */
+          size_t size;
+          char *data = cs_mmap_file(filename_jsc, &size);
+          if (data != NULL && size == bp->data.len &&
+              memcmp(data, bp->data.p, size) == 0) {
+            /* free RAM buffer with last bcode part */
+            free((void *) bp->data.p);
+            bp->data.p = data;
+            bp->in_rom = 1;
+          } else if (data != NULL) {
+            munmap(data, size);
+          }
         }
       }
     }
@@ -4743,7 +4990,9 @@ mjs_err_t mjs_exec_file(struct mjs *mjs, const char *path, mjs_val_t *res) {
 
   if (source_code == NULL) {
     error = MJS_FILE_READ_ERROR;
-    mjs_prepend_errorf(mjs, error, "failed to read file \"%s\"", path);
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
+    mjs_set_errorf(mjs, error, "failed to read file \"%s\"", path);
     goto clean;
   }
 
@@ -4776,21 +5025,20 @@ mjs_err_t mjs_call(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
 
 mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
                     mjs_val_t this_val, int nargs, mjs_val_t *args) {
-  mjs_val_t r, prev_this_val, retval_stack_idx, *resp;
-  int i;
+  mjs_val_t r, retval_stack_idx;
+  int i, is_native = !mjs_is_function(func);
 
   if (!mjs_is_function(func) && !mjs_is_foreign(func) &&
       !mjs_is_ffi_sig(func)) {
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
     return mjs_set_errorf(mjs, MJS_TYPE_ERROR, "calling non-callable");
   }
 
   LOG(LL_VERBOSE_DEBUG, ("applying func %d", (int) mjs_get_func_addr(func)));
 
-  prev_this_val = mjs->vals.this_obj;
-
   /* Push callable which will be later replaced with the return value */
   mjs_push(mjs, func);
-  resp = vptr(&mjs->stack, -1);
 
   /* Remember index by which return value should be written */
   retval_stack_idx = mjs_mk_number(mjs, (double) mjs_stack_size(&mjs->stack));
@@ -4806,12 +5054,17 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   /* Push call stack frame, just like OP_CALL does that */
   call_stack_push_frame(mjs, MJS_BCODE_OFFSET_EXIT, retval_stack_idx);
 
+  /* Forget the previous error, just like mjs_execute() does that */
+  if (is_native) {
+    mjs_set_errorf(mjs, MJS_OK, NULL);
+    free(mjs->stack_trace);
+    mjs->stack_trace = NULL;
+  }
+
   if (mjs_is_foreign(func)) {
     ((void (*) (struct mjs *)) mjs_get_ptr(mjs, func))(mjs);
-    if (res != NULL) *res = *resp;
   } else if (mjs_is_ffi_sig(func)) {
     mjs_ffi_call2(mjs);
-    if (res != NULL) *res = *resp;
   } else {
     size_t addr = mjs_get_func_addr(func);
     mjs_execute(mjs, addr, &r);
@@ -4819,16 +5072,16 @@ mjs_err_t mjs_apply(struct mjs *mjs, mjs_val_t *res, mjs_val_t func,
   }
 
   /*
-   * If there was an error, we need to restore frame and do the cleanup
-   * which is otherwise done by OP_RETURN
+   * If the callee is not a bytecode function, or if there was an error, we need
+   * to restore frame and do the cleanup which is otherwise done by OP_RETURN
    */
-  if (mjs->error != MJS_OK) {
+  if (is_native || mjs->error != MJS_OK) {
     call_stack_restore_frame(mjs);
 
-    // Pop cell at which the returned value should've been written
-    mjs_pop(mjs);
+    // Pop cell at which the returned value is (or should've been) written
+    r = mjs_pop(mjs);
+    if (is_native && res != NULL) *res = r;
   }
-  mjs->vals.this_obj = prev_this_val;
 
   return mjs->error;
 }
@@ -5020,6 +5273,12 @@ MJS_PRIVATE mjs_err_t mjs_parse_ffi_signature(struct mjs *mjs, const char *s,
       goto clean;
     }
 
+    if (fn.len >= sizeof(buf)) {
+      /* A truncated name might be the name of another function */
+      ret = MJS_TYPE_ERROR;
+      mjs_prepend_errorf(mjs, ret, "function name is too long");
+      goto clean;
+    }
     snprintf(buf, sizeof(buf), "%.*s", (int) fn.len, fn.p);
     sig->fn = (ffi_fn_t *) mjs->dlsym(RTLD_DEFAULT, buf);
     if (sig->fn == NULL) {
@@ -5182,7 +5441,7 @@ static union ffi_cb_data_val ffi_cb_impl_generic(void *param,
         args[i] = cbargs->userdata;
         break;
       case MJS_FFI_CTYPE_INT:
-        args[i] = mjs_mk_number(mjs, (double) data->args[i].w);
+        args[i] = mjs_mk_number(mjs, (double) (int) data->args[i].w);
         break;
       case MJS_FFI_CTYPE_BOOL:
         args[i] = mjs_mk_boolean(mjs, !!data->args[i].w);
@@ -5350,9 +5609,12 @@ static uintptr_t ffi_cb_impl_wdp(double d0, uintptr_t w1) {
 
 static struct mjs_ffi_cb_args **ffi_get_matching(struct mjs_ffi_cb_args **plist,
                                                  mjs_val_t func,
-                                                 mjs_val_t userdata) {
+                                                 mjs_val_t userdata,
+                                                 const mjs_ffi_sig_t *sig) {
   for (; *plist != NULL; plist = &((*plist)->next)) {
-    if ((*plist)->func == func && (*plist)->userdata == userdata) {
+    if ((*plist)->func == func && (*plist)->userdata == userdata &&
+        (sig == NULL || memcmp((*plist)->sig.val_types, sig->val_types,
+                               sizeof(sig->val_types)) == 0)) {
       break;
     }
   }
@@ -5417,7 +5679,8 @@ static ffi_fn_t *get_cb_impl_by_signature(const mjs_ffi_sig_t *sig) {
             }
             break;
           case 1:
-            /* 1 double argument */
+            /* 1 double argument; the only other one must be the userdata */
+            if (sig->args_cnt != 2) return NULL;
             switch (userdata_idx) {
               case 1:
                 return (ffi_fn_t *) ffi_cb_impl_wpd;
@@ -5600,6 +5863,7 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not an int (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
@@ -5631,15 +5895,30 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
           mjs_prepend_errorf(
               mjs, ret, "actual arg #%d is not a bool (the type idx is: %s)", i,
               mjs_typeof(arg));
+          goto clean;
         }
         ffi_set_word(&args[i], intval);
       } break;
       case MJS_FFI_CTYPE_DOUBLE:
-        ffi_set_double(&args[i], mjs_get_double(mjs, arg));
-        break;
-      case MJS_FFI_CTYPE_FLOAT:
-        ffi_set_float(&args[i], (float) mjs_get_double(mjs, arg));
-        break;
+      case MJS_FFI_CTYPE_FLOAT: {
+        double dval = 0;
+        if (mjs_is_number(arg)) {
+          dval = mjs_get_double(mjs, arg);
+        } else if (mjs_is_boolean(arg)) {
+          dval = mjs_get_bool(mjs, arg);
+        } else {
+          ret = MJS_TYPE_ERROR;
+          mjs_prepend_errorf(
+              mjs, ret, "actual arg #%d is not a number (the type idx is: %s)",
+              i, mjs_typeof(arg));
+          goto clean;
+        }
+        if (psig->val_types[1 + i] == MJS_FFI_CTYPE_DOUBLE) {
+          ffi_set_double(&args[i], dval);
+        } else {
+          ffi_set_float(&args[i], (float) dval);
+        }
+      } break;
       case MJS_FFI_CTYPE_CHAR_PTR: {
         size_t s;
         if (mjs_is_string(arg)) {
@@ -5716,7 +5995,8 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
      * Get cbargs: either reuse the existing one (if the matching item exists),
      * or create a new one.
      */
-    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata);
+    pitem = ffi_get_matching(&mjs->ffi_cb_args, cbdata.func, cbdata.userdata,
+                             psig->cb_sig);
     if (*pitem == NULL) {
       /* No matching cbargs item; we need to add a new one */
       cbargs = calloc(1, sizeof(*cbargs));
@@ -5751,7 +6031,11 @@ MJS_PRIVATE mjs_err_t mjs_ffi_call2(struct mjs *mjs) {
     abort();
   }
 
-  ffi_call(psig->fn, nargs, &res, args);
+  if (ffi_call(psig->fn, nargs, &res, args) != 0) {
+    ret = MJS_TYPE_ERROR;
+    mjs_prepend_errorf(mjs, ret, "unsupported combination of argument types");
+    goto clean;
+  }
 
   switch (rtype) {
     case MJS_FFI_CTYPE_CHAR_PTR: {
@@ -5808,14 +6092,18 @@ MJS_PRIVATE void mjs_ffi_cb_free(struct mjs *mjs) {
 
   if (mjs_is_function(func)) {
     struct mjs_ffi_cb_args **pitem =
-        ffi_get_matching(&mjs->ffi_cb_args, func, userdata);
-    if (*pitem != NULL) {
-      /* Found matching item: remove it from the linked list, and free */
+        ffi_get_matching(&mjs->ffi_cb_args, func, userdata, NULL);
+    while (*pitem != NULL) {
+      /*
+       * Found matching item (there might be several of them, with different
+       * signatures): remove it from the linked list, and free
+       */
       struct mjs_ffi_cb_args *cbargs = *pitem;
       *pitem = cbargs->next;
       mjs_ffi_sig_free(&cbargs->sig);
       free(cbargs);
       ret = mjs_mk_number(mjs, 1);
+      pitem = ffi_get_matching(pitem, func, userdata, NULL);
     }
   } else {
     mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "missing argument 'func'");
@@ -5876,6 +6164,11 @@ MJS_PRIVATE int mjs_ffi_sig_validate(struct mjs *mjs, mjs_ffi_sig_t *sig,
 
   switch (sig_type) {
     case FFI_SIG_FUNC:
+      if (sig->is_callback) {
+        /* There is nothing to call: a pointer type doesn't name a function */
+        mjs_prepend_errorf(mjs, MJS_TYPE_ERROR, "not a function");
+        goto clean;
+      }
       /* Make sure return type is fine */
       if (sig->val_types[0] != MJS_FFI_CTYPE_NONE &&
           sig->val_types[0] != MJS_FFI_CTYPE_INT &&
@@ -5889,6 +6182,11 @@ MJS_PRIVATE int mjs_ffi_sig_validate(struct mjs *mjs, mjs_ffi_sig_t *sig,
       }
       break;
     case FFI_SIG_CALLBACK:
+      if (!sig->is_callback) {
+        mjs_prepend_errorf(mjs, MJS_TYPE_ERROR,
+                           "callback should be a function pointer");
+        goto clean;
+      }
       /* Make sure return type is fine */
       if (sig->val_types[0] != MJS_FFI_CTYPE_NONE &&
           sig->val_types[0] != MJS_FFI_CTYPE_INT &&
@@ -6311,6 +6609,9 @@ static void gc_mark_object(struct mjs *mjs, mjs_val_t *v) {
       abort();
     }
 
+    /* If already marked by gc_mark_iterator(), so are all the next ones */
+    if (MARKED(prop)) break;
+
     gc_mark(mjs, &prop->name);
     gc_mark(mjs, &prop->value);
 
@@ -6493,8 +6794,35 @@ static void gc_mark_ffi_cbargs_list(struct mjs *mjs, ffi_cb_args_t *cbargs) {
   }
 }
 
+/*
+ * Data stack might contain iterators of for-in loops, which are foreign
+ * pointers to properties. The property might have been deleted from the object
+ * meanwhile, but the loop is still going to use it (and those after it).
+ */
+static void gc_mark_iterators(struct mjs *mjs, const struct mbuf *stack) {
+  const mjs_val_t *v = (const mjs_val_t *) stack->buf;
+  const mjs_val_t *end = v + stack->len / sizeof(*v);
+
+  for (; v < end; v++) {
+    struct mjs_property *prop, *next;
+    if (!mjs_is_foreign(*v)) continue;
+    prop = (struct mjs_property *) get_ptr(*v);
+    while (prop != NULL && gc_check_ptr(&mjs->property_arena, prop) &&
+           !MARKED(prop)) {
+      next = prop->next;
+      MARK(prop);
+      gc_mark(mjs, &prop->name);
+      gc_mark(mjs, &prop->value);
+      prop = next;
+    }
+  }
+}
+
 /* Perform garbage collection */
 void mjs_gc(struct mjs *mjs, int full) {
+  /* Before the values on the stack are replaced by gc_mark_string() */
+  gc_mark_iterators(mjs, &mjs->stack);
+
   gc_mark_val_array(mjs, (mjs_val_t *) &mjs->vals,
                     sizeof(mjs->vals) / sizeof(mjs_val_t));
 
@@ -6502,6 +6830,7 @@ void mjs_gc(struct mjs *mjs, int full) {
   gc_mark_mbuf_val(mjs, &mjs->scopes);
   gc_mark_mbuf_val(mjs, &mjs->stack);
   gc_mark_mbuf_val(mjs, &mjs->call_stack);
+  gc_mark_mbuf_val(mjs, &mjs->arg_stack);
 
   gc_mark_ffi_cbargs_list(mjs, mjs->ffi_cb_args);
 
@@ -6612,11 +6941,10 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
    * 0x8 -> \b
    * 0x9 -> \t
    * 0xa -> \n
-   * 0xb -> \v
    * 0xc -> \f
    * 0xd -> \r
    */
-  const char *specials = "btnvfr";
+  const char *specials = "btn\0fr";
   size_t i = 0;
 
   i++;
@@ -6626,12 +6954,12 @@ static int snquote(char *buf, size_t size, const char *s, size_t len) {
     if (*s == '"' || *s == '\\') {
       i++;
       if (buf < limit) *buf++ = '\\';
-    } else if (*s >= '\b' && *s <= '\r') {
+    } else if (*s >= '\b' && *s <= '\r' && *s != '\v') {
       i += 2;
       if (buf < limit) *buf++ = '\\';
       if (buf < limit) *buf++ = specials[*s - '\b'];
       continue;
-    } else if ((unsigned char) *s < '\b' || (*s > '\r' && *s < ' ')) {
+    } else if ((unsigned char) *s < ' ') {
       i += 6 /* \uXXXX */;
       if (buf < limit) *buf++ = '\\';
       buf = append_hex(buf, limit, (uint8_t) *s);
@@ -6683,6 +7011,11 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
     }
   }
 
+  /* There are no such numbers in JSON */
+  if (!is_debug && mjs_is_number(v) && !isfinite(mjs_get_double(mjs, v))) {
+    v = MJS_NULL;
+  }
+
   switch (mjs_get_type(v)) {
     case MJS_TYPE_NULL:
     case MJS_TYPE_BOOLEAN:
@@ -6732,7 +7065,8 @@ MJS_PRIVATE mjs_err_t to_json_or_debug(struct mjs *mjs, mjs_val_t v, char *buf,
           b += c_snprintf(b, BUF_LEFT(size, b - buf), ",");
         }
         s = mjs_get_string(mjs, &prop->name, &n);
-        b += c_snprintf(b, BUF_LEFT(size, b - buf), "\"%.*s\":", (int) n, s);
+        b += snquote(b, BUF_LEFT(size, b - buf), s, n);
+        b += c_snprintf(b, BUF_LEFT(size, b - buf), ":");
         {
           size_t tmp = 0;
           rcode = to_json_or_debug(mjs, prop->value, b, BUF_LEFT(size, b - buf),
@@ -6888,6 +7222,7 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         int len = json_unescape(token->ptr, token->len, dst, token->len);
         if (len < 0) {
           mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+          free(dst);
           break;
         }
         v = mjs_mk_string(ctx->mjs, dst, len, 1 /* copy */);
@@ -6932,10 +7267,17 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
   }
 
   if (!mjs_is_undefined(v)) {
-    if (name != NULL && name_len != 0) {
+    if (ctx->frame != NULL) {
       /* Need to define a property on the current object/array */
       if (mjs_is_object(ctx->frame->val)) {
-        mjs_set(ctx->mjs, ctx->frame->val, name, name_len, v);
+        char *key = malloc(name_len + 1);
+        int key_len = json_unescape(name, name_len, key, name_len);
+        if (key_len < 0) {
+          mjs_prepend_errorf(ctx->mjs, MJS_TYPE_ERROR, "invalid JSON string");
+        } else {
+          mjs_set(ctx->mjs, ctx->frame->val, key, key_len, v);
+        }
+        free(key);
       } else if (mjs_is_array(ctx->frame->val)) {
         /*
          * TODO(dfrank): consult name_len. Currently it's not a problem due to
@@ -6947,10 +7289,9 @@ static void frozen_cb(void *data, const char *name, size_t name_len,
         LOG(LL_ERROR, ("Current value is neither object nor array\n"));
       }
     } else {
-      /* This is a root value */
-      assert(ctx->frame == NULL);
-
       /*
+       * This is a root value
+       *
        * This value will also be the overall result of JSON parsing
        * (it's already owned by the `mjs_alt_json_parse()`)
        */
@@ -6990,8 +7331,10 @@ mjs_json_parse(struct mjs *mjs, const char *str, size_t len, mjs_val_t *res) {
      * frozen_cb can create new strings, which can result in the reallocation
      * of mjs string mbuf, invalidating the `str` pointer.
      */
-    char *stmp = malloc(len);
+    char *stmp = malloc(len + 1);
     memcpy(stmp, str, len);
+    /* frozen and strtod() might look at the character past the end */
+    stmp[len] = '\0';
     json_res = json_walk(stmp, len, frozen_cb, ctx);
     free(stmp);
     stmp = NULL;
@@ -7258,9 +7601,20 @@ mjs_val_t mjs_get_v(struct mjs *mjs, mjs_val_t obj, mjs_val_t name) {
 mjs_val_t mjs_get_v_proto(struct mjs *mjs, mjs_val_t obj, mjs_val_t key) {
   struct mjs_property *p;
   mjs_val_t pn = mjs_mk_string(mjs, MJS_PROTO_PROP_NAME, ~0, 1);
-  if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
-  if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) return MJS_UNDEFINED;
-  return mjs_get_v_proto(mjs, p->value, key);
+  mjs_val_t mark = obj; /* some previously visited object, to detect cycles */
+  unsigned int cnt = 0, limit = 1;
+  for (;;) {
+    if ((p = mjs_get_own_property_v(mjs, obj, key)) != NULL) return p->value;
+    if ((p = mjs_get_own_property_v(mjs, obj, pn)) == NULL) break;
+    obj = p->value;
+    if (obj == mark) break;
+    if (++cnt == limit) {
+      mark = obj;
+      limit *= 2;
+      cnt = 0;
+    }
+  }
+  return MJS_UNDEFINED;
 }
 
 mjs_err_t mjs_set(struct mjs *mjs, mjs_val_t obj, const char *name,
@@ -7302,14 +7656,17 @@ MJS_PRIVATE mjs_err_t mjs_set_internal(struct mjs *mjs, mjs_val_t obj,
   if (p == NULL) {
     struct mjs_object *o;
     if (!mjs_is_object(obj)) {
-      return MJS_REFERENCE_ERROR;
+      rcode = MJS_REFERENCE_ERROR;
+      goto clean;
     }
 
     /*
      * name_v might be not a string here. In this case, we need to create a new
-     * `name_v`, which will be a string.
+     * `name_v`, which will be a string. A foreign string is copied as well: the
+     * memory it refers to may change, and short names are looked up by value.
      */
-    if (!mjs_is_string(name_v)) {
+    if (!mjs_is_string(name_v) ||
+        (name_v & MJS_TAG_MASK) == MJS_TAG_STRING_F) {
       name_v = mjs_mk_string(mjs, name, name_len, 1);
     }
 
@@ -7350,7 +7707,7 @@ int mjs_del(struct mjs *mjs, mjs_val_t obj, const char *name, size_t len) {
        prev = prop, prop = prop->next) {
     size_t n;
     const char *s = mjs_get_string(mjs, &prop->name, &n);
-    if (n == len && strncmp(s, name, len) == 0) {
+    if (n == len && memcmp(s, name, len) == 0) {
       if (prev) {
         prev->next = prop->next;
       } else {
@@ -7455,7 +7812,7 @@ mjs_val_t mjs_struct_to_obj(struct mjs *mjs, const void *base,
       }
       case MJS_STRUCT_FIELD_TYPE_CHAR_PTR: {
         const char *value = *(const char **) ptr;
-        v = mjs_mk_string(mjs, value, ~0, 1);
+        v = (value != NULL) ? mjs_mk_string(mjs, value, ~0, 1) : MJS_NULL;
         break;
       }
       case MJS_STRUCT_FIELD_TYPE_VOID_PTR: {
@@ -7588,6 +7945,20 @@ static void emit_op(struct pstate *pstate, int tok) {
 #define BINOP_STACK_FRAME_SIZE 16
 #define STACK_LIMIT 8192
 
+/* Guards the recursion in the parser; every successful enter needs a leave */
+static mjs_err_t enter(struct pstate *p) {
+  if (p->depth >= (STACK_LIMIT / BINOP_STACK_FRAME_SIZE)) {
+    mjs_set_errorf(p->mjs, MJS_SYNTAX_ERROR, "parser stack overflow");
+    return MJS_SYNTAX_ERROR;
+  }
+  p->depth++;
+  return MJS_OK;
+}
+
+static void leave(struct pstate *p) {
+  p->depth--;
+}
+
 // Intentionally left as macro rather than a function, to let the
 // compiler to inline calls and mimimize runtime stack usage.
 #define PARSE_LTR_BINOP(p, f1, f2, ops, prev_op)                               \
@@ -7637,7 +8008,10 @@ static void emit_op(struct pstate *pstate, int tok) {
     if (findtok(ops, p->tok.tok) != TOK_EOF) {          \
       int op = p->tok.tok;                              \
       pnext1(p);                                        \
-      if ((res = f2(p, TOK_EOF)) != MJS_OK) return res; \
+      if ((res = enter(p)) != MJS_OK) return res;       \
+      res = f2(p, TOK_EOF);                             \
+      leave(p);                                         \
+      if (res != MJS_OK) return res;                    \
       emit_op(p, op);                                   \
     }                                                   \
     return res;                                         \
@@ -7688,6 +8062,7 @@ static mjs_err_t parse_block(struct pstate *p, int mkscope) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   if (mkscope) emit_byte(p, OP_NEW_SCOPE);
   res = parse_statement_list(p, TOK_CLOSE_CURLY);
+  p->depth--;
   EXPECT(p, TOK_CLOSE_CURLY);
   if (mkscope) emit_byte(p, OP_DEL_SCOPE);
   return res;
@@ -7734,6 +8109,7 @@ static mjs_err_t parse_function(struct pstate *p) {
     pnext1(p);
   }
   EXPECT(p, TOK_CLOSE_PAREN);
+  if (p->tok.tok != TOK_OPEN_CURLY) SYNTAX_ERROR(p);
   if ((res = parse_block(p, 0)) != MJS_OK) return res;
   emit_byte(p, OP_RETURN);
   prologue += mjs_bcode_insert_offset(p, p->mjs, off,
@@ -7747,6 +8123,16 @@ static mjs_err_t parse_function(struct pstate *p) {
   return res;
 }
 
+/* Emit the code which pushes the value of the given string literal */
+static void emit_str_literal(struct pstate *p, const struct tok *t) {
+  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
+  size_t oldlen;
+  emit_byte(p, OP_PUSH_STR);
+  oldlen = bcode_gen->len;
+  embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
+  p->cur_idx += bcode_gen->len - oldlen;
+}
+
 static mjs_err_t parse_object_literal(struct pstate *p) {
   mjs_err_t res = MJS_OK;
   EXPECT(p, TOK_OPEN_CURLY);
@@ -7754,8 +8140,12 @@ static mjs_err_t parse_object_literal(struct pstate *p) {
   while (p->tok.tok != TOK_CLOSE_CURLY) {
     if (p->tok.tok != TOK_IDENT && p->tok.tok != TOK_STR) SYNTAX_ERROR(p);
     emit_byte(p, OP_DUP);
-    emit_byte(p, OP_PUSH_STR);
-    emit_str(p, p->tok.ptr, p->tok.len);
+    if (p->tok.tok == TOK_STR) {
+      emit_str_literal(p, &p->tok);
+    } else {
+      emit_byte(p, OP_PUSH_STR);
+      emit_str(p, p->tok.ptr, p->tok.len);
+    }
     emit_byte(p, OP_SWAP);
     pnext1(p);
     EXPECT(p, TOK_COLON);
@@ -7785,7 +8175,6 @@ static mjs_err_t parse_array_literal(struct pstate *p) {
 }
 
 static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
-  struct mbuf *bcode_gen = &p->mjs->bcode_gen;
   enum mjs_err res = MJS_OK;
   int tok = t->tok;
   LOG(LL_VERBOSE_DEBUG, ("[%.*s] %p", p->tok.len, p->tok.ptr, (void *) &t));
@@ -7820,7 +8209,7 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       double iv, d = strtod(t->ptr, NULL);
       unsigned long uv = strtoul(t->ptr + 2, NULL, 16);
       if (t->ptr[0] == '0' && t->ptr[1] == 'x') d = uv;
-      if (modf(d, &iv) == 0) {
+      if (modf(d, &iv) == 0 && d < 9223372036854775808.0 /* 2^63 */) {
         emit_byte(p, OP_PUSH_INT);
         emit_int(p, (int64_t) d);
       } else {
@@ -7829,13 +8218,9 @@ static enum mjs_err parse_literal(struct pstate *p, const struct tok *t) {
       }
       break;
     }
-    case TOK_STR: {
-      size_t oldlen;
-      emit_byte(p, OP_PUSH_STR);
-      oldlen = bcode_gen->len;
-      embed_string(bcode_gen, p->cur_idx, t->ptr, t->len, EMBSTR_UNESCAPE);
-      p->cur_idx += bcode_gen->len - oldlen;
-    } break;
+    case TOK_STR:
+      emit_str_literal(p, t);
+      break;
     case TOK_OPEN_BRACKET:
       res = parse_array_literal(p);
       break;
@@ -7888,7 +8273,10 @@ static mjs_err_t parse_call_dot_mem(struct pstate *p, int prev_op) {
       EXPECT(p, TOK_CLOSE_PAREN);
     } else if (p->tok.tok == TOK_DOT) {
       EXPECT(p, TOK_DOT);
-      if ((res = parse_call_dot_mem(p, TOK_DOT)) != MJS_OK) return res;
+      if ((res = enter(p)) != MJS_OK) return res;
+      res = parse_call_dot_mem(p, TOK_DOT);
+      leave(p);
+      if (res != MJS_OK) return res;
     }
   }
   (void) prev_op;
@@ -7914,7 +8302,9 @@ static mjs_err_t parse_unary(struct pstate *p, int prev_op) {
     pnext1(p);
   }
   if (findtok(s_unary_ops, p->tok.tok) != TOK_EOF) {
+    if ((res = enter(p)) != MJS_OK) return res;
     res = parse_unary(p, prev_op);
+    leave(p);
   } else {
     res = parse_postfix(p, prev_op);
   }
@@ -7988,7 +8378,10 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     off_if = p->cur_idx;
     emit_init_offset(p);
 
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    if ((res = enter(p)) != MJS_OK) return res;
+    res = parse_ternary(p, TOK_EOF);
+    leave(p);
+    if (res != MJS_OK) return res;
 
     emit_byte(p, OP_JMP);
     off_else = p->cur_idx;
@@ -7998,7 +8391,10 @@ static mjs_err_t parse_ternary(struct pstate *p, int prev_op) {
     emit_byte(p, OP_DROP);
 
     EXPECT(p, TOK_COLON);
-    if ((res = parse_ternary(p, TOK_EOF)) != MJS_OK) return res;
+    if ((res = enter(p)) != MJS_OK) return res;
+    res = parse_ternary(p, TOK_EOF);
+    leave(p);
+    if (res != MJS_OK) return res;
 
     /*
      * NOTE: if inserting offset causes the code to move, off_endif needs to be
@@ -8055,7 +8451,7 @@ static mjs_err_t parse_let(struct pstate *p) {
 }
 
 static mjs_err_t parse_block_or_stmt(struct pstate *p, int cs) {
-  if (ptest(p) == TOK_OPEN_CURLY) {
+  if (p->tok.tok == TOK_OPEN_CURLY) {
     return parse_block(p, cs);
   } else {
     return parse_statement(p);
@@ -8083,7 +8479,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   /* Put object to the stack */
   EXPECT(p, TOK_IDENT);
   EXPECT(p, TOK_KEYWORD_IN);
-  parse_expr(p);
+  if ((res = parse_expr(p)) != MJS_OK) return res;
   EXPECT(p, TOK_CLOSE_PAREN);
 
   emit_byte(p, OP_PUSH_UNDEF); /* Push iterator */
@@ -8101,12 +8497,7 @@ static mjs_err_t parse_for_in(struct pstate *p) {
   emit_init_offset(p);
 
   // Parse loop body
-  if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
-  } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
-  }
+  if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
 
@@ -8228,12 +8619,7 @@ static mjs_err_t parse_for(struct pstate *p) {
   emit_init_offset(p);
 
   /* Parse loop body */
-  if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
-  } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
-  }
+  if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
 
@@ -8304,12 +8690,7 @@ static mjs_err_t parse_while(struct pstate *p) {
   emit_init_offset(p);
 
   // Parse loop body
-  if (p->tok.tok == TOK_OPEN_CURLY) {
-    if ((res = parse_statement_list(p, TOK_CLOSE_CURLY)) != MJS_OK) return res;
-    pnext1(p);
-  } else {
-    if ((res = parse_statement(p)) != MJS_OK) return res;
-  }
+  if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
   emit_byte(p, OP_DROP);
   emit_byte(p, OP_CONTINUE);
 
@@ -8331,6 +8712,7 @@ static mjs_err_t parse_while(struct pstate *p) {
 
 static mjs_err_t parse_if(struct pstate *p) {
   size_t off_if, off_endif;
+  int is_block;
   mjs_err_t res = MJS_OK;
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   EXPECT(p, TOK_KEYWORD_IF);
@@ -8342,8 +8724,15 @@ static mjs_err_t parse_if(struct pstate *p) {
   emit_init_offset(p);
 
   EXPECT(p, TOK_CLOSE_PAREN);
+  is_block = (p->tok.tok == TOK_OPEN_CURLY);
   if ((res = parse_block_or_stmt(p, 1)) != MJS_OK) return res;
 
+  /* A semicolon which ends the statement may be followed by `else` */
+  if (!is_block && p->tok.tok == TOK_SEMICOLON &&
+      ptest(p) == TOK_KEYWORD_ELSE) {
+    pnext1(p);
+  }
+
   if (p->tok.tok == TOK_KEYWORD_ELSE) {
     /*
      * Else clause is present, so, if the condition is not true, the jump
@@ -8379,39 +8768,22 @@ static mjs_err_t parse_if(struct pstate *p) {
   return res;
 }
 
-static void pstate_revert(struct pstate *p, struct pstate *old,
-                          int old_bcode_gen_len) {
-  p->pos = old->pos;
-  p->line_no = old->line_no;
-  p->last_emitted_line_no = old->last_emitted_line_no;
-  p->offset_lineno_map.len = old->offset_lineno_map.len;
-  p->prev_tok = old->prev_tok;
-  p->tok = old->tok;
-  p->mjs->bcode_gen.len = old_bcode_gen_len;
-  p->cur_idx = old->cur_idx;
-  p->depth = old->depth;
-}
-
 static mjs_err_t parse_return(struct pstate *p) {
-  int old_bcode_gen_len;
-  struct pstate p_saved;
+  mjs_err_t res = MJS_OK;
   EXPECT(p, TOK_KEYWORD_RETURN);
-  p_saved = *p;
-  old_bcode_gen_len = p->mjs->bcode_gen.len;
-  if (parse_expr(p) != MJS_OK) {
-    /*
-     * Failed to parse an expression to return, so return the parser to the
-     * prior state and push undefined.
-     */
-    pstate_revert(p, &p_saved, old_bcode_gen_len);
+  if (p->tok.tok == TOK_SEMICOLON || p->tok.tok == TOK_CLOSE_CURLY ||
+      p->tok.tok == TOK_EOF) {
+    /* There is no expression to return, so push undefined. */
     emit_byte(p, OP_PUSH_UNDEF);
+  } else if ((res = parse_expr(p)) != MJS_OK) {
+    return res;
   }
   emit_byte(p, OP_SETRETVAL);
   emit_byte(p, OP_RETURN);
-  return MJS_OK;
+  return res;
 }
 
-static mjs_err_t parse_statement(struct pstate *p) {
+static mjs_err_t parse_single_statement(struct pstate *p) {
   LOG(LL_VERBOSE_DEBUG, ("[%.*s]", 10, p->tok.ptr));
   switch (p->tok.tok) {
     case TOK_SEMICOLON:
@@ -8467,6 +8839,14 @@ static mjs_err_t parse_statement(struct pstate *p) {
   }
 }
 
+static mjs_err_t parse_statement(struct pstate *p) {
+  mjs_err_t res = enter(p);
+  if (res != MJS_OK) return res;
+  res = parse_single_statement(p);
+  leave(p);
+  return res;
+}
+
 MJS_PRIVATE mjs_err_t
 mjs_parse(const char *path, const char *buf, struct mjs *mjs) {
   mjs_err_t res = MJS_OK;
@@ -8588,7 +8968,11 @@ static double get_double(mjs_val_t v) {
     mjs_val_t v;
   } u;
   u.v = v;
-  /* Due to NaN packing, any non-numeric value is already a valid NaN value */
+  /*
+   * Due to NaN packing, any non-numeric value is already a valid NaN value;
+   * make it a quiet one, C functions treat signaling NaNs differently
+   */
+  if (isnan(u.d)) u.v |= (mjs_val_t) 1 << 51;
   return u.d;
 }
 
@@ -8925,7 +9309,7 @@ int mjs_strcmp(struct mjs *mjs, mjs_val_t *a, const char *b, size_t len) {
   if (n != len) {
     return n - len;
   }
-  return strncmp(s, b, len);
+  return memcmp(s, b, len);
 }
 
 MJS_PRIVATE unsigned long cstr_to_ulong(const char *s, size_t len, int *ok) {
@@ -8941,6 +9325,8 @@ str_to_ulong(struct mjs *mjs, mjs_val_t v, int *ok, unsigned long *res) {
   size_t len = 0;
   const char *p = mjs_get_string(mjs, &v, &len);
   *res = cstr_to_ulong(p, len, ok);
+  /* only the canonical form is an index: "07", " 1" or "+1" are plain names */
+  if (*ok && (!isdigit((unsigned char) *p) || (*p == '0' && len > 1))) *ok = 0;
 
   return ret;
 }
@@ -9597,10 +9983,20 @@ MJS_PRIVATE const char *mjs_stringify_type(enum mjs_type t) {
 void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
   if (mjs_is_number(v)) {
     double iv, d = mjs_get_double(mjs, v);
-    if (modf(d, &iv) == 0) {
+    if (modf(d, &iv) == 0 && fabs(d) < 9223372036854775808.0 /* 2^63 */) {
       json_printf(out, "%" INT64_FMT, (int64_t) d);
+    } else if (isnan(d)) {
+      json_printf(out, "%s", "NaN");
+    } else if (isinf(d)) {
+      json_printf(out, "%s", d < 0 ? "-Infinity" : "Infinity");
     } else {
-      json_printf(out, "%f", mjs_get_double(mjs, v));
+      /* Use as many digits as needed to get the same number when parsed back */
+      char buf[30];
+      int prec = 6;
+      do {
+        snprintf(buf, sizeof(buf), "%.*g", prec, d);
+      } while (strtod(buf, NULL) != d && prec++ < 17);
+      json_printf(out, "%s", buf);
     }
   } else if (mjs_is_boolean(v)) {
     json_printf(out, "%s", mjs_get_bool(mjs, v) ? "true" : "false");
@@ -9635,6 +10031,8 @@ void mjs_jprintf(mjs_val_t v, struct mjs *mjs, struct json_out *out) {
 
 void mjs_sprintf(mjs_val_t v, struct mjs *mjs, char *buf, size_t n) {
   struct json_out out = JSON_OUT_BUF(buf, n);
+  /* json_printf() terminates the buffer, but it isn't called for "" */
+  if (n > 0) buf[0] = '\0';
   mjs_jprintf(v, mjs, &out);
 }
 
@@ -9643,6 +10041,8 @@ void mjs_fprintf(mjs_val_t v, struct mjs *mjs, FILE *fp) {
   mjs_jprintf(v, mjs, &out);
 }
 
+#if MJS_ENABLE_DEBUG
+
 MJS_PRIVATE const char *opcodetostr(uint8_t opcode) {
   static const char *names[] = {
       "NOP", "DROP", "DUP", "SWAP", "JMP", "JMP_TRUE", "JMP_NEUTRAL_TRUE",
@@ -9815,14 +10215,12 @@ void mjs_disasm(const uint8_t *code, size_t len) {
     i += delta;
 
     if (map_offset > 0 && i == start + map_offset) {
-      i = start + total_size - 1;
+      i = start + total_size;
       continue;
     }
   }
 }
 
-#if MJS_ENABLE_DEBUG
-
 static void mjs_dump_obj_stack(const char *name, const struct mbuf *m,
                                struct mjs *mjs) {
   char buf[50];
@@ -9953,12 +10351,10 @@ int mjs_get_lineno_by_offset(struct mjs *mjs, int offset) {
       cs_varint_decode(p, ~0, &line_no, &llen);
       p += llen;
 
-      if (cur_offset >= (uint64_t) offset) {
-        ret = prev_line_no;
-        break;
-      }
+      if (cur_offset >= (uint64_t) offset) break;
       prev_line_no = line_no;
     }
+    ret = prev_line_no;
   }
   return ret;
 }
-- 
2.43.0


From cf76f72c1271fe048e784c75e0f8a33670f29640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:12 +0000
Subject: [PATCH 74/81] fix: JSON text which ends with a backslash is read past
 its end

---
 mjs.c               | 3 ++-
 src/frozen/frozen.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mjs.c b/mjs.c
index 3e79f09..1e01aa4 100644
--- a/mjs.c
+++ b/mjs.c
@@ -5042,6 +5042,7 @@ static int json_isxdigit(int ch) {
 }
 
 static int json_get_escape_len(const char *s, int len) {
+  if (len < 2) return JSON_STRING_INCOMPLETE; /* There is nothing at `s` */
   switch (*s) {
     case 'u':
       return len < 6 ? JSON_STRING_INCOMPLETE
@@ -5057,7 +5058,7 @@ static int json_get_escape_len(const char *s, int len) {
     case 'n':
     case 'r':
     case 't':
-      return len < 2 ? JSON_STRING_INCOMPLETE : 1;
+      return 1;
     default:
       return JSON_STRING_INVALID;
   }
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 8280d62..ad6640a 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -187,6 +187,7 @@ static int json_isxdigit(int ch) {
 }
 
 static int json_get_escape_len(const char *s, int len) {
+  if (len < 2) return JSON_STRING_INCOMPLETE; /* There is nothing at `s` */
   switch (*s) {
     case 'u':
       return len < 6 ? JSON_STRING_INCOMPLETE
@@ -202,7 +203,7 @@ static int json_get_escape_len(const char *s, int len) {
     case 'n':
     case 'r':
     case 't':
-      return len < 2 ? JSON_STRING_INCOMPLETE : 1;
+      return 1;
     default:
       return JSON_STRING_INVALID;
   }
-- 
2.43.0


From f3b1638f268e9ec2f0ac042d3b9decef32db57ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:12 +0000
Subject: [PATCH 75/81] fix: json_escape: wrong digits of control characters,
 incomplete UTF-8

---
 mjs.c               | 7 ++++---
 src/frozen/frozen.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/mjs.c b/mjs.c
index 1e01aa4..7c62ae7 100644
--- a/mjs.c
+++ b/mjs.c
@@ -5311,16 +5311,17 @@ int json_escape(struct json_out *out, const char *p, size_t len) {
     if (ch == '"' || ch == '\\') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, p + i, 1);
-    } else if (ch >= '\b' && ch <= '\r') {
+    } else if (ch >= '\b' && ch <= '\r' && ch != '\v') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, &specials[ch - '\b'], 1);
     } else if (isprint(ch)) {
       n += out->printer(out, p + i, 1);
     } else if ((cl = json_get_utf8_char_len(ch)) == 1) {
       n += out->printer(out, "\\u00", 4);
-      n += out->printer(out, &hex_digits[(ch >> 4) % 0xf], 1);
-      n += out->printer(out, &hex_digits[ch % 0xf], 1);
+      n += out->printer(out, &hex_digits[(ch >> 4) & 0xf], 1);
+      n += out->printer(out, &hex_digits[ch & 0xf], 1);
     } else {
+      if (cl > len - i) cl = len - i; /* Incomplete character */
       n += out->printer(out, p + i, cl);
       i += cl - 1;
     }
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index ad6640a..d0186c9 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -456,16 +456,17 @@ int json_escape(struct json_out *out, const char *p, size_t len) {
     if (ch == '"' || ch == '\\') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, p + i, 1);
-    } else if (ch >= '\b' && ch <= '\r') {
+    } else if (ch >= '\b' && ch <= '\r' && ch != '\v') {
       n += out->printer(out, "\\", 1);
       n += out->printer(out, &specials[ch - '\b'], 1);
     } else if (isprint(ch)) {
       n += out->printer(out, p + i, 1);
     } else if ((cl = json_get_utf8_char_len(ch)) == 1) {
       n += out->printer(out, "\\u00", 4);
-      n += out->printer(out, &hex_digits[(ch >> 4) % 0xf], 1);
-      n += out->printer(out, &hex_digits[ch % 0xf], 1);
+      n += out->printer(out, &hex_digits[(ch >> 4) & 0xf], 1);
+      n += out->printer(out, &hex_digits[ch & 0xf], 1);
     } else {
+      if (cl > len - i) cl = len - i; /* Incomplete character */
       n += out->printer(out, p + i, cl);
       i += cl - 1;
     }
-- 
2.43.0


From 7cb4797145452a13969d1916a314a824f2b654e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:13 +0000
Subject: [PATCH 76/81] fix: json_printf: conversions other than %d and %g take
 wrong arguments

---
 mjs.c               | 55 ++++++++++++++++++++++++---------------------
 src/frozen/frozen.c | 55 ++++++++++++++++++++++++---------------------
 2 files changed, 60 insertions(+), 50 deletions(-)

diff --git a/mjs.c b/mjs.c
index 7c62ae7..16a2e08 100644
--- a/mjs.c
+++ b/mjs.c
@@ -5506,14 +5506,15 @@ int json_vprintf(struct json_out *out, const char *fmt, va_list xap) {
          * TODO(dfrank): reimplement %s and %.*s in order to avoid that.
          */
 
-        const char *end_of_format_specifier = "sdfFeEgGlhuIcx.*-0123456789";
-        int n = strspn(fmt + 1, end_of_format_specifier);
+        const char *flags = "-+#.*0123456789hlI";
+        int i, n = strspn(fmt + 1, flags);
         char *pbuf = buf;
         int need_len, size = sizeof(buf);
         char fmt2[20];
         va_list ap_copy;
-        strncpy(fmt2, fmt,
-                n + 1 > (int) sizeof(fmt2) ? sizeof(fmt2) : (size_t) n + 1);
+        if (fmt[1 + n] != '\0') n++; /* The conversion */
+        if (n + 1 >= (int) sizeof(fmt2)) n = (int) sizeof(fmt2) - 2;
+        memcpy(fmt2, fmt, n + 1);
         fmt2[n + 1] = '\0';
 
         va_copy(ap_copy, ap);
@@ -5556,29 +5557,33 @@ int json_vprintf(struct json_out *out, const char *fmt, va_list xap) {
          * inherit the advancement made by vprintf.
          * 32-bit (linux or windows) passes va_list by value.
          */
-        if ((n + 1 == strlen("%" PRId64) && strcmp(fmt2, "%" PRId64) == 0) ||
-            (n + 1 == strlen("%" PRIu64) && strcmp(fmt2, "%" PRIu64) == 0)) {
-          (void) va_arg(ap, int64_t);
-        } else if (strcmp(fmt2, "%.*s") == 0) {
-          (void) va_arg(ap, int);
-          (void) va_arg(ap, char *);
-        } else {
-          switch (fmt2[n]) {
-            case 'u':
-            case 'd':
-              (void) va_arg(ap, int);
-              break;
-            case 'g':
-            case 'f':
-              (void) va_arg(ap, double);
-              break;
-            case 'p':
-              (void) va_arg(ap, void *);
-              break;
-            default:
+        for (i = 1; i < n; i++) {
+          if (fmt2[i] == '*') (void) va_arg(ap, int);
+        }
+        switch (fmt2[n]) {
+          case '%':
+            break;
+          case 'e':
+          case 'E':
+          case 'f':
+          case 'F':
+          case 'g':
+          case 'G':
+            (void) va_arg(ap, double);
+            break;
+          case 's':
+          case 'p':
+            (void) va_arg(ap, void *);
+            break;
+          default:
+            if (strstr(fmt2, "ll") != NULL || strstr(fmt2, "I64") != NULL) {
+              (void) va_arg(ap, int64_t);
+            } else if (strchr(fmt2, 'l') != NULL) {
+              (void) va_arg(ap, long);
+            } else {
               /* many types are promoted to int */
               (void) va_arg(ap, int);
-          }
+            }
         }
 
         len += out->printer(out, pbuf, strlen(pbuf));
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index d0186c9..f7e4501 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -651,14 +651,15 @@ int json_vprintf(struct json_out *out, const char *fmt, va_list xap) {
          * TODO(dfrank): reimplement %s and %.*s in order to avoid that.
          */
 
-        const char *end_of_format_specifier = "sdfFeEgGlhuIcx.*-0123456789";
-        int n = strspn(fmt + 1, end_of_format_specifier);
+        const char *flags = "-+#.*0123456789hlI";
+        int i, n = strspn(fmt + 1, flags);
         char *pbuf = buf;
         int need_len, size = sizeof(buf);
         char fmt2[20];
         va_list ap_copy;
-        strncpy(fmt2, fmt,
-                n + 1 > (int) sizeof(fmt2) ? sizeof(fmt2) : (size_t) n + 1);
+        if (fmt[1 + n] != '\0') n++; /* The conversion */
+        if (n + 1 >= (int) sizeof(fmt2)) n = (int) sizeof(fmt2) - 2;
+        memcpy(fmt2, fmt, n + 1);
         fmt2[n + 1] = '\0';
 
         va_copy(ap_copy, ap);
@@ -701,29 +702,33 @@ int json_vprintf(struct json_out *out, const char *fmt, va_list xap) {
          * inherit the advancement made by vprintf.
          * 32-bit (linux or windows) passes va_list by value.
          */
-        if ((n + 1 == strlen("%" PRId64) && strcmp(fmt2, "%" PRId64) == 0) ||
-            (n + 1 == strlen("%" PRIu64) && strcmp(fmt2, "%" PRIu64) == 0)) {
-          (void) va_arg(ap, int64_t);
-        } else if (strcmp(fmt2, "%.*s") == 0) {
-          (void) va_arg(ap, int);
-          (void) va_arg(ap, char *);
-        } else {
-          switch (fmt2[n]) {
-            case 'u':
-            case 'd':
-              (void) va_arg(ap, int);
-              break;
-            case 'g':
-            case 'f':
-              (void) va_arg(ap, double);
-              break;
-            case 'p':
-              (void) va_arg(ap, void *);
-              break;
-            default:
+        for (i = 1; i < n; i++) {
+          if (fmt2[i] == '*') (void) va_arg(ap, int);
+        }
+        switch (fmt2[n]) {
+          case '%':
+            break;
+          case 'e':
+          case 'E':
+          case 'f':
+          case 'F':
+          case 'g':
+          case 'G':
+            (void) va_arg(ap, double);
+            break;
+          case 's':
+          case 'p':
+            (void) va_arg(ap, void *);
+            break;
+          default:
+            if (strstr(fmt2, "ll") != NULL || strstr(fmt2, "I64") != NULL) {
+              (void) va_arg(ap, int64_t);
+            } else if (strchr(fmt2, 'l') != NULL) {
+              (void) va_arg(ap, long);
+            } else {
               /* many types are promoted to int */
               (void) va_arg(ap, int);
-          }
+            }
         }
 
         len += out->printer(out, pbuf, strlen(pbuf));
-- 
2.43.0


From 0ef417666330759702a40c0a19e89a38cc32373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:13 +0000
Subject: [PATCH 77/81] fix: json_unescape takes non-hexadecimal digits and a
 NUL escape

---
 mjs.c               | 5 +++--
 src/frozen/frozen.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index 16a2e08..de64124 100644
--- a/mjs.c
+++ b/mjs.c
@@ -5742,7 +5742,8 @@ int json_unescape(const char *src, int slen, char *dst, int dlen) {
       if (*src == 'u') {
         if (send - src < 5) return JSON_STRING_INCOMPLETE;
         /* Here we go: this is a \u.... escape. Process simple one-byte chars */
-        if (src[1] == '0' && src[2] == '0') {
+        if (src[1] == '0' && src[2] == '0' && json_isxdigit(src[3]) &&
+            json_isxdigit(src[4])) {
           /* This is \u00xx character from the ASCII range */
           if (dst < dend) *dst = hexdec(src + 3);
           src += 4;
@@ -5750,7 +5751,7 @@ int json_unescape(const char *src, int slen, char *dst, int dlen) {
           /* Complex \uXXXX escapes drag utf8 lib... Do it at some stage */
           return JSON_STRING_INVALID;
         }
-      } else if ((p = (char *) strchr(esc1, *src)) != NULL) {
+      } else if (*src != '\0' && (p = (char *) strchr(esc1, *src)) != NULL) {
         if (dst < dend) *dst = esc2[p - esc1];
       } else {
         return JSON_STRING_INVALID;
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index f7e4501..d13f085 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -887,7 +887,8 @@ int json_unescape(const char *src, int slen, char *dst, int dlen) {
       if (*src == 'u') {
         if (send - src < 5) return JSON_STRING_INCOMPLETE;
         /* Here we go: this is a \u.... escape. Process simple one-byte chars */
-        if (src[1] == '0' && src[2] == '0') {
+        if (src[1] == '0' && src[2] == '0' && json_isxdigit(src[3]) &&
+            json_isxdigit(src[4])) {
           /* This is \u00xx character from the ASCII range */
           if (dst < dend) *dst = hexdec(src + 3);
           src += 4;
@@ -895,7 +896,7 @@ int json_unescape(const char *src, int slen, char *dst, int dlen) {
           /* Complex \uXXXX escapes drag utf8 lib... Do it at some stage */
           return JSON_STRING_INVALID;
         }
-      } else if ((p = (char *) strchr(esc1, *src)) != NULL) {
+      } else if (*src != '\0' && (p = (char *) strchr(esc1, *src)) != NULL) {
         if (dst < dend) *dst = esc2[p - esc1];
       } else {
         return JSON_STRING_INVALID;
-- 
2.43.0


From ca75f922d8c7afe3fcc42b26425352339c846af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 78/81] fix: json_scanf loses the path after a conversion
 before a brace

---
 mjs.c               | 5 +++--
 src/frozen/frozen.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mjs.c b/mjs.c
index de64124..3f7404f 100644
--- a/mjs.c
+++ b/mjs.c
@@ -5932,8 +5932,9 @@ int json_vscanf(const char *s, int len, const char *fmt, va_list ap) {
           i += 2;
           break;
         default: {
-          const char *delims = ", \t\r\n]}";
-          int conv_len = strcspn(fmt + i + 1, delims) + 1;
+          /* NB: '}' is not skipped here: it ends the current path */
+          const char *delims = ", \t\r\n]";
+          int conv_len = strcspn(fmt + i + 1, ", \t\r\n]}") + 1;
           memcpy(fmtbuf, fmt + i, conv_len);
           fmtbuf[conv_len] = '\0';
           i += conv_len;
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index d13f085..229b026 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1077,8 +1077,9 @@ int json_vscanf(const char *s, int len, const char *fmt, va_list ap) {
           i += 2;
           break;
         default: {
-          const char *delims = ", \t\r\n]}";
-          int conv_len = strcspn(fmt + i + 1, delims) + 1;
+          /* NB: '}' is not skipped here: it ends the current path */
+          const char *delims = ", \t\r\n]";
+          int conv_len = strcspn(fmt + i + 1, ", \t\r\n]}") + 1;
           memcpy(fmtbuf, fmt + i, conv_len);
           fmtbuf[conv_len] = '\0';
           i += conv_len;
-- 
2.43.0


From 1089c2314c67d865877a23ded9d0714a993ed99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 79/81] fix: json_setf spoils empty containers, strings and
 similar keys

---
 mjs.c               | 154 +++++++++++++++++++++++---------------------
 src/frozen/frozen.c | 152 ++++++++++++++++++++++---------------------
 2 files changed, 161 insertions(+), 145 deletions(-)

diff --git a/mjs.c b/mjs.c
index 3f7404f..f1dffca 100644
--- a/mjs.c
+++ b/mjs.c
@@ -6018,57 +6018,53 @@ char *json_fread(const char *path) {
 struct json_setf_data {
   const char *json_path;
   const char *base; /* Pointer to the source JSON string */
-  int matched;      /* Matched part of json_path */
+  const char *key;  /* Key of the value at json_path, if it has one */
+  int found;        /* There is a value at json_path */
   int pos;          /* Offset of the mutated value begin */
   int end;          /* Offset of the mutated value end */
-  int prev;         /* Offset of the previous token end */
+  int matched;      /* Part of json_path which names an existing container,
+                     * -1 if there is none */
+  int conflict;     /* json_path leads into a value of another type */
 };
 
-static int get_matched_prefix_len(const char *s1, const char *s2) {
-  int i = 0;
-  while (s1[i] && s2[i] && s1[i] == s2[i]) i++;
-  return i;
-}
-
 static void json_vsetf_cb(void *userdata, const char *name, size_t name_len,
                           const char *path, const struct json_token *t) {
   struct json_setf_data *data = (struct json_setf_data *) userdata;
-  int off, len = get_matched_prefix_len(path, data->json_path);
+  int off, end, len = strlen(path), next;
+  if (data->found || strncmp(path, data->json_path, len) != 0) return;
+  next = data->json_path[len];
+
+  /* Values which end at `json_path`: remember where their key is */
+  if (next == '\0' && name != NULL) data->key = name;
   if (t->ptr == NULL) return;
-  off = t->ptr - data->base;
-  if (len > data->matched) data->matched = len;
 
-  /*
-   * If there is no exact path match, set the mutation position to tbe end
-   * of the object or array
-   */
-  if (len < data->matched && data->pos == 0 &&
-      (t->type == JSON_TYPE_OBJECT_END || t->type == JSON_TYPE_ARRAY_END)) {
-    data->pos = data->end = data->prev;
+  off = t->ptr - data->base;
+  end = off + t->len;
+  if (t->type == JSON_TYPE_STRING) {
+    /* Tokens of strings don't include the quotes */
+    off--;
+    end++;
   }
 
-  /* Exact path match. Set mutation position to the value of this token */
-  if (strcmp(path, data->json_path) == 0 && t->type != JSON_TYPE_OBJECT_START &&
-      t->type != JSON_TYPE_ARRAY_START) {
+  if (next == '\0') {
+    /* Exact path match. Set mutation position to the value of this token */
+    data->found = 1;
     data->pos = off;
-    data->end = off + t->len;
-  }
-
-  /*
-   * For deletion, we need to know where the previous value ends, because
-   * we don't know where matched value key starts.
-   * When the mutation position is not yet set, remember each value end.
-   * When the mutation position is already set, but it is at the beginning
-   * of the object/array, we catch the end of the object/array and see
-   * whether the object/array start is closer then previously stored prev.
-   */
-  if (data->pos == 0) {
-    data->prev = off + t->len; /* pos is not yet set */
-  } else if ((t->ptr[0] == '[' || t->ptr[0] == '{') && off + 1 < data->pos &&
-             off + 1 > data->prev) {
-    data->prev = off + 1;
+    data->end = end;
+  } else if (next == (t->type == JSON_TYPE_OBJECT_END
+                          ? '.'
+                          : t->type == JSON_TYPE_ARRAY_END ? '[' : -1)) {
+    /*
+     * An object or array on the way to `json_path`. If nothing else is found,
+     * missing keys are added to the end of the innermost one.
+     */
+    if (len > data->matched) {
+      data->matched = len;
+      data->pos = data->end = end - 1;
+    }
+  } else if (next == '.' || next == '[') {
+    data->conflict = 1;
   }
-  (void) name;
   (void) name_len;
 }
 
@@ -6077,56 +6073,68 @@ int json_vsetf(const char *s, int len, struct json_out *out,
 int json_vsetf(const char *s, int len, struct json_out *out,
                const char *json_path, const char *json_fmt, va_list ap) {
   struct json_setf_data data;
+  int valid;
   memset(&data, 0, sizeof(data));
   data.json_path = json_path;
   data.base = s;
-  data.end = len;
-  json_walk(s, len, json_vsetf_cb, &data);
+  data.matched = -1;
+  valid = json_walk(s, len, json_vsetf_cb, &data) > 0;
+  if (!valid || (!data.found && (json_fmt == NULL || data.conflict ||
+                                 data.matched < 0))) {
+    /* Nothing to change */
+    out->printer(out, s, len);
+    return 0;
+  }
   if (json_fmt == NULL) {
-    /* Deletion codepath */
-    json_printf(out, "%.*s", data.prev, s);
-    /* Trim comma after the value that begins at object/array start */
-    if (s[data.prev - 1] == '{' || s[data.prev - 1] == '[') {
-      int i = data.end;
-      while (i < len && json_isspace(s[i])) i++;
-      if (s[i] == ',') data.end = i + 1; /* Point after comma */
-    }
-    json_printf(out, "%.*s", len - data.end, s + data.end);
-  } else {
+    /* Deletion codepath. The key goes, too */
+    int i;
+    if (json_path[0] != '\0' && json_path[strlen(json_path) - 1] != ']') {
+      data.pos = data.key - s;
+      if (data.pos > 0 && s[data.pos - 1] == '"') data.pos--;
+    }
+    /* And so does the comma which follows or, after the last value, precedes */
+    while (data.pos > 0 && json_isspace(s[data.pos - 1])) data.pos--;
+    i = data.end;
+    while (i < len && json_isspace(s[i])) i++;
+    if (i < len && s[i] == ',') {
+      data.end = i + 1;
+    } else if (data.pos > 0 && s[data.pos - 1] == ',') {
+      data.pos--;
+    }
+    out->printer(out, s, data.pos);
+  } else if (data.found) {
     /* Modification codepath */
-    int n, off = data.matched, depth = 0;
-
-    /* Print the unchanged beginning */
-    json_printf(out, "%.*s", data.pos, s);
+    out->printer(out, s, data.pos);
+    json_vprintf(out, json_fmt, ap);
+  } else {
+    /* Insertion codepath: goes right after the last value, if there is any */
+    int n, off = data.matched;
+    while (data.pos > 0 && json_isspace(s[data.pos - 1])) data.pos--;
+    data.end = data.pos;
+    out->printer(out, s, data.pos);
+    if (strchr("{[,", s[data.pos - 1]) == NULL) json_printf(out, ",");
 
     /* Add missing keys */
-    while ((n = strcspn(&json_path[off], ".[")) > 0) {
-      if (s[data.prev - 1] != '{' && s[data.prev - 1] != '[' && depth == 0) {
-        json_printf(out, ",");
-      }
-      if (off > 0 && json_path[off - 1] != '.') break;
-      json_printf(out, "%.*Q:", n, json_path + off);
+    for (;;) {
+      int is_key = json_path[off++] == '.';
+      n = strcspn(&json_path[off], ".[");
+      if (is_key) json_printf(out, "%.*Q:", n, json_path + off);
       off += n;
-      if (json_path[off] != '\0') {
-        json_printf(out, "%c", json_path[off] == '.' ? '{' : '[');
-        depth++;
-        off++;
-      }
+      if (json_path[off] == '\0') break;
+      json_printf(out, json_path[off] == '.' ? "{" : "[");
     }
     /* Print the new value */
     json_vprintf(out, json_fmt, ap);
 
     /* Close brackets/braces of the added missing keys */
-    for (; off > data.matched; off--) {
-      int ch = json_path[off];
-      const char *p = ch == '.' ? "}" : ch == '[' ? "]" : "";
-      json_printf(out, "%s", p);
+    for (off--; off > data.matched; off--) {
+      if (json_path[off] == '.') json_printf(out, "}");
+      if (json_path[off] == '[') json_printf(out, "]");
     }
-
-    /* Print the rest of the unchanged string */
-    json_printf(out, "%.*s", len - data.end, s + data.end);
   }
-  return data.end > data.pos ? 1 : 0;
+  /* Print the rest of the unchanged string */
+  out->printer(out, s + data.end, len - data.end);
+  return 1;
 }
 
 int json_setf(const char *s, int len, struct json_out *out,
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index 229b026..fe8f108 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1163,57 +1163,53 @@ char *json_fread(const char *path) {
 struct json_setf_data {
   const char *json_path;
   const char *base; /* Pointer to the source JSON string */
-  int matched;      /* Matched part of json_path */
+  const char *key;  /* Key of the value at json_path, if it has one */
+  int found;        /* There is a value at json_path */
   int pos;          /* Offset of the mutated value begin */
   int end;          /* Offset of the mutated value end */
-  int prev;         /* Offset of the previous token end */
+  int matched;      /* Part of json_path which names an existing container,
+                     * -1 if there is none */
+  int conflict;     /* json_path leads into a value of another type */
 };
 
-static int get_matched_prefix_len(const char *s1, const char *s2) {
-  int i = 0;
-  while (s1[i] && s2[i] && s1[i] == s2[i]) i++;
-  return i;
-}
-
 static void json_vsetf_cb(void *userdata, const char *name, size_t name_len,
                           const char *path, const struct json_token *t) {
   struct json_setf_data *data = (struct json_setf_data *) userdata;
-  int off, len = get_matched_prefix_len(path, data->json_path);
+  int off, end, len = strlen(path), next;
+  if (data->found || strncmp(path, data->json_path, len) != 0) return;
+  next = data->json_path[len];
+
+  /* Values which end at `json_path`: remember where their key is */
+  if (next == '\0' && name != NULL) data->key = name;
   if (t->ptr == NULL) return;
+
   off = t->ptr - data->base;
-  if (len > data->matched) data->matched = len;
-
-  /*
-   * If there is no exact path match, set the mutation position to tbe end
-   * of the object or array
-   */
-  if (len < data->matched && data->pos == 0 &&
-      (t->type == JSON_TYPE_OBJECT_END || t->type == JSON_TYPE_ARRAY_END)) {
-    data->pos = data->end = data->prev;
+  end = off + t->len;
+  if (t->type == JSON_TYPE_STRING) {
+    /* Tokens of strings don't include the quotes */
+    off--;
+    end++;
   }
 
-  /* Exact path match. Set mutation position to the value of this token */
-  if (strcmp(path, data->json_path) == 0 && t->type != JSON_TYPE_OBJECT_START &&
-      t->type != JSON_TYPE_ARRAY_START) {
+  if (next == '\0') {
+    /* Exact path match. Set mutation position to the value of this token */
+    data->found = 1;
     data->pos = off;
-    data->end = off + t->len;
-  }
-
-  /*
-   * For deletion, we need to know where the previous value ends, because
-   * we don't know where matched value key starts.
-   * When the mutation position is not yet set, remember each value end.
-   * When the mutation position is already set, but it is at the beginning
-   * of the object/array, we catch the end of the object/array and see
-   * whether the object/array start is closer then previously stored prev.
-   */
-  if (data->pos == 0) {
-    data->prev = off + t->len; /* pos is not yet set */
-  } else if ((t->ptr[0] == '[' || t->ptr[0] == '{') && off + 1 < data->pos &&
-             off + 1 > data->prev) {
-    data->prev = off + 1;
+    data->end = end;
+  } else if (next == (t->type == JSON_TYPE_OBJECT_END
+                          ? '.'
+                          : t->type == JSON_TYPE_ARRAY_END ? '[' : -1)) {
+    /*
+     * An object or array on the way to `json_path`. If nothing else is found,
+     * missing keys are added to the end of the innermost one.
+     */
+    if (len > data->matched) {
+      data->matched = len;
+      data->pos = data->end = end - 1;
+    }
+  } else if (next == '.' || next == '[') {
+    data->conflict = 1;
   }
-  (void) name;
   (void) name_len;
 }
 
@@ -1222,56 +1218,68 @@ int json_vsetf(const char *s, int len, struct json_out *out,
 int json_vsetf(const char *s, int len, struct json_out *out,
                const char *json_path, const char *json_fmt, va_list ap) {
   struct json_setf_data data;
+  int valid;
   memset(&data, 0, sizeof(data));
   data.json_path = json_path;
   data.base = s;
-  data.end = len;
-  json_walk(s, len, json_vsetf_cb, &data);
+  data.matched = -1;
+  valid = json_walk(s, len, json_vsetf_cb, &data) > 0;
+  if (!valid || (!data.found && (json_fmt == NULL || data.conflict ||
+                                 data.matched < 0))) {
+    /* Nothing to change */
+    out->printer(out, s, len);
+    return 0;
+  }
   if (json_fmt == NULL) {
-    /* Deletion codepath */
-    json_printf(out, "%.*s", data.prev, s);
-    /* Trim comma after the value that begins at object/array start */
-    if (s[data.prev - 1] == '{' || s[data.prev - 1] == '[') {
-      int i = data.end;
-      while (i < len && json_isspace(s[i])) i++;
-      if (s[i] == ',') data.end = i + 1; /* Point after comma */
+    /* Deletion codepath. The key goes, too */
+    int i;
+    if (json_path[0] != '\0' && json_path[strlen(json_path) - 1] != ']') {
+      data.pos = data.key - s;
+      if (data.pos > 0 && s[data.pos - 1] == '"') data.pos--;
     }
-    json_printf(out, "%.*s", len - data.end, s + data.end);
-  } else {
+    /* And so does the comma which follows or, after the last value, precedes */
+    while (data.pos > 0 && json_isspace(s[data.pos - 1])) data.pos--;
+    i = data.end;
+    while (i < len && json_isspace(s[i])) i++;
+    if (i < len && s[i] == ',') {
+      data.end = i + 1;
+    } else if (data.pos > 0 && s[data.pos - 1] == ',') {
+      data.pos--;
+    }
+    out->printer(out, s, data.pos);
+  } else if (data.found) {
     /* Modification codepath */
-    int n, off = data.matched, depth = 0;
-
-    /* Print the unchanged beginning */
-    json_printf(out, "%.*s", data.pos, s);
+    out->printer(out, s, data.pos);
+    json_vprintf(out, json_fmt, ap);
+  } else {
+    /* Insertion codepath: goes right after the last value, if there is any */
+    int n, off = data.matched;
+    while (data.pos > 0 && json_isspace(s[data.pos - 1])) data.pos--;
+    data.end = data.pos;
+    out->printer(out, s, data.pos);
+    if (strchr("{[,", s[data.pos - 1]) == NULL) json_printf(out, ",");
 
     /* Add missing keys */
-    while ((n = strcspn(&json_path[off], ".[")) > 0) {
-      if (s[data.prev - 1] != '{' && s[data.prev - 1] != '[' && depth == 0) {
-        json_printf(out, ",");
-      }
-      if (off > 0 && json_path[off - 1] != '.') break;
-      json_printf(out, "%.*Q:", n, json_path + off);
+    for (;;) {
+      int is_key = json_path[off++] == '.';
+      n = strcspn(&json_path[off], ".[");
+      if (is_key) json_printf(out, "%.*Q:", n, json_path + off);
       off += n;
-      if (json_path[off] != '\0') {
-        json_printf(out, "%c", json_path[off] == '.' ? '{' : '[');
-        depth++;
-        off++;
-      }
+      if (json_path[off] == '\0') break;
+      json_printf(out, json_path[off] == '.' ? "{" : "[");
     }
     /* Print the new value */
     json_vprintf(out, json_fmt, ap);
 
     /* Close brackets/braces of the added missing keys */
-    for (; off > data.matched; off--) {
-      int ch = json_path[off];
-      const char *p = ch == '.' ? "}" : ch == '[' ? "]" : "";
-      json_printf(out, "%s", p);
+    for (off--; off > data.matched; off--) {
+      if (json_path[off] == '.') json_printf(out, "}");
+      if (json_path[off] == '[') json_printf(out, "]");
     }
-
-    /* Print the rest of the unchanged string */
-    json_printf(out, "%.*s", len - data.end, s + data.end);
   }
-  return data.end > data.pos ? 1 : 0;
+  /* Print the rest of the unchanged string */
+  out->printer(out, s + data.end, len - data.end);
+  return 1;
 }
 
 int json_setf(const char *s, int len, struct json_out *out,
-- 
2.43.0


From 651cf5a0ba14dec2e5b5c8c1b6bab91d38819ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:15 +0000
Subject: [PATCH 80/81] fix: json_next_key, json_next_elem mix up keys with a
 common start

---
 mjs.c               | 1 +
 src/frozen/frozen.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mjs.c b/mjs.c
index f1dffca..f5ee539 100644
--- a/mjs.c
+++ b/mjs.c
@@ -6279,6 +6279,7 @@ static void json_next_cb(void *userdata, const char *name, size_t name_len,
   if (d->found) return;
   if (d->path_len >= (int) strlen(path)) return;
   if (strncmp(d->path, path, d->path_len) != 0) return;
+  if (*p != '.' && *p != '[') return; /* A key which begins like the path */
   if (strchr(p + 1, '.') != NULL) return; /* More nested objects - skip */
   if (strchr(p + 1, '[') != NULL) return; /* Ditto for arrays */
   // {OBJECT,ARRAY}_END types do not pass name, _START does. Save key.
diff --git a/src/frozen/frozen.c b/src/frozen/frozen.c
index fe8f108..7849b12 100644
--- a/src/frozen/frozen.c
+++ b/src/frozen/frozen.c
@@ -1424,6 +1424,7 @@ static void json_next_cb(void *userdata, const char *name, size_t name_len,
   if (d->found) return;
   if (d->path_len >= (int) strlen(path)) return;
   if (strncmp(d->path, path, d->path_len) != 0) return;
+  if (*p != '.' && *p != '[') return; /* A key which begins like the path */
   if (strchr(p + 1, '.') != NULL) return; /* More nested objects - skip */
   if (strchr(p + 1, '[') != NULL) return; /* Ditto for arrays */
   // {OBJECT,ARRAY}_END types do not pass name, _START does. Save key.
-- 
2.43.0


From 72dde3825ff662dafbce2c634e45d427807be019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:18 +0000
Subject: [PATCH 81/81] fix: conversion of numbers to int is undefined for
 negative ones

---
 mjs.c               | 9 ++++++---
 mjs_no_common.c     | 9 ++++++---
 src/mjs_exec.c      | 2 +-
 src/mjs_primitive.c | 7 +++++--
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/mjs.c b/mjs.c
index f5ee539..44130c4 100644
--- a/mjs.c
+++ b/mjs.c
@@ -8341,7 +8341,7 @@ static double do_arith_op(double da, double db, int op, bool *resnan) {
     case TOK_XOR:     return (double) ((int64_t) da ^ (int64_t) db);
     case TOK_LSHIFT:  return (double) ((int64_t) da << (int64_t) db);
     case TOK_RSHIFT:  return (double) ((int64_t) da >> (int64_t) db);
-    case TOK_URSHIFT: return (double) ((uint32_t) da >> (uint32_t) db);
+    case TOK_URSHIFT: return (double) ((uint32_t) (int64_t) da >> (uint32_t) (int64_t) db);
   }
   /* clang-format on */
   *resnan = true;
@@ -13342,12 +13342,15 @@ double mjs_get_double(struct mjs *mjs, mjs_val_t v) {
 }
 
 int mjs_get_int(struct mjs *mjs, mjs_val_t v) {
+  double d = get_double(v);
   (void) mjs;
   /*
    * NOTE(dfrank): without double cast, all numbers >= 0x80000000 are always
-   * converted to exactly 0x80000000.
+   * converted to exactly 0x80000000. The cast is done by way of an integer,
+   * that of a negative floating-point number to unsigned is undefined.
    */
-  return (int) (unsigned int) get_double(v);
+  if (!(d > -9223372036854775808.0 && d < 9223372036854775808.0)) return 0;
+  return (int) (unsigned int) (int64_t) d;
 }
 
 int32_t mjs_get_int32(struct mjs *mjs, mjs_val_t v) {
diff --git a/mjs_no_common.c b/mjs_no_common.c
index 957ae81..622c33e 100644
--- a/mjs_no_common.c
+++ b/mjs_no_common.c
@@ -3981,7 +3981,7 @@ static double do_arith_op(double da, double db, int op, bool *resnan) {
     case TOK_XOR:     return (double) ((int64_t) da ^ (int64_t) db);
     case TOK_LSHIFT:  return (double) ((int64_t) da << (int64_t) db);
     case TOK_RSHIFT:  return (double) ((int64_t) da >> (int64_t) db);
-    case TOK_URSHIFT: return (double) ((uint32_t) da >> (uint32_t) db);
+    case TOK_URSHIFT: return (double) ((uint32_t) (int64_t) da >> (uint32_t) (int64_t) db);
   }
   /* clang-format on */
   *resnan = true;
@@ -8982,12 +8982,15 @@ double mjs_get_double(struct mjs *mjs, mjs_val_t v) {
 }
 
 int mjs_get_int(struct mjs *mjs, mjs_val_t v) {
+  double d = get_double(v);
   (void) mjs;
   /*
    * NOTE(dfrank): without double cast, all numbers >= 0x80000000 are always
-   * converted to exactly 0x80000000.
+   * converted to exactly 0x80000000. The cast is done by way of an integer,
+   * that of a negative floating-point number to unsigned is undefined.
    */
-  return (int) (unsigned int) get_double(v);
+  if (!(d > -9223372036854775808.0 && d < 9223372036854775808.0)) return 0;
+  return (int) (unsigned int) (int64_t) d;
 }
 
 int32_t mjs_get_int32(struct mjs *mjs, mjs_val_t v) {
diff --git a/src/mjs_exec.c b/src/mjs_exec.c
index 3175062..a472a10 100644
--- a/src/mjs_exec.c
+++ b/src/mjs_exec.c
@@ -160,7 +160,7 @@ static double do_arith_op(double da, double db, int op, bool *resnan) {
     case TOK_XOR:     return (double) ((int64_t) da ^ (int64_t) db);
     case TOK_LSHIFT:  return (double) ((int64_t) da << (int64_t) db);
     case TOK_RSHIFT:  return (double) ((int64_t) da >> (int64_t) db);
-    case TOK_URSHIFT: return (double) ((uint32_t) da >> (uint32_t) db);
+    case TOK_URSHIFT: return (double) ((uint32_t) (int64_t) da >> (uint32_t) (int64_t) db);
   }
   /* clang-format on */
   *resnan = true;
diff --git a/src/mjs_primitive.c b/src/mjs_primitive.c
index ae6a434..5059622 100644
--- a/src/mjs_primitive.c
+++ b/src/mjs_primitive.c
@@ -60,12 +60,15 @@ double mjs_get_double(struct mjs *mjs, mjs_val_t v) {
 }
 
 int mjs_get_int(struct mjs *mjs, mjs_val_t v) {
+  double d = get_double(v);
   (void) mjs;
   /*
    * NOTE(dfrank): without double cast, all numbers >= 0x80000000 are always
-   * converted to exactly 0x80000000.
+   * converted to exactly 0x80000000. The cast is done by way of an integer,
+   * that of a negative floating-point number to unsigned is undefined.
    */
-  return (int) (unsigned int) get_double(v);
+  if (!(d > -9223372036854775808.0 && d < 9223372036854775808.0)) return 0;
+  return (int) (unsigned int) (int64_t) d;
 }
 
 int32_t mjs_get_int32(struct mjs *mjs, mjs_val_t v) {
-- 
2.43.0

