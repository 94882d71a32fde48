From 49f91057e03569bd5da39019ed7d51d2da67dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:25 +0000
Subject: [PATCH 01/56] fix: evaluate element expressions of table.init in a
 separate context

table.init of a segment with element expressions ran the constant
expression on the exec context which was executing table.init itself.
The nested loop didn't stop at the end of the constant expression and
went on with the rest of the function, corrupting the operand stack.
---
 lib/exec_insn_subr.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 1ce6f5d..79e9f6a 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -274,8 +274,18 @@ table_init(struct exec_context *ectx, uint32_t tableidx, uint32_t elemidx,
                         val.u.funcref.func =
                                 VEC_ELEM(inst->funcs, elem->funcs[s + i]);
                 } else {
+                        /*
+                         * use a separate context because ectx can be in
+                         * the middle of the execution of an expression.
+                         * (table.init)
+                         */
+                        struct exec_context ctx0;
+                        exec_context_init(&ctx0, ectx->instance,
+                                          exec_mctx(ectx));
+                        ctx0.report = ectx->report;
                         ret = exec_const_expr(&elem->init_exprs[s + i],
-                                              elem->type, &val, ectx);
+                                              elem->type, &val, &ctx0);
+                        exec_context_clear(&ctx0);
                         if (ret != 0) {
                                 goto fail;
                         }
-- 
2.43.0


From c6f2c8aed32a8bafd41de2edc16589a035b3365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:54 +0000
Subject: [PATCH 02/56] fix: trap on an access ending at the last byte of the
 address space

With a page size of 1, the number of pages needed for an access whose
last byte is 0xffffffff overflowed to 0, so the access was allowed
whatever the size of the memory is.
---
 lib/exec_insn_subr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 79e9f6a..0efb124 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -74,8 +74,7 @@ memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
         }
         if (__predict_false(last_byte >= meminst->allocated)) {
                 const uint32_t page_shift = memtype_page_shift(meminst->type);
-                uint32_t need_in_pages = (last_byte >> page_shift) + 1;
-                if (need_in_pages > meminst->size_in_pages) {
+                if (last_byte >> page_shift >= meminst->size_in_pages) {
 do_trap:
                         return ETOYWASMTRAP;
                 }
-- 
2.43.0


From 14f276b03ec6f46c9488e50e1bef7d718862a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:04 +0000
Subject: [PATCH 03/56] fix: reject functions whose locals don't fit in 32-bit
 counters

The number of locals and the number of cells they need were computed in
uint32_t without checks. A function with one parameter and 0xffffffff
locals overflowed a heap buffer during validation, and a large number of
v128 locals overflowed the cell count when entering the function.
---
 lib/expr.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/expr.c b/lib/expr.c
index d1363bb..9d93a9a 100644
--- a/lib/expr.c
+++ b/lib/expr.c
@@ -60,16 +60,29 @@ read_expr_common(const uint8_t **pp, const uint8_t *ep, struct expr *expr,
         vctx->ei = ei = &expr->ei;
         memset(ei, 0, sizeof(*ei));
 
+        /*
+         * The numbers of locals and cells of a function should fit in
+         * uint32_t. (implementation limit)
+         */
+        uint32_t i;
+        uint64_t ncells = resulttype_cellsize(parameter_types);
+        const struct localchunk *ch = locals;
+        for (i = 0; i < nlocals; i += ch->n, ch++) {
+                ncells += (uint64_t)ch->n * valtype_cellsize(ch->type);
+        }
+        if (ncells > UINT32_MAX) {
+                ret = E2BIG;
+                goto fail;
+        }
         uint32_t lsize = parameter_types->ntypes + nlocals;
         ret = VEC_PREALLOC(vctx->mctx, vctx->locals, lsize);
         if (ret != 0) {
                 goto fail;
         }
-        uint32_t i;
         for (i = 0; i < parameter_types->ntypes; i++) {
                 VEC_ELEM(vctx->locals, i) = parameter_types->types[i];
         }
-        const struct localchunk *ch = locals;
+        ch = locals;
         for (i = 0; i < nlocals; i += ch->n, ch++) {
                 uint32_t j;
                 for (j = 0; j < ch->n; j++) {
@@ -112,6 +125,10 @@ read_expr_common(const uint8_t **pp, const uint8_t *ep, struct expr *expr,
                         break;
                 }
         }
+        if (ei->maxcells > UINT32_MAX - ncells) {
+                ret = E2BIG;
+                goto fail;
+        }
 #if defined(TOYWASM_ENABLE_TRACING_INSN)
         for (i = 0; i < ei->njumps; i++) {
                 const struct jump *j = &ei->jumps[i];
-- 
2.43.0


From 49e2838dd56657dd29c668f450aba6a3191a8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:04 +0000
Subject: [PATCH 04/56] fix: reject trailing bytes in the data count section

---
 lib/module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index 3dcc019..de16fca 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -1797,7 +1797,7 @@ read_datacount_section(const uint8_t **pp, const uint8_t *ep,
         ctx->has_datacount = true;
         ctx->ndatas_in_datacount = count;
         ret = 0;
-        *pp = ep;
+        *pp = p;
 fail:
         return ret;
 }
-- 
2.43.0


From 0e3263e1bd0bf18e6a84bd776c1ee27bdc781355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:04 +0000
Subject: [PATCH 05/56] fix: reject duplicated subsections in the name section

The order check compared with a variable which was never updated. A
duplicated subsection hit an assertion (or leaked the first map).
---
 lib/name.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/name.c b/lib/name.c
index 4df6a38..177aadd 100644
--- a/lib/name.c
+++ b/lib/name.c
@@ -139,6 +139,7 @@ parse_name_section(struct nametable *table, const struct module *m)
                         ret = EINVAL;
                         goto fail;
                 }
+                prev = (int)name_type;
                 ret = read_leb_u32(&p, ep, &name_payload_len);
                 if (ret != 0) {
                         goto fail;
-- 
2.43.0


From b18aa7f81613422fa7e9311107b8f9fd0c343aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:28 +0000
Subject: [PATCH 06/56] fix: don't free the function reference bitmap twice on
 ENOMEM

---
 lib/module.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/module.c b/lib/module.c
index de16fca..a419a23 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -1191,6 +1191,7 @@ read_function_section(const uint8_t **pp, const uint8_t *ep,
         if (m->nfuncs > 0) {
                 if (ctx->refs_size > 0) {
                         bitmap_free(mctx, &ctx->refs, ctx->refs_size);
+                        ctx->refs.data = NULL;
                 }
                 ctx->refs_size = m->nimportedfuncs + m->nfuncs;
                 ret = bitmap_alloc(mctx, &ctx->refs, ctx->refs_size);
-- 
2.43.0


From 9d8e2f8efb4880414499e5ee7ed97dba66b17c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:50 +0000
Subject: [PATCH 07/56] fix: don't clear a NULL dylink when its allocation
 failed

---
 lib/module.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/module.c b/lib/module.c
index a419a23..0a70df7 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2043,8 +2043,7 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
         }
         m->dylink = mem_zalloc(mctx, sizeof(*m->dylink));
         if (m->dylink == NULL) {
-                ret = ENOMEM;
-                goto fail;
+                return ENOMEM;
         }
         uint32_t subsections = 0;
         do {
-- 
2.43.0


From 4c5a6fb48d3b37f52b3cbd5a33a324af95312630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:51 +0000
Subject: [PATCH 08/56] fix: initialize expr_exec_info before anything can fail

read_const_expr inspects it even when read_expr_common failed to
allocate the validation context.
---
 lib/expr.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/expr.c b/lib/expr.c
index 9d93a9a..8f04eda 100644
--- a/lib/expr.c
+++ b/lib/expr.c
@@ -30,6 +30,9 @@ read_expr_common(const uint8_t **pp, const uint8_t *ep, struct expr *expr,
         const uint8_t *p = *pp;
         int ret;
 
+        struct expr_exec_info *ei = &expr->ei;
+        memset(ei, 0, sizeof(*ei));
+
         assert(lctx->module != NULL);
         struct mem_context *mctx = load_mctx(lctx);
         struct validation_context *vctx = lctx->vctx;
@@ -56,9 +59,7 @@ read_expr_common(const uint8_t **pp, const uint8_t *ep, struct expr *expr,
         vctx->has_datacount = lctx->has_datacount;
         vctx->ndatas_in_datacount = lctx->ndatas_in_datacount;
         vctx->const_expr = const_expr;
-        struct expr_exec_info *ei;
-        vctx->ei = ei = &expr->ei;
-        memset(ei, 0, sizeof(*ei));
+        vctx->ei = ei;
 
         /*
          * The numbers of locals and cells of a function should fit in
-- 
2.43.0


From 156354081c55c565268ff9e4c62507c52da3ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:14 +0000
Subject: [PATCH 09/56] fix: resume threads before retrying a raced memory.grow

When another thread had grown the shared memory in the meantime, the
thread retried with the others still suspended and then tried to suspend
them again, which never completes (or fails an assertion).
---
 lib/exec_insn_subr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 0efb124..756455d 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -499,6 +499,7 @@ retry:
                         suspend_threads(c);
                         memory_lock(mi);
                         if (mi->size_in_pages != orig_size) {
+                                resume_threads(c);
                                 goto retry;
                         }
                         assert((mi->allocated % (1 << page_shift)) == 0);
-- 
2.43.0


From 39f49896cee14bc84a90c4bdca813e4b503a7d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:15 +0000
Subject: [PATCH 10/56] fix: don't assume that a thread outlives those it
 resumed

A thread can exit right after resuming the others, before they have
counted themselves as no longer parked.  The assertions in parked() did
not allow for that.
---
 lib/suspend.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/suspend.c b/lib/suspend.c
index 8eb4d4a..93bf792 100644
--- a/lib/suspend.c
+++ b/lib/suspend.c
@@ -24,9 +24,11 @@ parked(struct cluster *c) REQUIRES(c->lock)
         xlog_trace("%s: parked %" PRIu32 " / %" PRIu32, __func__, c->nparked,
                    c->nrunners);
         assert(c->nparked > 0);
-        assert(c->nrunners > c->nparked);
+        /*
+         * Note: the thread which resumed us might have exited already.
+         */
+        assert(c->nrunners >= c->nparked);
         c->nparked--;
-        assert(c->nrunners != c->nparked + 1);
         assert(c->suspend_state == SUSPEND_STATE_RESUMING);
         if (c->nparked == 0) {
                 c->suspend_state = SUSPEND_STATE_NONE;
-- 
2.43.0


From e20f7262f48f5a5e70eadf091543bfe19178773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:03 +0000
Subject: [PATCH 11/56] fix: publish the new memory size before resuming
 threads

The threads resumed after a growth of a shared memory could see its
allocation beyond its size, which fails an assertion.
---
 lib/exec_insn_subr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 756455d..564b9d8 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -521,6 +521,8 @@ retry:
                                 mi->data = np;
                                 assert(new_size_in_bytes > mi->allocated);
                                 mi->allocated = new_size_in_bytes;
+                                /* before resuming other threads */
+                                mi->size_in_pages = new_size;
                         }
                 }
 #if defined(TOYWASM_ENABLE_WASM_THREADS)
@@ -533,8 +535,9 @@ retry:
                         xlog_trace("%s: realloc failed", __func__);
                         return (uint32_t)-1; /* fail */
                 }
+        } else {
+                mi->size_in_pages = new_size;
         }
-        mi->size_in_pages = new_size;
         memory_unlock(mi);
         return orig_size; /* success */
 }
-- 
2.43.0


From 94917a7b45cb3a276cb90766775d88e9a906eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:09 +0000
Subject: [PATCH 12/56] fix: end the process when a spawned thread can't be
 executed

A thread which failed with an error other than a trap, for example ENOMEM
because of a memory limit, just disappeared although thread-spawn had
succeeded.  The rest of the program kept waiting for it forever.
---
 libwasi_threads/wasi_threads.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libwasi_threads/wasi_threads.c b/libwasi_threads/wasi_threads.c
index 2035a46..0f33163 100644
--- a/libwasi_threads/wasi_threads.c
+++ b/libwasi_threads/wasi_threads.c
@@ -334,9 +334,18 @@ done_thread_start_func(struct exec_context *ctx, const struct thread_arg *arg,
         }
         exec_context_clear(ctx);
         if (ret != 0) {
-                /* XXX what to do for errors other than traps? */
                 xlog_error("%s: instance_execute_func failed with %d",
                            __func__, ret);
+                if (ret != ETOYWASMTRAP) {
+                        /*
+                         * eg. ENOMEM. treat it as a trap because we can't
+                         * continue the thread.
+                         */
+                        const struct trap_info trap = {
+                                .trapid = TRAP_MISC,
+                        };
+                        wasi_threads_propagate_trap(wasi, &trap);
+                }
                 goto fail;
         }
 fail:
-- 
2.43.0


From c34d2c04a395b521af7510bc5b772276949764c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:18 +0000
Subject: [PATCH 13/56] fix: run the start function of a new thread as a part
 of the cluster

thread-spawn instantiates the module again and its start function runs with
other threads around.  It did so without the cluster: memory.grow there moved
the shared memory while the other threads were using it, and a trap there
failed an assertion in wasi_convert_errno.
---
 libwasi_threads/wasi_threads.c | 47 ++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/libwasi_threads/wasi_threads.c b/libwasi_threads/wasi_threads.c
index 0f33163..d75eae7 100644
--- a/libwasi_threads/wasi_threads.c
+++ b/libwasi_threads/wasi_threads.c
@@ -415,6 +415,45 @@ runner(void *vp)
 }
 #endif /* defined(TOYWASM_USE_USER_SCHED) */
 
+/*
+ * similar to instance_create. but the start function etc is a part of
+ * the calling thread. ie. it needs to cooperate with the other threads in
+ * the cluster.
+ */
+static int
+create_thread_instance(struct exec_context *parent,
+                       struct wasi_threads_instance *wasi,
+                       struct instance **instp, struct report *report)
+{
+        struct instance *inst;
+        int ret;
+
+        /* REVISIT: it isn't appropraite to use wasi-threads mctx here */
+        ret = instance_create_no_init(wasi->mctx, wasi->module, &inst,
+                                      wasi->imports, report);
+        if (ret != 0) {
+                return ret;
+        }
+        struct exec_context ctx0;
+        struct exec_context *ctx = &ctx0;
+        exec_context_init(ctx, inst, wasi->mctx);
+        ctx->report = report;
+        ctx->cluster = parent->cluster;
+        ret = instance_execute_init(ctx);
+        ret = instance_execute_handle_restart(ctx, ret);
+        exec_context_clear(ctx);
+        if (ret != 0) {
+                instance_destroy(inst);
+                if (ret == ETOYWASMTRAP) {
+                        /* don't expose ETOYWASMxxx to wasi_convert_errno */
+                        ret = EPROTO;
+                }
+                return ret;
+        }
+        *instp = inst;
+        return 0;
+}
+
 static int
 wasi_thread_spawn_common(struct exec_context *ctx,
                          struct wasi_threads_instance *wasi, uint32_t user_arg,
@@ -448,12 +487,10 @@ wasi_thread_spawn_common(struct exec_context *ctx,
 
         struct report report;
         report_init(&report);
-        /* REVISIT: it isn't appropraite to use wasi-threads mctx here */
-        ret = instance_create(wasi->mctx, wasi->module, &inst, wasi->imports,
-                              &report);
+        ret = create_thread_instance(ctx, wasi, &inst, &report);
         if (ret != 0) {
-                xlog_trace("%s: instance_create failed with %d: %s", __func__,
-                           ret, report_getmessage(&report));
+                xlog_trace("%s: create_thread_instance failed with %d: %s",
+                           __func__, ret, report_getmessage(&report));
                 report_clear(&report);
                 goto fail;
         }
-- 
2.43.0


From 59d9ab35fec6bfa35a8794bcdb250f6da2e38fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:22 +0000
Subject: [PATCH 14/56] fix: initialize what the error paths of wasi functions
 release

fd_advise, fd_allocate, fd_filestat_set_size and path_create_directory
passed an uninitialized pointer to wasi_fdinfo_release or path_clear
when the descriptor or the path was rejected.
---
 libwasi/wasi_abi_fd.c   | 15 +++------------
 libwasi/wasi_abi_path.c |  2 +-
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fa59864..fb2c98a 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -29,11 +29,8 @@ wasi_fd_advise(struct exec_context *ctx, struct host_instance *hi,
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
         uint32_t adv = HOST_FUNC_PARAM(ft, params, 3, i32);
 #endif
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
@@ -58,11 +55,8 @@ wasi_fd_allocate(struct exec_context *ctx, struct host_instance *hi,
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t offset = HOST_FUNC_PARAM(ft, params, 1, i64);
         uint64_t len = HOST_FUNC_PARAM(ft, params, 2, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
@@ -85,11 +79,8 @@ wasi_fd_filestat_set_size(struct exec_context *ctx, struct host_instance *hi,
         HOST_FUNC_CONVERT_PARAMS(ft, params);
         uint32_t wasifd = HOST_FUNC_PARAM(ft, params, 0, i32);
         uint64_t size = HOST_FUNC_PARAM(ft, params, 1, i64);
-        struct wasi_fdinfo *fdinfo;
+        struct wasi_fdinfo *fdinfo = NULL;
         int ret;
-#if defined(__GNUC__) && !defined(__clang__)
-        fdinfo = NULL;
-#endif
         ret = wasi_userfd_lookup(wasi, wasifd, &fdinfo);
         if (ret != 0) {
                 goto fail;
diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index ef4b558..42a6928 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -138,7 +138,7 @@ wasi_path_create_directory(struct exec_context *ctx, struct host_instance *hi,
         uint32_t pathlen = HOST_FUNC_PARAM(ft, params, 2, i32);
         int host_ret;
         int ret = 0;
-        struct path_info pi;
+        struct path_info pi = PATH_INITIALIZER;
         host_ret = wasi_copyin_and_convert_path(ctx, wasi, dirwasifd, path,
                                                 pathlen, &pi, &ret);
         if (host_ret != 0 || ret != 0) {
-- 
2.43.0


From 5a0b397b59bd5583a9a5ffaeaa12fc2ddd0cdca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:22 +0000
Subject: [PATCH 15/56] fix: handle unusual descriptor numbers in fd_renumber

It expanded the descriptor table up to any number given as the target,
which wraps for 0xffffffff and allocates a lot of memory for other large
values, although the target is required to be an open descriptor.
Renumbering a descriptor to itself closed it, or failed an assertion.
---
 libwasi/wasi_abi_fd.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fb2c98a..23a018d 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -881,9 +881,10 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
-        /* ensure the table size is big enough */
-        ret = wasi_table_expand(wasi, tblidx, wasifd_to);
-        if (ret != 0) {
+        if (wasifd_from == wasifd_to) {
+                /* nothing to do as far as it's an open descriptor */
+                ret = wasi_table_lookup_locked(wasi, tblidx, wasifd_from,
+                                               &fdinfo_from);
                 goto fail_locked;
         }
 
@@ -913,11 +914,11 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
         fdinfo_to->refcount--;
         struct wasi_fdinfo **to_slot =
                 wasi_table_slot_ptr(wasi, tblidx, wasifd_to);
-        assert(*to_slot = fdinfo_to);
+        assert(*to_slot == fdinfo_to);
         *to_slot = fdinfo_from;
         struct wasi_fdinfo **from_slot =
                 wasi_table_slot_ptr(wasi, tblidx, wasifd_from);
-        assert(*from_slot = fdinfo_from);
+        assert(*from_slot == fdinfo_from);
         *from_slot = NULL;
 
         toywasm_mutex_unlock(&wasi->lock);
-- 
2.43.0


From 6c3cf2ee75c4fe48fedf26b64666c6e08d648880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:22 +0000
Subject: [PATCH 16/56] fix: close the host descriptor of a directory only once

After fd_readdir, fd_close closed the host descriptor by close and then
again by closedir.  The latter can close an unrelated descriptor opened
by another thread in between.
---
 libwasi/wasi_host_fdop.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libwasi/wasi_host_fdop.c b/libwasi/wasi_host_fdop.c
index 5ddfad0..29268d8 100644
--- a/libwasi/wasi_host_fdop.c
+++ b/libwasi/wasi_host_fdop.c
@@ -312,20 +312,20 @@ wasi_host_fd_close(struct wasi_fdinfo *fdinfo)
         struct wasi_fdinfo_host *fdinfo_host = wasi_fdinfo_to_host(fdinfo);
         int ret = 0;
         int hostfd = fdinfo_host->hostfd;
+        if (fdinfo_host->dir != NULL) {
+                /* Note: closedir closes hostfd as well */
+                ret = wasi_host_dir_close(fdinfo);
 #if defined(__wasi__) /* wasi has no dup */
-        if (hostfd != -1 && hostfd >= 3) {
+        } else if (hostfd != -1 && hostfd >= 3) {
 #else
-        if (hostfd != -1) {
+        } else if (hostfd != -1) {
 #endif
                 ret = close(hostfd);
                 ret = handle_errno(ret);
-                if (ret != 0) {
-                        xlog_trace("failed to close: host fd %d with errno %d",
-                                   hostfd, ret);
-                }
         }
-        if (fdinfo_host->dir != NULL) {
-                wasi_host_dir_close(fdinfo);
+        if (ret != 0) {
+                xlog_trace("failed to close: host fd %d with errno %d", hostfd,
+                           ret);
         }
         fdinfo_host->hostfd = -1;
         fdinfo_host->dir = NULL;
-- 
2.43.0


From 0eaeca8c1a6a33162b1ddc9aa1d83595952f5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:44 +0000
Subject: [PATCH 17/56] fix: convert more of host errno values to wasi ones

Errors like ENAMETOOLONG, EFBIG, EXDEV, EMFILE and EROFS were reported
to the wasm module as EIO.
---
 libwasi/wasi_host_subr.c | 54 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/libwasi/wasi_host_subr.c b/libwasi/wasi_host_subr.c
index a49987a..b4ecf0f 100644
--- a/libwasi/wasi_host_subr.c
+++ b/libwasi/wasi_host_subr.c
@@ -175,6 +175,9 @@ wasi_convert_errno(int host_errno)
         case 0:
                 wasmerrno = 0;
                 break;
+        case E2BIG:
+                wasmerrno = 1;
+                break;
         case EACCES:
                 wasmerrno = 2;
                 break;
@@ -191,12 +194,24 @@ wasi_convert_errno(int host_errno)
         case EBADF:
                 wasmerrno = 8;
                 break;
+        case EBUSY:
+                wasmerrno = 10;
+                break;
+        case ECONNABORTED:
+                wasmerrno = 13;
+                break;
         case ECONNRESET:
                 wasmerrno = 15;
                 break;
+        case EDQUOT:
+                wasmerrno = 19;
+                break;
         case EEXIST:
                 wasmerrno = 20;
                 break;
+        case EFBIG:
+                wasmerrno = 22;
+                break;
         case EINTR:
                 wasmerrno = 27;
                 break;
@@ -212,6 +227,24 @@ wasi_convert_errno(int host_errno)
         case ELOOP:
                 wasmerrno = 32;
                 break;
+        case EMFILE:
+                wasmerrno = 33;
+                break;
+        case EMLINK:
+                wasmerrno = 34;
+                break;
+        case ENAMETOOLONG:
+                wasmerrno = 37;
+                break;
+        case ENFILE:
+                wasmerrno = 41;
+                break;
+        case ENOBUFS:
+                wasmerrno = 42;
+                break;
+        case ENODEV:
+                wasmerrno = 43;
+                break;
         case ENOENT:
                 wasmerrno = 44;
                 break;
@@ -221,6 +254,12 @@ wasi_convert_errno(int host_errno)
         case ENOSPC:
                 wasmerrno = 51;
                 break;
+        case ENOSYS:
+                wasmerrno = 52;
+                break;
+        case ENOTCONN:
+                wasmerrno = 53;
+                break;
         case ENOTDIR:
                 wasmerrno = 54;
                 break;
@@ -233,6 +272,12 @@ wasi_convert_errno(int host_errno)
         case ENOTSUP:
                 wasmerrno = 58;
                 break;
+        case ENOTTY:
+                wasmerrno = 59;
+                break;
+        case ENXIO:
+                wasmerrno = 60;
+                break;
         case EOVERFLOW:
                 wasmerrno = 61;
                 break;
@@ -245,6 +290,9 @@ wasi_convert_errno(int host_errno)
         case ERANGE:
                 wasmerrno = 68;
                 break;
+        case EROFS:
+                wasmerrno = 69;
+                break;
         case ESPIPE:
                 wasmerrno = 70;
                 break;
@@ -253,6 +301,12 @@ wasi_convert_errno(int host_errno)
                 wasmerrno = 76;
                 break;
 #endif
+        case ETXTBSY:
+                wasmerrno = 74;
+                break;
+        case EXDEV:
+                wasmerrno = 75;
+                break;
         default:
                 xlog_error("Converting unimplemented errno: %u", host_errno);
                 wasmerrno = 29; /* EIO */
-- 
2.43.0


From e8b882235480352b897a4116d5e8e56911673961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:51 +0000
Subject: [PATCH 18/56] fix: follow a symbolic link in path_link

It's implementation-defined for link() whether a symbolic link given as
the source is followed.  On Linux it isn't, although it's what the only
supported lookup flag asks for.
---
 libwasi/wasi_host_pathop.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libwasi/wasi_host_pathop.c b/libwasi/wasi_host_pathop.c
index f587e17..9c2d078 100644
--- a/libwasi/wasi_host_pathop.c
+++ b/libwasi/wasi_host_pathop.c
@@ -190,7 +190,16 @@ wasi_host_path_readlink(const struct path_info *pi, char *buf, size_t buflen,
 int
 wasi_host_path_link(const struct path_info *pi1, const struct path_info *pi2)
 {
+#if defined(AT_SYMLINK_FOLLOW)
+        /*
+         * Note: whether link() follows a symbolic link is
+         * implementation-defined. Eg. it doesn't on Linux.
+         */
+        int ret = linkat(AT_FDCWD, pi1->hostpath, AT_FDCWD, pi2->hostpath,
+                         AT_SYMLINK_FOLLOW);
+#else
         int ret = link(pi1->hostpath, pi2->hostpath);
+#endif
         return handle_errno(ret);
 }
 
-- 
2.43.0


From 841be982c1c458dcd848b36f896529e11b79d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:10 +0000
Subject: [PATCH 19/56] fix: avoid an overflow in the buffer size for a path

With the length of 0xffffffff, which is in bounds for a 4GB memory, the
path was copied into a buffer of size zero.
---
 libwasi/wasi_abi_path.c  | 2 +-
 libwasi/wasi_path_subr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index 42a6928..0fc750f 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -202,7 +202,7 @@ wasi_path_symlink(struct exec_context *ctx, struct host_instance *hi,
         struct path_info pi = PATH_INITIALIZER;
         int host_ret = 0;
         int ret = 0;
-        target_buf = malloc(targetlen + 1);
+        target_buf = malloc((size_t)targetlen + 1);
         if (target_buf == NULL) {
                 ret = ENOMEM;
                 goto fail;
diff --git a/libwasi/wasi_path_subr.c b/libwasi/wasi_path_subr.c
index 9bab4b2..9838970 100644
--- a/libwasi/wasi_path_subr.c
+++ b/libwasi/wasi_path_subr.c
@@ -39,7 +39,7 @@ wasi_copyin_and_convert_path(struct exec_context *ctx,
         struct wasi_fdinfo *dirfdinfo = NULL;
         int host_ret = 0;
         int ret = 0;
-        wasmpath = malloc(pathlen + 1);
+        wasmpath = malloc((size_t)pathlen + 1);
         if (wasmpath == NULL) {
                 ret = ENOMEM;
                 goto fail;
-- 
2.43.0


From 5c1e0e3e0b7c02f56cdb6e0365453522b3050973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:10 +0000
Subject: [PATCH 20/56] fix: close the file when path_open can't allocate a
 descriptor

The host descriptor was leaked, or an assertion failed, when there was
no memory for the descriptor table.
---
 libwasi/wasi_abi_path.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index 0fc750f..f3ff60c 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -69,6 +69,7 @@ wasi_path_open(struct exec_context *ctx, struct host_instance *hi,
         uint32_t wasifd;
         ret = wasi_table_fdinfo_add(wasi, WASI_TABLE_FILES, fdinfo, &wasifd);
         if (ret != 0) {
+                wasi_fdinfo_close(fdinfo);
                 goto fail;
         }
         fdinfo = NULL;
-- 
2.43.0


From fab35973ff26ea419af710433b98c2d16e211e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:10 +0000
Subject: [PATCH 21/56] fix: reuse the line buffer of the repl

The size of the buffer was forgotten for each line and getline allocated
another one, leaking the previous.
---
 cli/repl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/repl.c b/cli/repl.c
index bffcc89..0b676c5 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -1535,12 +1535,12 @@ int
 toywasm_repl(struct repl_state *state)
 {
         char *line = NULL;
+        size_t linecap = 0;
         while (true) {
                 int ret;
 
                 nbio_printf("%s> ", state->opts.prompt);
                 fflush(stdout);
-                size_t linecap = 0;
                 ssize_t ssz = nbio_getline(&line, &linecap, stdin);
                 if (ssz == -1) {
                         break;
-- 
2.43.0


From a34b42c2c2908a4428fa7411a6090fd8086ad204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:21 +0000
Subject: [PATCH 22/56] fix: copy the subscriptions in poll_oneoff

The subscriptions in the linear memory were examined again after polling
and while storing events.  When they were changed meanwhile, by another
thread or because the event buffer overlaps with them, an assertion
failed.
---
 libwasi/wasi_abi_poll.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libwasi/wasi_abi_poll.c b/libwasi/wasi_abi_poll.c
index 4b5c147..bb4412a 100644
--- a/libwasi/wasi_abi_poll.c
+++ b/libwasi/wasi_abi_poll.c
@@ -26,7 +26,7 @@ wasi_poll_oneoff(struct exec_context *ctx, struct host_instance *hi,
         uint32_t nsubscriptions = HOST_FUNC_PARAM(ft, params, 2, i32);
         uint32_t retp = HOST_FUNC_PARAM(ft, params, 3, i32);
         struct pollfd *pollfds = NULL;
-        const struct wasi_subscription *subscriptions;
+        struct wasi_subscription *subscriptions = NULL;
         struct wasi_fdinfo **fdinfos = NULL;
         uint32_t nfdinfos = 0;
         struct wasi_event *events;
@@ -53,29 +53,28 @@ wasi_poll_oneoff(struct exec_context *ctx, struct host_instance *hi,
         if (ret != 0) {
                 goto fail;
         }
-retry:
-        host_ret = host_func_check_align(ctx, in, WASI_SUBSCRIPTION_ALIGN);
-        if (host_ret != 0) {
+        /*
+         * copy the subscriptions because the module can modify them while
+         * we are using them. (another thread, or overlapping "out")
+         */
+        subscriptions = malloc(insize);
+        if (subscriptions == NULL) {
+                ret = ENOMEM;
                 goto fail;
         }
-        host_ret = host_func_getptr(ctx, wasi_memory(wasi), in, insize, &p);
+        host_ret = wasi_copyin(ctx, wasi_memory(wasi), subscriptions, in,
+                               insize, WASI_SUBSCRIPTION_ALIGN);
         if (host_ret != 0) {
                 goto fail;
         }
-        subscriptions = p;
-        bool moved = false;
         host_ret = host_func_check_align(ctx, out, WASI_EVENT_ALIGN);
         if (host_ret != 0) {
                 goto fail;
         }
-        host_ret = host_func_getptr2(ctx, wasi_memory(wasi), out, outsize, &p,
-                                     &moved);
+        host_ret = host_func_getptr(ctx, wasi_memory(wasi), out, outsize, &p);
         if (host_ret != 0) {
                 goto fail;
         }
-        if (moved) {
-                goto retry;
-        }
         events = p;
         pollfds = calloc(nsubscriptions, sizeof(*pollfds));
         fdinfos = calloc(nsubscriptions, sizeof(*fdinfos));
@@ -246,6 +245,7 @@ fail:
                                      wasi_convert_errno(ret));
         }
         free(pollfds);
+        free(subscriptions);
         if (!IS_RESTARTABLE(host_ret)) {
                 /*
                  * avoid leaving a stale restart state.
-- 
2.43.0


From 42591e98b835cffdd4e2d14c1b7b445e37220cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:19 +0000
Subject: [PATCH 23/56] fix: initialize the address length for accept

accept() reads it as the size of the buffer.
---
 libwasi/wasi_host_sockop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libwasi/wasi_host_sockop.c b/libwasi/wasi_host_sockop.c
index 26d3abd..10cef29 100644
--- a/libwasi/wasi_host_sockop.c
+++ b/libwasi/wasi_host_sockop.c
@@ -43,7 +43,7 @@ wasi_host_sock_accept(struct wasi_fdinfo *fdinfo, uint16_t fdflags,
 #if !defined(TOYWASM_OLD_WASI_LIBC)
         struct sockaddr_storage ss;
         struct sockaddr *sa = (void *)&ss;
-        socklen_t salen;
+        socklen_t salen = sizeof(ss);
 #endif
 #if defined(TOYWASM_OLD_WASI_LIBC)
         errno = ENOSYS;
-- 
2.43.0


From 8dabbef633f4743d0024f1f842379ab68ac63e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:35 +0000
Subject: [PATCH 24/56] fix: don't fail for a monotonic deadline which has
 passed

convert_timespec had the check for the underflow inverted, so poll_oneoff
with a CLOCK_MONOTONIC timeout which was already over by the time of the
conversion failed with EOVERFLOW.
---
 lib/timeutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timeutil.c b/lib/timeutil.c
index cea79cf..0d22a67 100644
--- a/lib/timeutil.c
+++ b/lib/timeutil.c
@@ -228,7 +228,7 @@ convert_timespec(clockid_t from_id, clockid_t to_id,
         } else {
                 struct timespec t;
                 timespec_sub(&from_now, from_ts, &t);
-                if (timespec_cmp(&to_now, &t) > 0) {
+                if (timespec_cmp(&to_now, &t) < 0) {
                         ret = EOVERFLOW;
                         goto fail;
                 }
-- 
2.43.0


From e5a15a91578f2a3faaf62fc6a9ea15f6e56853b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:33 +0000
Subject: [PATCH 25/56] fix: build with assertions and without heap tracking

---
 lib/mem.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mem.c b/lib/mem.c
index 83f5937..fafa7fa 100644
--- a/lib/mem.c
+++ b/lib/mem.c
@@ -128,7 +128,9 @@ mem_context_init(struct mem_context *ctx)
 void
 mem_context_clear(struct mem_context *ctx)
 {
+#if defined(TOYWASM_ENABLE_HEAP_TRACKING)
         assert(ctx->allocated == 0);
+#endif
 }
 
 int
-- 
2.43.0


From 87207330b820d0a232f74d7d43fed4458da1cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:54 +0000
Subject: [PATCH 26/56] fix: allocate shared memories of 4GB

The size in bytes was calculated in 32 bits, so that a shared memory with
65536 pages had no storage at all.
---
 lib/instance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/instance.c b/lib/instance.c
index 4d9ff3c..6fac1ec 100644
--- a/lib/instance.c
+++ b/lib/instance.c
@@ -185,7 +185,7 @@ memory_instance_create(struct mem_context *mctx, struct meminst **mip,
                 uint32_t need_in_pages = mt->lim.min;
 #endif /* defined(TOYWASM_PREALLOC_SHARED_MEMORY) */
                 uint32_t page_shift = memtype_page_shift(mt);
-                uint64_t need_in_bytes = need_in_pages << page_shift;
+                uint64_t need_in_bytes = (uint64_t)need_in_pages << page_shift;
                 if (need_in_bytes > SIZE_MAX) {
                         ret = EOVERFLOW;
                         goto fail1;
-- 
2.43.0


From 712bc98f947bb1bb34cb95a11012a71654383539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:32 +0000
Subject: [PATCH 27/56] fix: check the current size of preallocated shared
 memories

With TOYWASM_PREALLOC_SHARED_MEMORY=ON, accesses between the current size
and the maximum size of a shared memory didn't trap.
---
 lib/exec_insn_subr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 564b9d8..c1c5ba8 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -44,9 +44,11 @@ int
 memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
                         uint32_t size, void **pp, bool *movedp)
 {
+#if !defined(TOYWASM_PREALLOC_SHARED_MEMORY)
         assert(meminst->allocated <=
                (uint64_t)meminst->size_in_pages
                        << memtype_page_shift(meminst->type));
+#endif
         uint32_t ea;
         if (ADD_U32_OVERFLOW(ptr, offset, &ea)) {
                 /*
@@ -72,6 +74,16 @@ memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
         if (ADD_U32_OVERFLOW(ea, size - 1, &last_byte)) {
                 goto do_trap;
         }
+#if defined(TOYWASM_PREALLOC_SHARED_MEMORY)
+        /*
+         * Note: the preallocated space can be larger than the current size
+         * of the memory.
+         */
+        if (__predict_false(last_byte >> memtype_page_shift(meminst->type) >=
+                            meminst->size_in_pages)) {
+                goto do_trap;
+        }
+#endif
         if (__predict_false(last_byte >= meminst->allocated)) {
                 const uint32_t page_shift = memtype_page_shift(meminst->type);
                 if (last_byte >> page_shift >= meminst->size_in_pages) {
-- 
2.43.0


From 2801ccae26572dfdfd309ad1634ddaca729c13db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:04 +0000
Subject: [PATCH 28/56] fix: save modules with empty names and empty data
 segments

fwrite returns 0 for an empty write. It was taken as an I/O error.
---
 lib/module_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 9244cf7..5d73071 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -47,6 +47,9 @@ write_to_file(struct writer *w, const void *p, size_t sz)
         if (w->error != 0) {
                 return;
         }
+        if (sz == 0) {
+                return;
+        }
         if (UINT32_MAX - w->size < sz) {
                 w->error = EOVERFLOW;
         }
-- 
2.43.0


From fb96070bed4e7d48529c4612e52d552e4103d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:04 +0000
Subject: [PATCH 29/56] fix: save imports and exports of tags

---
 lib/module_writer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 5d73071..f94fe8e 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -220,6 +220,11 @@ write_importdesc(struct writer *w, const struct importdesc *desc)
         case 0x03:
                 write_globaltype(w, &desc->u.globaltype);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case 0x04:
+                write_tagtype(w, &desc->u.tagtype);
+                break;
+#endif
         default:
                 assert(0);
         }
@@ -262,6 +267,11 @@ write_exportdesc(struct writer *w, const struct exportdesc *desc)
         case EXTERNTYPE_GLOBAL:
                 WRITE_U8(0x03);
                 break;
+#if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
+        case EXTERNTYPE_TAG:
+                WRITE_U8(0x04);
+                break;
+#endif
         default:
                 assert(0);
         }
-- 
2.43.0


From c5dd9f14f563b6fd6bc2f55785a1a2cfad4f5d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:04 +0000
Subject: [PATCH 30/56] fix: save element segments with expressions or no
 elements

They stopped at assertions.
---
 lib/module_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index f94fe8e..234ad4b 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -311,7 +311,7 @@ write_element(struct writer *w, const struct element *e)
                         break;
                 }
         } else {
-                assert(e->init_exprs != NULL);
+                assert(e->init_exprs != NULL || e->init_size == 0);
                 /* 4, 5, 6, 7 */
                 switch (e->mode) {
                 case ELEM_MODE_ACTIVE: /* 4, 6 */
@@ -391,6 +391,7 @@ write_element(struct writer *w, const struct element *e)
                 for (i = 0; i < e->init_size; i++) {
                         write_expr(w, &e->init_exprs[i]);
                 }
+                break;
         default:
                 assert(0);
         }
-- 
2.43.0


From 614021cc0bc300255ce2e055ca4bb7cd424e784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:51:04 +0000
Subject: [PATCH 31/56] fix: save the maximum of shared memories always

A shared memory with the page size 1 can have UINT32_MAX as its maximum.
---
 lib/module_writer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 234ad4b..1b5b481 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -144,7 +144,9 @@ static void
 write_limits(struct writer *w, const struct limits *lim, uint8_t extra_flags,
              uint8_t shift)
 {
-        if (lim->max == UINT32_MAX) {
+        /* Note: a shared memory always has the max */
+        if (lim->max == UINT32_MAX &&
+            (extra_flags & MEMTYPE_FLAG_SHARED) == 0) {
                 WRITE_U8(0x00 | extra_flags);
                 WRITE_LEB_U32(lim->min);
         } else {
-- 
2.43.0


From d4f71c4035c0910509a6d307f9ea780afa3a529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:13 +0000
Subject: [PATCH 32/56] fix: save functions which declare zero locals of a type

The unused entries of the array were written as locals of an invalid type.
---
 lib/module_writer.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/module_writer.c b/lib/module_writer.c
index 1b5b481..56781f5 100644
--- a/lib/module_writer.c
+++ b/lib/module_writer.c
@@ -402,9 +402,17 @@ write_element(struct writer *w, const struct element *e)
 static void
 write_locals(struct writer *w, const struct localtype *lt)
 {
-        WRITE_LEB_U32(lt->nlocalchunks);
+        /*
+         * Note: the module loader skips empty chunks, leaving unused entries
+         * at the end of the array.
+         */
+        uint32_t n = lt->nlocalchunks;
+        while (n > 0 && lt->localchunks[n - 1].n == 0) {
+                n--;
+        }
+        WRITE_LEB_U32(n);
         uint32_t i;
-        for (i = 0; i < lt->nlocalchunks; i++) {
+        for (i = 0; i < n; i++) {
                 const struct localchunk *chunk = &lt->localchunks[i];
                 WRITE_LEB_U32(chunk->n);
                 WRITE_U8(chunk->type);
-- 
2.43.0


From 0d13c027979add0ac8744b20e2691e7571a25330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:36 +0000
Subject: [PATCH 33/56] fix: reject out of range arguments of invoke

An i32 or f32 argument larger than 32 bits was taken as 0.
---
 cli/repl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/repl.c b/cli/repl.c
index 0b676c5..67f60e0 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -927,6 +927,7 @@ arg_conv(enum valtype type, const char *s, struct val *result)
                 ret = str_to_uint(s, 0, &u);
                 if (ret == 0) {
                         if (u > UINT32_MAX) {
+                                ret = EOVERFLOW;
                                 break;
                         }
                         result->u.i32 = (uint32_t)u;
@@ -937,6 +938,7 @@ arg_conv(enum valtype type, const char *s, struct val *result)
                 ret = str_to_uint(s, 0, &u);
                 if (ret == 0) {
                         if (u > UINT64_MAX) {
+                                ret = EOVERFLOW;
                                 break;
                         }
                         result->u.i64 = (uint64_t)u;
-- 
2.43.0


From aa81bb689d13355ec402e92d6b4deb8555bb03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:49 +0000
Subject: [PATCH 34/56] fix: reject malformed v128 arguments of invoke

sscanf stops at the first character which is not a hexadecimal digit.
---
 cli/repl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/repl.c b/cli/repl.c
index 67f60e0..4e1854f 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -899,7 +899,7 @@ parse_v128(const char *s, struct val *result)
         uint64_t upper;
         uint64_t lower;
         int ret;
-        if (strlen(s) != 32) {
+        if (strlen(s) != 32 || strspn(s, "0123456789abcdefABCDEF") != 32) {
                 return EINVAL;
         }
         ret = sscanf(s, "%016" SCNx64 "%016" SCNx64, &upper, &lower);
-- 
2.43.0


From ef5d11d833d61af3ce4e190891b4587f35fbfb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:02 +0000
Subject: [PATCH 35/56] fix: do not print the pc of a trap outside of any
 frames

---
 lib/exec_debug.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/exec_debug.c b/lib/exec_debug.c
index 99453e0..b27566a 100644
--- a/lib/exec_debug.c
+++ b/lib/exec_debug.c
@@ -148,9 +148,13 @@ print_trace(const struct exec_context *ctx)
          *
          * Note: ctx->p can be a bit outdated because we don't always
          * keep it updated, especially on errors.
+         *
+         * Note: ctx->p is not valid if we haven't entered a frame yet.
          */
-        uint32_t pc = ptr2pc(ctx->instance->module, ctx->p);
-        nbio_printf("current pc %06" PRIx32 "\n", pc);
+        if (frameidx > 0) {
+                uint32_t pc = ptr2pc(ctx->instance->module, ctx->p);
+                nbio_printf("current pc %06" PRIx32 "\n", pc);
+        }
 
         nametable_init(&table);
         while (true) {
-- 
2.43.0


From 268ea368e54d2d158d7903de4a085219835206c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:02 +0000
Subject: [PATCH 36/56] fix: report stack overflows on pushing arguments of
 invoke

---
 cli/repl.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cli/repl.c b/cli/repl.c
index 4e1854f..aa243b7 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -1147,10 +1147,9 @@ exec_func(struct exec_context *ctx, uint32_t funcidx,
         }
         assert(ctx->stack.lsize == 0);
         ret = exec_push_vals(ctx, ptype, param);
-        if (ret != 0) {
-                goto fail;
+        if (ret == 0) {
+                ret = instance_execute_func(ctx, funcidx, ptype, rtype);
         }
-        ret = instance_execute_func(ctx, funcidx, ptype, rtype);
         do {
                 if (ret == ETOYWASMUSERINTERRUPT) {
                         assert(abstimeout != NULL);
-- 
2.43.0


From 2d1efba9196edecf056667e8881a0dd1d2cf8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:05:14 +0000
Subject: [PATCH 37/56] fix: apply the limits on frames and stack cells to
 threads

---
 libwasi_threads/wasi_threads.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libwasi_threads/wasi_threads.c b/libwasi_threads/wasi_threads.c
index d75eae7..5c86048 100644
--- a/libwasi_threads/wasi_threads.c
+++ b/libwasi_threads/wasi_threads.c
@@ -276,6 +276,7 @@ struct thread_arg {
         struct wasi_threads_instance *wasi;
         struct mem_context *mctx;
         struct instance *inst;
+        struct exec_options options;
         uint32_t user_arg;
         int32_t tid;
 };
@@ -289,7 +290,7 @@ exec_thread_start_func(struct exec_context *ctx, const struct thread_arg *arg)
         param[0].u.i32 = arg->tid;
         param[1].u.i32 = arg->user_arg;
 
-        /* XXX should inherit exec_options from the parent? */
+        ctx->options = arg->options;
         ctx->cluster = wasi_threads_cluster(wasi);
 #if defined(TOYWASM_USE_USER_SCHED)
         ctx->sched = wasi_threads_sched(wasi);
@@ -439,6 +440,7 @@ create_thread_instance(struct exec_context *parent,
         exec_context_init(ctx, inst, wasi->mctx);
         ctx->report = report;
         ctx->cluster = parent->cluster;
+        ctx->options = parent->options;
         ret = instance_execute_init(ctx);
         ret = instance_execute_handle_restart(ctx, ret);
         exec_context_clear(ctx);
@@ -510,6 +512,7 @@ wasi_thread_spawn_common(struct exec_context *ctx,
         arg->tid = tid;
         arg->user_arg = user_arg;
         arg->mctx = ctx->mctx; /* inherit mctx from the parent exec_context */
+        arg->options = ctx->options;
 
 #if defined(TOYWASM_USE_USER_SCHED)
         ret = user_runner_exec_start(arg);
-- 
2.43.0


From 129109b6da1460c47adcd7d32ecefa2434554333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:40 +0000
Subject: [PATCH 38/56] fix: read dylink.0 subsections after an unknown one

---
 lib/module.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index 0a70df7..4d197a3 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -2087,7 +2087,6 @@ read_dylink_0_section(const uint8_t **pp, const uint8_t *ep,
                         xlog_trace("skipping unimplemented subsection (%u)",
                                    (unsigned int)type);
                         p = sep;
-                        break;
                 }
         } while (p < ep);
         ret = 0;
-- 
2.43.0


From 67c09d3f86f1588a0cc3faa93f47bdd4b94195fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:40 +0000
Subject: [PATCH 39/56] fix: do not load libraries over memory and table areas
 grown by the program

---
 libdyld/dyld.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 28546de..35507cc 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -523,11 +523,17 @@ dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                      uint32_t *resultp)
 {
         uint32_t oldbase = d->memory_base;
+        const uint32_t page_shift = memtype_page_shift(d->meminst->type);
+        const uint32_t page_size = 1 << page_shift;
+        uint32_t oldnpg = howmany(oldbase, page_size);
+        if (d->meminst->size_in_pages > oldnpg) {
+                /* do not use the pages obtained by memory.grow */
+                oldnpg = d->meminst->size_in_pages;
+                oldbase = oldnpg << page_shift;
+        }
         uint32_t aligned = align_up_log(oldbase, align);
         uint32_t newbase = aligned + sz;
         assert(newbase >= oldbase);
-        const uint32_t page_size = 1 << memtype_page_shift(d->meminst->type);
-        uint32_t oldnpg = howmany(oldbase, page_size);
         uint32_t newnpg = howmany(newbase, page_size);
         assert(newnpg >= oldnpg);
         if (newnpg > oldnpg) {
@@ -547,6 +553,10 @@ dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
                     uint32_t *resultp)
 {
         uint32_t oldbase = d->table_base;
+        if (d->tableinst->size > oldbase) {
+                /* do not use the elements obtained by table.grow */
+                oldbase = d->tableinst->size;
+        }
         uint32_t aligned = align_up_log(oldbase, align);
         uint32_t newbase = aligned + sz;
         assert(newbase >= oldbase);
-- 
2.43.0


From 7a384db54e0e7e050773fcd2d523beabfa331085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:00 +0000
Subject: [PATCH 40/56] fix: reject library areas which do not fit the address
 space

---
 libdyld/dyld.c | 55 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 35507cc..563ef8d 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -146,24 +146,25 @@ static const struct globaltype globaltype_i32_const = {
         .mut = GLOBAL_CONST,
 };
 
-static uint32_t
-align_up(uint32_t v, uint32_t align)
+static uint64_t
+align_up(uint64_t v, uint64_t align)
 {
-        uint32_t mask = align - 1;
+        uint64_t mask = align - 1;
         return (v + mask) & ~mask;
 }
 
-static uint32_t
-align_up_log(uint32_t v, uint32_t palign)
+static uint64_t
+align_up_log(uint64_t v, uint32_t palign)
 {
-        uint32_t align = 1 << palign;
+        assert(palign < 32);
+        uint64_t align = (uint64_t)1 << palign;
         return align_up(v, align);
 }
 
 static uint32_t
-howmany(uint32_t a, uint32_t b)
+howmany(uint64_t a, uint32_t b)
 {
-        return (a + b - 1) / b;
+        return (uint32_t)((a + b - 1) / b);
 }
 
 static uint32_t
@@ -522,18 +523,23 @@ static int
 dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                      uint32_t *resultp)
 {
-        uint32_t oldbase = d->memory_base;
+        if (align >= 32) {
+                return EINVAL;
+        }
+        uint64_t oldbase = d->memory_base;
         const uint32_t page_shift = memtype_page_shift(d->meminst->type);
         const uint32_t page_size = 1 << page_shift;
         uint32_t oldnpg = howmany(oldbase, page_size);
         if (d->meminst->size_in_pages > oldnpg) {
                 /* do not use the pages obtained by memory.grow */
                 oldnpg = d->meminst->size_in_pages;
-                oldbase = oldnpg << page_shift;
+                oldbase = (uint64_t)oldnpg << page_shift;
+        }
+        uint64_t aligned = align_up_log(oldbase, align);
+        uint64_t newbase = aligned + sz;
+        if (newbase > UINT32_MAX) {
+                return ENOMEM;
         }
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
-        assert(newbase >= oldbase);
         uint32_t newnpg = howmany(newbase, page_size);
         assert(newnpg >= oldnpg);
         if (newnpg > oldnpg) {
@@ -543,8 +549,8 @@ dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                 }
                 assert(ret == oldnpg);
         }
-        d->memory_base = newbase;
-        *resultp = aligned;
+        d->memory_base = (uint32_t)newbase;
+        *resultp = (uint32_t)aligned;
         return 0;
 }
 
@@ -552,24 +558,29 @@ static int
 dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
                     uint32_t *resultp)
 {
+        if (align >= 32) {
+                return EINVAL;
+        }
         uint32_t oldbase = d->table_base;
         if (d->tableinst->size > oldbase) {
                 /* do not use the elements obtained by table.grow */
                 oldbase = d->tableinst->size;
         }
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
-        assert(newbase >= oldbase);
+        uint64_t aligned = align_up_log(oldbase, align);
+        uint64_t newbase = aligned + sz;
+        if (newbase > UINT32_MAX) {
+                return ENOMEM;
+        }
         if (newbase > oldbase) {
-                uint32_t ret =
-                        table_grow(d->tableinst, &val_null, newbase - oldbase);
+                uint32_t ret = table_grow(d->tableinst, &val_null,
+                                          (uint32_t)(newbase - oldbase));
                 if (ret == (uint32_t)-1) {
                         return ENOMEM;
                 }
                 assert(ret == oldbase);
         }
-        d->table_base = newbase;
-        *resultp = aligned;
+        d->table_base = (uint32_t)newbase;
+        *resultp = (uint32_t)aligned;
         return 0;
 }
 
-- 
2.43.0


From 7c73bc6d8a91f6043468e93a5b4295b68bce5548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:17 +0000
Subject: [PATCH 41/56] fix: keep the names of libraries loaded at run time

---
 libdyld/dyld.c       | 28 +++++++++++++++-------------
 libdyld/dyld_dlfcn.c | 40 ++++++++++++++++++++++------------------
 libdyld/dyld_impl.h  |  2 +-
 3 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 563ef8d..abac8d3 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -703,13 +703,6 @@ dyld_allocate_table_for_obj_exports(struct dyld *d, struct dyld_object *obj)
 static void
 dyld_object_destroy(struct dyld_object *obj)
 {
-#if 0
-        /*
-         * obj->name might have been freed given the order dyld_clear()
-         * frees objects
-         */
-        xlog_trace("dyld: destroying %.*s", CSTR(obj->name));
-#endif
         struct dyld *d = obj->dyld;
         struct mem_context *mctx = d->mctx;
         if (obj->local_import_obj != NULL) {
@@ -728,6 +721,8 @@ dyld_object_destroy(struct dyld_object *obj)
         }
         mem_context_clear(&obj->module_mctx);
         mem_context_clear(&obj->instance_mctx);
+        mem_free(mctx, (void *)obj->name0.data,
+                 (size_t)obj->name0.nbytes + 1); /* discard const */
         mem_free(mctx, obj, sizeof(*obj));
 }
 
@@ -863,7 +858,19 @@ dyld_load_object_from_file(struct dyld *d, const struct name *name,
         mem_context_init(&obj->instance_mctx);
         obj->instance_mctx.parent = d->mctx;
         obj->dyld = d;
-        obj->name = name;
+        /*
+         * make a copy because the object can outlive the given name.
+         */
+        char *name_data = mem_alloc(d->mctx, (size_t)name->nbytes + 1);
+        if (name_data == NULL) {
+                ret = ENOMEM;
+                goto fail;
+        }
+        memcpy(name_data, name->data, name->nbytes);
+        name_data[name->nbytes] = 0;
+        obj->name0.data = name_data;
+        obj->name0.nbytes = name->nbytes;
+        obj->name = &obj->name0;
         ret = map_file(filename, (void *)&obj->bin, &obj->binsz);
         if (ret != 0) {
                 goto fail;
@@ -1526,11 +1533,6 @@ dyld_clear(struct dyld *d)
                 import_object_destroy(mctx, imp);
         }
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
-        struct dyld_dynamic_object *it;
-        VEC_FOREACH(it, d->dynobjs) {
-                size_t sz = strlen(it->name.data) + 1;
-                mem_free(mctx, (void *)it->name.data, sz); /* discard const */
-        }
         VEC_FREE(mctx, d->dynobjs);
 #endif
 #if defined(TOYWASM_ENABLE_WASM_EXCEPTION_HANDLING)
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index a1ffb62..7d78d1c 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -79,17 +79,7 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
                 goto fail;
         }
 
-        uint32_t idx = d->dynobjs.lsize;
-        ret = VEC_PREALLOC(d->mctx, d->dynobjs, 1);
-        if (ret != 0) {
-                xlog_error("%s: dynobjs prealloc failed", __func__);
-                user_ret = 1;
-                goto fail;
-        }
-        struct dyld_dynamic_object *dobj = &VEC_ELEM(d->dynobjs, idx);
-        memset(dobj, 0, sizeof(*dobj));
-
-        char *name_data = mem_alloc(d->mctx, namelen + 1);
+        char *name_data = mem_alloc(d->mctx, (size_t)namelen + 1);
         if (name_data == NULL) {
                 xlog_error("%s: malloc failed", __func__);
                 user_ret = 1;
@@ -98,22 +88,36 @@ dyld_dlfcn_load_object(struct exec_context *ctx, struct host_instance *hi,
         memcpy(name_data, vp, namelen);
         name_data[namelen] = 0;
 
-        struct name *name = &dobj->name;
-        name->data = name_data;
-        name->nbytes = namelen;
-        ret = dyld_dynamic_load_object_by_name(d, name, false, &dobj->obj);
+        struct name name;
+        name.data = name_data;
+        name.nbytes = namelen;
+        struct dyld_object *obj;
+        ret = dyld_dynamic_load_object_by_name(d, &name, false, &obj);
+        mem_free(d->mctx, name_data, (size_t)namelen + 1);
         if (ret != 0) {
                 xlog_error("%s: dyld_dynamic_load_object_by_name failed",
                            __func__);
-                mem_free(d->mctx, name_data, namelen + 1);
                 user_ret = 1;
                 goto fail;
         }
-        d->dynobjs.lsize++;
+
+        /*
+         * Note: the init functions of the object might have loaded other
+         * objects.
+         */
+        uint32_t idx = d->dynobjs.lsize;
+        ret = VEC_PREALLOC(d->mctx, d->dynobjs, 1);
+        if (ret != 0) {
+                xlog_error("%s: dynobjs prealloc failed", __func__);
+                user_ret = 1;
+                goto fail;
+        }
+        struct dyld_dynamic_object *dobj = VEC_PUSH(d->dynobjs);
+        dobj->obj = obj;
         uint32_t handle = idx + 1;
         xlog_trace(
                 "dyld: dyld:load_object succeeded for %.*s, handle %" PRIu32,
-                CSTR(name), handle);
+                CSTR(obj->name), handle);
         uint32_t handle_le = host_to_le32(handle);
         host_ret = host_func_copyout(ctx, dyld_memory(d), &handle_le, retp,
                                      sizeof(handle_le), 4);
diff --git a/libdyld/dyld_impl.h b/libdyld/dyld_impl.h
index f40922f..c1c3e0b 100644
--- a/libdyld/dyld_impl.h
+++ b/libdyld/dyld_impl.h
@@ -19,6 +19,7 @@ struct dyld_plt {
 };
 
 struct dyld_object {
+        struct name name0;
         const struct name *name;
 
         uint32_t memory_base;
@@ -53,7 +54,6 @@ struct dyld_object {
 };
 
 struct dyld_dynamic_object {
-        struct name name;
         struct dyld_object *obj;
 };
 
-- 
2.43.0


From 89c7672753a9859ca5260eb3c0024bc5bf54db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:17 +0000
Subject: [PATCH 42/56] fix: do not load a library again if it is already
 loaded

---
 libdyld/dyld.c       | 2 +-
 libdyld/dyld_dlfcn.c | 6 +++++-
 libdyld/dyld_impl.h  | 2 ++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index abac8d3..e0fb660 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -296,7 +296,7 @@ dyld_init(struct dyld *d, struct mem_context *mctx)
         d->mctx = mctx;
 }
 
-static struct dyld_object *
+struct dyld_object *
 dyld_find_object_by_name(struct dyld *d, const struct name *name)
 {
         struct dyld_object *obj;
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index 7d78d1c..2c1bdbf 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -24,8 +24,12 @@ static int
 dyld_dynamic_load_object_by_name(struct dyld *d, const struct name *name,
                                  bool bindnow, struct dyld_object **objp)
 {
-        struct dyld_object *obj = NULL;
+        struct dyld_object *obj = dyld_find_object_by_name(d, name);
         int ret;
+        if (obj != NULL) {
+                *objp = obj;
+                return 0;
+        }
         ret = dyld_search_and_load_object_from_file(d, name, &obj);
         if (ret != 0) {
                 goto fail;
diff --git a/libdyld/dyld_impl.h b/libdyld/dyld_impl.h
index c1c3e0b..c4ba825 100644
--- a/libdyld/dyld_impl.h
+++ b/libdyld/dyld_impl.h
@@ -66,6 +66,8 @@ int dyld_resolve_symbol(struct dyld_object *refobj, enum symtype symtype,
 int dyld_resolve_symbol_in_obj(struct dyld_object *refobj,
                                struct dyld_object *obj, enum symtype symtype,
                                const struct name *sym, uint32_t *resultp);
+struct dyld_object *dyld_find_object_by_name(struct dyld *d,
+                                             const struct name *name);
 int dyld_search_and_load_object_from_file(struct dyld *d,
                                           const struct name *name,
                                           struct dyld_object **objp);
-- 
2.43.0


From ba6f5999d40886931282985391a209a2a37d4a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:34 +0000
Subject: [PATCH 43/56] fix: do not resolve symbols to libraries which failed
 to load

---
 libdyld/dyld.c       | 29 +++++++++++++++++++++++++++++
 libdyld/dyld.h       |  2 ++
 libdyld/dyld_dlfcn.c |  2 +-
 libdyld/dyld_impl.h  |  1 +
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index e0fb660..e6ce591 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -290,6 +290,7 @@ dyld_init(struct dyld *d, struct mem_context *mctx)
 {
         memset(d, 0, sizeof(*d));
         SLIST_HEAD_INIT(&d->objs);
+        SLIST_HEAD_INIT(&d->failed_objs);
         d->table_base = 0;
         d->memory_base = 0;
         dyld_options_set_defaults(&d->opts);
@@ -311,6 +312,30 @@ dyld_find_object_by_name(struct dyld *d, const struct name *name)
         return NULL;
 }
 
+/*
+ * dyld_hide_objects:
+ *
+ * remove the given object and the objects loaded after it from the list
+ * so that symbols are not resolved to them anymore.
+ *
+ * Note: we can't destroy them because others (eg. the table) might already
+ * have references to them.
+ */
+void
+dyld_hide_objects(struct dyld *d, struct dyld_object *start)
+{
+        assert(!is_main_object(start));
+        struct dyld_object *prev = SLIST_FIRST(&d->objs);
+        while (SLIST_NEXT(prev, q) != start) {
+                prev = SLIST_NEXT(prev, q);
+        }
+        struct dyld_object *obj;
+        while ((obj = SLIST_NEXT(prev, q)) != NULL) {
+                SLIST_REMOVE(&d->objs, prev, obj, q);
+                SLIST_INSERT_TAIL(&d->failed_objs, obj, q);
+        }
+}
+
 int
 dyld_search_and_load_object_from_file(struct dyld *d, const struct name *name,
                                       struct dyld_object **objp)
@@ -1519,6 +1544,10 @@ dyld_clear(struct dyld *d)
                 SLIST_REMOVE_HEAD(&d->objs, obj, q);
                 dyld_object_destroy(obj);
         }
+        while ((obj = SLIST_FIRST(&d->failed_objs)) != NULL) {
+                SLIST_REMOVE_HEAD(&d->failed_objs, obj, q);
+                dyld_object_destroy(obj);
+        }
         if (d->pie) {
                 if (d->meminst != NULL) {
                         memory_instance_destroy(mctx, d->meminst);
diff --git a/libdyld/dyld.h b/libdyld/dyld.h
index 53cce31..0943ddb 100644
--- a/libdyld/dyld.h
+++ b/libdyld/dyld.h
@@ -74,6 +74,8 @@ struct dyld {
         } u;
 
         SLIST_HEAD(struct dyld_object) objs;
+        /* objects left by failed dynamic loads. not visible to others. */
+        SLIST_HEAD(struct dyld_object) failed_objs;
 
         struct dyld_options opts;
 
diff --git a/libdyld/dyld_dlfcn.c b/libdyld/dyld_dlfcn.c
index 2c1bdbf..faf97f0 100644
--- a/libdyld/dyld_dlfcn.c
+++ b/libdyld/dyld_dlfcn.c
@@ -46,7 +46,7 @@ dyld_dynamic_load_object_by_name(struct dyld *d, const struct name *name,
         return 0;
 fail:
         if (obj != NULL) {
-                /* TODO: implement cleanup */
+                dyld_hide_objects(d, obj);
         }
         return ret;
 }
diff --git a/libdyld/dyld_impl.h b/libdyld/dyld_impl.h
index c4ba825..0125f23 100644
--- a/libdyld/dyld_impl.h
+++ b/libdyld/dyld_impl.h
@@ -66,6 +66,7 @@ int dyld_resolve_symbol(struct dyld_object *refobj, enum symtype symtype,
 int dyld_resolve_symbol_in_obj(struct dyld_object *refobj,
                                struct dyld_object *obj, enum symtype symtype,
                                const struct name *sym, uint32_t *resultp);
+void dyld_hide_objects(struct dyld *d, struct dyld_object *start);
 struct dyld_object *dyld_find_object_by_name(struct dyld *d,
                                              const struct name *name);
 int dyld_search_and_load_object_from_file(struct dyld *d,
-- 
2.43.0


From ad979b5764633bfb4d519ade21fd8a61b46a439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:08 +0000
Subject: [PATCH 44/56] fix: allow non-PIE main modules without any host
 imports

---
 libdyld/dyld.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index e6ce591..624360c 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -967,7 +967,6 @@ dyld_load_object_from_file(struct dyld *d, const struct name *name,
                    CSTR(name), obj->memory_base, obj->table_base);
         global_set_i32(&obj->memory_base_global, obj->memory_base);
         global_set_i32(&obj->table_base_global, obj->table_base);
-        assert(d->shared_import_obj != NULL);
         obj->local_import_obj->next = d->shared_import_obj;
         struct report report;
         report_init(&report);
-- 
2.43.0


From 817b5579e71327d6ffd2844152030c90baead86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:08 +0000
Subject: [PATCH 45/56] fix: do not move struct dyld when another module is
 loaded

---
 cli/repl.c | 13 ++++++++++---
 cli/repl.h |  3 ++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cli/repl.c b/cli/repl.c
index aa243b7..10c820a 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -177,7 +177,7 @@ repl_unload_u(struct repl_state *state, struct repl_module_state_u *mod_u)
 {
 #if defined(TOYWASM_ENABLE_DYLD)
         if (state->opts.enable_dyld) {
-                struct dyld *d = &mod_u->u.dyld;
+                struct dyld *d = mod_u->u.dyld;
 #if defined(TOYWASM_ENABLE_DYLD)
                 if (state->opts.print_stats) {
                         nbio_printf("=== dyld memory consumption immediately "
@@ -186,6 +186,7 @@ repl_unload_u(struct repl_state *state, struct repl_module_state_u *mod_u)
                 }
 #endif
                 dyld_clear(d);
+                mem_free(state->mctx, d, sizeof(*d));
                 return;
         }
 #endif
@@ -738,20 +739,26 @@ toywasm_repl_load(struct repl_state *state, const char *modname,
                 if (trap_ok) {
                         return ENOTSUP; /* not implemented */
                 }
-                struct dyld *d = &mod_u->u.dyld;
+                struct dyld *d = mem_alloc(state->mctx, sizeof(*d));
+                if (d == NULL) {
+                        return ENOMEM;
+                }
                 dyld_init(d, state->dyld_mctx);
                 d->opts = state->opts.dyld_options;
                 d->opts.base_import_obj = state->imports;
                 ret = dyld_load(d, filename);
                 if (ret != 0) {
+                        mem_free(state->mctx, d, sizeof(*d));
                         return ret;
                 }
                 set_memory(state, dyld_memory(d));
                 ret = dyld_execute_init_funcs(d);
                 if (ret != 0) {
                         dyld_clear(d);
+                        mem_free(state->mctx, d, sizeof(*d));
                         return ret;
                 }
+                mod_u->u.dyld = d;
                 state->modules.lsize++;
                 return 0;
         }
@@ -1216,7 +1223,7 @@ toywasm_repl_invoke(struct repl_state *state, const char *modname,
         struct mem_context *mctx;
 #if defined(TOYWASM_ENABLE_DYLD)
         if (state->opts.enable_dyld) {
-                struct dyld *d = &mod_u->u.dyld;
+                struct dyld *d = mod_u->u.dyld;
                 inst = dyld_main_object_instance(d);
                 mctx = state->mctx;
         } else
diff --git a/cli/repl.h b/cli/repl.h
index e5adeca..954b14c 100644
--- a/cli/repl.h
+++ b/cli/repl.h
@@ -44,7 +44,8 @@ struct repl_module_state {
 struct repl_module_state_u {
         union {
 #if defined(TOYWASM_ENABLE_DYLD)
-                struct dyld dyld;
+                /* not inline because a struct dyld can't be moved */
+                struct dyld *dyld;
 #endif
                 struct repl_module_state repl;
         } u;
-- 
2.43.0


From 6444d91c54360db7a704f5beda07f8503a32395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:58 +0000
Subject: [PATCH 46/56] fix: check interrupts in loops which restart in each
 iteration

The countdown to the next interrupt check started over on each restart.
A loop calling a function of a shared library via dyld PLT causes a restart
in each iteration and thus never checked interrupts. Such a program could
not be stopped by --timeout or terminated by another thread.
---
 lib/exec.c         | 19 +++++++++++++------
 lib/exec_context.h |  1 +
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/exec.c b/lib/exec.c
index 77e0eef..d5bf5ea 100644
--- a/lib/exec.c
+++ b/lib/exec.c
@@ -1244,8 +1244,15 @@ exec_expr_continue(struct exec_context *ctx)
         struct timespec last;
         bool has_last = false;
 #endif
-        uint32_t n = ctx->check_interval;
-        assert(n > 0);
+        /*
+         * Note: the count is kept over restarts. otherwise, a loop which
+         * causes a restart in each iteration (eg. a call via dyld PLT)
+         * would never reach the check.
+         */
+        if (ctx->check_count == 0) {
+                ctx->check_count = ctx->check_interval;
+        }
+        assert(ctx->check_count > 0);
         while (true) {
                 int ret;
                 switch (ctx->event) {
@@ -1321,8 +1328,8 @@ exec_expr_continue(struct exec_context *ctx)
                         return_to_hostfunc(ctx);
                         continue;
                 }
-                n--;
-                if (__predict_false(n == 0)) {
+                ctx->check_count--;
+                if (__predict_false(ctx->check_count == 0)) {
 #if defined(ADJUST_CHECK_INTERVAL)
                         struct timespec now;
                         ret = timespec_now(CLOCK_MONOTONIC, &now);
@@ -1342,8 +1349,8 @@ exec_expr_continue(struct exec_context *ctx)
                                 }
                                 return ret;
                         }
-                        n = ctx->check_interval;
-                        assert(n > 0);
+                        ctx->check_count = ctx->check_interval;
+                        assert(ctx->check_count > 0);
                 }
                 struct cell *stack = &VEC_NEXTELEM(ctx->stack);
                 ret = fetch_exec_next_insn(ctx->p, stack, ctx);
diff --git a/lib/exec_context.h b/lib/exec_context.h
index 08c3494..9f9c9bc 100644
--- a/lib/exec_context.h
+++ b/lib/exec_context.h
@@ -275,6 +275,7 @@ struct exec_context {
         unsigned int user_intr_delay_count;
         unsigned int user_intr_delay;
         uint32_t check_interval;
+        uint32_t check_count; /* iterations until the next check */
 
 #if defined(TOYWASM_USE_USER_SCHED)
         /* scheduler */
-- 
2.43.0


From 50747a5fa287e868c399a95c5097c8667a6e6f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:45:58 +0000
Subject: [PATCH 47/56] fix: apply exec limits and timeouts to init functions
 run by dyld

Start functions and init functions of shared libraries were executed
with the default options and without user interrupts. Let the user of dyld
set up the execution, and make the cli apply its limits and timeout.
---
 cli/repl.c     | 27 ++++++++++++++++++++
 libdyld/dyld.c | 69 ++++++++++++++++++++++++++++++++++++++++++++------
 libdyld/dyld.h | 13 ++++++++++
 3 files changed, 101 insertions(+), 8 deletions(-)

diff --git a/cli/repl.c b/cli/repl.c
index 10c820a..ae5a6ae 100644
--- a/cli/repl.c
+++ b/cli/repl.c
@@ -554,6 +554,30 @@ fail:
         return ret;
 }
 
+#if defined(TOYWASM_ENABLE_DYLD)
+static void
+repl_dyld_setup_exec(struct exec_context *ctx, void *arg)
+{
+        const struct repl_state *state = arg;
+        ctx->options = state->opts.exec_options;
+        if (state->has_timeout) {
+                setup_timeout(ctx);
+        }
+}
+
+static int
+repl_dyld_user_intr(struct exec_context *ctx, void *arg)
+{
+        const struct repl_state *state = arg;
+        assert(state->has_timeout);
+        int ret = check_timeout(&state->abstimeout);
+        if (ret != 0) {
+                print_trace(ctx);
+        }
+        return ret;
+}
+#endif
+
 static int
 repl_exec_init(struct repl_state *state, struct repl_module_state *mod,
                bool trap_ok)
@@ -746,6 +770,9 @@ toywasm_repl_load(struct repl_state *state, const char *modname,
                 dyld_init(d, state->dyld_mctx);
                 d->opts = state->opts.dyld_options;
                 d->opts.base_import_obj = state->imports;
+                d->opts.setup_exec = repl_dyld_setup_exec;
+                d->opts.user_intr = repl_dyld_user_intr;
+                d->opts.exec_arg = state;
                 ret = dyld_load(d, filename);
                 if (ret != 0) {
                         mem_free(state->mctx, d, sizeof(*d));
diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 624360c..6f3815c 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -751,6 +751,64 @@ dyld_object_destroy(struct dyld_object *obj)
         mem_free(mctx, obj, sizeof(*obj));
 }
 
+static void
+dyld_setup_exec(struct dyld *d, struct exec_context *ctx)
+{
+        const struct dyld_options *opts = &d->opts;
+        if (opts->setup_exec != NULL) {
+                opts->setup_exec(ctx, opts->exec_arg);
+        }
+}
+
+static int
+dyld_handle_restart(struct dyld *d, struct exec_context *ctx, int exec_ret)
+{
+        const struct dyld_options *opts = &d->opts;
+        int ret = exec_ret;
+        /*
+         * XXX restart handilng should be left to the user.
+         * maybe we can split dyld_load to _no_init and
+         * _execute_init, similarly to instance_create.
+         */
+        do {
+                if (ret == ETOYWASMUSERINTERRUPT && opts->user_intr != NULL) {
+                        int ret1 = opts->user_intr(ctx, opts->exec_arg);
+                        if (ret1 != 0) {
+                                return ret1;
+                        }
+                }
+                ret = instance_execute_handle_restart_once(ctx, ret);
+        } while (IS_RESTARTABLE(ret));
+        return ret;
+}
+
+static int
+dyld_create_obj_instance(struct dyld *d, struct dyld_object *obj,
+                         struct report *report)
+{
+        struct mem_context *mctx = &obj->instance_mctx;
+        struct instance *inst;
+        int ret;
+        ret = instance_create_no_init(mctx, obj->module, &inst,
+                                      obj->local_import_obj, report);
+        if (ret != 0) {
+                return ret;
+        }
+        struct exec_context ectx;
+        exec_context_init(&ectx, inst, mctx);
+        ectx.report = report;
+        dyld_setup_exec(d, &ectx);
+        ret = instance_execute_init(&ectx);
+        ret = dyld_handle_restart(d, &ectx, ret);
+        exec_context_clear(&ectx);
+        if (ret != 0) {
+                instance_destroy(inst);
+                return ret;
+        }
+        obj->instance = inst;
+        return 0;
+}
+
 static int
 dyld_execute_obj_init_func1(struct dyld_object *obj, const struct name *name)
 {
@@ -770,13 +828,9 @@ dyld_execute_obj_init_func1(struct dyld_object *obj, const struct name *name)
         struct exec_context ectx;
         struct dyld *dyld = obj->dyld;
         exec_context_init(&ectx, obj->instance, dyld->mctx);
+        dyld_setup_exec(dyld, &ectx);
         ret = instance_execute_func(&ectx, funcidx, pt, rt);
-        /*
-         * XXX restart handilng should be left to the user.
-         * maybe we can split dyld_load to _no_init and
-         * _execute_init, similarly to instance_create.
-         */
-        ret = instance_execute_handle_restart(&ectx, ret);
+        ret = dyld_handle_restart(dyld, &ectx, ret);
         exec_context_clear(&ectx);
         return ret;
 }
@@ -970,8 +1024,7 @@ dyld_load_object_from_file(struct dyld *d, const struct name *name,
         obj->local_import_obj->next = d->shared_import_obj;
         struct report report;
         report_init(&report);
-        ret = instance_create(&obj->instance_mctx, obj->module, &obj->instance,
-                              obj->local_import_obj, &report);
+        ret = dyld_create_obj_instance(d, obj, &report);
         if (ret != 0) {
                 xlog_error("instance_create failed with %d: %s", ret,
                            report_getmessage(&report));
diff --git a/libdyld/dyld.h b/libdyld/dyld.h
index 0943ddb..ef7befb 100644
--- a/libdyld/dyld.h
+++ b/libdyld/dyld.h
@@ -8,6 +8,7 @@
 #include "vec.h"
 
 struct dyld_object;
+struct exec_context;
 struct mem_context;
 
 struct dyld_options {
@@ -39,6 +40,18 @@ struct dyld_options {
 #if defined(TOYWASM_ENABLE_DYLD_DLFCN)
         bool enable_dlfcn;
 #endif
+
+        /*
+         * callbacks for the execution of start functions and init
+         * functions. (optional)
+         *
+         * setup_exec: set up the exec_context. eg. options and intrp
+         * user_intr: handle ETOYWASMUSERINTERRUPT. the execution is
+         *            aborted with the returned error if it isn't 0.
+         */
+        void (*setup_exec)(struct exec_context *ctx, void *arg);
+        int (*user_intr)(struct exec_context *ctx, void *arg);
+        void *exec_arg;
 };
 
 #define NUM_LAYOUT_GLOBAL 4
-- 
2.43.0


From bfd5a97445592db1fd4ef1cba9b83a75480ac82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:15:45 +0000
Subject: [PATCH 48/56] fix: refresh the cached locals when a host call moves
 the stack

With TOYWASM_USE_SEPARATE_LOCALS=OFF, the locals of the current frame are on
the operand stack. Pushing values from a host function can reallocate the
stack, leaving the cached pointer to the locals dangling.
---
 lib/exec.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/exec.c b/lib/exec.c
index d5bf5ea..49bd519 100644
--- a/lib/exec.c
+++ b/lib/exec.c
@@ -67,7 +67,18 @@ stack_prealloc(struct exec_context *ctx, uint32_t count)
                 return trap_with_id(ctx, TRAP_TOO_MANY_STACKCELLS,
                                     "too many values on the operand stack");
         }
-        return VEC_PREALLOC(exec_mctx(ctx), ctx->stack, count);
+        int ret = VEC_PREALLOC(exec_mctx(ctx), ctx->stack, count);
+#if defined(TOYWASM_USE_LOCALS_CACHE) && !defined(TOYWASM_USE_SEPARATE_LOCALS)
+        /*
+         * The locals of the current frame are on the stack, which
+         * might have been moved by the above.
+         */
+        if (ret == 0 && ctx->frames.lsize > 0) {
+                ctx->current_locals =
+                        frame_locals(ctx, &VEC_LASTELEM(ctx->frames));
+        }
+#endif
+        return ret;
 }
 
 static void
-- 
2.43.0


From a418832439fc2987bfc9202da16ba2706b9a4fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:11 +0000
Subject: [PATCH 49/56] fix: do not end an atomic wait by a change of the value

memory.atomic.wait should block until a notify or the timeout, once it has
found the expected value. Because the interpreter splits a long wait into
short ones and compared the value again for each of them, a store without
a notify made the wait return "not equal".
---
 lib/exec_insn_subr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index c1c5ba8..9e1cd30 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -652,9 +652,6 @@ memory_wait(struct exec_context *ctx, uint32_t memidx, uint32_t addr,
                 return ret;
         }
         assert((lock == NULL) == (shared == NULL));
-#if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-retry:;
-#endif
         uint64_t prev;
         if (is64) {
                 prev = *(_Atomic uint64_t *)p;
@@ -674,7 +671,12 @@ retry:;
                  * emulate the user-specified long (or even infinite) block
                  * by looping with a short interval because we should call
                  * check_interrupt frequently enough.
+                 *
+                 * Note: do not compare the value again here because a change
+                 * of the value without a notify should not end the wait.
+                 * we don't miss a notify as the lock is held.
                  */
+retry:
                 ret = check_interrupt(ctx);
                 if (ret != 0) {
                         goto fail;
-- 
2.43.0


From a80df6800871ee98df27f414e9c0e61bbbdb9c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:03 +0000
Subject: [PATCH 50/56] fix: read a tag's attribute as a byte

The attribute of a tag type is a single byte in the binary format, so a
padded LEB encoding of zero is malformed and has to be rejected.
---
 lib/module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/module.c b/lib/module.c
index 4d197a3..db5060f 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -611,11 +611,11 @@ read_tagtype(const uint8_t **pp, const uint8_t *ep, uint32_t idx,
 {
         struct load_context *ctx = vctx;
         const uint8_t *p = *pp;
-        uint32_t type;
+        uint8_t type;
         uint32_t typeidx;
         int ret;
 
-        ret = read_leb_u32(&p, ep, &type);
+        ret = read_u8(&p, ep, &type);
         if (ret != 0) {
                 goto fail;
         }
-- 
2.43.0


From 3643dc652c3d1f35a2b1057e0423a0b3e14358c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:43 +0000
Subject: [PATCH 51/56] fix: don't destroy a shared memory twice when creating
 the next one fails

The memories created so far already belong to the import object.
---
 lib/shared_memory.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/shared_memory.c b/lib/shared_memory.c
index 8cfa04d..30043a0 100644
--- a/lib/shared_memory.c
+++ b/lib/shared_memory.c
@@ -25,7 +25,6 @@ create_satisfying_shared_memories(struct mem_context *mctx,
         struct import_object *imo = NULL;
         uint32_t nsharedimports;
         uint32_t i;
-        struct meminst *mi = NULL;
         int ret;
 
         nsharedimports = 0;
@@ -57,6 +56,7 @@ create_satisfying_shared_memories(struct mem_context *mctx,
                 if ((mt->flags & MEMTYPE_FLAG_SHARED) == 0) {
                         continue;
                 }
+                struct meminst *mi;
                 ret = memory_instance_create(instance_mctx, &mi, mt);
                 if (ret != 0) {
                         goto fail;
@@ -75,8 +75,5 @@ fail:
         if (imo != NULL) {
                 import_object_destroy(mctx, imo);
         }
-        if (mi != NULL) {
-                memory_instance_destroy(instance_mctx, mi);
-        }
         return ret;
 }
-- 
2.43.0


From 22a5fcfc829927dcb7064929de00fbca6e9a0ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:52:43 +0000
Subject: [PATCH 52/56] fix: don't reset a repl state which could not be
 allocated

---
 cli/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cli/main.c b/cli/main.c
index 37a5366..5e118b3 100644
--- a/cli/main.c
+++ b/cli/main.c
@@ -689,7 +689,9 @@ main(int argc, char **argv)
         exit_status = 0;
 #endif
 fail:
-        toywasm_repl_reset(state);
+        if (state != NULL) {
+                toywasm_repl_reset(state);
+        }
 #if defined(TOYWASM_ENABLE_WASI)
         VEC_FREE(mctx, wasi_envs);
 #endif
-- 
2.43.0


From 3b916d3d4a84fb7b1d0f97ea3dd235aa638f3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:12 +0000
Subject: [PATCH 53/56] fix: close the accepted socket when it can't be added
 to the table

If wasi_table_fdinfo_add failed, the host descriptor returned by accept
was leaked, or an assertion in wasi_fdinfo_clear failed.
---
 libwasi/wasi_abi_sock.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libwasi/wasi_abi_sock.c b/libwasi/wasi_abi_sock.c
index f5f48eb..1b0f95e 100644
--- a/libwasi/wasi_abi_sock.c
+++ b/libwasi/wasi_abi_sock.c
@@ -67,6 +67,7 @@ retry:
         ret = wasi_table_fdinfo_add(wasi, WASI_TABLE_FILES, fdinfo_child,
                                     &wasichildfd);
         if (ret != 0) {
+                wasi_fdinfo_close(fdinfo_child);
                 goto fail;
         }
         fdinfo_child = NULL;
-- 
2.43.0


From 105f6b7f08e585d45d890a4d612c7571f27fb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:12 +0000
Subject: [PATCH 54/56] fix: reject a symlink target with an embedded NUL

path_symlink created a link to the part before the NUL and reported
success.  Return EINVAL, as for other paths.
---
 libwasi/wasi_abi_path.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index f3ff60c..2072a90 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -214,6 +214,10 @@ wasi_path_symlink(struct exec_context *ctx, struct host_instance *hi,
                 goto fail;
         }
         target_buf[targetlen] = 0;
+        if (strlen(target_buf) != targetlen) {
+                ret = EINVAL;
+                goto fail;
+        }
         host_ret = wasi_copyin_and_convert_path(ctx, wasi, dirwasifd, path,
                                                 pathlen, &pi, &ret);
         if (host_ret != 0 || ret != 0) {
-- 
2.43.0


From a1ed36d1baab82f1e98cb535ef8d31e488cb95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:12 +0000
Subject: [PATCH 55/56] fix: undo thread creation when the user scheduler can't
 start it

When user_runner_exec_start failed, thread-spawn leaked the instance and
the thread ID, and left the thread counted in the cluster, so that the
process never ended.
---
 libwasi_threads/wasi_threads.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libwasi_threads/wasi_threads.c b/libwasi_threads/wasi_threads.c
index 5c86048..d7e6181 100644
--- a/libwasi_threads/wasi_threads.c
+++ b/libwasi_threads/wasi_threads.c
@@ -519,15 +519,18 @@ wasi_thread_spawn_common(struct exec_context *ctx,
 #else
         pthread_t t;
         ret = pthread_create(&t, NULL, runner, arg);
+#endif
         if (ret != 0) {
                 toywasm_mutex_lock(&wasi->cluster.lock);
                 idalloc_free(&wasi->tids, tid, wasi->mctx);
                 cluster_remove_thread(&wasi->cluster);
                 toywasm_mutex_unlock(&wasi->cluster.lock);
-                xlog_trace("%s: pthread_create failed with %d", __func__, ret);
+                xlog_trace("%s: thread creation failed with %d", __func__,
+                           ret);
                 goto fail;
         }
 
+#if !defined(TOYWASM_USE_USER_SCHED)
         ret = pthread_detach(t);
         if (ret != 0) {
                 /* log and ignore */
-- 
2.43.0


From 98c3203cd5c3aa1d42c825e938d4ed12553bb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:52:12 +0000
Subject: [PATCH 56/56] fix: report a failure to start a thread with the user
 scheduler

exec_done uses exec_ret, which was not set when the start function failed
before it was scheduled.
---
 libwasi_threads/wasi_threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libwasi_threads/wasi_threads.c b/libwasi_threads/wasi_threads.c
index d7e6181..e806ed5 100644
--- a/libwasi_threads/wasi_threads.c
+++ b/libwasi_threads/wasi_threads.c
@@ -387,6 +387,7 @@ user_runner_exec_start(struct thread_arg *arg)
                 struct sched *sched = wasi_threads_sched(arg->wasi);
                 sched_enqueue(sched, ctx);
         } else {
+                ctx->exec_ret = ret;
                 ctx->exec_done(ctx);
         }
         ret = 0;
-- 
2.43.0

