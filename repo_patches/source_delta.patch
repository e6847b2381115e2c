From 7dd1efeafb960c45de93624319d5fa6ae867deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 01/82] fix: tm: Copy from load region to store region in
 loadstore_tx()

The function copied the store buffer over the load buffer, and assumed
that both regions have the same alignment within their blocks.
---
 modules/tm/src/vmem_tx.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 0575110..6a602f1 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -323,13 +323,17 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
         size_t spage_tail = TM_BLOCK_SIZE - spage_head;
         size_t spage_diff = siz < spage_tail ? siz : spage_tail;
 
-        uint8_t* lmem = tm_page_buffer(lpage);
+        /* The blocks of both regions can have different alignment, so
+         * we only copy what is available in the current pages. */
+        size_t page_diff = lpage_diff < spage_diff ? lpage_diff : spage_diff;
+
+        const uint8_t* lmem = tm_page_buffer(lpage);
         uint8_t* smem = tm_page_buffer(spage);
-        memcpy(lmem + lpage_head, smem + spage_head, lpage_diff);
+        memmove(smem + spage_head, lmem + lpage_head, page_diff);
 
-        laddr += lpage_diff;
-        saddr += spage_diff;
-        siz   -= lpage_diff;
+        laddr += page_diff;
+        saddr += page_diff;
+        siz   -= page_diff;
     }
 }
 
-- 
2.43.0


From 6451439d9c1c657b8895997fafb80aa0bbe58dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 02/82] fix: tm: Preserve buffered stores when privatizing
 memory

If a block already contained buffered stores, privatizing it switched to
write-through mode without exchanging buffer and memory. The stores were
lost on commit and leaked into memory on roll-back. Privatization up to a
character additionally searched outside of the requested region and
ignored values that the transaction itself had stored.
---
 modules/tm/src/page.c    |  24 +++++----
 modules/tm/src/vmem_tx.c | 103 ++++++++++++++++++++++-----------------
 2 files changed, 71 insertions(+), 56 deletions(-)

diff --git a/modules/tm/src/page.c b/modules/tm/src/page.c
index 2841bd8..e02aecb 100644
--- a/modules/tm/src/page.c
+++ b/modules/tm/src/page.c
@@ -109,27 +109,31 @@ tm_page_ld_c(struct tm_page* page, unsigned long bits, int c, struct tm_vmem* vm
         return false;
     }
 
-          uint8_t* buf_beg = picotm_arraybeg(page->buf);
+          uint8_t* buf = picotm_arraybeg(page->buf);
     const uint8_t* buf_end = picotm_arrayend(page->buf);
-          uint8_t* buf;
     const uint8_t* mem = tm_frame_buffer(frame);
     unsigned long bit = 1ul;
 
-    for (buf = buf_beg; buf < buf_end; ++buf, ++mem, bit <<= 1) {
-        if ((bits & bit) && !(page->buf_bits & bit)) {
+    bool found_c = false;
+
+    for (; (buf < buf_end) && !found_c; ++buf, ++mem, bit <<= 1) {
+        if (!(bits & bit)) {
+            continue;
+        }
+        if (!(page->buf_bits & bit)) {
             *buf = *mem;
             page->buf_bits |= bit;
         }
-        if (page->buf_bits & bit) {
-            if (*mem == c) {
-                break;
-            }
-        }
+        /* In write-through mode, the transaction's current data is in
+         * memory and the buffer only contains the original data. */
+        const uint8_t* pos = (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) ? mem
+                                                                        : buf;
+        found_c = (*pos == (uint8_t)c);
     }
 
     tm_vmem_release_frame(vmem, frame);
 
-    return buf != buf_end;
+    return found_c;
 }
 
 void
diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index 6a602f1..ce2198b 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -337,6 +337,27 @@ tm_vmem_tx_ldst(struct tm_vmem_tx* vmem_tx, uintptr_t laddr, uintptr_t saddr,
     }
 }
 
+/* Privatized pages use write-through semantics, so that all stores are
+ * immediately visible in the region's memory. When we switch to write-through
+ * mode, any data in the page's buffer that has already been stored by the
+ * transaction has to be exchanged with the original data in memory.
+ */
+static void
+make_page_write_through(struct tm_page* page, struct tm_vmem* vmem,
+                        struct picotm_error* error)
+{
+    if (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) {
+        return;
+    }
+    if (tm_page_has_wrlocked_frame(page)) {
+        tm_page_xchg(page, copy_all_bits(), vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
+    }
+    page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+}
+
 static void
 prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                        struct tm_vmem* vmem,
@@ -363,7 +384,10 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -381,7 +405,10 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        }
 
     } else if (!flags) {
 
@@ -396,21 +423,15 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
         }
         page->flags |= TM_PAGE_FLAG_DISCARDED;
 
-    } else if (!(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
+    } else {
 
         /* Page holds correct lock, but requires write-through
-         * mode. Privatized pages use write-through semantics,
-         * so that all stores are immediately visible in the
-         * region's memory.
-         */
+         * mode. */
 
-        if (tm_page_has_wrlocked_frame(page)) {
-            tm_page_xchg(page, copy_bits(addr, siz), vmem, error);
-            if (picotm_error_is_set(error)) {
-                return;
-            }
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
     }
 }
 
@@ -464,7 +485,10 @@ prepare_page_privatize_c(struct tm_page* page,
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
 
     } else if (flags & PICOTM_TM_PRIVATIZE_LOAD) {
 
@@ -481,7 +505,10 @@ prepare_page_privatize_c(struct tm_page* page,
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
 
     } else if (!flags) {
 
@@ -495,43 +522,27 @@ prepare_page_privatize_c(struct tm_page* page,
             }
         }
 
-        uintptr_t page_addr = tm_page_address(page);
-        size_t page_head = addr - page_addr;
-        const uint8_t* mem = tm_page_buffer(page);
-        found_c = !!memchr(mem + page_head, c, page_diff);
-
+        found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
+                               error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
         page->flags |= TM_PAGE_FLAG_DISCARDED;
 
-    } else if (!(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
+    } else {
 
         /* Page holds correct lock, but requires write-through
-         * mode. Privatized pages use write-through semantics,
-         * so that all stores are immediately visible in the
-         * region's memory.
-         */
+         * mode. */
 
-        if (tm_page_has_wrlocked_frame(page)) {
-            found_c = tm_page_xchg_c(page, copy_bits(addr, page_diff), c, vmem, error);
-            if (picotm_error_is_set(error)) {
-                return false;
-            }
-        } else {
-            uintptr_t page_addr = tm_page_address(page);
-            size_t page_head = addr - page_addr;
-            const uint8_t* mem = tm_page_buffer(page);
-            found_c = !!memchr(mem + page_head, c, page_diff);
+        found_c = tm_page_ld_c(page, copy_bits(addr, page_diff), c, vmem,
+                               error);
+        if (picotm_error_is_set(error)) {
+            return false;
+        }
+        make_page_write_through(page, vmem, error);
+        if (picotm_error_is_set(error)) {
+            return false;
         }
-        page->flags |= TM_PAGE_FLAG_WRITE_THROUGH;
-    } else {
-
-        /* The page is already set up correctly. We only have to
-         * check for the character 'c'.
-         */
-
-        uintptr_t page_addr = tm_page_address(page);
-        size_t page_head = addr - page_addr;
-        const uint8_t* mem = tm_page_buffer(page);
-        found_c = !!memchr(mem + page_head, c, page_diff);
     }
 
     return found_c;
-- 
2.43.0


From d43be578ae854b6979d3dba4f96c0883939dda50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 03/82] fix: tm: Restore discarded blocks with write-through
 data during roll-back

Data that has been written to privatized memory has to be reverted, even
if the transaction discarded the memory afterwards.
---
 modules/tm/src/vmem_tx.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index ce2198b..ea086a2 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -609,8 +609,7 @@ undo_page(struct tm_page* page, struct tm_vmem* vmem,
           struct picotm_error* error)
 {
     if (tm_page_has_wrlocked_frame(page) &&
-        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
-        !(page->flags & TM_PAGE_FLAG_DISCARDED)) {
+        (page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
         tm_page_st(page, copy_all_bits(), vmem, error);
         if (picotm_error_is_set(error)) {
             return 0;
-- 
2.43.0


From d26668d997136f26311d1ae9286e969fa143b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 04/82] fix: Make picotm_restart() work if the transaction
 could not be set up

If the initialization of the thread's transaction state fails, the recovery
phase can call picotm_restart(). The jump buffer was part of the state that
has never been set up.
---
 src/picotm.c    | 53 +++++++++++++++++++++++++++++++++----------------
 src/picotm_tx.c |  5 +----
 src/picotm_tx.h |  4 +---
 3 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/picotm.c b/src/picotm.c
index 0138805..f538f69 100644
--- a/src/picotm.c
+++ b/src/picotm.c
@@ -175,6 +175,22 @@ get_non_null_error(void)
     return &error;
 }
 
+/*
+ * Thread-local jump buffer
+ */
+
+/* The jump buffer is independent from the transaction's state, so that
+ * a transaction can be restarted even if there has been an error while
+ * setting up its state. */
+static __picotm_jmp_buf**
+get_env(void)
+{
+    /** Restart environment of the thread's most recent transaction */
+    static __thread __picotm_jmp_buf* env = NULL;
+
+    return &env;
+}
+
 /*
  * Lock-owner look-up functions
  */
@@ -213,6 +229,8 @@ __picotm_begin(enum __picotm_mode mode, __picotm_jmp_buf* env)
         TX_MODE_REVOCABLE
     };
 
+    *get_env() = env;
+
     switch (mode) {
     case PICOTM_MODE_RECOVERY: {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
@@ -258,7 +276,7 @@ __picotm_begin(enum __picotm_mode mode, __picotm_jmp_buf* env)
                 return false; /* Enter recovery mode. */
             }
 
-            picotm_tx_begin(tx, tx_mode[mode], mode != PICOTM_MODE_START, env, error);
+            picotm_tx_begin(tx, tx_mode[mode], mode != PICOTM_MODE_START, error);
             if (picotm_error_is_set(error)) {
                 return false; /* Enter recovery mode. */
             }
@@ -268,33 +286,34 @@ __picotm_begin(enum __picotm_mode mode, __picotm_jmp_buf* env)
 }
 
 static void
-restart_tx(struct picotm_tx* tx, enum __picotm_mode mode)
+restart_tx(enum __picotm_mode mode)
 {
-    assert(tx);
+    __picotm_jmp_buf* env = *get_env();
+    assert(env);
 
     /* Restarting the transaction here transfers control
      * to __picotm_begin(). */
-    __picotm_longjmp(*(tx->env), (int)mode);
+    __picotm_longjmp(*env, (int)mode);
 }
 
 static void
-restart_tx_from_error(struct picotm_tx* tx, const struct picotm_error* error)
+restart_tx_from_error(const struct picotm_error* error)
 {
     assert(error);
     assert(picotm_error_is_set(error));
 
     switch (error->status) {
     case PICOTM_CONFLICTING:
-        restart_tx(tx, PICOTM_MODE_RETRY);
+        restart_tx(PICOTM_MODE_RETRY);
         break;
     case PICOTM_REVOCABLE:
-        restart_tx(tx, PICOTM_MODE_IRREVOCABLE);
+        restart_tx(PICOTM_MODE_IRREVOCABLE);
         break;
     case PICOTM_ERROR_CODE:     /* fall through */
     case PICOTM_ERRNO:          /* fall through */
     case PICOTM_KERN_RETURN_T:  /* fall through */
     case PICOTM_SIGINFO_T:
-        restart_tx(tx, PICOTM_MODE_RECOVERY);
+        restart_tx(PICOTM_MODE_RECOVERY);
         break;
     }
 }
@@ -308,7 +327,7 @@ __picotm_commit()
     struct picotm_error* error = get_non_null_error();
     picotm_tx_commit(tx, error);
     if (picotm_error_is_set(error)) {
-        restart_tx_from_error(tx, error);
+        restart_tx_from_error(error);
     }
 }
 
@@ -316,14 +335,14 @@ PICOTM_EXPORT
 void
 picotm_restart()
 {
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RESTART);
+    restart_tx(PICOTM_MODE_RESTART);
 }
 
 PICOTM_EXPORT
 void
 picotm_irrevocable()
 {
-    restart_tx(get_non_null_tx(), PICOTM_MODE_IRREVOCABLE);
+    restart_tx(PICOTM_MODE_IRREVOCABLE);
 }
 
 PICOTM_EXPORT
@@ -427,7 +446,7 @@ picotm_resolve_conflict(struct picotm_rwlock* conflicting_lock)
 {
     picotm_error_set_conflicting(get_non_null_error(), conflicting_lock);
 
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RETRY);
+    restart_tx(PICOTM_MODE_RETRY);
 }
 
 PICOTM_EXPORT
@@ -437,7 +456,7 @@ picotm_recover_from_error_code(enum picotm_error_code error_hint)
     picotm_error_set_error_code(get_non_null_error(), error_hint);
 
     /* Nothing we can do on errors; let's try to recover. */
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RECOVERY);
+    restart_tx(PICOTM_MODE_RECOVERY);
 }
 
 PICOTM_EXPORT
@@ -447,7 +466,7 @@ picotm_recover_from_errno(int errno_hint)
     picotm_error_set_errno(get_non_null_error(), errno_hint);
 
     /* Nothing we can do on errors; let's try to recover. */
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RECOVERY);
+    restart_tx(PICOTM_MODE_RECOVERY);
 }
 
 #if defined(PICOTM_HAVE_TYPE_KERN_RETURN_T) && PICOTM_HAVE_TYPE_KERN_RETURN_T
@@ -458,7 +477,7 @@ picotm_recover_from_kern_return_t(kern_return_t value)
     picotm_error_set_kern_return_t(get_non_null_error(), value);
 
     /* Nothing we can do on errors; let's try to recover. */
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RECOVERY);
+    restart_tx(PICOTM_MODE_RECOVERY);
 }
 #endif
 
@@ -470,7 +489,7 @@ picotm_recover_from_siginfo_t(const siginfo_t* info)
     picotm_error_set_siginfo_t(get_non_null_error(), info);
 
     /* Nothing we can do on errors; let's try to recover. */
-    restart_tx(get_non_null_tx(), PICOTM_MODE_RECOVERY);
+    restart_tx(PICOTM_MODE_RECOVERY);
 }
 #endif
 
@@ -482,5 +501,5 @@ picotm_recover_from_error(const struct picotm_error* error)
 
     memcpy(get_non_null_error(), error, sizeof(*error));
 
-    restart_tx_from_error(get_non_null_tx(), error);
+    restart_tx_from_error(error);
 }
diff --git a/src/picotm_tx.c b/src/picotm_tx.c
index 479202c..8a2ee73 100644
--- a/src/picotm_tx.c
+++ b/src/picotm_tx.c
@@ -44,7 +44,6 @@ picotm_tx_init(struct picotm_tx* self, struct picotm_lock_manager* lm,
 
     picotm_log_init(&self->log);
 
-    self->env = NULL;
     self->mode = TX_MODE_REVOCABLE;
     self->nretries = 0;
     self->nmodules = 0;
@@ -179,8 +178,7 @@ log_is_empty(struct picotm_tx* self)
 
 void
 picotm_tx_begin(struct picotm_tx* self, enum picotm_tx_mode mode,
-                bool is_retry, __picotm_jmp_buf* env,
-                struct picotm_error* error)
+                bool is_retry, struct picotm_error* error)
 {
     assert(self);
     assert(log_is_empty(self));
@@ -218,7 +216,6 @@ picotm_tx_begin(struct picotm_tx* self, enum picotm_tx_mode mode,
 
     self->nretries = nretries;
     self->mode = mode;
-    self->env = env;
 
     size_t nbegin = begin_modules(self->module, self->nmodules, error);
     if (picotm_error_is_set(error)) {
diff --git a/src/picotm_tx.h b/src/picotm_tx.h
index 0e92c66..9236100 100644
--- a/src/picotm_tx.h
+++ b/src/picotm_tx.h
@@ -44,7 +44,6 @@ enum picotm_tx_mode {
 };
 
 struct picotm_tx {
-    __picotm_jmp_buf*   env;
     struct picotm_log   log;
     enum picotm_tx_mode mode;
     unsigned long       nretries;
@@ -81,8 +80,7 @@ picotm_tx_append_event(struct picotm_tx* self, unsigned long module,
 
 void
 picotm_tx_begin(struct picotm_tx* self, enum picotm_tx_mode mode,
-                bool is_retry, __picotm_jmp_buf* env,
-                struct picotm_error* error);
+                bool is_retry, struct picotm_error* error);
 
 void
 picotm_tx_commit(struct picotm_tx* self, struct picotm_error* error);
-- 
2.43.0


From 3cf7586f2b04a4c5f0e5283923fbaffac83e2b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 05/82] fix: Run all retries beyond the limit in irrevocable
 mode

A transaction that left irrevocable mode with an error and got restarted by
its recovery phase was never again promoted to irrevocable mode, no matter
how often it conflicted.
---
 src/picotm_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picotm_tx.c b/src/picotm_tx.c
index 8a2ee73..f710d68 100644
--- a/src/picotm_tx.c
+++ b/src/picotm_tx.c
@@ -185,7 +185,7 @@ picotm_tx_begin(struct picotm_tx* self, enum picotm_tx_mode mode,
 
     unsigned long nretries = is_retry ? self->nretries + 1 : 0;
 
-    if (nretries == TX_NRETRIES_LIMIT) {
+    if (nretries >= TX_NRETRIES_LIMIT) {
         mode = TX_MODE_IRREVOCABLE;
     }
 
-- 
2.43.0


From ee812fff6880945db0c64f362146e5b1dd6f72be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 06/82] fix: Report errors as non-recoverable if roll-back
 fails during recovery

---
 src/picotm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/picotm.c b/src/picotm.c
index f538f69..05648c2 100644
--- a/src/picotm.c
+++ b/src/picotm.c
@@ -240,6 +240,11 @@ __picotm_begin(enum __picotm_mode mode, __picotm_jmp_buf* env)
         }
         if (!picotm_error_is_non_recoverable()) {
             picotm_tx_rollback(tx, &error);
+            if (picotm_error_is_set(&error)) {
+                /* We keep the original error, but there's no consistent
+                 * state to continue from. */
+                picotm_error_mark_as_non_recoverable(get_non_null_error());
+            }
         }
         /* We're recovering from an error. Returning 'false'
          * will invoke the transaction's recovery code. */
-- 
2.43.0


From 24fa82562af3e5c33fe33bd60a15de283729f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 07/82] fix: Make waiter index of R/W locks large enough for
 all lock owners

---
 include/picotm/picotm-lib-rwlock.h |  2 +-
 src/picotm-lib-rwlock.c            | 47 +++++++++++++++---------------
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/include/picotm/picotm-lib-rwlock.h b/include/picotm/picotm-lib-rwlock.h
index 244108f..1a4d8e5 100644
--- a/include/picotm/picotm-lib-rwlock.h
+++ b/include/picotm/picotm-lib-rwlock.h
@@ -99,7 +99,7 @@ struct picotm_error;
  */
 struct picotm_rwlock {
     /** counter variable */
-    atomic_uint_least8_t  n;
+    atomic_uint_least16_t  n;
 };
 
 /**
diff --git a/src/picotm-lib-rwlock.c b/src/picotm-lib-rwlock.c
index 75be7b1..49ede23 100644
--- a/src/picotm-lib-rwlock.c
+++ b/src/picotm-lib-rwlock.c
@@ -35,11 +35,12 @@ enum {
     COUNTER_BIT_MASK = (1ul << INDEX_BIT_SHIFT) - 1
 };
 
-/** \brief Bitmask of the waiter index in 'struct picotm_rwlock::n' */
-static const uint8_t INDEX_BIT_MASK = ~COUNTER_BIT_MASK;
+/** \brief Bitmask of the waiter index in 'struct picotm_rwlock::n'. The index
+ * has to hold the index of any registered lock owner. */
+static const uint16_t INDEX_BIT_MASK = ~COUNTER_BIT_MASK;
 
 /** \brief Writer is present if this counter value is set. */
-static const uint8_t WRITER_COUNTER = COUNTER_BIT_MASK;
+static const uint16_t WRITER_COUNTER = COUNTER_BIT_MASK;
 
 PICOTM_EXPORT
 void
@@ -82,7 +83,7 @@ static const struct picotm_lock_slist_funcs s_picotm_rwlock_slist_funcs = {
     cmpxchg_first_index
 };
 
-static uint8_t
+static uint16_t
 rw_counter_bits(unsigned long value)
 {
     assert((value & COUNTER_BIT_MASK) == value);
@@ -91,19 +92,19 @@ rw_counter_bits(unsigned long value)
 }
 
 static unsigned long
-rw_counter(uint8_t n)
+rw_counter(uint16_t n)
 {
     return n & COUNTER_BIT_MASK;
 }
 
-static uint8_t
+static uint16_t
 rw_index_bits(unsigned long value)
 {
     return (value << INDEX_BIT_SHIFT) & INDEX_BIT_MASK;
 }
 
-static uint8_t
-rw_index(uint8_t n)
+static uint16_t
+rw_index(uint16_t n)
 {
     return (n & INDEX_BIT_MASK) >> INDEX_BIT_SHIFT;
 }
@@ -170,7 +171,7 @@ try_lock_or_wait(struct picotm_rwlock* self,
 static bool
 try_rdlock(struct picotm_rwlock* self)
 {
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
         if (rw_counter(n) == WRITER_COUNTER) {
@@ -184,8 +185,8 @@ try_rdlock(struct picotm_rwlock* self)
             return false;
         }
 
-        uint8_t expected = rw_counter_bits(rw_counter(n));
-        uint8_t desired  = rw_counter_bits(rw_counter(n) + 1);
+        uint16_t expected = rw_counter_bits(rw_counter(n));
+        uint16_t desired  = rw_counter_bits(rw_counter(n) + 1);
 
         bool succ = atomic_compare_exchange_strong_explicit(&self->n,
                                                             &expected, desired,
@@ -213,7 +214,7 @@ try_wrlock(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
 
@@ -226,8 +227,8 @@ try_wrlock(struct picotm_rwlock* self)
         }
 
         /* Expect us to be the only transaction. */
-        uint8_t expected = rw_counter_bits(0);
-        uint8_t desired  = rw_counter_bits(WRITER_COUNTER);
+        uint16_t expected = rw_counter_bits(0);
+        uint16_t desired  = rw_counter_bits(WRITER_COUNTER);
 
         bool succ = atomic_compare_exchange_strong_explicit(&self->n,
                                                             &expected, desired,
@@ -247,7 +248,7 @@ try_uplock(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
 
@@ -262,10 +263,10 @@ try_uplock(struct picotm_rwlock* self)
          * transactions can be ignored as we already hold the lock in
          * reader mode. */
 
-        uint8_t expected = rw_index_bits(rw_index(n)) |
+        uint16_t expected = rw_index_bits(rw_index(n)) |
                            rw_counter_bits(1);
 
-        uint8_t desired = rw_index_bits(rw_index(n)) |
+        uint16_t desired = rw_index_bits(rw_index(n)) |
                           rw_counter_bits(WRITER_COUNTER);
 
         bool succ =
@@ -307,7 +308,7 @@ picotm_rwlock_unlock(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     assert(rw_counter(n) != 0);
 
@@ -375,7 +376,7 @@ picotm_rwlock_get_index(struct picotm_rwlock* self)
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     return rw_index(n);
 }
@@ -387,22 +388,22 @@ picotm_rwlock_cmpxchg_index(struct picotm_rwlock* self,
 {
     assert(self);
 
-    uint8_t n = atomic_load_explicit(&self->n, memory_order_acquire);
+    uint16_t n = atomic_load_explicit(&self->n, memory_order_acquire);
 
     do {
         /* Test and ... */
 
-        uint8_t current_index = rw_index(n);
+        uint16_t current_index = rw_index(n);
         if (current_index != expected_index) {
             return current_index;
         }
 
         /* ... Test-And-Set. */
 
-        uint8_t expected = rw_counter_bits(rw_counter(n)) |
+        uint16_t expected = rw_counter_bits(rw_counter(n)) |
                            rw_index_bits(expected_index);
 
-        uint8_t desired = rw_counter_bits(rw_counter(n)) |
+        uint16_t desired = rw_counter_bits(rw_counter(n)) |
                           rw_index_bits(desired_index);
 
         bool succ =
-- 
2.43.0


From 568f78480e665f52c596c8f899e665c3d43e4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:02 +0000
Subject: [PATCH 08/82] fix: txlib: Revert executed operation if its event
 cannot be logged

---
 modules/txlib/src/txlib_tx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/txlib/src/txlib_tx.c b/modules/txlib/src/txlib_tx.c
index d8c5e89..3890067 100644
--- a/modules/txlib/src/txlib_tx.c
+++ b/modules/txlib/src/txlib_tx.c
@@ -301,6 +301,11 @@ txlib_tx_append_events3(struct txlib_tx* self, size_t nevents,
 
         picotm_append_event(self->module, 0, beg - self->event, error);
         if (picotm_error_is_set(error)) {
+            /* The operation has already been executed, but it's not
+             * part of the transaction's log; so we have to revert it
+             * by ourselves. */
+            struct picotm_error undo_error = PICOTM_ERROR_INITIALIZER;
+            txlib_event_undo(beg, &undo_error);
             return;
         }
     }
-- 
2.43.0


From 7648f1fa935a1fb8aa5a45997ed587d66fe875f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 09/82] fix: txlib: Move left sub-tree when inserting duplicate
 into multiset

---
 modules/txlib/src/txmultiset_entry.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/txlib/src/txmultiset_entry.c b/modules/txlib/src/txmultiset_entry.c
index f23cdcf..28815b7 100644
--- a/modules/txlib/src/txmultiset_entry.c
+++ b/modules/txlib/src/txmultiset_entry.c
@@ -212,7 +212,12 @@ insert_at(struct txmultiset_entry* entry, struct txmultiset_entry* position)
         position->internal.parent->internal.ge = entry;
     }
 
+    position->internal.lt = NULL;
     position->internal.parent = entry;
+
+    if (entry->internal.lt) {
+        entry->internal.lt->internal.parent = entry;
+    }
 }
 
 void
-- 
2.43.0


From 581bbb23cf2e97d9f044a23349032e2c1919c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 10/82] fix: txlib: Return documented entries from multiset's
 lower and upper bound

---
 modules/txlib/src/txmultiset_state.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/modules/txlib/src/txmultiset_state.c b/modules/txlib/src/txmultiset_state.c
index e732820..688de2c 100644
--- a/modules/txlib/src/txmultiset_state.c
+++ b/modules/txlib/src/txmultiset_state.c
@@ -163,7 +163,7 @@ txmultiset_state_lower_bound(struct txmultiset_state* self, const void* key)
 
         int cmp = self->internal.compare(key, self->internal.key(pos));
         if (cmp) {
-            return pos;
+            return entry;
         }
 
         entry = pos;
@@ -196,11 +196,9 @@ txmultiset_state_upper_bound(struct txmultiset_state* self, const void* key)
         if (cmp) {
             return pos;
         }
-
-        entry = pos;
     }
 
-    return entry;
+    return end;
 }
 
 size_t
-- 
2.43.0


From 7c583d7075e3c13fbf5510aaa2a425310df5d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 11/82] fix: round large allocation sizes without truncation

rnd2wb() masked with an unsigned int, which cleared the upper half of
sizes from 4 GiB on, and it wrapped around for sizes close to SIZE_MAX.
The allocator functions then returned a block that was shorter than
requested instead of reporting an error.
---
 modules/libc/src/allocator/allocator_tx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/allocator/allocator_tx.c b/modules/libc/src/allocator/allocator_tx.c
index fc9c5c8..847fd52 100644
--- a/modules/libc/src/allocator/allocator_tx.c
+++ b/modules/libc/src/allocator/allocator_tx.c
@@ -22,6 +22,7 @@
 #include "picotm/picotm-error.h"
 #include <assert.h>
 #include <errno.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include "allocator_log.h"
 
@@ -31,7 +32,11 @@
 static size_t
 rnd2wb(size_t size)
 {
-    const unsigned int mask = sizeof(void*) - 1;
+    const size_t mask = sizeof(void*) - 1;
+
+    if (size > SIZE_MAX - mask) {
+        return size; /* rounding up overflows; let the allocator fail */
+    }
 
     return (size + mask) & ~mask;
 }
-- 
2.43.0


From d5060a40249287201fb183f8fc6e99f341a82aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 12/82] fix: privatize the result of posix_memalign_tx() at its
 own address

The function privatized the memory that the result's old value points
to, instead of the memory location that holds the result.
---
 modules/libc/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 18949e6..018a3f5 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -166,7 +166,7 @@ PICOTM_EXPORT
 int
 posix_memalign_tx(void** memptr, size_t alignment, size_t size)
 {
-    privatize_tx(*memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
+    privatize_tx(memptr, sizeof(*memptr), PICOTM_TM_PRIVATIZE_STORE);
     return posix_memalign_tm(memptr, alignment, size);
 }
 #endif
-- 
2.43.0


From 9222a3a589b84b4f414ef44ce7be9cf4fde627e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 13/82] fix: detect overflow of the allocation size in
 calloc_tx()

---
 modules/libc/src/stdlib.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 018a3f5..34f0975 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -30,6 +30,7 @@
 #elif defined (HAVE_MALLOC_H) && HAVE_MALLOC_H
 #include <malloc.h>
 #endif
+#include <stdint.h>
 #include <string.h>
 #include "allocator/module.h"
 #include "compat/malloc_usable_size.h"
@@ -70,6 +71,10 @@ calloc_tx(size_t nmemb, size_t size)
         picotm_recover_from_error(&error);
     } while (true);
 
+    while (size && (nmemb > SIZE_MAX / size)) {
+        picotm_recover_from_errno(ENOMEM);
+    }
+
     size_t alloc_size = nmemb * size;
 
     do {
-- 
2.43.0


From 57da6a9976aed2e15e4d69030a0427696f9866fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 14/82] fix: keep the transaction's own stores in realloc_tx()

realloc_tx() discarded the transaction's view of the memory region before
it copied the content, so buffered stores were missing from the new
region.
---
 modules/libc/src/stdlib.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/stdlib.c b/modules/libc/src/stdlib.c
index 34f0975..b1d21ea 100644
--- a/modules/libc/src/stdlib.c
+++ b/modules/libc/src/stdlib.c
@@ -204,7 +204,9 @@ realloc_tx(void* ptr, size_t size)
 {
     size_t usiz = malloc_usable_size(ptr);
     if (usiz) {
-        privatize_tx(ptr, usiz, 0); /* discard memory region */
+        /* The content is copied below, including the transaction's
+         * own stores. */
+        privatize_tx(ptr, usiz, PICOTM_TM_PRIVATIZE_LOAD);
     }
 
     do {
@@ -241,6 +243,9 @@ realloc_tx(void* ptr, size_t size)
     }
 
     if (ptr) {
+        if (usiz) {
+            privatize_tx(ptr, usiz, 0); /* discard memory region */
+        }
         do {
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
             allocator_module_free(ptr, usiz, &error);
-- 
2.43.0


From e6f853f85aba779d8a2a1465ec9754efc0edf9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 15/82] fix: stop memccpy_tx() after the character

memccpy_tx() did not copy the character itself, continued to copy after
it had been found, looped forever if it came first, and did not convert
it to unsigned char before comparing.
---
 modules/libc/src/string.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 54a854a..254fbef 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -49,13 +49,18 @@ memccpy_tx(void* restrict dest, const void* restrict src, int c, size_t n)
         load_tx(src8, buf, siz);
 
         for (size_t i = 0; i < siz; ++i) {
-            if (buf[i] == c) {
+            if (buf[i] == (uint8_t)c) {
                 dest = dest8 + i + 1; /* Return the location after 'c' */
-                siz = i; /* Stop looping */
+                siz = i + 1; /* Copy up to and including 'c' */
+                break;
             }
         }
 
         store_tx(dest8, buf, siz);
+
+        if (dest) {
+            break;
+        }
         dest8 += siz;
         src8 += siz;
         n -= siz;
-- 
2.43.0


From adecc7f0055c916a5acb251f53783b5ae50f2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 16/82] fix: copy overlapping regions backwards in memmove_tx()

If the destination starts within the source, copying the first chunk
overwrites the beginning of the following ones.
---
 modules/libc/src/string.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 254fbef..2b783d5 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -25,6 +25,7 @@
 #include "picotm/string-tm.h"
 #include <errno.h>
 #include <stdbool.h>
+#include <stdint.h>
 
 /*
  * Memory functions
@@ -109,6 +110,20 @@ memmove_tx(void* dest, const void* src, size_t n)
     uint8_t* dest8 = dest;
     const uint8_t* src8 = src;
 
+    if ((uintptr_t)dest8 - (uintptr_t)src8 < n) {
+        /* The destination begins within the source; copy backwards. */
+        while (n) {
+
+            uint8_t buf[32];
+
+            size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
+            n -= siz;
+
+            load_tx(src8 + n, buf, siz);
+            store_tx(dest8 + n, buf, siz);
+        }
+    }
+
     while (n) {
 
         uint8_t buf[32];
-- 
2.43.0


From e42e7a05e93a4132c182e8f6d7085a88ca864644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 17/82] fix: terminate and return the end of the string in
 stpcpy_tx()

---
 modules/libc/src/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 2b783d5..a25395a 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -192,8 +192,9 @@ char*
 stpcpy_tx(char* restrict dest, const char* restrict src)
 {
     privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    store_tx(dest, src, strlen(src));
-    return dest;
+    size_t len = strlen(src);
+    store_tx(dest, src, len + 1);
+    return dest + len;
 }
 #endif
 
-- 
2.43.0


From 3adf08244784b9d1f8172f0cc79a3e10186472b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 18/82] fix: return the end of the string in stpncpy_tx()

---
 modules/libc/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index a25395a..0f16f28 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -211,7 +211,7 @@ stpncpy_tx(char* restrict dest, const char* restrict src, size_t n)
     } else {
         store_tx(dest, src, n);
     }
-    return dest;
+    return dest + (len - 1 < n ? len - 1 : n);
 }
 #endif
 
-- 
2.43.0


From 0ae329d21dcbdbb7e2122be950e460843472bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 19/82] fix: fill the rest of the destination with zeros in
 strncpy_tx()

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 0f16f28..97fb052 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -359,6 +359,7 @@ strncpy_tx(char* restrict dest, const char* restrict src, size_t n)
     size_t len = strlen(src) + 1;
     if (len < n) {
         store_tx(dest, src, len);
+        memset_tx(dest + len, 0, n - len);
     } else {
         store_tx(dest, src, n);
     }
-- 
2.43.0


From b796ce4ded73c6a22ecbf60255c1bc2709a93512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 20/82] fix: stop at the end of the string in strchr_tx()

strchr_tx() privatized memory up to the next occurrence of the character,
which is beyond the end of the string if the string does not contain it.
---
 modules/libc/src/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 97fb052..dfde99f 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -234,7 +234,7 @@ PICOTM_EXPORT
 char*
 strchr_tx(const char* s, int c)
 {
-    privatize_c_tx(s, c, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strchr_tm(s, c);
 }
 #endif
-- 
2.43.0


From 973c690804c4e468d2e4f1f043071ccc9b0e6c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 21/82] fix: privatize both arguments of strcspn_tx()

---
 modules/libc/src/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index dfde99f..63790d7 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -278,6 +278,7 @@ size_t
 strcspn_tx(const char* s, const char* reject)
 {
     privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_c_tx(reject, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     return strcspn(s, reject);
 }
 #endif
-- 
2.43.0


From b55f469fb4f99c7e0d6a3fc446b0016a952fd9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 22/82] fix: terminate the result of strndup_tx()

If the string is longer than the limit, the terminating character was
written behind the allocated memory instead of the end of the string.
---
 modules/libc/src/string-tm.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/modules/libc/src/string-tm.c b/modules/libc/src/string-tm.c
index b93d483..7a2bc3e 100644
--- a/modules/libc/src/string-tm.c
+++ b/modules/libc/src/string-tm.c
@@ -357,16 +357,14 @@ strndup_tm(const char* s, size_t n)
         picotm_recover_from_error(&error);
     } while (true);
 
-    size_t len = strlen(s) + sizeof(*s);
-    if (n < len) {
-        len = n + sizeof(*s);
-    }
+    size_t len = strnlen(s, n);
 
     void* mem;
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-        allocator_module_posix_memalign(&mem, 2 * sizeof(void*), len, &error);
+        allocator_module_posix_memalign(&mem, 2 * sizeof(void*), len + 1,
+                                        &error);
         if (!picotm_error_is_set(&error)) {
             break;
         }
@@ -374,9 +372,7 @@ strndup_tm(const char* s, size_t n)
     } while (true);
 
     char* s2 = memcpy(mem, s, len);
-    if (n < len) {
-        s2[n + 1] = '\0';
-    }
+    s2[len] = '\0';
     return s2;
 }
 #endif
-- 
2.43.0


From b1c655de0e1bb22ef474b24b96c4de59160528de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:19 +0000
Subject: [PATCH 23/82] fix: continue at the saved position in strtok_r_tx()

strtok_r_tx() stored the address of a local variable as the position,
privatized the NULL string of follow-up calls, and wrote to the string
although it had been privatized for loading only.
---
 modules/libc/src/string.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index 63790d7..f7e8458 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -437,12 +437,14 @@ char*
 strtok_r_tx(char* restrict str, const char* restrict delim,
             char** restrict saveptr)
 {
-    privatize_c_tx(str, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     privatize_c_tx(delim, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
-    char* ptr = load_ptr_tx(saveptr);
+    /* A NULL string continues at the saved position. */
+    char* ptr = str ? str : load_ptr_tx(saveptr);
+    privatize_c_tx(ptr, '\0', PICOTM_TM_PRIVATIZE_LOADSTORE);
+
     char* tok = strtok_r(str, delim, &ptr);
-    store_ptr_tx(saveptr, &ptr);
+    store_ptr_tx(saveptr, ptr);
 
     return tok;
 }
-- 
2.43.0


From 4e74fc5ce800e42e69e8f76618057d3629fb969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:38 +0000
Subject: [PATCH 24/82] fix: do not read past the limit in the bounded string
 functions

stpncpy_tx(), strncat_tx(), strncmp_tx(), strncpy_tx(), strndup_tx() and
strnlen_tx() searched for the terminator beyond the given limit, although
their arguments do not have to be terminated within it.
---
 modules/libc/src/string.c | 58 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index f7e8458..e6244ac 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -186,6 +186,20 @@ rawmemchr_tx(const void* s, int c)
  * String functions
  */
 
+/* Privatizes a string of at most n characters for loading, and nothing
+ * behind it. Returns the string's length, like strnlen(). */
+static size_t
+privatize_nstr_tx(const char* s, size_t n)
+{
+    for (size_t len = 0; len < n; ++len) {
+        privatize_tx(s + len, sizeof(*s), PICOTM_TM_PRIVATIZE_LOAD);
+        if (!s[len]) {
+            return len;
+        }
+    }
+    return n;
+}
+
 #if defined(PICOTM_LIBC_HAVE_STPCPY) && PICOTM_LIBC_HAVE_STPCPY
 PICOTM_EXPORT
 char*
@@ -203,15 +217,10 @@ PICOTM_EXPORT
 char*
 stpncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
-    if (len < n) {
-        store_tx(dest, src, len);
-        memset_tx(dest + len, 0, n - len);
-    } else {
-        store_tx(dest, src, n);
-    }
-    return dest + (len - 1 < n ? len - 1 : n);
+    size_t len = privatize_nstr_tx(src, n);
+    store_tx(dest, src, len);
+    memset_tx(dest + len, '\0', n - len);
+    return dest + len;
 }
 #endif
 
@@ -327,15 +336,10 @@ char*
 strncat_tx(char* restrict dest, const char* restrict src, size_t n)
 {
     privatize_c_tx(dest, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
     size_t dlen = strlen(dest);
-    size_t slen = strlen(src) + 1;
-    if (n < slen) {
-        store_tx(dest + dlen, src, n);
-        memset_tx(dest + dlen + n, '\0', 1);
-    } else {
-        store_tx(dest + dlen, src, slen);
-    }
+    size_t slen = privatize_nstr_tx(src, n);
+    store_tx(dest + dlen, src, slen);
+    memset_tx(dest + dlen + slen, '\0', 1);
     return dest;
 }
 #endif
@@ -345,8 +349,8 @@ PICOTM_EXPORT
 int
 strncmp_tx(const char* s1, const char* s2, size_t n)
 {
-    privatize_c_tx(s1, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    privatize_c_tx(s2, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_nstr_tx(s1, n);
+    privatize_nstr_tx(s2, n);
     return strncmp(s1, s2, n);
 }
 #endif
@@ -356,14 +360,9 @@ PICOTM_EXPORT
 char*
 strncpy_tx(char* restrict dest, const char* restrict src, size_t n)
 {
-    privatize_c_tx(src, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    size_t len = strlen(src) + 1;
-    if (len < n) {
-        store_tx(dest, src, len);
-        memset_tx(dest + len, 0, n - len);
-    } else {
-        store_tx(dest, src, n);
-    }
+    size_t len = privatize_nstr_tx(src, n);
+    store_tx(dest, src, len);
+    memset_tx(dest + len, '\0', n - len);
     return dest;
 }
 #endif
@@ -373,7 +372,7 @@ PICOTM_EXPORT
 char*
 strndup_tx(const char* s, size_t n)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_nstr_tx(s, n);
     return strndup_tm(s, n);
 }
 #endif
@@ -383,8 +382,7 @@ PICOTM_EXPORT
 size_t
 strnlen_tx(const char* s, size_t maxlen)
 {
-    privatize_c_tx(s, '\0', PICOTM_TM_PRIVATIZE_LOAD);
-    return strnlen(s, maxlen);
+    return privatize_nstr_tx(s, maxlen);
 }
 #endif
 
-- 
2.43.0


From ce966deb667dcb471fa3fa0eff00a5377079f133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 25/82] fix: do not pass NULL as argument of fcntl() commands
 without argument

---
 modules/libc/src/fcntl-tm.c | 6 ++++--
 modules/libc/src/fcntl.c    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index fa1ac7f..1e8b1f3 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -93,9 +93,11 @@ fcntl_tm(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val;
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 6185624..64b3ec8 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -96,9 +96,11 @@ fcntl_tx(int fildes, int cmd, ...)
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
             }
-            default:
-                res = fildes_module_fcntl(fildes, cmd, NULL, &error);
+            default: {
+                union fcntl_arg val;
+                res = fildes_module_fcntl(fildes, cmd, &val, &error);
                 break;
+            }
         }
         if (!picotm_error_is_set(&error)) {
             return res;
-- 
2.43.0


From 16993918bec65ebd43b9b8c84ed3a38f8db49626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:44 +0000
Subject: [PATCH 26/82] fix: pass record locks to fcntl() by reference

---
 modules/libc/src/fcntl-tm.c              |  3 +++
 modules/libc/src/fcntl.c                 | 11 ++++++++++-
 modules/libc/src/fildes/chrdev_tx_ops.c  |  4 ++--
 modules/libc/src/fildes/dir_tx_ops.c     |  4 ++--
 modules/libc/src/fildes/fifo_tx_ops.c    |  4 ++--
 modules/libc/src/fildes/regfile_tx_ops.c |  4 ++--
 modules/libc/src/fildes/socket_tx_ops.c  |  4 ++--
 7 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/fcntl-tm.c b/modules/libc/src/fcntl-tm.c
index 1e8b1f3..ce48454 100644
--- a/modules/libc/src/fcntl-tm.c
+++ b/modules/libc/src/fcntl-tm.c
@@ -91,6 +91,9 @@ fcntl_tm(int fildes, int cmd, ...)
                 memcpy(&val.arg1, f, sizeof(val.arg1));
 
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if ((cmd == F_GETLK) && !picotm_error_is_set(&error)) {
+                    memcpy(f, &val.arg1, sizeof(val.arg1));
+                }
                 break;
             }
             default: {
diff --git a/modules/libc/src/fcntl.c b/modules/libc/src/fcntl.c
index 64b3ec8..e961b89 100644
--- a/modules/libc/src/fcntl.c
+++ b/modules/libc/src/fcntl.c
@@ -90,10 +90,19 @@ fcntl_tx(int fildes, int cmd, ...)
                 f = va_arg(arg, struct flock*);
                 va_end(arg);
 
-                privatize_tx(f, sizeof(val.arg1), PICOTM_TM_PRIVATIZE_LOAD);
+                if (cmd == F_GETLK) {
+                    privatize_tx(f, sizeof(val.arg1),
+                                 PICOTM_TM_PRIVATIZE_LOADSTORE);
+                } else {
+                    privatize_tx(f, sizeof(val.arg1),
+                                 PICOTM_TM_PRIVATIZE_LOAD);
+                }
                 memcpy(&val.arg1, f, sizeof(val.arg1));
 
                 res = fildes_module_fcntl(fildes, cmd, &val, &error);
+                if ((cmd == F_GETLK) && !picotm_error_is_set(&error)) {
+                    memcpy(f, &val.arg1, sizeof(val.arg1));
+                }
                 break;
             }
             default: {
diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index 2d57a8a..d78f9b1 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -106,7 +106,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -137,7 +137,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index c6816bf..4974c63 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -165,7 +165,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -196,7 +196,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 4ae4b53..127ac4e 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -105,7 +105,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -136,7 +136,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 0a3edda..6c97867 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -171,7 +171,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -202,7 +202,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index 60b73ac..f583ca5 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -168,7 +168,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
@@ -199,7 +199,7 @@ fcntl_exec(struct file_tx* base,
                 return -1;
             }
 
-            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, arg->arg1));
+            int res = TEMP_FAILURE_RETRY(fcntl(fildes, cmd, &arg->arg1));
             if (res < 0) {
                 picotm_error_set_errno(error, errno);
                 return res;
-- 
2.43.0


From c544587dd9aca24f2c79cf6a5cb6e7a0aa686dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:44 +0000
Subject: [PATCH 27/82] fix: report the size of the file from fstat() without
 previous I/O

---
 modules/libc/src/fildes/regfile_tx_ops.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 6c97867..e496954 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -234,12 +234,8 @@ fstat_exec(struct file_tx* base,
         picotm_error_set_errno(error, errno);
         return -1;
     }
-    seekbuf_tx_try_rdlock_field(seekbuf_tx, SEEKBUF_FIELD_FILE_SIZE, error);
-    if (picotm_error_is_set(error)) {
-        return -1;
-    }
 
-    /* get transaction-local file size */
+    /* get transaction-local file size; acquires the reader lock */
     off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From 5501c6690467b37d59d21ff48bffb169627854fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 28/82] fix: set lseek()'s resulting file position during
 commit

---
 modules/libc/src/fildes/regfile_tx_ops.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index e496954..6d75301 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -392,9 +392,11 @@ lseek_exec(struct file_tx* base,
     }
 
     if (cookie) {
+        /* Save the resulting position. Evaluating SEEK_CUR or SEEK_END
+         * again during the commit would give different results. */
         *cookie = seekoptab_append(&self->seektab,
                                    &self->seektablen,
-                                   from, offset, whence,
+                                   from, to, SEEK_SET,
                                    error);
         if (picotm_error_is_set(error)) {
             return (off_t)-1;
-- 
2.43.0


From cb7b1a139e93ef3ca9f864c533f60d014a704711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 29/82] fix: advance file position by number of returned bytes
 after read()

---
 modules/libc/src/fildes/regfile_tx_ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 6d75301..6eb5f41 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -743,8 +743,8 @@ read_exec(struct file_tx* base,
         return -1;
     }
 
-    /* add buf to write set */
-    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, nbyte, offset, buf,
+    /* add buf to read set; only the returned bytes advance the offset */
+    *cookie = seekbuf_tx_append_to_readset(seekbuf_tx, res, offset, buf,
                                            error);
     if (picotm_error_is_set(error)) {
         return -1;
-- 
2.43.0


From 37efeab9facc7794c8b065164e8242ec30254398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:53 +0000
Subject: [PATCH 30/82] fix: base reads at the end of the file on the
 transaction's file size

Reading at the end of the file did not lock the file size, so that the
result could differ from one of a serial execution; and holes in front of
the transaction's own writes were returned uninitialised.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 78 +++++++++++++++---------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 6eb5f41..43a5525 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -490,9 +490,11 @@ errno_signals_blocking_io(int errno_code)
 }
 
 static ssize_t
-do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
+do_pread(int fildes, void* buf, size_t nbyte, off_t offset, bool* eof,
          struct picotm_error* error)
 {
+    *eof = false;
+
     uint8_t* pos = buf;
     const uint8_t* beg = pos;
     const uint8_t* end = beg + nbyte;
@@ -511,6 +513,7 @@ do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
                 return res;
             }
         } else if (!res) {
+            *eof = true;
             break; /* EOF reached */
         }
 
@@ -521,6 +524,47 @@ do_pread(int fildes, void* buf, size_t nbyte, off_t offset,
     return pos - beg;
 }
 
+/* Reads from the file and the transaction's own write set. The caller holds
+ * a lock on the region. */
+static ssize_t
+do_pread_tx(struct regfile_tx* self, int fildes, void* buf, size_t nbyte,
+            off_t offset, struct picotm_error* error)
+{
+    struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
+
+    /* read from file */
+
+    bool eof;
+    ssize_t res = do_pread(fildes, buf, nbyte, offset, &eof, error);
+    if (picotm_error_is_set(error) || (res < 0)) {
+        return -1;
+    }
+    size_t len = res;
+
+    if (eof) {
+        /* The result depends on the file size. Bytes between the end of
+         * the file's content and the transaction's file size are zero,
+         * if the transaction hasn't written them. */
+        off_t file_size = seekbuf_tx_get_file_size(seekbuf_tx, fildes, error);
+        if (picotm_error_is_set(error)) {
+            return -1;
+        }
+        off_t end = llmin(offset + nbyte, file_size);
+
+        if ((off_t)(offset + len) < end) {
+            memset((uint8_t*)buf + len, 0, end - offset - len);
+            len = end - offset;
+        }
+    }
+
+    /* read from local write set */
+
+    iooptab_read(seekbuf_tx->wrtab, seekbuf_tx->wrtablen,
+                 buf, len, offset, seekbuf_tx->wrbuf);
+
+    return len;
+}
+
 static ssize_t
 pread_exec(struct file_tx* base,
            int fildes, void* buf, size_t nbyte, off_t offset,
@@ -535,19 +579,7 @@ pread_exec(struct file_tx* base,
         return -1;
     }
 
-    /* read from file */
-    ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
-    if (picotm_error_is_set(error)) {
-        return res;
-    }
-    size_t len = res;
-
-    /* read from local write set */
-    size_t len2 = iooptab_read(seekbuf_tx->wrtab,
-                               seekbuf_tx->wrtablen,
-                               buf, nbyte, offset, seekbuf_tx->wrbuf);
-
-    return llmax(len, len2);
+    return do_pread_tx(self, fildes, buf, nbyte, offset, error);
 }
 
 /*
@@ -719,22 +751,10 @@ read_exec(struct file_tx* base,
         return -1;
     }
 
-    /* read from file */
-
-    ssize_t res = do_pread(fildes, buf, nbyte, offset, error);
-    if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
-        return res;
+    ssize_t res = do_pread_tx(self, fildes, buf, nbyte, offset, error);
+    if (picotm_error_is_set(error) || (res < 0)) {
+        return -1;
     }
-    size_t len = res;
-
-    /* read from local write set */
-
-    ssize_t len2 = iooptab_read(seekbuf_tx->wrtab,
-                                seekbuf_tx->wrtablen, buf, nbyte, offset,
-                                seekbuf_tx->wrbuf);
-
-    res = llmax(len, len2);
 
     /* update file offset */
 
-- 
2.43.0


From bee543777987b8d0755f499a2d12b7a1183f6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:53 +0000
Subject: [PATCH 31/82] fix: lock all records of a file region that does not
 start at a record

---
 modules/libc/src/fildes/seekbuf.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/seekbuf.c b/modules/libc/src/fildes/seekbuf.c
index 0980d2b..57981bb 100644
--- a/modules/libc/src/fildes/seekbuf.c
+++ b/modules/libc/src/fildes/seekbuf.c
@@ -31,9 +31,10 @@ recoffset(off_t off)
 }
 
 static size_t
-reccount(size_t len)
+reccount(off_t off, size_t len)
 {
-    return 1 + len/RECSIZE;
+    /* number of records from the first to the last byte */
+    return 1 + recoffset(off + (len ? len - 1 : 0)) - recoffset(off);
 }
 
 static size_t
@@ -120,7 +121,7 @@ seekbuf_try_rdlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_rdlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_rdlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -130,7 +131,7 @@ seekbuf_try_wrlock_region(struct seekbuf self[static 1],
                           struct rwcountermap rwcountermap[static 1],
                           struct picotm_error error[static 1])
 {
-    rwcountermap_wrlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_wrlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap, error);
 }
 
@@ -138,6 +139,6 @@ void
 seekbuf_unlock_region(struct seekbuf self[static 1], off_t off, size_t nbyte,
                       struct rwcountermap rwcountermap[static 1])
 {
-    rwcountermap_unlock(rwcountermap, reccount(nbyte), recoffset(off),
+    rwcountermap_unlock(rwcountermap, reccount(off, nbyte), recoffset(off),
                         &self->rwlockmap);
 }
-- 
2.43.0


From df3bb04a5bea5838f90a3205e8ef51dc0a9fa795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:53 +0000
Subject: [PATCH 32/82] fix: release record locks if a file region cannot be
 locked completely

---
 modules/libc/src/fildes/rwcountermap.c | 38 ++++++++++++++++++--------
 modules/libc/src/fildes/seekbuf_tx.c   |  4 +++
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index fbd5413..c20161c 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -128,10 +128,6 @@ rwcountermap_page_for_each_record_in_range(
                                                self->counter + offset + length,
                                                lockpg->lock + offset,
                                                call_record, error);
-    if (picotm_error_is_set(error)) {
-        return end - (self->counter + offset);
-    }
-
     return end - (self->counter + offset);
 }
 
@@ -186,7 +182,8 @@ key_bits(unsigned long long offset, unsigned long page_nbits)
     return offset >> page_nbits;
 }
 
-void
+/* Returns the number of processed records. */
+static unsigned long long
 rwcountermap_for_each_record_in_range(
     struct rwcountermap* self,
     unsigned long long record_length, unsigned long long record_offset,
@@ -197,13 +194,15 @@ rwcountermap_for_each_record_in_range(
 {
     assert(self);
 
+    unsigned long long nrecords = 0;
+
     while (record_length) {
 
         uintptr_t value = picotm_treemap_find_value(
             &self->map, key_bits(record_offset, RWLOCKMAP_PAGE_NBITS),
             rwcountermap_create_page_fn, error);
         if (picotm_error_is_set(error)) {
-            return;
+            return nrecords;
         }
         struct rwcountermap_page* statepg = (struct rwcountermap_page*)value;
 
@@ -214,13 +213,16 @@ rwcountermap_for_each_record_in_range(
                                                        rwlockmap,
                                                        call_record,
                                                        error);
+        nrecords += diff;
         if (picotm_error_is_set(error)) {
-            return;
+            return nrecords;
         }
 
         record_length -= diff;
         record_offset += diff;
     }
+
+    return nrecords;
 }
 
 static void
@@ -236,8 +238,15 @@ rwcountermap_rdlock(struct rwcountermap* self,
                   unsigned long long record_offset,
                   struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, rdlock_record, error);
+    unsigned long long nrecords =
+        rwcountermap_for_each_record_in_range(self, record_length,
+                                              record_offset, rwlockmap,
+                                              rdlock_record, error);
+    if (picotm_error_is_set(error)) {
+        /* release the records that have been locked already */
+        rwcountermap_unlock(self, nrecords, record_offset, rwlockmap);
+        return;
+    }
 }
 
 static void
@@ -253,8 +262,15 @@ rwcountermap_wrlock(struct rwcountermap* self,
                     unsigned long long record_offset,
                     struct rwlockmap* rwlockmap, struct picotm_error* error)
 {
-    rwcountermap_for_each_record_in_range(self, record_length, record_offset,
-                                          rwlockmap, wrlock_record, error);
+    unsigned long long nrecords =
+        rwcountermap_for_each_record_in_range(self, record_length,
+                                              record_offset, rwlockmap,
+                                              wrlock_record, error);
+    if (picotm_error_is_set(error)) {
+        /* release the records that have been locked already */
+        rwcountermap_unlock(self, nrecords, record_offset, rwlockmap);
+        return;
+    }
 }
 
 static void
diff --git a/modules/libc/src/fildes/seekbuf_tx.c b/modules/libc/src/fildes/seekbuf_tx.c
index 0aa6a27..ea89284 100644
--- a/modules/libc/src/fildes/seekbuf_tx.c
+++ b/modules/libc/src/fildes/seekbuf_tx.c
@@ -276,6 +276,8 @@ seekbuf_tx_try_rdlock_region(struct seekbuf_tx* self, size_t nbyte,
                                nbyte, offset,
                                error);
     if (picotm_error_is_set(error)) {
+        seekbuf_unlock_region(self->seekbuf, offset, nbyte,
+                              &self->rwcountermap);
         return -1;
     }
 
@@ -300,6 +302,8 @@ seekbuf_tx_try_wrlock_region(struct seekbuf_tx* self, size_t nbyte,
                                nbyte, offset,
                                error);
     if (picotm_error_is_set(error)) {
+        seekbuf_unlock_region(self->seekbuf, offset, nbyte,
+                              &self->rwcountermap);
         return -1;
     }
 
-- 
2.43.0


From 648a93c2042b2eca9bf24fd4a9553b36225d44f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:53 +0000
Subject: [PATCH 33/82] fix: look up record locks again if transaction state
 refers to another file

---
 modules/libc/src/fildes/rwcountermap.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/rwcountermap.c b/modules/libc/src/fildes/rwcountermap.c
index c20161c..c5300ee 100644
--- a/modules/libc/src/fildes/rwcountermap.c
+++ b/modules/libc/src/fildes/rwcountermap.c
@@ -35,6 +35,7 @@
  */
 
 struct rwcountermap_page {
+    struct rwlockmap*      lockmap; /* the map that contains |lockpg| */
     struct rwlockmap_page* lockpg;
     struct rwcounter       counter[RWLOCKMAP_PAGE_NENTRIES];
 };
@@ -44,6 +45,7 @@ rwcountermap_page_init(struct rwcountermap_page* self)
 {
     assert(self);
 
+    self->lockmap = NULL;
     self->lockpg = NULL;
 
     struct rwcounter* counter_beg = picotm_arraybeg(self->counter);
@@ -69,15 +71,19 @@ rwcountermap_page_get_rwlockmap_page(struct rwcountermap_page* self,
 {
     assert(self);
 
-    if (self->lockpg) {
+    if (self->lockmap == rwlockmap) {
         return self->lockpg;
     }
 
-    self->lockpg = rwlockmap_find_page(rwlockmap, offset, error);
+    struct rwlockmap_page* lockpg = rwlockmap_find_page(rwlockmap, offset,
+                                                        error);
     if (picotm_error_is_set(error)) {
         return NULL;
     }
 
+    self->lockmap = rwlockmap;
+    self->lockpg = lockpg;
+
     return self->lockpg;
 }
 
-- 
2.43.0


From b83db567c534d0680539ae4ad1aeb86ddb316e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:36 +0000
Subject: [PATCH 34/82] fix: do not replace errors and conflicts of lock
 operations by errno

---
 modules/libc/src/fildes/chrdev_tx_ops.c  | 1 -
 modules/libc/src/fildes/dir_tx_ops.c     | 2 --
 modules/libc/src/fildes/fifo_tx_ops.c    | 1 -
 modules/libc/src/fildes/regfile_tx_ops.c | 2 --
 modules/libc/src/fildes/socket_tx_ops.c  | 1 -
 5 files changed, 7 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index d78f9b1..e250d83 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -164,7 +164,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     chrdev_tx_try_rdlock_field(self, CHRDEV_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index 4974c63..b348e95 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -82,7 +82,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     dir_tx_try_wrlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -223,7 +222,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     dir_tx_try_rdlock_field(self, DIR_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 127ac4e..4cf8427 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -163,7 +163,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     fifo_tx_try_rdlock_field(self, FIFO_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 43a5525..352eeda 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -86,7 +86,6 @@ fchmod_exec(struct file_tx* base,
     /* Acquire file-mode lock. */
     regfile_tx_try_wrlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
@@ -231,7 +230,6 @@ fstat_exec(struct file_tx* base,
 
     regfile_tx_try_rdlock_field(self, REGFILE_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index f583ca5..b98c912 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -226,7 +226,6 @@ fstat_exec(struct file_tx* base,
     /* Acquire file-mode reader lock. */
     socket_tx_try_rdlock_field(self, SOCKET_FIELD_FILE_MODE, error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
         return -1;
     }
 
-- 
2.43.0


From 46441da175c97391fbb651559258912e32ed8fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 35/82] fix: restore file mode if fchmod() cannot be logged

---
 modules/libc/src/fildes/dir_tx_ops.c     |  8 +++++++-
 modules/libc/src/fildes/fildes_tx.c      | 13 ++++++++++++-
 modules/libc/src/fildes/regfile_tx_ops.c |  8 +++++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/modules/libc/src/fildes/dir_tx_ops.c b/modules/libc/src/fildes/dir_tx_ops.c
index b348e95..c1cf304 100644
--- a/modules/libc/src/fildes/dir_tx_ops.c
+++ b/modules/libc/src/fildes/dir_tx_ops.c
@@ -105,10 +105,16 @@ fchmod_exec(struct file_tx* base,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
+        goto err_fchmodoptab_append;
     }
 
     return res;
+
+err_fchmodoptab_append:
+    if (fchmod(fildes, old_mode) < 0) {
+        picotm_error_mark_as_non_recoverable(error);
+    }
+    return -1;
 }
 
 static void
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 9a3cbfc..e38358f 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1760,11 +1760,22 @@ fildes_tx_exec_fchmod(struct fildes_tx* self, int fildes, mode_t mode,
     if (cookie >= 0) {
         fildes_log_append(self->log, FILDES_OP_FCHMOD, fildes, cookie, error);
         if (picotm_error_is_set(error)) {
-            return -1;
+            goto err_fildes_log_append;
         }
     }
 
     return res;
+
+err_fildes_log_append:
+    {
+        /* The event has not been logged; undo by hand. */
+        struct picotm_error undo_error = PICOTM_ERROR_INITIALIZER;
+        fd_tx_fchmod_undo(fd_tx, fildes, cookie, &undo_error);
+        if (picotm_error_is_set(&undo_error)) {
+            picotm_error_mark_as_non_recoverable(error);
+        }
+    }
+    return -1;
 }
 
 static void
diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 352eeda..64c9ecb 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -109,10 +109,16 @@ fchmod_exec(struct file_tx* base,
                                  mode, old_mode,
                                  error);
     if (picotm_error_is_set(error)) {
-        picotm_error_set_errno(error, errno);
+        goto err_fchmodoptab_append;
     }
 
     return res;
+
+err_fchmodoptab_append:
+    if (fchmod(fildes, old_mode) < 0) {
+        picotm_error_mark_as_non_recoverable(error);
+    }
+    return -1;
 }
 
 static void
-- 
2.43.0


From 8f8d718c97e1895f55f95f02a888a70271c9071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:39 +0000
Subject: [PATCH 36/82] fix: do not lose file state if a file cannot be
 referenced

---
 modules/libc/src/fildes/fildes_tx.c | 31 ++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index e38358f..8a8e5b6 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -439,6 +439,8 @@ get_pipebuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_pipebuf_tx_ref_or_set_up:
     filebuf_unref(&pipebuf->base);
 err_fildes_ref_pipebuf:
+    picotm_slist_enqueue_front(&self->pipebuf_tx_alloced_list,
+                               &pipebuf_tx->list_entry);
 err_get_pipebuf_tx:
     return NULL;
 }
@@ -533,6 +535,8 @@ get_seekbuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_seekbuf_tx_ref_or_set_up:
     filebuf_unref(&seekbuf->base);
 err_fildes_ref_seekbuf:
+    picotm_slist_enqueue_front(&self->seekbuf_tx_alloced_list,
+                               &seekbuf_tx->list_entry);
 err_get_seekbuf_tx:
     return NULL;
 }
@@ -641,6 +645,8 @@ get_sockbuf_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_sockbuf_tx_ref_or_set_up:
     filebuf_unref(&sockbuf->base);
 err_fildes_ref_sockbuf:
+    picotm_slist_enqueue_front(&self->sockbuf_tx_alloced_list,
+                               &sockbuf_tx->list_entry);
 err_get_sockbuf_tx:
     return NULL;
 }
@@ -717,7 +723,7 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct chrdev* chrdev = fildes_ref_chrdev(self->fildes, fildes,
                                               new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_chrdev;
     }
 
     file_tx_ref_or_set_up(&chrdev_tx->base, &chrdev->base, NULL, error);
@@ -734,6 +740,9 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 
 err_file_tx_ref_or_set_up:
     file_unref(&chrdev->base);
+err_fildes_ref_chrdev:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &chrdev_tx->base.list_entry);
     return NULL;
 }
 
@@ -767,7 +776,7 @@ get_fifo_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct fifo* fifo = fildes_ref_fifo(self->fildes, fildes,
                                         new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_fifo;
     }
 
     struct pipebuf_tx* pipebuf_tx = get_pipebuf_tx_with_ref(self,
@@ -794,6 +803,9 @@ get_fifo_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_file_tx_ref_or_set_up:
 err_get_pipebuf_tx_with_ref:
     file_unref(&fifo->base);
+err_fildes_ref_fifo:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &fifo_tx->base.list_entry);
     return NULL;
 }
 
@@ -827,7 +839,7 @@ get_regfile_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct regfile* regfile = fildes_ref_regfile(self->fildes, fildes,
                                                  new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_regfile;
     }
 
     struct seekbuf_tx* seekbuf_tx = get_seekbuf_tx_with_ref(self, fildes,
@@ -852,6 +864,9 @@ get_regfile_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_file_tx_ref_or_set_up:
 err_get_seekbuf_tx_with_ref:
     file_unref(&regfile->base);
+err_fildes_ref_regfile:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &regfile_tx->base.list_entry);
     return NULL;
 }
 
@@ -884,7 +899,7 @@ get_dir_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
      */
     struct dir* dir = fildes_ref_dir(self->fildes, fildes, new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_dir;
     }
 
     file_tx_ref_or_set_up(&dir_tx->base, &dir->base, NULL, error);
@@ -901,6 +916,9 @@ get_dir_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 
 err_file_tx_ref_or_set_up:
     file_unref(&dir->base);
+err_fildes_ref_dir:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &dir_tx->base.list_entry);
     return NULL;
 }
 
@@ -934,7 +952,7 @@ get_socket_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     struct socket* socket = fildes_ref_socket(self->fildes, fildes,
                                               new_file, error);
     if (picotm_error_is_set(error)) {
-        return NULL;
+        goto err_fildes_ref_socket;
     }
 
     struct sockbuf_tx* sockbuf_tx = get_sockbuf_tx_with_ref(self, fildes,
@@ -959,6 +977,9 @@ get_socket_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
 err_file_tx_ref_or_set_up:
 err_get_sockbuf_tx_with_ref:
     file_unref(&socket->base);
+err_fildes_ref_socket:
+    picotm_slist_enqueue_front(&self->file_tx_alloced_list,
+                               &socket_tx->base.list_entry);
     return NULL;
 }
 
-- 
2.43.0


From f5debbd2f6fcf0725e63918e1536a3a34da982f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:39 +0000
Subject: [PATCH 37/82] fix: do not extend a file by writing zero bytes

---
 modules/libc/src/fildes/regfile_tx_ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 64c9ecb..e5db81d 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -700,7 +700,7 @@ pwrite_exec(struct file_tx* base,
     if (picotm_error_is_set(error)) {
         return -1;
     }
-    if (file_size < (off_t)(offset + len)) {
+    if (len && (file_size < (off_t)(offset + len))) {
         seekbuf_tx_set_file_size(seekbuf_tx, offset + len, error);
         if (picotm_error_is_set(error)) {
             return -1;
@@ -874,7 +874,7 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
-    if (file_size < (off_t)(offset + len)) {
+    if (len && (file_size < (off_t)(offset + len))) {
         seekbuf_tx_set_file_size(seekbuf_tx, offset + len, error);
         if (picotm_error_is_set(error)) {
             return -1;
-- 
2.43.0


From 8a3e031de890e20f6d3bf0e9623026afeb365c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:28 +0000
Subject: [PATCH 38/82] fix: write to the end of files that are opened with
 O_APPEND

---
 modules/libc/src/fildes/regfile_tx_ops.c | 26 +++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index e5db81d..f7f0fa6 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -24,6 +24,7 @@
 #include "picotm/picotm-lib-ptr.h"
 #include <assert.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
@@ -817,6 +818,29 @@ do_pwrite_and_lseek(int fildes, const void* buf, size_t nbyte, off_t offset,
     return len;
 }
 
+/* Returns the position where write() will store its data. */
+static off_t
+file_offset_of_write(struct regfile_tx* self, int fildes, size_t nbyte,
+                     struct picotm_error* error)
+{
+    off_t offset = regfile_tx_get_file_offset(self, fildes, error);
+    if (picotm_error_is_set(error) || !nbyte) {
+        return offset;
+    }
+
+    int flags = TEMP_FAILURE_RETRY(fcntl(fildes, F_GETFL));
+    if (flags < 0) {
+        picotm_error_set_errno(error, errno);
+        return (off_t)-1;
+    }
+    if (!(flags & O_APPEND)) {
+        return offset;
+    }
+
+    /* In append mode, data goes to the end of the file. */
+    return seekbuf_tx_get_file_size(self->seekbuf_tx, fildes, error);
+}
+
 static ssize_t
 write_exec(struct file_tx* base,
            int fildes, const void* buf, size_t nbyte,
@@ -832,7 +856,7 @@ write_exec(struct file_tx* base,
         return -1;
     }
 
-    off_t offset = regfile_tx_get_file_offset(self, fildes, error);
+    off_t offset = file_offset_of_write(self, fildes, nbyte, error);
     if (picotm_error_is_set(error)) {
         return -1;
     }
-- 
2.43.0


From f30275c05e3433680cc514a04a362767c7f3b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 39/82] fix: report incomplete writes during commit as errors

---
 modules/libc/src/fildes/regfile_tx_ops.c | 35 +++++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index f7f0fa6..f29b361 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -656,6 +656,30 @@ do_pwrite(int fildes, const void* buf, size_t nbyte, off_t offset,
     return pos - beg;
 }
 
+/* Applies a logged write operation. The transaction already reported all
+ * data as written, so anything less is an error. */
+static void
+do_pwrite_all(int fildes, const void* buf, size_t nbyte, off_t offset,
+              struct picotm_error* error)
+{
+    const uint8_t* pos = buf;
+
+    while (nbyte) {
+
+        ssize_t res = do_pwrite(fildes, pos, nbyte, offset, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        } else if (res < 0) {
+            picotm_error_set_errno(error, errno);
+            return;
+        }
+
+        pos += res;
+        nbyte -= res;
+        offset += res;
+    }
+}
+
 static ssize_t
 pwrite_exec(struct file_tx* base,
             int fildes, const void* buf, size_t nbyte, off_t offset,
@@ -726,7 +750,7 @@ pwrite_apply(struct file_tx* base, int fildes, int cookie,
     size_t nbyte = seekbuf_tx->wrtab[cookie].nbyte;
     off_t  bufoff = seekbuf_tx->wrtab[cookie].bufoff;
 
-    do_pwrite(fildes, seekbuf_tx->wrbuf + bufoff, nbyte, off, error);
+    do_pwrite_all(fildes, seekbuf_tx->wrbuf + bufoff, nbyte, off, error);
     if (picotm_error_is_set(error)) {
         return;
     }
@@ -923,13 +947,16 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     size_t nbyte = seekbuf_tx->wrtab[cookie].nbyte;
     off_t  bufoff = seekbuf_tx->wrtab[cookie].bufoff;
 
-    do_pwrite_and_lseek(fildes, seekbuf_tx->wrbuf + bufoff, nbyte, off,
-                        error);
+    do_pwrite_all(fildes, seekbuf_tx->wrbuf + bufoff, nbyte, off, error);
     if (picotm_error_is_set(error)) {
         return;
     }
 
-    /* TODO: error if less than len bytes were written */
+    off_t res = lseek(fildes, off + nbyte, SEEK_SET);
+    if (res == (off_t)-1) {
+        picotm_error_set_errno(error, errno);
+        return;
+    }
 }
 
 /*
-- 
2.43.0


From c1fff2def4cd883dc588d68cf2cb0dd77e73d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 40/82] fix: look for O_TRUNC and O_EXCL in the flags of open()

The function looked for the flags in the file mode. Files were truncated
in transactions that could still roll back, and newly created files
remained after a rollback.
---
 modules/libc/src/fildes/fildes_tx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 8a8e5b6..f4d49f3 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2408,8 +2408,8 @@ undo_mkstemp(struct fildes_tx* self, int fildes, int cookie,
  * open()
  */
 
-#define DO_UNLINK(mode_) \
-    ( ( (mode_)&(O_CREAT|O_EXCL) ) == (O_CREAT|O_EXCL) )
+#define DO_UNLINK(oflag_) \
+    ( ( (oflag_)&(O_CREAT|O_EXCL) ) == (O_CREAT|O_EXCL) )
 
 int
 fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
@@ -2417,7 +2417,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
 {
     /* O_TRUNC needs irrevocability */
 
-    if ((mode&O_TRUNC) && !isnoundo) {
+    if ((oflag&O_TRUNC) && !isnoundo) {
         picotm_error_set_revocable(error);
         return -1;
     }
@@ -2449,7 +2449,7 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
     }
 
     int cookie = openoptab_append(&self->openoptab,
-                                  &self->openoptablen, DO_UNLINK(mode),
+                                  &self->openoptablen, DO_UNLINK(oflag),
                                   error);
     if (picotm_error_is_set(error)) {
         goto err_openoptab_append;
-- 
2.43.0


From a83bc40e47b2b8094c70997b50ff1126c9af8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 41/82] fix: report EBADF for file descriptors that the
 transaction has closed

The final close() happens after the commit. Until then, operations on
the closed file descriptor succeeded.
---
 modules/libc/src/fildes/fd_tx.c     | 11 ++++++++++-
 modules/libc/src/fildes/fd_tx.h     |  3 +++
 modules/libc/src/fildes/fildes_tx.c |  4 ++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index e063034..0f90f68 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -99,6 +99,7 @@ fd_tx_init(struct fd_tx* self)
     self->fd = NULL;
     self->file_tx = NULL;
     self->cc_mode = PICOTM_LIBC_CC_MODE_2PL;
+    self->is_closed = false;
 
     init_rwstates(picotm_arraybeg(self->rwstate),
                   picotm_arrayend(self->rwstate));
@@ -142,6 +143,7 @@ fd_tx_ref_or_set_up(struct fd_tx* self, struct fd* fd, struct file_tx* file_tx,
 
     self->fd = fd;
     self->file_tx = file_tx;
+    self->is_closed = false;
 
     return;
 
@@ -347,7 +349,14 @@ fd_tx_close_exec(struct fd_tx* self,
 
     assert(close_exec[self->cc_mode]);
 
-    return close_exec[self->cc_mode](self, fildes, cookie, error);
+    int res = close_exec[self->cc_mode](self, fildes, cookie, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
+
+    self->is_closed = true;
+
+    return res;
 }
 
 static void
diff --git a/modules/libc/src/fildes/fd_tx.h b/modules/libc/src/fildes/fd_tx.h
index 0d45853..9c0c899 100644
--- a/modules/libc/src/fildes/fd_tx.h
+++ b/modules/libc/src/fildes/fd_tx.h
@@ -64,6 +64,9 @@ struct fd_tx {
     struct file_tx* file_tx;
     enum picotm_libc_cc_mode cc_mode;
 
+    /** True if the transaction has closed the file descriptor */
+    bool is_closed;
+
     /** Reader/writer state for file descriptor */
     struct picotm_rwstate   rwstate[NUMBER_OF_FD_FIELDS];
 
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index f4d49f3..f835921 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1093,6 +1093,10 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
         if (picotm_error_is_set(error)) {
             return NULL;
         }
+        if (fd_tx->is_closed) {
+            picotm_error_set_errno(error, EBADF);
+            return NULL;
+        }
 
         return fd_tx;
     }
-- 
2.43.0


From 3c2e19df8ec6d0cefbbce39057096d9f0b9a7c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:30 +0000
Subject: [PATCH 42/82] fix: release the transaction's list of fcntl()
 operations

The list was neither reset after a transaction nor released with the
thread's state.
---
 modules/libc/src/fildes/fd_tx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/libc/src/fildes/fd_tx.c b/modules/libc/src/fildes/fd_tx.c
index 0f90f68..d93e584 100644
--- a/modules/libc/src/fildes/fd_tx.c
+++ b/modules/libc/src/fildes/fd_tx.c
@@ -117,6 +117,8 @@ fd_tx_uninit(struct fd_tx* self)
                     picotm_arrayend(self->rwstate));
 
     picotm_slist_uninit_item(&self->active_list);
+
+    fcntloptab_clear(&self->fcntltab, &self->fcntltablen);
 }
 
 void
@@ -229,6 +231,8 @@ fd_tx_finish(struct fd_tx* self)
     unlock_rwstates(picotm_arraybeg(self->rwstate),
                     picotm_arrayend(self->rwstate),
                     self->fd);
+
+    self->fcntltablen = 0;
 }
 
 /*
-- 
2.43.0


From ac2d53a31a9e60911e5ae6ea3fbdb7b6201fb0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 43/82] fix: report EBADF for values outside of the range of
 file descriptors

The value was used as index into the transaction's array of file
descriptors without any check.
---
 modules/libc/src/fildes/fildes_tx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index f835921..2828ca0 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1080,6 +1080,11 @@ static struct fd_tx*
 find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
                     bool new_file, struct picotm_error* error)
 {
+    if ((fildes < 0) || ((size_t)fildes >= picotm_arraylen(self->fd_tx))) {
+        picotm_error_set_errno(error, EBADF);
+        return NULL;
+    }
+
     struct fd_tx* fd_tx = get_fd_tx(self, fildes);
 
     /* In |struct fildes_tx| we hold at most one reference to the
-- 
2.43.0


From e00aedf0e6b766144738960043a4259ddd71104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:55 +0000
Subject: [PATCH 44/82] fix: search socket buffers in the list of socket
 buffers

The function searched in the list of pipe buffers and used the list's
head as socket buffer.
---
 modules/libc/src/fildes/fildes_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 2828ca0..6cefe30 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -575,7 +575,7 @@ get_sockbuf_tx(struct fildes_tx* self, const struct filebuf_id* id,
 {
     /* Let's see if we already have the sockbuf in use.*/
 
-    struct picotm_slist* pos = picotm_slist_find_1(&self->pipebuf_tx_active_list,
+    struct picotm_slist* pos = picotm_slist_find_1(&self->sockbuf_tx_active_list,
                                                    true_if_eq_sockbuf_id_cb,
                                                    (void*)id);
     if (pos != picotm_slist_end(&self->sockbuf_tx_active_list)) {
-- 
2.43.0


From 2a0b4b9c21bb9cf73afc9ecc5cf795c159be393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:55 +0000
Subject: [PATCH 45/82] fix: remove newly created file if open() fails
 afterwards

If a file was created by O_CREAT and O_EXCL and an error occured later
in the call, the file remained.
---
 modules/libc/src/fildes/fildes_tx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 6cefe30..f98bcc4 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2479,6 +2479,11 @@ fildes_tx_exec_open(struct fildes_tx* self, const char* path, int oflag,
 err_fildes_log_append:
 err_openoptab_append:
 err_add_new_fd_tx_with_ref:
+    if (DO_UNLINK(oflag)) {
+        /* The transaction created the file; don't care about errors */
+        struct picotm_error ignored_error = PICOTM_ERROR_INITIALIZER;
+        unlink_fildes(fildes, &ignored_error);
+    }
     TEMP_FAILURE_RETRY(close(fildes));
 err_open:
     free(abs_path);
-- 
2.43.0


From 686e384216b2435858745587428563a282a009ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 46/82] fix: allow duplicates of duplicated file descriptors

Duplicating a file descriptor that was itself duplicated within the same
transaction failed with EBADF.
---
 modules/libc/src/fildes/fildes_tx.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index f98bcc4..2b0a577 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1111,10 +1111,17 @@ find_fd_tx_with_ref(struct fildes_tx* self, int fildes, int old_fildes,
         return NULL;
     }
 
-    struct file_tx* file_tx = get_file_tx_with_ref(self, old_fildes,
-                                                   new_file, error);
-    if (picotm_error_is_set(error)) {
-        goto err_get_file_tx_with_ref;
+    struct file_tx* file_tx;
+
+    if (fildes == old_fildes) {
+        file_tx = get_file_tx_with_ref(self, fildes, new_file, error);
+        if (picotm_error_is_set(error)) {
+            goto err_get_file_tx_with_ref;
+        }
+    } else {
+        /* A duplicate refers to the same file as the original. The
+         * original might be a duplicate as well. */
+        file_tx = get_existing_fd_tx(self, old_fildes)->file_tx;
     }
 
     fd_tx_ref_or_set_up(fd_tx, fd, file_tx, error);
-- 
2.43.0


From a463c9a3ce41d998ab3517d3670db65e748f32a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 47/82] fix: close both ends of a pipe if pipe() fails
 afterwards

---
 modules/libc/src/fildes/fildes_tx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 2b0a577..d734887 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2576,6 +2576,12 @@ fildes_tx_exec_pipe(struct fildes_tx* self, int pipefd[2],
                                   &self->pipeoptablen, pipefd,
                                   error);
     if (picotm_error_is_set(error)) {
+        if (TEMP_FAILURE_RETRY(close(pipefd[0])) < 0) {
+            perror("close");
+        }
+        if (TEMP_FAILURE_RETRY(close(pipefd[1])) < 0) {
+            perror("close");
+        }
         return -1;
     }
 
-- 
2.43.0


From c2a29258f143347aa58c99dc8b9be0b910aeb94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:56 +0000
Subject: [PATCH 48/82] fix: close file descriptor if mkstemp() fails
 afterwards

---
 modules/libc/src/fildes/fildes_tx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index d734887..f86736b 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -2392,6 +2392,9 @@ fildes_tx_exec_mkstemp(struct fildes_tx* self, char* pathname,
 
 err_fildes_log_append:
     unlink(abs_path);
+    if (TEMP_FAILURE_RETRY(close(fildes)) < 0) {
+        perror("close");
+    }
 err_mkstemp:
     free(abs_path);
     return -1;
-- 
2.43.0


From 4e42700eb4fb07067f6e4195e5cd3a44987a8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 49/82] fix: do not restart close() if it was interrupted by a
 signal

The file descriptor has been released at this point. Another call closes
a file descriptor that some other thread might have opened meanwhile.
---
 modules/libc/src/compat/temp_failure_retry.h | 19 +++++++++++
 modules/libc/src/fildes/fd.c                 |  2 +-
 modules/libc/src/fildes/fildes_tx.c          | 34 ++++++++++----------
 3 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/modules/libc/src/compat/temp_failure_retry.h b/modules/libc/src/compat/temp_failure_retry.h
index 5a4e993..23540ca 100644
--- a/modules/libc/src/compat/temp_failure_retry.h
+++ b/modules/libc/src/compat/temp_failure_retry.h
@@ -20,6 +20,7 @@
 
 #pragma once
 
+#include <errno.h>
 #include <unistd.h>
 
 /**
@@ -39,3 +40,21 @@
 #ifndef TEMP_FAILURE_RETRY
 #define TEMP_FAILURE_RETRY  __PICOTM_LIBC_TEMP_FAILURE_RETRY
 #endif
+
+/**
+ * \brief Closes a file descriptor.
+ * \param   fildes  The file descriptor to close.
+ * \returns 0 on success, or -1 otherwise.
+ *
+ * An interrupted close() must not be restarted. The file descriptor has
+ * already been released, and other threads might have re-used it.
+ */
+static inline int
+picotm_libc_close(int fildes)
+{
+    int res = close(fildes);
+    if ((res < 0) && (errno == EINTR)) {
+        return 0;
+    }
+    return res;
+}
diff --git a/modules/libc/src/fildes/fd.c b/modules/libc/src/fildes/fd.c
index 9dc7434..60ee81a 100644
--- a/modules/libc/src/fildes/fd.c
+++ b/modules/libc/src/fildes/fd.c
@@ -205,7 +205,7 @@ final_ref(struct picotm_shared_ref16_obj* ref_obj, void* data,
         /* Close fildes if we released the final reference of
          * a file descriptor that has been closed from within
          * a transaction. */
-        int res = TEMP_FAILURE_RETRY(close(self->fildes));
+        int res = picotm_libc_close(self->fildes);
         if (res < 0) {
             picotm_error_set_errno(error, errno);
             picotm_error_mark_as_non_recoverable(error);
diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index f86736b..1a6ade5 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1361,7 +1361,7 @@ fildes_tx_exec_accept(struct fildes_tx* self, int sockfd,
     return connfd;
 
 err_add_new_fd_tx_with_ref:
-    if (TEMP_FAILURE_RETRY(close(connfd)) < 0) {
+    if (picotm_libc_close(connfd) < 0) {
         perror("close");
     }
     return -1;
@@ -1684,7 +1684,7 @@ fildes_tx_exec_dup(struct fildes_tx* self, int fildes, int cloexec,
 
 err_fildes_log_append:
 err_add_dup_fd_tx_with_ref:
-    TEMP_FAILURE_RETRY(close(new_fildes));
+    picotm_libc_close(new_fildes);
     return -1;
 }
 
@@ -2392,7 +2392,7 @@ fildes_tx_exec_mkstemp(struct fildes_tx* self, char* pathname,
 
 err_fildes_log_append:
     unlink(abs_path);
-    if (TEMP_FAILURE_RETRY(close(fildes)) < 0) {
+    if (picotm_libc_close(fildes) < 0) {
         perror("close");
     }
 err_mkstemp:
@@ -2416,7 +2416,7 @@ undo_mkstemp(struct fildes_tx* self, int fildes, int cookie,
     struct picotm_error ignored_error = PICOTM_ERROR_INITIALIZER;
     unlink_fildes(fildes, &ignored_error);
 
-    int res = TEMP_FAILURE_RETRY(close(fildes));
+    int res = picotm_libc_close(fildes);
     if (res < 0) {
         picotm_error_set_errno(error, errno);
         return;
@@ -2494,7 +2494,7 @@ err_add_new_fd_tx_with_ref:
         struct picotm_error ignored_error = PICOTM_ERROR_INITIALIZER;
         unlink_fildes(fildes, &ignored_error);
     }
-    TEMP_FAILURE_RETRY(close(fildes));
+    picotm_libc_close(fildes);
 err_open:
     free(abs_path);
     return -1;
@@ -2555,10 +2555,10 @@ fildes_tx_exec_pipe(struct fildes_tx* self, int pipefd[2],
 
     add_new_fd_tx_with_ref(self, pipefd[0], true, error);
     if (picotm_error_is_set(error)) {
-        if (TEMP_FAILURE_RETRY(close(pipefd[0])) < 0) {
+        if (picotm_libc_close(pipefd[0]) < 0) {
             perror("close");
         }
-        if (TEMP_FAILURE_RETRY(close(pipefd[1])) < 0) {
+        if (picotm_libc_close(pipefd[1]) < 0) {
             perror("close");
         }
         return -1;
@@ -2566,10 +2566,10 @@ fildes_tx_exec_pipe(struct fildes_tx* self, int pipefd[2],
 
     add_new_fd_tx_with_ref(self, pipefd[1], true, error);
     if (picotm_error_is_set(error)) {
-        if (TEMP_FAILURE_RETRY(close(pipefd[0])) < 0) {
+        if (picotm_libc_close(pipefd[0]) < 0) {
             perror("close");
         }
-        if (TEMP_FAILURE_RETRY(close(pipefd[1])) < 0) {
+        if (picotm_libc_close(pipefd[1]) < 0) {
             perror("close");
         }
         return -1;
@@ -2579,10 +2579,10 @@ fildes_tx_exec_pipe(struct fildes_tx* self, int pipefd[2],
                                   &self->pipeoptablen, pipefd,
                                   error);
     if (picotm_error_is_set(error)) {
-        if (TEMP_FAILURE_RETRY(close(pipefd[0])) < 0) {
+        if (picotm_libc_close(pipefd[0]) < 0) {
             perror("close");
         }
-        if (TEMP_FAILURE_RETRY(close(pipefd[1])) < 0) {
+        if (picotm_libc_close(pipefd[1]) < 0) {
             perror("close");
         }
         return -1;
@@ -2592,10 +2592,10 @@ fildes_tx_exec_pipe(struct fildes_tx* self, int pipefd[2],
     if (cookie >= 0) {
         fildes_log_append(self->log, FILDES_OP_PIPE, 0, cookie, error);
         if (picotm_error_is_set(error)) {
-            if (TEMP_FAILURE_RETRY(close(pipefd[0])) < 0) {
+            if (picotm_libc_close(pipefd[0]) < 0) {
                 perror("close");
             }
-            if (TEMP_FAILURE_RETRY(close(pipefd[1])) < 0) {
+            if (picotm_libc_close(pipefd[1]) < 0) {
                 perror("close");
             }
             return -1;
@@ -2620,11 +2620,11 @@ undo_pipe(struct fildes_tx* self, int fildes, int cookie,
 
     const struct pipeop* pipeop = self->pipeoptab+cookie;
 
-    if (TEMP_FAILURE_RETRY(close(pipeop->pipefd[0])) < 0) {
+    if (picotm_libc_close(pipeop->pipefd[0]) < 0) {
         picotm_error_set_errno(error, errno);
         return;
     }
-    if (TEMP_FAILURE_RETRY(close(pipeop->pipefd[1])) < 0) {
+    if (picotm_libc_close(pipeop->pipefd[1]) < 0) {
         picotm_error_set_errno(error, errno);
         return;
     }
@@ -3126,7 +3126,7 @@ fildes_tx_exec_socket(struct fildes_tx* self, int domain, int type,
 
     add_new_fd_tx_with_ref(self, sockfd, true, error);
     if (picotm_error_is_set(error)) {
-        if (TEMP_FAILURE_RETRY(close(sockfd)) < 0) {
+        if (picotm_libc_close(sockfd) < 0) {
             perror("close");
         }
         return -1;
@@ -3135,7 +3135,7 @@ fildes_tx_exec_socket(struct fildes_tx* self, int domain, int type,
     /* Inject event */
     fildes_log_append(self->log, FILDES_OP_SOCKET, sockfd, -1, error);
     if (picotm_error_is_set(error)) {
-        if (TEMP_FAILURE_RETRY(close(sockfd)) < 0) {
+        if (picotm_libc_close(sockfd) < 0) {
             perror("close");
         }
         return -1;
-- 
2.43.0


From 0651fd677932658eb1780f3ed61bd8619e405a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:27 +0000
Subject: [PATCH 50/82] fix: do not restart irrevocable transactions in
 dup2_tx()

---
 modules/libc/src/unistd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 085004a..52fe3c7 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -102,7 +102,9 @@ PICOTM_EXPORT
 int
 dup2_tx(int fildes, int fildes2)
 {
-    picotm_irrevocable();
+    if (!picotm_is_irrevocable()) {
+        picotm_irrevocable();
+    }
 
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
-- 
2.43.0


From ec77b5f2358becfe444a817f0f369bfd646f3659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:27 +0000
Subject: [PATCH 51/82] fix: report errors of dup2()

---
 modules/libc/src/unistd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 52fe3c7..21de51b 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -118,6 +118,9 @@ dup2_tx(int fildes, int fildes2)
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         int res = dup2(fildes, fildes2);
+        if (res < 0) {
+            picotm_error_set_errno(&error, errno);
+        }
         if (!picotm_error_is_set(&error)) {
             return res;
         }
-- 
2.43.0


From c6eecde7e591af3947b29134988ad831c03e0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 52/82] fix: set up write buffer of character devices

---
 modules/libc/src/fildes/fildes_tx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 1a6ade5..61ef30f 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -726,10 +726,17 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
         goto err_fildes_ref_chrdev;
     }
 
+    struct seekbuf_tx* seekbuf_tx = get_seekbuf_tx_with_ref(self, fildes,
+                                                            new_file, error);
+    if (picotm_error_is_set(error)) {
+        goto err_get_seekbuf_tx_with_ref;
+    }
+
     file_tx_ref_or_set_up(&chrdev_tx->base, &chrdev->base, NULL, error);
     if (picotm_error_is_set(error)) {
         goto err_file_tx_ref_or_set_up;
     }
+    chrdev_tx->seekbuf_tx = seekbuf_tx;
 
     picotm_slist_enqueue_front(&self->file_tx_active_list,
                                &chrdev_tx->base.list_entry);
@@ -739,6 +746,7 @@ get_chrdev_tx_with_ref(struct fildes_tx* self, int fildes, bool new_file,
     return chrdev_tx;
 
 err_file_tx_ref_or_set_up:
+err_get_seekbuf_tx_with_ref:
     file_unref(&chrdev->base);
 err_fildes_ref_chrdev:
     picotm_slist_enqueue_front(&self->file_tx_alloced_list,
-- 
2.43.0


From 73b6f933e21267640f6ae6cf171e7a9a1fec92c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 53/82] fix: write all buffered stream output on commit

---
 modules/libc/src/fildes/chrdev_tx_ops.c | 38 ++++++++++++-
 modules/libc/src/fildes/fifo_tx_ops.c   | 38 ++++++++++++-
 modules/libc/src/fildes/socket_tx_ops.c | 75 +++++++++++++++++++++++--
 3 files changed, 139 insertions(+), 12 deletions(-)

diff --git a/modules/libc/src/fildes/chrdev_tx_ops.c b/modules/libc/src/fildes/chrdev_tx_ops.c
index e250d83..f0716fb 100644
--- a/modules/libc/src/fildes/chrdev_tx_ops.c
+++ b/modules/libc/src/fildes/chrdev_tx_ops.c
@@ -26,6 +26,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -313,6 +314,37 @@ write_exec(struct file_tx* base,
     return res;
 }
 
+/* Transfers the whole buffer. The transaction has already reported the data
+ * as written, so we have to wait if a non-blocking file descriptor doesn't
+ * accept it immediately. */
+static void
+do_write_all(int fildes, const void* buf, size_t nbyte,
+             struct picotm_error* error)
+{
+    const uint8_t* pos = buf;
+
+    while (nbyte) {
+
+        ssize_t res = do_write(fildes, pos, nbyte, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        } else if (res < 0) {
+            struct pollfd pollfd = {
+                .fd = fildes,
+                .events = POLLOUT
+            };
+            if (TEMP_FAILURE_RETRY(poll(&pollfd, 1, -1)) < 0) {
+                picotm_error_set_errno(error, errno);
+                return;
+            }
+            continue;
+        }
+
+        pos += res;
+        nbyte -= res;
+    }
+}
+
 static void
 write_apply(struct file_tx* base, int fildes, int cookie,
             struct picotm_error* error)
@@ -321,9 +353,9 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
 
     if (seekbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 seekbuf_tx->wrbuf + seekbuf_tx->wrtab[cookie].bufoff,
-                 seekbuf_tx->wrtab[cookie].nbyte, error);
+        do_write_all(fildes,
+                     seekbuf_tx->wrbuf + seekbuf_tx->wrtab[cookie].bufoff,
+                     seekbuf_tx->wrtab[cookie].nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
diff --git a/modules/libc/src/fildes/fifo_tx_ops.c b/modules/libc/src/fildes/fifo_tx_ops.c
index 4cf8427..8adbd0d 100644
--- a/modules/libc/src/fildes/fifo_tx_ops.c
+++ b/modules/libc/src/fildes/fifo_tx_ops.c
@@ -26,6 +26,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -314,6 +315,37 @@ write_exec(struct file_tx* base,
     return res;
 }
 
+/* Transfers the whole buffer. The transaction has already reported the data
+ * as written, so we have to wait if a non-blocking file descriptor doesn't
+ * accept it immediately. */
+static void
+do_write_all(int fildes, const void* buf, size_t nbyte,
+             struct picotm_error* error)
+{
+    const uint8_t* pos = buf;
+
+    while (nbyte) {
+
+        ssize_t res = do_write(fildes, pos, nbyte, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        } else if (res < 0) {
+            struct pollfd pollfd = {
+                .fd = fildes,
+                .events = POLLOUT
+            };
+            if (TEMP_FAILURE_RETRY(poll(&pollfd, 1, -1)) < 0) {
+                picotm_error_set_errno(error, errno);
+                return;
+            }
+            continue;
+        }
+
+        pos += res;
+        nbyte -= res;
+    }
+}
+
 static void
 write_apply(struct file_tx* base, int fildes, int cookie,
             struct picotm_error* error)
@@ -322,9 +354,9 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct pipebuf_tx* pipebuf_tx = self->pipebuf_tx;
 
     if (pipebuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 pipebuf_tx->wrbuf + pipebuf_tx->wrtab[cookie].bufoff,
-                 pipebuf_tx->wrtab[cookie].nbyte, error);
+        do_write_all(fildes,
+                     pipebuf_tx->wrbuf + pipebuf_tx->wrtab[cookie].bufoff,
+                     pipebuf_tx->wrtab[cookie].nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index b98c912..f6b0cb6 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -24,6 +24,7 @@
 #include "picotm/picotm-lib-ptr.h"
 #include <assert.h>
 #include <errno.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -466,6 +467,37 @@ send_exec(struct file_tx* base,
     return res;
 }
 
+/* Transfers the whole buffer. The transaction has already reported the data
+ * as written, so we have to wait if a non-blocking file descriptor doesn't
+ * accept it immediately. */
+static void
+do_send_all(int sockfd, const void* buffer, size_t length, int flags,
+            struct picotm_error* error)
+{
+    const uint8_t* pos = buffer;
+
+    while (length) {
+
+        ssize_t res = do_send(sockfd, pos, length, flags, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        } else if (res < 0) {
+            struct pollfd pollfd = {
+                .fd = sockfd,
+                .events = POLLOUT
+            };
+            if (TEMP_FAILURE_RETRY(poll(&pollfd, 1, -1)) < 0) {
+                picotm_error_set_errno(error, errno);
+                return;
+            }
+            continue;
+        }
+
+        pos += res;
+        length -= res;
+    }
+}
+
 static void
 send_apply(struct file_tx* base, int sockfd, int cookie,
            struct picotm_error* error)
@@ -476,9 +508,9 @@ send_apply(struct file_tx* base, int sockfd, int cookie,
     struct sockbuf_tx* sockbuf_tx = self->sockbuf_tx;
 
     if (sockbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_send(sockfd,
-                sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
-                sockbuf_tx->wrtab[cookie].nbyte, flags, error);
+        do_send_all(sockfd,
+                    sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
+                    sockbuf_tx->wrtab[cookie].nbyte, flags, error);
         if (picotm_error_is_set(error)) {
             return;
         }
@@ -580,6 +612,37 @@ write_exec(struct file_tx* base,
     return res;
 }
 
+/* Transfers the whole buffer. The transaction has already reported the data
+ * as written, so we have to wait if a non-blocking file descriptor doesn't
+ * accept it immediately. */
+static void
+do_write_all(int fildes, const void* buf, size_t nbyte,
+             struct picotm_error* error)
+{
+    const uint8_t* pos = buf;
+
+    while (nbyte) {
+
+        ssize_t res = do_write(fildes, pos, nbyte, error);
+        if (picotm_error_is_set(error)) {
+            return;
+        } else if (res < 0) {
+            struct pollfd pollfd = {
+                .fd = fildes,
+                .events = POLLOUT
+            };
+            if (TEMP_FAILURE_RETRY(poll(&pollfd, 1, -1)) < 0) {
+                picotm_error_set_errno(error, errno);
+                return;
+            }
+            continue;
+        }
+
+        pos += res;
+        nbyte -= res;
+    }
+}
+
 static void
 write_apply(struct file_tx* base, int fildes, int cookie,
             struct picotm_error* error)
@@ -588,9 +651,9 @@ write_apply(struct file_tx* base, int fildes, int cookie,
     struct sockbuf_tx* sockbuf_tx = self->sockbuf_tx;
 
     if (sockbuf_tx->wrmode == PICOTM_LIBC_WRITE_BACK) {
-        do_write(fildes,
-                 sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
-                 sockbuf_tx->wrtab[cookie].nbyte, error);
+        do_write_all(fildes,
+                     sockbuf_tx->wrbuf + sockbuf_tx->wrtab[cookie].bufoff,
+                     sockbuf_tx->wrtab[cookie].nbyte, error);
         if (picotm_error_is_set(error)) {
             return;
         }
-- 
2.43.0


From 29071fadb3696e6e6aa7236013c89a6f63257813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 54/82] fix: return peeked socket data only once

---
 modules/libc/src/fildes/socket_tx_ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/libc/src/fildes/socket_tx_ops.c b/modules/libc/src/fildes/socket_tx_ops.c
index f6b0cb6..134647a 100644
--- a/modules/libc/src/fildes/socket_tx_ops.c
+++ b/modules/libc/src/fildes/socket_tx_ops.c
@@ -353,6 +353,10 @@ do_recv(int sockfd, void* buffer, size_t length, int flags,
         }
 
         pos += res;
+
+        if (flags & MSG_PEEK) {
+            break; /* data remains in queue; don't return it twice */
+        }
     }
 
     return pos - beg;
-- 
2.43.0


From bd2eb0124fdad734ba64450e45758ea7edcd840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 55/82] fix: close accepted connection if accept() fails
 afterwards

If appending to the log failed, the new file descriptor remained open
without anyone knowing about it.
---
 modules/libc/src/fildes/fildes_tx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 61ef30f..5bddbda 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1363,11 +1363,12 @@ fildes_tx_exec_accept(struct fildes_tx* self, int sockfd,
     /* Inject event */
     fildes_log_append(self->log, FILDES_OP_ACCEPT, connfd, cookie, error);
     if (picotm_error_is_set(error)) {
-        return -1;
+        goto err_fildes_log_append;
     }
 
     return connfd;
 
+err_fildes_log_append:
 err_add_new_fd_tx_with_ref:
     if (picotm_libc_close(connfd) < 0) {
         perror("close");
-- 
2.43.0


From 4970b44f5601c520c4163f1a262845f3c9939e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 56/82] fix: privatize getcwd() buffer for storing

getcwd_tx() privatized the buffer for loading only, so the path stayed in
the buffer after a roll-back and concurrent transactions did not conflict.
---
 modules/libc/src/unistd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index 21de51b..f682ebe 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -184,7 +184,10 @@ PICOTM_EXPORT
 char*
 getcwd_tx(char* buf, size_t size)
 {
-    privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_LOAD);
+    if (buf) {
+        /* buf is NULL when caller requests an allocated buffer */
+        privatize_tx(buf, size, PICOTM_TM_PRIVATIZE_STORE);
+    }
     return getcwd_tm(buf, size);
 }
 #endif
-- 
2.43.0


From cdd9d26cef1dee2690a8e44472cff2e47c15f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 57/82] fix: release locale-object lock when transaction
 finishes

The reader/writer lock of a locale object remained locked if another
transaction still referred to the object's state.
---
 modules/libc/src/locale/locale_tx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 156ba61..8db92fb 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -301,6 +301,8 @@ release_locale_state_tx(struct locale_state_tx* lstate_tx,
         return;
     }
 
+    picotm_rwstate_unlock(&lstate_tx->rwstate, &lstate_tx->lstate->rwlock);
+
     release_locale_state(lstate_tx->locobj, lstate_tx->lstate, global, error);
     if (picotm_error_is_set(error)) {
         return;
-- 
2.43.0


From 03ce15dd47616c12e69662d8e4519f6d7f3e6450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 58/82] fix: handle errors while acquiring the state of a
 locale object

---
 modules/libc/src/locale/locale_tx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 8db92fb..523d25c 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -179,7 +179,10 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     do {
         picotm_spinlock_lock(&global->locale_state_lock);
         lstate = ptr_get_shared_data(locobj, error);
-        if (lstate) {
+        if (picotm_error_is_set(error)) {
+            picotm_spinlock_unlock(&global->locale_state_lock);
+            return NULL;
+        } else if (lstate) {
             ++lstate->ref_count;
             picotm_spinlock_unlock(&global->locale_state_lock);
             return lstate;
@@ -208,6 +211,7 @@ acquire_locale_state(locale_t locobj, struct locale* global,
     /* not reachable */
 
 err_ptr_test_and_set_shared_data:
+    --lstate->ref_count;
     locale_state_uninit(lstate);
     free(lstate);
     return NULL;
-- 
2.43.0


From aeb338b0b5303cb1f27426647f2d22f71780393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 59/82] fix: keep base object of newlocale() until commit

newlocale() consumes its base object. A roll-back lost the object.
---
 modules/libc/src/locale/locale_event.h |  1 +
 modules/libc/src/locale/locale_tx.c    | 50 +++++++++++++++++++-------
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/modules/libc/src/locale/locale_event.h b/modules/libc/src/locale/locale_event.h
index a9e7718..74ba012 100644
--- a/modules/libc/src/locale/locale_event.h
+++ b/modules/libc/src/locale/locale_event.h
@@ -69,6 +69,7 @@ struct locale_event {
 #if defined(PICOTM_LIBC_HAVE_NEWLOCALE) && PICOTM_LIBC_HAVE_NEWLOCALE
         struct {
             locale_t result;
+            locale_t base;
         } newlocale;
 #endif
         struct {
diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 523d25c..a77fa23 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -520,30 +520,48 @@ locale_tx_newlocale_exec(struct locale_tx* self, int category_mask,
 {
     assert(self);
 
-    /* write-lock base object */
+    locale_t newbase = (locale_t)0;
 
-    struct locale_state_tx* lstate_tx = acquire_locale_state_tx(base, self,
-                                                                error);
-    if (picotm_error_is_set(error)) {
-        return (locale_t)0;
-    }
-    picotm_rwstate_try_wrlock(&lstate_tx->rwstate,
-                              &lstate_tx->lstate->rwlock,
-                              error);
-    if (picotm_error_is_set(error)) {
-        return (locale_t)0;
+    if (base != (locale_t)0) {
+
+        /* write-lock base object */
+
+        struct locale_state_tx* lstate_tx = acquire_locale_state_tx(base, self,
+                                                                    error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
+        picotm_rwstate_try_wrlock(&lstate_tx->rwstate,
+                                  &lstate_tx->lstate->rwlock,
+                                  error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
+
+        /* newlocale() consumes its base object, so we have to work on
+         * a duplicate. We release the base object during the commit. */
+
+        newbase = duplocale(base);
+        if (newbase == (locale_t)0) {
+            picotm_error_set_errno(error, errno);
+            return (locale_t)0;
+        }
     }
 
     /* create a new locale */
 
-    locale_t locobj = newlocale(category_mask, locale, base);
+    locale_t locobj = newlocale(category_mask, locale, newbase);
     if (locobj == (locale_t)0) {
         picotm_error_set_errno(error, errno);
+        if (newbase != (locale_t)0) {
+            freelocale(newbase);
+        }
         return (locale_t)0;
     }
 
     struct locale_event arg;
     arg.arg.newlocale.result = locobj;
+    arg.arg.newlocale.base = base;
 
     locale_log_append(self->log, LOCALE_OP_NEWLOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
@@ -560,7 +578,13 @@ err_locale_log_append:
 static void
 apply_newlocale(struct locale_tx* self, const struct locale_event* arg,
                 struct picotm_error* error)
-{ }
+{
+    assert(arg);
+
+    if (arg->arg.newlocale.base != (locale_t)0) {
+        freelocale(arg->arg.newlocale.base);
+    }
+}
 
 static void
 undo_newlocale(struct locale_tx* self, const struct locale_event* arg,
-- 
2.43.0


From ce671c0ec73503f8d5986157afc5116d3ab9fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 60/82] fix: read-lock the global locale in duplocale()

---
 modules/libc/src/locale/locale_tx.c | 37 ++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index a77fa23..8bc3b12 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -383,18 +383,33 @@ locale_tx_duplocale_exec(struct locale_tx* self, locale_t locobj,
 {
     assert(self);
 
-    /* read-lock locobj object */
+    if (locobj == LC_GLOBAL_LOCALE) {
 
-    struct locale_state_tx* lstate_tx = acquire_locale_state_tx(locobj, self,
-                                                                error);
-    if (picotm_error_is_set(error)) {
-        return (locale_t)0;
-    }
-    picotm_rwstate_try_wrlock(&lstate_tx->rwstate,
-                              &lstate_tx->lstate->rwlock,
-                              error);
-    if (picotm_error_is_set(error)) {
-        return (locale_t)0;
+        /* read-lock global locale */
+
+        try_lock_locale_fields_by_category(LC_ALL, self,
+                                           locale_tx_try_rdlock_field,
+                                           error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
+
+    } else {
+
+        /* read-lock locobj object */
+
+        struct locale_state_tx* lstate_tx = acquire_locale_state_tx(locobj,
+                                                                    self,
+                                                                    error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
+        picotm_rwstate_try_rdlock(&lstate_tx->rwstate,
+                                  &lstate_tx->lstate->rwlock,
+                                  error);
+        if (picotm_error_is_set(error)) {
+            return (locale_t)0;
+        }
     }
 
     /* duplicate locale */
-- 
2.43.0


From d7cacd26736aa589d9125e08b5918328bab55b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 61/82] fix: restore thread locale if uselocale() cannot be
 logged

---
 modules/libc/src/locale/locale_tx.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/locale/locale_tx.c b/modules/libc/src/locale/locale_tx.c
index 8bc3b12..ab0b292 100644
--- a/modules/libc/src/locale/locale_tx.c
+++ b/modules/libc/src/locale/locale_tx.c
@@ -807,10 +807,19 @@ uselocale_wr_exec(struct locale_tx* self, locale_t newloc,
 
     locale_log_append(self->log, LOCALE_OP_USELOCALE, &arg, error);
     if (picotm_error_is_set(error)) {
-        return (locale_t)0;
+        goto err_locale_log_append;
     }
 
     return oldloc;
+
+err_locale_log_append:
+    if (uselocale(oldloc) == (locale_t)0) {
+        /* We keep the original error code. We mark the error
+         * as non-recoverable, because the function's clean-up
+         * block failed. */
+        picotm_error_mark_as_non_recoverable(error);
+    }
+    return (locale_t)0;
 }
 
 locale_t
-- 
2.43.0


From bb762aeaddb7be3e229da879c90ffee241b13c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 62/82] fix: clear pending floating-point exceptions before
 math functions

matherr_save_and_clear() returned before clearing the status flags, so that
an exception raised before made a successful function report an error.
---
 modules/libm/src/matherr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index a3a0508..39d789c 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -43,7 +43,7 @@ matherr_save_and_clear(int except)
             struct picotm_error error = PICOTM_ERROR_INITIALIZER;
             fpu_module_save_fexcept(&error);
             if (!picotm_error_is_set(&error)) {
-                return;
+                break;
             }
             picotm_recover_from_error(&error);
         } while (true);
-- 
2.43.0


From edda275cff2428d2730a141892b0e3a28329b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 63/82] fix: keep the first saved floating-point status flags

A roll-back first restored the floating-point environment and then
overwrote its status flags with those that were saved later.
---
 modules/libm/src/fpu_tx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/libm/src/fpu_tx.c b/modules/libm/src/fpu_tx.c
index 9fa8dd4..250bd7f 100644
--- a/modules/libm/src/fpu_tx.c
+++ b/modules/libm/src/fpu_tx.c
@@ -95,7 +95,8 @@ fpu_tx_save_fenv(struct fpu_tx* self, struct picotm_error* error)
 void
 fpu_tx_save_fexcept(struct fpu_tx* self, struct picotm_error* error)
 {
-    if (self->flags & FPU_TX_FLAG_FEXCEPT_SAVED) {
+    if (self->flags & (FPU_TX_FLAG_FENV_SAVED | FPU_TX_FLAG_FEXCEPT_SAVED)) {
+        /* The saved environment already contains the status flags. */
         return;
     }
 
-- 
2.43.0


From f227e72f48cacdd507cebfaf4f3fe4ccb463339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 64/82] fix: save errno and floating-point flags in complex
 functions

The transactional complex functions call their C counterparts without
saving errno and the floating-point status flags. If the transaction
aborts, the values set by the functions remain.
---
 modules/libm/src/complex.c | 55 ++++++++++++++++++++++++++++++++++++++
 modules/libm/src/matherr.c | 15 +++++++++--
 modules/libm/src/matherr.h |  7 +++++
 3 files changed, 75 insertions(+), 2 deletions(-)

diff --git a/modules/libm/src/complex.c b/modules/libm/src/complex.c
index eeb4942..163b1f9 100644
--- a/modules/libm/src/complex.c
+++ b/modules/libm/src/complex.c
@@ -19,12 +19,14 @@
  */
 
 #include "picotm/complex.h"
+#include "matherr.h"
 
 #if defined(PICOTM_LIBM_HAVE_CABS) && PICOTM_LIBM_HAVE_CABS
 PICOTM_EXPORT
 double
 cabs_tx(double complex z)
 {
+    matherr_save();
     return cabs(z);
 }
 #endif
@@ -34,6 +36,7 @@ PICOTM_EXPORT
 float
 cabsf_tx(float complex z)
 {
+    matherr_save();
     return cabsf(z);
 }
 #endif
@@ -43,6 +46,7 @@ PICOTM_EXPORT
 long double
 cabsl_tx(long double complex z)
 {
+    matherr_save();
     return cabsl(z);
 }
 #endif
@@ -52,6 +56,7 @@ PICOTM_EXPORT
 double complex
 cacos_tx(double complex z)
 {
+    matherr_save();
     return cacos(z);
 }
 #endif
@@ -61,6 +66,7 @@ PICOTM_EXPORT
 float complex
 cacosf_tx(float complex z)
 {
+    matherr_save();
     return cacosf(z);
 }
 #endif
@@ -70,6 +76,7 @@ PICOTM_EXPORT
 double complex
 cacosh_tx(double complex z)
 {
+    matherr_save();
     return cacosh(z);
 }
 #endif
@@ -79,6 +86,7 @@ PICOTM_EXPORT
 float complex
 cacoshf_tx(float complex z)
 {
+    matherr_save();
     return cacoshf(z);
 }
 #endif
@@ -88,6 +96,7 @@ PICOTM_EXPORT
 long double complex
 cacoshl_tx(long double complex z)
 {
+    matherr_save();
     return cacoshl(z);
 }
 #endif
@@ -97,6 +106,7 @@ PICOTM_EXPORT
 long double complex
 cacosl_tx(long double complex z)
 {
+    matherr_save();
     return cacosl(z);
 }
 #endif
@@ -106,6 +116,7 @@ PICOTM_EXPORT
 double
 carg_tx(double complex z)
 {
+    matherr_save();
     return carg(z);
 }
 #endif
@@ -115,6 +126,7 @@ PICOTM_EXPORT
 float
 cargf_tx(float complex z)
 {
+    matherr_save();
     return cargf(z);
 }
 #endif
@@ -124,6 +136,7 @@ PICOTM_EXPORT
 long double
 cargl_tx(long double complex z)
 {
+    matherr_save();
     return cargl(z);
 }
 #endif
@@ -133,6 +146,7 @@ PICOTM_EXPORT
 double complex
 casin_tx(double complex z)
 {
+    matherr_save();
     return casin(z);
 }
 #endif
@@ -142,6 +156,7 @@ PICOTM_EXPORT
 float complex
 casinf_tx(float complex z)
 {
+    matherr_save();
     return casinf(z);
 }
 #endif
@@ -151,6 +166,7 @@ PICOTM_EXPORT
 double complex
 casinh_tx(double complex z)
 {
+    matherr_save();
     return casinh(z);
 }
 #endif
@@ -160,6 +176,7 @@ PICOTM_EXPORT
 float complex
 casinhf_tx(float complex z)
 {
+    matherr_save();
     return casinhf(z);
 }
 #endif
@@ -169,6 +186,7 @@ PICOTM_EXPORT
 long double complex
 casinhl_tx(long double complex z)
 {
+    matherr_save();
     return casinhl(z);
 }
 #endif
@@ -178,6 +196,7 @@ PICOTM_EXPORT
 long double complex
 casinl_tx(long double complex z)
 {
+    matherr_save();
     return casinl(z);
 }
 #endif
@@ -187,6 +206,7 @@ PICOTM_EXPORT
 double complex
 catan_tx(double complex z)
 {
+    matherr_save();
     return catan(z);
 }
 #endif
@@ -196,6 +216,7 @@ PICOTM_EXPORT
 float complex
 catanf_tx(float complex z)
 {
+    matherr_save();
     return catanf(z);
 }
 #endif
@@ -205,6 +226,7 @@ PICOTM_EXPORT
 double complex
 catanh_tx(double complex z)
 {
+    matherr_save();
     return catanh(z);
 }
 #endif
@@ -214,6 +236,7 @@ PICOTM_EXPORT
 float complex
 catanhf_tx(float complex z)
 {
+    matherr_save();
     return catanhf(z);
 }
 #endif
@@ -223,6 +246,7 @@ PICOTM_EXPORT
 long double complex
 catanhl_tx(long double complex z)
 {
+    matherr_save();
     return catanhl(z);
 }
 #endif
@@ -232,6 +256,7 @@ PICOTM_EXPORT
 long double complex
 catanl_tx(long double complex z)
 {
+    matherr_save();
     return catanl(z);
 }
 #endif
@@ -241,6 +266,7 @@ PICOTM_EXPORT
 double complex
 ccos_tx(double complex z)
 {
+    matherr_save();
     return ccos(z);
 }
 #endif
@@ -250,6 +276,7 @@ PICOTM_EXPORT
 float complex
 ccosf_tx(float complex z)
 {
+    matherr_save();
     return ccosf(z);
 }
 #endif
@@ -259,6 +286,7 @@ PICOTM_EXPORT
 double complex
 ccosh_tx(double complex z)
 {
+    matherr_save();
     return ccosh(z);
 }
 #endif
@@ -268,6 +296,7 @@ PICOTM_EXPORT
 float complex
 ccoshf_tx(float complex z)
 {
+    matherr_save();
     return ccoshf(z);
 }
 #endif
@@ -277,6 +306,7 @@ PICOTM_EXPORT
 long double complex
 ccoshl_tx(long double complex z)
 {
+    matherr_save();
     return ccoshl(z);
 }
 #endif
@@ -286,6 +316,7 @@ PICOTM_EXPORT
 long double complex
 ccosl_tx(long double complex z)
 {
+    matherr_save();
     return ccosl(z);
 }
 #endif
@@ -295,6 +326,7 @@ PICOTM_EXPORT
 double complex
 cexp_tx(double complex z)
 {
+    matherr_save();
     return cexp(z);
 }
 #endif
@@ -304,6 +336,7 @@ PICOTM_EXPORT
 float complex
 cexpf_tx(float complex z)
 {
+    matherr_save();
     return cexpf(z);
 }
 #endif
@@ -313,6 +346,7 @@ PICOTM_EXPORT
 long double complex
 cexpl_tx(long double complex z)
 {
+    matherr_save();
     return cexpl(z);
 }
 #endif
@@ -349,6 +383,7 @@ PICOTM_EXPORT
 double complex
 clog_tx(double complex z)
 {
+    matherr_save();
     return clog(z);
 }
 #endif
@@ -358,6 +393,7 @@ PICOTM_EXPORT
 float complex
 clogf_tx(float complex z)
 {
+    matherr_save();
     return clogf(z);
 }
 #endif
@@ -367,6 +403,7 @@ PICOTM_EXPORT
 long double complex
 clogl_tx(long double complex z)
 {
+    matherr_save();
     return clogl(z);
 }
 #endif
@@ -403,6 +440,7 @@ PICOTM_EXPORT
 double complex
 cpow_tx(double complex x, double complex y)
 {
+    matherr_save();
     return cpow(x, y);
 }
 #endif
@@ -412,6 +450,7 @@ PICOTM_EXPORT
 float complex
 cpowf_tx(float complex x, float complex y)
 {
+    matherr_save();
     return cpowf(x, y);
 }
 #endif
@@ -421,6 +460,7 @@ PICOTM_EXPORT
 long double complex
 cpowl_tx(long double complex x, long double complex y)
 {
+    matherr_save();
     return cpowl(x, y);
 }
 #endif
@@ -484,6 +524,7 @@ PICOTM_EXPORT
 double complex
 csin_tx(double complex z)
 {
+    matherr_save();
     return csin(z);
 }
 #endif
@@ -493,6 +534,7 @@ PICOTM_EXPORT
 float complex
 csinf_tx(float complex z)
 {
+    matherr_save();
     return csinf(z);
 }
 #endif
@@ -502,6 +544,7 @@ PICOTM_EXPORT
 double complex
 csinh_tx(double complex z)
 {
+    matherr_save();
     return csinh(z);
 }
 #endif
@@ -511,6 +554,7 @@ PICOTM_EXPORT
 float complex
 csinhf_tx(float complex z)
 {
+    matherr_save();
     return csinhf(z);
 }
 #endif
@@ -520,6 +564,7 @@ PICOTM_EXPORT
 long double complex
 csinhl_tx(long double complex z)
 {
+    matherr_save();
     return csinhl(z);
 }
 #endif
@@ -529,6 +574,7 @@ PICOTM_EXPORT
 long double complex
 csinl_tx(long double complex z)
 {
+    matherr_save();
     return csinl(z);
 }
 #endif
@@ -538,6 +584,7 @@ PICOTM_EXPORT
 double complex
 csqrt_tx(double complex z)
 {
+    matherr_save();
     return csqrt(z);
 }
 #endif
@@ -547,6 +594,7 @@ PICOTM_EXPORT
 float complex
 csqrtf_tx(float complex z)
 {
+    matherr_save();
     return csqrtf(z);
 }
 #endif
@@ -556,6 +604,7 @@ PICOTM_EXPORT
 long double complex
 csqrtl_tx(long double complex z)
 {
+    matherr_save();
     return csqrtl(z);
 }
 #endif
@@ -565,6 +614,7 @@ PICOTM_EXPORT
 double complex
 ctan_tx(double complex z)
 {
+    matherr_save();
     return ctan(z);
 }
 #endif
@@ -574,6 +624,7 @@ PICOTM_EXPORT
 float complex
 ctanf_tx(float complex z)
 {
+    matherr_save();
     return ctanf(z);
 }
 #endif
@@ -583,6 +634,7 @@ PICOTM_EXPORT
 double complex
 ctanh_tx(double complex z)
 {
+    matherr_save();
     return ctanh(z);
 }
 #endif
@@ -592,6 +644,7 @@ PICOTM_EXPORT
 float complex
 ctanhf_tx(float complex z)
 {
+    matherr_save();
     return ctanhf(z);
 }
 #endif
@@ -601,6 +654,7 @@ PICOTM_EXPORT
 long double complex
 ctanhl_tx(long double complex z)
 {
+    matherr_save();
     return ctanhl(z);
 }
 #endif
@@ -610,6 +664,7 @@ PICOTM_EXPORT
 long double complex
 ctanl_tx(long double complex z)
 {
+    matherr_save();
     return ctanl(z);
 }
 #endif
diff --git a/modules/libm/src/matherr.c b/modules/libm/src/matherr.c
index 39d789c..a4bc35d 100644
--- a/modules/libm/src/matherr.c
+++ b/modules/libm/src/matherr.c
@@ -32,11 +32,10 @@
 #endif
 
 void
-matherr_save_and_clear(int except)
+matherr_save(void)
 {
     if (math_errhandling & MATH_ERRNO) {
         picotm_libc_save_errno();
-        errno = 0;
     }
     if (math_errhandling & MATH_ERREXCEPT) {
         do {
@@ -47,6 +46,18 @@ matherr_save_and_clear(int except)
             }
             picotm_recover_from_error(&error);
         } while (true);
+    }
+}
+
+void
+matherr_save_and_clear(int except)
+{
+    matherr_save();
+
+    if (math_errhandling & MATH_ERRNO) {
+        errno = 0;
+    }
+    if (math_errhandling & MATH_ERREXCEPT) {
         feclearexcept(except);
     }
 }
diff --git a/modules/libm/src/matherr.h b/modules/libm/src/matherr.h
index d0dd787..63eb6d4 100644
--- a/modules/libm/src/matherr.h
+++ b/modules/libm/src/matherr.h
@@ -35,6 +35,13 @@
     type_ res_ = (func_);                       \
     matherr_test_and_resolve((except_));
 
+/**
+ * Saves errno and the floating-point status flags for restoring them
+ * during a rollback.
+ */
+void
+matherr_save(void);
+
 void
 matherr_save_and_clear(int except);
 
-- 
2.43.0


From 6ab2755dc11301e3979f73f39421613024156a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 65/82] fix: call remainderf() in remainderf_tx()

The function calls remainderl(), the results of which differ from those
of remainderf() in some cases, such as the sign of zero.
---
 modules/libm/src/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/libm/src/math.c b/modules/libm/src/math.c
index 4eb9bd2..c0b733f 100644
--- a/modules/libm/src/math.c
+++ b/modules/libm/src/math.c
@@ -1377,7 +1377,7 @@ PICOTM_EXPORT
 float
 remainderf_tx(float x, float y)
 {
-    MATHERR(float, res, remainderl(x, y), FE_INVALID);
+    MATHERR(float, res, remainderf(x, y), FE_INVALID);
     return res;
 }
 #endif
-- 
2.43.0


From df3534f995368ac8d450ea4d4c208e2052f547a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 66/82] fix: don't shift treemap keys by their full width

If a tree map covers all bits of the key, looking up a value shifts
the key by its full width. The result is undefined and the tree map
grows further with wrong indices, so that values get lost.
---
 src/picotm-lib-treemap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/picotm-lib-treemap.c b/src/picotm-lib-treemap.c
index 16318d5..babff9a 100644
--- a/src/picotm-lib-treemap.c
+++ b/src/picotm-lib-treemap.c
@@ -225,7 +225,12 @@ static unsigned long long
 key_depth_prefix(unsigned long long key, unsigned long depth,
                  unsigned long level_nbits)
 {
-    return key >> (depth * level_nbits);
+    unsigned long shift = depth * level_nbits;
+
+    if (shift >= sizeof(key) * CHAR_BIT) {
+        return 0; /* shifting by the type's width or more is undefined */
+    }
+    return key >> shift;
 }
 
 static unsigned long
-- 
2.43.0


From f07df4b2d69e1409ddb316a27e8217dab52b83ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 67/82] fix: access shared data of an address from every thread

Getting and clearing an address' shared data does nothing if the
calling thread has not stored any data before. Shared data is global,
so reference the shared state in these cases as well.
---
 modules/ptrdata/src/module.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/ptrdata/src/module.c b/modules/ptrdata/src/module.c
index b0c1c6e..a4d2fd4 100644
--- a/modules/ptrdata/src/module.c
+++ b/modules/ptrdata/src/module.c
@@ -169,11 +169,9 @@ void
 ptrdata_module_clear_shared_data(const void* ptr, struct picotm_error* error)
 {
     struct ptrdata_module* module =
-        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, false, error);
+        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, true, error);
     if (picotm_error_is_set(error)) {
         return;
-    } else if (!module) {
-        return;
     }
     ptrdata_clear_shared_data(module->global, ptr, error);
 }
@@ -182,11 +180,9 @@ void*
 ptrdata_module_get_shared_data(const void* ptr, struct picotm_error* error)
 {
     struct ptrdata_module* module =
-        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, false, error);
+        PICOTM_THREAD_STATE_ACQUIRE(ptrdata_module, true, error);
     if (picotm_error_is_set(error)) {
         return NULL;
-    } else if (!module) {
-        return NULL;
     }
     return ptrdata_get_shared_data(module->global, ptr, error);
 }
-- 
2.43.0


From f2bd8fc5893a2e825a8f58f41fe476b4c19f0676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 68/82] fix: privatize the output buffer of snprintf()

Vsnprintf_tx() privatized the buffer up to the first character whose
value is the buffer's length. It then either wrote to memory outside of
the transaction's control, or read behind the buffer's end. It crashed
without a buffer.
---
 modules/libc/src/stdio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index 3796e4c..fe71d02 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -169,7 +169,9 @@ PICOTM_EXPORT
 int
 vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
 {
-    privatize_c_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
+    if (n) {
+        privatize_tx(s, n, PICOTM_TM_PRIVATIZE_STORE);
+    }
     privatize_c_tx(format, '\0', PICOTM_TM_PRIVATIZE_LOAD);
 
     va_list ap_copy;
-- 
2.43.0


From eb6df61b703eca0248a4331a34f636772e268574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 69/82] fix: fetch all arguments of snprintf() before
 privatizing strings

Privatize_printf_args() did not fetch the arguments of numerical
conversions, so it privatized an address from the wrong argument for
each string that followed. Flags, field widths, precisions and several
conversions were rejected, and only sizeof(int) bytes of the number
of characters were privatized, or none.
---
 modules/libc/src/stdio.c | 269 +++++++++++++++++++++++++++------------
 1 file changed, 190 insertions(+), 79 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index fe71d02..c84bb32 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -23,7 +23,10 @@
 #include "picotm/picotm-tm.h"
 #include "picotm/stdio-tm.h"
 #include <errno.h>
+#include <stddef.h>
+#include <stdint.h>
 #include <string.h>
+#include <wchar.h>
 #include "error/module.h"
 
 #if defined(PICOTM_LIBC_HAVE_SNPRINTF) && PICOTM_LIBC_HAVE_SNPRINTF
@@ -56,111 +59,218 @@ sscanf_tx(const char* s, const char* format, ...)
 }
 #endif
 
+enum length_modifier {
+    LENGTH_NONE,
+    LENGTH_CHAR,        /* hh */
+    LENGTH_SHORT,       /* h */
+    LENGTH_LONG,        /* l */
+    LENGTH_LONG_LONG,   /* ll */
+    LENGTH_INTMAX,      /* j */
+    LENGTH_SIZE,        /* z */
+    LENGTH_PTRDIFF,     /* t */
+    LENGTH_LONG_DOUBLE  /* L */
+};
+
+static const char*
+parse_length_modifier(const char* pos, enum length_modifier* length)
+{
+    switch (*pos) {
+        case 'h':
+            if (pos[1] == 'h') {
+                *length = LENGTH_CHAR;
+                return pos + 2;
+            }
+            *length = LENGTH_SHORT;
+            return pos + 1;
+        case 'l':
+            if (pos[1] == 'l') {
+                *length = LENGTH_LONG_LONG;
+                return pos + 2;
+            }
+            *length = LENGTH_LONG;
+            return pos + 1;
+        case 'j':
+            *length = LENGTH_INTMAX;
+            return pos + 1;
+        case 'z':
+            *length = LENGTH_SIZE;
+            return pos + 1;
+        case 't':
+            *length = LENGTH_PTRDIFF;
+            return pos + 1;
+        case 'L':
+            *length = LENGTH_LONG_DOUBLE;
+            return pos + 1;
+        default:
+            *length = LENGTH_NONE;
+            return pos;
+    }
+}
+
+static const char*
+parse_number(const char* pos, size_t* number)
+{
+    *number = 0;
+
+    for (; *pos >= '0' && *pos <= '9'; ++pos) {
+        if (*number <= (SIZE_MAX - 9) / 10) {
+            *number = *number * 10 + (*pos - '0');
+        }
+    }
+
+    return pos;
+}
+
+static size_t
+sizeof_integer(enum length_modifier length)
+{
+    switch (length) {
+        case LENGTH_CHAR:
+            return sizeof(char);
+        case LENGTH_SHORT:
+            return sizeof(short);
+        case LENGTH_LONG:
+            return sizeof(long);
+        case LENGTH_LONG_LONG:
+            return sizeof(long long);
+        case LENGTH_INTMAX:
+            return sizeof(intmax_t);
+        case LENGTH_SIZE:
+            return sizeof(size_t);
+        case LENGTH_PTRDIFF:
+            return sizeof(ptrdiff_t);
+        default:
+            return sizeof(int);
+    }
+}
+
 static void
-privatize_printf_args(const char* format, va_list arg)
+recover_from_invalid_format(void)
 {
-    while (format) {
+    do {
+        picotm_recover_from_errno(EINVAL);
+    } while (true);
+}
 
-        const char* pos = strchr(format, '%');
-        if (!pos) {
-            return;
+/* Privatizes a string's characters of the given size for loading; up to
+ * the terminating character or the maximum number of characters. */
+static void
+privatize_str(const char* str, size_t siz, size_t max)
+{
+    static const char nul[sizeof(wchar_t)];
+
+    for (; max; --max, str += siz) {
+        privatize_tx(str, siz, PICOTM_TM_PRIVATIZE_LOAD);
+        if (!memcmp(str, nul, siz)) {
+            break;
         }
+    }
+}
 
-        switch (pos[1]) {
+static void
+privatize_printf_args(const char* format, va_list arg)
+{
+    for (const char* pos = strchr(format, '%'); pos; pos = strchr(pos, '%')) {
 
-            case '%':
-                break;
+        ++pos; /* skip '%' */
 
-            /*
-             * Conversion specifiers
-             */
+        /* flags, field width and precision */
 
-            case 'd': case 'i': case 'o': case 'u':
-            case 'x': case 'a': case 'e': case 'f':
-            case 'g':
-                break;
-            case 's':
-                privatize_c_tx(va_arg(arg, void**), '\0',
-                               PICOTM_TM_PRIVATIZE_LOAD);
-                break;
-            case 'n':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
+        pos += strspn(pos, "-+ #0'");
 
-            /*
-             * Length modifiers
-             */
+        if (*pos == '*') {
+            va_arg(arg, int);
+            ++pos;
+        } else {
+            pos += strspn(pos, "0123456789");
+        }
 
-            case 'l':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n': case 'a':
-                    case 'A': case 'e': case 'E': case 'f':
-                    case 'F': case 'g': case 'G': case 'c':
-                    case '[': case 'm':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+        size_t precision = SIZE_MAX;
+
+        if (*pos == '.') {
+            ++pos;
+            if (*pos == '*') {
+                int value = va_arg(arg, int);
+                if (value >= 0) {
+                    precision = value;
                 }
                 ++pos;
-                break;
+            } else {
+                pos = parse_number(pos, &precision);
+            }
+        }
 
-            case 'j':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
+        enum length_modifier length;
+        pos = parse_length_modifier(pos, &length);
+
+        /* conversion specifier; arguments have to be fetched, even if
+         * there's nothing to privatize */
+
+        switch (*pos) {
+            case '%':
+                break;
+            case 'd': case 'i': case 'o': case 'u':
+            case 'x': case 'X':
+                switch (length) {
+                    case LENGTH_LONG:
+                        va_arg(arg, long);
+                        break;
+                    case LENGTH_LONG_LONG:
+                        va_arg(arg, long long);
+                        break;
+                    case LENGTH_INTMAX:
+                        va_arg(arg, intmax_t);
+                        break;
+                    case LENGTH_SIZE:
+                        va_arg(arg, size_t);
+                        break;
+                    case LENGTH_PTRDIFF:
+                        va_arg(arg, ptrdiff_t);
                         break;
                     default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+                        va_arg(arg, int);
+                        break;
                 }
-                ++pos;
                 break;
-
-            case 'z':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'a': case 'A': case 'e': case 'E':
+            case 'f': case 'F': case 'g': case 'G':
+                if (length == LENGTH_LONG_DOUBLE) {
+                    va_arg(arg, long double);
+                } else {
+                    va_arg(arg, double);
                 }
-                ++pos;
                 break;
-
-            case 't':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'c':
+                if (length == LENGTH_LONG) {
+                    va_arg(arg, wint_t);
+                } else {
+                    va_arg(arg, int);
                 }
-                ++pos;
                 break;
-
-            case 'L':
-                switch (pos[2]) {
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'p':
+                va_arg(arg, void*);
+                break;
+            case 's':
+                if (length == LENGTH_LONG) {
+                    privatize_str(va_arg(arg, const char*), sizeof(wchar_t),
+                                  precision);
+                } else if (precision == SIZE_MAX) {
+                    privatize_c_tx(va_arg(arg, const char*), '\0',
+                                   PICOTM_TM_PRIVATIZE_LOAD);
+                } else {
+                    privatize_str(va_arg(arg, const char*), sizeof(char),
+                                  precision);
                 }
-                ++pos;
                 break;
-
+            case 'n':
+                privatize_tx(va_arg(arg, void*), sizeof_integer(length),
+                             PICOTM_TM_PRIVATIZE_STORE);
+                break;
             default:
-                picotm_recover_from_errno(EINVAL);
-                continue;
+                recover_from_invalid_format();
         }
 
-        format = pos + 2;
+        ++pos; /* skip conversion specifier */
     }
 }
 
@@ -177,6 +287,7 @@ vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
     va_list ap_copy;
     va_copy(ap_copy, ap);
     privatize_printf_args(format, ap_copy);
+    va_end(ap_copy);
 
     return vsnprintf_tm(s, n, format, ap);
 
-- 
2.43.0


From 8ed9a8940ff05c16ec58d908407651004f7206b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 70/82] fix: privatize all output of sscanf()

Privatize_scanf_args() privatized only a single wide character for
strings with length modifier; the others were stored outside of the
transaction's control. Assignment suppression, field widths, characters,
strings, scan sets and several length modifiers and conversions were
rejected.
---
 modules/libc/src/stdio.c | 194 ++++++++++++++-------------------------
 1 file changed, 67 insertions(+), 127 deletions(-)

diff --git a/modules/libc/src/stdio.c b/modules/libc/src/stdio.c
index c84bb32..06552af 100644
--- a/modules/libc/src/stdio.c
+++ b/modules/libc/src/stdio.c
@@ -23,6 +23,7 @@
 #include "picotm/picotm-tm.h"
 #include "picotm/stdio-tm.h"
 #include <errno.h>
+#include <stdbool.h>
 #include <stddef.h>
 #include <stdint.h>
 #include <string.h>
@@ -294,155 +295,93 @@ vsnprintf_tx(char* s, size_t n, const char* format, va_list ap)
 }
 #endif
 
+/* Returns the first character behind a scan set; NULL on errors. */
+static const char*
+skip_scan_set(const char* pos)
+{
+    if (*pos == '^') {
+        ++pos;
+    }
+    if (*pos == ']') {
+        ++pos; /* part of the scan set */
+    }
+    pos = strchr(pos, ']');
+
+    return pos ? pos + 1 : NULL;
+}
+
 static void
 privatize_scanf_args(const char* format, va_list arg)
 {
-    while (format) {
+    for (const char* pos = strchr(format, '%'); pos; pos = strchr(pos, '%')) {
+
+        ++pos; /* skip '%' */
 
-        const char* pos = strchr(format, '%');
-        if (!pos) {
-            return;
+        bool is_assigned = true;
+
+        if (*pos == '*') {
+            is_assigned = false;
+            ++pos;
         }
 
-        switch (pos[1]) {
+        size_t width;
+        pos = parse_number(pos, &width);
 
-            case '%':
-                break;
+        enum length_modifier length;
+        pos = parse_length_modifier(pos, &length);
 
-            /*
-             * Conversion specifiers
-             */
+        size_t siz = 0;
 
-            case 'd':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'i':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'o':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'u':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-            case 'x':
-                privatize_tx(va_arg(arg, unsigned*), sizeof(unsigned),
-                             PICOTM_TM_PRIVATIZE_STORE);
+        switch (*pos++) {
+            case '%':
+                continue;
+            case 'd': case 'i': case 'o': case 'u':
+            case 'x': case 'X': case 'n':
+                siz = sizeof_integer(length);
                 break;
-            case 'a': case 'e': case 'f':
-                /* fall through */
-            case 'g':
-                privatize_tx(va_arg(arg, float*), sizeof(float),
-                             PICOTM_TM_PRIVATIZE_STORE);
+            case 'a': case 'A': case 'e': case 'E':
+            case 'f': case 'F': case 'g': case 'G':
+                if (length == LENGTH_LONG_DOUBLE) {
+                    siz = sizeof(long double);
+                } else if (length == LENGTH_LONG) {
+                    siz = sizeof(double);
+                } else {
+                    siz = sizeof(float);
+                }
                 break;
             case 'p':
-                privatize_tx(va_arg(arg, void**), sizeof(void*),
-                             PICOTM_TM_PRIVATIZE_STORE);
+                siz = sizeof(void*);
                 break;
-            case 'n':
-                privatize_tx(va_arg(arg, int*), sizeof(int),
-                             PICOTM_TM_PRIVATIZE_STORE);
-                break;
-
-            /*
-             * Length modifiers
-             */
-
-            case 'l':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, long*), sizeof(long),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        privatize_tx(va_arg(arg, double*), sizeof(double),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'c': case 's': case '[':
-                        privatize_tx(va_arg(arg, wchar_t*), sizeof(wchar_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    case 'm':
-                        privatize_tx(va_arg(arg, wchar_t**), sizeof(wchar_t*),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case '[':
+                pos = skip_scan_set(pos);
+                if (!pos) {
+                    recover_from_invalid_format();
                 }
-                ++pos;
-                break;
-
-            case 'j':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, intmax_t*), sizeof(intmax_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
-                }
-                ++pos;
-                break;
-
-            case 'z':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, size_t*), sizeof(size_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+                /* fall through */
+            case 's':
+                if (is_assigned && !width) {
+                    /* The output buffer's size is unknown. */
+                    recover_from_invalid_format();
                 }
-                ++pos;
-                break;
-
-            case 't':
-                switch (pos[2]) {
-                    case 'd': case 'i': case 'o': case 'u':
-                    case 'x': case 'X': case 'n':
-                        privatize_tx(va_arg(arg, ptrdiff_t*),
-                                     sizeof(ptrdiff_t),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+                siz = width + 1;
+                if (length == LENGTH_LONG) {
+                    siz *= sizeof(wchar_t);
                 }
-                ++pos;
                 break;
-
-            case 'L':
-                switch (pos[2]) {
-                    case 'a': case 'A': case 'e': case 'E':
-                    case 'f': case 'F': case 'g': case 'G':
-                        privatize_tx(va_arg(arg, long double*),
-                                     sizeof(long double),
-                                     PICOTM_TM_PRIVATIZE_STORE);
-                        break;
-                    default:
-                        picotm_recover_from_errno(EINVAL);
-                        continue;
+            case 'c':
+                siz = width ? width : 1;
+                if (length == LENGTH_LONG) {
+                    siz *= sizeof(wchar_t);
                 }
-                ++pos;
                 break;
-
             default:
-                picotm_recover_from_errno(EINVAL);
-                continue;
+                recover_from_invalid_format();
         }
 
-        format = pos + 2;
+        if (is_assigned) {
+            privatize_tx(va_arg(arg, void*), siz,
+                         PICOTM_TM_PRIVATIZE_STORE);
+        }
     }
 }
 
@@ -457,6 +396,7 @@ vsscanf_tx(const char* s, const char* format, va_list arg)
     va_list arg_copy;
     va_copy(arg_copy, arg);
     privatize_scanf_args(format, arg_copy);
+    va_end(arg_copy);
 
     return vsscanf_tm(s, format, arg);
 }
-- 
2.43.0


From 006b8630efcf447eacfc10080fafe0a4c3d5e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 71/82] fix: return EOF from sscanf() at the end of the input

If the input ended before the first conversion, vsscanf_tm() started
recovery from whatever value errno had.
---
 modules/libc/src/stdio-tm.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/libc/src/stdio-tm.c b/modules/libc/src/stdio-tm.c
index f70919a..6aaeb23 100644
--- a/modules/libc/src/stdio-tm.c
+++ b/modules/libc/src/stdio-tm.c
@@ -93,11 +93,18 @@ vsscanf_tm(const char* s, const char* format, va_list arg)
     } while (true);
 
     do {
+        /* EOF signals an error only if errno is set. Otherwise we've
+         * reached the input's end before the first conversion. */
+        int saved_errno = errno;
+        errno = 0;
         int res = vsscanf(s, format, arg);
-        if (res < 0) {
+        if (res < 0 && errno) {
             picotm_recover_from_errno(errno);
             continue;
         }
+        if (!errno) {
+            errno = saved_errno;
+        }
         return res;
     } while (true);
 }
-- 
2.43.0


From 2773476a0ce972f351e20ed05eea9bbe0d2dc26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 72/82] fix: become irrevocable before changing the file system

Functions such as mkdir_tx(), link_tx(), unlink_tx() or mkdtemp_tx() change
the file system immediately, but have no means of rolling back. An aborted
transaction would leave its changes behind. They now acquire irrevocability
first; just like open_tx() with O_TRUNC.
---
 modules/libc/src/fildes/module.c | 31 +++++++++++++++++++++++++++++++
 modules/libc/src/stdlib-tm.c     |  5 +++++
 2 files changed, 36 insertions(+)

diff --git a/modules/libc/src/fildes/module.c b/modules/libc/src/fildes/module.c
index b78e396..31318cd 100644
--- a/modules/libc/src/fildes/module.c
+++ b/modules/libc/src/fildes/module.c
@@ -26,6 +26,7 @@
 #include "picotm/picotm-lib-thread-state.h"
 #include "picotm/picotm-module.h"
 #include <assert.h>
+#include <stdbool.h>
 #include <stdlib.h>
 #include "fildes.h"
 #include "fildes_event.h"
@@ -228,6 +229,18 @@ get_fildes_tx(struct picotm_error* error)
     return &module->tx;
 }
 
+/* Changes to the file system's directory structure and to file attributes
+ * cannot be rolled back; so they need irrevocability. */
+static bool
+requires_irrevocability(struct picotm_error* error)
+{
+    if (!picotm_is_irrevocable()) {
+        picotm_error_set_revocable(error);
+        return true;
+    }
+    return false;
+}
+
 /*
  * Public interface
  */
@@ -259,6 +272,9 @@ fildes_module_bind(int sockfd, const struct sockaddr* address,
 int
 fildes_module_chmod(const char* path, mode_t mode, struct picotm_error* error)
 {
+    if (requires_irrevocability(error)) {
+        return -1;
+    }
     struct fildes_tx* fildes_tx = get_fildes_tx(error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -368,6 +384,9 @@ int
 fildes_module_link(const char* path1, const char* path2,
                    struct picotm_error* error)
 {
+    if (requires_irrevocability(error)) {
+        return -1;
+    }
     struct fildes_tx* fildes_tx = get_fildes_tx(error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -412,6 +431,9 @@ fildes_module_lstat(const char* path, struct stat* buf,
 int
 fildes_module_mkdir(const char* path, mode_t mode, struct picotm_error* error)
 {
+    if (requires_irrevocability(error)) {
+        return -1;
+    }
     struct fildes_tx* fildes_tx = get_fildes_tx(error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -423,6 +445,9 @@ int
 fildes_module_mkfifo(const char* path, mode_t mode,
                      struct picotm_error* error)
 {
+    if (requires_irrevocability(error)) {
+        return -1;
+    }
     struct fildes_tx* fildes_tx = get_fildes_tx(error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -434,6 +459,9 @@ int
 fildes_module_mknod(const char* path, mode_t mode, dev_t dev,
                     struct picotm_error* error)
 {
+    if (requires_irrevocability(error)) {
+        return -1;
+    }
     struct fildes_tx* fildes_tx = get_fildes_tx(error);
     if (picotm_error_is_set(error)) {
         return -1;
@@ -593,6 +621,9 @@ fildes_module_sync(struct picotm_error* error)
 int
 fildes_module_unlink(const char* path, struct picotm_error* error)
 {
+    if (requires_irrevocability(error)) {
+        return -1;
+    }
     struct fildes_tx* fildes_tx = get_fildes_tx(error);
     if (picotm_error_is_set(error)) {
         return -1;
diff --git a/modules/libc/src/stdlib-tm.c b/modules/libc/src/stdlib-tm.c
index 0dfeffc..9eda74d 100644
--- a/modules/libc/src/stdlib-tm.c
+++ b/modules/libc/src/stdlib-tm.c
@@ -58,6 +58,11 @@ PICOTM_EXPORT
 char*
 mkdtemp_tm(char* template)
 {
+    /* The new directory cannot be rolled back. */
+    if (!picotm_is_irrevocable()) {
+        picotm_irrevocable();
+    }
+
     do {
         struct picotm_error error = PICOTM_ERROR_INITIALIZER;
         error_module_save_errno(&error);
-- 
2.43.0


From 8f7590a50c94a52e61e261abb626760e454ed39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 73/82] fix: don't take signal lock while the signal's handler
 is installed

Acquiring a signal twice took the spinlock of the signal while the signal
was already being handled by picotm. If the signal arrived on the same
thread at that time, the handler waited for the lock forever.
---
 modules/libc/src/signal/sigstate.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modules/libc/src/signal/sigstate.c b/modules/libc/src/signal/sigstate.c
index 8ab1391..5c45404 100644
--- a/modules/libc/src/signal/sigstate.c
+++ b/modules/libc/src/signal/sigstate.c
@@ -42,6 +42,13 @@ sigstate_entry_acquire(struct sigstate_entry* self, int signum,
                        void (*nontx_sigaction)(int, siginfo_t*, void*),
                        struct picotm_error* error)
 {
+    /* The caller's lock protects against concurrent acquire and release
+     * operations. Don't hold the entry's lock if the handler is already
+     * installed. A signal would deadlock on this thread. */
+    if (self->acquired) {
+        return;
+    }
+
     struct sigaction act = {
         .sa_sigaction = signal_handler,
         .sa_flags = SA_SIGINFO,
@@ -54,11 +61,6 @@ sigstate_entry_acquire(struct sigstate_entry* self, int signum,
 
     picotm_spinlock_lock(&self->lock);
 
-    if (self->acquired) {
-        picotm_spinlock_unlock(&self->lock);
-        return;
-    }
-
     /* We set-up the fields *before* acquiring the signal. The
      * call to sigaction() acts as 'atomic' state change. */
     self->nontx_sigaction = nontx_sigaction;
-- 
2.43.0


From 8a871d9dd75df7fcfba286413b354b87d10d3580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 74/82] fix: recover from all errors if this strategy is
 selected

---
 modules/libc/src/fildes/fildes_tx.c | 51 +++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 5bddbda..5b887ad 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -19,6 +19,7 @@
  */
 
 #include "fildes_tx.h"
+#include "picotm/picotm-libc.h"
 #include "picotm/picotm-lib-array.h"
 #include "picotm/picotm-lib-tab.h"
 #include <assert.h>
@@ -36,6 +37,7 @@
 #include "cwd/module.h"
 #include "dir.h"
 #include "dir_tx.h"
+#include "error/module.h"
 #include "fifo.h"
 #include "fifo_tx.h"
 #include "fildes.h"
@@ -1321,6 +1323,31 @@ err_fstat:
     free(path);
 }
 
+/* I/O on non-blocking file descriptors fails without error recovery if
+ * the operation would block; except if the user selected to recover from
+ * all errors. */
+static void
+recover_from_failed_io(ssize_t len, struct picotm_error* error)
+{
+    if (len >= 0) {
+        return;
+    }
+
+    int errno_code = errno;
+
+    enum picotm_libc_error_recovery recovery =
+        error_module_get_error_recovery(error);
+    if (picotm_error_is_set(error)) {
+        return;
+    }
+    if (recovery == PICOTM_LIBC_ERROR_RECOVERY_FULL) {
+        picotm_error_set_errno(error, errno_code);
+        return;
+    }
+
+    errno = errno_code;
+}
+
 /*
  * accept()
  */
@@ -2666,6 +2693,10 @@ fildes_tx_exec_pread(struct fildes_tx* self, int fildes, void* buf,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_failed_io(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* inject event */
     if (cookie >= 0) {
@@ -2731,6 +2762,10 @@ fildes_tx_exec_pwrite(struct fildes_tx* self, int fildes, const void* buf,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_failed_io(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* Inject event */
     if (cookie >= 0) {
@@ -2795,6 +2830,10 @@ fildes_tx_exec_read(struct fildes_tx* self, int fildes, void* buf,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_failed_io(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* Inject event */
     if (cookie >= 0) {
@@ -2860,6 +2899,10 @@ fildes_tx_exec_recv(struct fildes_tx* self, int sockfd, void* buffer,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_failed_io(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* Inject event */
     if (cookie >= 0) {
@@ -3005,6 +3048,10 @@ fildes_tx_exec_send(struct fildes_tx* self, int sockfd, const void* buffer,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_failed_io(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* Inject event */
     if (cookie >= 0) {
@@ -3311,6 +3358,10 @@ fildes_tx_exec_write(struct fildes_tx* self, int fildes, const void* buf,
     if (picotm_error_is_set(error)) {
         return -1;
     }
+    recover_from_failed_io(len, error);
+    if (picotm_error_is_set(error)) {
+        return -1;
+    }
 
     /* Inject event */
     if (cookie >= 0) {
-- 
2.43.0


From 7f936c2b9503c36f79eae57d4c82c3de7fc5e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 75/82] fix: discard only the requested bytes of a memory block

---
 modules/tm/src/page.c    |  1 +
 modules/tm/src/page.h    |  6 ++++--
 modules/tm/src/vmem_tx.c | 28 ++++++++++++++++++----------
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/modules/tm/src/page.c b/modules/tm/src/page.c
index e02aecb..6e27331 100644
--- a/modules/tm/src/page.c
+++ b/modules/tm/src/page.c
@@ -31,6 +31,7 @@ tm_page_init(struct tm_page* page, size_t block_index)
     page->flags = block_index << TM_BLOCK_SIZE_BITS;
     picotm_rwstate_init(&page->rwstate);
     page->buf_bits = 0;
+    page->discarded_bits = 0;
     picotm_slist_init_item(&page->list);
 }
 
diff --git a/modules/tm/src/page.h b/modules/tm/src/page.h
index aa5a12f..02987f6 100644
--- a/modules/tm/src/page.h
+++ b/modules/tm/src/page.h
@@ -30,8 +30,7 @@
 struct tm_vmem;
 
 enum {
-    TM_PAGE_FLAG_WRITE_THROUGH = 1 << 0,
-    TM_PAGE_FLAG_DISCARDED     = 1 << 1
+    TM_PAGE_FLAG_WRITE_THROUGH = 1 << 0
 };
 
 /**
@@ -51,6 +50,9 @@ struct tm_page {
     /** Bitmap of the valid fields in buf. */
     uint8_t buf_bits;
 
+    /** Bitmap of the discarded fields. */
+    uint8_t discarded_bits;
+
     /** Entry into allocator lists */
     struct picotm_slist list;
 };
diff --git a/modules/tm/src/vmem_tx.c b/modules/tm/src/vmem_tx.c
index ea086a2..24a14ca 100644
--- a/modules/tm/src/vmem_tx.c
+++ b/modules/tm/src/vmem_tx.c
@@ -179,7 +179,7 @@ prepare_page_ld(struct tm_page* page, uintptr_t addr, size_t siz,
                 struct tm_vmem* vmem,
                 struct picotm_error* error)
 {
-    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+    if (page->discarded_bits & copy_bits(addr, siz)) {
         picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
         return;
     } else if (!tm_page_has_rdlocked_frame(page)) {
@@ -235,7 +235,7 @@ prepare_page_st(struct tm_page* page, uintptr_t addr, size_t siz,
                 struct tm_vmem* vmem,
                 struct picotm_error* error)
 {
-    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+    if (page->discarded_bits & copy_bits(addr, siz)) {
         picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
         return;
     } else if (!tm_page_has_wrlocked_frame(page)) {
@@ -363,7 +363,7 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                        struct tm_vmem* vmem,
                        unsigned long flags, struct picotm_error* error)
 {
-    if (page->flags & TM_PAGE_FLAG_DISCARDED) {
+    if (page->discarded_bits & copy_bits(addr, siz)) {
         picotm_error_set_error_code(error, PICOTM_OUT_OF_BOUNDS);
         return;
     }
@@ -412,7 +412,7 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
 
     } else if (!flags) {
 
-        /* Not setting any flags marks the page as discarded.
+        /* Not setting any flags marks the bytes as discarded.
          * Page requires a writer lock. */
 
         if (!tm_page_has_wrlocked_frame(page)) {
@@ -421,7 +421,7 @@ prepare_page_privatize(struct tm_page* page, uintptr_t addr, size_t siz,
                 return;
             }
         }
-        page->flags |= TM_PAGE_FLAG_DISCARDED;
+        page->discarded_bits |= copy_bits(addr, siz);
 
     } else {
 
@@ -512,7 +512,7 @@ prepare_page_privatize_c(struct tm_page* page,
 
     } else if (!flags) {
 
-        /* Not setting any flags marks the page as discarded.
+        /* Not setting any flags marks the bytes as discarded.
          * Page requires a writer lock. */
 
         if (!tm_page_has_wrlocked_frame(page)) {
@@ -527,7 +527,15 @@ prepare_page_privatize_c(struct tm_page* page,
         if (picotm_error_is_set(error)) {
             return false;
         }
-        page->flags |= TM_PAGE_FLAG_DISCARDED;
+
+        /* Only discard the bytes up to 'c'. */
+        if (found_c) {
+            const uint8_t* mem = tm_page_buffer(page);
+            const uint8_t* beg = mem + (addr - tm_page_address(page));
+            const uint8_t* pos = memchr(beg, c, page_diff);
+            page_diff = pos - beg + 1;
+        }
+        page->discarded_bits |= copy_bits(addr, page_diff);
 
     } else {
 
@@ -581,9 +589,9 @@ static size_t
 apply_page(struct tm_page* page, struct tm_vmem* vmem, struct picotm_error* error)
 {
     if (tm_page_has_wrlocked_frame(page) &&
-        !(page->flags & TM_PAGE_FLAG_WRITE_THROUGH) &&
-        !(page->flags & TM_PAGE_FLAG_DISCARDED)) {
-        tm_page_st(page, copy_all_bits(), vmem, error);
+        !(page->flags & TM_PAGE_FLAG_WRITE_THROUGH)) {
+        tm_page_st(page, copy_all_bits() & ~page->discarded_bits, vmem,
+                   error);
         if (picotm_error_is_set(error)) {
             return 0;
         }
-- 
2.43.0


From 720ee150fba18b6546f3c17d6c341b5f29ac3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 76/82] fix: keep errors of failed module-frees recoverable

The functions that look up a path release it with a transactional
free. If logging the free fails, nothing irreversible has happened
and the allocator module releases the memory during roll-back. So
don't mark the error as non-recoverable.
---
 modules/libc/src/fildes/fildes_tx.c | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 5b887ad..43303e6 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -1251,15 +1251,11 @@ absolute_path(const char* path, struct picotm_error* error)
 
 err_allocator_module_free:
     free(abs_path);
-    picotm_error_mark_as_non_recoverable(error);
     return NULL;
 err_malloc:
     {
         struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
         allocator_module_free(cwd, cwdlen, &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
     }
     return NULL;
 }
@@ -1532,9 +1528,6 @@ err_chmod:
     {
         struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
         allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
     }
     return -1;
 }
@@ -2121,9 +2114,6 @@ err_absolute_path:
     {
         struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
         allocator_module_free(real_path1, strlen(real_path1), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
     }
     return -1;
 }
@@ -2283,15 +2273,11 @@ fildes_tx_exec_lstat(struct fildes_tx* self, const char* path, struct stat* buf,
     return res;
 
 err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
     return -1;
 err_lstat:
     {
         struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
         allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
     }
     return -1;
 }
@@ -3247,15 +3233,11 @@ fildes_tx_exec_stat(struct fildes_tx* self, const char* path,
     return res;
 
 err_allocator_module_free:
-    picotm_error_mark_as_non_recoverable(error);
     return -1;
 err_stat:
     {
         struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
         allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
     }
     return -1;
 }
@@ -3324,9 +3306,6 @@ err_unlink:
     {
         struct picotm_error tmp_error = PICOTM_ERROR_INITIALIZER;
         allocator_module_free(real_path, strlen(real_path), &tmp_error);
-        if (picotm_error_is_set(&tmp_error)) {
-            picotm_error_mark_as_non_recoverable(error);
-        }
     }
 err:
     return -1;
-- 
2.43.0


From c5d23eef6bccba6fbd651ccacdcc7e5221f5e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 77/82] fix: clear cookies of open() and pipe() at the end of
 each transaction

The tables with the cookies of open() and pipe() operations were only
cleared when the thread released its state. So they grew with each call
to open(), mkstemp() or pipe().
---
 modules/libc/src/fildes/fildes_tx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/libc/src/fildes/fildes_tx.c b/modules/libc/src/fildes/fildes_tx.c
index 43303e6..eae45a5 100644
--- a/modules/libc/src/fildes/fildes_tx.c
+++ b/modules/libc/src/fildes/fildes_tx.c
@@ -3588,4 +3588,8 @@ fildes_tx_finish(struct fildes_tx* self, struct picotm_error* error)
 
     /* Clear concurrency control on file-descriptor table */
     fdtab_tx_finish(&self->fdtab_tx);
+
+    /* Clear the operations' cookies */
+    pipeoptab_clear(&self->pipeoptab, &self->pipeoptablen);
+    openoptab_clear(&self->openoptab, &self->openoptablen);
 }
-- 
2.43.0


From 0cfb11b4f749a28516822101510988b6089eacef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 78/82] fix: keep errno if the clean-up of a transaction's file
 descriptors fails

Roll-back restores errno before it reverts the events of the fildes
module and closes file descriptors. A failing close() or fchmod() left
its own error code in errno, so that it was not restored any longer.
---
 modules/libc/src/fildes/module.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modules/libc/src/fildes/module.c b/modules/libc/src/fildes/module.c
index 31318cd..4eb7c13 100644
--- a/modules/libc/src/fildes/module.c
+++ b/modules/libc/src/fildes/module.c
@@ -26,6 +26,7 @@
 #include "picotm/picotm-lib-thread-state.h"
 #include "picotm/picotm-module.h"
 #include <assert.h>
+#include <errno.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include "fildes.h"
@@ -120,8 +121,14 @@ fildes_module_undo_event(struct fildes_module* self, uint16_t head,
     struct fildes_event* event = fildes_log_at(&self->log, tail);
     assert(event);
 
+    /* The value of errno has already been restored. It must not
+     * be changed by system calls that revert the event. */
+    int errno_code = errno;
+
     fildes_tx_undo_event(&self->tx, head, event->fildes, event->cookie,
                          error);
+
+    errno = errno_code;
 }
 
 static void
@@ -129,8 +136,14 @@ fildes_module_finish(struct fildes_module* self, struct picotm_error* error)
 {
     assert(self);
 
+    /* Closing file descriptors does not change the value of errno
+     * that the transaction leaves or that roll-back restored. */
+    int errno_code = errno;
+
     fildes_tx_finish(&self->tx, error);
     fildes_log_clear(&self->log);
+
+    errno = errno_code;
 }
 
 /*
-- 
2.43.0


From 229b88d0253e0ec5a733ce6574b16c34dea9807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 79/82] fix: save errno in sleep_tx()

An interrupted sleep() sets errno, which was not restored if the
transaction rolled back.
---
 modules/libc/src/unistd.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/libc/src/unistd.c b/modules/libc/src/unistd.c
index f682ebe..7d994ff 100644
--- a/modules/libc/src/unistd.c
+++ b/modules/libc/src/unistd.c
@@ -284,6 +284,15 @@ PICOTM_EXPORT
 unsigned
 sleep_tx(unsigned seconds)
 {
+    do {
+        struct picotm_error error = PICOTM_ERROR_INITIALIZER;
+        error_module_save_errno(&error);
+        if (!picotm_error_is_set(&error)) {
+            break;
+        }
+        picotm_recover_from_error(&error);
+    } while (true);
+
     do {
         seconds = sleep(seconds);
     } while (seconds);
-- 
2.43.0


From 229178ae05ea660a9ed769d5a0ad07ea01fa5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 80/82] fix: lseek: detect an overflow of the new position

The check relied on the overflow of a signed value, which compilers remove
as impossible. The transaction received a negative position and failed
during its commit.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index f29b361..5df3ee9 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -25,6 +25,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
@@ -299,6 +300,14 @@ fsync_apply(struct file_tx* base, int fildes, int cookie,
  * lseek()
  */
 
+/* Returns the largest value of off_t. */
+static off_t
+off_t_max(void)
+{
+    return (off_t)(ULLONG_MAX >> ((sizeof(unsigned long long) -
+                                   sizeof(off_t)) * CHAR_BIT + 1));
+}
+
 static off_t
 file_offset_after_lseek(struct regfile_tx* self, int fildes, off_t offset,
                         int whence, struct picotm_error* error)
@@ -325,7 +334,7 @@ file_offset_after_lseek(struct regfile_tx* self, int fildes, off_t offset,
                     return (off_t)-1;
                 }
             } else if (offset > 0) {
-                if ((pos + offset) < pos) {
+                if (offset > (off_t_max() - pos)) {
                     /* overflow */
                     picotm_error_set_errno(error, EOVERFLOW);
                     return (off_t)-1;
@@ -345,7 +354,7 @@ file_offset_after_lseek(struct regfile_tx* self, int fildes, off_t offset,
                     return (off_t)-1;
                 }
             } else if (offset > 0) {
-                if ((size + offset) < size) {
+                if (offset > (off_t_max() - size)) {
                     /* overflow */
                     picotm_error_set_errno(error, EOVERFLOW);
                     return (off_t)-1;
-- 
2.43.0


From 4bf3ca80a33696a71c94e272370d1eed136a7344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:36 +0000
Subject: [PATCH 81/82] fix: pread, pwrite: report a negative offset to the
 transaction

With a negative offset, the range of the records to lock is bogus: pread()
locked records until it ran out of memory. The error of pwrite() occurred
during the commit, where it cannot be recovered from.
---
 modules/libc/src/fildes/regfile_tx_ops.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/libc/src/fildes/regfile_tx_ops.c b/modules/libc/src/fildes/regfile_tx_ops.c
index 5df3ee9..cee4fff 100644
--- a/modules/libc/src/fildes/regfile_tx_ops.c
+++ b/modules/libc/src/fildes/regfile_tx_ops.c
@@ -587,6 +587,11 @@ pread_exec(struct file_tx* base,
     struct regfile_tx* self = regfile_tx_of_file_tx(base);
     struct seekbuf_tx* seekbuf_tx = self->seekbuf_tx;
 
+    if (offset < 0) {
+        picotm_error_set_errno(error, EINVAL);
+        return -1;
+    }
+
     /* lock region */
     seekbuf_tx_try_rdlock_region(seekbuf_tx, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
@@ -704,6 +709,11 @@ pwrite_exec(struct file_tx* base,
         return -1;
     }
 
+    if (offset < 0) {
+        picotm_error_set_errno(error, EINVAL);
+        return -1;
+    }
+
     /* lock region */
     seekbuf_tx_try_wrlock_region(seekbuf_tx, nbyte, offset, error);
     if (picotm_error_is_set(error)) {
-- 
2.43.0


From 78152a8457ea153db2d4f37ff24b0a52ee4c54f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 82/82] fix: memccpy, memchr: don't access memory behind the
 searched character

Both functions stop at the first occurrence of the character. The buffer
can be shorter than the given limit.
---
 modules/libc/src/string.c | 52 ++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/modules/libc/src/string.c b/modules/libc/src/string.c
index e6244ac..4e9e903 100644
--- a/modules/libc/src/string.c
+++ b/modules/libc/src/string.c
@@ -31,42 +31,32 @@
  * Memory functions
  */
 
+/* Privatizes at most n bytes for loading, up to the first occurrence of c,
+ * and nothing behind it. Returns the number of privatized bytes. */
+static size_t
+privatize_nchr_tx(const void* s, int c, size_t n)
+{
+    const uint8_t* s8 = s;
+
+    for (size_t len = 0; len < n; ++len) {
+        privatize_tx(s8 + len, sizeof(*s8), PICOTM_TM_PRIVATIZE_LOAD);
+        if (s8[len] == (uint8_t)c) {
+            return len + 1;
+        }
+    }
+    return n;
+}
+
 #if defined(PICOTM_LIBC_HAVE_MEMCCPY) && PICOTM_LIBC_HAVE_MEMCCPY
 PICOTM_EXPORT
 void*
 memccpy_tx(void* restrict dest, const void* restrict src, int c, size_t n)
 {
-    uint8_t* dest8 = dest;
+    size_t len = privatize_nchr_tx(src, c, n);
     const uint8_t* src8 = src;
-
-    dest = NULL; /* Return NULL by default */
-
-    while (n) {
-
-        uint8_t buf[32];
-
-        size_t siz = n > sizeof(buf) ? sizeof(buf) : n;
-
-        load_tx(src8, buf, siz);
-
-        for (size_t i = 0; i < siz; ++i) {
-            if (buf[i] == (uint8_t)c) {
-                dest = dest8 + i + 1; /* Return the location after 'c' */
-                siz = i + 1; /* Copy up to and including 'c' */
-                break;
-            }
-        }
-
-        store_tx(dest8, buf, siz);
-
-        if (dest) {
-            break;
-        }
-        dest8 += siz;
-        src8 += siz;
-        n -= siz;
-    }
-    return dest;
+    bool found = len && (src8[len - 1] == (uint8_t)c);
+    store_tx(dest, src, len);
+    return found ? (uint8_t*)dest + len : NULL;
 }
 #endif
 
@@ -75,7 +65,7 @@ PICOTM_EXPORT
 void*
 memchr_tx(const void* s, int c, size_t n)
 {
-    privatize_tx(s, n, PICOTM_TM_PRIVATIZE_LOAD);
+    privatize_nchr_tx(s, c, n);
     return memchr_tm(s, c, n);
 }
 #endif
-- 
2.43.0

