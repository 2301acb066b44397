From 95679c718d2618dae798b8e23f7583ceaa681ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 01/36] verification hooks: FL2_VERIF_HOOKS lowers size
 constants (off by default)

---
 fast-lzma2.h | 6 +++++-
 lzma2_dec.h  | 2 ++
 lzma2_enc.h  | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/fast-lzma2.h b/fast-lzma2.h
index 1ad31fe..82afa11 100644
--- a/fast-lzma2.h
+++ b/fast-lzma2.h
@@ -450,7 +450,11 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressStream(FL2_DStream* fds, FL2_outBuff
  *  the current parameters.
  * *******************************************************************************/
 
-#define FL2_DICTLOG_MIN      20
+#ifdef FL2_VERIF_HOOKS
+#  define FL2_DICTLOG_MIN    12 /* verification builds: small dictionaries make block edges reachable */
+#else
+#  define FL2_DICTLOG_MIN    20
+#endif
 #define FL2_DICTLOG_MAX_32   27
 #define FL2_DICTLOG_MAX_64   30
 #define FL2_DICTLOG_MAX      ((unsigned)(sizeof(size_t) == 4 ? FL2_DICTLOG_MAX_32 : FL2_DICTLOG_MAX_64))
diff --git a/lzma2_dec.h b/lzma2_dec.h
index ba0c2e3..532d00a 100644
--- a/lzma2_dec.h
+++ b/lzma2_dec.h
@@ -211,6 +211,8 @@ typedef struct
 
 #if defined(FL2_DEBUG) && (FL2_DEBUG>=1)
 #  define LZMA2_MT_INPUT_SIZE 0x400
+#elif defined(FL2_VERIF_HOOKS)
+#  define LZMA2_MT_INPUT_SIZE 0x400
 #else
 #  define LZMA2_MT_INPUT_SIZE 0x40000
 #endif
diff --git a/lzma2_enc.h b/lzma2_enc.h
index 6e7dcbb..e28c7e5 100644
--- a/lzma2_enc.h
+++ b/lzma2_enc.h
@@ -19,7 +19,11 @@ extern "C" {
 #define kFastDistBits 12U
 
 #define LZMA2_END_MARKER '\0'
+#ifdef FL2_VERIF_HOOKS
+#define ENC_MIN_BYTES_PER_THREAD 0x400
+#else
 #define ENC_MIN_BYTES_PER_THREAD 0x1C000 /* Enough for 8 threads, 1 Mb dict, 2/16 overlap */
+#endif
 
 
 typedef struct LZMA2_ECtx_s LZMA2_ECtx;
-- 
2.43.0


From 971a6b9a8152f846ff7e19355549b44101b2d7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 02/36] fix: match finder read past the end of the input when
 extending a long repeat

RMF_handleRepeat extended the repeat up to the maximum length of the table type, which
is more than the search depth the block end margin is made for, without regard to the end
of the data.
---
 radix_engine.h   |  1 +
 radix_internal.h |  1 +
 radix_mf.c       | 13 ++++++++-----
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/radix_engine.h b/radix_engine.h
index 7bccaab..1ced029 100644
--- a/radix_engine.h
+++ b/radix_engine.h
@@ -935,6 +935,7 @@ RMF_structuredBuildTable
     unsigned const max_depth = MIN(tbl->params.depth, STRUCTURED_MAX_LENGTH) & ~1;
     size_t bounded_start = max_depth + MAX_READ_BEYOND_DEPTH;
     bounded_start = block.end - MIN(block.end, bounded_start);
+    tbl->builders[job]->data_end = block.end;
     ptrdiff_t next_progress = (job == 0) ? 0 : RADIX16_TABLE_SIZE;
     ptrdiff_t(*getNextList)(FL2_matchTable* const tbl)
         = multi_thread ? RMF_getNextList_mt : RMF_getNextList_st;
diff --git a/radix_internal.h b/radix_internal.h
index 9bede0c..07cd164 100644
--- a/radix_internal.h
+++ b/radix_internal.h
@@ -80,6 +80,7 @@ typedef struct
 typedef struct
 {
     unsigned max_len;
+    size_t data_end;
     U32* table;
     size_t match_buffer_size;
     size_t match_buffer_limit;
diff --git a/radix_mf.c b/radix_mf.c
index 346f894..77e56c9 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -292,15 +292,18 @@ static void RMF_handleRepeat(RMF_buildMatch* const match_buffer,
     U32 count,
     U32 const rpt_len,
     U32 const depth,
-    U32 const max_len)
+    U32 const max_len,
+    size_t const data_end)
 {
     size_t pos = next;
     U32 length = depth + rpt_len;
 
     const BYTE* const data = data_block + match_buffer[pos].from;
     const BYTE* const data_2 = data - rpt_len;
+    /* Don't read past the end of the data */
+    size_t const limit = MIN(max_len, data_end - match_buffer[pos].from);
 
-    while (data[length] == data_2[length] && length < max_len)
+    while (length < limit && data[length] == data_2[length])
         ++length;
 
     for (; length <= max_len && count; --count) {
@@ -559,7 +562,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                 size_t const next_link = tbl->match_buffer[next_index].from;
                 if ((link - next_link) > rpt_depth) {
                     if (rpt > 0)
-                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len, tbl->data_end);
 
                     rpt = -1;
                     U32 const prev = tbl->tails_8[radix_8].prev_index;
@@ -581,7 +584,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                     U32 const dist = (U32)(link - next_link);
                     if (rpt < 0 || dist != rpt_dist) {
                         if (rpt > 0)
-                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len, tbl->data_end);
 
                         rpt = 0;
                         rpt_head_next = next_index;
@@ -608,7 +611,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
             } while (--list_count != 0);
 
             if (rpt > 0)
-                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len, tbl->data_end);
 
             size_t const radix_8 = tbl->match_buffer[pos].src.chars[slot];
             U32 const prev = tbl->tails_8[radix_8].prev_index;
-- 
2.43.0


From 800f9ee2ae731ca00c586a18fe2d3e5f301e79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 03/36] verification hooks: match buffer size for small
 dictionaries

---
 radix_mf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/radix_mf.c b/radix_mf.c
index 77e56c9..d1f62b7 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -22,7 +22,11 @@
 #  pragma warning(disable : 4701) /* warning: 'rpt_head_next' may be used uninitialized in this function */
 #endif
 
+#ifdef FL2_VERIF_HOOKS
+#define MATCH_BUFFER_SHIFT 2; /* smaller dictionaries need the same minimum buffer */
+#else
 #define MATCH_BUFFER_SHIFT 8;
+#endif
 #define MATCH_BUFFER_ELBOW_BITS 17
 #define MATCH_BUFFER_ELBOW (1UL << MATCH_BUFFER_ELBOW_BITS)
 #define MIN_MATCH_BUFFER_SIZE 256U /* min buffer size at least FL2_SEARCH_DEPTH_MAX + 2 for bounded build */
-- 
2.43.0


From ddfa903e7749f15c6e395b68b80c40148991fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 04/36] fix: timed wait on a thread pool reported completion
 before a queued job had started

FL2POOL_waitAll() computed its result outside the lock from the busy count only. When the
time limit passed before a worker took the job from the queue it returned 0, and the caller
went on to use data the job had yet to process.
---
 fl2_pool.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fl2_pool.c b/fl2_pool.c
index 8f90b44..f99ceda 100644
--- a/fl2_pool.c
+++ b/fl2_pool.c
@@ -174,7 +174,7 @@ void FL2POOL_add(void* ctxVoid, FL2POOL_function function, void *opaque, ptrdiff
 int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
 {
     FL2POOL_ctx* const ctx = (FL2POOL_ctx*)ctxVoid;
-    if (!ctx || (!ctx->numThreadsBusy && ctx->queueIndex >= ctx->queueEnd) || ctx->shutdown) { return 0; }
+    if (!ctx) { return 0; }
 
     FL2_pthread_mutex_lock(&ctx->queueMutex);
     /* Need to test for ctx->queueIndex < ctx->queueEnd in case not all jobs have started */
@@ -186,8 +186,9 @@ int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
         while ((ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown)
             FL2_pthread_cond_wait(&ctx->busyCond, &ctx->queueMutex);
     }
+    int const unfinished = (ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown;
     FL2_pthread_mutex_unlock(&ctx->queueMutex);
-    return ctx->numThreadsBusy && !ctx->shutdown;
+    return unfinished;
 }
 
 size_t FL2POOL_threadsBusy(void * ctx)
-- 
2.43.0


From e6e1a427e4def3e9538f8ef9589d1237f40211d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 05/36] fix: FL2_remainingOutputSize() counted output already
 copied to the caller

---
 fl2_compress.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0ffeab0..d10d8b4 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1124,6 +1124,10 @@ FL2LIB_API size_t FL2LIB_CALL FL2_remainingOutputSize(const FL2_CStream* fcs)
     for (size_t u = fcs->outThread; u < fcs->threadCount; ++u)
         cSize += fcs->jobs[u].cSize;
 
+    /* Exclude the part of the current slice already copied out */
+    if (fcs->outThread < fcs->threadCount)
+        cSize -= fcs->outPos;
+
     return cSize;
 }
 
-- 
2.43.0


From f6b43e9e54546ee4925efb1f1dee7b0fe6d1bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 06/36] fix: one-shot compression of empty input wrote a
 property byte when properties are omitted

It also wrote 2 bytes to a 1-byte destination.
---
 fl2_compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index d10d8b4..d57df39 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -572,7 +572,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if(dstBuf >= end)
         return FL2_ERROR(dstSize_tooSmall);
 
-    if (cSize == 0)
+    if (cSize == 0 && !cctx->params.omitProp)
         *dstBuf++ = FL2_getProp(cctx, 0);
 
     *dstBuf++ = LZMA2_END_MARKER;
-- 
2.43.0


From fbe0b8b1afe8a9ef9fc66ef3ac8067453c0c20ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 07/36] fix: FL2_flushStream() reported completion before the
 data was compressed in asynchronous mode

It returned 0 directly after starting the background compression, and also when earlier
output was drained by the call but input in the dictionary remained.
---
 fl2_compress.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index d57df39..cd46ffa 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1202,9 +1202,13 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
     size_t res = FL2_flushStream_internal(fcs, 0);
     CHECK_F(res);
 
+    /* The flush is incomplete while compression continues in the background */
+    res = FL2_waitCStream(fcs);
+    CHECK_F(res);
+
     if (output != NULL && res != 0) {
         FL2_copyCStreamOutput(fcs, output);
-        res = fcs->outThread < fcs->threadCount;
+        res = fcs->outThread < fcs->threadCount || DICT_hasUnprocessed(&fcs->buf);
     }
 
     CHECK_F(FL2_loopCheck(fcs, output != NULL && prevOut == output->pos));
-- 
2.43.0


From 7a5f8220e40c70b39545dd7a2e65db09e9a53a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 08/36] fix: leak when the dual buffer thread cannot be created

FL2_createCStreamMt() returned NULL without freeing the context and its
thread pool.
---
 fl2_compress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index cd46ffa..3e52c5e 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -164,8 +164,10 @@ static FL2_CCtx* FL2_createCCtx_internal(unsigned nbThreads, int const dualBuffe
     }
     if (dualBuffer) {
       cctx->compressThread = FL2POOL_create(1);
-      if (cctx->compressThread == NULL)
+      if (cctx->compressThread == NULL) {
+        FL2_freeCCtx(cctx);
         return NULL;
+      }
     }
 #endif
 
-- 
2.43.0


From 0799faa3df76f0ce6d057b9f83a0c34bc58a2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 09/36] fix: one-shot compression after an unfinished stream or
 an error

FL2_compressCCtx() applied the level while the parameters were still locked
by an unfinished stream, so the level was silently ignored, and dropped the
compression thread while a job could still be queued on it. When it failed
it left the parameters locked.
---
 fl2_compress.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 3e52c5e..0560efc 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -547,6 +547,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if (dstCapacity < 2U - cctx->params.omitProp) /* empty LZMA2 stream is byte sequence {0, 0} */
         return FL2_ERROR(dstSize_tooSmall);
 
+    /* End any streaming operation. It may be running in the compression thread, and the parameters are locked. */
+    FL2_cancelCStream(cctx);
+
     if (compressionLevel > 0)
         FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, compressionLevel);
 
@@ -564,6 +567,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
 
     size_t const cSize = FL2_compressBuffer(cctx, src, srcSize, dst, dstCapacity);
 
+    /* Unlock the parameters even if compression failed */
+    FL2_endFrame(cctx);
+
     if (FL2_isError(cSize))
         return cSize;
 
@@ -591,8 +597,6 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     }
 #endif
     
-    FL2_endFrame(cctx);
-
     return dstBuf - (BYTE*)dst;
 }
 
-- 
2.43.0


From 4c17a7cecbd193a8b2780f83c4bdcdae7cedfa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 10/36] fix: FL2_initCStream() while the previous stream is
 unfinished

The compression thread could still be using the dictionary buffers and
match table freed or reset by initialisation, the level was ignored because
the parameters were locked, and after a failed initialisation the stream
still counted as initialised and referred to output in a freed match table.
---
 fl2_compress.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0560efc..af4912e 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -436,6 +436,13 @@ static BYTE FL2_getProp(FL2_CCtx* const cctx, size_t const dictionarySize)
 
 static void FL2_preBeginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
 {
+    /* Discard any remaining output and progress. Both depend on the match table. */
+    cctx->outThread = 0;
+    cctx->threadCount = 0;
+    cctx->outPos = 0;
+    cctx->curBlock.start = 0;
+    cctx->curBlock.end = 0;
+
     /* Free unsuitable match table before reallocating anything else */
     if (cctx->matchTable && !RMF_compatibleParameters(cctx->matchTable, &cctx->params.rParams, dictReduce)) {
         RMF_freeMatchTable(cctx->matchTable);
@@ -861,6 +868,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_initCStream(FL2_CStream* fcs, int compressionL
 {
     DEBUGLOG(4, "FL2_initCStream level %d", compressionLevel);
 
+    /* End any operation in progress. It uses the buffers being reset here, and the parameters are locked. */
+    FL2_cancelCStream(fcs);
+
     fcs->endMarked = 0;
     fcs->wroteProp = 0;
     fcs->loopCount = 0;
-- 
2.43.0


From 908549f83271882e2987da6a86e4b988b75c96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 11/36] fix: cancelling a match table build left stale list
 heads

Thread 0 reset the list heads while the other threads could still be
reading them, and not at all if the cancel came just after its own check
but stopped other threads. The next stream was then built from lists of
the cancelled one.
---
 fl2_compress.c | 5 ++++-
 radix_mf.c     | 7 ++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index af4912e..961a059 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -316,8 +316,11 @@ static size_t FL2_compressCurBlock_blocking(FL2_CCtx* const cctx, int const stre
 
     FL2POOL_waitAll(cctx->factory, 0);
 
-    if (err)
+    /* If canceled, the other threads may have stopped even if this one did not */
+    if (err || cctx->canceled) {
+        RMF_resetIncompleteBuild(cctx->matchTable);
         return FL2_ERROR(canceled);
+    }
 
 #ifdef RMF_CHECK_INTEGRITY
     err = RMF_integrityCheck(cctx->matchTable, cctx->curBlock.data, cctx->curBlock.start, cctx->curBlock.end, cctx->params.rParams.depth);
diff --git a/radix_mf.c b/radix_mf.c
index d1f62b7..209a6c7 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -692,11 +692,8 @@ int RMF_buildTable(FL2_matchTable* const tbl,
     else
         RMF_bitpackBuildTable(tbl, job, multi_thread, block);
 
-    if (job == 0 && tbl->st_index >= RADIX_CANCEL_INDEX) {
-        RMF_initListHeads(tbl);
-        return 1;
-    }
-    return 0;
+    /* The caller must reset the table after a cancel, when all threads have stopped using it */
+    return job == 0 && tbl->st_index >= RADIX_CANCEL_INDEX;
 }
 
 void RMF_cancelBuild(FL2_matchTable * const tbl)
-- 
2.43.0


From 4e2df4369f0b785a97fdd81c7c17b1f3a2b95dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 12/36] fix: FL2_estimateCStreamSize() for level 0 and invalid
 levels, and before init

Level 0 (default) omitted the dictionary buffers, an invalid level indexed
the level table out of range and added to an error code, and the estimate
for an existing CStream omitted the buffers which are not yet allocated.
---
 fl2_compress.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 961a059..80d3253 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1320,8 +1320,12 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCCtxSize_usingCCtx(const FL2_CCtx * cc
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize(int compressionLevel, unsigned nbThreads, int dualBuffer)
 {
-    return FL2_estimateCCtxSize(compressionLevel, nbThreads)
-        + (FL2_defaultCParameters[compressionLevel].dictionarySize << (dualBuffer != 0));
+    if (compressionLevel == 0)
+        compressionLevel = FL2_CLEVEL_DEFAULT;
+
+    CLAMPCHECK(compressionLevel, 1, FL2_MAX_CLEVEL);
+
+    return FL2_estimateCStreamSize_byParams(FL2_defaultCParameters + compressionLevel, nbThreads, dualBuffer);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_byParams(const FL2_compressionParameters * params, unsigned nbThreads, int dualBuffer)
@@ -1332,5 +1336,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_byParams(const FL2_compres
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_usingCStream(const FL2_CStream* fcs)
 {
-    return FL2_estimateCCtxSize_usingCCtx(fcs);
+    /* The dictionary buffers are allocated on initialization */
+    size_t const dictSize = fcs->params.rParams.dictionary_size << DICT_async(&fcs->buf);
+    size_t const allocated = DICT_memUsage(&fcs->buf);
+
+    return FL2_estimateCCtxSize_usingCCtx(fcs) + ((dictSize > allocated) ? dictSize - allocated : 0);
 }
-- 
2.43.0


From d3968650a7edce451345299d47de5cf25812c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 13/36] fix: crash after the match table builders could not be
 allocated

The result of RMF_applyParameters was ignored, and compression went on
without builders.
---
 fl2_compress.c | 2 +-
 radix_mf.c     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 80d3253..4fbf58f 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -465,7 +465,7 @@ static size_t FL2_beginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
     }
     else {
         DEBUGLOG(5, "Have compatible match table");
-        RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce);
+        CHECK_F(RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce));
     }
 
     cctx->dictMax = 0;
diff --git a/radix_mf.c b/radix_mf.c
index 209a6c7..a61a863 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -232,7 +232,10 @@ FL2_matchTable* RMF_createMatchTable(const RMF_parameters* const p, size_t const
     tbl->unreduced_dict_size = unreduced_dict_size;
     tbl->builders = NULL;
 
-    RMF_applyParameters_internal(tbl, &params);
+    if (FL2_isError(RMF_applyParameters_internal(tbl, &params))) {
+        RMF_freeMatchTable(tbl);
+        return NULL;
+    }
 
     RMF_initListHeads(tbl);
 
-- 
2.43.0


From bf0651befe87428190656fbf7527619c63e40d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 14/36] fix: use after free when a CStream is freed during
 background compression

---
 fl2_compress.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 4fbf58f..44dcd29 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -205,6 +205,9 @@ FL2LIB_API void FL2LIB_CALL FL2_freeCCtx(FL2_CCtx* cctx)
 
     DEBUGLOG(3, "FL2_freeCCtx : %u threads", cctx->jobCount);
 
+    /* The compression thread may still be using the objects freed here */
+    FL2_cancelCStream(cctx);
+
     DICT_destruct(&cctx->buf);
 
     for (unsigned u = 0; u < cctx->jobCount; ++u) {
-- 
2.43.0


From ec7748dd0458e978316416606bb7a9e905fd3fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 15/36] fix: null pointer write in the encoder after a failed
 hash chain allocation

The hash was recorded as allocated, so a later compression with the same
object used it.
---
 lzma2_enc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index da2e09b..5d92a43 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -852,8 +852,10 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
     enc->hash_alloc_3 = (ptrdiff_t)1 << dictionary_bits_3;
     enc->hash_buf = malloc(sizeof(LZMA2_hc3) + (enc->hash_alloc_3 - 1) * sizeof(S32));
 
-    if (enc->hash_buf == NULL)
+    if (enc->hash_buf == NULL) {
+        enc->hash_alloc_3 = 0;
         return 1;
+    }
 
     LZMA_hashReset(enc, dictionary_bits_3);
 
-- 
2.43.0


From 8930e72cf6357f471a340744a5702da8dd50fa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 16/36] fix: FL2_cancelDStream() with a time limit

It dereferenced the null MT object of a single-threaded DStream, and when
called for lack of progress from the decompression thread itself, it waited
for that thread forever.
---
 fl2_decompress.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 048b03c..d9f035c 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1140,11 +1140,13 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
 {
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        fds->decmt->canceled = 1;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 1;
 
         FL2POOL_waitAll(fds->decompressThread, 0);
 
-        fds->decmt->canceled = 0;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 0;
     }
     FL2_lzma2DecMt_cleanup(fds->decmt);
 #endif
@@ -1251,7 +1253,10 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         /* No progress was made */
         ++fds->loopCount;
         if (fds->loopCount > 2) {
-            FL2_cancelDStream(fds);
+#ifndef FL2_SINGLETHREAD
+            /* This may be running in decompressThread, so don't wait for it */
+            FL2_lzma2DecMt_cleanup(decmt);
+#endif
             return FL2_ERROR(buffer);
         }
     }
-- 
2.43.0


From 5f3fbaf94cac0d4d7a9216983822a388e6e7c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 17/36] fix: MT decompression read the property byte from an
 empty input buffer

---
 fl2_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index d9f035c..a58c58d 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1200,7 +1200,7 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
 
     if (input->pos < input->size
 #ifndef FL2_SINGLETHREAD
-        || decmt
+        || (decmt && fds->stage != FL2DEC_STAGE_INIT)
 #endif
         ) {
         if (fds->stage == FL2DEC_STAGE_INIT) {
-- 
2.43.0


From d3967d48d4b6a2c414d046f518f8723cc025e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 18/36] fix: streaming decompression ignored failure to
 initialize the decoder

After an invalid property byte or an allocation failure it went on with an
uninitialized decoder or a null hash state.
---
 fl2_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index a58c58d..15d00f7 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1205,8 +1205,8 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         ) {
         if (fds->stage == FL2DEC_STAGE_INIT) {
             BYTE prop = ((const BYTE*)input->src)[input->pos];
+            CHECK_F(FL2_initDStream_prop(fds, prop));
             ++input->pos;
-            FL2_initDStream_prop(fds, prop);
             fds->stage = FL2DEC_STAGE_DECOMP;
         }
 #ifndef FL2_SINGLETHREAD
-- 
2.43.0


From a0d05a122d891bc18d918eee5cc5ed349880ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 19/36] fix: FL2_decompress() of an empty buffer read out of
 bounds

---
 fl2_decompress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 15d00f7..aad7ceb 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -320,6 +320,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressDCtx(FL2_DCtx* dctx,
     const BYTE *srcBuf = src;
 
     if (prop == LZMA2_PROP_UNINITIALIZED) {
+        if (srcSize == 0)
+            return FL2_ERROR(srcSize_wrong);
         prop = *(const BYTE*)src;
         ++srcBuf;
         --srcSize;
-- 
2.43.0


From 71d36a1b9ad535ad35c38a60944b4e97cdf485f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 20/36] fix: decoder accepted a chunk without properties after
 a dictionary reset

The first LZMA chunk after a reset must set the properties. The decoder
went on with those of earlier data, or with an uninitialized value.
---
 lzma2_dec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 80bfcd7..de82a60 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1061,12 +1061,14 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             unsigned const mode = LZMA2_GET_LZMA_MODE(p->control);
             BYTE const init_dic = (mode == 3);
             BYTE const init_state = (mode != 0);
-            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2))
+            BYTE const init_prop = (mode >= 2);
+            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2) || (!init_prop && p->need_init_prop))
                 return FL2_ERROR(corruption_detected);
 
             LZMA_initDicAndState(p, init_dic, init_state);
             p->need_init_dic = 0;
             p->need_init_state2 = 0;
+            p->need_init_prop = 0;
         }
     }
     if (p->state2 == LZMA2_STATE_DATA) {
-- 
2.43.0


From 9a51a2a6394a31bbe02d932f0d2739a1b4eec65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 21/36] fix: decoder accepted chunks whose packed size is wrong

If the output of a chunk was complete before the end of its packed data,
the rest was decoded as chunk headers. If the packed size was less than
the range coder's initial 5 bytes, the decoder asked for more input
forever, and MT decompression never returned.
---
 lzma2_dec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index de82a60..8d54d29 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -1117,15 +1117,15 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             if (FL2_isError(res))
                 return res;
 
-            /* error if decoder not finished but chunk output is complete */
-            if (res != LZMA_STATUS_FINISHED && p->unpack_size == 0)
+            /* error if decoder not finished or input remains, but chunk output is complete */
+            if (p->unpack_size == 0 && (res != LZMA_STATUS_FINISHED || p->pack_size != 0))
                 return FL2_ERROR(corruption_detected);
 
             /* Error conditions:
                1. need input but chunk is finished
                2. have output space, input not needed, but nothing was written*/
             if (res == LZMA_STATUS_NEEDS_MORE_INPUT)
-                return (p->pack_size == 0) ? FL2_ERROR(corruption_detected) : res;
+                return (cur_finish_mode == LZMA_FINISH_END) ? FL2_ERROR(corruption_detected) : res;
             else if (in_cur == 0 && p->dic_pos == dic_pos)
                 return FL2_ERROR(corruption_detected);
         }
-- 
2.43.0


From 80d80c0afca8a87b83a13267e2abcf16b2e4a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 22/36] fix: MT decompression did not check that each block was
 completely decoded

---
 fl2_decompress.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index aad7ceb..02961fe 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -176,8 +176,12 @@ static void FL2_decompressCtxBlock(void* const jobDescription, ptrdiff_t const n
     blocks[n].res = LZMA2_decodeToDic(blocks[n].dec, blocks[n].unpackSize, blocks[n].src, &srcLen, blocks[n].finish);
 
     /* If no error occurred, store into res the dic_pos value, which is the end of the decompressed data in the buffer */
-    if (!FL2_isError(blocks[n].res))
-        blocks[n].res = blocks[n].dec->dic_pos;
+    if (!FL2_isError(blocks[n].res)) {
+        if (srcLen == blocks[n].packSize && blocks[n].dec->dic_pos == blocks[n].unpackSize)
+            blocks[n].res = blocks[n].dec->dic_pos;
+        else /* incomplete */
+            blocks[n].res = FL2_ERROR(corruption_detected);
+    }
 }
 
 static size_t FL2_decompressCtxBlocksMt(FL2_DCtx* const dctx, const BYTE *const src, BYTE *const dst, size_t const dstCapacity, size_t const nbThreads)
@@ -750,8 +754,12 @@ static size_t FL2_decompressBlockMt(FL2_DStream* const fds, size_t const thread)
         if (res == LZMA_STATUS_FINISHED)
             DEBUGLOG(4, "Found end mark");
 
-        if (cur == ti->inBlock.last)
+        if (cur == ti->inBlock.last) {
+            /* Must be complete if no error occurred */
+            if (dec->dic_pos != ti->bufSize || (last && res != LZMA_STATUS_FINISHED))
+                return FL2_ERROR(corruption_detected);
             break;
+        }
 
         /* Advance the position and switch to the next input buffer in the chain if necessary */
         inPos += srcSize;
-- 
2.43.0


From 0d29d637604cfcc5ce0bed807780fbde4d2d74d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 23/36] fix: dictionary property 40 (4 GB - 1) was treated as
 an error code

---
 lzma2_dec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 8d54d29..75af6bc 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -910,7 +910,7 @@ size_t LZMA2_getDictSizeFromProp(BYTE const dict_prop)
         return FL2_ERROR(corruption_detected);
 
     size_t const dict_size = (dict_prop == 40)
-        ? (size_t)-1
+        ? 0xFFFFFFFFU
         : (((size_t)2 | (dict_prop & 1)) << (dict_prop / 2 + 11));
     return dict_size;
 }
-- 
2.43.0


From 7b7d9f12dfaf38b46577879f7eef36b4d5caa707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 24/36] fix: memory total underflow when a DStream is reused
 before it finished

Buffers left from the previous stream were subtracted after the total was
zeroed, so the next stream always exceeded the memory limit.
---
 fl2_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 02961fe..80c545c 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -602,9 +602,9 @@ static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
         decmt->failState = 0;
         decmt->isFinal = 0;
         decmt->canceled = 0;
-        decmt->memTotal = 0;
         FL2_freeOutputBuffers(decmt);
         LZMA2_freeExtraInbufNodes(decmt);
+        decmt->memTotal = 0;
         decmt->threads[0].inBlock.first = decmt->head;
         decmt->threads[0].inBlock.last = decmt->head;
         decmt->threads[0].inBlock.startPos = 0;
-- 
2.43.0


From 2dd864a82ad3cecfbbbe665ed40280172f90d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 25/36] fix: use after free if FL2_decompressStream() is called
 again after an error

After MT decompression failed or was cancelled, the first block still
referred to the freed input buffers.
---
 fl2_decompress.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 80c545c..bf5b54a 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -577,13 +577,6 @@ static void FL2_freeOutputBuffers(FL2_decMt *const decmt)
     decmt->numThreads = 0;
 }
 
-static void FL2_lzma2DecMt_cleanup(FL2_decMt *const decmt)
-{
-    if (decmt) {
-        FL2_freeOutputBuffers(decmt);
-        LZMA2_freeExtraInbufNodes(decmt);
-    }
-}
 
 static void FL2_lzma2DecMt_free(FL2_decMt *const decmt)
 {
@@ -595,16 +588,12 @@ static void FL2_lzma2DecMt_free(FL2_decMt *const decmt)
     }
 }
 
-static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
+static void FL2_lzma2DecMt_cleanup(FL2_decMt *const decmt)
 {
     if (decmt) {
-        decmt->cur = NULL;
-        decmt->failState = 0;
-        decmt->isFinal = 0;
-        decmt->canceled = 0;
         FL2_freeOutputBuffers(decmt);
         LZMA2_freeExtraInbufNodes(decmt);
-        decmt->memTotal = 0;
+        /* Only the empty head remains */
         decmt->threads[0].inBlock.first = decmt->head;
         decmt->threads[0].inBlock.last = decmt->head;
         decmt->threads[0].inBlock.startPos = 0;
@@ -613,6 +602,18 @@ static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
     }
 }
 
+static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
+{
+    if (decmt) {
+        decmt->cur = NULL;
+        decmt->failState = 0;
+        decmt->isFinal = 0;
+        decmt->canceled = 0;
+        FL2_lzma2DecMt_cleanup(decmt);
+        decmt->memTotal = 0;
+    }
+}
+
 static int FL2_lzma2DecMt_initProp(FL2_decMt *const decmt, BYTE prop)
 {
     decmt->prop = prop;
-- 
2.43.0


From ee8da4a38b9c004d03996d2775bfa66004c75f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 26/36] fix: MT decompression could rewind the input to before
 the start of the call

Part of a chunk header consumed by an earlier call was given back to the
caller, whose buffer may by then hold something else.
---
 fl2_decompress.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index bf5b54a..7205946 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -893,6 +893,8 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
 {
     FL2_decBlock *inBlock = &decmt->threads[decmt->numThreads].inBlock;
     LZMA2_parseRes res = CHUNK_CONTINUE;
+    /* Input before this position was consumed earlier and may no longer be in the caller's buffer */
+    size_t const startPos = input->pos;
     /* Continue while input is available or the parse pos is not beyond the end */
     while (input->pos < input->size || inBlock->endPos < inBlock->last->length) {
         if (inBlock->endPos < inBlock->last->length) {
@@ -909,7 +911,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
                 if (end != 0) {
                     inBlock = &decmt->threads[decmt->numThreads - 1].inBlock;
                     /* rewind input in case data beyond terminator was read. Required for xxhash and container formats */
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - startPos, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                     return end;
@@ -922,7 +924,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
             FL2_decInbuf *const next = FL2_createInbufNode(decmt, inBlock->last);
             if (next == NULL) {
                 if (inBlock->endPos < inBlock->last->length) {
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - startPos, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                 }
-- 
2.43.0


From 2b098bf300f29a47768d52752f0b93e27e992f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 27/36] fix: use after free when a DStream is freed during
 background decompression

---
 fl2_decompress.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 7205946..ddcc7e1 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1082,9 +1082,12 @@ FL2LIB_API size_t FL2LIB_CALL FL2_freeDStream(FL2_DStream* fds)
 {
     if (fds != NULL) {
         DEBUGLOG(3, "FL2_freeDStream");
-        LZMA_destructDCtx(&fds->dec);
 #ifndef FL2_SINGLETHREAD
+        /* This may still be using the objects freed below */
         FL2POOL_free(fds->decompressThread);
+#endif
+        LZMA_destructDCtx(&fds->dec);
+#ifndef FL2_SINGLETHREAD
         FL2_lzma2DecMt_free(fds->decmt);
 #endif
 #ifndef NO_XXHASH
-- 
2.43.0


From 1e771152f093205dd9366f2a8f0fbadc6efe9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 28/36] fix: FL2_getDictSizeFromProp() rejected the property
 byte of streams with a checksum

---
 fl2_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index ddcc7e1..d4eda65 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -34,7 +34,7 @@ FL2LIB_API unsigned long long FL2LIB_CALL FL2_findDecompressedSize(const void *s
 
 FL2LIB_API size_t FL2LIB_CALL FL2_getDictSizeFromProp(unsigned char prop)
 {
-    return LZMA2_getDictSizeFromProp(prop);
+    return LZMA2_getDictSizeFromProp(prop & FL2_LZMA_PROP_MASK);
 }
 
 typedef struct
-- 
2.43.0


From cd5978a4e3e36d7a7dc6e6a17f006c5a000fcf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:20 +0000
Subject: [PATCH 29/36] fix: the decoder read past the end of the input if a
 chunk's packed size was too small

---
 lzma2_dec.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 75af6bc..0b64b16 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -862,21 +862,31 @@ static size_t LZMA_decodeToDic(LZMA2_DCtx *const p, size_t const dic_limit, cons
         if (p->need_init_state)
             LZMA_initStateReal(p);
 
-        const BYTE *buf_limit;
-        if (finish_mode == LZMA_FINISH_END) {
-            buf_limit = src + in_size;
-        }
-        else {
-            if (in_size <= LZMA_REQUIRED_INPUT_MAX) {
-                return LZMA_STATUS_NEEDS_MORE_INPUT;
-            }
-            buf_limit = src + in_size - LZMA_REQUIRED_INPUT_MAX;
+        size_t processed;
+        if (in_size > LZMA_REQUIRED_INPUT_MAX) {
+            p->buf = src;
+
+            CHECK_F(LZMA_decodeReal2(p, dic_limit, src + in_size - LZMA_REQUIRED_INPUT_MAX));
+
+            processed = (size_t)(p->buf - src);
         }
-        p->buf = src;
+        else if (finish_mode == LZMA_FINISH_END) {
+            /* If the data is corrupt a symbol may extend beyond the end, so decode the last bytes from a padded copy */
+            BYTE tail[LZMA_REQUIRED_INPUT_MAX * 2];
 
-        CHECK_F(LZMA_decodeReal2(p, dic_limit, buf_limit));
+            memcpy(tail, src, in_size);
+            memset(tail + in_size, 0, sizeof(tail) - in_size);
+            p->buf = tail;
 
-        size_t const processed = (size_t)(p->buf - src);
+            CHECK_F(LZMA_decodeReal2(p, dic_limit, tail + in_size));
+
+            processed = (size_t)(p->buf - tail);
+            if (processed > in_size)
+                return FL2_ERROR(corruption_detected);
+        }
+        else {
+            return LZMA_STATUS_NEEDS_MORE_INPUT;
+        }
         (*src_len) += processed;
         src += processed;
         in_size -= processed;
-- 
2.43.0


From e32a8ea4525ee959fb6f2cb17c96cccd3b68a9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 30/36] fix: memory estimates left out the match table's list
 heads and stack (768 KB)

---
 radix_mf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix_mf.c b/radix_mf.c
index a61a863..97f9292 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -736,7 +736,7 @@ BYTE* RMF_getTableAsOutputBuffer(FL2_matchTable* const tbl, size_t const pos)
 
 size_t RMF_memoryUsage(size_t const dict_size, unsigned const buffer_resize, unsigned const thread_count)
 {
-    size_t size = (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
+    size_t size = sizeof(FL2_matchTable) + (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
     size_t const buf_size = RMF_calBufSize(dict_size, buffer_resize);
     size += ((buf_size - 1) * sizeof(RMF_buildMatch) + sizeof(RMF_builder)) * thread_count;
     return size;
-- 
2.43.0


From 284281b709ce70f57dfa0fc47a829b3542548c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 31/36] fix: the encoder's hash chain was allocated for the
 strategy of the previous use

---
 lzma2_enc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index 5d92a43..93ac6c8 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -868,7 +868,7 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
  */
 int LZMA2_hashAlloc(LZMA2_ECtx *const enc, const FL2_lzma2Parameters* const options)
 {
-    if (enc->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
+    if (options->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
         return LZMA_hashCreate(enc, options->second_dict_bits);
 
     return 0;
-- 
2.43.0


From 4790e4b499a0662c4e732f1016d1b385f6a7a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 32/36] fix: endless loop in the encoder if a 2-byte repeat
 began before the block

RMF_handleRepeat2() set no matches at all if the repeat began in the overlap
region, leaving entries of length 0 in the table. RMF_bitpackExtendMatch()
never advances on those. RMF_handleRepeat() has the correct test.
---
 radix_engine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix_engine.h b/radix_engine.h
index 1ced029..4fc1347 100644
--- a/radix_engine.h
+++ b/radix_engine.h
@@ -60,7 +60,7 @@ static size_t RMF_handleRepeat2(RMF_builder* const tbl, const BYTE* const data_b
 
     ptrdiff_t const rpt_index = i;
     /* No point if it's in the overlap region */
-    if (i >= (ptrdiff_t)start) {
+    if (last_2 >= (ptrdiff_t)start) {
         U32 len = depth + (data_block[last_2 + depth] == data_block[last_2]);
         /* Set matches at distance 2 and available length */
         for (i = last_2; i > rpt_index && len <= RADIX_MAX_LENGTH; i -= 2) {
-- 
2.43.0


From 71fdeecdf9e191ae14c64acf1548b839974be380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 33/36] verification hook: structured match tables for small
 dictionaries (FL2_VERIF_HOOKS >= 2)

---
 radix_mf.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/radix_mf.c b/radix_mf.c
index 97f9292..9dce372 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -103,9 +103,15 @@ static RMF_builder** RMF_createBuilderTable(U32* const match_table, size_t const
     return builders;
 }
 
+#if defined(FL2_VERIF_HOOKS) && FL2_VERIF_HOOKS >= 2
+#define STRUCT_DICTIONARY_MIN ((size_t)5500) /* verification builds: structured tables with small dictionaries */
+#else
+#define STRUCT_DICTIONARY_MIN ((size_t)1 << RADIX_LINK_BITS)
+#endif
+
 static int RMF_isStruct(size_t const dictionary_size)
 {
-    return dictionary_size > ((size_t)1 << RADIX_LINK_BITS);
+    return dictionary_size > STRUCT_DICTIONARY_MIN;
 }
 
 /* RMF_clampParams() :
-- 
2.43.0


From 616b84c575f3b94e8cb04c6d7ff2298d0f1f0a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 34/36] fix: single-threaded fail-over of the decompression
 stream skips buffers too short for any output

A call with both input and output space returned without moving either
when the loaded input buffer ended within a chunk header.
---
 fl2_decompress.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index d4eda65..acc425d 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -978,6 +978,8 @@ static size_t FL2_decompressFailedMt(FL2_DStream* const fds, FL2_outBuffer* cons
     temp.pos = decmt->curPos;
     temp.size = cur->length;
 
+    size_t const prevOut = output->pos;
+
     CHECK_F(FL2_decompressInput(fds, output, &temp));
 
     decmt->curPos = temp.pos;
@@ -994,6 +996,9 @@ static size_t FL2_decompressFailedMt(FL2_DStream* const fds, FL2_outBuffer* cons
             decmt->curPos -= cur->length - LZMA_REQUIRED_INPUT_MAX;
             decmt->cur = cur->next;
         }
+        /* The buffer held too little to decompress anything. Go on, or the call may make no progress. */
+        if (output->pos == prevOut && fds->stage == FL2DEC_STAGE_DECOMP)
+            return FL2_decompressFailedMt(fds, output, input);
     }
 
     return FL2_error_no_error;
-- 
2.43.0


From b1d1be551c48aaf55ff7ca086ead8cf0c6b99221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 35/36] fix: count of physical cores exposed before it is final
 to other threads

---
 util.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/util.c b/util.c
index d646606..d26ec93 100644
--- a/util.c
+++ b/util.c
@@ -582,12 +582,14 @@ int UTIL_countPhysicalCores(void)
  * otherwise fall back on sysconf */
 int UTIL_countPhysicalCores(void)
 {
+    /* Only the final value may be stored because other threads can be reading it */
     static int numPhysicalCores = 0;
+    int nbProcessors;
 
     if (numPhysicalCores != 0) return numPhysicalCores;
 
-    numPhysicalCores = (int)sysconf(_SC_NPROCESSORS_ONLN);
-    if (numPhysicalCores == -1) {
+    nbProcessors = (int)sysconf(_SC_NPROCESSORS_ONLN);
+    if (nbProcessors == -1) {
         /* value not queryable, fall back on 1 */
         return numPhysicalCores = 1;
     }
@@ -603,7 +605,7 @@ int UTIL_countPhysicalCores(void)
 
         if (cpuinfo == NULL) {
             /* fall back on the sysconf value */
-            return numPhysicalCores;
+            return numPhysicalCores = nbProcessors;
         }
 
         /* assume the cpu cores/siblings values will be constant across all
@@ -638,7 +640,7 @@ int UTIL_countPhysicalCores(void)
         }
 failed:
         fclose(cpuinfo);
-        return numPhysicalCores = numPhysicalCores / ratio;
+        return numPhysicalCores = nbProcessors / ratio;
     }
 }
 
-- 
2.43.0


From 1486513d9df52ae0be0f010ee0545028aeee9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 36/36] fix: asking for the dictionary buffer twice returned
 the dual buffer being compressed

---
 dict_buffer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dict_buffer.c b/dict_buffer.c
index 06d9a4f..2d07570 100644
--- a/dict_buffer.c
+++ b/dict_buffer.c
@@ -179,6 +179,10 @@ void DICT_shift(DICT_buffer * const buf)
     if (buf->start < buf->end)
         return;
 
+    /* Nothing was added since the last shift. Switching again would return to the buffer being compressed. */
+    if (buf->end == 0)
+        return;
+
     size_t overlap = buf->overlap;
     /* Reset the dict if the next compression cycle would exceed the reset interval */
     if (buf->total + buf->size - buf->overlap > buf->reset_interval) {
-- 
2.43.0

