From 80e3ed14bc8b191195092e30c724dfdde128d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH] fix: ts_sign: do not read the parameter set of a context that
 was never initialized

---
 tiny_sphincs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny_sphincs.c b/tiny_sphincs.c
index eacb1f2..afa07f0 100644
--- a/tiny_sphincs.c
+++ b/tiny_sphincs.c
@@ -441,7 +441,6 @@ void ts_wots_leaf( unsigned char *output, int leaf_index,
 unsigned ts_sign( unsigned char *dest, unsigned m,
                   struct ts_context *ctx ) {
     unsigned orig_m = m;
-    unsigned n = ctx->ps->n;
 
     if (ctx->state <= ts_sign_state || ctx->state >= ts_verify_state) {
 	/* We've been handed an invalid context (or one that's been set */
@@ -449,6 +448,7 @@ unsigned ts_sign( unsigned char *dest, unsigned m,
 	return 0;
     }
 
+    unsigned n = ctx->ps->n;
     while (m) {
 	/* If we have bytes left from the previous hash, given those to */
 	/* the caller */
-- 
2.43.0

