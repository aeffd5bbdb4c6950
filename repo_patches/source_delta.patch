From e0947c444f038bbeee91cbaef7221093b400ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 01/85] fix: release local cache buffer in armas_solve_trm

---
 src/blas/trsm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blas/trsm.c b/src/blas/trsm.c
index d1e898c..48c71f0 100644
--- a/src/blas/trsm.c
+++ b/src/blas/trsm.c
@@ -122,6 +122,7 @@ int armas_solve_trm(
         armas_solve_blocked(B, alpha, A, flags, &cache);
         break;
     }
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From 4528a0f46c2c2f73096003f43cb0befdddd1ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 02/85] fix: recursive triangular solve must scale right hand
 side by alpha before update

---
 src/blas/trsm_rec.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/blas/trsm_rec.c b/src/blas/trsm_rec.c
index d872a38..87bedea 100644
--- a/src/blas/trsm_rec.c
+++ b/src/blas/trsm_rec.c
@@ -18,7 +18,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_solve_unb) && defined(armas_mult_kernel_nc)
+#if defined(armas_solve_unb) && defined(armas_mult_kernel)
 #define ARMAS_REQUIRES 1
 #endif
 
@@ -73,11 +73,11 @@ void solve_left_forward(
 
     solve_left_forward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
     } else {
-        armas_mult_kernel_nc(&BB, -ONE, &ABL, &BT, 0, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ABL, &BT, 0, cache);
     }
-    solve_left_forward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_left_forward(&BB, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 
@@ -121,11 +121,11 @@ void solve_left_backward(
 
     solve_left_backward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BT, -ONE, &ATR, &BB, 0, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ATR, &BB, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
     }
-    solve_left_backward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_left_backward(&BT, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 
@@ -156,11 +156,11 @@ void solve_right_forward(
 
     solve_right_forward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ATR, 0, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ATR, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
     }
-    solve_right_forward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_right_forward(&BR, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 /*
@@ -190,11 +190,11 @@ void solve_right_backward(
 
     solve_right_backward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
     } else {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ABL, 0, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ABL, 0, cache);
     }
-    solve_right_backward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_right_backward(&BL, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 void armas_solve_recursive(
-- 
2.43.0


From 0fc0c5494f44b78cf0d0070471b5b7bcb8251ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 03/85] fix: off-diagonal block of recursive upper trapezoidal
 update

---
 src/blas/updtrmm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/updtrmm.c b/src/blas/updtrmm.c
index 64317f1..8721fd4 100644
--- a/src/blas/updtrmm.c
+++ b/src/blas/updtrmm.c
@@ -168,7 +168,7 @@ void update_upper_recursive(
         armas_submatrix_unsafe(&b0, B, 0, nb/2, B->rows, nb-nb/2);
         break;
     }
-    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb-nb/2, nb-nb/2);
+    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb/2, nb-nb/2);
     armas_mult_kernel(beta, &c0, alpha, &a0, &b0, flags, cache);
 
     // lower RIGHT diagonal
-- 
2.43.0


From c4c9290abdb0976a54689a359053a232683c546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 04/85] fix: recursive trapezoidal rank-1 update must split on
 the diagonal

---
 src/blas/updtrmv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blas/updtrmv.c b/src/blas/updtrmv.c
index f644f98..36319ed 100644
--- a/src/blas/updtrmv.c
+++ b/src/blas/updtrmv.c
@@ -83,15 +83,17 @@ void update_trmv_recursive(
         return;
     }
 
+    // top left block must be square; otherwise diagonal of A is not on diagonal of ABR.
+    int nk = (A->rows < A->cols ? A->rows : A->cols)/2;
     mat_partition_2x2(
         &ATL, &ATR,
-        &ABL, &ABR, /**/ A, A->rows/2, A->cols/2, ARMAS_PTOPLEFT);
+        &ABL, &ABR, /**/ A, nk, nk, ARMAS_PTOPLEFT);
     vec_partition_2x1(
         &xT,
-        &xB, /**/ X, A->rows/2, ARMAS_PTOP);
+        &xB, /**/ X, nk, ARMAS_PTOP);
     vec_partition_2x1(
         &yT,
-        &yB, /**/ Y, A->cols/2, ARMAS_PTOP);
+        &yB, /**/ Y, nk, ARMAS_PTOP);
 
     update_trmv_recursive(beta, &ATL, alpha, &xT, &yT, flags, min_mvec_size);
     if (flags & ARMAS_UPPER) {
-- 
2.43.0


From 6a9173235b610f267d31a727369c1c80f0096254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 05/85] fix: armas_iamin on row vectors must step with vector
 stride

---
 src/blas/iamax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blas/iamax.c b/src/blas/iamax.c
index dd639b3..d4a5995 100644
--- a/src/blas/iamax.c
+++ b/src/blas/iamax.c
@@ -126,7 +126,8 @@ int vec_iamin2(const armas_dense_t *X,  int N)
 
     xinc = X->rows == 1 ? X->step : 1;
     ep = X->elems;
-    min = ABS(*ep++);
+    min = ABS(*ep);
+    ep += xinc;
     ix = 0;
     for (i = 1; i < N; ++i, ep += xinc) {
         c0 = ABS(*ep);
-- 
2.43.0


From d0d22f01c9299f8d85d66ef0a2809c69e97568c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 06/85] fix: select upper triangular part correctly in
 armas_mscale

---
 src/blas/mscale.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index c55f6e3..720689a 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -137,8 +137,8 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_UPPER:
         // scale strictly upper triangular part, if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = n; c < m->rows; c++) {
-            armas_submatrix_unsafe(&C, m, c, c+n, 1, m->rows-c-n);
+        for (c = n; c < m->cols; c++) {
+            armas_submatrix_unsafe(&C, m, 0, c, c+1-n < m->rows ? c+1-n : m->rows, 1);
             vec_scale(&C, alpha, C.rows);
         }
         break;
-- 
2.43.0


From d8fc28ebde1364f6849e56b79ff4e65ed967b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 07/85] fix: select upper triangular part correctly in
 armas_madd

---
 src/blas/madd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/madd.c b/src/blas/madd.c
index d987387..10c2e51 100644
--- a/src/blas/madd.c
+++ b/src/blas/madd.c
@@ -85,7 +85,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // (works for upper trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
         for (c = n; c < A->cols; ++c) {
-            armas_submatrix_unsafe(&C, A, 0, c+n, c+1-n, 1);
+            armas_submatrix_unsafe(&C, A, 0, c, c+1-n < A->rows ? c+1-n : A->rows, 1);
             vec_add(&C, alpha, C.rows);
         }
         break;
-- 
2.43.0


From 7bded119cb1da58526e6cc9cb321da996324f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 08/85] fix: do not access rows beyond upper trapezoidal matrix
 in element-wise apply

---
 src/blas/mapply.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blas/mapply.c b/src/blas/mapply.c
index eba5ce4..68434fd 100644
--- a/src/blas/mapply.c
+++ b/src/blas/mapply.c
@@ -56,7 +56,7 @@ int armas_apply(armas_dense_t *A, armas_operator_t oper, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j)));
             }
         }
@@ -108,7 +108,7 @@ int armas_apply2(armas_dense_t *A, armas_operator2_t oper, void *p, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j), p));
             }
         }
@@ -160,7 +160,7 @@ int armas_iterate(const armas_dense_t *A, armas_iterator_t oper, void *p, int fl
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 if (oper(armas_get_unsafe(A, i, j), p) < 0)
                     return -1;
             }
-- 
2.43.0


From a0b83c4a8950c6278c30eaa13570496c4a78f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 09/85] fix: do not set diagonal outside of wide matrix in
 armas_make_trm

---
 src/blas/mset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/mset.c b/src/blas/mset.c
index 9062b5d..13a1b38 100644
--- a/src/blas/mset.c
+++ b/src/blas/mset.c
@@ -176,7 +176,7 @@ void armas_make_trm(armas_dense_t *A, int flags)
     if (flags & ARMAS_UPPER) {
         // clear lower triangular/trapezoidial part
         for (j = 0; j < A->cols; j++) {
-            if (flags & ARMAS_UNIT)
+            if (flags & ARMAS_UNIT && j < A->rows)
                 armas_set_unsafe(A, j, j, ONE);
             for (i = j+1; i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, ZERO);
-- 
2.43.0


From 8cbf499a6745e80ccd0917354de4087e643ea9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 10/85] fix: scale all columns of strictly lower tall matrix in
 armas_mscale

---
 src/blas/mscale.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index 720689a..97a1c96 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -146,7 +146,7 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_LOWER:
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = 0; c < m->cols-n; c++) {
+        for (c = 0; c < m->cols && c < m->rows-n; c++) {
             armas_submatrix_unsafe(&C, m, c+n, c, m->rows-c-n, 1);
             vec_scale(&C, alpha, C.rows);
         }
-- 
2.43.0


From d97a27a45e858456dbc40be4392045afa74a4bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 11/85] fix: add to all columns of strictly lower tall matrix
 in armas_madd

---
 src/blas/madd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/madd.c b/src/blas/madd.c
index 10c2e51..0b49826 100644
--- a/src/blas/madd.c
+++ b/src/blas/madd.c
@@ -94,7 +94,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         // (works for lower trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
-        for (c = 0; c < A->cols-n; ++c) {
+        for (c = 0; c < A->cols && c < A->rows-n; ++c) {
             armas_submatrix_unsafe(&C, A, c+n, c, A->rows-c-n, 1);
             vec_add(&C, alpha, C.rows);
         }
-- 
2.43.0


From 2d4c813e0668fb0b8ac8683e2b47922372ac7acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 12/85] fix: release local cache buffer in naive extended
 precision triangular product

---
 src/eblas/trmm_ext.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eblas/trmm_ext.c b/src/eblas/trmm_ext.c
index 4712bb8..32a8d84 100644
--- a/src/eblas/trmm_ext.c
+++ b/src/eblas/trmm_ext.c
@@ -785,6 +785,7 @@ int armas_ext_mult_trm(
 
     if (cf->optflags & ARMAS_ONAIVE) {
         trmm_ext_unb_unsafe(B, alpha, A, flags, &cache);
+        armas_cbuf_release(&cbuf);
         return 0;
     }
     armas_ext_mult_trm_unsafe(B, alpha, A, flags, &cache);
-- 
2.43.0


From 72630ce552ce605ead43dd16a6f059ae51e94034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 13/85] fix: index of the correction in extended precision
 right side triangular solve

---
 src/eblas/trsm_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index f1c38b0..3e1d2b7 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -384,7 +384,7 @@ void solve_ext_ru_rlt(
 
             bk = armas_get_unsafe(Bc, j, i);
             twoprod(&s0, &u0, alpha, bk);
-            u0 += alpha * armas_get_unsafe(dB, i, j);
+            u0 += alpha * armas_get_unsafe(dB, j, i);
             armas_ext_adot_dx_unsafe(&s0, &u0, -ONE, &b0, &d0, &a0);
 
             if (!unit) {
-- 
2.43.0


From 71442f3358a935e0943111786761e9f42089393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 14/85] fix: merge corrections of all columns in extended
 precision right side triangular solve

---
 src/eblas/trsm_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index 3e1d2b7..f69cf6f 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -462,7 +462,7 @@ void solve_ext_blk_ru_rlt(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_ru_rlt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(&B1, &dB1);
+    armas_merge_unsafe(B, dB);
 }
 
 /*
-- 
2.43.0


From 7fadc04f0e84cefb8c7e6a4b24a876dcad21e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 15/85] fix: operand transposition in blocked extended
 precision right side triangular solve

---
 src/eblas/trsm_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index f69cf6f..d804d3d 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -570,7 +570,7 @@ void solve_ext_blk_rut_rl(
 
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
-    int mflags = flags & ARMAS_TRANS ? 0 : ARMAS_TRANSB;
+    int mflags = flags & ARMAS_TRANS ? ARMAS_TRANSB : 0;
     int NB = cache->NB;
 
     nI = A->cols < NB ? A->cols : NB;
-- 
2.43.0


From 545450b3aa4455c990a92bd22ff1ed275861ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 16/85] fix: workspace layout and size of extended precision
 triangular solve

---
 src/eblas/trsm_ext.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index d804d3d..0698795 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -636,10 +636,10 @@ void armas_ext_solve_trm_unb_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, dB->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, dB->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0, cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0, cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -698,10 +698,10 @@ void armas_ext_solve_trm_blk_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, B->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, B->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0,  cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0,  cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -805,18 +805,25 @@ int armas_ext_solve_trm_w(
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
 
     if (wb->bytes == 0) {
-        wb->bytes = A->rows*min(A->cols, cache.NB)*sizeof(DTYPE);
+        int nblk = min(A->cols, cache.NB);
+        wb->bytes = A->rows*(nblk < 4 ? 4 : nblk)*sizeof(DTYPE);
+        armas_cbuf_release(&cbuf);
         return 0;
     }
     int ncol = wb->bytes/(A->rows*sizeof(DTYPE));
     if (ncol < 4) {
+        armas_cbuf_release(&cbuf);
         cf->error = ARMAS_EMEMORY;
         return -ARMAS_EMEMORY;
     }
     if (ncol > cache.NB)
         ncol = cache.NB;
-    armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
+    if (flags & ARMAS_RIGHT)
+        armas_make(&dX, ncol, A->cols, ncol, (DTYPE *)armas_wptr(wb));
+    else
+        armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
     armas_ext_solve_trm_blk_unsafe(B, &dX, alpha, A, flags, &cache);
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From a72a38762f1cc696c1e49f0765a3ef134ae56ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 17/85] fix: scaled extended precision sum dropped the high
 order part

---
 src/eblas/asum_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/asum_ext.c b/src/eblas/asum_ext.c
index 8876a82..efa780d 100644
--- a/src/eblas/asum_ext.c
+++ b/src/eblas/asum_ext.c
@@ -155,7 +155,7 @@ int armas_ext_sum(DTYPE *result, DTYPE alpha, const armas_dense_t *X, int flags,
 
     if (alpha != ONE) {
         twoprod(result, &q, alpha, h);
-        *result = q + alpha*l;
+        *result += q + alpha*l;
     } else {
         *result = h + l;
     }
-- 
2.43.0


From 007d23d0bc5d6426ac285a555234f27d0b689b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 18/85] fix: extended precision symmetric rank-1 update used
 and overran the whole vector for every row or column

---
 src/eblas/syr_ext.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eblas/syr_ext.c b/src/eblas/syr_ext.c
index 1042090..d8dcc6e 100644
--- a/src/eblas/syr_ext.c
+++ b/src/eblas/syr_ext.c
@@ -38,24 +38,26 @@ int armas_ext_mvupdate_trm_unsafe(
     int flags)
 {
     DTYPE p, r, xk;
-    armas_dense_t a0;
+    armas_dense_t a0, z0;
 
     switch (flags & (ARMAS_UPPER|ARMAS_LOWER)) {
     case ARMAS_UPPER:
         for (int i = 0; i < A->rows; ++i) {
             armas_submatrix_unsafe(&a0, A, i, i, 1, A->cols-i);
+            armas_subvector_unsafe(&z0, Y, i, A->cols-i);
             xk = armas_get_at(X, i);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, Y);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &z0);
         }
         break;
     case ARMAS_LOWER:
     default:
         for (int j = 0; j < A->cols; ++j) {
             armas_submatrix_unsafe(&a0, A, j, j, A->rows-j, 1);
+            armas_subvector_unsafe(&z0, X, j, A->rows-j);
             xk = armas_get_at(Y, j);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, X);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &z0);
         }
         break;
     }
-- 
2.43.0


From 143886b9f7d0893a4cf11c37d4bc6d200a3e8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 19/85] fix: extended precision symmetric rank-2 update must
 update the lower triangle

---
 src/eblas/syr2_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index b49c832..29f6c3f 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -68,7 +68,7 @@ int armas_ext_mvupdate2_sym_unsafe(
     case ARMAS_LOWER:
     default:
         for (j = 0; j < A->cols; ++j) {
-            for (i = 0; i < j+1; ++i) {
+            for (i = j; i < A->rows; ++i) {
                 xk = armas_get_at_unsafe(X, i);
                 yk = armas_get_at_unsafe(Y, j);
                 // p + r = X[i]*Y[j]
-- 
2.43.0


From f33f50f066ca16744bc00a25ce25357bd2ac6af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 20/85] fix: report singular matrix in LU factorization when a
 later column is regular

---
 src/lapack/lu.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index e7395d2..65cf0c5 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -145,7 +145,7 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
         aa = armas_dot(&a10, &a01, conf);
         armas_set(&a11, 0, 0, a11val - aa);
         // c. a21 = a21 - A20*a01
-        err = armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
+        armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
         // HERE:
         // current column has been updated with effects of earlier computations.
         // B. find pivot index on vector ( a11 ) == ABR[:,0] (1st column of ABR)
@@ -236,7 +236,8 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
         // B. factor ( A11 )
         //           ( A21 )
         mat_merge2x1(&AB0, &A11, &A21);
-        err = unblk_lufactor(&AB0, &p1, ATL.rows, conf);
+        if (unblk_lufactor(&AB0, &p1, ATL.rows, conf) < 0)
+            err = -1;
 
         // apply pivots on left columns
         armas_pivot_rows(&ABL, &p1, ARMAS_PIVOT_FORWARD, conf);
-- 
2.43.0


From 6b2a584ce3d0615fd21d18cb17c88c3b37e6d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 21/85] fix: transposed LU solve applied the factors and pivots
 in the wrong order

---
 src/lapack/lu.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 65cf0c5..16c64ac 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -352,18 +352,20 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (P) {
-        // pivots; apply to B.
-        armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
-    }
-
     if (flags & ARMAS_TRANS) {
-        // solve A.T*X = B; X = A.-T*B == (L.T*U.T).-1*B == U.-T*(L.-T*B)
-        armas_solve_trm(
-            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        // solve A.T*X = B; P*A = L*U; X = P.T*L.-T*(U.-T*B)
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_UPPER | ARMAS_TRANSA, cf);
+        armas_solve_trm(
+            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        if (P) {
+            armas_pivot_rows(B, P, ARMAS_PIVOT_BACKWARD, cf);
+        }
     } else {
+        if (P) {
+            // pivots; apply to B.
+            armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
+        }
         // solve A*X = B;  X = A.-1*B == (L*U).-1*B == U.-1*(L.-1*B)
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, cf);
-- 
2.43.0


From 1330cb47abb85b52619f3ab4501cea40d4612eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 22/85] fix: lower Cholesky factorization must refuse a zero
 pivot

---
 src/lapack/chol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/chol.c b/src/lapack/chol.c
index 2da85b7..3aa5547 100644
--- a/src/lapack/chol.c
+++ b/src/lapack/chol.c
@@ -55,7 +55,7 @@ int unblk_cholfactor_lower(armas_dense_t * A, armas_conf_t * cf)
         // --------------------------------------------------------------------
         // a21 = a21/a11
         a11val = armas_get(&a11, 0, 0);
-        if (a11val >= 0.0) {
+        if (a11val > 0.0) {
             // a11 = sqrt(a11)
             a11val = SQRT(a11val);
             armas_set(&a11, 0, 0, a11val);
-- 
2.43.0


From 5d6aa23d40b37bb6a59b01edf92118f9dc373563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 23/85] fix: inverse of a unit triangular matrix must not use
 the stored diagonal

---
 src/lapack/invtrm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/invtrm.c b/src/lapack/invtrm.c
index 0659c46..c4d9a1e 100644
--- a/src/lapack/invtrm.c
+++ b/src/lapack/invtrm.c
@@ -72,7 +72,7 @@ int unblk_inverse_upper(armas_dense_t * A, int flags, armas_conf_t * conf)
             armas_set_unsafe(&a11, 0, 0, a11val);
         }
         // a01 = -a11val*A00*a01
-        armas_mvmult_trm(&a01, -a11val, &A00, ARMAS_UPPER, conf);
+        armas_mvmult_trm(&a01, -a11val, &A00, ARMAS_UPPER|(flags & ARMAS_UNIT), conf);
         // ---------------------------------------------------------------------
       next:
         mat_continue_3x3to2x2(
@@ -155,7 +155,7 @@ int unblk_inverse_lower(armas_dense_t * A, int flags, armas_conf_t * conf)
             armas_set_unsafe(&a11, 0, 0, a11val);
         }
         // a21 = -a11val*A22*a21
-        armas_mvmult_trm(&a21, -a11val, &A22, ARMAS_LOWER, conf);
+        armas_mvmult_trm(&a21, -a11val, &A22, ARMAS_LOWER|(flags & ARMAS_UNIT), conf);
         // ---------------------------------------------------------------------
       next:
         mat_continue_3x3to2x2(
-- 
2.43.0


From b0026b228fe693e79d03df1e133ed599af1ea940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 24/85] fix: row and column rotations must stay inside the
 matrix

---
 src/lapack/givens.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index 6871811..d65b08e 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -146,7 +146,7 @@ void armas_gvleft(armas_dense_t * A, DTYPE c, DTYPE s, int r1, int r2,
         }
         return;
     }
-    gvleft(A, c, s, r1, r2, col, ncol);
+    gvleft(A, c, s, r1, r2, col, lastc - col);
 }
 
 
@@ -186,7 +186,7 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
         }
         return;
     }
-    gvright(A, c, s, c1, c2, row, nrow);
+    gvright(A, c, s, c1, c2, row, lastr - row);
 }
 
 /**
-- 
2.43.0


From da62398d7c5a9dc20500f1ce0420254d1cf7026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 25/85] fix: backward rotation update must report and bound the
 number of rotations

---
 src/lapack/givens.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index d65b08e..92d593f 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -220,8 +220,8 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
  *      flag backward (ARMAS_BACKWARD)  or forward (ARMAS_FORWARD). Forward is
  *      default direction for updates.
  * @return
- *      Number of rotation applied, min(nrot, A->rows-start) for left and
- *      min(nrot, A->cols-start) for right.
+ *      Number of rotation applied, min(nrot, A->rows-start-1) for left and
+ *      min(nrot, A->cols-start-1) for right.
  *
  * @ingroup lapack
  */
@@ -229,12 +229,17 @@ int armas_gvupdate(armas_dense_t * A, int start,
                      armas_dense_t * C, armas_dense_t * S, int nrot,
                      int flags)
 {
-    int k, n, end = start + nrot;
+    int k, n, end;
     DTYPE c, s;
 
+    // last rotation acts on the last two rows (columns)
+    nrot = min(nrot, (flags & ARMAS_LEFT ? A->rows : A->cols) - start - 1);
+    if (nrot <= 0)
+        return 0;
+    end = start + nrot;
+
     if (flags & ARMAS_BACKWARD) {
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
             for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
@@ -242,7 +247,6 @@ int armas_gvupdate(armas_dense_t * A, int start,
                     gvleft(A, c, s, k - 1, k, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
             for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
@@ -253,7 +257,6 @@ int armas_gvupdate(armas_dense_t * A, int start,
     } else {
         // here we apply forward direction
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
             for (k = start, n = 0; n < nrot && k < end; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
@@ -261,7 +264,6 @@ int armas_gvupdate(armas_dense_t * A, int start,
                     gvleft(A, c, s, k, k + 1, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
             for (k = start, n = 0; n < nrot && k < end; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
@@ -270,7 +272,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
             }
         }
     }
-    return n;
+    return nrot;
 }
 
 
-- 
2.43.0


From 1b3ee292d211d1cf4f774be5159be44099470b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 26/85] fix: Householder code must test the option flag
 ARMAS_ONONNEG

---
 src/lapack/house.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 61773f5..ca2e2f1 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -290,7 +290,7 @@ int armas_house_vec(armas_dense_t * x, armas_dense_t * tau, int flags,
 void armas_compute_householder(armas_dense_t * a11, armas_dense_t * x,
                                  armas_dense_t * tau, armas_conf_t * cf)
 {
-    int flags = (cf->optflags & ARMAS_NONNEG) != 0 ? ARMAS_NONNEG : 0;
+    int flags = (cf->optflags & ARMAS_ONONNEG) != 0 ? ARMAS_NONNEG : 0;
     internal_householder(a11, x, tau, flags, cf);
 }
 
@@ -305,7 +305,7 @@ void armas_compute_householder_vec(armas_dense_t * x, armas_dense_t * tau,
         return;
     }
 
-    int flags = (cf->optflags & ARMAS_NONNEG) != 0 ? ARMAS_NONNEG : 0;
+    int flags = (cf->optflags & ARMAS_ONONNEG) != 0 ? ARMAS_NONNEG : 0;
 
     armas_submatrix(&alpha, x, 0, 0, 1, 1);
     if (x->rows == 1) {
@@ -328,7 +328,7 @@ void armas_compute_householder_rev(armas_dense_t * x, armas_dense_t * tau,
         return;
     }
 
-    int flags = (cf->optflags & ARMAS_NONNEG) != 0 ? ARMAS_NONNEG : 0;
+    int flags = (cf->optflags & ARMAS_ONONNEG) != 0 ? ARMAS_NONNEG : 0;
 
     if (x->rows == 1) {
         armas_submatrix(&alpha, x, 0, -1, 1, 1);
-- 
2.43.0


From 33d9ce233205e9664dad2a26737af5cefffec779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 27/85] fix: non-negative Householder reflector of a negative
 multiple of e0

---
 src/lapack/house.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index ca2e2f1..383d605 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -101,12 +101,18 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
     int nscale = 0;
 
     normx = armas_nrm2(x, cf);
+    alpha = armas_get_unsafe(a11, 0, 0);
     if (normx == 0.0) {
-        armas_set(tau, 0, 0, 0.0);
+        if ((flags & (ARMAS_HHNEGATIVE | ARMAS_NONNEG)) == ARMAS_NONNEG && alpha < 0.0) {
+            // H = I - 2*e_0*e_0^T
+            armas_set(tau, 0, 0, 2.0);
+            armas_set_unsafe(a11, 0, 0, -alpha);
+        } else {
+            armas_set(tau, 0, 0, 0.0);
+        }
         return 0;
     }
 
-    alpha = armas_get_unsafe(a11, 0, 0);
     sign = SIGN(alpha) ? -1.0 : 1.0;
 
     beta = HYPOT(alpha, normx);
-- 
2.43.0


From 8e1aa7126f29219dde75387eb8256b3ba02808b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 28/85] fix: matrix-vector product with zero length x must
 still scale y

---
 src/blas/gemv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/blas/gemv.c b/src/blas/gemv.c
index a1dd457..c16f205 100644
--- a/src/blas/gemv.c
+++ b/src/blas/gemv.c
@@ -287,6 +287,12 @@ int armas_mvmult(
     if (!conf)
         conf = armas_conf_default();
 
+    if (nx == 0 && ny > 0 && armas_isvector(y)
+        && ((flags & ARMAS_TRANS) ? A->cols : A->rows) == ny) {
+        // empty product; op(A)*x is zero vector
+        armas_scale_unsafe(y, beta);
+        return 0;
+    }
     if (armas_size(A) == 0 || armas_size(x) == 0 || armas_size(y) == 0)
         return 0;
 
-- 
2.43.0


From ddc373c1b24def57b4b9bef577f066304fc771c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 29/85] fix: QR and QL generation of Q must clear the block
 reflector

---
 src/lapack/qlbld.c | 1 +
 src/lapack/qrbld.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/lapack/qlbld.c b/src/lapack/qlbld.c
index 9966cf8..722a21c 100644
--- a/src/lapack/qlbld.c
+++ b/src/lapack/qlbld.c
@@ -161,6 +161,7 @@ int blk_qlbuild(armas_dense_t * A, armas_dense_t * tau,
 
         // build block reflector
         armas_make(&Tcur, A11.rows, A11.cols, A11.rows, armas_data(T));
+        armas_mscale(&Tcur, ZERO, 0, conf);
         armas_unblk_ql_reflector(&Tcur, &AT, &t1, conf);
 
         // update left side i.e A00 and A00 with (I - Y*T*Y.T)
diff --git a/src/lapack/qrbld.c b/src/lapack/qrbld.c
index ee7ebc2..2f45c5f 100644
--- a/src/lapack/qrbld.c
+++ b/src/lapack/qrbld.c
@@ -180,6 +180,7 @@ int blk_qrbuild(armas_dense_t * A, armas_dense_t * tau,
         mat_merge2x1(&AL, &A11, &A21);
 
         // block reflector
+        armas_mscale(T, ZERO, 0, conf);
         armas_unblk_qr_reflector(T, &AL, &t1, conf);
 
         // update rightside i.e A12, A22
-- 
2.43.0


From bc70c5630f054eadccea7ebe3f1e98423ec4db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 30/85] fix: unscaled Householder reflector of a multiple of e0
 left v undefined

---
 src/lapack/house.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 383d605..8b176cf 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -190,12 +190,20 @@ int hhcompute_unscaled(armas_dense_t * x0, armas_dense_t * x1,
     DTYPE normx, x0val, alpha, beta, delta, sign;
 
     normx = armas_nrm2(x1, cf);
+    x0val = armas_get_unsafe(x0, 0, 0);
     if (normx == 0.0) {
-        armas_set_unsafe(tau, 0, 0, armas_get_unsafe(x0, 0, 0));
+        if ((flags & ARMAS_NONNEG) != 0 && x0val < 0.0) {
+            // H = I - 2*e_0*e_0^T
+            armas_set_unsafe(tau, 0, 0, -x0val);
+            armas_set_unsafe(x0, 0, 0, ONE);
+        } else {
+            // H = I
+            armas_set_unsafe(tau, 0, 0, x0val);
+            armas_set_unsafe(x0, 0, 0, ZERO);
+        }
         return 0;
     }
 
-    x0val = armas_get_unsafe(x0, 0, 0);
     sign = SIGN(x0val) ? -1.0 : 1.0;
 
     beta = HYPOT(x0val, normx);
-- 
2.43.0


From 604412d24a909426bb67bb605e5d811e09edd1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 31/85] fix: armas_houseapply rejected or misapplied valid
 reflectors

---
 src/lapack/house.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 8b176cf..9fc3dc1 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -516,7 +516,7 @@ int armas_houseapply(armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    int scaled = !tau || (flags & ARMAS_UNIT) != 0 ? 1 : 0;
+    int scaled = tau && (flags & ARMAS_UNIT) != 0 ? 1 : 0;
 
     if (armas_isvector(A)) {
         DTYPE alpha;
@@ -542,20 +542,22 @@ int armas_houseapply(armas_dense_t * A,
         return 0;
     }
     // if tau != __nil then unit scaled reflector otherwise unscaled reflector
-    int ok = 0;
+    int ok = 0, n = 0;
     switch (flags & ARMAS_RIGHT) {
     case ARMAS_RIGHT:
-        ok = A->rows - scaled == armas_size(v);
+        ok = A->cols - scaled == armas_size(v);
+        n = A->rows;
         break;
     default:
-        ok = A->cols - scaled == armas_size(v);
+        ok = A->rows - scaled == armas_size(v);
+        n = A->cols;
         break;
     }
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-    if (!w || armas_size(w) < armas_size(v) + scaled) {
+    if (!w || armas_size(w) < n) {
         cf->error = ARMAS_EWORK;
         return -1;
     }
@@ -577,7 +579,6 @@ int armas_houseapply(armas_dense_t * A,
         return armas_apply_householder2x1(tau, v, &a1, &A2, &w1, flags, cf);
     }
     // unscaled householder reflector here
-    int n = (flags & ARMAS_RIGHT) != 0 ? A->rows : A->cols;
     armas_make(&w1, n, 1, n, armas_data(w));
     // tau is null pointer here
     return armas_apply_householder1x1(tau, v, A, &w1, flags, cf);
-- 
2.43.0


From 4b6d7a9697e940b57ba42ca25c2e99cef0b8c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 32/85] fix: armas_housemult sized its workspace for the wrong
 side by default

---
 src/lapack/housem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 424ba82..f3c132a 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -322,7 +322,7 @@ int armas_housemult_w(armas_dense_t * X,
     }
     if (!armas_isvector(X) && wb->bytes == 0) {
         // compute workspace size
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+        int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         wb->bytes = nelem * sizeof(DTYPE);
         return 0;
     }
@@ -345,7 +345,7 @@ int armas_housemult_w(armas_dense_t * X,
     armas_dense_t w, *wptr;
     wptr = __nil;
     if (!armas_isvector(X)) {
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+        int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         DTYPE *t = armas_wreserve(wb, nelem, sizeof(DTYPE));
         armas_make(&w, nelem, 1, nelem, t);
         wptr = &w;
-- 
2.43.0


From 6daec2a88936bd2dba0a8bb3b629545c85c06f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 33/85] fix: hyperbolic reflector of an isotropic vector looped
 forever

---
 src/lapack/hhouse.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/lapack/hhouse.c b/src/lapack/hhouse.c
index 580d5d7..e91ce62 100644
--- a/src/lapack/hhouse.c
+++ b/src/lapack/hhouse.c
@@ -103,20 +103,25 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
 
     normx = armas_nrm2(x, cf);
     alpha = armas_get(a11, 0, 0);
-    if (ABS(alpha) < normx) {
-        // alpha^2 - normx^2 < 0; sqrt not defined
-        cf->error = ARMAS_EINVAL;
-        return -ARMAS_EINVAL;
-    }
     if (normx == 0.0) {
-        armas_set(tau, 0, 0, 0.0);
+        if ((flags & (ARMAS_HHNEGATIVE | ARMAS_NONNEG)) == ARMAS_NONNEG && alpha < 0.0) {
+            // H = I - 2*e_0*e_0^T
+            armas_set(tau, 0, 0, 2.0);
+            armas_set(a11, 0, 0, -alpha);
+        } else {
+            armas_set(tau, 0, 0, 0.0);
+        }
         return 0;
     }
+    if (ABS(alpha) <= normx) {
+        // alpha^2 - normx^2 < 0; sqrt not defined; (reflector not defined if zero)
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     sign = SIGN(alpha) ? -1.0 : 1.0;
     beta = sqrt_x2my2(alpha, normx);
     // guard agains underflow; see (2)
     if (ABS(beta) < safmin) {
-        printf("beta : %e\n", beta);
         // normx, beta may be inaccurate, scale and recompute
         rsafmin = 1.0 / safmin;
         do {
-- 
2.43.0


From 84f0ae2c06cb3885d94cfd0f457a0bdfd2f8e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 34/85] fix: armas_lqsolve_w refused a workspace of the size it
 had reported

---
 src/lapack/lqsolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index c2efcfb..8fca073 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -136,7 +136,7 @@ int armas_lqsolve_w(armas_dense_t * B,
         return -ARMAS_ESIZE;
     }
 
-    wsmin = B->rows * sizeof(DTYPE);
+    wsmin = B->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From 367752f01ee3b6f6753c3989eeafa14997799f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 35/85] fix: blocked Hessenberg reduction used stale block
 reflector entries when a reflector scalar is zero

---
 src/lapack/hess.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lapack/hess.c b/src/lapack/hess.c
index a294c4a..ab144bd 100644
--- a/src/lapack/hess.c
+++ b/src/lapack/hess.c
@@ -277,6 +277,9 @@ int unblk_build_hess_gqvdg(armas_dense_t * A, armas_dense_t * T,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // t01 was used as workspace above
+            armas_scale(&t01, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
-- 
2.43.0


From 335240f49142a8236f0c84241ce3cfeb6b927816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 36/85] fix: armas_qrtfactor computed invalid block reflectors

---
 src/lapack/qrt.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index 84245a3..e6e30c3 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -36,7 +36,7 @@ static
 int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
                     armas_dense_t * W, armas_conf_t * conf)
 {
-    armas_dense_t ATL, ABR, A00, a11, a12, a21, A22;
+    armas_dense_t ATL, ABR, A00, a10, a11, a12, A20, a21, A22;
     armas_dense_t TTL, TTR, TBR, T00, t01, t11, T22, w12;
     DTYPE tauval;
 
@@ -51,8 +51,8 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         mat_repartition_2x2to3x3(
             &ATL,
             &A00, __nil, __nil,
-            __nil, &a11, &a12,
-            __nil, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
+            &a10, &a11, &a12,
+            &A20, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
         mat_repartition_2x2to3x3(
             &TTL,
             &T00, &t01, __nil,
@@ -68,11 +68,13 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         tauval = armas_get_unsafe(&t11, 0, 0);
         if (tauval != ZERO) {
             // t01 := -tauval*(a10.T + A20.T*a21)
-            armas_axpby(ZERO, &t01, ONE, &a12, conf);
+            armas_axpby(ZERO, &t01, ONE, &a10, conf);
             armas_mvmult(-tauval, &t01,
-                           -tauval, &A22, &a21, ARMAS_TRANSA, conf);
+                           -tauval, &A20, &a21, ARMAS_TRANSA, conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            armas_scale(&t01, ZERO, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
@@ -107,7 +109,7 @@ int blk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
     mat_partition_2x2(
         &ATL, __nil, __nil, &ABR, /**/ A, 0, 0, ARMAS_PTOPLEFT);
     mat_partition_1x2(
-        &TL, &TR, /**/ T, 0, ARMAS_LEFT);
+        &TL, &TR, /**/ T, 0, ARMAS_PLEFT);
 
     while (ABR.rows - lb > 0 && ABR.cols - lb > 0) {
         mat_repartition_2x2to3x3(
-- 
2.43.0


From 88f238d1f68b030c94cc3f74b1fe6442bc0df556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 37/85] fix: armas_solve_diag divided matrices by alpha instead
 of multiplying

---
 src/lapack/diag.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index 1e4bc22..790728c 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -172,9 +172,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale columns; 
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = armas_get_at_unsafe(d, k);
             armas_column(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, alpha/aval, conf);
         }
         break;
     case ARMAS_LEFT:
@@ -187,9 +187,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale rows; for each column element-wise multiply of D element
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = armas_get_at_unsafe(d, k);
             armas_row(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, alpha/aval, conf);
         }
         break;
     }
-- 
2.43.0


From e55ec165a64d85e6d69a57b243459bcaf704883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 38/85] fix: armas_abs_sort_vec lost the signs of the elements
 it moved

---
 src/lapack/sort.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lapack/sort.c b/src/lapack/sort.c
index 0a1eaf8..d18f1b4 100644
--- a/src/lapack/sort.c
+++ b/src/lapack/sort.c
@@ -47,10 +47,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
     // simple insertion sort
     if (updown > 0) {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval <= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) <= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
@@ -58,10 +58,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
         }
     } else {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval >= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) >= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
-- 
2.43.0


From b1a21764523cf9c9dc6b18f27c1d8c27e8f607a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 39/85] fix: quick sort of vectors with equal elements did not
 terminate

---
 src/lapack/qsort.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qsort.c b/src/lapack/qsort.c
index 99c85df..b231f2b 100644
--- a/src/lapack/qsort.c
+++ b/src/lapack/qsort.c
@@ -78,13 +78,15 @@ void armas_qsort_asc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) < pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) < pivot; i++);
         for (; armas_get_at_unsafe(x, j) > pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++;
+        j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
@@ -113,13 +115,15 @@ void armas_qsort_desc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) > pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) > pivot; i++);
         for (; armas_get_at_unsafe(x, j) < pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        i++;
+        j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
-- 
2.43.0


From 04345ef71236b83f5c1a1da3f39a0c53d9e66d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 40/85] fix: roots of quadratic equation without linear term

---
 src/lapack/qdroot.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qdroot.c b/src/lapack/qdroot.c
index 780e8c8..705c666 100644
--- a/src/lapack/qdroot.c
+++ b/src/lapack/qdroot.c
@@ -145,9 +145,9 @@ int armas_qdroots(DTYPE * x1, DTYPE * x2, DTYPE a, DTYPE b, DTYPE c)
         return 1;
     }
     signb = SIGN(b) ? -1.0 : 1.0;
-    s = SQRT(d) * (signb + (DTYPE) (b == ZERO)) + b;
+    s = SQRT(d) * signb + b;
     *x1 = s / a;
-    *x2 = c / s;
+    *x2 = s == ZERO ? ZERO : c / s;
     return 0;
 }
 
-- 
2.43.0


From e217352f80ec0909ab4ac1a839a01c8df49259c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 41/85] fix: butterfly transforms from right applied levels in
 wrong order and short last blocks ran out of bounds

---
 src/lapack/rbtgm.c | 44 +++++++++++++++++++-------------------------
 src/lapack/rbtgu.c | 11 +++++++----
 2 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 6ec7b58..e9d9667 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -56,14 +56,11 @@ void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
     int i, j, rb, nb;
     DTYPE r0, r1, a00, a10;
 
-    // initial
-    if (A->rows == 1) {
-        nb = 1;
-        rb = 0;
-    } else {
-        nb = Nd == 1 ? 1 : (Nd + 1) / 2;
-        rb = A->rows - nb;
-    }
+    // initial; last block may be shorter than half of the butterfly size
+    nb = Nd == 1 ? 1 : (Nd + 1) / 2;
+    if (nb > A->rows)
+        nb = A->rows;
+    rb = A->rows - nb;
 
     if (flags & ARMAS_TRANS) {
         //printf("..rows=%d, Nd=%d, nb=%d, rb=%d\n", A->rows, Nd, nb, rb);
@@ -185,17 +182,13 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
     int i, j, rb, nb;
     DTYPE r0, r1, a00, a01;
 
-    // initial 
-    if (A->cols == 1) {
-        nb = 1;
-        rb = 0;
-    } else {
-        nb = Nd == 1 ? 1 : (Nd + 1) / 2;
-        rb = A->cols - nb;
-    }
+    // initial; last block may be shorter than half of the butterfly size
+    nb = Nd == 1 ? 1 : (Nd + 1) / 2;
+    if (nb > A->cols)
+        nb = A->cols;
+    rb = A->cols - nb;
 
     if (flags & ARMAS_TRANS) {
-        j = 0;
         for (i = 0; i < A->rows; i++) {
             for (j = 0; j < rb; j++) {
                 r0 = armas_get_at_unsafe(R, j);
@@ -205,12 +198,12 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
                 armas_set_unsafe(A, i, j, a00 + a01);
                 armas_set_unsafe(A, i, j + nb, a00 - a01);
             }
-        }
-        // for case when Nd > rows(A)
-        for (; j < nb; j++) {
-            r0 = armas_get_at_unsafe(R, j);
-            a00 = armas_get_unsafe(A, i, j);
-            armas_set_unsafe(A, i, j, r0 * a00);
+            // for case when Nd > cols(A)
+            for (; j < nb; j++) {
+                r0 = armas_get_at_unsafe(R, j);
+                a00 = armas_get_unsafe(A, i, j);
+                armas_set_unsafe(A, i, j, r0 * a00);
+            }
         }
         return;
     }
@@ -260,7 +253,8 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
     Nd = (A->cols + twod - 1) & ~(twod - 1);
     // initial/final block size is computed with k = twod/2
     k = twod >> 1;
-    if (flags & ARMAS_TRANS) {
+    // A*U starts with the smallest butterflies and A*U^T with the largest
+    if ((flags & ARMAS_TRANS) == 0) {
         pdir = ARMAS_PLEFT;
         rdir = ARMAS_PRIGHT;
         lb = Nd = Nd / k;
@@ -294,7 +288,7 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
         }
         mat_continue_1x3to1x2(&RL, &RR, /**/ &R0, &R1, /**/ R, rdir);
         // next butterfly size
-        if (flags & ARMAS_TRANS) {
+        if ((flags & ARMAS_TRANS) == 0) {
             lb = 2 * lb;
             Nd = 2 * Nd;
             if (lb > A->cols)
diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index 0c103d2..75642b9 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -62,7 +62,7 @@ static
 void update2_rbt(armas_dense_t * A, armas_dense_t * R,
                  armas_dense_t * S, int Nd, armas_conf_t * conf)
 {
-    int lb, nb, mb, i, j;
+    int lb, nb, mb, rb, cb, i, j;
     DTYPE r0, r1, s0, s1;
     DTYPE a00, a01, a10, a11;
 
@@ -76,6 +76,9 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
     lb = Nd / 2;
     mb = A->rows - lb;
     nb = A->cols - lb;
+    // trailing blocks may have less than lb rows or columns
+    rb = A->rows < lb ? A->rows : lb;
+    cb = A->cols < lb ? A->cols : lb;
     for (j = 0; j < nb; j++) {
         s0 = armas_get_at_unsafe(S, j);
         s1 = armas_get_at_unsafe(S, j + lb);
@@ -96,7 +99,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
                                HALF * s1 * r1 * ((a00 + a11) - (a01 + a10)));
         }
         // for case when Nd > rows(A); here i+lb > rows(A)
-        for (; i < lb; i++) {
+        for (; i < rb; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             a01 = armas_get_unsafe(A, i, j + lb);
@@ -105,7 +108,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
         }
     }
     // Nd > cols(A); here j+lb > cols(A); this updates first and second quadrant
-    for (; j < lb; j++) {
+    for (; j < cb; j++) {
         s0 = armas_get_at_unsafe(S, j);
         for (i = 0; i < mb; i++) {
             r0 = armas_get_at_unsafe(R, i);
@@ -116,7 +119,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
             armas_set_unsafe(A, i + lb, j, HALF * s0 * r1 * (a00 - a10));
         }
         // for case when Nd > rows(A);
-        for (; i < lb; i++) {
+        for (; i < rb; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, HALF * s0 * r0 * (a00));
-- 
2.43.0


From 9560e51448211aecabdb067dc7b31ba767ddba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 42/85] fix: sparse element lookups tested column index before
 range end

---
 src/include/sparse.h | 2 +-
 src/sparse/icholz.c  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/include/sparse.h b/src/include/sparse.h
index 8a4370a..f6b7a65 100644
--- a/src/include/sparse.h
+++ b/src/include/sparse.h
@@ -255,7 +255,7 @@ int *armassp_iptr(const armas_sparse_t *A, int j)
 __ARMAS_INLINE
 int armassp_nz(const armas_sparse_t *A, int j, int ix)
 {
-    for (int p = A->ptr[j]; A->ix[p] <= ix && p < A->ptr[j+1]; p++) {
+    for (int p = A->ptr[j]; p < A->ptr[j+1] && A->ix[p] <= ix; p++) {
         if (A->ix[p] == ix)
             return p;
     }
diff --git a/src/sparse/icholz.c b/src/sparse/icholz.c
index bed4c45..86e2766 100644
--- a/src/sparse/icholz.c
+++ b/src/sparse/icholz.c
@@ -76,7 +76,7 @@ int csr_illtz_lower(armas_sparse_t * A)
             Le[p1] /= a11;
             // A22[k,:] = A22[k,:] - l21[k]*l21^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
@@ -118,7 +118,7 @@ int csr_illtz_upper(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and above diagonal
             for (p1 = p0 + 1;
@@ -166,7 +166,7 @@ int csc_illtz_lower(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and below diagonal
             for (p1 = p0 + 1;
@@ -214,7 +214,7 @@ int csc_illtz_upper(armas_sparse_t * A)
             Ue[p1] /= a11;
             // A22[:,k] = A22[:,k] - u12[k]*u12^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
-- 
2.43.0


From a70033b57991989bb278e08447a3e72c0eca8326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 43/85] fix: sparse conversions to the same storage, into used
 targets and COO copies lost elements

---
 src/sparse/convert.c | 9 ++++++---
 src/sparse/copy.c    | 1 +
 src/sparse/util.c    | 1 +
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index 65767d7..4f14926 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -239,7 +239,8 @@ armas_sparse_t *armassp_convert_to(
         return (armas_sparse_t *) 0;
     }
     // init internal arrays
-    armassp_init_arrays(A, B->rows, B->cols, B->nnz, target);
+    armassp_init_structure(A, B->rows, B->cols, B->nnz, target);
+    memset(A->ptr, 0, (A->nptr + 1) * sizeof(int));
 
     switch (B->kind) {
     case ARMASSP_COO:
@@ -252,13 +253,15 @@ armas_sparse_t *armassp_convert_to(
     case ARMASSP_CSC:
         if (target == ARMASSP_CSR)
             csc_to_csr(A, B);
-        // target CSC implies copying ...
+        else
+            armassp_copy_to(A, B);
         break;
     case ARMASSP_CSR:
     default:
         if (target == ARMASSP_CSC)
             csr_to_csc(A, B);
-        // target CSR implies copying ...
+        else
+            armassp_copy_to(A, B);
         break;
     }
     return A;
diff --git a/src/sparse/copy.c b/src/sparse/copy.c
index cf0ebc6..5e3d074 100644
--- a/src/sparse/copy.c
+++ b/src/sparse/copy.c
@@ -57,6 +57,7 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
         for (int k = 0; k < B->nnz; k++) {
             A->elems.ep[k] = B->elems.ep[k];
         }
+        A->nnz = B->nnz;
         break;
     }
     return A;
diff --git a/src/sparse/util.c b/src/sparse/util.c
index 8b5a37a..46d7bc2 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -135,6 +135,7 @@ int armassp_resize(armas_sparse_t * A, int newsize)
         free(A->elems.ep);
         A->elems.ep = nb;
         A->size = newsize;
+        A->__nbytes = newsize * sizeof(coo_elem_t);
         return 0;
     }
     // others not yet supported
-- 
2.43.0


From 9d78db876ad9536adacf7499815f6902cabb10bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 44/85] fix: armassp_hasdiag tested wrong elements for
 off-diagonals

---
 src/sparse/util.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sparse/util.c b/src/sparse/util.c
index 46d7bc2..e132ee1 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -182,18 +182,18 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
     switch (A->kind) {
     case ARMASSP_COO:
         roff = diag < 0 ? 0 : diag;
-        coff = diag > 0 ? 0 : diag;
+        coff = diag > 0 ? 0 : -diag;
         nc = diag < 0 ? A->rows + diag : A->cols - diag;
         for (i = 0; i < A->nnz; i++) {
-            if (A->elems.ep[i].i + coff == A->elems.ep[i].j + roff)
+            if (A->elems.ep[i].i + roff == A->elems.ep[i].j + coff)
                 nc--;
         }
         break;
     case ARMASSP_CSC:
         start = diag > 0 ? diag : 0;
-        end = diag < 0 ? A->cols - diag : A->cols;
+        end = diag < 0 ? A->cols + diag : A->cols;
         nc = end - start;
-        for (i = 0, j = start; j < end; i++, j++) {
+        for (i = diag < 0 ? -diag : 0, j = start; j < end; i++, j++) {
             for (p = armassp_index(A, j); p < armassp_index(A, j + 1); p++) {
                 if (armassp_at(A, p) == i) {
                     nc--;
@@ -206,7 +206,7 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
         start = diag < 0 ? -diag : 0;
         end = diag > 0 ? A->rows - diag : A->rows;
         nc = end - start;
-        for (j = 0, i = start; i < end; i++, j++) {
+        for (j = diag > 0 ? diag : 0, i = start; i < end; i++, j++) {
             for (p = armassp_index(A, i); p < armassp_index(A, i + 1); p++) {
                 if (armassp_at(A, p) == j) {
                     nc--;
-- 
2.43.0


From ee8755fde4cb7094361819927bf5bfe775625c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 45/85] fix: sparse matrix-vector product scaled wrong part of
 y and accepted wrong sizes

---
 src/sparse/gemv.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 148711e..b721260 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -29,7 +29,7 @@ int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
                const DTYPE * x, int flags)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
+    if ((flags & ARMAS_TRANS) == 0) {
 
         for (int i = 0; i < A->rows; i++)
             y[i] *= beta;
@@ -59,7 +59,7 @@ int csr_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
                const DTYPE * x, int flags)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
+    if ((flags & ARMAS_TRANS) == 0) {
         // y + alpha*A*x
         for (int j = 0; j < A->rows; j++) {
             ax = 0;
@@ -70,7 +70,7 @@ int csr_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
         }
     } else {
         // y + alpha*A^T*x
-        for (int i = 0; i < A->rows; i++)
+        for (int i = 0; i < A->cols; i++)
             y[i] *= beta;
 
         // update with linear combinations of A's rows
@@ -97,8 +97,8 @@ int armassp_mvmult(DTYPE beta, armas_dense_t * y,
 
     int ok = (flags & ARMAS_TRANS) == 0
         ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    ok = ok && ((flags & ARMAS_TRANS) == 0
+        ? armas_size(x) == A->cols : armas_size(x) == A->rows);
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
-- 
2.43.0


From 678bcf0e6c7e0393d90336a5123b33f2150e68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 46/85] fix: sparse symmetric product used elements of
 neighbouring column when diagonal is missing

---
 src/sparse/symv.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index 6e9c7d2..3c254b8 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -110,10 +110,10 @@ int csc_mvmult_lsym(DTYPE beta, DTYPE * y, DTYPE alpha,
     for (j = 0; j < A->cols; j++) {
         ax = alpha * x[j];
         // skip element above diagonal (CSC) and below diagonal (CSR) 
-        for (k = A->ptr[j]; A->ix[k] < j && k < A->ptr[j + 1]; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
         //
         yk = 0.0;
-        if (A->ix[k] == j) {
+        if (k < A->ptr[j + 1] && A->ix[k] == j) {
             yk = x[A->ix[k]] * Ae[k];
             k++;
         }
@@ -142,10 +142,10 @@ int csc_mvmult_usym(DTYPE beta, DTYPE * y, DTYPE alpha,
     for (j = A->cols - 1; j >= 0; j--) {
         ax = alpha * x[j];
         // skip rows below diagonal
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j && k >= A->ptr[j]; k--);
+        for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--);
         //
         yk = 0.0;
-        if (A->ix[k] == j) {
+        if (k >= A->ptr[j] && A->ix[k] == j) {
             yk = x[A->ix[k]] * Ae[k];
             k--;
         }
@@ -194,8 +194,8 @@ int armassp_mvmult_sym(DTYPE beta, armas_dense_t * y,
 
     int ok = (flags & ARMAS_TRANS) == 0
         ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    ok = ok && ((flags & ARMAS_TRANS) == 0
+        ? armas_size(x) == A->cols : armas_size(x) == A->rows);
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
-- 
2.43.0


From a52c94f75edb84e97fa891bdc83c66adad0b84b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 47/85] fix: sparse triangular product scans ran over row or
 column end

---
 src/sparse/trmv.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/sparse/trmv.c b/src/sparse/trmv.c
index 0a9c413..25730a6 100644
--- a/src/sparse/trmv.c
+++ b/src/sparse/trmv.c
@@ -38,7 +38,8 @@ int csc_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
             x[j] = alpha * xj;
         } else {
             // k-1 in index to last row in this column; if on diagonal 
-            x[j] = A->ix[k - 1] == j ? alpha * Ae[k - 1] * xj : 0.0;
+            x[j] = k > A->ptr[j] && A->ix[k - 1] == j
+                ? alpha * Ae[k - 1] * xj : 0.0;
         }
     }
     return 0;
@@ -54,7 +55,7 @@ int csr_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (int j = 0; j < A->rows; j++) {
         xv = unit != 0 ? x[j] : 0.0;
         // skip positions below diagonal; if unit diagonal then skip diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
             xv += Ae[k] * x[A->ix[k]];
         }
@@ -96,7 +97,7 @@ int csr_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j] = k >= A->ptr[j] && A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -112,7 +113,7 @@ int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (int j = A->cols - 1; j >= 0; j--) {
         xj = x[j];
         // skip position above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         // update x rows below diagonal
         for (i = k; i < A->ptr[j + 1]; i++) {
             x[A->ix[i]] += alpha * Ae[i] * xj;
@@ -121,7 +122,8 @@ int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j] = k < A->ptr[j + 1] && A->ix[k] == j
+                ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -152,7 +154,7 @@ int csc_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     for (j = 0; j < A->cols; j++) {
         xv = unit != 0 ? x[j] : 0.0;
         // skip rows above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
             xv += A->elems.v[k] * x[A->ix[k]];
         }
@@ -176,7 +178,8 @@ int csr_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
         if (unit != 0) {
             x[j] = alpha * xj;
         } else {
-            x[j] = A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
+            x[j] = p < A->ptr[j + 1] && A->ix[p] == j
+                ? alpha * Ae[p] * xj : 0.0;
         }
     }
     return 0;
-- 
2.43.0


From 4d25eb928751025c012c2f6c7d8f00cfe38c05b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 48/85] fix: sparse triangular solve assumed stored diagonal
 for unit diagonal matrix

---
 src/sparse/trsv.c | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 964d6d8..96e4c4f 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -31,9 +31,9 @@ int csc_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j, k;
     for (j = A->cols - 1; j >= 0; j--) {
         // skip rows below diagonal;
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j; k--);
+        for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--);
         x[j] = unit ? x[j] : x[j] / Ae[k];
-        for (i = A->ptr[j]; i < k; i++) {
+        for (i = A->ptr[j]; i <= k && A->ix[i] < j; i++) {
             x[A->ix[i]] -= Ae[i] * x[j];
         }
     }
@@ -68,7 +68,7 @@ int csc_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j;
     for (j = 0; j < A->cols; j++) {
         xk = 0;
-        for (i = A->ptr[j]; i < A->ptr[j + 1] - 1 && A->ix[i] < j; i++) {
+        for (i = A->ptr[j]; i < A->ptr[j + 1] && A->ix[i] < j; i++) {
             xk += Ae[i] * x[A->ix[i]];
         }
         // here Ax[i] == j
@@ -88,9 +88,14 @@ int csr_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int j, p;
     for (j = 0; j < A->rows; j++) {
         // skip elements below diagonal; assume diagonal always exists
-        for (p = A->ptr[j]; A->ix[p] < j; p++);
-        x[j] = unit ? x[j] : (A->ix[p] == j ? x[j] / Ae[p] : x[j] / 0.0);
-        for (p++; p < A->ptr[j + 1]; p++) {
+        for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++);
+        if (p < A->ptr[j + 1] && A->ix[p] == j) {
+            x[j] = unit ? x[j] : x[j] / Ae[p];
+            p++;
+        } else if (!unit) {
+            x[j] = x[j] / 0.0;
+        }
+        for (; p < A->ptr[j + 1]; p++) {
             x[A->ix[p]] -= Ae[p] * x[j];
         }
     }
@@ -104,11 +109,14 @@ int csc_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     int i, j;
     for (j = 0; j < A->cols; j++) {
         // skip elements above diagonal
-        for (i = A->ptr[j]; A->ix[i] < j; i++);
+        for (i = A->ptr[j]; i < A->ptr[j + 1] && A->ix[i] < j; i++);
         // compute diagonal; assumes non-zero ; A->ix[i] == j
         if (!unit)
             x[j] /= A->elems.v[i];
-        for (i += 1; i < A->ptr[j + 1]; i++) {
+        // skip diagonal element; it may be missing on unit diagonal matrix
+        if (i < A->ptr[j + 1] && A->ix[i] == j)
+            i++;
+        for (; i < A->ptr[j + 1]; i++) {
             x[A->ix[i]] -= A->elems.v[i] * x[j];
         }
     }
@@ -143,17 +151,13 @@ int csc_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     int i, j, k;
 
-    // skip elements above diagonal
-    for (i = A->ptr[A->cols - 1]; A->ix[i] < A->cols - 1; i++);
-    // compute diagonal; assumes non-zero ; A->ix[A->ptr[A->cols-1]] == A->cols-1
-    if (!unit)
-        x[A->cols - 1] /= Ae[i];
-
-    for (j = A->cols - 2; j >= 0; j--) {
+    for (j = A->cols - 1; j >= 0; j--) {
         // skip elements above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j; k++);
-        // A->ix[k] == first row index equals column index
-        for (i = k + 1; i < A->ptr[j + 1]; i++) {
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
+        // A->ix[k] == first row index equals column index; it may be missing
+        // on unit diagonal matrix
+        i = k < A->ptr[j + 1] && A->ix[k] == j ? k + 1 : k;
+        for (; i < A->ptr[j + 1]; i++) {
             x[j] -= Ae[i] * x[A->ix[i]];
         }
         // compute diagonal; assumes non-zero ; A->ix[k] == j
@@ -170,10 +174,13 @@ int csr_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
     DTYPE *Ae = A->elems.v;
     for (j = A->rows - 1; j >= 0; j--) {
         // skip elements above diagonal
-        for (p = A->ptr[j + 1] - 1; A->ix[p] > j; p--);
+        for (p = A->ptr[j + 1] - 1; p >= A->ptr[j] && A->ix[p] > j; p--);
         if (!unit)
             x[j] /= Ae[p];
-        for (p--; p >= A->ptr[j]; p--) {
+        // skip diagonal element; it may be missing on unit diagonal matrix
+        if (p >= A->ptr[j] && A->ix[p] == j)
+            p--;
+        for (; p >= A->ptr[j]; p--) {
             x[A->ix[p]] -= Ae[p] * x[j];
         }
     }
-- 
2.43.0


From ad41c3f9feaadd9350f31d805c7715f9279365aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 49/85] fix: sparse triangular solve ignored alpha

---
 src/sparse/trsv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 96e4c4f..d18632e 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -228,6 +228,11 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
 
     DTYPE *y = armas_data(x);
 
+    if (alpha != ONE) {
+        for (int i = 0; i < A->rows; i++)
+            y[i] *= alpha;
+    }
+
     // TODO: we assume column vector here; how about a row vector??
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_TRANS)) {
     case ARMAS_UPPER | ARMAS_TRANS:
-- 
2.43.0


From 4f7f7cb5f297aa5a8f9750bcb19fdbebef6d068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 50/85] fix: ILU preconditioner applied factors in wrong order

---
 src/sparse/iluz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index 3cee9fb..71b8df5 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -154,9 +154,9 @@ int precond_ilu(armas_dense_t * z,
 {
     if (z != x)
         armas_mcopy(z, x, 0, cf);
-    // x = M^-1*x = L^-1*(U^-1*x)
-    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
+    // x = M^-1*x = (L*U)^-1*x = U^-1*(L^-1*x)
     armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UNIT | ARMAS_LOWER, cf);
+    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
     return 0;
 }
 
-- 
2.43.0


From 97a7742f8513d0ed1d8f4fab75b7799e3c0829c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 51/85] fix: armassp_add crashed and armassp_addto_w computed
 wrong transposed sums

---
 src/sparse/accum.c |   4 +-
 src/sparse/add.c   | 108 ++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 95 insertions(+), 17 deletions(-)

diff --git a/src/sparse/accum.c b/src/sparse/accum.c
index c196285..2bcd8b9 100644
--- a/src/sparse/accum.c
+++ b/src/sparse/accum.c
@@ -159,12 +159,12 @@ void armas_accum_gather(armas_sparse_t * C,
     int k, head;
     C->ptr[ik] = C->nnz;
     for (head = 0; head < acc->tail; head++) {
+        // need realloc??; core dump now if yes
+        assert(C->nnz < C->size);
         k = acc->queue[head];
         C->ix[C->nnz] = k;
         C->elems.v[C->nnz] = alpha * acc->elems[k];
         C->nnz++;
-        // need realloc??; core dump now if yes
-        assert(C->nnz < C->size);
     }
 }
 
diff --git a/src/sparse/add.c b/src/sparse/add.c
index 53febd8..f788d5d 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -99,11 +99,11 @@ void add_csr_tn(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->rows; i++) {
+    for (i = 0; i < B->rows; i++) {
         for (j = 0; j < A->rows; j++) {
             if ((p = armassp_nz(A, j, i)) < 0)
                 continue;
-            val = beta * armassp_value(A, p);
+            val = alpha * armassp_value(A, p);
             armas_accum_addpos(spa, j, val, i);
         }
         for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
@@ -114,10 +114,42 @@ void add_csr_tn(armas_sparse_t * C,
         armas_accum_gather(C, 1.0, spa, i, C->size);
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[B->rows] = C->nnz;
+    C->nptr = B->rows;
 }
 
+// C = alpha*A^T + beta*B^T; for CSR and CSC storage
+static
+void add_tt(armas_sparse_t * C,
+            DTYPE alpha, const armas_sparse_t * A,
+            DTYPE beta, const armas_sparse_t * B,
+            armas_accum_t * spa)
+{
+    int i, j, p, nc;
+    DTYPE val;
+
+    C->nnz = 0;
+    armas_accum_clear(spa);
+
+    nc = A->kind == ARMASSP_CSR ? A->cols : A->rows;
+    for (i = 0; i < nc; i++) {
+        for (j = 0; j < A->nptr; j++) {
+            if ((p = armassp_nz(A, j, i)) >= 0) {
+                val = alpha * armassp_value(A, p);
+                armas_accum_addpos(spa, j, val, i);
+            }
+            if ((p = armassp_nz(B, j, i)) >= 0) {
+                val = beta * armassp_value(B, p);
+                armas_accum_addpos(spa, j, val, i);
+            }
+        }
+        // gather data to C[i,:] row or C[:,i] column
+        armas_accum_gather(C, 1.0, spa, i, C->size);
+        spa->tail = 0;
+    }
+    C->ptr[nc] = C->nnz;
+    C->nptr = nc;
+}
 
 static
 void add_csc_nn(armas_sparse_t * C,
@@ -180,6 +212,37 @@ void add_csc_nt(armas_sparse_t * C,
     C->nptr = A->cols;
 }
 
+static
+void add_csc_tn(armas_sparse_t * C,
+                DTYPE alpha, const armas_sparse_t * A,
+                DTYPE beta, const armas_sparse_t * B,
+                armas_accum_t * spa)
+{
+    int i, j, p;
+    DTYPE val;
+
+    C->nnz = 0;
+    armas_accum_clear(spa);
+
+    for (i = 0; i < B->cols; i++) {
+        for (j = 0; j < A->cols; j++) {
+            if ((p = armassp_nz(A, j, i)) < 0)
+                continue;
+            val = alpha * armassp_value(A, p);
+            armas_accum_addpos(spa, j, val, i);
+        }
+        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
+            val = beta * armassp_value(B, p);
+            armas_accum_addpos(spa, armassp_at(B, p), val, i);
+        }
+        // gather data to C[:,i] column
+        armas_accum_gather(C, 1.0, spa, i, C->size);
+        spa->tail = 0;
+    }
+    C->ptr[B->cols] = C->nnz;
+    C->nptr = B->cols;
+}
+
 /**
  * @brief Compute \f$ C = \alpha * A + \beta * B \f$
  *
@@ -209,7 +272,12 @@ int armassp_addto_w(armas_sparse_t * C,
     if (A->kind != B->kind) {
         return -ARMAS_EINVAL;
     }
-    if (A->rows != B->rows || A->cols != B->cols) {
+    // dimensions of op(A), op(B) and C must match
+    int m = (bits & ARMAS_TRANSA) != 0 ? A->cols : A->rows;
+    int n = (bits & ARMAS_TRANSA) != 0 ? A->rows : A->cols;
+    int ok = (bits & ARMAS_TRANSB) != 0
+        ? B->cols == m && B->rows == n : B->rows == m && B->cols == n;
+    if (!ok || !C || C->kind != A->kind || C->rows != m || C->cols != n) {
         return -ARMAS_ESIZE;
     }
 
@@ -229,6 +297,9 @@ int armassp_addto_w(armas_sparse_t * C,
                        armas_wptr(wb), armas_wbytes(wb));
 
     switch (bits & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    case ARMAS_TRANSA | ARMAS_TRANSB:
+        add_tt(C, alpha, A, beta, B, &spa);
+        break;
     case ARMAS_TRANSB:
         if (A->kind == ARMASSP_CSC) {
             add_csc_nt(C, alpha, A, beta, B, &spa);
@@ -238,6 +309,7 @@ int armassp_addto_w(armas_sparse_t * C,
         break;
     case ARMAS_TRANSA:
         if (A->kind == ARMASSP_CSC) {
+            add_csc_tn(C, alpha, A, beta, B, &spa);
         } else {
             add_csr_tn(C, alpha, A, beta, B, &spa);
         }
@@ -270,22 +342,28 @@ armas_sparse_t *armassp_add(DTYPE alpha,
     armas_sparse_t *C = (armas_sparse_t *) 0;
     armas_wbuf_t work = ARMAS_WBNULL;
 
-    if (!A || !B)
+    if (!cf)
+        cf = armas_conf_default();
+    if (!A || !B || A->kind == ARMASSP_COO)
         return C;
 
-    if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0)
+    // allocate target matrix; size estimate 
+    int cnz = A->nnz + B->nnz;
+    if ((bits & ARMAS_TRANSA) != 0)
+        C = armassp_new(A->cols, A->rows, cnz, A->kind);
+    else
+        C = armassp_new(A->rows, A->cols, cnz, A->kind);
+    if (!C)
         return C;
 
+    if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0) {
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
     if (!armas_walloc(&work, work.bytes)) {
         cf->error = ARMAS_EWORK;
-        return C;
-    }
-    // allocate target matrix; size estimate 
-    int cnz = A->nnz + B->nnz;
-    C = armassp_new(A->rows, A->cols, cnz, A->kind);
-    if (!C) {
-        armas_wrelease(&work);
-        return C;
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
     }
 
     armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf);
-- 
2.43.0


From 0353e96eb508971f90ee93ae8f1abf85bd8a1a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 52/85] fix: armassp_mult did not compute the product and
 armassp_multto_w failed for rectangular operands

---
 src/sparse/mult.c | 96 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 73 insertions(+), 23 deletions(-)

diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 778d228..73794c2 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -50,7 +50,7 @@ int mult_csr_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -100,7 +100,7 @@ int mult_csr_tn(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->rows; i++) {
+    for (i = 0; i < A->cols; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < A->rows; j++) {
             if ((p = armassp_nz(A, j, i)) < 0)
@@ -112,8 +112,8 @@ int mult_csr_tn(armas_sparse_t * C,
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[A->cols] = C->nnz;
+    C->nptr = A->cols;
     return 0;
 }
 
@@ -146,8 +146,8 @@ int mult_csr_tt(armas_sparse_t * C,
         armas_accum_gather(C, alpha, spa, i, C->size);
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[C->rows] = C->nnz;
+    C->nptr = C->rows;
     return 0;
 }
 
@@ -221,7 +221,7 @@ int mult_csc_nt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < B->cols; i++) {
+    for (i = 0; i < B->rows; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < B->cols; j++) {
             if ((p = armassp_nz(B, j, i)) < 0)
@@ -251,8 +251,8 @@ int mult_csc_tt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < C->rows; i++) {
-        for (j = 0; j < C->cols; j++) {
+    for (i = 0; i < C->cols; i++) {
+        for (j = 0; j < C->rows; j++) {
             // get column j from A;
             for (p1 = armassp_index(A, j); p1 < armassp_index(A, j + 1); p1++) {
                 k = armassp_at(A, p1);
@@ -272,11 +272,39 @@ int mult_csc_tt(armas_sparse_t * C,
     return 0;
 }
 
+// upper bound for number of non-zero elements in op(A)*op(B)
 size_t armassp_mult_nnz(const armas_sparse_t * A,
                           const armas_sparse_t * B, int flags)
 {
+    int nk = (flags & ARMAS_TRANSA) == 0 ? A->cols : A->rows;
+    int m = (flags & ARMAS_TRANSA) == 0 ? A->rows : A->cols;
     int n = (flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows;
-    return ((size_t) A->nnz) * ((size_t) B->nnz) / n;
+    size_t nnz = 0, maxnz = ((size_t) m) * ((size_t) n);
+    int *cnt = (int *) calloc(2 * (size_t) nk, sizeof(int));
+    if (!cnt)
+        return maxnz;
+
+    // count elements on columns of op(A) and on rows of op(B)
+    int *ca = cnt, *rb = &cnt[nk];
+    int csr = A->kind == ARMASSP_CSR;
+    if (csr == ((flags & ARMAS_TRANSA) != 0)) {
+        for (int k = 0; k < nk; k++)
+            ca[k] = armassp_len(A, k);
+    } else {
+        for (int p = 0; p < A->nnz; p++)
+            ca[armassp_at(A, p)]++;
+    }
+    if (csr == ((flags & ARMAS_TRANSB) == 0)) {
+        for (int k = 0; k < nk; k++)
+            rb[k] = armassp_len(B, k);
+    } else {
+        for (int p = 0; p < B->nnz; p++)
+            rb[armassp_at(B, p)]++;
+    }
+    for (int k = 0; k < nk; k++)
+        nnz += ((size_t) ca[k]) * ((size_t) rb[k]);
+    free(cnt);
+    return nnz < maxnz ? nnz : maxnz;
 }
 
 /**
@@ -333,7 +361,8 @@ int armassp_multto_w(armas_sparse_t * C,
         ok = A->cols == B->rows && C->rows == m && C->cols == n;
         break;
     }
-    if (!ok || !w) {
+    if (!ok || !w || A->kind != B->kind || A->kind != C->kind
+        || A->kind == ARMASSP_COO) {
         cf->error = ARMAS_EINVAL;
         return -1;
     }
@@ -343,11 +372,8 @@ int armassp_multto_w(armas_sparse_t * C,
         w->bytes = armas_accum_need(C);
         return 0;
     }
-    // 
-    // size estimate;
-    int cnz = A->nnz * B->nnz / n;
-    size_t cbytes = armassp_bytes_needed(m, n, cnz, C->kind);
-    if (armassp_nbytes(C) < cbytes) {
+    // space for result elements
+    if (((size_t) C->size) < armassp_mult_nnz(A, B, flags)) {
         cf->error = ARMAS_ESIZE;
         return -2;
     }
@@ -359,8 +385,7 @@ int armassp_multto_w(armas_sparse_t * C,
     }
 
     armas_accum_t spa;
-    armas_accum_make(&spa, armas_accum_dim(C), armas_wreserve_bytes(w, sz),
-                       armas_wbytes(w));
+    armas_accum_make(&spa, armas_accum_dim(C), armas_wptr(w), armas_wbytes(w));
 
     int stat = 0;
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
@@ -416,19 +441,44 @@ armas_sparse_t *armassp_mult(DTYPE alpha,
                                  int flags, armas_conf_t * cf)
 {
     armas_sparse_t *C;
-    //armas_accum_t spa;
+    armas_wbuf_t work = ARMAS_WBNULL;
+
+    if (!cf)
+        cf = armas_conf_default();
 
     if (!A || !B || A->kind != B->kind || A->kind == ARMASSP_COO) {
         return (armas_sparse_t *) 0;
     }
-    // allocate target matrix; size estimate 
-    int cnz = A->nnz * B->nnz / A->cols;
-    C = armassp_new(A->rows, B->cols, cnz, A->kind);
+    int m = (flags & ARMAS_TRANSA) == 0 ? A->rows : A->cols;
+    int ka = (flags & ARMAS_TRANSA) == 0 ? A->cols : A->rows;
+    int kb = (flags & ARMAS_TRANSB) == 0 ? B->rows : B->cols;
+    int n = (flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows;
+    if (ka != kb) {
+        cf->error = ARMAS_ESIZE;
+        return (armas_sparse_t *) 0;
+    }
+    // allocate target matrix; at least one element to have valid structure
+    size_t cnz = armassp_mult_nnz(A, B, flags);
+    C = armassp_new(m, n, cnz > 0 ? (int) cnz : 1, A->kind);
     if (!C) {
         cf->error = ARMAS_EMEMORY;
         return (armas_sparse_t *) 0;
     }
-
+    if (armassp_multto_w(C, alpha, A, B, flags, &work, cf) < 0) {
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
+    if (!armas_walloc(&work, work.bytes)) {
+        cf->error = ARMAS_EMEMORY;
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
+    int stat = armassp_multto_w(C, alpha, A, B, flags, &work, cf);
+    armas_wrelease(&work);
+    if (stat < 0) {
+        armassp_free(C);
+        return (armas_sparse_t *) 0;
+    }
     return C;
 }
 #else
-- 
2.43.0


From 62d9c0b6a0557fb674824e1ce3f17ca329e74f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 53/85] fix: dgemm_ operand sizes with transposed operands and
 row major cblas_gemm

---
 src/compat/gemm.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 1940484..fd2452b 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,13 +33,18 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
-    armas_make(&a, *m, *k, *lda, A);
-    armas_make(&b, *k, *n, *ldb, B);
-
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) == 'T') {
         flags |= ARMAS_TRANSA;
-    if (toupper(*transb) == 'T')
+        armas_make(&a, *k, *m, *lda, A);
+    } else {
+        armas_make(&a, *m, *k, *lda, A);
+    }
+    if (toupper(*transb) == 'T') {
         flags |= ARMAS_TRANSB;
+        armas_make(&b, *n, *k, *ldb, B);
+    } else {
+        armas_make(&b, *k, *n, *ldb, B);
+    }
 
     armas_mult(*beta, &c, *alpha, &a, &b, flags, conf);
 }
@@ -73,22 +78,25 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
         armas_make(&Ca, M, N, ldc, C);
         break;
     case CblasRowMajor:
-        if (transa == CblasNoTrans) {
-            flags |= ARMAS_TRANSA;
+        // row major data is the transpose of column major data; compute
+        // C^T = op(B)^T*op(A)^T
+        if (transa == CblasTrans) {
+            flags |= ARMAS_TRANSB;
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
         } else {
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
         }
-        if (transb == CblasNoTrans) {
-            flags |= ARMAS_TRANSB;
+        if (transb == CblasTrans) {
+            flags |= ARMAS_TRANSA;
             armas_make(&Ba, K, N, ldb, B);
         } else {
             armas_make(&Ba, N, K, ldb, B);
         }
         armas_make(&Ca, N, M, ldc, C);
-        break;
+        armas_mult(beta, &Ca, alpha, &Ba, &Aa, flags, &conf);
+        return;
     default:
         return;
     }
-- 
2.43.0


From 7ca779b3a8370abebead8e25d27fc666bdb219ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 54/85] fix: cblas_symm used wrong size for column major A

---
 src/compat/symm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat/symm.c b/src/compat/symm.c
index 11df4f5..df7cf1c 100644
--- a/src/compat/symm.c
+++ b/src/compat/symm.c
@@ -79,10 +79,10 @@ void cblas_symm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
     default:
         if (side == CblasRight) {
             flags |= ARMAS_RIGHT;
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             flags |= ARMAS_LEFT;
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         armas_make(&Ba, M, N, ldb, B);
         armas_make(&Ca, M, N, ldc, C);
-- 
2.43.0


From 8cdae148d5219d42ce40ea6ff3ca3cd2e1b810dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 55/85] fix: row major cblas_trmm and cblas_trsm used wrong
 sizes and transposed A

---
 src/compat/trmm.c | 7 ++++---
 src/compat/trsm.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 0c176de..8fc26b3 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -86,16 +86,17 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        // row major A is transpose of column major A but so is the product
+        if (transa == CblasTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 6f2ed4d..7edd854 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -86,16 +86,17 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        // row major A is transpose of column major A but so is the product
+        if (transa == CblasTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
-- 
2.43.0


From 5ccfa288b45412d6a679f46d9373a6627ac6e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 56/85] fix: conjugate transpose ignored for real matrices in
 BLAS compatibility functions

---
 src/compat/gemm.c  | 12 ++++++------
 src/compat/gemv.c  |  4 ++--
 src/compat/syr2k.c |  4 ++--
 src/compat/syrk.c  |  4 ++--
 src/compat/trmm.c  |  6 +++---
 src/compat/trmv.c  |  4 ++--
 src/compat/trsm.c  |  6 +++---
 src/compat/trsv.c  |  4 ++--
 8 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index fd2452b..193977a 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,13 +33,13 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
-    if (toupper(*transa) == 'T') {
+    if (toupper(*transa) == 'T' || toupper(*transa) == 'C') {
         flags |= ARMAS_TRANSA;
         armas_make(&a, *k, *m, *lda, A);
     } else {
         armas_make(&a, *m, *k, *lda, A);
     }
-    if (toupper(*transb) == 'T') {
+    if (toupper(*transb) == 'T' || toupper(*transb) == 'C') {
         flags |= ARMAS_TRANSB;
         armas_make(&b, *n, *k, *ldb, B);
     } else {
@@ -61,7 +61,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
 
     switch (order) {
     case CblasColMajor:
-        if (transa == CblasTrans) {
+        if (transa == CblasTrans || transa == CblasConjTrans) {
             flags |= ARMAS_TRANSA;
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
@@ -69,7 +69,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
         }
-        if (transb == CblasTrans) {
+        if (transb == CblasTrans || transb == CblasConjTrans) {
             flags |= ARMAS_TRANSB;
             armas_make(&Ba, N, K, ldb, B);
         } else {
@@ -80,7 +80,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
     case CblasRowMajor:
         // row major data is the transpose of column major data; compute
         // C^T = op(B)^T*op(A)^T
-        if (transa == CblasTrans) {
+        if (transa == CblasTrans || transa == CblasConjTrans) {
             flags |= ARMAS_TRANSB;
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
@@ -88,7 +88,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
         }
-        if (transb == CblasTrans) {
+        if (transb == CblasTrans || transb == CblasConjTrans) {
             flags |= ARMAS_TRANSA;
             armas_make(&Ba, K, N, ldb, B);
         } else {
diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index c2b6dbb..e796e85 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -32,7 +32,7 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     armas_dense_t y, a, x;
     int ylen, xlen, flags = 0;
 
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) == 'T' || toupper(*trans) == 'C')
         flags |= ARMAS_TRANS;
 
     ylen = flags & ARMAS_TRANS ? *n : *m;
@@ -74,7 +74,7 @@ void cblas_gemv(const enum CBLAS_ORDER order, const enum CBLAS_TRANS trans,
         break;
     case CblasColMajor:
     default:
-        if (trans == CblasTrans)
+        if (trans == CblasTrans || trans == CblasConjTrans)
             flags |= ARMAS_TRANS;
         ylen = flags & ARMAS_TRANS ? N : M;
         xlen = flags & ARMAS_TRANS ? M : N;
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 598e351..a1210c9 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -33,7 +33,7 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) == 'T' || toupper(*trans) == 'C')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
@@ -71,7 +71,7 @@ void cblas_syr2k(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans) {
+        if (trans == CblasTrans || trans == CblasConjTrans) {
             flags |= ARMAS_TRANS;
             armas_make(&Aa, K, N, lda, A);
             armas_make(&Ba, K, N, ldb, B);
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index d13235b..4c5dcfc 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -32,7 +32,7 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) == 'T' || toupper(*trans) == 'C')
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
@@ -68,7 +68,7 @@ void cblas_syrk(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans) {
+        if (trans == CblasTrans || trans == CblasConjTrans) {
             flags |= ARMAS_TRANS;
             armas_make(&Aa, K, N, lda, A);
         } else {
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 8fc26b3..486a301 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -45,7 +45,7 @@ void blas_trmmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) == 'T' || toupper(*transa) == 'C')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -69,7 +69,7 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa == CblasTrans || transa == CblasConjTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -87,7 +87,7 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
         // row major A is transpose of column major A but so is the product
-        if (transa == CblasTrans)
+        if (transa == CblasTrans || transa == CblasConjTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 11eaa66..f1713d4 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -40,7 +40,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) == 'T' || toupper(*trans) == 'C')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -75,7 +75,7 @@ void cblas_trmv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans)
+        if (trans == CblasTrans || trans == CblasConjTrans)
             flags |= ARMAS_TRANS;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 7edd854..41d086d 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -45,7 +45,7 @@ void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) == 'T' || toupper(*transa) == 'C')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -69,7 +69,7 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa == CblasTrans || transa == CblasConjTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -87,7 +87,7 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
         // row major A is transpose of column major A but so is the product
-        if (transa == CblasTrans)
+        if (transa == CblasTrans || transa == CblasConjTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 96907f9..31d8748 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -40,7 +40,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (toupper(*trans) == 'T' || toupper(*trans) == 'C')
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -75,7 +75,7 @@ void cblas_trsv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans)
+        if (trans == CblasTrans || trans == CblasConjTrans)
             flags |= ARMAS_TRANS;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-- 
2.43.0


From aa3a0c6a255443709a6865a4bd43542d95b38d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 57/85] fix: BLAS compatible syr2k used wrong leading dimension
 for B and wrong name

---
 src/compat/syr2k.c                 | 6 ++++--
 src/include/float32/names_compat.h | 2 +-
 src/include/float64/names_compat.h | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index a1210c9..a1b5fef 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -39,10 +39,10 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     armas_make(&c, *n, *n, *ldc, C);
     if (flags & ARMAS_TRANS) {
         armas_make(&a, *k, *n, *lda, A);
-        armas_make(&b, *k, *n, *lda, B);
+        armas_make(&b, *k, *n, *ldb, B);
     } else {
         armas_make(&a, *n, *k, *lda, A);
-        armas_make(&b, *n, *k, *lda, B);
+        armas_make(&b, *n, *k, *ldb, B);
     }
     armas_update2_sym(*beta, &c, *alpha, &a, &b, flags, conf);
 }
@@ -64,8 +64,10 @@ void cblas_syr2k(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
         if (trans == CblasNoTrans) {
             flags |= ARMAS_TRANS;
             armas_make(&Aa, K, N, lda, A);
+            armas_make(&Ba, K, N, ldb, B);
         } else {
             armas_make(&Aa, N, K, lda, A);
+            armas_make(&Ba, N, K, ldb, B);
         }
         break;
     case CblasColMajor:
diff --git a/src/include/float32/names_compat.h b/src/include/float32/names_compat.h
index 7747fcc..8c800d5 100644
--- a/src/include/float32/names_compat.h
+++ b/src/include/float32/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  sgemm_
 #define blas_symmf  ssymm_
-#define blas_syr2kf ssyrk2_
+#define blas_syr2kf ssyr2k_
 #define blas_syrkf  ssyrk_
 #define blas_trmmf  strmm_
 #define blas_trsmf  strsm_
diff --git a/src/include/float64/names_compat.h b/src/include/float64/names_compat.h
index 8e3c537..f78d635 100644
--- a/src/include/float64/names_compat.h
+++ b/src/include/float64/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  dgemm_
 #define blas_symmf  dsymm_
-#define blas_syr2kf dsyrk2_
+#define blas_syr2kf dsyr2k_
 #define blas_syrkf  dsyrk_
 #define blas_trmmf  dtrmm_
 #define blas_trsmf  dtrsm_
-- 
2.43.0


From b598957235d556253b6cb5e10b90983b72bddfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 58/85] fix: idamax_ index base, dscal_ argument order and
 nonpositive increments of BLAS compatible functions

---
 src/compat/asum.c  | 2 ++
 src/compat/iamax.c | 5 ++++-
 src/compat/nrm2.c  | 2 ++
 src/compat/scal.c  | 4 +++-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compat/asum.c b/src/compat/asum.c
index e606841..81fb4ff 100644
--- a/src/compat/asum.c
+++ b/src/compat/asum.c
@@ -29,6 +29,8 @@ DTYPE blas_asumf(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return ZERO;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
diff --git a/src/compat/iamax.c b/src/compat/iamax.c
index fd407a6..3a965ab 100644
--- a/src/compat/iamax.c
+++ b/src/compat/iamax.c
@@ -29,12 +29,15 @@ int blas_iamaxf(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return 0;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
         armas_make(&x, 1, *n, *incx, X);
     }
-    return armas_iamax(&x, conf);
+    // Fortran indexing starts from one
+    return armas_iamax(&x, conf) + 1;
 }
 #endif
 
diff --git a/src/compat/nrm2.c b/src/compat/nrm2.c
index cb1ac42..efc9d88 100644
--- a/src/compat/nrm2.c
+++ b/src/compat/nrm2.c
@@ -29,6 +29,8 @@ DTYPE blas_nrm2f(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return ZERO;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
diff --git a/src/compat/scal.c b/src/compat/scal.c
index 68813e4..61c6a1f 100644
--- a/src/compat/scal.c
+++ b/src/compat/scal.c
@@ -24,11 +24,13 @@
 #include "matrix.h"
 
 #if defined(blas_scalf)
-void blas_scalf(int *n, DTYPE * X, int *incx, DTYPE * alpha)
+void blas_scalf(int *n, DTYPE * alpha, DTYPE * X, int *incx)
 {
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n < 1 || *incx < 1)
+        return;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
-- 
2.43.0


From 7202679d2129ca57d0ab6b2e3a9da3ac6b66d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 59/85] fix: drotg_ did not overwrite its arguments

---
 src/compat/rot.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/compat/rot.c b/src/compat/rot.c
index 41aea13..c751e6f 100644
--- a/src/compat/rot.c
+++ b/src/compat/rot.c
@@ -72,8 +72,16 @@ void blas_rotf(int *n, DTYPE * X, int *incx, DTYPE * Y, int *incy, DTYPE * c,
 #if defined(blas_rotgf)
 void blas_rotgf(DTYPE * sa, DTYPE * sb, DTYPE * c, DTYPE * s)
 {
-    DTYPE r;
-    armas_gvcompute(c, s, &r, *sa, *sb);
+    DTYPE r, a = *sa, b = *sb;
+
+    armas_gvcompute(c, s, &r, a, b);
+    // r overwrites a and b is overwritten with z from which the rotation
+    // can be recovered
+    *sa = r;
+    if (ABS(a) > ABS(b) || b == ZERO)
+        *sb = *s;
+    else
+        *sb = *c != ZERO ? ONE / (*c) : ONE;
 }
 #endif
 
-- 
2.43.0


From db0f20e7a6568f0084777b8c765a3a05a8071e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 60/85] fix: BLAS compatible gemv, ger, syr2, trmv and trsm
 were never compiled

---
 src/compat/gemv.c | 4 ++--
 src/compat/ger.c  | 2 +-
 src/compat/syr2.c | 2 +-
 src/compat/trmm.c | 2 +-
 src/compat/trmv.c | 2 +-
 src/compat/trsm.c | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index e796e85..9799dc8 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -9,11 +9,11 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(gemvf) || defined(cblas_gemv)
+#if defined(blas_gemvf) || defined(cblas_gemv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_gemv)
+#if defined(armas_mvmult)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/ger.c b/src/compat/ger.c
index a68f2ad..84c0799 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -13,7 +13,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(ENABLE_COMPAT) && defined(armas_mvupdate)
+#if defined(armas_mvupdate)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 643ff7d..4b06f25 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(syr2f) || defined(cblas_syr2)
+#if defined(blas_syr2f) || defined(cblas_syr2)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 486a301..5cea62d 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmmf) || defined(cblas_trmm)
+#if defined(blas_trmmf) || defined(cblas_trmm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index f1713d4..be29ff6 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmvf) || defined(cblas_trmv)
+#if defined(blas_trmvf) || defined(cblas_trmv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 41d086d..dd95b43 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trsmf) || defined(cblas_trsm)
+#if defined(blas_trsmf) || defined(cblas_trsm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
@@ -23,7 +23,7 @@
 #include <ctype.h>
 #include "matrix.h"
 
-#if defined(trsmf)
+#if defined(blas_trsmf)
 void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
                 int *n, DTYPE * alpha, DTYPE * A, int *lda, DTYPE * B, int *ldb)
 {
-- 
2.43.0


From a4cb82eff61827fbee433849c3b59c9ff53b8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 61/85] fix: cache buffer splits with empty, overlapping or too
 tall blocks

---
 src/base/cache.c | 66 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 10 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 7843029..b498547 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -150,6 +150,46 @@ void armas_cbuf_free(armas_cbuf_t *cbuf)
     }
 }
 
+/*
+ * Adjust proposed block sizes so that they can be used for any ratio of the
+ * configured sizes.
+ *
+ *  1. kn is nonzero multiple of cache line items
+ *  2. mn and nn are nonzero multiples of 4
+ *  3. mn <= kn and nn <= kn; square blocks fit to column stride of kn items
+ *  4. kn*(mn + ncopy*nn) <= S
+ */
+static
+void cbuf_fit_blocks(size_t *mb, size_t *nb, size_t *kb, size_t ncopy, size_t S, size_t p)
+{
+    size_t mn = *mb, nn = *nb, kn = *kb;
+    size_t cols, clp = CACHELINE/p, kmax = S/(4*(1 + ncopy));
+
+    if (kn > kmax)
+        kn = kmax;
+    kn -= kn % clp;
+    if (kn < clp)
+        kn = clp;
+    if (mn > kn)
+        mn = kn;
+    if (nn > kn)
+        nn = kn;
+    // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
+    mn = mn < 4 ? 4 : mn & ~0x3;
+    nn = nn < 4 ? 4 : nn & ~0x3;
+
+    cols = S/kn;
+    if (mn + ncopy*nn > cols) {
+        if (mn > cols/(1 + ncopy))
+            mn = (cols/(1 + ncopy)) & ~0x3;
+        if (nn > (cols - mn)/ncopy)
+            nn = ((cols - mn)/ncopy) & ~0x3;
+    }
+    *mb = mn;
+    *nb = nn;
+    *kb = kn;
+}
+
 /*
  * Divide buffer with size 'S' bytes to 2 blocks of size 'k*m' and 'k*n' items
  * where item size is 'p' bytes.
@@ -198,7 +238,8 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        mn = nn = p < sizeof(double) ? 8 : 4;
+        kn = CACHELINE/p;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
@@ -210,10 +251,8 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
 
         nn = (size_t)((double)kn/b);
         mn = (size_t)((double)nn*a);
-        // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
-        nn &= ~0x3;
-        mn &= ~0x3;
     }
+    cbuf_fit_blocks(&mn, &nn, &kn, 1, S, p);
     *mb = mn;
     *nb = nn;
     *kb = kn;
@@ -230,7 +269,11 @@ int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len) {
+        return -1;
+    }
+    // blocks must not be empty and must fit to column stride
+    if (mb < 4 || nb < 4 || mb > kb || nb > kb) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -315,7 +358,8 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
     double a, b;
 
     if (cbuf->len <= CACHEMIN) {
-        mn = nn = kn = p < sizeof(double) ? 8 : 4;
+        mn = nn = p < sizeof(double) ? 8 : 4;
+        kn = CACHELINE/p;
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
@@ -331,10 +375,8 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
 
         nn = (size_t)((double)kn/b);
         mn = (size_t)((double)nn*a);
-        // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
-        nn &= ~0x3;
-        mn &= ~0x3;
     }
+    cbuf_fit_blocks(&mn, &nn, &kn, 2, S, p);
     *mb = mn;
     *nb = nn;
     *kb = kn;
@@ -356,7 +398,11 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + 2*nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len) {
+        return -1;
+    }
+    // blocks must not be empty and must fit to column stride
+    if (mb < 4 || nb < 4 || mb > kb || nb > kb) {
         return -1;
     }
     if (kb > (CACHELINE/p))
-- 
2.43.0


From e99e67eb9063f2281f733be11c59d52465ec17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 62/85] fix: reading configuration modified process environment

---
 src/base/env.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/base/env.c b/src/base/env.c
index 07150c0..3d82db0 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -66,13 +66,19 @@ static int has_read_environment = 0;
 static
 void armas_read_environment()
 {
-    char *cstr, *tok;
+    char *cstr, *tok, *str, buf[256];
     int n, val;
 
     if (has_read_environment)
         return;
 
-    cstr = getenv(ENV_ARMAS_CONFIG);
+    // parsing modifies string; use copy to keep process environment intact
+    cstr = (char *)0;
+    if ((str = getenv(ENV_ARMAS_CONFIG)) != (char *)0) {
+        strncpy(buf, str, sizeof(buf) - 1);
+        buf[sizeof(buf) - 1] = '\0';
+        cstr = buf;
+    }
     // parse string: "MB,NB,KB,LB,BLAS1MIN,BLAS2MIN,ISFIXED"
     for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
         val = atoi(tok);
@@ -109,8 +115,10 @@ void armas_read_environment()
     }
 
     // get cache memory size; L2MEM,L1MEM
-    cstr = getenv(ENV_ARMAS_CACHE);
-    if (cstr) {
+    if ((str = getenv(ENV_ARMAS_CACHE)) != (char *)0) {
+        strncpy(buf, str, sizeof(buf) - 1);
+        buf[sizeof(buf) - 1] = '\0';
+        cstr = buf;
         char *endptr;
         size_t val;
         for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
-- 
2.43.0


From 5dc4013c3a9ae615d17aebfd17f2de1632cfd683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 63/85] fix: recursive routines never ended with configured
 minimum length of one

---
 src/base/env.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base/env.c b/src/base/env.c
index 3d82db0..26d8c23 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -100,12 +100,14 @@ void armas_read_environment()
                 __env_config.lb = val;
             break;
         case 4:
+            // recursion does not end with limit less than two
             if (val > 0)
-                __env_config.blas1min = val;
+                __env_config.blas1min = val < 2 ? 2 : val;
             break;
         case 5:
+            // recursion does not end with limit less than two
             if (val > 0)
-                __env_config.blas2min = val;
+                __env_config.blas2min = val < 2 ? 2 : val;
             break;
         case 6:
         default:
-- 
2.43.0


From 7ab2696af6cce2d62687fe3298d138db5cedb71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 64/85] fix: buffer size computation overflowed with huge
 configured cache memory

---
 src/base/env.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/env.c b/src/base/env.c
index 26d8c23..46e6ae5 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -23,6 +23,7 @@
 #define CMEMSIZE 256*1024L
 #define CMEM_MIN 4096
 #define L1MEM_MIN 1024
+#define CMEM_MAX ((size_t)-1/4)
 
 static struct armas_env __env_config = {
     .mb = 64,             // MB (row count)
@@ -138,6 +139,9 @@ void armas_read_environment()
                     break;
                 }
             }
+            // sizes that cannot be allocated (negative values included) are ignored
+            if (val > CMEM_MAX)
+                continue;
             switch (n) {
             case 0:
                 if (val > 0)
-- 
2.43.0


From 86dfe44c102d4e82d6594bec90902fd1393480cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:46 +0000
Subject: [PATCH 65/85] fix: CPU specification parsing did not end with zero
 step and ignored high mask bits

---
 src/base/accel.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index 98e4543..70c3c25 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -182,8 +182,8 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
             }
 
             // only processer number less than nproc
-            for (i = 0; i < 8 * sizeof(val) && start + i < nproc; i++) {
-                if ((bits & (1 << i)) != 0) {
+            for (i = 0; i < 8 * sizeof(bits) && start < nproc - i; i++) {
+                if ((bits & (1UL << i)) != 0) {
                     CPU_SET(start + i, &env->cpus);
                 }
             }
@@ -194,6 +194,10 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
                 ;
                 *s1 = '\0';
                 step = strtol(s1 + 1, NULL, 10);
+                if (step < 1)
+                    step = 1;
+                else if (step > nproc)
+                    step = nproc;
             }
             *s0 = '\0';
             start = strtol(tok, NULL, 10);
@@ -215,10 +219,16 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
 void armas_ac_read_env(struct armas_ac_env *env)
 {
     int n, val;
-    char *tok, *cstr;
+    char *tok, *cstr, *str, buf[256];
 
     env->max_cores = sysconf(_SC_NPROCESSORS_ONLN);
-    cstr = getenv(ENV_ARMAS_AC_CONFIG);
+    // parsing modifies string; use copy to keep process environment intact
+    cstr = (char *)0;
+    if ((str = getenv(ENV_ARMAS_AC_CONFIG)) != (char *)0) {
+        strncpy(buf, str, sizeof(buf) - 1);
+        buf[sizeof(buf) - 1] = '\0';
+        cstr = buf;
+    }
     CPU_ZERO(&env->cpus);
 
     /* parse string:
-- 
2.43.0


From aeafe90ad395e7a251cb40aec2beebfedf61ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 66/85] fix: documented field order of ARMAS_CONFIG did not
 match the implementation

---
 docs/environment.md | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/environment.md b/docs/environment.md
index 45c7e11..b4b2cf1 100644
--- a/docs/environment.md
+++ b/docs/environment.md
@@ -3,10 +3,10 @@
 
 Following environment variables can be used to configure aspects of execution
 
-* ARMAS_CONFIG = mb,kb,nb,lb,b1min,b2min,fixed
+* ARMAS_CONFIG = mb,nb,kb,lb,b1min,b2min,fixed
 
     Defines the blocking configuration of the library functions. First three values
-    (*mb*, *kb*, *nb*) define the matrix kernel intermediate block size. These values are
+    (*mb*, *nb*, *kb*) define the matrix kernel intermediate block size. These values are
     relative values and final sizes are computed based on *memsize* value defined
     in *ARMAS_CACHE* variable or the memory block size of per call intermediate memory.
 
@@ -15,7 +15,7 @@ Following environment variables can be used to configure aspects of execution
     The values of *b1min* and *b2min* the blocking size for BLAS level1 and BLAS level2
     recursive implementations.
 
-    The *fixed* is boolean indicating that (mb,kb,nb) triplet values are absolute
+    The *fixed* is boolean indicating that (mb,nb,kb) triplet values are absolute
     values. It is responsibility of the caller to ensure that provided intermediate
     memory if large enough.
 
-- 
2.43.0


From 2a2fc28858abb9a7d52764ce1540d36697a857d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 67/85] fix: fixed block sizes larger than rounded column
 length

---
 src/base/cache.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index b498547..8b0eb80 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -272,16 +272,16 @@ int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
     if (bytes > cbuf->len) {
         return -1;
     }
-    // blocks must not be empty and must fit to column stride
-    if (mb < 4 || nb < 4 || mb > kb || nb > kb) {
-        return -1;
-    }
     if (kb > (CACHELINE/p))
         kb -= kb % (CACHELINE/p);
     if (kb < 4)
         kb = 4;
     mb &= ~0x3;
     nb &= ~0x3;
+    // blocks must not be empty and must fit to column stride
+    if (mb < 4 || nb < 4 || mb > kb || nb > kb) {
+        return -1;
+    }
     cache->KB = kb;
     cache->MB = mb;
     cache->NB = nb;
@@ -401,16 +401,16 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
     if (bytes > cbuf->len) {
         return -1;
     }
-    // blocks must not be empty and must fit to column stride
-    if (mb < 4 || nb < 4 || mb > kb || nb > kb) {
-        return -1;
-    }
     if (kb > (CACHELINE/p))
         kb -= kb % (CACHELINE/p);
     if (kb < 4)
         kb = 4;
     mb &= ~0x3;
     nb &= ~0x3;
+    // blocks must not be empty and must fit to column stride
+    if (mb < 4 || nb < 4 || mb > kb || nb > kb) {
+        return -1;
+    }
     cache->KB = kb;
     cache->MB = mb;
     cache->NB = nb;
-- 
2.43.0


From d93b5700dd31cbf7e5ec8d611bb22db81f03c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 68/85] fix: packing of the diagonal block for right side
 symmetric multiply overflowed when NB exceeds MB

---
 src/blas/symm.c      | 7 ++++---
 src/eblas/symm_ext.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/blas/symm.c b/src/blas/symm.c
index 1664473..5d620ca 100644
--- a/src/blas/symm.c
+++ b/src/blas/symm.c
@@ -46,17 +46,18 @@ void mult_symm_diag(
      * lower/upper part
      */
     if (flags & ARMAS_RIGHT) {
-        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Acpy);
+        // diagonal block is NB columns, block of B is MB columns (transposed)
+        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Bcpy);
         if (flags & ARMAS_LOWER) {
             CPTRIL_UFILL(&Acpy, A, A->rows, A->cols, unit);
         } else {
             CPTRIU_LFILL(&Acpy, A, A->rows, A->cols, unit);
         }
         if ((flags & ARMAS_TRANSB) != 0) {
-            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Acpy);
             CPBLK(&Bcpy, B, B->rows, B->cols, flags);
         } else {
-            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Acpy);
             CPBLK_TRANS(&Bcpy, B, B->rows, B->cols, flags);
         }
         armas_mult_kernel_inner(C, alpha, &Bcpy, &Acpy, cache->rb);
diff --git a/src/eblas/symm_ext.c b/src/eblas/symm_ext.c
index c430346..5626615 100644
--- a/src/eblas/symm_ext.c
+++ b/src/eblas/symm_ext.c
@@ -48,17 +48,18 @@ void mult_ext_symm_diag(
      * lower/upper part
      */
     if (flags & ARMAS_RIGHT) {
-        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Acpy);
+        // diagonal block is NB columns, block of B is MB columns (transposed)
+        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Bcpy);
         if (flags & ARMAS_LOWER) {
             CPTRIL_UFILL(&Acpy, A, A->rows, A->cols, unit);
         } else {
             CPTRIU_LFILL(&Acpy, A, A->rows, A->cols, unit);
         }
         if ((flags & ARMAS_TRANSB) != 0) {
-            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Acpy);
             CPBLK(&Bcpy, B, B->rows, B->cols, flags);
         } else {
-            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Acpy);
             CPBLK_TRANS(&Bcpy, B, B->rows, B->cols, flags);
         }
         armas_ext_mult_inner(C, dC, alpha, &Bcpy, &Acpy, cache->rb);
-- 
2.43.0


From ab7aafaafe2a3a1056af9db3bf057f16bc674971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:48 +0000
Subject: [PATCH 69/85] fix: extended precision triangular multiply and solve
 overflowed packing buffer when NB exceeds MB

---
 src/eblas/trmm_ext.c | 3 +++
 src/eblas/trsm_ext.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/eblas/trmm_ext.c b/src/eblas/trmm_ext.c
index 32a8d84..71d713f 100644
--- a/src/eblas/trmm_ext.c
+++ b/src/eblas/trmm_ext.c
@@ -782,6 +782,9 @@ int armas_ext_mult_trm(
 
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
+    // diagonal blocks are packed also to the MB columns block
+    if (cache.NB > cache.MB)
+        cache.NB = cache.MB;
 
     if (cf->optflags & ARMAS_ONAIVE) {
         trmm_ext_unb_unsafe(B, alpha, A, flags, &cache);
diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index 0698795..a06c37f 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -803,6 +803,9 @@ int armas_ext_solve_trm_w(
 
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
+    // diagonal blocks are packed also to the MB columns block
+    if (cache.NB > cache.MB)
+        cache.NB = cache.MB;
 
     if (wb->bytes == 0) {
         int nblk = min(A->cols, cache.NB);
-- 
2.43.0


From a8f6dd7fd55f5dc5ebb31e281d78c2a34e9933e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 70/85] fix: block index computation overflowed with large
 sizes

---
 src/include/accel.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/accel.h b/src/include/accel.h
index 0a039db..e72d14f 100644
--- a/src/include/accel.h
+++ b/src/include/accel.h
@@ -99,7 +99,9 @@ int armas_ac_block_index(int n, int nblocks, int ntotal)
 {
     if (n == nblocks)
         return ntotal;
-    return (n*ntotal/nblocks) - ((n*ntotal/nblocks) & 0x3);
+    // product may not fit to integer
+    int start = (int)((int64_t)n*ntotal/nblocks);
+    return start - (start & 0x3);
 }
 
 #ifdef ARMAS_DTYPE_H
-- 
2.43.0


From 912d87b7f7de1a89bdb98c9940ef9f52c2777f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:05 +0000
Subject: [PATCH 71/85] fix: completion counter wait could return before all
 tasks are done

A wakeup of pthread_cond_wait need not mean that the condition holds.
---
 src/workers/counter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workers/counter.h b/src/workers/counter.h
index dc46337..f8096df 100644
--- a/src/workers/counter.h
+++ b/src/workers/counter.h
@@ -37,7 +37,7 @@ static inline
 void armas_counter_wait(struct armas_ac_counter *c)
 {
     pthread_mutex_lock(&c->lock);
-    if (c->count != 0) {
+    while (c->count != 0) {
         pthread_cond_wait(&c->ready, &c->lock);
     }
     pthread_mutex_unlock(&c->lock);
-- 
2.43.0


From 39d3caf24b9ce3c14c0754dc30a372a24502c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:05 +0000
Subject: [PATCH 72/85] fix: writers waiting on a full task queue were never
 woken up

Removing an item from full queue signalled the condition readers wait on.
---
 src/workers/queue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/workers/queue.h b/src/workers/queue.h
index 76c8508..91b4886 100644
--- a/src/workers/queue.h
+++ b/src/workers/queue.h
@@ -129,9 +129,9 @@ int taskq_dequeue_nowait(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
@@ -147,9 +147,9 @@ int taskq_dequeue(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
-- 
2.43.0


From f0facf78a84a2707163cbf64312fc736220ae531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:08 +0000
Subject: [PATCH 73/85] fix: threaded and worker matrix products ignored
 conjugate transpose flags

Operands were sliced as if not transposed: wrong result and references
outside of the operands.
---
 src/threaded/gemm.c | 9 ++++++++-
 src/workers/gemm.c  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 12eeb1b..62e65f3 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -47,7 +47,14 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    /* Conjugate transpose is transpose. */
+    int trans = 0;
+    if (blas->flags & (ARMAS_TRANSA | ARMAS_CTRANSA))
+        trans |= ARMAS_TRANSA;
+    if (blas->flags & (ARMAS_TRANSB | ARMAS_CTRANSB))
+        trans |= ARMAS_TRANSB;
+
+    switch (trans) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 626c7b8..83072ca 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -50,7 +50,14 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    /* Conjugate transpose is transpose. */
+    int trans = 0;
+    if (blas->flags & (ARMAS_TRANSA | ARMAS_CTRANSA))
+        trans |= ARMAS_TRANSA;
+    if (blas->flags & (ARMAS_TRANSB | ARMAS_CTRANSB))
+        trans |= ARMAS_TRANSB;
+
+    switch (trans) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
-- 
2.43.0


From 58b3133ab60a81ed08cbd8ff47db8e2c7386dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 74/85] fix: symmetric rank-2 update accepted vectors not
 matching the matrix

---
 src/blas/syr2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/syr2.c b/src/blas/syr2.c
index d76464f..05c9b3c 100644
--- a/src/blas/syr2.c
+++ b/src/blas/syr2.c
@@ -151,7 +151,7 @@ int armas_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || ny != nx || nx != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 69c7b42990016eb5c274567a0a5ddbdfd464510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 75/85] fix: tridiagonal reduction accepted scalar factor
 vectors of wrong size

---
 src/lapack/trired.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/trired.c b/src/lapack/trired.c
index d9fa815..2fbd0f2 100644
--- a/src/lapack/trired.c
+++ b/src/lapack/trired.c
@@ -658,7 +658,7 @@ int armas_trdreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tauq) && armas_size(tauq) != A->cols) {
+    if (!armas_isvector(tauq) || armas_size(tauq) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-- 
2.43.0


From 8cd3343c05140bfca28da4bc5b470bd4f9a832a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 76/85] fix: blocked Bunch-Kaufman factorization failed for
 block sizes below four

---
 src/lapack/ldlbk.c  | 3 ++-
 src/lapack/ldlbkl.c | 6 +++---
 src/lapack/ldlbku.c | 4 +++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lapack/ldlbk.c b/src/lapack/ldlbk.c
index 35e5f70..6619595 100644
--- a/src/lapack/ldlbk.c
+++ b/src/lapack/ldlbk.c
@@ -159,7 +159,8 @@ int armas_bkfactor_w(armas_dense_t * A, armas_pivot_t * P,
         armas_pivot_set(P, k, 0);
     }
 
-    if (lb == 0 || A->cols <= lb) {
+    // blocks must have space for 2x2 pivot
+    if (lb < 2 || A->cols <= lb) {
         armas_make(&Wrk, A->rows, 2, A->rows, armas_wptr(wb));
         if (flags & ARMAS_UPPER) {
             armas_unblk_bkfactor_upper(A, &Wrk, P, conf);
diff --git a/src/lapack/ldlbkl.c b/src/lapack/ldlbkl.c
index 2295539..4141658 100644
--- a/src/lapack/ldlbkl.c
+++ b/src/lapack/ldlbkl.c
@@ -350,7 +350,7 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
     armas_dense_t a11inv, cwrk, w00, w10, w11;
     armas_pivot_t pT, pB, p0, p1, p2;
     DTYPE t1, tr, a11val, a, b, d, scale;
-    //DTYPE abuf[4];
+    DTYPE abuf[4];
     int nc, r, np, pi;
 
     EMPTY(A00);
@@ -363,8 +363,8 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
         &pT, &pB, /**/ P, 0, ARMAS_PTOP);
 
     // permanent working space for symmetric inverse of 2x2 a11
-    armas_submatrix(&a11inv, W, 0, W->cols - 2, 2, 2);
-    //armas_make(&a11inv, 2, 2, 2, abuf);
+    // (not part of W as it would overlap with pivot columns if block size < 4)
+    armas_make(&a11inv, 2, 2, 2, abuf);
     armas_set(&a11inv, 1, 0, -1.0);
     armas_set(&a11inv, 0, 1, -1.0);
 
diff --git a/src/lapack/ldlbku.c b/src/lapack/ldlbku.c
index 651f46e..6838788 100644
--- a/src/lapack/ldlbku.c
+++ b/src/lapack/ldlbku.c
@@ -338,6 +338,7 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
     armas_dense_t a11inv, cwrk, w00, w01, w11;
     armas_pivot_t pT, pB, p0, p1, p2;
     DTYPE t1, tr, a11val, a, b, d, scale;
+    DTYPE abuf[4];
     int nc, r, np, pi;
 
     EMPTY(A00);
@@ -350,7 +351,8 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
     pivot_2x1(&pT, &pB, /**/ P, 0, ARMAS_PBOTTOM);
 
     // permanent working space for symmetric inverse of 2x2 a11
-    armas_submatrix(&a11inv, W, W->rows - 2, 0, 2, 2);
+    // (not part of W as it would overlap with pivot columns if block size < 4)
+    armas_make(&a11inv, 2, 2, 2, abuf);
     armas_set(&a11inv, 1, 0, -1.0);
     armas_set(&a11inv, 0, 1, -1.0);
 
-- 
2.43.0


From 56c58667dd1905edcc78a0269d55e58e0e081901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 77/85] fix: characters above 127 were taken for end of stream
 in memory streams

---
 src/io/ios.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ios.c b/src/io/ios.c
index 9a28fac..7d02a28 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -46,7 +46,7 @@ int wb_getc(void *ptr)
 {
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes)
-        return wb->buf[wb->offset++];
+        return (unsigned char)wb->buf[wb->offset++];
     return -1;
 }
 
@@ -64,7 +64,7 @@ int wb_putc(void *ptr, int c)
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes) {
         wb->buf[wb->offset++] = c;
-        return c;
+        return (unsigned char)c;
     }
     return -1;
 }
-- 
2.43.0


From 63f3f2b8940c47f46b86d311d8c752ce39d6b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 78/85] fix: reading from a string stream wrote to the constant
 string

---
 src/io/ios.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/io/ios.c b/src/io/ios.c
index 7d02a28..e76d0f0 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -69,6 +69,15 @@ int wb_putc(void *ptr, int c)
     return -1;
 }
 
+// strings are read only; the character returned is the one just read
+static
+void str_ungetc(void *ptr, int c)
+{
+    struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
+    if (wb->offset > 0)
+        wb->offset--;
+}
+
 static
 void str_close(void *ptr)
 {
@@ -79,7 +88,7 @@ void str_close(void *ptr)
 static
 armas_iostream_vtable_t str_vtable = (armas_iostream_vtable_t){
     .get_char = wb_getc,
-    .unget_char = wb_ungetc,
+    .unget_char = str_ungetc,
     .put_char = 0,
     .close = str_close
 };
-- 
2.43.0


From f92388488be03ea29845ce7cbd8f09b0d1c5da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 79/85] fix: JSON escapes \u were read as decimal digits and \f
 was not supported

---
 src/io/json_reader.c | 7 +++++--
 src/io/json_writer.c | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index 6f23290..8a45c0c 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -53,7 +53,7 @@
  *  character:
  *    '0020' . '10ffff' - '"' - '\' | '\' escape
  *  escape:
- *    '"' | '\' | '/' | 'b' | 'n' | 'r' | 't' | 'u' hex hex hex hex
+ *    '"' | '\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' | 'u' hex hex hex hex
  *  hex:
  *    digit | 'A' . 'F' | 'a' . 'f'
  *  ws:
@@ -141,6 +141,9 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             case 'b':
                 *bp++ = '\b';
                 break;
+            case 'f':
+                *bp++ = '\f';
+                break;
             case 'n':
                 *bp++ = '\n';
                 break;
@@ -185,7 +188,7 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 return ARMAS_JSON_EINVAL;
             *cp++ = c;
             *cp = '\0';
-            c = atoi(lit) & 0xff;
+            c = strtol(lit, (char **)0, 16) & 0xff;
             *bp++ = c;
             state = JSON_STATE_STRING;
             break;
diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 4e40bf4..9aca74e 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -50,6 +50,10 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
                 JSON_ONERROR(armas_ios_putchar(writer, '\\'));
                 JSON_ONERROR(armas_ios_putchar(writer, 'n'));
                 break;
+            case '\f':
+                JSON_ONERROR(armas_ios_putchar(writer, '\\'));
+                JSON_ONERROR(armas_ios_putchar(writer, 'f'));
+                break;
             case '\b':
                 JSON_ONERROR(armas_ios_putchar(writer, '\\'));
                 JSON_ONERROR(armas_ios_putchar(writer, 'b'));
-- 
2.43.0


From 5613a2f822b7d7b11cd90c33ce8562a87b416b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 80/85] fix: JSON tokenizer skipped unexpected characters and
 accepted numbers without digits

---
 src/io/json_reader.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index 8a45c0c..cfcced1 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -66,8 +66,10 @@ enum {
     JSON_STATE_VALUE = 0,
     JSON_STATE_STRING,
     JSON_STATE_NUMBER,
+    JSON_STATE_NUMBER1,
     JSON_STATE_EXP,
     JSON_STATE_EXP1,
+    JSON_STATE_EXP2,
     JSON_STATE_ESCAPE,
     JSON_STATE_HEX1,
     JSON_STATE_HEX2,
@@ -193,6 +195,14 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             state = JSON_STATE_STRING;
             break;
 
+        case JSON_STATE_NUMBER1:
+            // must get at least one digit after leading '-'
+            if (!isdigit(c))
+                return ARMAS_JSON_EINVAL;
+            *bp++ = c;
+            state = JSON_STATE_NUMBER;
+            break;
+
         case JSON_STATE_NUMBER:
             switch (c) {
             case ',':
@@ -234,6 +244,7 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             case '-':
             case '+':
                 *bp++ = c;
+                state = JSON_STATE_EXP2;
                 break;
             default:
                 if (isdigit(c)) {
@@ -247,6 +258,14 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             }
             break;
 
+        case JSON_STATE_EXP2:
+            // must get at least one digit after exponent sign
+            if (!isdigit(c))
+                return ARMAS_JSON_EINVAL;
+            *bp++ = c;
+            state = JSON_STATE_EXP1;
+            break;
+
         case JSON_STATE_EXP1:
             // now we have at least one digit after e|E
             switch (c) {
@@ -363,10 +382,10 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 }
                 if (isdigit(c) || c == '-') {
                     *bp++ = c;
-                    state = JSON_STATE_NUMBER;
+                    state = c == '-' ? JSON_STATE_NUMBER1 : JSON_STATE_NUMBER;
                     break;
                 }
-                break;
+                return ARMAS_JSON_EINVAL;
             }
         }
         if ((size_t)(bp - buf) >= len-1) {
-- 
2.43.0


From ed49f4e12b6548b7eb5bede8467e8433bcae1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 81/85] fix: JSON tokenizer wrote beyond a token buffer of size
 zero

---
 src/io/json_reader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index cfcced1..71c5dd4 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -101,6 +101,9 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
     int is_frac = 0;
     char lit[8], *cp, *bp;
 
+    if (len == 0)
+        return ARMAS_JSON_E2BIG;
+
     bp = buf;
     for (;;) {
         /* */
-- 
2.43.0


From 40889b7c9d3a1c00fc10d19e28c1fea227ea2d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:17 +0000
Subject: [PATCH 82/85] fix: JSON reader wrote coordinate elements one row or
 column beyond the matrix

---
 src/io/json_base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index 1e8a6b4..d0e7401 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -147,7 +147,7 @@ int armas_json_read_coorddata(armas_dense_t *A, armas_iostream_t *ios, char *iob
             return -1;
 
         n++;
-        if (row >= 0 && row <= A->rows && col >= 0 && col <= A->cols)
+        if (row >= 0 && row < A->rows && col >= 0 && col < A->cols)
             armas_set_unsafe(A, row, col, (DTYPE)dval);
 
         tok = armas_json_read_token(iob, ioblen, ios);
-- 
2.43.0


From 6e49e71b6b6a6ab63e3225ae63240906ca2a2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:17 +0000
Subject: [PATCH 83/85] fix: matrices with more elements or bytes than an int
 holds got too little memory

---
 src/base/matrix.c    | 2 +-
 src/include/matrix.h | 2 +-
 src/io/json_base.c   | 6 +++++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index 43e3780..d7e4c3e 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -63,7 +63,7 @@ armas_dense_t *armas_init(armas_dense_t *m, int r, int c)
         return m;
     }
     // set first to adjusted element count
-    m->__nbytes = ALIGNSIZE(r*c, DTYPE);
+    m->__nbytes = ALIGNSIZE((size_t)r*c, DTYPE);
     m->__data = calloc(m->__nbytes, sizeof(DTYPE));
     if ( !m->__data ) {
         m->__nbytes = 0;
diff --git a/src/include/matrix.h b/src/include/matrix.h
index 8f723fb..318c0d4 100644
--- a/src/include/matrix.h
+++ b/src/include/matrix.h
@@ -35,7 +35,7 @@ typedef struct armas_dense {
     int rows;      ///< Number of rows
     int cols;      ///< Number of columns
     void *__data;  ///< Non-null if stucture owns elements
-    int __nbytes;  ///< sizeof __data buffer
+    size_t __nbytes;  ///< sizeof __data buffer
 } armas_dense_t;
 
 /**
diff --git a/src/io/json_base.c b/src/io/json_base.c
index d0e7401..569c62d 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -377,7 +377,11 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         if (!aa)
             return -1;
     }
-    armas_init(aa, rows, cols);
+    if (!armas_init(aa, rows, cols)) {
+        if (have_new)
+            free(aa);
+        return -1;
+    }
 
     if (armas_json_read_data(aa, ios, iob, sizeof(iob)) < 0)
         goto error_exit;
-- 
2.43.0


From e77038fe438c25687b162c2d121fd0f02590d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:00 +0000
Subject: [PATCH 84/85] fix: sparse matrix market files were written with
 indices from zero

---
 src/sparse/io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index d4bcbf6..6171833 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -266,7 +266,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int k = 0; k < A->nnz; k++) {
-            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i, A->elems.ep[k].j,
+            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i + 1, A->elems.ep[k].j + 1,
                          A->elems.ep[k].val);
         }
         break;
@@ -275,7 +275,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int i = 0; i < A->rows; i++) {
             for (int k = A->ptr[i]; k < A->ptr[i + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", i, A->ix[k], A->elems.v[k]);
+                n += fprintf(f, "%d %d %.13e\n", i + 1, A->ix[k] + 1, A->elems.v[k]);
             }
         }
         break;
@@ -284,7 +284,7 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
         n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
         for (int j = 0; j < A->cols; j++) {
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", A->ix[k], j, A->elems.v[k]);
+                n += fprintf(f, "%d %d %.13e\n", A->ix[k] + 1, j + 1, A->elems.v[k]);
             }
         }
         break;
-- 
2.43.0


From 006d9eb563e65b52004ae863e292e626af2e9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 85/85] fix: matrix market readers accepted truncated and
 malformed files

---
 src/io/iomm.c   | 40 +++++++++++++++--------------------
 src/sparse/io.c | 55 ++++++++++++++++++++-----------------------------
 2 files changed, 39 insertions(+), 56 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 6b155a0..b91d8ad 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -158,7 +158,7 @@ int __mmread_banner(FILE *f, int *typecode)
 
     if (!fgets(iob, sizeof(iob), f))
         return -1;
-    if (iob[0] != '%' && iob[1] != '%')
+    if (iob[0] != '%' || iob[1] != '%')
         return -1;
 
     if ((s = strchr(iob, '\n'))) {
@@ -216,30 +216,19 @@ static
 int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
 {
     char *iob = (char *)0;
-    char *cp, *endptr;
-    int nread;
+    int nread, nreq, nval = 0;
     size_t ioblen = 0;
 
     while ((nread = getline(&iob, &ioblen, f)) != -1) {
         if (iob[0] != '%')
             break;
     }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
-        cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz =strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
-        }
-    } else {
-        *m = *n = *nnz = 0;
-    }
+    *m = *n = *nnz = 0;
+    if (nread != -1)
+        nval = sscanf(iob, "%d %d %d", m, n, nnz);
     free(iob);
-    return 0;
+    nreq = (typecode & ARMAS_MM_COORDINATE) != 0 ? 3 : 2;
+    return nval >= nreq && *m >= 0 && *n >= 0 && *nnz >= 0 ? 0 : -1;
 }
 
 /**
@@ -284,7 +273,8 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         return -1;
     }
 
-    armas_init(A, m, n);
+    if (!armas_init(A, m, n))
+        return -1;
 
     // number of elements to expect
     nelem = nnz;
@@ -296,12 +286,12 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
     c =  k = 0;
     r = -1;
     nc = m;  // for lower triangular storage index for next column
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nelem) {
+    while (k < nelem && (nread = getline(&iobuf, &ioblen, f)) != -1) {
         if (*iobuf == '%')
             continue;
         if ((typecode & ARMAS_MM_ARRAY) != 0) {
             //v = strtod(iobuf, &endptr);
-            if (read_value(iobuf, &v) < 0)
+            if (read_value(iobuf, &v) != 1)
                 goto endloop;
 
             if ((typecode & ARMAS_MM_SYMMETRIC) != 0) {
@@ -321,7 +311,7 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
             }
         }
         else {
-            if (read_line(iobuf, &r, &c, &v) < 0)
+            if (read_line(iobuf, &r, &c, &v) != 3)
                 goto endloop;
             // indexing starting from 1
             r--; c--;
@@ -336,8 +326,12 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         free(iobuf);
 
     // assert k == m*n; for general matrix; k == n*(n+1)/2 for lower triangular
-    if (k != nelem)
+    if (k != nelem) {
+        armas_release(A);
         return -1;
+    }
+    if (flags)
+        *flags = (typecode & ARMAS_MM_SYMMETRIC) != 0 ? ARMAS_SYMM : 0;
 
     return typecode;
 }
diff --git a/src/sparse/io.c b/src/sparse/io.c
index 6171833..bc72a1a 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -91,7 +91,7 @@ int armasio_mmread_banner(FILE * f, int *typecode)
 
     if (!fgets(iob, sizeof(iob), f))
         return -1;
-    if (iob[0] != '%' && iob[1] != '%')
+    if (iob[0] != '%' || iob[1] != '%')
         return -1;
 
     if ((s = strchr(iob, '\n'))) {
@@ -151,30 +151,19 @@ static
 int armasio_mmread_size(FILE * f, int typecode, int *m, int *n, int *nnz)
 {
     char *iob = (char *) 0;
-    char *cp, *endptr;
-    int nread;
+    int nread, nval = 0;
     size_t ioblen = 0;
 
     while ((nread = getline(&iob, &ioblen, f)) != -1) {
         if (iob[0] != '%')
             break;
     }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
-        cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz = strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
-        }
-    } else {
-        *m = *n = *nnz = 0;
-    }
+    *m = *n = *nnz = 0;
+    if (nread != -1)
+        nval = sscanf(iob, "%d %d %d", m, n, nnz);
     free(iob);
-    return 0;
+    // storage in coordinate format
+    return nval == 3 && *m >= 0 && *n >= 0 && *nnz >= 0 ? 0 : -1;
 }
 
 /**
@@ -189,7 +178,7 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
 {
     int tc;
     int m, n, nnz;
-    char *iobuf, *bp, *endptr;
+    char *iobuf;
     size_t ioblen;
     armas_sparse_t *A;
 
@@ -212,27 +201,27 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
 
     ioblen = 0;
     iobuf = (char *) 0;
-    int nread, k = 0;
+    int nread, i, j, k = 0;
     double v;
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nnz) {
-        bp = iobuf;
-        m = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
-        n = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
-        v = strtod(bp, &endptr);
-        armassp_append(A, m - 1, n - 1, v);
-#if 0
-        if ((tc & ARMAS_MM_SYMMETRIC) != 0 && m != n) {
-            armassp_append(A, n - 1, m - 1, v);
-        }
-#endif
+    while (k < nnz && (nread = getline(&iobuf, &ioblen, f)) != -1) {
+        if (*iobuf == '%')
+            continue;
+        if (sscanf(iobuf, "%d %d %lf", &i, &j, &v) != 3)
+            break;
+        if (i < 1 || i > m || j < 1 || j > n)
+            break;
+        if (armassp_append(A, i - 1, j - 1, v) < 0)
+            break;
         k++;
     }
     // getline allocates; we free it
     if (iobuf)
         free(iobuf);
 
+    if (k != nnz) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
     return A;
 }
 
-- 
2.43.0

