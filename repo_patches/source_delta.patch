From 57cee045ba865ceaf016dd782edccc3f4872ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 01/12] fix: stride the carry vector by component pairs when
 converting complex accumulators

binned_zzmconv_sub and binned_ccmconv_sub passed inccarX + 1 as the stride
within the carry vector; that is right only for inccarX == 1.
---
 src/binned/ccmconv_sub.c | 4 ++--
 src/binned/zzmconv_sub.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binned/ccmconv_sub.c b/src/binned/ccmconv_sub.c
index 20bf1d6..7ecafa2 100644
--- a/src/binned/ccmconv_sub.c
+++ b/src/binned/ccmconv_sub.c
@@ -16,6 +16,6 @@
  * @date   27 Apr 2015
  */
 void binned_ccmconv_sub(const int fold, const float *priX, const int incpriX, const float *carX, const int inccarX, void *conv) {
-  ((float*)conv)[0] = binned_ssmconv(fold, priX, incpriX * 2, carX, inccarX + 1);
-  ((float*)conv)[1] = binned_ssmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX + 1);
+  ((float*)conv)[0] = binned_ssmconv(fold, priX, incpriX * 2, carX, inccarX * 2);
+  ((float*)conv)[1] = binned_ssmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX * 2);
 }
diff --git a/src/binned/zzmconv_sub.c b/src/binned/zzmconv_sub.c
index 0baccc1..c4f73c7 100644
--- a/src/binned/zzmconv_sub.c
+++ b/src/binned/zzmconv_sub.c
@@ -16,6 +16,6 @@
  * @date   27 Apr 2015
  */
 void binned_zzmconv_sub(const int fold, const double *priX, const int incpriX, const double *carX, const int inccarX, void *conv) {
-  ((double*)conv)[0] = binned_ddmconv(fold, priX, incpriX * 2, carX, inccarX + 1);
-  ((double*)conv)[1] = binned_ddmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX + 1);
+  ((double*)conv)[0] = binned_ddmconv(fold, priX, incpriX * 2, carX, inccarX * 2);
+  ((double*)conv)[1] = binned_ddmconv(fold, priX + 1, incpriX * 2, carX + 1, inccarX * 2);
 }
-- 
2.43.0


From 7c10f398bd51af2f26f06420f874852771daaed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 02/12] fix: rescale both components of a complex accumulator
 independently

binned_zmdrescale and binned_cmsrescale tested priY[i * incpriY], which is
neither component i's real nor imaginary part for i > 0, and stopped (and
re-binned both components) as soon as that cell was zero.
---
 src/binned/cmsrescale.c | 19 ++-----------------
 src/binned/zmdrescale.c | 19 ++-----------------
 2 files changed, 4 insertions(+), 34 deletions(-)

diff --git a/src/binned/cmsrescale.c b/src/binned/cmsrescale.c
index 628959d..03b50ac 100644
--- a/src/binned/cmsrescale.c
+++ b/src/binned/cmsrescale.c
@@ -18,21 +18,6 @@
  * @date   19 Jun 2015
  */
 void binned_cmsrescale(const int fold, const float X, const float scaleY, float *priY, const int incpriY, float *carY, const int inccarY){
-  int i;
-  float rescaleY;
-
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
-    return;
-  }
-
-  rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
-  for(i = 0; i < fold; i++){
-    priY[i * 2 * incpriY] /= rescaleY;
-    priY[i * 2 * incpriY + 1] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
-      binned_cmsupdate(fold - i, 0.0, priY + i * 2 * incpriY, incpriY, carY + i * 2 * inccarY, inccarY);
-      return;
-    }
-  }
+  binned_smsrescale(fold, X, scaleY, priY, incpriY * 2, carY, inccarY * 2);
+  binned_smsrescale(fold, X, scaleY, priY + 1, incpriY * 2, carY + 1, inccarY * 2);
 }
diff --git a/src/binned/zmdrescale.c b/src/binned/zmdrescale.c
index 6c1542a..9c80da9 100644
--- a/src/binned/zmdrescale.c
+++ b/src/binned/zmdrescale.c
@@ -18,21 +18,6 @@
  * @date   1 Jun 2015
  */
 void binned_zmdrescale(const int fold, const double X, const double scaleY, double *priY, const int incpriY, double *carY, const int inccarY){
-  int i;
-  double rescaleY;
-
-  if(X == scaleY || X == 0.0 || scaleY == 0.0){
-    return;
-  }
-
-  rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
-  for(i = 0; i < fold; i++){
-    priY[i * 2 * incpriY] /= rescaleY;
-    priY[i * 2 * incpriY + 1] /= rescaleY;
-    if(priY[i * incpriY] == 0.0){
-      binned_zmdupdate(fold - i, 0.0, priY + i * 2 * incpriY, incpriY, carY + i * 2 * inccarY, inccarY);
-      break;
-    }
-  }
+  binned_dmdrescale(fold, X, scaleY, priY, incpriY * 2, carY, inccarY * 2);
+  binned_dmdrescale(fold, X, scaleY, priY + 1, incpriY * 2, carY + 1, inccarY * 2);
 }
-- 
2.43.0


From c5c0db25e616e0bd3fd083d75199d8208095f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 03/12] fix: release the temporary in binned_dmdmaddsq and
 binned_smsmaddsq

---
 src/binned/dmdmaddsq.c | 3 +++
 src/binned/smsmaddsq.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/binned/dmdmaddsq.c b/src/binned/dmdmaddsq.c
index 5a3b854..c068288 100644
--- a/src/binned/dmdmaddsq.c
+++ b/src/binned/dmdmaddsq.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include <binned.h>
 
 /**
@@ -36,6 +38,7 @@ double binned_dmdmaddsq(const int fold, const double scaleX, const double *priX,
     binned_dmdmset(fold, priX, incpriX, carX, inccarX, tmp_X, 1, tmp_X + fold, 1);
     binned_dmdrescale(fold, scaleY, scaleX, tmp_X, 1, tmp_X + fold, 1);
     binned_dmdmadd(fold, tmp_X, 1, tmp_X + fold, 1, priY, incpriY, carY, inccarY);
+    free(tmp_X);
     return scaleY;
   }
 }
diff --git a/src/binned/smsmaddsq.c b/src/binned/smsmaddsq.c
index 006c6ac..b48d124 100644
--- a/src/binned/smsmaddsq.c
+++ b/src/binned/smsmaddsq.c
@@ -1,3 +1,5 @@
+#include <stdlib.h>
+
 #include <binned.h>
 
 /**
@@ -37,6 +39,7 @@ float binned_smsmaddsq(const int fold, const float scaleX, const float *priX, co
     binned_smsmset(fold, priX, incpriX, carX, inccarX, tmp_X, 1, tmp_X + fold, 1);
     binned_smsrescale(fold, scaleY, scaleX, tmp_X, 1, tmp_X + fold, 1);
     binned_smsmadd(fold, tmp_X, 1, tmp_X + fold, 1, priY, incpriY, carY, inccarY);
+    free(tmp_X);
     return scaleY;
   }
 }
-- 
2.43.0


From 077038a8f4e7f4021150973078882a07d20ead58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 04/12] fix: return UFP in double precision

The unit in the first place of a double outside float's range came back as
infinity or zero.
---
 src/common/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/common.h b/src/common/common.h
index d8b956a..4f9e120 100644
--- a/src/common/common.h
+++ b/src/common/common.h
@@ -26,7 +26,7 @@ typedef union int_float_ {
   uint32_t i;
 } int_float;
 
-inline float UFP(double X) {
+inline double UFP(double X) {
   long_double tmp_UFP;
   tmp_UFP.d = X;
   tmp_UFP.l &= (2ull * DBL_MAX_EXP - 1) << (DBL_MANT_DIG - 1);
-- 
2.43.0


From 011a70302ca53a764be1d7f53dcc6c1d31e2b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 05/12] fix: add only NaNs and infinities to the head in the
 exceptional loops of sum and dot

A finite element added plainly to the head can overflow it before an
infinity of the other sign arrives, so the result depended on the order.
---
 src/binnedBLAS/cmcdotc.ccog | 14 ++++++++++++--
 src/binnedBLAS/cmcdotu.ccog | 14 ++++++++++++--
 src/binnedBLAS/cmcsum.ccog  |  8 ++++++--
 src/binnedBLAS/dmddot.ccog  |  4 +++-
 src/binnedBLAS/dmdsum.ccog  |  4 +++-
 src/binnedBLAS/smsdot.ccog  |  4 +++-
 src/binnedBLAS/smssum.ccog  |  4 +++-
 src/binnedBLAS/zmzdotc.ccog | 14 ++++++++++++--
 src/binnedBLAS/zmzdotu.ccog | 14 ++++++++++++--
 src/binnedBLAS/zmzsum.ccog  |  8 ++++++--
 10 files changed, 72 insertions(+), 16 deletions(-)

diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index 9eddafc..e6f85d7 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] + x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY])){
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])){
+          priZ[0] += x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] - x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY + 1])){
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY])){
+          priZ[1] -= x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index d1b256d..c518a98 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] - x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY])){
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])){
+          priZ[0] -= x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] + x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINFF(x[j * 2 * incX] * y[j * 2 * incY + 1])){
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINFF(x[j * 2 * incX + 1] * y[j * 2 * incY])){
+          priZ[1] += x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/cmcsum.ccog b/src/binnedBLAS/cmcsum.ccog
index 2c599fd..5ba386c 100644
--- a/src/binnedBLAS/cmcsum.ccog
+++ b/src/binnedBLAS/cmcsum.ccog
@@ -70,12 +70,16 @@ void binnedBLAS_cmcsum(const int fold, const int N, const void *X, const int inc
 
     if (isinf(amax[0]) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += x[j * 2 * incX];
+        if (ISNANINFF(x[j * 2 * incX])){
+          priY[0] += x[j * 2 * incX];
+        }
       }
     }
     if (isinf(amax[1]) || isinf(priY[1])){
       for (j = 0; j < N_block; j++){
-        priY[1] += x[j * 2 * incX + 1];
+        if (ISNANINFF(x[j * 2 * incX + 1])){
+          priY[1] += x[j * 2 * incX + 1];
+        }
       }
     }
     if (isnan(priY[0]) && isnan(priY[1])){
diff --git a/src/binnedBLAS/dmddot.ccog b/src/binnedBLAS/dmddot.ccog
index 2f38a52..3fd8f58 100644
--- a/src/binnedBLAS/dmddot.ccog
+++ b/src/binnedBLAS/dmddot.ccog
@@ -69,7 +69,9 @@ void binnedBLAS_dmddot(const int fold, const int N, const double *X, const int i
 
     if (isinf(amaxm) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += X[j * incX] * Y[j * incY];
+        if (ISNANINF(X[j * incX] * Y[j * incY])){
+          priZ[0] += X[j * incX] * Y[j * incY];
+        }
       }
     }
     if (isnan(priZ[0])){
diff --git a/src/binnedBLAS/dmdsum.ccog b/src/binnedBLAS/dmdsum.ccog
index b67b791..b80ca38 100644
--- a/src/binnedBLAS/dmdsum.ccog
+++ b/src/binnedBLAS/dmdsum.ccog
@@ -67,7 +67,9 @@ void binnedBLAS_dmdsum(const int fold, const int N, const double *X, const int i
 
     if (isinf(amax) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += X[j * incX];
+        if (ISNANINF(X[j * incX])){
+          priY[0] += X[j * incX];
+        }
       }
     }
     if (isnan(priY[0])){
diff --git a/src/binnedBLAS/smsdot.ccog b/src/binnedBLAS/smsdot.ccog
index 408ef3f..5d3d8fc 100644
--- a/src/binnedBLAS/smsdot.ccog
+++ b/src/binnedBLAS/smsdot.ccog
@@ -69,7 +69,9 @@ void binnedBLAS_smsdot(const int fold, const int N, const float *X, const int in
 
     if (isinf(amaxm) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += X[j * incX] * Y[j * incY];
+        if (ISNANINFF(X[j * incX] * Y[j * incY])){
+          priZ[0] += X[j * incX] * Y[j * incY];
+        }
       }
     }
     if (isnan(priZ[0])){
diff --git a/src/binnedBLAS/smssum.ccog b/src/binnedBLAS/smssum.ccog
index 330aeaf..12926b9 100644
--- a/src/binnedBLAS/smssum.ccog
+++ b/src/binnedBLAS/smssum.ccog
@@ -68,7 +68,9 @@ void binnedBLAS_smssum(const int fold, const int N, const float *X, const int in
 
     if (isinf(amax) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += X[j * incX];
+        if (ISNANINFF(X[j * incX])){
+          priY[0] += X[j * incX];
+        }
       }
     }
     if (isnan(priY[0])){
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 2200f3a..668fed9 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] + x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY])){
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])){
+          priZ[0] += x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] - x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY + 1])){
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY])){
+          priZ[1] -= x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index cb2b75f..0beef48 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -72,12 +72,22 @@ void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int in
 
     if (isinf(amaxm[0]) || isinf(priZ[0])){
       for (j = 0; j < N_block; j++){
-        priZ[0] += x[j * 2 * incX] * y[j * 2 * incY] - x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY])){
+          priZ[0] += x[j * 2 * incX] * y[j * 2 * incY];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY + 1])){
+          priZ[0] -= x[j * 2 * incX + 1] * y[j * 2 * incY + 1];
+        }
       }
     }
     if (isinf(amaxm[1]) || isinf(priZ[1])){
       for (j = 0; j < N_block; j++){
-        priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1] + x[j * 2 * incX + 1] * y[j * 2 * incY];
+        if (ISNANINF(x[j * 2 * incX] * y[j * 2 * incY + 1])){
+          priZ[1] += x[j * 2 * incX] * y[j * 2 * incY + 1];
+        }
+        if (ISNANINF(x[j * 2 * incX + 1] * y[j * 2 * incY])){
+          priZ[1] += x[j * 2 * incX + 1] * y[j * 2 * incY];
+        }
       }
     }
     if (isnan(priZ[0]) && isnan(priZ[1])){
diff --git a/src/binnedBLAS/zmzsum.ccog b/src/binnedBLAS/zmzsum.ccog
index 168c2be..a7c5ea3 100644
--- a/src/binnedBLAS/zmzsum.ccog
+++ b/src/binnedBLAS/zmzsum.ccog
@@ -69,12 +69,16 @@ void binnedBLAS_zmzsum(const int fold, const int N, const void *X, const int inc
 
     if (isinf(amax[0]) || isinf(priY[0])){
       for (j = 0; j < N_block; j++){
-        priY[0] += x[j * 2 * incX];
+        if (ISNANINF(x[j * 2 * incX])){
+          priY[0] += x[j * 2 * incX];
+        }
       }
     }
     if (isinf(amax[1]) || isinf(priY[1])){
       for (j = 0; j < N_block; j++){
-        priY[1] += x[j * 2 * incX + 1];
+        if (ISNANINF(x[j * 2 * incX + 1])){
+          priY[1] += x[j * 2 * incX + 1];
+        }
       }
     }
     if (isnan(priY[0]) && isnan(priY[1])){
-- 
2.43.0


From 7d41dcc85c9d03d5f609b8c51787bcba08745bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 06/12] fix: keep complex dot blocks within half the deposit
 endurance

---
 src/binnedBLAS/cmcdotc.ccog | 2 +-
 src/binnedBLAS/cmcdotu.ccog | 2 +-
 src/binnedBLAS/zmzdotc.ccog | 2 +-
 src/binnedBLAS/zmzdotu.ccog | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binnedBLAS/cmcdotc.ccog b/src/binnedBLAS/cmcdotc.ccog
index e6f85d7..0b69a60 100644
--- a/src/binnedBLAS/cmcdotc.ccog
+++ b/src/binnedBLAS/cmcdotc.ccog
@@ -59,7 +59,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotc", "N_block_MAX", 32, term
 void binnedBLAS_cmcdotc(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
   float amaxm[2];
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_SBENDURANCE/2);
   int deposits = 0;
 
   const float *x = (const float*)X;
diff --git a/src/binnedBLAS/cmcdotu.ccog b/src/binnedBLAS/cmcdotu.ccog
index c518a98..c80fed9 100644
--- a/src/binnedBLAS/cmcdotu.ccog
+++ b/src/binnedBLAS/cmcdotu.ccog
@@ -59,7 +59,7 @@ cog.out(generate.generate(blockSize.BlockSize("cmcdotu", "N_block_MAX", 32, term
 void binnedBLAS_cmcdotu(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, float *priZ, const int incpriZ, float *carZ, const int inccarZ){
   float amaxm[2];
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_SBENDURANCE/2);
   int deposits = 0;
 
   const float *x = (const float*)X;
diff --git a/src/binnedBLAS/zmzdotc.ccog b/src/binnedBLAS/zmzdotc.ccog
index 668fed9..ad7eab3 100644
--- a/src/binnedBLAS/zmzdotc.ccog
+++ b/src/binnedBLAS/zmzdotc.ccog
@@ -59,7 +59,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotc", "N_block_MAX", 32, term
 void binnedBLAS_zmzdotc(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
   double amaxm[2];
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_DBENDURANCE/2);
   int deposits = 0;
 
   const double *x = (const double*)X;
diff --git a/src/binnedBLAS/zmzdotu.ccog b/src/binnedBLAS/zmzdotu.ccog
index 0beef48..23bb89a 100644
--- a/src/binnedBLAS/zmzdotu.ccog
+++ b/src/binnedBLAS/zmzdotu.ccog
@@ -59,7 +59,7 @@ cog.out(generate.generate(blockSize.BlockSize("zmzdotu", "N_block_MAX", 32, term
 void binnedBLAS_zmzdotu(const int fold, const int N, const void *X, const int incX, const void *Y, const int incY, double *priZ, const int incpriZ, double *carZ, const int inccarZ){
   double amaxm[2];
   int i, j;
-  int N_block = N_block_MAX;
+  int N_block = MIN(N_block_MAX, binned_DBENDURANCE/2);
   int deposits = 0;
 
   const double *x = (const double*)X;
-- 
2.43.0


From 98a8e912f5c512e0d95a026030c9865ea30e42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:58 +0000
Subject: [PATCH 07/12] fix: conjugate transposed column-major complex gemv
 takes M products per result, not N

---
 src/binnedBLAS/cbcgemv.ccog | 2 +-
 src/binnedBLAS/zbzgemv.ccog | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binnedBLAS/cbcgemv.ccog b/src/binnedBLAS/cbcgemv.ccog
index 22bbbae..95bc96c 100644
--- a/src/binnedBLAS/cbcgemv.ccog
+++ b/src/binnedBLAS/cbcgemv.ccog
@@ -215,7 +215,7 @@ void binnedBLAS_cbcgemv(const int fold, const char Order,
           for(i = 0; i < N; i += Y_BLOCK){
             for(j = 0; j < M; j += X_BLOCK){
               for(ii = i; ii < N && ii < i + Y_BLOCK; ii++){
-                binnedBLAS_cbcdotc(fold, MIN(X_BLOCK, N - j), ((float*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_cbnum(fold));
+                binnedBLAS_cbcdotc(fold, MIN(X_BLOCK, M - j), ((float*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_cbnum(fold));
               }
             }
           }
diff --git a/src/binnedBLAS/zbzgemv.ccog b/src/binnedBLAS/zbzgemv.ccog
index e99b85d..bd17bb4 100644
--- a/src/binnedBLAS/zbzgemv.ccog
+++ b/src/binnedBLAS/zbzgemv.ccog
@@ -215,7 +215,7 @@ void binnedBLAS_zbzgemv(const int fold, const char Order,
           for(i = 0; i < N; i += Y_BLOCK){
             for(j = 0; j < M; j += X_BLOCK){
               for(ii = i; ii < N && ii < i + Y_BLOCK; ii++){
-                binnedBLAS_zbzdotc(fold, MIN(X_BLOCK, N - j), ((double*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_zbnum(fold));
+                binnedBLAS_zbzdotc(fold, MIN(X_BLOCK, M - j), ((double*)A) + 2 * (ii * lda + j), 1, bufX + 2 * j * incbufX, incbufX, Y + ii * incY * binned_zbnum(fold));
               }
             }
           }
-- 
2.43.0


From 25b8ca972e8384c346105815a1c7b1474cd65255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:06 +0000
Subject: [PATCH 08/12] fix: column-major complex gemm scales A by alpha with
 the right imaginary part

---
 src/binnedBLAS/cbcgemm.ccog | 8 ++++----
 src/binnedBLAS/zbzgemm.ccog | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/binnedBLAS/cbcgemm.ccog b/src/binnedBLAS/cbcgemm.ccog
index 13365a6..f94071c 100644
--- a/src/binnedBLAS/cbcgemm.ccog
+++ b/src/binnedBLAS/cbcgemm.ccog
@@ -652,7 +652,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
               }
             }
             ldbufa = K;
@@ -751,7 +751,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -796,7 +796,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -847,7 +847,7 @@ void binnedBLAS_cbcgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[0] + ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((float*)A)[2 * (i * lda + k)] * ((float*)alpha)[1] - ((float*)A)[2 * (i * lda + k) + 1] * ((float*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
diff --git a/src/binnedBLAS/zbzgemm.ccog b/src/binnedBLAS/zbzgemm.ccog
index 5a9c958..61f245f 100644
--- a/src/binnedBLAS/zbzgemm.ccog
+++ b/src/binnedBLAS/zbzgemm.ccog
@@ -652,7 +652,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
             for(i = 0; i < M; i++){
               for(k = 0; k < K; k++){
                 bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
               }
             }
             ldbufa = K;
@@ -751,7 +751,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -796,7 +796,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
@@ -847,7 +847,7 @@ void binnedBLAS_zbzgemm(const int fold, const char Order,
                 for(i = 0; i < M; i++){
                   for(k = 0; k < K; k++){
                     bufA[2 * (i * K + k)] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[0] + ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
-                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[1];
+                    bufA[2 * (i * K + k) + 1] = ((double*)A)[2 * (i * lda + k)] * ((double*)alpha)[1] - ((double*)A)[2 * (i * lda + k) + 1] * ((double*)alpha)[0];
                   }
                 }
                 for(i = 0; i < M; i += Y_BLOCK){
-- 
2.43.0


From ebf4d2b37b9d132d885648945dc2529a74e64f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:41 +0000
Subject: [PATCH 09/12] fix: MPI sum of double complex accumulators adds them
 as complex accumulators

---
 src/binnedMPI/ZBZBADD.ccog | 102 ++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 51 deletions(-)

diff --git a/src/binnedMPI/ZBZBADD.ccog b/src/binnedMPI/ZBZBADD.ccog
index 7441faf..03ea492 100644
--- a/src/binnedMPI/ZBZBADD.ccog
+++ b/src/binnedMPI/ZBZBADD.ccog
@@ -10,208 +10,208 @@ import cog
 from scripts import terminal
 for fold in range(2, terminal.get_dimaxindex() + 1):
   cog.outl("static void binnedMPI_zbzbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
-  cog.outl("  binned_dbdbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
+  cog.outl("  binned_zbzbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
   cog.outl("")
 ]]]*/
 static void binnedMPI_zbzbadd_2(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(2, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(2, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_3(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(3, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(3, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_4(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(4, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(4, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_5(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(5, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(5, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_6(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(6, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(6, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_7(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(7, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(7, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_8(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(8, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(8, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_9(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(9, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(9, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_10(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(10, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(10, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_11(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(11, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(11, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_12(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(12, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(12, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_13(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(13, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(13, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_14(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(14, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(14, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_15(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(15, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(15, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_16(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(16, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(16, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_17(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(17, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(17, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_18(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(18, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(18, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_19(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(19, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(19, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_20(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(20, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(20, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(21, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(21, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_22(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(22, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(22, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_23(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(23, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(23, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_24(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(24, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(24, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_25(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(25, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(25, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_26(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(26, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(26, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_27(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(27, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(27, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_28(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(28, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(28, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_29(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(29, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(29, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_30(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(30, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(30, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_31(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(31, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(31, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_32(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(32, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(32, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_33(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(33, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(33, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_34(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(34, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(34, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_35(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(35, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(35, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_36(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(36, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(36, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_37(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(37, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(37, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_38(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(38, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(38, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_39(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(39, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(39, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_40(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(40, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(40, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_41(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(41, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(41, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_42(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(42, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(42, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_43(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(43, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(43, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_44(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(44, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(44, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_45(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(45, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(45, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_46(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(46, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(46, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_47(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(47, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(47, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_48(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(48, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(48, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_49(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(49, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(49, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_50(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(50, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(50, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 static void binnedMPI_zbzbadd_51(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
-  binned_dbdbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+  binned_zbzbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
 //[[[end]]]
-- 
2.43.0


From f5d9b78d016bd9bfb07f90e9ca294ada99bc0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:41 +0000
Subject: [PATCH 10/12] fix: MPI scaled sum keeps the common scale of the
 combined accumulators

---
 src/binnedMPI/DBDBADDSQ.ccog | 2 +-
 src/binnedMPI/SBSBADDSQ.ccog | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binnedMPI/DBDBADDSQ.ccog b/src/binnedMPI/DBDBADDSQ.ccog
index 00fd85c..6685a7c 100644
--- a/src/binnedMPI/DBDBADDSQ.ccog
+++ b/src/binnedMPI/DBDBADDSQ.ccog
@@ -9,7 +9,7 @@
 static inline void dbdbaddsqv(const int fold, const int N, const double *X, double *Y){
   int i;
   for(i = 0; i < N; i++, X += binned_dbnum(fold) + 1, Y += binned_dbnum(fold) + 1){
-    binned_dmdmaddsq(fold, X[0], (double_binned*)(X + 1), 1, (double_binned*)(X + 1 + fold), 1, Y[0], (double_binned*)(Y + 1), 1, (double_binned*)(Y + 1 + fold), 1);
+    Y[0] = binned_dmdmaddsq(fold, X[0], (double_binned*)(X + 1), 1, (double_binned*)(X + 1 + fold), 1, Y[0], (double_binned*)(Y + 1), 1, (double_binned*)(Y + 1 + fold), 1);
   }
 }
 
diff --git a/src/binnedMPI/SBSBADDSQ.ccog b/src/binnedMPI/SBSBADDSQ.ccog
index 20e0137..b531bb9 100644
--- a/src/binnedMPI/SBSBADDSQ.ccog
+++ b/src/binnedMPI/SBSBADDSQ.ccog
@@ -8,7 +8,7 @@
 static inline void sbsbaddsqv(const int fold, const int N, const float *X, float *Y){
   int i;
   for(i = 0; i < N; i++, X += binned_dbnum(fold) + 1, Y += binned_dbnum(fold) + 1){
-    binned_smsmaddsq(fold, X[0], (float_binned*)(X + 1), 1, (float_binned*)(X + 1 + fold), 1, Y[0], (float_binned*)(Y + 1), 1, (float_binned*)(Y + 1 + fold), 1);
+    Y[0] = binned_smsmaddsq(fold, X[0], (float_binned*)(X + 1), 1, (float_binned*)(X + 1 + fold), 1, Y[0], (float_binned*)(Y + 1), 1, (float_binned*)(Y + 1 + fold), 1);
   }
 }
 
-- 
2.43.0


From bf6d369e25c855a85b4de58c3f29ab2c9d8c073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:57 +0000
Subject: [PATCH 11/12] fix: MPI operators exist for the largest supported fold

---
 src/binnedMPI/CBCBADD.ccog   | 12 ++++++++++--
 src/binnedMPI/DBDBADD.ccog   | 12 ++++++++++--
 src/binnedMPI/DBDBADDSQ.ccog | 12 ++++++++++--
 src/binnedMPI/SBSBADD.ccog   | 12 ++++++++++--
 src/binnedMPI/SBSBADDSQ.ccog | 12 ++++++++++--
 src/binnedMPI/ZBZBADD.ccog   | 12 ++++++++++--
 6 files changed, 60 insertions(+), 12 deletions(-)

diff --git a/src/binnedMPI/CBCBADD.ccog b/src/binnedMPI/CBCBADD.ccog
index 0cb62a0..b68a9f7 100644
--- a/src/binnedMPI/CBCBADD.ccog
+++ b/src/binnedMPI/CBCBADD.ccog
@@ -9,7 +9,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_simaxindex() + 1):
+for fold in range(2, terminal.get_simaxindex() + 2):
   cog.outl("static void binnedMPI_cbcbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_cbcbaddv({}, *len, (float_complex_binned*)invec, 1, (float_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -91,6 +91,10 @@ static void binnedMPI_cbcbadd_20(void *invec, void *inoutvec, int *len, MPI_Data
   binned_cbcbaddv(20, *len, (float_complex_binned*)invec, 1, (float_complex_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_cbcbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_cbcbaddv(21, *len, (float_complex_binned*)invec, 1, (float_complex_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_SBMAXFOLD + 1];
@@ -120,7 +124,7 @@ MPI_Op binnedMPI_CBCBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_simaxindex() + 1):
+      for fold in range(2, terminal.get_simaxindex() + 2):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_cbcbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -202,6 +206,10 @@ MPI_Op binnedMPI_CBCBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_cbcbadd_20, 1, ops + 20);
         break;
 
+      case 21:
+        rc = MPI_Op_create(&binnedMPI_cbcbadd_21, 1, ops + 21);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/DBDBADD.ccog b/src/binnedMPI/DBDBADD.ccog
index 7d545b0..2689cf7 100644
--- a/src/binnedMPI/DBDBADD.ccog
+++ b/src/binnedMPI/DBDBADD.ccog
@@ -9,7 +9,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_dimaxindex() + 1):
+for fold in range(2, terminal.get_dimaxindex() + 2):
   cog.outl("static void binnedMPI_dbdbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_dbdbaddv({}, *len, (double_binned*)invec, 1, (double_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -215,6 +215,10 @@ static void binnedMPI_dbdbadd_51(void *invec, void *inoutvec, int *len, MPI_Data
   binned_dbdbaddv(51, *len, (double_binned*)invec, 1, (double_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_dbdbadd_52(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_dbdbaddv(52, *len, (double_binned*)invec, 1, (double_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_DBMAXFOLD + 1];
@@ -244,7 +248,7 @@ MPI_Op binnedMPI_DBDBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_dimaxindex() + 1):
+      for fold in range(2, terminal.get_dimaxindex() + 2):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_dbdbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -450,6 +454,10 @@ MPI_Op binnedMPI_DBDBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_dbdbadd_51, 1, ops + 51);
         break;
 
+      case 52:
+        rc = MPI_Op_create(&binnedMPI_dbdbadd_52, 1, ops + 52);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/DBDBADDSQ.ccog b/src/binnedMPI/DBDBADDSQ.ccog
index 6685a7c..51965d8 100644
--- a/src/binnedMPI/DBDBADDSQ.ccog
+++ b/src/binnedMPI/DBDBADDSQ.ccog
@@ -16,7 +16,7 @@ static inline void dbdbaddsqv(const int fold, const int N, const double *X, doub
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_dimaxindex() + 1):
+for fold in range(2, terminal.get_dimaxindex() + 2):
   cog.outl("static void binnedMPI_dbdbaddsq_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  dbdbaddsqv({}, *len, (double*)invec, (double*)inoutvec);".format(fold))
   cog.outl("}")
@@ -222,6 +222,10 @@ static void binnedMPI_dbdbaddsq_51(void *invec, void *inoutvec, int *len, MPI_Da
   dbdbaddsqv(51, *len, (double*)invec, (double*)inoutvec);
 }
 
+static void binnedMPI_dbdbaddsq_52(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  dbdbaddsqv(52, *len, (double*)invec, (double*)inoutvec);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_DBMAXFOLD + 1];
@@ -253,7 +257,7 @@ MPI_Op binnedMPI_DBDBADDSQ(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_dimaxindex() + 1):
+      for fold in range(2, terminal.get_dimaxindex() + 2):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_dbdbaddsq_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -459,6 +463,10 @@ MPI_Op binnedMPI_DBDBADDSQ(const int fold){
         rc = MPI_Op_create(&binnedMPI_dbdbaddsq_51, 1, ops + 51);
         break;
 
+      case 52:
+        rc = MPI_Op_create(&binnedMPI_dbdbaddsq_52, 1, ops + 52);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/SBSBADD.ccog b/src/binnedMPI/SBSBADD.ccog
index e07c624..26ff587 100644
--- a/src/binnedMPI/SBSBADD.ccog
+++ b/src/binnedMPI/SBSBADD.ccog
@@ -8,7 +8,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_simaxindex() + 1):
+for fold in range(2, terminal.get_simaxindex() + 2):
   cog.outl("static void binnedMPI_sbsbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_sbsbaddv({}, *len, (float_binned*)invec, 1, (float_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -90,6 +90,10 @@ static void binnedMPI_sbsbadd_20(void *invec, void *inoutvec, int *len, MPI_Data
   binned_sbsbaddv(20, *len, (float_binned*)invec, 1, (float_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_sbsbadd_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_sbsbaddv(21, *len, (float_binned*)invec, 1, (float_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_SBMAXFOLD + 1];
@@ -119,7 +123,7 @@ MPI_Op binnedMPI_SBSBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_simaxindex() + 1):
+      for fold in range(2, terminal.get_simaxindex() + 2):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_sbsbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -201,6 +205,10 @@ MPI_Op binnedMPI_SBSBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_sbsbadd_20, 1, ops + 20);
         break;
 
+      case 21:
+        rc = MPI_Op_create(&binnedMPI_sbsbadd_21, 1, ops + 21);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/SBSBADDSQ.ccog b/src/binnedMPI/SBSBADDSQ.ccog
index b531bb9..d8b6cf1 100644
--- a/src/binnedMPI/SBSBADDSQ.ccog
+++ b/src/binnedMPI/SBSBADDSQ.ccog
@@ -15,7 +15,7 @@ static inline void sbsbaddsqv(const int fold, const int N, const float *X, float
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_simaxindex() + 1):
+for fold in range(2, terminal.get_simaxindex() + 2):
   cog.outl("static void binnedMPI_sbsbaddsq_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  sbsbaddsqv({}, *len, (float*)invec, (float*)inoutvec);".format(fold))
   cog.outl("}")
@@ -97,6 +97,10 @@ static void binnedMPI_sbsbaddsq_20(void *invec, void *inoutvec, int *len, MPI_Da
   sbsbaddsqv(20, *len, (float*)invec, (float*)inoutvec);
 }
 
+static void binnedMPI_sbsbaddsq_21(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  sbsbaddsqv(21, *len, (float*)invec, (float*)inoutvec);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_SBMAXFOLD + 1];
@@ -128,7 +132,7 @@ MPI_Op binnedMPI_SBSBADDSQ(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_simaxindex() + 1):
+      for fold in range(2, terminal.get_simaxindex() + 2):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_sbsbaddsq_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -210,6 +214,10 @@ MPI_Op binnedMPI_SBSBADDSQ(const int fold){
         rc = MPI_Op_create(&binnedMPI_sbsbaddsq_20, 1, ops + 20);
         break;
 
+      case 21:
+        rc = MPI_Op_create(&binnedMPI_sbsbaddsq_21, 1, ops + 21);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
diff --git a/src/binnedMPI/ZBZBADD.ccog b/src/binnedMPI/ZBZBADD.ccog
index 03ea492..e8d45b9 100644
--- a/src/binnedMPI/ZBZBADD.ccog
+++ b/src/binnedMPI/ZBZBADD.ccog
@@ -8,7 +8,7 @@
 /*[[[cog
 import cog
 from scripts import terminal
-for fold in range(2, terminal.get_dimaxindex() + 1):
+for fold in range(2, terminal.get_dimaxindex() + 2):
   cog.outl("static void binnedMPI_zbzbadd_{}(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){{".format(fold))
   cog.outl("  binned_zbzbaddv({}, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);".format(fold))
   cog.outl("}")
@@ -214,6 +214,10 @@ static void binnedMPI_zbzbadd_51(void *invec, void *inoutvec, int *len, MPI_Data
   binned_zbzbaddv(51, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
 }
 
+static void binnedMPI_zbzbadd_52(void *invec, void *inoutvec, int *len, MPI_Datatype* datatype){
+  binned_zbzbaddv(52, *len, (double_complex_binned*)invec, 1, (double_complex_binned*)inoutvec, 1);
+}
+
 //[[[end]]]
 
 static MPI_Op ops[binned_DBMAXFOLD + 1];
@@ -243,7 +247,7 @@ MPI_Op binnedMPI_ZBZBADD(const int fold){
       /*[[[cog
       import cog
       from scripts import terminal
-      for fold in range(2, terminal.get_dimaxindex() + 1):
+      for fold in range(2, terminal.get_dimaxindex() + 2):
         cog.outl("case {}:".format(fold))
         cog.outl("  rc = MPI_Op_create(&binnedMPI_zbzbadd_{0}, 1, ops + {0});".format(fold))
         cog.outl("  break;")
@@ -449,6 +453,10 @@ MPI_Op binnedMPI_ZBZBADD(const int fold){
         rc = MPI_Op_create(&binnedMPI_zbzbadd_51, 1, ops + 51);
         break;
 
+      case 52:
+        rc = MPI_Op_create(&binnedMPI_zbzbadd_52, 1, ops + 52);
+        break;
+
       //[[[end]]]
     }
     if(rc != MPI_SUCCESS){
-- 
2.43.0


From 79c02e4d63e1b4064b226b0c68bb49b90f6f33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:15 +0000
Subject: [PATCH 12/12] fix: rescaling by a large ratio emptied levels because
 the squared ratio overflowed

---
 src/binned/dmdrescale.c | 2 +-
 src/binned/smsrescale.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binned/dmdrescale.c b/src/binned/dmdrescale.c
index d18c8b6..f5f9260 100644
--- a/src/binned/dmdrescale.c
+++ b/src/binned/dmdrescale.c
@@ -26,8 +26,8 @@ void binned_dmdrescale(const int fold, const double X, const double scaleY, doub
   }
 
   rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
   for(i = 0; i < fold; i++){
+    priY[i * incpriY] /= rescaleY;
     priY[i * incpriY] /= rescaleY;
     if(priY[i * incpriY] == 0.0){
       binned_dmdupdate(fold - i, 0.0, priY + i * incpriY, incpriY, carY + i * inccarY, inccarY);
diff --git a/src/binned/smsrescale.c b/src/binned/smsrescale.c
index 508fbf4..1cd37b1 100644
--- a/src/binned/smsrescale.c
+++ b/src/binned/smsrescale.c
@@ -26,8 +26,8 @@ void binned_smsrescale(const int fold, const float X, const float scaleY, float
   }
 
   rescaleY = X/scaleY;
-  rescaleY *= rescaleY;
   for(i = 0; i < fold; i++){
+    priY[i * incpriY] /= rescaleY;
     priY[i * incpriY] /= rescaleY;
     if(priY[i * incpriY] == 0.0){
       binned_smsupdate(fold - i, 0.0, priY + i * incpriY, incpriY, carY + i * inccarY, inccarY);
-- 
2.43.0

