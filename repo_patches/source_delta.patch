From a8d0a9563891fd9e1f87e8903bc58b428927fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 01/95] fix: define operator==/<=(double, adouble) with
 external linkage

Both are declared in adtb_types.h as exported functions, but were defined
inline in adouble.cpp, so any user code comparing a double with an adouble
through them failed to link.
---
 ADOL-C/src/adouble.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index cd5d856..92f68e1 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -1332,7 +1332,7 @@ bool operator==(const adouble &a, const double coval) {
   }
 }
 
-inline bool operator==(const double coval, const adouble &a) {
+bool operator==(const double coval, const adouble &a) {
   if (coval != 0.0)
     return (-coval + a == 0);
   else
@@ -1359,7 +1359,7 @@ bool operator<=(const adouble &a, const double coval) {
   }
 }
 
-inline bool operator<=(const double coval, const adouble &a) {
+bool operator<=(const double coval, const adouble &a) {
   if (coval != 0.0)
     return (-coval + a >= 0);
   else
-- 
2.43.0


From 5d38b0b1b365853ed69e77753df7abb6cc642a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 02/95] fix: first-order reverse sweeps reject a Taylor stack
 of another degree

The manual requires d == keep-1 for reverse and promises an error otherwise;
hos/hov_reverse check it, fos/fov_reverse only checked that some forward sweep
had kept values and then silently consumed e.g. a keep=2 stack one coefficient
at a time, returning garbage.
---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index e67ffc1..6dc9153 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -531,7 +531,7 @@ int int_reverse_safe(
 #if !defined(_NTIGHT_)
   tape.taylor_back();
 
-  if (tape.deg_save() < 0)
+  if (tape.deg_save() != 0)
     ADOLCError::fail(ADOLCError::ErrorType::REVERSE_NO_FOWARD, CURRENT_LOCATION,
                      ADOLCError::FailInfo{.info3 = 0, .info4 = 1});
 
-- 
2.43.0


From dd29e516426a455a5f108987b5d83b2d859eebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 03/95] fix: fmin(const adouble&, const adouble&) yields the
 value of its first argument

The value of the result was computed from the location of the first
argument instead of from its value whenever the first argument was not
larger than the second.
---
 ADOL-C/src/adouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 92f68e1..210138f 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -4704,7 +4704,7 @@ adouble fmin(const adouble &a, const adouble &b) {
   adouble ret_adouble;
 
   const double coval = b.value() < a.value() ? 0.0 : 1.0;
-  const double tmp = b.value() < a.value() ? b.value() : to_double(a.loc());
+  const double tmp = b.value() < a.value() ? b.value() : a.value();
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
 
-- 
2.43.0


From 8532be224d706cd87656beb0e1c0ee73f1d7bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 04/95] fix: powers with constant exponent at a zero base

Forward: the whole-number test compared against floor(coval != 0.0), so
pow(x, n) at x == 0 took the branch for fractional exponents and left
coefficients unset; the whole-number branch reused the inner series of the
wrong direction for n > 2; pow(x, 0) produced NaN.
Reverse: pow(x, 1) lost its adjoint at x == 0, n > 3 used the wrong
derivative and n == 3 overwrote adjoints accumulated before.  The
derivative series n*x^(n-1) is now formed and applied like everywhere else.
---
 ADOL-C/src/fo_rev.cpp   |  2 +-
 ADOL-C/src/ho_rev.cpp   | 31 ++++++++++++-------------------
 ADOL-C/src/uni5_for.cpp | 28 +++++++++++-----------------
 3 files changed, 24 insertions(+), 37 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 6dc9153..bf0b544 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1394,7 +1394,7 @@ int int_reverse_safe(
       if (arg == res)
         rp_T[arg] = tape.get_taylor();
       if (TARG == 0.0)
-        r0 = 0.0;
+        r0 = coval == 1.0 ? 1.0 : 0.0;
       else
         r0 *= coval / TARG; // r0 = r0 * n / x
 #endif                      /* !_NTIGHT_ */
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 079180b..f8a48e3 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1481,7 +1481,7 @@ int hov_ti_reverse(
             }
             inconv0(k, Ares, rp_Ttemp, Aarg);
           } else {
-            if (coval <= 0.0) {
+            if (coval < 0.0) {
               for (int i = 0; i < k; i++) {
                 Aarg[i] = tape.make_nan();
                 Ares[i] = 0;
@@ -1504,25 +1504,18 @@ int hov_ti_reverse(
                   }
                 }
               } else {
-                if (coval == 1) {
-                  for (int i = 0; i < k; i++) { /* ! no temporary */
-                    Aarg[i] += Ares[i];
-                    Ares[i] = 0.0;
+                /* coval is a whole number: adjoint with n * x^(n-1) */
+                for (int i = 0; i < k; i++)
+                  rp_Ttemp[i] = 0.0;
+                rp_Ttemp[0] = coval;
+                for (int ii = 1; ii < coval; ii++)
+                  for (int i = k - 1; i >= 0; i--) {
+                    double sum = 0.0;
+                    for (int j = 0; j <= i; j++)
+                      sum += rp_Ttemp[j] * Targ[i - j];
+                    rp_Ttemp[i] = sum;
                   }
-                } else {
-                  /* coval is an int > 1 */
-                  /* the following is not efficient but at least it works */
-                  /* it reformulates x^n into x* ... *x n times */
-
-                  copyAndZeroset(k, Ares, rp_Atemp);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  if (coval == 3) {
-                    conv(k, Aarg, Targ, rp_Atemp);
-                    for (int i = 0; i < k; i++)
-                      Aarg[i] = 2.0 * rp_Atemp[i];
-                  }
-                }
+                inconv0(k, Ares, rp_Ttemp, Aarg);
               }
             }
           }
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index d5b5313..2713eb1 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3397,11 +3397,13 @@ int hov_forward(
       FOR_0_LE_l_LT_p TRES_FOINC = TARG_INC;
 #else
       if (T0arg == 0.0) {
-        if (coval <= 0.0)
+        if (coval < 0.0)
           FOR_0_LE_l_LT_pk TRES_INC = tape.make_nan();
+        else if (coval == 0.0)
+          FOR_0_LE_l_LT_pk TRES_INC = 0.0;
         else {
           /* coval not a whole number */
-          if (coval - floor(coval != 0.0) != 0) {
+          if (coval - floor(coval) != 0) {
             FOR_0_LE_l_LT_p {
               FOR_0_LE_i_LT_k {
                 if (coval - i > 1)
@@ -3439,24 +3441,16 @@ int hov_forward(
                   Tres--;
 #endif /* _HIGHER_ORDER_ */
                 }
-              }
-              for (int ii = 3; ii <= coval; ii++) {
-                ASSIGN_T(Tres, TAYLOR_BUFFER[res])
-                ASSIGN_T(Targ, TAYLOR_BUFFER[arg])
-                INC_pk_1(Targ) INC_pk_1(Tres)
-
-                    FOR_p_GT_l_GE_0 {
-                  FOR_k_GT_i_GE_0 {
-                    *Tres = 0;
-                    DEC_TRES_FO
 #if defined(_HIGHER_ORDER_)
-                    TresOP = Tres - i;
+                TresOP = Tres + 1;
+                for (int ii = 3; ii <= coval; ii++)
+                  for (int i = k - 1; i >= 0; i--) {
+                    double sum = 0.0;
                     for (int j = 0; j < i; j++)
-                      *Tres += TresOP[j] * dp_z[i - j - 1];
-                    Tres--;
-#endif /* _HIGHER_ORDER_ */
+                      sum += TresOP[j] * dp_z[i - j - 1];
+                    TresOP[i] = sum;
                   }
-                }
+#endif /* _HIGHER_ORDER_ */
               }
             }
           }
-- 
2.43.0


From 5e8082db02c8755cb870847812633b28e5a5398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 05/95] fix: forward()/reverse() overloads keep no state shared
 between threads

The work arrays of forward(tag,1,n,d,keep,X,double*) and the identity
weights of reverse(tag,m,n,d,Z,nz) were function-local statics, so two
threads working on different tapes overwrote or freed each other's data.
---
 ADOL-C/src/interfaces.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/ADOL-C/src/interfaces.cpp b/ADOL-C/src/interfaces.cpp
index 45873d7..51a4007 100644
--- a/ADOL-C/src/interfaces.cpp
+++ b/ADOL-C/src/interfaces.cpp
@@ -92,20 +92,13 @@ int forward(short tag, int m, int n, int d, int keep, double **X, double **Y)
 int forward(short tag, int m, int n, int d, int keep, double **X, double *Y)
 /* forward(tag, 1, n, d, keep, X[n][d+1], Y[d+1]), m=1                      */
 { /* olvo 980729 general ec */
-  static double *x, *xp;
-  static int maxn;
+  double *x, *xp;
   double y;
   int rc = -1, i, k;
 
   if (m == 1) {
-    if (n > maxn) {
-      if (x)
-        myfree1(x);
-      if (xp)
-        myfree1(xp);
-      x = myalloc1(maxn = n);
-      xp = myalloc1(maxn);
-    }
+    x = myalloc1(n);
+    xp = myalloc1(n);
 
     /*----------------------------------------------------------------------*/
     /* prepare input */
@@ -139,6 +132,9 @@ int forward(short tag, int m, int n, int d, int keep, double **X, double *Y)
     for (k = d; k > 0; k--)
       Y[k] = Y[k - 1];
     Y[0] = y;
+
+    myfree1(x);
+    myfree1(xp);
   } else
     ADOLCError::fail(ADOLCError::ErrorType::WRONG_DIM_Y, CURRENT_LOCATION);
 
@@ -349,14 +345,10 @@ int reverse(short tag, int m, int n, int d, double ***Z, short **nz)
 /* reverse(tag, m, n, d, Z[p][n][d+1], nz[p][n]),
            If p and U are omitted they default to m and I                   */
 {
-  static int depax;
-  static double **I;
-  if (m adolc_compsize depax) {
-    if (depax)
-      myfreeI2(depax, I);
-    I = myallocI2(depax = m);
-  }
-  return hov_reverse(tag, m, n, d, m, I, Z, nz);
+  double **I = myallocI2(m);
+  int rc = hov_reverse(tag, m, n, d, m, I, Z, nz);
+  myfreeI2(m, I);
+  return rc;
 }
 
 /****************************************************************************/
-- 
2.43.0


From 3770f4cf8bcd75538913c7e50f74defa112f548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 06/95] fix: Lie drivers and tape listing keep no state shared
 between threads

---
 ADOL-C/src/lie/adolc_lie_c.cpp | 49 +++++++++-------------------------
 ADOL-C/src/tapedoc/tapedoc.cpp | 10 +++----
 2 files changed, 17 insertions(+), 42 deletions(-)

diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index 42e81ba..c8fcc06 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -275,9 +275,8 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   double *xp = myalloc1(n);
   double *yp = myalloc1(m);
 
-  static int depax_m, depax_n;
-  static double **In;
-  static double **Im;
+  double **In = myallocI2(n);
+  double **Im = myallocI2(m);
 
   int i = 0, j = 0, l = 0, k = 0, rc = -1;
   double Fak = 1.0;
@@ -287,17 +286,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   forodec(Tape_F, n, 1.0, 0, d, X);
 
-  if (n adolc_compsize depax_n) {
-    if (depax_n)
-      myfreeI2(depax_n, In);
-    In = myallocI2(depax_n = n);
-  }
-  if (m adolc_compsize depax_m) {
-    if (depax_m)
-      myfreeI2(depax_m, Im);
-    Im = myallocI2(depax_m = m);
-  }
-
   hov_reverse(Tape_F, n, n, d - 1, n, In, A,
               0);                  /* explanation in interfaces.cpp  */
   accodec(n, 1.0, d - 1, A, B, 0); /* explanation in odedrivers.cpp    */
@@ -341,6 +329,9 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   myfree1(xp);
   myfree1(yp);
 
+  myfreeI2(n, In);
+  myfreeI2(m, Im);
+
   return rc;
 }
 
@@ -399,26 +390,13 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   int i = 0, k = 0;
 
-  static int depax_m, depax_n;
-  static double **In;
-  static double **Im;
+  double **In = myallocI2(n);
 
   for (i = 0; i < n; i++)
     X[i][0] = x0[i];
 
   forodec(Tape_F, n, 1.0, 0, d, X);
 
-  if (n adolc_compsize depax_n) {
-    if (depax_n)
-      myfreeI2(depax_n, In);
-    In = myallocI2(depax_n = n);
-  }
-  if (m adolc_compsize depax_m) {
-    if (depax_m)
-      myfreeI2(depax_m, Im);
-    Im = myallocI2(depax_m = m);
-  }
-
   hov_reverse(Tape_F, n, n, d - 1, n, In, A,
               0); /* explanation in interfaces.cpp  */
 
@@ -457,6 +435,8 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
   myfree1(xp);
   myfree1(yp);
 
+  myfreeI2(n, In);
+
   return -1;
 }
 
@@ -481,9 +461,8 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
 
   int i, k;
 
-  /* static identity matrix for hov_reverse  */
-  static int depax_n = 0;
-  static double **In = NULL;
+  /* identity matrix for hov_reverse  */
+  double **In = myallocI2(n);
 
   for (i = 0; i < n; i++) {
     X[i][0] = x0[i];
@@ -491,12 +470,6 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
   forodec(Tape_F, n, 1.0, 0, d + 1, X);
 
   /* for hov_reverse  */
-  if (n > depax_n) {
-    if (depax_n) {
-      myfreeI2(depax_n, In);
-    };
-    In = myallocI2(depax_n = n);
-  }
   hov_reverse(Tape_F, n, n, d, n, In, A, 0);
 
   /* prepare for input  */
@@ -524,5 +497,7 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
   myfree3(A);
   myfree3(Xs);
 
+  myfreeI2(n, In);
+
   return -1;
 };
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 50b4bd6..06f5531 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -36,12 +36,12 @@ BEGIN_C_DECLS
 /*                                                         STATIC VARIABLES */
 
 /*--------------------------------------------------------------------------*/
-static short tag;
+static thread_local short tag;
 
-static int op_cnt;
-static size_t rev_op_cnt;
-static int pagelength;
-static FILE *fp;
+static thread_local int op_cnt;
+static thread_local size_t rev_op_cnt;
+static thread_local int pagelength;
+static thread_local FILE *fp;
 
 static constexpr std::string_view baseName{"tape_"};
 static constexpr std::string_view extension{".tex"};
-- 
2.43.0


From 22b496e8b19d3388985e2bc05714acf14aa9e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 07/95] fix: Taylor drivers reuse no factorization or tables of
 another call

inverse_Taylor_prop decided from function-local statics whether the Jacobian
had to be factorized, so a second tape with the same dimensions and base
point was solved with the first tape's matrix; the statics also raced
between threads.  jac_solv used its matrix as a factorization after mode 0,
after a failed factorization and after the tape was recorded again or got
new parameters.
---
 ADOL-C/src/drivers/taylor.cpp      | 150 ++++++++++-------------------
 ADOL-C/src/valuetape/valuetape.cpp |   4 +
 2 files changed, 54 insertions(+), 100 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 8f95566..1cae2c5 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -19,6 +19,7 @@
 #include <adolc/valuetape/valuetape.h>
 
 #include <math.h>
+#include <vector>
 
 BEGIN_C_DECLS
 
@@ -52,7 +53,7 @@ void freecoefflist(size_t dim, struct item *coeff_list) {
 
 /****************************************************************************/
 /*                                            ALLOCATE/DEALLOCATE COEFFLIST */
-double *tensoriglob;
+static thread_local double *tensoriglob;
 
 /*--------------------------------------------------------------------------*/
 /* Allocate space for symmetric derivative tensors
@@ -462,10 +463,12 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
     }
   switch (mode) {
   case 0:
+    tape.jacSolv_modeold(0); /* J is replaced: no valid factorization */
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
     MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
     break;
   case 1:
+    tape.jacSolv_modeold(0);
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
     MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
     if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
@@ -477,6 +480,7 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
     break;
   case 2:
     if ((tape.jacSolv_modeold() < 1) || (newX == 1)) {
+      tape.jacSolv_modeold(0);
       MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
       MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
       if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
@@ -496,77 +500,33 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
 /****************************************************************************/
 int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
   int i, j, l, q;
-  static double **I;
   double bi;
-  static double **Xhelp;
-  static double **W;
-  static double *xold;
-  static double ***A;
-  static double *w;
-  static int *dd;
-  static double *b;
-  static int nax, dax, bd, cgd;
-  static short **nonzero;
-  short *nz;
   double *Aij;
   double *Xj;
   int ii, di, da, Di, indexA, indexX;
   int rc = 3;
 
-  /* Re/Allocation Stuff */
-  if ((n != nax) || (d != dax)) {
-    if (nax) {
-      myfree3(A);
-      myfree2(I);
-      myfree2(W);
-      myfree2(Xhelp);
-      myfree1(w);
-      free(xold);
-      free(*nonzero);
-      free(nonzero);
-      free(dd);
-      free(b);
-    }
-    A = myalloc3(n, n, d + 1);
-    I = myalloc2(n, n);
-    W = myalloc2(n, d);
-    Xhelp = myalloc2(n, d);
-    w = myalloc1(n);
-    dd = (int *)malloc((d + 1) * sizeof(int));
-    b = (double *)malloc(n * sizeof(double));
-    xold = (double *)malloc(n * sizeof(double));
-    nonzero = (short **)malloc(n * sizeof(short *));
-    nz = (short *)malloc(n * n * sizeof(short));
-    for (i = 0; i < n; i++) {
-      nonzero[i] = nz;
-      nz = nz + n;
-      xold[i] = 0;
-      for (j = 0; j < n; j++)
-        I[i][j] = (i == j) ? 1.0 : 0.0;
-    }
-    cgd = 1;
-    nax = n;
-    dax = d;
-    dd[0] = d + 1;
-    i = -1;
-    while (dd[++i] > 1)
-      dd[i + 1] = (int)ceil(dd[i] * 0.5);
-    bd = i + 1;
-  }
-  if (cgd == 0)
-    for (i = 0; i < n; i++)
-      if (X[i][0] != xold[i])
-        cgd = 1;
+  std::vector<double> xold(n), b(n, 0.0);
   for (i = 0; i < n; i++)
-    b[i] = 0;
-  if (cgd == 1) {
-    cgd = 0;
-    for (i = 0; i < n; i++)
-      xold[i] = X[i][0];
-    MINDEC(rc, jac_solv(tag, n, xold, b, 1));
-    if (rc == -3)
-      return -3;
-  }
+    xold[i] = X[i][0];
+  MINDEC(rc, jac_solv(tag, n, xold.data(), b.data(), 1));
+  if (rc == -3)
+    return -3;
+
+  std::vector<double> w(n);
+  std::vector<short> nz(n * n);
+  std::vector<short *> nonzero(n);
+  for (i = 0; i < n; i++)
+    nonzero[i] = nz.data() + i * n;
+  std::vector<int> dd(1, d + 1);
+  while (dd.back() > 1)
+    dd.push_back((int)ceil(dd.back() * 0.5));
+  const int bd = (int)dd.size();
+  double ***A = myalloc3(n, n, d + 1);
+  double **I = myallocI2(n);
+  double **W = myalloc2(n, d);
+  double **Xhelp = myalloc2(n, d);
+
   ii = bd;
   for (i = 0; i < n; i++) {
     for (j = 0; j < d; j++) {
@@ -582,8 +542,9 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
   while (--ii > 0) {
     di = dd[ii - 1] - 1;
     Di = dd[ii - 1] - dd[ii] - 1;
-    MINDEC(rc, hos_forward(tag, n, n, di, Di + 1, xold, Xhelp, w, W));
-    MINDEC(rc, hov_reverse(tag, n, n, Di, n, I, A, nonzero));
+    MINDEC(rc, hos_forward(tag, n, n, di, Di + 1, xold.data(), Xhelp, w.data(),
+                           W));
+    MINDEC(rc, hov_reverse(tag, n, n, Di, n, I, A, nonzero.data()));
     da = dd[ii];
     for (l = da; l < dd[ii - 1]; l++) {
       for (i = 0; i < n; i++) {
@@ -610,23 +571,27 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
           }
         b[i] = -bi;
       }
-      MINDEC(rc, jac_solv(tag, n, xold, b, 2));
+      MINDEC(rc, jac_solv(tag, n, xold.data(), b.data(), 2));
       if (rc == -3)
-        return -3;
+        goto done;
       for (i = 0; i < n; i++) {
         X[i][l] += b[i];
         Xhelp[i][l - 1] += b[i];
       }
     }
   }
+done:
+  myfree3(A);
+  myfreeI2(n, I);
+  myfree2(W);
+  myfree2(Xhelp);
   return rc;
 }
 
 /****************************************************************************/
 int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
                         double **tensor, double **S) {
-  static int dold, pold;
-  static struct item *coeff_list;
+  struct item *coeff_list = nullptr;
   int *it = (int *)malloc(d * sizeof(int));
   double **X;
   double **Y;
@@ -643,17 +608,8 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
   MINDEC(rc, zos_forward(tag, n, n, 0, x, y));
   if (d > 0) {
     dim = binomi(p + d - 1, d);
-    if ((d != dold) || (p != pold)) {
-      if (pold) { /* olvo 980728 */
-        dim = binomi(pold + dold - 1, dold);
-        freecoefflist(dim, coeff_list);
-        free((char *)coeff_list);
-      }
-      coeff_list = (struct item *)malloc(sizeof(struct item) * dim);
-      coeff(p, d, coeff_list);
-      dold = d;
-      pold = p;
-    }
+    coeff_list = (struct item *)malloc(sizeof(struct item) * dim);
+    coeff(p, d, coeff_list);
     jm = (int *)malloc(sizeof(int) * p);
     X = myalloc2(n, d + 1);
     Y = myalloc2(n, d + 1);
@@ -676,7 +632,7 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
         multma2vec1(n, p, d, Y, S, jm);
         MINDEC(rc, inverse_Taylor_prop(tag, n, d, Y, X));
         if (rc == -3)
-          return -3;
+          break;
         do {
           for (int j = 0; j < n; j++)
             tensor[j][ptr->a] += static_cast<double>(X[j][ptr->b] * ptr->c);
@@ -700,7 +656,7 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
         multma2vec1(n, p, d, Y, S, jm); /* Store S*jm in Y */
         MINDEC(rc, inverse_Taylor_prop(tag, n, d, Y, X));
         if (rc == -3)
-          return -3;
+          break;
         ptr = &coeff_list[i];
         do {
           for (int j = 0; j < n; j++) {
@@ -710,12 +666,15 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
         } while (ptr != NULL);
       }
     }
+    freecoefflist(dim, coeff_list);
+    free((char *)coeff_list);
     free((char *)jm);
     myfree2(X);
     myfree2(Y);
   }
-  for (int i = 0; i < n; i++)
-    tensor[i][0] = x[i];
+  if (rc != -3)
+    for (int i = 0; i < n; i++)
+      tensor[i][0] = x[i];
   free((char *)y);
   free((char *)it);
   return rc;
@@ -724,8 +683,7 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
 /****************************************************************************/
 int tensor_eval(short tag, int m, int n, int d, int p, double *x,
                 double **tensor, double **S) {
-  static int dold, pold;
-  static struct item *coeff_list;
+  struct item *coeff_list = nullptr;
   int **jm;
   int *it = (int *)malloc(d * sizeof(int));
   double *y = (double *)malloc(m * sizeof(double));
@@ -745,18 +703,8 @@ int tensor_eval(short tag, int m, int n, int d, int p, double *x,
   } else {
     size_t dim = binomi(p + d - 1, d);
     bd = (dim < 10) ? dim : 10;
-    if ((d != dold) || (p != pold)) {
-      if (pold) {
-        // set to old dim to free
-        auto oldDim = binomi(pold + dold - 1, dold);
-        freecoefflist(oldDim, coeff_list);
-        free((char *)coeff_list);
-      }
-      coeff_list = (struct item *)malloc(sizeof(struct item) * dim);
-      coeff(p, d, coeff_list);
-      dold = d;
-      pold = p;
-    }
+    coeff_list = (struct item *)malloc(sizeof(struct item) * dim);
+    coeff(p, d, coeff_list);
     size_t jmbd = bd;
     jm = (int **)malloc(jmbd * sizeof(int *));
     for (size_t i = 0; i < jmbd; i++)
@@ -829,6 +777,8 @@ int tensor_eval(short tag, int m, int n, int d, int p, double *x,
       }
     }
 
+    freecoefflist(dim, coeff_list);
+    free((char *)coeff_list);
     for (size_t i = 0; i < jmbd; i++)
       free((char *)*(jm + i));
     free((char *)jm);
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index c9ea082..f433944 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -70,6 +70,8 @@ int ValueTape::initNewTape() {
   // creates new tapeInfos object with old buffers
   // thus, we dont allocate the buffers again if they are already existent
   initTapeInfos_keep();
+  // a factorization kept by jac_solv belongs to the previous recording
+  jacSolv_modeold(0);
   // must be after initTapeInfos_keep, to not get overwritten!
   workMode(TapeInfos::WRITE_ACCESS);
 #ifdef ADOLC_SPARSE
@@ -543,6 +545,8 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
 
   if (!paramstore())
     paramstore(new double[tapestats(TapeInfos::NUM_PARAM)]);
+  // a factorization kept by jac_solv belongs to the previous parameters
+  jacSolv_modeold(0);
 
   double *paramstore_view = paramstore();
   for (size_t i = 0; i < tapestats(TapeInfos::NUM_PARAM); ++i)
-- 
2.43.0


From 5fbdc3d7aa8391003d89a1937157ad4cd8d40e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 08/95] fix: asin/acos/acosh/atanh forward sweeps test the
 argument, not the result, for the domain border

---
 ADOL-C/src/uni5_for.cpp | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 2713eb1..bcbe191 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -2724,6 +2724,12 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+#ifndef _ZOS_ /* BREAK_ZOS */
+#if !defined(_INT_FOR_) && !defined(_INDO_)
+      T0arg = dp_T0[arg1]; /* res may be arg1 */
+#endif
+#endif /* ALL_TOGETHER_AGAIN */
+
       dp_T0[res] = asin(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -2751,7 +2757,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (T0arg == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2770,7 +2776,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (T0arg == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -2824,6 +2830,12 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+#ifndef _ZOS_ /* BREAK_ZOS */
+#if !defined(_INT_FOR_) && !defined(_INDO_)
+      T0arg = dp_T0[arg1]; /* res may be arg1 */
+#endif
+#endif /* ALL_TOGETHER_AGAIN */
+
       dp_T0[res] = acos(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -2851,7 +2863,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (T0arg == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2870,7 +2882,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (T0arg == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = -tape.make_inf();
@@ -2985,6 +2997,12 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+#ifndef _ZOS_ /* BREAK_ZOS */
+#if !defined(_INT_FOR_) && !defined(_INDO_)
+      T0arg = dp_T0[arg1]; /* res may be arg1 */
+#endif
+#endif /* ALL_TOGETHER_AGAIN */
+
       dp_T0[res] = acosh(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -3012,7 +3030,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (T0arg == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -3070,6 +3088,12 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+#ifndef _ZOS_ /* BREAK_ZOS */
+#if !defined(_INT_FOR_) && !defined(_INDO_)
+      T0arg = dp_T0[arg1]; /* res may be arg1 */
+#endif
+#endif /* ALL_TOGETHER_AGAIN */
+
       dp_T0[res] = atanh(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -3097,7 +3121,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (T0arg == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -3119,7 +3143,7 @@ int hov_forward(
             *Tres++ = tape.make_nan();
 #endif /* _HIGHER_ORDER_ */
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (T0arg == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
-- 
2.43.0


From d9ae9023fd3c34248ccfdd1c42ed090adad3dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 09/95] fix: reverse sweeps add the weight of a dependent to
 its adjoint

---
 ADOL-C/src/fo_rev.cpp | 8 +++++++-
 ADOL-C/src/ho_rev.cpp | 7 +++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index bf0b544..554f0a4 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -739,7 +739,13 @@ int int_reverse_safe(
 
       // Nested reverse calls for ext_diff use the public fov_reverse layout
       // [q][m], so they must not transpose incoming adjoint access here.
-      FOR_0_LE_l_LT_p ARES_INC = LAGRANGE(l, indexd);
+      // The variable may have been used, or declared dependent, again after this
+      // declaration: add to the adjoint collected from there.
+#if defined(_INT_REV_)
+      FOR_0_LE_l_LT_p ARES_INC |= LAGRANGE(l, indexd);
+#else
+      FOR_0_LE_l_LT_p ARES_INC += LAGRANGE(l, indexd);
+#endif
       indexd--;
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index f8a48e3..a84c5c0 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -638,11 +638,14 @@ int hov_ti_reverse(
         ARES_INC_O;
         dc = -1;
         for (int i = 0; i < k; i++) {
-          ARES_INC = LAGRANGE(l, indexd, i);
+          // The variable may have been used, or declared dependent, again after
+          // this declaration: add to the adjoint collected from there.
+          ARES_INC += LAGRANGE(l, indexd, i);
           if (LAGRANGE(l, indexd, i) != 0.0)
             dc = i;
         }
-        AARG = (dc < 0) ? 0.0 : (dc > 0) ? 2.0 : 1.0;
+        comp = (dc < 0) ? 0.0 : (dc > 0) ? 2.0 : 1.0;
+        MAXDEC(AARG, comp);
         HOV_INC(Aarg, k1)
       }
       indexd--;
-- 
2.43.0


From 45aecf374b31088d235b788c8d65e0e9fd827354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 10/95] fix: hos_ov_reverse recomputes += and -= products in
 every direction

---
 ADOL-C/src/ho_rev.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index a84c5c0..40d7ea5 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1020,10 +1020,10 @@ int hov_ti_reverse(
           HOV_INC(Ares, k)
           HOV_INC(Aarg1, k)
           HOV_INC(Aarg2, k)
-          HOS_OV_INC(Targ1, k)
-          HOS_OV_INC(Targ2, k)
-          HOS_OV_INC(Tres, k)
         }
+        HOS_OV_INC(Targ1, k)
+        HOS_OV_INC(Targ2, k)
+        HOS_OV_INC(Tres, k)
       }
       break;
 
@@ -1069,10 +1069,10 @@ int hov_ti_reverse(
           HOV_INC(Ares, k)
           HOV_INC(Aarg1, k)
           HOV_INC(Aarg2, k)
-          HOS_OV_INC(Targ1, k)
-          HOS_OV_INC(Targ2, k)
-          HOS_OV_INC(Tres, k)
         }
+        HOS_OV_INC(Targ1, k)
+        HOS_OV_INC(Targ2, k)
+        HOS_OV_INC(Tres, k)
       }
       break;
 
-- 
2.43.0


From db3148f393b9c52c79f6ef3563aebe3c89014cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 11/95] fix: hov_reverse through fabs in more than one row

---
 ADOL-C/src/ho_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 40d7ea5..da21806 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -350,7 +350,7 @@ int hov_ti_reverse(
 #ifdef _HOV_
   const int p = nrows;
   const int pk1 = p * k1;
-  const int q = 1;
+  const int q = p;
 #elif _HOS_OV_
   const int p = nrows;
   const int pk1 = p * k1;
-- 
2.43.0


From d3d4ca06bc7303349f3134bde669928754371b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 12/95] fix: higher-order reverse of ceil and floor

---
 ADOL-C/src/ho_rev.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index da21806..d2ff815 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1817,6 +1817,7 @@ int hov_ti_reverse(
       coval = (coval != ceil(*rpp_T[arg]));
 
       ASSIGN_A(Ares, rpp_A[res])
+      ASSIGN_A(Aarg, rpp_A[arg])
 
       for (int l = 0; l < p; l++)
         if (0 == ARES) {
@@ -1852,7 +1853,7 @@ int hov_ti_reverse(
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
         } else {
-          ARES = 0.0;
+          ARES_INC = 0.0;
           AARG_INC = 5.0;
           for (int i = 0; i < k; i++) {
             if ((coval != 0.0) && (ARES != 0.0))
-- 
2.43.0


From 06125da9a2b3a1e4b5099567a5f6d14d191e836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 13/95] fix: vec_jac with repeat reports the return code of the
 reverse sweep

---
 ADOL-C/src/drivers/drivers.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index af6178e..92ed856 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -54,18 +54,17 @@ int gradient(short tag, int n, const double *argument, double *result) {
 /* vec_jac(tag, m, n, repeat, x[n], u[m], v[n])                             */
 int vec_jac(short tag, int m, int n, int repeat, const double *argument,
             const double *lagrange, double *row) {
-  int rc = -1;
+  int rc = 3;
   double *y = NULL;
 
   if (!repeat) {
     y = myalloc1(m);
     rc = zos_forward(tag, m, n, 1, argument, y);
+    myfree1(y);
     if (rc < 0)
       return rc;
   }
   MINDEC(rc, fos_reverse(tag, m, n, lagrange, row));
-  if (!repeat)
-    myfree1(y);
   return rc;
 }
 
-- 
2.43.0


From 410de0f4621e51a63e4894c230c4a50c2b0d42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 14/95] fix: large_jacobian sweeps no direction beyond the last
 column

---
 ADOL-C/src/drivers/drivers.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index 92ed856..0f94299 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -103,7 +103,7 @@ int jacobian(short tag, int depen, int indep, const double *argument,
 
 int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
                    double *result, double **jacobian) {
-  int rc, dirs, i;
+  int rc = 3, dirs, i;
   double **I;
 
   I = myallocI2(indep);
@@ -114,13 +114,15 @@ int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
   dirs = indep / runns;
   if (indep % runns)
     ++dirs;
-  for (i = 0; i < runns - 1; ++i) {
-    rc = fov_offset_forward(tag, depen, indep, dirs, i * dirs, argument, I,
-                            result, jacobian);
-  }
-  dirs = indep - (runns - 1) * dirs;
-  rc = fov_offset_forward(tag, depen, indep, dirs, indep - dirs, argument, I,
-                          result, jacobian);
+  i = 0;
+  do {
+    /* the last sweep gets the directions that are left */
+    if (dirs > indep - i)
+      dirs = indep - i;
+    MINDEC(rc, fov_offset_forward(tag, depen, indep, dirs, i, argument, I,
+                                  result, jacobian));
+    i += dirs;
+  } while (rc >= 0 && i < indep);
   myfreeI2(indep, I);
   return rc;
 }
-- 
2.43.0


From 12e56112d579cc97cdf08abdfc52547e7c720e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 15/95] fix: jacobian and lagra_hess_vec free their buffers
 when the forward sweep fails

---
 ADOL-C/src/drivers/drivers.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index 0f94299..964e849 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -86,8 +86,11 @@ int jacobian(short tag, int depen, int indep, const double *argument,
   } else {
     I = myallocI2(depen);
     rc = zos_forward(tag, depen, indep, 1, argument, result);
-    if (rc < 0)
+    if (rc < 0) {
+      myfreeI2(depen, I);
+      myfree1(result);
       return rc;
+    }
     MINDEC(rc, fov_reverse(tag, depen, indep, depen, I, jacobian));
     myfreeI2(depen, I);
   }
@@ -279,8 +282,12 @@ int lagra_hess_vec(short tag, int m, int n, const double *argument,
 
   rc = fos_forward(tag, m, n, keep, argument, tangent, y, y_tangent);
 
-  if (rc < 0)
+  if (rc < 0) {
+    myfree1(y_tangent);
+    myfree1(y);
+    myfree2(X);
     return rc;
+  }
 
   MINDEC(rc, hos_reverse(tag, m, n, degree, lagrange, X));
 
-- 
2.43.0


From b5a927c678cb0f4ac17939f195f8161afb3b680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 16/95] fix: advector keeps its elements addressable by an
 active subscript

---
 ADOL-C/include/adolc/advector.h | 10 +++++++++-
 ADOL-C/src/advector.cpp         | 18 ++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/advector.h b/ADOL-C/include/adolc/advector.h
index 11d1956..c2814d5 100644
--- a/ADOL-C/include/adolc/advector.h
+++ b/ADOL-C/include/adolc/advector.h
@@ -112,7 +112,12 @@ void ADOLC_API condeqassign(adubref &res, const adouble &cond,
                             const adouble &arg);
 
 class ADOLC_API advector {
-  std::vector<adouble> data_;
+  // active subscripts address data_[i] by its location relative to data_[0]
+  mutable std::vector<adouble> data_;
+
+  // Gives the elements contiguous locations again if some were replaced, e.g.,
+  // by move assignment from a temporary.
+  void ensureContiguous() const;
 
 public:
   advector() = default;
@@ -121,6 +126,9 @@ public:
 
   advector(const advector &ad_vec)
       : data_(currentTape().ensureContiguousLocations_(ad_vec.size())) {
+    if (ad_vec.size() == 0)
+      return;
+    ad_vec.ensureContiguous();
     adolc_vec_copy(data_.data(), ad_vec.data_.data(), ad_vec.size());
   }
 
diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index 10975cb..cf1219f 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -443,7 +443,24 @@ bool advector::nondecreasing() const {
   return ret;
 }
 
+void advector::ensureContiguous() const {
+  bool contiguous = true;
+  for (size_t i = 1; i < data_.size() && contiguous; ++i)
+    contiguous = data_[i].loc() == data_[0].loc() + i;
+  if (contiguous)
+    return;
+  std::vector<adouble> block(
+      currentTape().ensureContiguousLocations_(data_.size()));
+  for (size_t i = 0; i < data_.size(); ++i) {
+    const adouble &element = data_[i];
+    block[i] = element;
+  }
+  for (size_t i = 0; i < data_.size(); ++i)
+    data_[i] = std::move(block[i]);
+}
+
 adouble advector::operator[](const adouble &index) const {
+  ensureContiguous();
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
   adouble ret_adouble;
@@ -470,6 +487,7 @@ adouble advector::operator[](const adouble &index) const {
 }
 
 adubref advector::operator[](const adouble &index) {
+  ensureContiguous();
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
   size_t locat = tape.next_loc();
-- 
2.43.0


From 913d3068f8f279e0d56b32218994e9ef3d821272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 17/95] fix: adolc_vec_dot and adolc_vec_axpy do not count as
 dependents

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index d3f45f4..3d70d30 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -248,7 +248,7 @@ public:
   size_t num_eq_prod() const { return tapeInfos_.num_eq_prod; }
   void num_eq_prod(size_t num) { tapeInfos_.num_eq_prod = num; }
   void increment_num_eq_prod() { ++(tapeInfos_.num_eq_prod); }
-  void add_num_eq_prod(size_t val) { tapeInfos_.numDeps += val; }
+  void add_num_eq_prod(size_t val) { tapeInfos_.num_eq_prod += val; }
 
   void increment_numInds() { ++tapeInfos_.numInds; }
   size_t numInds() const { return tapeInfos_.numInds; }
-- 
2.43.0


From 8bf5e6bdfb82d273571fed922b833ae13b618da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 18/95] fix: declare adolc_vec_dot as it is defined

---
 ADOL-C/include/adolc/adtb_types.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 6459cbc..13247c3 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1107,9 +1107,9 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
 void ADOLC_API adolc_vec_copy(adouble *const dest, const adouble *const src,
                               size_t size);
 
-// computes canonical scalarproduct, src and dest must have size "size"
-void ADOLC_API adolc_vec_dot(adouble *const dest, const adouble *const src,
-                             size_t size);
+// computes canonical scalarproduct, vec_a and vec_b must have size "size"
+ADOLC_API adouble adolc_vec_dot(const adouble *const vec_a,
+                                const adouble *const vec_b, size_t size);
 
 // res = a*vec_a + vec_b, vec_a and vec_b must have same size "size"
 void ADOLC_API adolc_vec_axpy(adouble *const res, const adouble &a,
-- 
2.43.0


From d340d54fd29e546eb1e1e59db446db3758e52912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 19/95] fix: vector operations keep the overwritten values of
 every element

---
 ADOL-C/src/adouble.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 210138f..305c5b5 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -5573,7 +5573,7 @@ void adolc_vec_copy(adouble *const dest, const adouble *const src,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(dest[0].value());
+        tape.write_scaylor(dest[i].value());
     }
   }
   for (size_t i = 0; i < size; ++i)
@@ -5638,7 +5638,7 @@ void adolc_vec_axpy(adouble *const res, const adouble &a,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(tape.get_ad_value(vec_a[0].loc() + i));
+        tape.write_scaylor(tape.get_ad_value(res[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
-- 
2.43.0


From 822141bf9e12cc747c925331e3b805da216bf333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 20/95] fix: reverse sweeps of adolc_vec_copy, adolc_vec_dot
 and adolc_vec_axpy

---
 ADOL-C/src/fo_rev.cpp | 39 ++++++++++++++-----------
 ADOL-C/src/ho_rev.cpp | 66 ++++++++++++++++++++++++-------------------
 2 files changed, 59 insertions(+), 46 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 554f0a4..9842220 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2329,7 +2329,7 @@ int int_reverse_safe(
       res = tape.get_locint_r();
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg + qq])
         ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
@@ -2372,6 +2372,10 @@ int int_reverse_safe(
         arg2++;
         arg1++;
       }
+      {
+        ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+        FOR_0_LE_l_LT_p ARES_INC = 0;
+      }
 #if !defined(_NTIGHT_)
       rp_T[res] = tape.get_taylor();
 #endif /* !_NTIGHT_ */
@@ -2383,28 +2387,29 @@ int int_reverse_safe(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
-        ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      for (locint qq = size; qq-- > 0;) {
+#if !defined(_NTIGHT_)
+        rp_T[res + qq] = tape.get_taylor();
+#endif /* !_NTIGHT_ */
+        ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
-        ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2])
-        ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
+        ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2 + qq])
+        ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1 + qq])
         FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
-          AARG2_INC |= *Ares;
-          AARG1_INC |= ARES_INC;
+          size_t aTmp = *Ares;
+          ARES_INC = 0;
+          AARG_INC |= aTmp;
+          AARG2_INC |= aTmp;
+          AARG1_INC |= aTmp;
 #else
-          AARG2_INC += *Ares;
-          AARG1_INC += (*Ares) * TARG;
-          AARG_INC += ARES_INC * TARG1;
+          revreal aTmp = *Ares;
+          ARES_INC = 0.0;
+          AARG2_INC += aTmp;
+          AARG1_INC += aTmp * TARG;
+          AARG_INC += aTmp * rp_T[arg1 + qq];
 #endif
         }
-#if !defined(_NTIGHT_)
-        rp_T[res] = tape.get_taylor();
-#endif /* !_NTIGHT_ */
-        arg2++;
-        arg1++;
-        res++;
       }
       break;
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index d2ff815..6f27faf 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2438,7 +2438,7 @@ int hov_ti_reverse(
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
 
-      for (locint qq = 0; qq < size; qq++) {
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, rpp_A[arg + qq])
         ASSIGN_A(Ares, rpp_A[res + qq])
@@ -2494,10 +2494,15 @@ int hov_ti_reverse(
             HOV_INC(Aarg2, k)
             HOS_OV_INC(Targ1, k)
             HOS_OV_INC(Targ2, k)
-            HOS_OV_INC(Tres, k)
           }
         }
       }
+      {
+        ASSIGN_A(Ares, rpp_A[res])
+        for (int l = 0; l < p; l++)
+          for (int i = 0; i < k1; i++)
+            ARES_INC = 0.0;
+      }
       GET_TAYL(res, k, p)
       break;
 
@@ -2507,40 +2512,43 @@ int hov_ti_reverse(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      for (locint qq = size; qq-- > 0;) {
+        GET_TAYL(res + qq, k, p)
+
         ASSIGN_A(Ares, rpp_A[res + qq])
         ASSIGN_A(Aarg, rpp_A[arg])
         ASSIGN_A(Aarg2, rpp_A[arg2 + qq])
         ASSIGN_A(Aarg1, rpp_A[arg1 + qq])
         Targ = rpp_T[arg];
         Targ1 = rpp_T[arg1 + qq];
-        if (0 == ARES) {
-          HOV_INC(Aarg, k1)
-          HOV_INC(Aarg1, k1)
-          HOV_INC(Aarg2, k1)
-          HOV_INC(Ares, k1)
-        } else {
-          comp = (ARES > 2.0) ? ARES : 2.0;
-          MAXDEC(AARG2, ARES);
-          ARES_INC = 0.0;
-          MAXDEC(AARG, comp);
-          MAXDEC(AARG1, comp);
-          AARG_INC_O;
-          AARG1_INC_O;
-          AARG2_INC_O;
-          copyAndZeroset(k, Ares, rp_Atemp);
-          inconv(k, rp_Atemp, Targ1, Aarg);
-          inconv(k, rp_Atemp, Targ, Aarg1);
-          for (int i = 0; i < k; i++)
-            AARG2_INC += rp_Atemp[i];
+        for (int l = 0; l < p; l++)
+          if (0 == ARES) {
+            HOV_INC(Aarg, k1)
+            HOV_INC(Aarg1, k1)
+            HOV_INC(Aarg2, k1)
+            HOV_INC(Ares, k1)
+          } else {
+            double aTmp = ARES;
+            comp = (ARES > 2.0) ? ARES : 2.0;
+            ARES_INC = 0.0;
+            MAXDEC(AARG, comp);
+            MAXDEC(AARG1, comp);
+            MAXDEC(AARG2, aTmp);
+            AARG_INC_O;
+            AARG1_INC_O;
+            AARG2_INC_O;
+            copyAndZeroset(k, Ares, rp_Atemp);
+            inconv(k, rp_Atemp, Targ1, Aarg);
+            inconv(k, rp_Atemp, Targ, Aarg1);
+            for (int i = 0; i < k; i++)
+              AARG2_INC += rp_Atemp[i];
 
-          HOV_INC(Ares, k)
-          HOV_INC(Aarg, k)
-          HOV_INC(Aarg1, k)
-          HOS_OV_INC(Targ, k)
-          HOS_OV_INC(Targ1, k)
-        }
-        GET_TAYL(res + qq, k, p)
+            HOV_INC(Ares, k)
+            HOV_INC(Aarg, k)
+            HOV_INC(Aarg1, k)
+            HOS_OV_INC(Targ, k)
+            HOS_OV_INC(Targ1, k)
+          }
       }
       break;
 
-- 
2.43.0


From c88d9d3cd6902560c644c72525d2b09febdc8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 21/95] fix: vector reverse through an active subscript clears
 every adjoint

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 9842220..795a651 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2033,7 +2033,7 @@ int int_reverse_safe(
         ARES_INC = 0;
 #else
         AARG1_INC += *Ares;
-        *Ares = 0.0;
+        ARES_INC = 0.0;
 #endif
       }
       rp_T[res] = tape.get_taylor();
-- 
2.43.0


From 596f3b9a89f808ca017cc8f6b66ab304bc25ec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 22/95] fix: reverse of assigning an active subscript to itself

---
 ADOL-C/src/fo_rev.cpp | 10 ++++++----
 ADOL-C/src/ho_rev.cpp |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 795a651..a5c2d2a 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2171,11 +2171,13 @@ int int_reverse_safe(
 
       FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-        AARG_INC |= *Ares;
-        ARES_INC = 0;
+        const auto aTmp = *Ares;
+        ARES_INC = 0; /* arg may be res */
+        AARG_INC |= aTmp;
 #else
-        AARG_INC += *Ares;
-        ARES_INC = 0.0;
+        const auto aTmp = *Ares;
+        ARES_INC = 0.0; /* arg may be res */
+        AARG_INC += aTmp;
 #endif
       }
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 6f27faf..84d3f3a 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2271,7 +2271,7 @@ int hov_ti_reverse(
       ASSIGN_A(Ares, rpp_A[res])
 
       for (int l = 0; l < p; l++)
-        if (0 == ARES) {
+        if (0 == ARES || arg == res) { /* nothing to propagate */
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
         } else {
-- 
2.43.0


From c49f74f4fe83b9dbdf76f3d19420536fdcf0e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 23/95] fix: tensor_address and tensor_value accept
 multi-indices in any order and leave them unchanged

---
 ADOL-C/src/drivers/taylor.cpp | 56 ++++-------------------------------
 1 file changed, 5 insertions(+), 51 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 1cae2c5..c124ef3 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -18,6 +18,7 @@
 #include <adolc/tape_interface.h>
 #include <adolc/valuetape/valuetape.h>
 
+#include <algorithm>
 #include <math.h>
 #include <vector>
 
@@ -276,37 +277,12 @@ void convert(int p, int d, int *im, int *multi) {
 
 /*--------------------------------------------------------------------------*/
 size_t tensor_address(int d, int *multi) {
-  int i, j, max, ind;
   size_t add = 0;
-  int *im = (int *)malloc(d * sizeof(int));
-  int *mymulti = (int *)malloc(d * sizeof(int));
-
-  max = 0;
-  ind = d - 1;
-  for (i = 0; i < d; i++) {
-    mymulti[i] = multi[i];
-    if (mymulti[i] > max)
-      max = mymulti[i];
-    im[i] = 0;
-  }
+  std::vector<int> im(multi, multi + d);
+  std::sort(im.begin(), im.end());
 
-  for (i = 0; i < d; i++) {
-    if (mymulti[i] == max) {
-      im[ind] = mymulti[i];
-      mymulti[i] = 0;
-      max = 0;
-      ind -= 1;
-      for (j = 0; j < d; j++)
-        if (mymulti[j] > max)
-          max = mymulti[j];
-    }
-  }
-
-  for (i = 0; i < d; i++) {
+  for (int i = 0; i < d; i++)
     add += binomi(im[i] + i, i + 1);
-  }
-  free((char *)im);
-  free((char *)mymulti);
 
   return add;
 }
@@ -794,31 +770,9 @@ int tensor_eval(short tag, int m, int n, int d, int p, double *x,
 
 /****************************************************************************/
 void tensor_value(int d, int m, double *y, double **tensor, int *multi) {
-  int *im = (int *)malloc(d * sizeof(int));
-
-  int max = 0;
-  int ind = d - 1;
-  for (int i = 0; i < d; i++) {
-    if (multi[i] > max)
-      max = multi[i];
-    im[i] = 0;
-  }
-  for (int i = 0; i < d; i++) {
-    if (multi[i] == max) /* olvo 980728 == instead of = */
-    {
-      im[ind] = multi[i];
-      multi[i] = 0;
-      max = 0;
-      ind -= 1;
-      for (int j = 0; j < d; j++)
-        if (multi[j] > max)
-          max = multi[j];
-    }
-  }
-  size_t add = tensor_address(d, im);
+  const size_t add = tensor_address(d, multi);
   for (int i = 0; i < m; i++)
     y[i] = tensor[i][add];
-  free((char *)im);
 }
 
 END_C_DECLS
-- 
2.43.0


From f2c21bd541784d7e5c86cd6871af9a47f97e9e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 24/95] fix: freetensor of degree one does not free the
 caller's tensor

---
 ADOL-C/src/drivers/taylor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index c124ef3..185886f 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -106,6 +106,8 @@ void freetensor(int m, int n, int d, double **tensor) {
   int i;
   double *t;
 
+  if (d < 2) /* no layer of pointers was allocated */
+    return;
   for (i = 0; i < m; i++) {
     t = tensor[i];
     freetensorpoint(n, d, (double **)t);
-- 
2.43.0


From 45e35b7d3abe4fa8ce36fa07111cb404047dc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 25/95] fix: Fortran forodec_ and accodec_ read all
 coefficients and use buffers of the right size

---
 ADOL-C/src/drivers/odedriversf.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index da26887..04fc429 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -39,15 +39,12 @@ fint forodec_(fint *ftag,    /* tape identifier */
   short tag = static_cast<short>(*ftag);
   int n = static_cast<int>(*fn), dol = static_cast<int>(*fdol),
       deg = static_cast<int>(*fdeg);
-  int i;
   double tau = *ftau;
   double **Y = myalloc2(n, deg + 1);
-  for (i = 0; i < n; i++)
-    *Y[i] = fy[i];
+  spread2(n, deg + 1, fy, Y);
   rc = forodec(tag, n, tau, dol, deg, Y);
   pack2(n, deg + 1, Y, fy);
-  free((char *)*Y);
-  free((char *)Y);
+  myfree2(Y);
   return rc;
 }
 
@@ -63,17 +60,13 @@ fint accodec_(fint *fn,      /* space dimension */
   int rc = 1;
   int n = static_cast<int>(*fn), deg = static_cast<int>(*fdeg);
   double tau = *ftau;
-  double ***A = myalloc3(n, n, deg);
-  double ***B = myalloc3(n, n, deg);
-  spread3(n, n, deg, fa, A);
+  double ***A = myalloc3(n, n, deg + 1);
+  double ***B = myalloc3(n, n, deg + 1);
+  spread3(n, n, deg + 1, fa, A);
   accodec(n, tau, deg, A, B, 0);
-  pack3(n, n, deg, B, fb);
-  free((char *)**A);
-  free((char *)*A);
-  free((char *)A);
-  free((char *)**B);
-  free((char *)*B);
-  free((char *)B);
+  pack3(n, n, deg + 1, B, fb);
+  myfree3(A);
+  myfree3(B);
   return rc;
 }
 
-- 
2.43.0


From 00f488c082b94d4386d2c9b2222031256766f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 26/95] fix: lie_gradient and lie_covector of degree one use
 the flow's first coefficient

---
 ADOL-C/src/lie/adolc_lie_c.cpp | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index c8fcc06..66a5156 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -272,8 +272,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  double *xp = myalloc1(n);
-  double *yp = myalloc1(m);
 
   double **In = myallocI2(n);
   double **Im = myallocI2(m);
@@ -293,13 +291,8 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   /* prepare for input   */
   for (i = 0; i < n; i++) {
     x[i] = X[i][0];
-    if (d == 1) {
-      xp[i] = X[i][1];
-    } else {
-      for (k = 0; k < d; k++) {
-        X[i][k] = X[i][k + 1];
-      }
-    }
+    for (k = 0; k < d; k++)
+      X[i][k] = X[i][k + 1];
   }
 
   hos_forward(Tape_H, m, n, d, d + 1, x, X, y, Y);
@@ -326,8 +319,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   myfree1(x);
   myfree1(y);
-  myfree1(xp);
-  myfree1(yp);
 
   myfreeI2(n, In);
   myfreeI2(m, Im);
@@ -385,8 +376,6 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  double *xp = myalloc1(n);
-  double *yp = myalloc1(m);
 
   int i = 0, k = 0;
 
@@ -403,22 +392,16 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
   /* prepare for input */
   for (i = 0; i < n; i++) {
     x[i] = X[i][0];
-    if (d == 1)
-      xp[i] = X[i][1];
-    else
-      for (k = 0; k < d; k++)
-        X[i][k] = X[i][k + 1];
+    for (k = 0; k < d; k++)
+      X[i][k] = X[i][k + 1];
   }
 
   hos_forward(Tape_W, m, n, d, d + 1, x, X, y, Y);
 
   /* postprocess output of hos_forward  */
   for (i = 0; i < m; i++) {
-    if (d == 1)
-      Y[i][1] = yp[i];
-    else
-      for (k = d; k > 0; k--)
-        Y[i][k] = Y[i][k - 1];
+    for (k = d; k > 0; k--)
+      Y[i][k] = Y[i][k - 1];
     Y[i][0] = y[i];
   }
 
@@ -432,8 +415,6 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   myfree1(x);
   myfree1(y);
-  myfree1(xp);
-  myfree1(yp);
 
   myfreeI2(n, In);
 
-- 
2.43.0


From 280ac91e6fcc0aafd9321d753580664bc186c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 27/95] fix: self-assignment of adtl_indo/adtl_hov adoubles
 dropped the dependency pattern

---
 ADOL-C/include/adolc/adtl_hov.h  | 2 ++
 ADOL-C/include/adolc/adtl_indo.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 6f8757e..bb2d6ee 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2099,6 +2099,8 @@ inline adouble &adouble::operator=(const double v) {
 }
 
 inline adouble &adouble::operator=(const adouble &a) {
+  if (this == &a)
+    return *this;
   if (do_val())
     val = a.val;
   if (do_adval())
diff --git a/ADOL-C/include/adolc/adtl_indo.h b/ADOL-C/include/adolc/adtl_indo.h
index 14c8699..c48618a 100644
--- a/ADOL-C/include/adolc/adtl_indo.h
+++ b/ADOL-C/include/adolc/adtl_indo.h
@@ -725,6 +725,8 @@ inline adouble &adouble::operator=(const double v) {
 }
 
 inline adouble &adouble::operator=(const adouble &a) {
+  if (this == &a)
+    return *this;
   val = a.val;
   if (!pattern.empty())
     pattern.clear();
-- 
2.43.0


From 0d9a07d7ae576c7dbdca2613abad3429ccef998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 28/95] fix: adtl pow(a, 0.0) had NaN derivative at a = 0

---
 ADOL-C/include/adolc/adtl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtl.h b/ADOL-C/include/adolc/adtl.h
index 45ac5ed..9674189 100644
--- a/ADOL-C/include/adolc/adtl.h
+++ b/ADOL-C/include/adolc/adtl.h
@@ -584,7 +584,8 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
 ADOLC_API inline adouble pow(const adouble &a, double v) {
   adouble tmp;
   tmp.PRIMAL_VALUE = ADOLC_MATH_NSP::pow(a.PRIMAL_VALUE, v);
-  double tmp2 = v * ADOLC_MATH_NSP::pow(a.PRIMAL_VALUE, v - 1);
+  double tmp2 =
+      v == 0.0 ? 0.0 : v * ADOLC_MATH_NSP::pow(a.PRIMAL_VALUE, v - 1);
   FOR_I_EQ_1_LTEQ_NUMDIR
   tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   return tmp;
-- 
2.43.0


From ff7639b283d073d5840a9c1c6bb49b67ef19c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 29/95] fix: traceless operator>> looped forever on a stream
 that stopped being readable

---
 ADOL-C/src/adouble_tl.cpp     | 8 ++++----
 ADOL-C/src/adouble_tl_hov.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/adouble_tl.cpp b/ADOL-C/src/adouble_tl.cpp
index 6820f43..1cfb150 100644
--- a/ADOL-C/src/adouble_tl.cpp
+++ b/ADOL-C/src/adouble_tl.cpp
@@ -55,12 +55,12 @@ istream &operator>>(istream &in, adouble &a) {
   char c;
   do
     in >> c;
-  while (c != ':' && !in.eof());
+  while (c != ':' && in.good());
   in >> a.PRIMAL_VALUE;
   unsigned int num;
   do
     in >> c;
-  while (c != '(' && !in.eof());
+  while (c != '(' && in.good());
   in >> num;
   if (num > adouble::numDir)
     ADOLCError::fail(ADOLCError::ErrorType::TO_MANY_DIRECTIONS,
@@ -68,12 +68,12 @@ istream &operator>>(istream &in, adouble &a) {
 
   do
     in >> c;
-  while (c != ':' && !in.eof());
+  while (c != ':' && in.good());
   FOR_I_EQ_1_LTEQ_NUMDIR
   in >> a.ADVAL_I;
   do
     in >> c;
-  while (c != ')' && !in.eof());
+  while (c != ')' && in.good());
   return in;
 }
 
diff --git a/ADOL-C/src/adouble_tl_hov.cpp b/ADOL-C/src/adouble_tl_hov.cpp
index bd5608a..38bd72c 100644
--- a/ADOL-C/src/adouble_tl_hov.cpp
+++ b/ADOL-C/src/adouble_tl_hov.cpp
@@ -56,24 +56,24 @@ istream &operator>>(istream &in, adouble &a) {
   char c;
   do
     in >> c;
-  while (c != ':' && !in.eof());
+  while (c != ':' && in.good());
   in >> a.val;
   unsigned int num;
   do
     in >> c;
-  while (c != '(' && !in.eof());
+  while (c != '(' && in.good());
   in >> num;
   if (num > adouble::numDir)
     ADOLCError::fail(ADOLCError::ErrorType::TO_MANY_DIRECTIONS,
                      CURRENT_LOCATION);
   do
     in >> c;
-  while (c != ':' && !in.eof());
+  while (c != ':' && in.good());
   FOR_I_EQ_0_LT_NUMDIR
   in >> a.ADVAL_I;
   do
     in >> c;
-  while (c != ')' && !in.eof());
+  while (c != ')' && in.good());
   return in;
 }
 
-- 
2.43.0


From e93ff4136d4821e1340ebd4d216417a08181a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 30/95] fix: adtl_hov adoubles leaked their higher-order
 coefficients

---
 ADOL-C/include/adolc/adtl_hov.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index bb2d6ee..6c22ca3 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -484,8 +484,7 @@ inline adouble::adouble(const adouble &a) : val(a.val), adval(NULL) {
 inline adouble::~adouble() {
   if (adval != NULL)
     delete[] adval;
-//    if(ho_deriv!=NULL)
-//    	delete[][]  ho_deriv;
+  myfree2(ho_deriv);
 #if 0
     if ( !pattern.empty() )
 	pattern.clear();
-- 
2.43.0


From 241796fb07db9c13d9e24b5dee16abb91f23b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 31/95] fix: adtl_hov adding or subtracting a constant aborted

---
 ADOL-C/include/adolc/adtl_hov.h | 46 ++++-----------------------------
 1 file changed, 5 insertions(+), 41 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 6c22ca3..3ee226a 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -514,9 +514,8 @@ inline adouble adouble::operator+() const { return *this; }
 
 // addition
 inline adouble adouble::operator+(const double v) const {
-  adouble tmp(val + v, adval);
-  if (do_indo())
-    tmp.add_to_pattern(get_pattern());
+  adouble tmp(*this);
+  tmp.val += v;
   return tmp;
 }
 
@@ -539,47 +538,12 @@ inline adouble adouble::operator+(const adouble &a) const {
   return tmp;
 }
 
-inline adouble operator+(const double v, const adouble &a) {
-  if (do_hoval()) // ADTL_HOV  //how can this not be declared? it works fine in
-                  // the method above
-  {               // why was "a." necessary here and not after the next line?
-    std::cout << "Not implemented. " << std::endl;
-    throw std::exception();
-    // adouble tmp(v+a.val,a.ho_deriv); //TODO: does not exist yet
-  }
-  if (do_val() && do_indo()) {
-    adouble tmp(v + a.val, a.adval);
-    tmp.add_to_pattern(a.get_pattern());
-    return tmp;
-  }
-
-  adouble tmp;
-  if (do_indo()) {
-    tmp.add_to_pattern(a.get_pattern());
-  }
-  return tmp;
-}
+inline adouble operator+(const double v, const adouble &a) { return a + v; }
 
 // subtraction
 inline adouble adouble::operator-(const double v) const {
-  if (do_hoval()) // ADTL_HOV  //how can this not be declared? it works fine in
-                  // the method above
-  {               // why was "a." necessary here and not after the next line?
-    std::cout << "Not implemented. " << std::endl;
-    throw std::exception();
-    // adouble tmp(val-v, adval,ho_deriv); //TODO: does not exist yet
-  }
-  if (do_val() && do_indo()) {
-    adouble tmp(val - v, adval);
-    tmp.add_to_pattern(get_pattern());
-    return tmp;
-  }
-
-  // adouble tmp(val-v, adval); moved up
-  adouble tmp;
-  if (do_indo()) {
-    tmp.add_to_pattern(get_pattern());
-  }
+  adouble tmp(*this);
+  tmp.val -= v;
   return tmp;
 }
 
-- 
2.43.0


From a0b838b0e527337d0bd40456869bcc0b05330f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 32/95] fix: adtl_hov cos returned -sin and cosh returned
 a*sinh(a)

---
 ADOL-C/include/adolc/adtl_hov.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 3ee226a..0dd5377 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1033,7 +1033,7 @@ inline adouble cos(const adouble &a) {
 
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
-  return tmp2;
+  return tmp;
 }
 
 inline adouble asin(const adouble &a) {
@@ -1366,9 +1366,9 @@ inline adouble cosh(const adouble &a) {
   if (do_val())
     tmp.val = ADOLC_MATH_NSP::cosh(a.val);
   if (likely(adouble::_do_adval() && adouble::_do_val())) {
-    tmp2 = ADOLC_MATH_NSP::sinh(a.val);
+    tmp2.val = ADOLC_MATH_NSP::sinh(a.val);
     FOR_I_EQ_0_LT_NUMDIR
-    tmp = a * tmp2;
+    tmp.ADVAL_I = a.ADVAL_I * tmp2.val;
   }
 
   if (do_hoval()) // ADTL_HOV
-- 
2.43.0


From 5202e257bef401f6cb44dbfe129c86e60fa4810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 33/95] fix: adtl_hov fabs returned uninitialised coefficients
 and wrote past its sign array

---
 ADOL-C/include/adolc/adtl_hov.h | 51 +++++----------------------------
 1 file changed, 7 insertions(+), 44 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 0dd5377..2f53226 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1538,51 +1538,14 @@ inline adouble fabs(const adouble &a) {
   }
   if (do_hoval()) // ADTL_HOV
   {
-    // find leading Taylor coefficient
-
-    // TODO: do not forget to check the function value. it is the zero-th taylor
-    // coefficient
-
-    int *leading_sgn = (int *)alloca(sizeof(int) * adouble::degree);
-    for (size_t l = 0; l < adouble::numDir; l++) // Init
-    {
-      leading_sgn[l] = 1;
-    }
-    bool found;
-
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < adouble::degree; k++) {
-        if (tmp.ho_deriv[k][l] > 0 && (!found)) {
-          leading_sgn[l] = 1;
-          found = true;
-          break;
-          // found leading coefficient for this direction. it is positive.
-          //  no need to do any further for this direction
-        }
-        if (tmp.ho_deriv[k][l] < 0 && (!found)) {
-          // found leading coefficient for this direction. it is negative.
-          found = true;
-          leading_sgn[l] = -1;
-          break;
-        }
-        /*
-        if(tmp.ho_deriv[k][l]=0 && (!found))
-        {
-                //not the leading Taylor coefficient
-                //continue searching
-        }
-        */
-      }
-      found = false;
-    }
-
-    // assume we found all leading Taylor coefficients
-
+    // the sign is that of the leading nonzero Taylor coefficient
     for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < adouble::degree; k++) {
-        tmp.ho_deriv[k][l] *= leading_sgn[l];
-        // TODO do not forget zero-th Taylor coefficient
-      }
+      double leading = a.val;
+      for (size_t k = 0; leading == 0.0 && k < adouble::degree; k++)
+        leading = a.ho_deriv[k][l];
+      const double sgn = leading < 0.0 ? -1.0 : 1.0;
+      for (size_t k = 0; k < adouble::degree; k++)
+        tmp.ho_deriv[k][l] = sgn * a.ho_deriv[k][l];
     }
   }
   if (do_indo())
-- 
2.43.0


From 0e04eab09f3e8b1cc93ea9359569597bf6b3c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:26 +0000
Subject: [PATCH 34/95] fix: adtl_hov pow(a, k) had wrong coefficients at a = 0
 and for k = 0

---
 ADOL-C/include/adolc/adtl_hov.h | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 2f53226..489e3f5 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1166,28 +1166,23 @@ inline adouble pow(const adouble &a, double v) {
   if (do_val())
     tmp.val = ADOLC_MATH_NSP::pow(a.val, v);
   if (likely(adouble::_do_adval() && adouble::_do_val())) {
-    double tmp2 = v * ADOLC_MATH_NSP::pow(a.val, v - 1);
+    double tmp2 = v == 0.0 ? 0.0 : v * ADOLC_MATH_NSP::pow(a.val, v - 1);
     FOR_I_EQ_0_LT_NUMDIR
     tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   }
   if (do_hoval()) // ADTL_HOV
   {
-    if (a.val == 0.0) {
-      // idea: if v==adouble::degree  (as in: the power of a is equal to order
-      // of derivatives to be calculated)
-      //         then the derivative is a factorial of adouble::degree
-      //         tgamma(adouble::degree+1)
-      //  this is different than in GW08. The formula in the table gives a nan
-      //  for input zero.
-      double factorial_val = tgamma(v + 1.0);
-      for (size_t k = 0; k < adouble::degree; k++)
-        for (size_t l = 0; l < adouble::numDir; l++) {
-          tmp.ho_deriv[k][l] =
-              (1.0 / to_double(k + 1)) *
-              factorial_val; // division with k+1 (offset because of zero index
-                             // [0] ) because of distinction between tilde{u_k}
-                             // and u_k
-        }
+    if (a.val == 0.0 && v >= 0.0 && v == ADOLC_MATH_NSP::floor(v)) {
+      // the recurrence divides by a.val; multiply instead (more than degree
+      // factors leave no coefficient up to the degree)
+      adouble prod(1.0);
+      const size_t reps = v > to_double(adouble::degree)
+                              ? adouble::degree + 1
+                              : static_cast<size_t>(v);
+      for (size_t q = 0; q < reps; q++)
+        prod = prod * a;
+      FOR_J_EQ_0_LT_DEGREE_FOR_I_EQ_0_LT_NUMDIR
+      tmp.HO_DER_I_J = prod.HO_DER_I_J;
     } else {
       size_t i;
       double sum1 = 0.0, sum2 = 0.0;
-- 
2.43.0


From 8d78fef0f83215e1c110c6b3f6690b82e1bf6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 35/95] fix: adtl_hov *= and /= used values already overwritten

---
 ADOL-C/include/adolc/adtl_hov.h | 70 +--------------------------------
 1 file changed, 2 insertions(+), 68 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 489e3f5..5b9178c 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2105,41 +2105,7 @@ inline adouble &adouble::operator*=(const double v) {
 }
 
 inline adouble &adouble::operator*=(const adouble &a) {
-  if (unlikely(!adouble::_do_val() && adouble::_do_adval())) {
-    fprintf(DIAG_OUT, "ADOL-C error: Traceless: Incorrect mode, call "
-                      "setMode(enum Mode mode)\n");
-    throw logic_error("incorrect function call, errorcode=1");
-  }
-  if (likely(adouble::_do_adval() && adouble::_do_val()))
-    FOR_I_EQ_0_LT_NUMDIR
-  ADVAL_I = ADVAL_I * a.val + val * a.ADVAL_I;
-  if (do_val())
-    val *= a.val;
-
-  adouble tmp;
-  tmp.val = val * a.val;
-
-  if (do_hoval()) // ADTL_HOV
-  {
-    size_t i;
-    double sum;
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < degree; k++) {
-        sum = val * a.ho_deriv[k][l] + ho_deriv[k][l] * a.val;
-        i = k - 1;
-        for (size_t j = 0; j < k; j++)
-          sum += ho_deriv[j][l] * a.ho_deriv[i - j][l];
-        tmp.ho_deriv[k][l] = sum;
-        sum = 0.0;
-      }
-      val = tmp.val;
-      for (size_t k = 0; k < degree; k++)
-        ho_deriv[k][l] = tmp.ho_deriv[k][l];
-    }
-  }
-
-  if (do_indo())
-    add_to_pattern(a.get_pattern());
+  *this = *this * a;
   return *this;
 }
 
@@ -2160,39 +2126,7 @@ inline adouble &adouble::operator/=(const double v) {
 }
 
 inline adouble &adouble::operator/=(const adouble &a) {
-  if (unlikely(!adouble::_do_val() && adouble::_do_adval())) {
-    fprintf(DIAG_OUT, "ADOL-C error: Traceless: Incorrect mode, call "
-                      "setMode(enum Mode mode)\n");
-    throw logic_error("incorrect function call, errorcode=1");
-  }
-  if (likely(adouble::_do_adval() && adouble::_do_val()))
-    FOR_I_EQ_0_LT_NUMDIR
-  ADVAL_I = (ADVAL_I * a.val - val * a.ADVAL_I) / (a.val * a.val);
-  if (do_val())
-    val = val / a.val;
-
-  if (do_hoval()) // ADTL_HOV
-  {
-    adouble tmp;
-    size_t i;
-    double sum;
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < degree; k++) {
-        sum = tmp.val * a.ho_deriv[k][l];
-        i = k - 1;
-        for (size_t j = 0; j < k; j++)
-          sum += tmp.ho_deriv[j][l] * a.ho_deriv[i - j][l];
-        tmp.ho_deriv[k][l] = (1.0 / a.val) * (ho_deriv[k][l] - sum);
-        sum = 0.0;
-      }
-      val = tmp.val;
-      for (size_t k = 0; k < degree; k++)
-        ho_deriv[k][l] = tmp.ho_deriv[k][l];
-    }
-  }
-
-  if (do_indo())
-    add_to_pattern(a.get_pattern());
+  *this = *this / a;
   return *this;
 }
 
-- 
2.43.0


From 6f7ebd16ed116fdbc7b354861c12771bf779a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 36/95] fix: trace_on with buffer sizes never started a trace

---
 ADOL-C/src/tape_interface.cpp | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index e680731..bdb52ee 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -68,26 +68,23 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
   setCurrentTape(tapeId);
 
   int retval = tape.initNewTape();
-  if (retval) {
 #ifdef ADOLC_MEDIPACK_SUPPORT
-    tape.mediInitTape(tapeId);
+  tape.mediInitTape(tapeId);
 #endif
-    // reset the tape buffers
-    tape.freeTapeResources();
-    tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
-    tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
-    tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
-    tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
-    tape.keepTaylors(keepTaylors);
-    tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
-    tape.skipFileCleanup(skipFileCleanup);
-    if (keepTaylors != 0)
-      tape.deg_save(1);
-    tape.start_trace();
-    tape.take_stock(); /* record all existing adoubles on the tape */
-    return retval;
-  } else
-    return -1;
+  // reset the tape buffers
+  tape.freeTapeResources();
+  tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
+  tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
+  tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
+  tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
+  tape.keepTaylors(keepTaylors);
+  tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
+  tape.skipFileCleanup(skipFileCleanup);
+  if (keepTaylors != 0)
+    tape.deg_save(1);
+  tape.start_trace();
+  tape.take_stock(); /* record all existing adoubles on the tape */
+  return retval;
 }
 
 void trace_off(int flag) {
-- 
2.43.0


From 43100bb04927a1ec2f837bc43c93e06fc7fd41e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 37/95] fix: a leftover tape file was closed twice when a trace
 spilled

---
 ADOL-C/include/adolc/valuetape/infotype.h  | 9 +++++++++
 ADOL-C/include/adolc/valuetape/tapeinfos.h | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/infotype.h b/ADOL-C/include/adolc/valuetape/infotype.h
index fb632dc..21e9af3 100644
--- a/ADOL-C/include/adolc/valuetape/infotype.h
+++ b/ADOL-C/include/adolc/valuetape/infotype.h
@@ -158,6 +158,9 @@ template <class TInfos, class EType> struct OpInfo {
                        const char *mode = "rb") {
     tapeInfos.opBuffer_.openFile(fileName, mode);
   }
+  static void closeFile(TInfos &tapeInfos) {
+    tapeInfos.opBuffer_.closeFile();
+  }
   static int removeFile(const char *fileName) { return remove(fileName); }
 };
 
@@ -198,6 +201,9 @@ template <class TInfos, class EType> struct LocInfo {
                        const char *mode = "rb") {
     tapeInfos.locBuffer_.openFile(fileName, mode);
   }
+  static void closeFile(TInfos &tapeInfos) {
+    tapeInfos.locBuffer_.closeFile();
+  }
   static int removeFile(const char *fileName) { return remove(fileName); }
 };
 
@@ -239,6 +245,9 @@ template <class TInfos, class EType> struct ValInfo {
                        const char *mode = "rb") {
     tapeInfos.valBuffer_.openFile(fileName, mode);
   }
+  static void closeFile(TInfos &tapeInfos) {
+    tapeInfos.valBuffer_.closeFile();
+  }
   static int removeFile(const char *fileName) { return remove(fileName); }
 };
 
diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 64ce268..89461ed 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -196,7 +196,7 @@ struct TapeInfos {
       if constexpr (!std::is_same_v<Info, TayInfo<TapeInfos, ErrorType>>) {
         Info::openFile(*this, fileName);
         if (Info::file(*this) != nullptr) {
-          fclose(Info::file(*this));
+          Info::closeFile(*this);
           if (Info::removeFile(fileName)) {
             fail(CANNOT_REMOVE_FILE, CURRENT_LOCATION);
           }
-- 
2.43.0


From 85ad1444eaa0f3dece539a16a9346c395cf851ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 38/95] fix: get_taylors misplaced coefficients that straddle
 two blocks

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 7324e78..5e9afee 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -144,7 +144,7 @@ void TapeInfos::get_taylors(double *taylorCoefficients, std::ptrdiff_t degree) {
   while (tayBuffer_.position() < static_cast<size_t>(degree)) {
     std::span<double> taySpan(tayBuffer_.begin(), tayBuffer_.current());
     for (auto tay = taySpan.rbegin(); tay != taySpan.rend(); tay++) {
-      *(T--) = *tay;
+      *(--T) = *tay;
     }
     degree -= tayBuffer_.position();
     get_tay_block_r();
-- 
2.43.0


From eeff824140b3a4f3dcd9773cf8ca53f3835d2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 39/95] fix: writing more Taylor coefficients than the buffer
 holds overran it

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 5e9afee..3b66fa1 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -83,7 +83,7 @@ void TapeInfos::freeTapeResources() {
 /****************************************************************************/
 void TapeInfos::write_taylor(double *taylorCoefficientPos, std::ptrdiff_t keep,
                              const char *tay_fileName) {
-  while (tayBuffer_.position() > tayBuffer_.capacity() - keep) {
+  while (static_cast<size_t>(keep) > tayBuffer_.remainingCapacity()) {
     for (auto i = tayBuffer_.position(); i < tayBuffer_.capacity(); ++i) {
       tayBuffer_[i] = *taylorCoefficientPos;
       ++taylorCoefficientPos;
@@ -120,7 +120,7 @@ void TapeInfos::write_taylors(double *taylorCoefficientPos, int keep,
 void TapeInfos::write_scaylors(const double *taylorCoefficientPos,
                                std::ptrdiff_t size, const char *tay_fileName) {
   size_t pos = 0;
-  while (tayBuffer_.position() > tayBuffer_.capacity() - size) {
+  while (static_cast<size_t>(size) > tayBuffer_.remainingCapacity()) {
     std::span<double> taySpan(tayBuffer_.current(),
                               tayBuffer_.begin() + tayBuffer_.capacity());
     for (double &tay : taySpan) {
-- 
2.43.0


From b4f3b198c9c2a48a9b3c78aa92b93dd23e313e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 40/95] fix: re-recording a tape kept buffers of the previous
 sizes

---
 ADOL-C/src/valuetape/valuetape.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index f433944..1029d73 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -84,7 +84,17 @@ int ValueTape::initNewTape() {
   tapestats(TapeInfos::LOC_BUFFER_SIZE, locationBufferSize());
   tapestats(TapeInfos::VAL_BUFFER_SIZE, valueBufferSize());
   tapestats(TapeInfos::TAY_BUFFER_SIZE, taylorBufferSize());
-  ;
+  // buffers of a previous recording with other sizes cannot be reused
+  if (tapeInfos_.opBuffer_.capacity() != operationBufferSize())
+    tapeInfos_.opBuffer_.resetBuffer(nullptr, 0);
+  if (tapeInfos_.locBuffer_.capacity() != locationBufferSize())
+    tapeInfos_.locBuffer_.resetBuffer(nullptr, 0);
+  if (tapeInfos_.valBuffer_.capacity() != valueBufferSize())
+    tapeInfos_.valBuffer_.resetBuffer(nullptr, 0);
+  if (tapeInfos_.tayBuffer_.capacity() != taylorBufferSize()) {
+    finish_tay_file();
+    tapeInfos_.tayBuffer_.resetBuffer(nullptr, 0);
+  }
   return 0;
 }
 
-- 
2.43.0


From fdaa049eed7024255a9dad5910a6f4ac1edbe056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 41/95] fix: a tape re-recorded in memory was still read from
 its old files

---
 ADOL-C/src/valuetape/valuetape.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 1029d73..bc50fec 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -84,6 +84,10 @@ int ValueTape::initNewTape() {
   tapestats(TapeInfos::LOC_BUFFER_SIZE, locationBufferSize());
   tapestats(TapeInfos::VAL_BUFFER_SIZE, valueBufferSize());
   tapestats(TapeInfos::TAY_BUFFER_SIZE, taylorBufferSize());
+  // the new recording is in memory until a buffer spills
+  tapestats(TapeInfos::OP_FILE_ACCESS, 0);
+  tapestats(TapeInfos::LOC_FILE_ACCESS, 0);
+  tapestats(TapeInfos::VAL_FILE_ACCESS, 0);
   // buffers of a previous recording with other sizes cannot be reused
   if (tapeInfos_.opBuffer_.capacity() != operationBufferSize())
     tapeInfos_.opBuffer_.resetBuffer(nullptr, 0);
-- 
2.43.0


From bf9f5831f59dc4143271c6d1df192dd11ee7349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 42/95] fix: int_forward_tight read the constant of a
 conditional twice

---
 ADOL-C/src/uni5_for.cpp | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index bcbe191..9d8b975 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4157,8 +4157,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4264,8 +4262,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4338,8 +4334,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
 #endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
@@ -4399,8 +4393,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
 #endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
@@ -5217,8 +5209,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] > 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5316,8 +5306,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] >= 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5390,8 +5378,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
@@ -5450,8 +5436,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
-- 
2.43.0


From ff16f8b9e1a5e04fdb98aa078aac45bc3c88fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 43/95] fix: reverse sweep of an on-disk trace without
 constants

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 3d70d30..655850c 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -738,7 +738,8 @@ public:
    */
   template <InfoType<TapeInfos, ErrorType> Info> void prepare_rev() {
     size_t lengthLB = tapestats(Info::num);
-    if (tapestats(Info::fileAccess) == 1) {
+    // nothing recorded, nothing on disk
+    if (tapestats(Info::fileAccess) == 1 && tapestats(Info::num) != 0) {
       setFilePosition<Info>();
 
       // size of last (possibly partial) block
-- 
2.43.0


From f0353b591ec40cdcbb07db12ec892bdb3d1c1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:12 +0000
Subject: [PATCH 44/95] fix: reverse sweep compared the wrong variable at floor

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index a5c2d2a..6b8c697 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1739,7 +1739,7 @@ int int_reverse_safe(
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
 #if !defined(_NTIGHT_)
-      coval = (coval != floor(TARG1));
+      coval = (coval != floor(TARG));
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
-- 
2.43.0


From 9aaf1f3a5643f7bbd9c851ff028c5e9f0bb8b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 45/95] fix: tight bit-pattern reverse skipped Taylor entries
 of divisions and powers

---
 ADOL-C/src/fo_rev.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 6b8c697..7063925 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1119,11 +1119,15 @@ int int_reverse_safe(
       ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
 
       /* olvo 980922 changed order to allow x=y/x */
-#if !defined(_NTIGHT_) && !defined(_INT_REV_)
+#if !defined(_NTIGHT_)
+#if !defined(_INT_REV_)
       double r_0 = -TRES;
+#endif /* !_INT_REV_ */
       rp_T[res] = tape.get_taylor();
+#if !defined(_INT_REV_)
       double r0 = 1.0 / TARG2;
       r_0 *= r0;
+#endif /* !_INT_REV_ */
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
@@ -1154,12 +1158,16 @@ int int_reverse_safe(
       ASSIGN_A(Ares, ADJOINT_BUFFER[res])
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
-#if !defined(_NTIGHT_) && !defined(_INT_REV_)
+#if !defined(_NTIGHT_)
       /* olvo 980922 changed order to allow x=d/x */
+#if !defined(_INT_REV_)
       double r0 = -TRES;
+#endif /* !_INT_REV_ */
       if (arg == res)
         rp_T[arg] = tape.get_taylor();
+#if !defined(_INT_REV_)
       r0 /= TARG;
+#endif /* !_INT_REV_ */
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
@@ -1394,16 +1402,20 @@ int int_reverse_safe(
       ASSIGN_A(Ares, ADJOINT_BUFFER[res])
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
-#if !defined(_NTIGHT_) && !defined(_INT_REV_)
+#if !defined(_NTIGHT_)
       /* olvo 980921 changed order to allow x=pow(x,n) */
+#if !defined(_INT_REV_)
       double r0 = TRES; // r0 = pow(x, n)
+#endif /* !_INT_REV_ */
       if (arg == res)
         rp_T[arg] = tape.get_taylor();
+#if !defined(_INT_REV_)
       if (TARG == 0.0)
         r0 = coval == 1.0 ? 1.0 : 0.0;
       else
         r0 *= coval / TARG; // r0 = r0 * n / x
-#endif                      /* !_NTIGHT_ */
+#endif /* !_INT_REV_ */
+#endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-- 
2.43.0


From f43d9eb9f6f43a6ee401b448045b2702a7c36021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 46/95] fix: index-domain sweeps lost all but the first initial
 stock value

---
 ADOL-C/src/uni5_for.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 9d8b975..29d865f 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5486,12 +5486,21 @@ int hov_forward(
         FOR_0_LE_l_LT_pk TRES_INC = 0;
 
 #endif /* ALL_TOGETHER_AGAIN */
+#endif
+#if defined(_NONLIND_)
+        arg_index[res] = opind;
+#endif
         res++;
 #if !defined(_NTIGHT_)
         d++;
 #endif /* !_NTIGHT_ */
-#endif
       }
+#if defined(_NONLIND_)
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = nullptr;
+      fod[opind].right = nullptr;
+      opind++;
+#endif
       break;
 
       /*--------------------------------------------------------------------------*/
-- 
2.43.0


From 490c13f015c3b9cad031ef4cf2f17ed091a796d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:41 +0000
Subject: [PATCH 47/95] fix: nonlinearity sweeps left the nodes of conditional
 assignments and minima uninitialised

---
 ADOL-C/src/uni5_for.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 29d865f..fc73585 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3795,7 +3795,6 @@ int hov_forward(
       fod[opind].left = &fod[arg_index[arg1]];
       fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
-      arg_index[res] = opind++;
 #endif
 #endif
 #else
@@ -4145,6 +4144,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4250,6 +4252,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4324,7 +4329,15 @@ int hov_forward(
 #endif
 #endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+#ifdef _TIGHT_
+      if (dp_T0[arg] > 0)
+        arg_index[res] = arg_index[arg1];
+#else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
+#endif
 #endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4383,7 +4396,15 @@ int hov_forward(
 #endif
 #endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+#ifdef _TIGHT_
+      if (dp_T0[arg] >= 0)
+        arg_index[res] = arg_index[arg1];
+#else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
+#endif
 #endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
-- 
2.43.0


From 704265c8ce203aa3f34a638fcbca1b27ab58010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 48/95] fix: nonlinearity sweeps visited shared subexpressions
 exponentially often

---
 ADOL-C/src/uni5_for.cpp | 74 +++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index fc73585..d599300 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -40,6 +40,8 @@ and _NTIGHT__
 #include <adolc/valuetape/valuetape.h>
 #include <math.h>
 #include <string.h>
+#include <unordered_set>
+#include <vector>
 
 #if defined(ADOLC_DEBUG) || defined(_ZOS_)
 #include <string.h>
@@ -6069,28 +6071,22 @@ void merge_3_index_domains(size_t res, size_t arg1, size_t arg2,
 #if defined(_TIGHT_)
 
 void free_tree(IndexElement *tree, size_t num) {
-
-  if (tree->left != nullptr) {
-    free_tree(tree->left, num);
-  }
-  if (tree->right != nullptr) {
-    free_tree(tree->right, num);
-  }
-  {
-    if (tree->entry == num)
-      delete tree;
+  // the list entries are chained via left, everything reachable via right
+  // belongs to fod
+  IndexElement *entry = tree->left;
+  while (entry != nullptr) {
+    IndexElement *next = entry->left;
+    if (entry->entry == num)
+      delete entry;
+    entry = next;
   }
 }
-void traverse_crs(IndexElement *tree, IndexElement_sod *sod, size_t num) {
 
+// inserts the entry of a single node into the sorted list
+static void insert_crs(const IndexElement *tree, IndexElement_sod *sod,
+                       size_t num) {
   IndexElement_sod *temp, *temp1;
 
-  if (tree->left != nullptr) {
-    traverse_crs(tree->left, sod, num);
-  }
-  if (tree->right != nullptr) {
-    traverse_crs(tree->right, sod, num);
-  }
   if (tree->entry < num) {
     temp = sod->left;
     if (temp == nullptr) {
@@ -6133,22 +6129,42 @@ void traverse_crs(IndexElement *tree, IndexElement_sod *sod, size_t num) {
   }
 }
 
+// The nodes form a directed acyclic graph, in which the number of paths can be
+// exponential in the number of nodes. Hence, every node is visited only once.
+void traverse_crs(IndexElement *tree, IndexElement_sod *sod, size_t num) {
+  std::vector<const IndexElement *> stack{tree};
+  std::unordered_set<const IndexElement *> visited{tree};
+
+  while (!stack.empty()) {
+    const IndexElement *node = stack.back();
+    stack.pop_back();
+    for (const IndexElement *next : {node->left, node->right}) {
+      if (next != nullptr && visited.insert(next).second)
+        stack.push_back(next);
+    }
+    insert_crs(node, sod, num);
+  }
+}
+
 void traverse_unary(IndexElement *tree, IndexElement *nonl_dom,
                     IndexElement *fodi, size_t num, size_t maxopind) {
-  IndexElement *temp;
-
-  if (tree->left != nullptr) {
-    traverse_unary(tree->left, nonl_dom, fodi, num, maxopind);
-    if (tree->right != nullptr) {
-      traverse_unary(tree->right, nonl_dom, fodi, num, maxopind);
-    }
-  } else {
-    if (tree->entry < maxopind) {
-      temp = new IndexElement;
+  std::vector<const IndexElement *> stack{tree};
+  std::unordered_set<const IndexElement *> visited{tree};
+
+  while (!stack.empty()) {
+    const IndexElement *node = stack.back();
+    stack.pop_back();
+    if (node->left != nullptr) {
+      for (const IndexElement *next : {node->left, node->right}) {
+        if (next != nullptr && visited.insert(next).second)
+          stack.push_back(next);
+      }
+    } else if (node->entry < maxopind) {
+      IndexElement *temp = new IndexElement;
       temp->right = fodi;
-      temp->left = nonl_dom[tree->entry].left;
+      temp->left = nonl_dom[node->entry].left;
       temp->entry = num;
-      nonl_dom[tree->entry].left = temp;
+      nonl_dom[node->entry].left = temp;
     }
   }
 }
-- 
2.43.0


From feced2554e910832be7b78ae36ba99b0ddc59426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 49/95] fix: saving more parameters than the value buffer holds
 overran it

---
 ADOL-C/src/valuetape/valuetape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index bc50fec..451b17b 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -351,8 +351,8 @@ void ValueTape::save_params() {
            tapestats(TapeInfos::NUM_PARAM) * sizeof(double));
 
   free_all_taping_params();
-  if (tapeInfos_.valBuffer_.position() <
-      tapeInfos_.valBuffer_.capacity() - tapestats(TapeInfos::NUM_PARAM))
+  if (tapestats(TapeInfos::NUM_PARAM) <
+      tapeInfos_.valBuffer_.remainingCapacity())
     put_vals_notWriteBlock(paramstore(), tapestats(TapeInfos::NUM_PARAM));
   else {
     size_t np = tapestats(TapeInfos::NUM_PARAM);
-- 
2.43.0


From 4d4a2e1b0f70ca40c39973d9299e594ec26c8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 50/95] fix: reverse sweep skipped on-disk parameters with a
 bogus block size

---
 ADOL-C/src/valuetape/valuetape.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 451b17b..7dca922 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -652,30 +652,30 @@ void ValueTape::discard_params_r(void) {
     ip -= rsize;
     tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.position() - rsize);
     if (ip > 0) {
+      const size_t number = tapestats(TapeInfos::VAL_BUFFER_SIZE);
+      const size_t chunks = number / chunkSize;
       fseek(tapeInfos_.valBuffer_.file(),
             static_cast<long>(sizeof(double) *
-                              (tapeInfos_.valBuffer_.numOnTape() -
-                               TapeInfos::VAL_BUFFER_SIZE)),
+                              (tapeInfos_.valBuffer_.numOnTape() - number)),
             SEEK_SET);
 
-      for (size_t i = 0; i < to_size_t(TapeInfos::VAL_BUFFER_SIZE / chunkSize);
-           ++i)
+      for (size_t i = 0; i < chunks; ++i)
         if (fread(tapeInfos_.valBuffer_.begin() + i * chunkSize,
                   chunkSize * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
-      remain = TapeInfos::VAL_BUFFER_SIZE % chunkSize;
+      remain = number % chunkSize;
       if (remain != 0)
-        if (fread(tapeInfos_.valBuffer_.begin() + TapeInfos::VAL_BUFFER_SIZE,
+        if (fread(tapeInfos_.valBuffer_.begin() + chunks * chunkSize,
                   remain * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
       tapeInfos_.valBuffer_.numOnTape(tapeInfos_.valBuffer_.numOnTape() -
-                                      TapeInfos::VAL_BUFFER_SIZE);
+                                      number);
       tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.capacity());
     }
   }
-- 
2.43.0


From f4da1978170e7a12f15993d17576780e05b430c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 51/95] fix: new parameters of an on-disk tape were replaced by
 the recorded ones

---
 ADOL-C/src/valuetape/valuetape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 7dca922..95e15db 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -624,7 +624,8 @@ void ValueTape::read_tape_stats() {
 
   compare_adolc_ids(get_adolc_id(), tape_ADOLC_ID);
   fclose(loc_file);
-  if (tapestats(TapeInfos::NUM_PARAM) > 0)
+  // do not discard parameters overridden by set_param_vec
+  if (tapestats(TapeInfos::NUM_PARAM) > 0 && !paramstore())
     read_params();
 }
 
-- 
2.43.0


From 987092896dd705905f0fc030cd13cd0d493f1c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 52/95] fix: rejected set_param_vec left the tape in writing
 mode

---
 ADOL-C/src/valuetape/valuetape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 95e15db..9954d58 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -550,12 +550,12 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
   /* make room for tapeInfos and read tapestats if necessary, keep value
    * stack information */
   openTape();
-  workMode(TapeInfos::WRITE_ACCESS);
   if (tapestats(TapeInfos::NUM_PARAM) != numparam)
     fail(PARAM_COUNTS_MISMATCH, CURRENT_LOCATION,
          FailInfo{.info1 = tag,
                   .info5 = numparam,
                   .info6 = tapeInfos_.stats[TapeInfos::NUM_PARAM]});
+  workMode(TapeInfos::WRITE_ACCESS);
 
   if (!paramstore())
     paramstore(new double[tapestats(TapeInfos::NUM_PARAM)]);
-- 
2.43.0


From 1ed1363d31c854826a1404d85871dce9e930ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 53/95] fix: tight bit-pattern forward overran the pattern rows
 at condassign on references

---
 ADOL-C/src/uni5_for.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index d599300..ca9054f 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5248,7 +5248,6 @@ int hov_forward(
             MINDEC(ret_c, 0);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] > 0)
@@ -5343,7 +5342,6 @@ int hov_forward(
             MINDEC(ret_c, 2);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] >= 0)
-- 
2.43.0


From 55791c9eb13179d3f21529d9ed8fd1658cedd020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 54/95] fix: index-domain sweeps did not evaluate one-sided
 conditional assignments

---
 ADOL-C/src/uni5_for.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index ca9054f..07604de 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4341,6 +4341,14 @@ int hov_forward(
       arg_index[res] = opind++;
 #endif
 #endif
+#ifdef _TIGHT_
+      if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
+#endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -4408,6 +4416,13 @@ int hov_forward(
       arg_index[res] = opind++;
 #endif
 #endif
+#ifdef _TIGHT_
+      if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+      }
+#endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5385,13 +5400,17 @@ int hov_forward(
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
       if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
 #if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
 #endif
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      }
+      } else if (dp_T0[arg] == 0)
+        MINDEC(ret_c, 0);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5443,6 +5462,9 @@ int hov_forward(
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
       if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
 #if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
 #endif
-- 
2.43.0


From 8bbb64f4afd6aad98fa6d44148ab0f7deb5acc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 55/95] fix: safe bit patterns forgot the old value of
 one-sided conditional assignments

---
 ADOL-C/src/uni5_for.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 07604de..017acfb 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4358,8 +4358,10 @@ int hov_forward(
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
       if (dp_T0[arg] > 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
+#else
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _TIGHT_ */
 
 #ifdef _TIGHT_
       if (dp_T0[arg] > 0) {
@@ -4432,8 +4434,10 @@ int hov_forward(
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
       if (dp_T0[arg] >= 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
+#else
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _TIGHT_ */
 
 #ifdef _TIGHT_
       if (dp_T0[arg] >= 0) {
-- 
2.43.0


From f697c7c37246d8542c610599c00348b9a625e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:25 +0000
Subject: [PATCH 56/95] fix: bit-pattern forward lost dependencies at minima

---
 ADOL-C/src/uni5_for.cpp | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 017acfb..b05685b 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -911,8 +911,6 @@ int hov_forward(
   size_t *Targ2 = nullptr;
 #ifdef _TIGHT_
   size_t *Tqo = nullptr;
-  size_t *Targ1OP = nullptr;
-  size_t *Targ2OP = nullptr;
 #endif
 
 #define T0res T0temp
@@ -3814,31 +3812,17 @@ int hov_forward(
         Tqo = Targ1;
 
       FOR_0_LE_l_LT_p {
-        Targ = Tqo;
-        if (Targ == nullptr) /* e.g. T0[arg1] == T0[arg2] */
-        {
-          Targ1OP = Targ1;
-          Targ2OP = Targ2;
-          if (TARG1 > TARG2)
-            Targ = Targ2OP;
-          else if (TARG1 < TARG2)
-            Targ = Targ1OP;
-          Targ1++;
-          Targ2++;
-          if (Targ == nullptr) /* e.g. both are equal */
-            Targ = Targ1OP;
-        }
-
-        TRES_INC = TARG_INC;
-
-        if (Tqo)
-          Tqo++;
+        /* both arguments contribute in case of T0[arg1] == T0[arg2] */
+        if (Tqo == nullptr)
+          TRES_INC = TARG1_INC | TARG2_INC;
+        else
+          TRES_INC = *Tqo++;
       }
 
       dp_T0[res] = MIN_ADOLC(dp_T0[arg1], dp_T0[arg2]);
 #endif /* _TIGHT_ */
 #ifdef _NTIGHT_
-      TRES_INC = TARG1_INC | TARG2_INC;
+      FOR_0_LE_l_LT_p TRES_INC = TARG1_INC | TARG2_INC;
 #endif /* _NTIGHT_ */
 #else
       Tqo = nullptr;
-- 
2.43.0


From 92fed6b78ae3053f07a1eaaae77603a2e1c663b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 57/95] fix: reverse sweep with an exactly filled Taylor buffer

---
 ADOL-C/src/valuetape/valuetape.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 9954d58..f3105e6 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -256,7 +256,11 @@ void ValueTape::taylor_back() {
                    tapestats(TapeInfos::TAY_BUFFER_SIZE));
   const size_t number =
       tapeInfos_.tayBuffer_.numOnTape() % tapestats(TapeInfos::TAY_BUFFER_SIZE);
-  tapeInfos_.tayBuffer_.position(number);
+  if (tapeInfos_.tayBuffer_.file() == nullptr)
+    // everything is in core, even if the buffer is completely filled
+    tapeInfos_.tayBuffer_.position(tapeInfos_.tayBuffer_.numOnTape());
+  else
+    tapeInfos_.tayBuffer_.position(number);
 
   if (lastTayBlockInCore() != 1) {
     if (tapeInfos_.tayBuffer_.file() == nullptr)
-- 
2.43.0


From a6206cf96a96e453fc1f81373d8fbabb2d80198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:09 +0000
Subject: [PATCH 58/95] fix: index domain arrays freed with delete and a stale
 pointer kept after growing

---
 ADOL-C/src/uni5_for.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index b05685b..b68e349 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5992,7 +5992,7 @@ short ext_firstsign2(double sigbase, int p, double *u, double *du) {
 #if defined(_TIGHT_)
 void copy_index_domain(size_t res, size_t arg, uint **ind_dom) {
   if (ind_dom[arg][0] > ind_dom[res][1]) {
-    delete ind_dom[res];
+    delete[] ind_dom[res];
     ind_dom[res] = new uint[2 * (ind_dom[arg][0] + 1)];
     ind_dom[res][1] = 2 * ind_dom[arg][0];
   }
@@ -6203,9 +6203,10 @@ void extend_nonlinearity_domain_binary_step(size_t arg1, size_t arg2,
     if (index_nonl_dom[0] == 0) /* empty list */
     {
       if (index_nonl_dom[1] < num) {
-        delete index_nonl_dom;
+        delete[] index_nonl_dom;
         index_nonl_dom = new uint[2 * (num + 1)];
         index_nonl_dom[1] = 2 * num;
+        nonl_dom[index] = index_nonl_dom;
       }
       for (i = 2; i < num + 2; i++) /* append index domain list of "arg" */
         index_nonl_dom[i] = ind_dom[arg2][i];
-- 
2.43.0


From 541c0f86840a90e9e4c0607d73b8e675082e64db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 59/95] fix: index domains lost when the result is also the
 last argument

---
 ADOL-C/src/uni5_for.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index b68e349..d8b1d27 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5124,8 +5124,12 @@ int hov_forward(
         IF_KEEP_WRITE_TAYLOR(res + qq, keep, k, p);
 #if defined(_INDO_)
 #if defined(_INDOPRO_)
-        combine_2_index_domains(res + qq, arg, arg1 + qq, ind_dom);
-        merge_2_index_domains(res + qq, arg2 + qq, ind_dom);
+        if (res == arg2) // y = a * x + y
+          merge_3_index_domains(res + qq, arg, arg1 + qq, ind_dom);
+        else {
+          combine_2_index_domains(res + qq, arg, arg1 + qq, ind_dom);
+          merge_2_index_domains(res + qq, arg2 + qq, ind_dom);
+        }
 #endif
 #if defined(_NONLIND_)
         // operation: v = u*w + y
@@ -6060,6 +6064,11 @@ void merge_2_index_domains(size_t res, size_t arg, uint **ind_dom) {
 void combine_2_index_domains(size_t res, size_t arg1, size_t arg2,
                              uint **ind_dom) {
 
+  if (res == arg2) {
+    // the result replaces the second argument, e.g. c = max(a, c)
+    merge_2_index_domains(res, arg1, ind_dom);
+    return;
+  }
   if (res != arg1)
     copy_index_domain(res, arg1, ind_dom);
 
-- 
2.43.0


From a7ef9256b9262af0b573324067804679f2336b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 60/95] fix: safe int_reverse mixed up the words of one-sided
 conditional assignments

---
 ADOL-C/src/fo_rev.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 7063925..16e703e 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1937,8 +1937,8 @@ int int_reverse_safe(
 #else
       if (res != arg1)
         FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
+          // the condition may be false: res can keep its old value
+          AARG1_INC |= ARES_INC;
         }
 #endif /* !_NTIGHT_ */
       break;
@@ -1978,8 +1978,8 @@ int int_reverse_safe(
 #else
       if (res != arg1)
         FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
+          // the condition may be false: res can keep its old value
+          AARG1_INC |= ARES_INC;
         }
 #endif /* !_NTIGHT_ */
       break;
-- 
2.43.0


From f23b9280d62fbf086cf9b5fd98b973f5ca559ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 61/95] fix: bit pattern rows without an entry in the first
 strip stayed null

---
 ADOL-C/src/sparse/sparsedrivers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/sparse/sparsedrivers.cpp b/ADOL-C/src/sparse/sparsedrivers.cpp
index 20d775f..bb95aa6 100644
--- a/ADOL-C/src/sparse/sparsedrivers.cpp
+++ b/ADOL-C/src/sparse/sparsedrivers.cpp
@@ -44,7 +44,8 @@ void extract(size_t wordIdx, size_t stripIdx, size_t currentStripWordIdx,
   size_t numNonzeros = std::accumulate(data.indepWordHasNonzero_.begin(),
                                        data.indepWordHasNonzero_.end(), 0UL);
 
-  if (numNonzeros > 0) {
+  // the first strip creates the row, even if it stays empty
+  if (numNonzeros > 0 || stripIdx == 0) {
     uint *row = nullptr;
     if (stripIdx == 0) {
       row = new uint[numNonzeros + 1];
-- 
2.43.0


From 7c259f9d8ae770c77dc4ea15aab6cb1edee60594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 62/95] fix: generate_seed_jac called an empty template instead
 of ColPack

---
 ADOL-C/include/adolc/valuetape/sparseinfos.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/sparseinfos.h b/ADOL-C/include/adolc/valuetape/sparseinfos.h
index c0b6899..28a858b 100644
--- a/ADOL-C/include/adolc/valuetape/sparseinfos.h
+++ b/ADOL-C/include/adolc/valuetape/sparseinfos.h
@@ -10,7 +10,16 @@
 
 namespace ADOLC::Sparse {
 template <CompressionMode CM>
-void generateSeedJac(int, int, const std::span<uint *>, double ***, int *) {};
+void generateSeedJac(int, int, const std::span<uint *>, double ***, int *);
+// specialized in sparseinfos.cpp
+template <>
+ADOLC_API void
+generateSeedJac<CompressionMode::Column>(int, int, const std::span<uint *>,
+                                         double ***, int *);
+template <>
+ADOLC_API void
+generateSeedJac<CompressionMode::Row>(int, int, const std::span<uint *>,
+                                      double ***, int *);
 /**
  * @brief Cached sparse Jacobian recovery data stored on a tape.
  *
-- 
2.43.0


From 025851286cafa3a86e8adaccd9143f9dbd886c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 63/95] fix: sparse_hess released malloc'ed arrays with
 delete[]

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index aebf718..04b018d 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -25,6 +25,7 @@ package.
 #include <adolc/valuetape/valuetape.h>
 #include <cmath>
 #include <cstddef>
+#include <cstdlib>
 #include <span>
 #include <utility>
 #include <vector>
@@ -1358,17 +1359,17 @@ int computeSparseHess(short tag, int indep, const double *basepoint, int *nnz,
       tape.sHInfos().directRecoverUserMem(rind, cind, values);
   } else {
     // at least one of rind cind values is not allocated, deallocate others
-    // and call unmanaged versions
+    // and call unmanaged versions (which return malloc'ed memory)
     if (*values != nullptr) {
-      delete[] *values;
+      free(*values);
       *values = nullptr;
     }
     if (*rind != nullptr) {
-      delete[] *rind;
+      free(*rind);
       *rind = nullptr;
     }
     if (*cind != nullptr) {
-      delete[] *cind;
+      free(*cind);
       *cind = nullptr;
     }
     if constexpr (RCM == RecoveryMethod::Indirect)
-- 
2.43.0


From cdc4f820a4e865d7069822e2ea769d5f9f835c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 64/95] fix: pl_sig_forward never advanced the switch index
 (misspelt guard)

---
 ADOL-C/src/uni5_for.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index d8b1d27..94968fe 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3990,7 +3990,7 @@ int hov_forward(
 #if !defined(_NTIGHT_)
       dp_T0[res] = fabs(dp_T0[arg]);
 #endif /* !_NTIGHT_ */
-#if defined(_ABS_NORM_) || defined(_ABS_NORN_SIG_)
+#if defined(_ABS_NORM_) || defined(_ABS_NORM_SIG_)
       ++switchnum;
 #endif
       break;
-- 
2.43.0


From 3dab73f71a73a5047e2a50ec1b80bd3ad8292405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 65/95] fix: fos_pl_sig_reverse zeroed the adjoint of abs
 before using it

---
 ADOL-C/src/fo_rev.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 16e703e..503dc2a 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1647,8 +1647,11 @@ int int_reverse_safe(
       switchnum--;
 
 #elif defined(_ABS_NORM_SIG_)
-      ARES_INC = 0.0;
-      AARG_INC += siggrad[switchnum] * (*Ares);
+      {
+        const revreal aTmp = *Ares;
+        *Ares = 0.0;
+        *Aarg += siggrad[switchnum] * aTmp;
+      }
       switchnum--;
 #else
 #if !defined(_NTIGHT_)
-- 
2.43.0


From 77baba92286229f812d1025805aa775dcc62c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:58 +0000
Subject: [PATCH 66/95] fix: directional_active_gradient took the signature of
 a finite step and could run over E

---
 ADOL-C/src/drivers/psdrivers.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/psdrivers.cpp b/ADOL-C/src/drivers/psdrivers.cpp
index 454f550..0d60d96 100644
--- a/ADOL-C/src/drivers/psdrivers.cpp
+++ b/ADOL-C/src/drivers/psdrivers.cpp
@@ -108,6 +108,7 @@ int directional_active_gradient(short tag,       /* trace identifier */
   const size_t s = get_num_switches(tag);
 
   z = myalloc1(s);
+  std::vector<short> sigbase(s);
 
   grad = (double **)myalloc2(1, n);
   gradu = (double **)myalloc2(s, n);
@@ -127,8 +128,15 @@ int directional_active_gradient(short tag,       /* trace identifier */
   bool done = 0;
   int j = 0;
 
+  // The signature is that of the infinitesimal step along the columns of E. So
+  // it starts from the signs of the switching variables at x.
+  zos_pl_forward(tag, 1, n, 0, x, &y, z);
+  for (size_t i = 0; i < s; i++)
+    sigbase[i] = static_cast<short>((z[i] > 0.0) - (z[i] < 0.0));
+
   while ((k < 6) && (done == 0)) {
-    fov_pl_forward(tag, 1, n, k, x, E, &y, grad, z, gradu, sigma_g);
+    fov_pl_sig_forward(tag, 1, n, k, x, E, static_cast<int>(s), sigbase.data(),
+                       nullptr, &y, grad, z, gradu, sigma_g);
 
     size_t sum = 0;
     for (size_t i = 0; i < s; i++) {
@@ -144,6 +152,9 @@ int directional_active_gradient(short tag,       /* trace identifier */
     } else {
       if (j == max_dk)
         j++;
+      // no coordinate direction left to extend E with
+      if (j >= n || k >= n)
+        break;
       E[j][k] = 1;
       j++;
       k++;
-- 
2.43.0


From 16642a5f46581bc14463a8a62df13a8fd2f0a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:01 +0000
Subject: [PATCH 67/95] fix: reverse sweeps reported unchanged conditional
 assignments as changed and missed changed ones

---
 ADOL-C/src/fo_rev.cpp | 16 ++++++++--------
 ADOL-C/src/ho_rev.cpp | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 503dc2a..a953ff4 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1811,7 +1811,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1822,7 +1822,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -1875,7 +1875,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1886,7 +1886,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2469,7 +2469,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2480,7 +2480,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2527,7 +2527,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2538,7 +2538,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 84d3f3a..fd93e74 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1922,7 +1922,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -1944,7 +1944,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2001,7 +2001,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2017,7 +2017,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2610,7 +2610,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -2632,7 +2632,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2693,7 +2693,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2709,7 +2709,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
-- 
2.43.0


From 40b7ad0ba72bf8c80f0c183db43b7548788db578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:52 +0000
Subject: [PATCH 68/95] fix: two-operand conditional assignments did not report
 that the condition became false

---
 ADOL-C/src/fo_rev.cpp   | 34 ++++++++++++++++++---
 ADOL-C/src/ho_rev.cpp   | 24 +++++++++++++++
 ADOL-C/src/uni5_for.cpp | 66 ++++++++++++++++++++++++++++++-----------
 3 files changed, 102 insertions(+), 22 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index a953ff4..1bf37af 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1935,8 +1935,16 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
-      } else if (TARG == 0.0) /* we are at the tie */
-        FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 0);
+      } else {
+        FOR_0_LE_l_LT_p {
+          if (ARES_INC != 0) {
+            if (TARG == 0.0) /* we are at the tie */
+              MINDEC(ret_c, 0);
+            else if (coval > 0.0)
+              MINDEC(ret_c, 2);
+          }
+        }
+      }
 #else
       if (res != arg1)
         FOR_0_LE_l_LT_p {
@@ -1977,6 +1985,11 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
+      } else {
+        FOR_0_LE_l_LT_p {
+          if ((coval >= 0.0) && (ARES_INC != 0))
+            MINDEC(ret_c, 2);
+        }
       }
 #else
       if (res != arg1)
@@ -2575,8 +2588,16 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
-      } else if (TARG == 0.0) /* we are at the tie */
-        FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 0);
+      } else {
+        FOR_0_LE_l_LT_p {
+          if (ARES_INC != 0) {
+            if (TARG == 0.0) /* we are at the tie */
+              MINDEC(ret_c, 0);
+            else if (coval > 0.0)
+              MINDEC(ret_c, 2);
+          }
+        }
+      }
 #else
       ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_VE_REF, CURRENT_LOCATION);
 #endif /* !_NTIGHT_ */
@@ -2611,6 +2632,11 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
+      } else {
+        FOR_0_LE_l_LT_p {
+          if ((coval >= 0.0) && (ARES_INC != 0))
+            MINDEC(ret_c, 2);
+        }
       }
 #else
       ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_VE_REF, CURRENT_LOCATION);
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index fd93e74..09578c4 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2074,6 +2074,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
+      } else {
+        for (int l = 0; l < p; l++) {
+          if ((coval > 0.0) && (ARES != 0.0))
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       }
       break;
     case cond_eq_assign_s: /* cond_eq_assign_s */
@@ -2113,6 +2119,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
+      } else {
+        for (int l = 0; l < p; l++) {
+          if ((coval >= 0.0) && (ARES != 0.0))
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       }
       break;
       /*--------------------------------------------------------------------------*/
@@ -2768,6 +2780,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
+      } else {
+        for (int l = 0; l < p; l++) {
+          if ((coval > 0.0) && (ARES != 0.0))
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       }
       break;
 
@@ -2811,6 +2829,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
+      } else {
+        for (int l = 0; l < p; l++) {
+          if ((coval >= 0.0) && (ARES != 0.0))
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       }
       break;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 94968fe..628aeb5 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4330,8 +4330,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4352,8 +4356,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4364,8 +4372,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #endif
 #endif /* ALL_TOGETHER_AGAIN */
       break;
@@ -4407,7 +4419,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4428,7 +4441,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4439,7 +4453,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif
 #endif /* ALL_TOGETHER_AGAIN */
       break;
@@ -5401,8 +5416,12 @@ int hov_forward(
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5417,8 +5436,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       if (dp_T0[arg] > 0)
@@ -5428,8 +5451,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #endif
 #endif
 #else
@@ -5463,7 +5490,8 @@ int hov_forward(
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5478,7 +5506,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       if (dp_T0[arg] >= 0)
@@ -5488,7 +5517,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif
 #endif
 #else
-- 
2.43.0


From 7f438edd436433d2876333d3e25d2c82f2206845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:45 +0000
Subject: [PATCH 69/95] fix: locations of an external function's arguments
 belong to the taped call, not to the function object

---
 ADOL-C/src/checkpointing.cpp   | 2 ++
 ADOL-C/src/externfcts.cpp      | 4 +++-
 ADOL-C/src/fo_rev.cpp          | 9 +++++++++
 ADOL-C/src/ho_rev.cpp          | 5 +++++
 ADOL-C/src/tapedoc/tapedoc.cpp | 2 --
 ADOL-C/src/uni5_for.cpp        | 4 ++++
 6 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index bcddb6b..33fd6d9 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -655,6 +655,8 @@ int Context::checkpointing(short tapeId) {
   tape.put_loc(edf->index);
   tape.put_loc(cpInfos->dim);
   tape.put_loc(cpInfos->dim);
+  tape.put_loc(cpInfos->adp_x[0].loc());
+  tape.put_loc(cpInfos->adp_y[0].loc());
   edf->firstIndLocation = cpInfos->adp_x[0].loc();
   edf->firstDepLocation = cpInfos->adp_y[0].loc();
 
diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 4461b88..f90aa31 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -72,7 +72,9 @@ void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
 
   // store the index of the first location of input and output variables to
   // later find the right position to read (write) from (to) the taylor
-  // coefficient buffers
+  // coefficient buffers; like the shape these belong to the taped operation
+  tape.put_loc(xa->loc());
+  tape.put_loc(ya->loc());
   edfct->firstDepLocation = ya->loc();
   edfct->firstIndLocation = xa->loc();
 
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 1bf37af..bda11fa 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -407,6 +407,7 @@ int int_reverse_safe(
 #if !defined(_INT_REV_)
   int n, m;
   ext_diff_fct *edfct = nullptr;
+  size_t firstIndLocation = 0, firstDepLocation = 0;
   ext_diff_fct_v2 *edfct2 = nullptr;
   size_t iArrLength;
   size_t *iArr = nullptr;
@@ -2684,10 +2685,14 @@ int int_reverse_safe(
 #if !defined(_INT_REV_)
       /*--------------------------------------------------------------------------*/
     case ext_diff: { /* extern differntiated function */
+      firstDepLocation = tape.get_locint_r();
+      firstIndLocation = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = firstIndLocation;
+      edfct->firstDepLocation = firstDepLocation;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_POINTER == NULL)
@@ -2763,6 +2768,8 @@ int int_reverse_safe(
       break;
     }
     case ext_diff_iArr: /* extern differntiated function */
+      firstDepLocation = tape.get_locint_r();
+      firstIndLocation = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
@@ -2772,6 +2779,8 @@ int int_reverse_safe(
         iArr[loop - 1] = tape.get_locint_r();
       tape.get_locint_r(); /* get it again */
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = firstIndLocation;
+      edfct->firstDepLocation = firstDepLocation;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == NULL)
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 09578c4..4fcedc3 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -431,6 +431,7 @@ int hov_ti_reverse(
 
   int n, m;
   ext_diff_fct *edfct = nullptr;
+  size_t firstIndLocation = 0, firstDepLocation = 0;
   /*----------------------------------------------------------------------*/
 #elif _HOV_    /* HOV */
   rpp_A = myalloc2(tape.tapestats(TapeInfos::NUM_MAX_LIVES), pk1);
@@ -2886,10 +2887,14 @@ int hov_ti_reverse(
              "TODO: add nestedReverseEval accumulation semantics to ho_rev.cpp "
              "before supporting nested higher-order reverse passes.");
 
+      firstDepLocation = tape.get_locint_r();
+      firstIndLocation = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = firstIndLocation;
+      edfct->firstDepLocation = firstDepLocation;
       edfct->q = nrows;
       /* degree is not known when registering external functions,
          so do memory allocation here (at least for now) */
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 06f5531..db87889 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -1280,7 +1280,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[2] = tape.get_locint_f();     /* m */
       loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
       loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff", 3, loc_a, 0, cst_d);
       break;
 
@@ -1294,7 +1293,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[2] = tape.get_locint_f();     /* m */
       loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
       loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff iArr", 3, loc_a, 0, cst_d);
       break;
     case ext_diff_v2:
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 628aeb5..c4d756f 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5589,6 +5589,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
@@ -5635,6 +5637,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
-- 
2.43.0


From 4b163ab36cb5c2c8adac40cae1c382928950962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 70/95] fix: argument memory of the second external function
 interface was too small for some shapes

---
 ADOL-C/src/externfcts2.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 3e1db36..a38de9b 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -48,15 +48,18 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
       edfct->Zp == nullptr || edfct->max_nin < nin || edfct->max_nout < nout ||
       edfct->max_insz < m_isz || edfct->max_outsz < m_osz) {
     char *tmp;
-    size_t q = nout * m_osz;
+    // the memory is shared by all calls of the function => use the maxima
+    nin = (nin < edfct->max_nin) ? edfct->max_nin : nin;
+    nout = (nout < edfct->max_nout) ? edfct->max_nout : nout;
+    m_isz = (m_isz < edfct->max_insz) ? edfct->max_insz : m_isz;
+    m_osz = (m_osz < edfct->max_outsz) ? edfct->max_outsz : m_osz;
+    // x, xp, zp (inputs) and y, yp, up (outputs) with data,
+    // Xp, Zp (inputs) and Yp, Up (outputs) without data
     size_t totalmem =
-        (3 * nin * m_isz + 3 * nout * m_osz
-         // + nin*m_isz*p + nout*m_osz*p
-         // + q*nout*m_osz + q*nin*m_isz
-         ) * sizeof(double) +
-        (3 * nin + 3 * nout + nin * m_isz + nout * m_osz + q * nout + q * nin) *
+        (3 * nin * m_isz + 3 * nout * m_osz) * sizeof(double) +
+        (3 * nin + 3 * nout + 2 * nin * m_isz + 2 * nout * m_osz) *
             sizeof(double *) +
-        (nin + nout + 2 * q) * sizeof(double **);
+        (2 * nin + 2 * nout) * sizeof(double **);
     if (edfct->allmem != NULL)
       free(edfct->allmem);
     edfct->allmem = (char *)malloc(totalmem);
-- 
2.43.0


From 8b83cd03b0df83d8def1784323d29c940bf7a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:11 +0000
Subject: [PATCH 71/95] fix: object-style external functions looked themselves
 up on the wrong tape and in the wrong slot

---
 ADOL-C/src/externfcts.cpp  | 27 ++++++++++-----------------
 ADOL-C/src/externfcts2.cpp | 10 ++++++++--
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index f90aa31..0adca77 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -193,18 +193,6 @@ ext_diff_fct *get_ext_diff_fct(short tapeId, size_t index) {
  *
  */
 
-static int edfoo_wrapper_function(short tapeId, int m, int n, double *x,
-                                  double *y) {
-  ext_diff_fct *edf;
-  EDFobject *ebase;
-
-  ValueTape &tape = findTape(tapeId);
-  // figure out which edf
-  edf = get_ext_diff_fct(tapeId, tape.ext_diff_fct_index());
-  ebase = reinterpret_cast<EDFobject *>(edf->obj);
-  return ebase->function(tapeId, m, n, x, y);
-}
-
 static int edfoo_wrapper_zos_forward(short tapeId, int m, int n, int keep,
                                      double *x, double *y) {
   ext_diff_fct *edf;
@@ -273,7 +261,10 @@ void EDFobject::init_edf(EDFobject *ebase, short outerTapeId, short extTapeId) {
   edf->tapeId = outerTapeId;
   edf->extTapeId = extTapeId;
   edf->obj = reinterpret_cast<void *>(ebase);
-  edf->function = edfoo_wrapper_function;
+  // called with extTapeId, but the function is registered on the outer tape
+  edf->function = [ebase](short tapeId, int m, int n, double *x, double *y) {
+    return ebase->function(tapeId, m, n, x, y);
+  };
   edf->zos_forward = edfoo_wrapper_zos_forward;
   edf->fos_forward = edfoo_wrapper_fos_forward;
   edf->fov_forward = edfoo_wrapper_fov_forward;
@@ -281,9 +272,9 @@ void EDFobject::init_edf(EDFobject *ebase, short outerTapeId, short extTapeId) {
   edf->fov_reverse = edfoo_wrapper_fov_reverse;
 }
 
-[[maybe_unused]] static int
-edfoo_iarr_wrapper_function(short tapeId, size_t iArrLength, size_t *iArr,
-                            int m, int n, double *x, double *y) {
+static int edfoo_iarr_wrapper_function(short tapeId, size_t iArrLength,
+                                       size_t *iArr, int m, int n, double *x,
+                                       double *y) {
   ext_diff_fct *edf;
   EDFobject_iArr *ebase;
 
@@ -363,8 +354,10 @@ static int edfoo_iarr_wrapper_fov_reverse(short tapeId, size_t iArrLength,
 void EDFobject_iArr::init_edf(EDFobject_iArr *ebase) {
   ValueTape &tape = currentTape();
   edf = tape.ext_diff_append();
+  edf->tapeId = tape.tapeId();
+  edf->extTapeId = tape.tapeId();
   edf->obj = reinterpret_cast<void *>(ebase);
-  edf->function = edfoo_wrapper_function;
+  edf->function_iArr = edfoo_iarr_wrapper_function;
   edf->zos_forward_iArr = edfoo_iarr_wrapper_zos_forward;
   edf->fos_forward_iArr = edfoo_iarr_wrapper_fos_forward;
   edf->fov_forward_iArr = edfoo_iarr_wrapper_fov_forward;
diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index a38de9b..c3a25a4 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -148,8 +148,14 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
         edfct->y[i][j] = y[i][j].value();
 
   tape.ext_diff_fct_index(edfct->index);
-  ret = edfct->function(edfct->extTapeId, iArrLen, iArr, nin, nout, insz,
-                        edfct->x, outsz, edfct->y, edfct->context);
+  // objects are registered on the outer tape => no lookup by extTapeId
+  if (edfct->obj)
+    ret = reinterpret_cast<EDFobject_v2 *>(edfct->obj)
+              ->function(edfct->extTapeId, iArrLen, iArr, nin, nout, insz,
+                         edfct->x, outsz, edfct->y, edfct->context);
+  else
+    ret = edfct->function(edfct->extTapeId, iArrLen, iArr, nin, nout, insz,
+                          edfct->x, outsz, edfct->y, edfct->context);
 
   if (edfct->nestedAdolc) {
     std::copy(vals.begin(), vals.end(), tape.store());
-- 
2.43.0


From 69c4efe58e1fdeb97bce1dab09a11a804f76be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:30 +0000
Subject: [PATCH 72/95] fix: external functions called outside a traced section
 wrote to the tape

---
 ADOL-C/src/externfcts.cpp  | 69 +++++++++++++++++++++-----------------
 ADOL-C/src/externfcts2.cpp | 46 ++++++++++++++-----------
 2 files changed, 64 insertions(+), 51 deletions(-)

diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 0adca77..333afee 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -63,18 +63,20 @@ void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
 
   ValueTape &tape = findTape(edfct->tapeId);
 
-  tape.put_loc(edfct->index);
-  // The ext-diff shape is stored per taped operation, not on the edfct
-  // itself. Reusing the same edfct for multiple calls on one tape must remain
-  // correct even if different calls use different m/n.
-  tape.put_loc(to_size_t(n));
-  tape.put_loc(to_size_t(m));
-
-  // store the index of the first location of input and output variables to
-  // later find the right position to read (write) from (to) the taylor
-  // coefficient buffers; like the shape these belong to the taped operation
-  tape.put_loc(xa->loc());
-  tape.put_loc(ya->loc());
+  if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
+    tape.put_loc(edfct->index);
+    // The ext-diff shape is stored per taped operation, not on the edfct
+    // itself. Reusing the same edfct for multiple calls on one tape must remain
+    // correct even if different calls use different m/n.
+    tape.put_loc(to_size_t(n));
+    tape.put_loc(to_size_t(m));
+
+    // store the index of the first location of input and output variables to
+    // later find the right position to read (write) from (to) the taylor
+    // coefficient buffers; like the shape these belong to the taped operation
+    tape.put_loc(xa->loc());
+    tape.put_loc(ya->loc());
+  }
   edfct->firstDepLocation = ya->loc();
   edfct->firstIndLocation = xa->loc();
 
@@ -83,23 +85,25 @@ void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
     std::copy(tape.store(), tape.store() + tape.storeSize(), vals);
   }
 
-  /* update taylor buffer if keep != 0 ; possible double counting as in
-   * adouble.cpp => correction in taping.cpp */
-
-  if (edfct->dp_x_changes)
-    tape.add_numTays_Tape(to_size_t(n));
-
-  if (edfct->dp_y_priorRequired)
-    tape.add_numTays_Tape(to_size_t(m));
+  if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
+    /* update taylor buffer if keep != 0 ; possible double counting as in
+     * adouble.cpp => correction in taping.cpp */
 
-  if (tape.keepTaylors()) {
     if (edfct->dp_x_changes)
-      for (int i = 0; i < n; ++i)
-        tape.write_scaylor(xa[i].value());
+      tape.add_numTays_Tape(to_size_t(n));
 
     if (edfct->dp_y_priorRequired)
-      for (int i = 0; i < m; ++i)
-        tape.write_scaylor(ya[i].value());
+      tape.add_numTays_Tape(to_size_t(m));
+
+    if (tape.keepTaylors()) {
+      if (edfct->dp_x_changes)
+        for (int i = 0; i < n; ++i)
+          tape.write_scaylor(xa[i].value());
+
+      if (edfct->dp_y_priorRequired)
+        for (int i = 0; i < m; ++i)
+          tape.write_scaylor(ya[i].value());
+    }
   }
 
   tape.ext_diff_fct_index(edfct->index);
@@ -124,7 +128,8 @@ int call_ext_fct(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
 
   ValueTape &tape = findTape(edfct->tapeId);
 
-  tape.put_op(ext_diff);
+  if (tape.workMode() == TapeInfos::WRITE_ACCESS)
+    tape.put_op(ext_diff);
 
   call_ext_fct_commonPrior(edfct, n, xa, m, ya, vals);
   x = myalloc1(to_size_t(n));
@@ -155,13 +160,15 @@ int call_ext_fct(ext_diff_fct *edfct, size_t iArrLength, size_t *iArr, int n,
   assert(m >= 0);
 
   ValueTape &tape = findTape(edfct->tapeId);
-  tape.put_op(ext_diff_iArr, iArrLength + 2);
-  tape.put_loc(iArrLength);
+  if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
+    tape.put_op(ext_diff_iArr, iArrLength + 2);
+    tape.put_loc(iArrLength);
 
-  for (size_t i = 0; i < iArrLength; ++i)
-    tape.put_loc(iArr[i]);
+    for (size_t i = 0; i < iArrLength; ++i)
+      tape.put_loc(iArr[i]);
 
-  tape.put_loc(iArrLength); // do it again so we can read in either direction
+    tape.put_loc(iArrLength); // do it again so we can read in either direction
+  }
 
   call_ext_fct_commonPrior(edfct, n, xa, m, ya, vals);
   x = myalloc1(to_size_t(n));
diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index c3a25a4..76ccd2a 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -90,30 +90,36 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
 
   ValueTape &tape = findTape(edfct->tapeId);
 
-  tape.put_op(ext_diff_v2, 2 * (nin + nout) + iArrLen);
-  tape.put_loc(edfct->index);
-  tape.put_loc(iArrLen);
-  for (size_t i = 0; i < iArrLen; i++)
-    tape.put_loc(iArr[i]);
-  tape.put_loc(iArrLen);
-  tape.put_loc(nin);
-  tape.put_loc(nout);
-  for (size_t i = 0; i < nin; i++) {
+  for (size_t i = 0; i < nin; i++)
     if (x[i][insz[i] - 1].loc() - x[i][0].loc() != (unsigned)insz[i] - 1)
       ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
                        CURRENT_LOCATION);
-    tape.put_loc(insz[i]);
-    tape.put_loc(x[i][0].loc());
-  }
-  for (size_t i = 0; i < nout; i++) {
+  for (size_t i = 0; i < nout; i++)
     if (y[i][outsz[i] - 1].loc() - y[i][0].loc() != (unsigned)outsz[i] - 1)
       ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
                        CURRENT_LOCATION);
-    tape.put_loc(outsz[i]);
-    tape.put_loc(y[i][0].loc());
+
+  const bool recording = tape.workMode() == TapeInfos::WRITE_ACCESS;
+  if (recording) {
+    tape.put_op(ext_diff_v2, 2 * (nin + nout) + iArrLen);
+    tape.put_loc(edfct->index);
+    tape.put_loc(iArrLen);
+    for (size_t i = 0; i < iArrLen; i++)
+      tape.put_loc(iArr[i]);
+    tape.put_loc(iArrLen);
+    tape.put_loc(nin);
+    tape.put_loc(nout);
+    for (size_t i = 0; i < nin; i++) {
+      tape.put_loc(insz[i]);
+      tape.put_loc(x[i][0].loc());
+    }
+    for (size_t i = 0; i < nout; i++) {
+      tape.put_loc(outsz[i]);
+      tape.put_loc(y[i][0].loc());
+    }
+    tape.put_loc(nin);
+    tape.put_loc(nout);
   }
-  tape.put_loc(nin);
-  tape.put_loc(nout);
 
   if (edfct->nestedAdolc) {
     vals.resize(tape.storeSize());
@@ -121,13 +127,13 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
   }
   if (!edfct->user_allocated_mem)
     update_ext_fct_memory(edfct, nin, nout, insz, outsz);
-  if (edfct->dp_x_changes)
+  if (recording && edfct->dp_x_changes)
     for (size_t i = 0; i < nin; i++)
       tape.add_numTays_Tape(insz[i]);
-  if (edfct->dp_y_priorRequired)
+  if (recording && edfct->dp_y_priorRequired)
     for (size_t i = 0; i < nout; i++)
       tape.add_numTays_Tape(outsz[i]);
-  if (tape.keepTaylors()) {
+  if (recording && tape.keepTaylors()) {
     if (edfct->dp_x_changes)
       for (size_t i = 0; i < nin; i++)
         for (size_t j = 0; j < insz[i]; j++)
-- 
2.43.0


From 50d0f5608903f62a7484ed9bb34f981e5cc28a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:17 +0000
Subject: [PATCH 73/95] fix: checkpointed loops shared the state of one revolve
 schedule

---
 ADOL-C/include/adolc/checkpointing.h |  5 +++++
 ADOL-C/include/adolc/revolve.h       |  3 ++-
 ADOL-C/src/checkpointing.cpp         | 18 +++++++++++++-----
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 00c0631..1360863 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -17,6 +17,7 @@
 
 #include <adolc/adolcexport.h>
 #include <adolc/internal/common.h>
+#include <adolc/revolve.h>
 #include <array>
 #include <stack>
 
@@ -93,6 +94,7 @@ struct Infos {
   int fine{0};
   int info{0};
   int currentCP{0};
+  revolve_nums revolveState{}; /* state of this schedule within revolve */
   double *dp_internal_for{nullptr};
   size_t index{0};
   // unsued but required to be stored in our custom buffer type
@@ -114,6 +116,9 @@ struct Infos {
   /** @brief Tape one time step at the current internal state. */
   void tapeStep(int keep) const;
 
+  /** @brief Next action of this schedule. */
+  revolve_action nextAction();
+
   /** @brief Run the forward checkpoint schedule for the current state. */
   void revolveForward(int keep);
 
diff --git a/ADOL-C/include/adolc/revolve.h b/ADOL-C/include/adolc/revolve.h
index 7295d87..2c457c5 100644
--- a/ADOL-C/include/adolc/revolve.h
+++ b/ADOL-C/include/adolc/revolve.h
@@ -29,7 +29,8 @@ struct revolve_nums {
   int oldfine{0};
 };
 
-inline revolve_nums revolve_numbers;
+// state of the schedule that is currently processed by this thread
+inline thread_local revolve_nums revolve_numbers;
 
 inline revolve_nums &get_revolve_numbers() { return revolve_numbers; }
 
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 33fd6d9..dd3971f 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -119,6 +119,16 @@ void detail::Infos::revolveError() {
   }
 }
 
+// Other checkpointed loops may use revolve between the calls for this one.
+revolve_action detail::Infos::nextAction() {
+  revolve_nums &current = get_revolve_numbers();
+  current = revolveState;
+  const revolve_action action =
+      revolve(&check, &capo, &fine, checkpoints, &info);
+  revolveState = current;
+  return action;
+}
+
 void detail::Infos::revolveForward(int keep) {
   /* init revolve */
   check = -1;
@@ -129,7 +139,7 @@ void detail::Infos::revolveForward(int keep) {
   /* execute all time steps */
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&check, &capo, &fine, checkpoints, &info);
+    whattodo = nextAction();
 
     switch (whattodo) {
     case revolve_takeshot:
@@ -350,8 +360,7 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
@@ -439,8 +448,7 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
-- 
2.43.0


From 0a1a32796007fda06cd7e9fb861dd204c891b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 74/95] fix: checkpointing lost the values its results
 overwrite in reverse sweeps

---
 ADOL-C/src/checkpointing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index dd3971f..f8a694d 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -654,7 +654,8 @@ int Context::checkpointing(short tapeId) {
   initExternalDiffFunction(edf);
   edf->cp_index = cpInfos->index;
   edf->dp_x_changes = 0;
-  edf->dp_y_priorRequired = 0;
+  // the prior values of y are put on the taylor stack below
+  edf->dp_y_priorRequired = 1;
   ValueTape &tape = findTape(cpInfos->tapeId);
   // but we do not call it
   // we use direct taping to avoid unnecessary argument copying
-- 
2.43.0


From 0869ebc7b4ab0e37b1b960eafb413e4fa07f6e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:49 +0000
Subject: [PATCH 75/95] fix: checkpointing overwrote the adjoints of an input
 that is used elsewhere too

---
 ADOL-C/src/checkpointing.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index f8a694d..0e7e7ac 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -338,7 +338,7 @@ int hov_forward(size_t, short, size_t, double *, size_t, size_t, double ***,
 }
 
 int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
-                double *z, double *x, double *) {
+                double *z, double *x, double *, bool inPlace) {
 
   ValueTape &tape = findTape(tapeId);
 
@@ -413,14 +413,15 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   cpInfos->release(); // release first checkpoint if written
   tape.branchSwitchWarning(old_bsw);
 
-  // save results
-  std::copy(adjoint.begin(), adjoint.end(), z);
+  // save results: a separate input keeps the adjoints it has so far
+  for (int i = 0; i < n; ++i)
+    z[i] = inPlace ? adjoint[i] : z[i] + adjoint[i];
 
   return 0;
 }
 
 int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
-                double **Zq, double *x, double *) {
+                double **Zq, double *x, double *, bool inPlace) {
 
   ValueTape &tape = findTape(tapeId);
 
@@ -503,9 +504,11 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   cpInfos->release();
   tape.branchSwitchWarning(old_bsw);
 
-  // save results
+  // save results: a separate input keeps the adjoints it has so far
   for (int row = 0; row < q; ++row)
-    std::copy(adjointRows[row], adjointRows[row] + n, Zq[row]);
+    for (int i = 0; i < n; ++i)
+      Zq[row][i] =
+          inPlace ? adjointRows[row][i] : Zq[row][i] + adjointRows[row][i];
   return 0;
 }
 
@@ -619,13 +622,17 @@ void initExternalDiffFunction(ext_diff_fct *edf) {
   // FOS REVERSE
   edf->fos_reverse = [edf](short tapeId, int m, int n, double *u, double *z,
                            double *x, double *y) {
-    return ADOLC::CP::fos_reverse(edf->cp_index, tapeId, m, n, u, z, x, y);
+    return ADOLC::CP::fos_reverse(edf->cp_index, tapeId, m, n, u, z, x, y,
+                                  edf->firstIndLocation ==
+                                      edf->firstDepLocation);
   };
 
   // FOV REVERSE
   edf->fov_reverse = [edf](short tapeId, int m, int n, int q, double **Uq,
                            double **Zq, double *x, double *y) {
-    return ADOLC::CP::fov_reverse(edf->cp_index, tapeId, m, n, q, Uq, Zq, x, y);
+    return ADOLC::CP::fov_reverse(edf->cp_index, tapeId, m, n, q, Uq, Zq, x, y,
+                                  edf->firstIndLocation ==
+                                      edf->firstDepLocation);
   };
 
   // HOS REVERSE
-- 
2.43.0


From 55412c0cbb6cf6d914fd1e1d09c0bd6ae09eb8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:23 +0000
Subject: [PATCH 76/95] fix: several calls of one checkpointing context shared
 one description

---
 ADOL-C/src/checkpointing.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 0e7e7ac..1c8c607 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -579,6 +579,26 @@ void detail::Infos::release() {
   }
 }
 
+/* a further description with the settings of an existing one */
+namespace {
+detail::Infos *copySettings(ValueTape &tape, const detail::Infos *from) {
+  detail::Infos *infos = tape.cp_append();
+  infos->tapeId = from->tapeId;
+  infos->function = from->function;
+  infos->function_double = from->function_double;
+  infos->saveNonAdoubles = from->saveNonAdoubles;
+  infos->restoreNonAdoubles = from->restoreNonAdoubles;
+  infos->steps = from->steps;
+  infos->checkpoints = from->checkpoints;
+  infos->cpTapeId = from->cpTapeId;
+  infos->retaping = from->retaping;
+  infos->dim = from->dim;
+  infos->adp_x = from->adp_x;
+  infos->adp_y = from->adp_y;
+  return infos;
+}
+} // namespace
+
 /* initialize the information for the external function in a way that our
  * checkpointing functions are called */
 namespace {
@@ -707,6 +727,9 @@ int Context::checkpointing(short tapeId) {
     cpInfos->adp_y[i].value(state[i]);
   }
 
+  // The description just used belongs to the call on the tape, later calls and
+  // settings of this context get one of their own.
+  cpInfos = copySettings(tape, cpInfos);
   return 0;
 }
 } // namespace ADOLC::CP
-- 
2.43.0


From 72b468b0628f102d714adfe409036488e46496de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 77/95] fix: checkpointed loops could be reversed only once and
 only after zos_forward

---
 ADOL-C/include/adolc/checkpointing.h | 25 ++++++++-
 ADOL-C/src/checkpointing.cpp         | 81 ++++++++++++++++++++++++++--
 2 files changed, 100 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 1360863..36abbab 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -68,7 +68,10 @@ using StackElement = std::array<double *, 2>;
  * this struct directly.
  */
 struct Infos {
-  ~Infos() { clearStack(); }
+  ~Infos() {
+    clearStack();
+    delete[] initialNonAdoubles;
+  }
   // id of the outer tape, used to get checkpoint in the cp_fos_forward... and
   // reverse methods later
   short tapeId{0};
@@ -100,6 +103,8 @@ struct Infos {
   // unsued but required to be stored in our custom buffer type
   char *allmem{nullptr};
   std::stack<StackElement> cpStack;
+  double *initialNonAdoubles{nullptr}; /* saved before the first step */
+  bool reverseReady{false}; /* the step tape holds the last step */
 
   /** @brief Save the current checkpoint state on the internal stack. */
   void takeSnapshot();
@@ -122,6 +127,24 @@ struct Infos {
   /** @brief Run the forward checkpoint schedule for the current state. */
   void revolveForward(int keep);
 
+  /** @brief Save the non-adouble state the first step starts with. */
+  void saveInitialNonAdoubles();
+
+  /** @brief Bring the non-adouble state back to the one before the first step.
+   */
+  void restoreInitialNonAdoubles();
+
+  /** @brief Forget the previous schedule and keep only the current state. */
+  void keepInitialState();
+
+  /** @brief Bring schedule and step tape to the state they have after a forward
+   * sweep. */
+  void prepareReverse();
+
+  /** @brief Drop all snapshots but the first, so that the schedule can be
+   * repeated. */
+  void finishReverse();
+
   /** @brief Raise an ADOL-C error for the current revolve status code. */
   void revolveError();
 };
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 1c8c607..64206bd 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstring>
+#include <unordered_map>
 #include <vector>
 
 namespace ADOLC::CP {
@@ -65,6 +66,13 @@ void tapeStep(detail::Infos *cpInfos, const std::vector<double> &base,
   cpInfos->tapeStep(keep);
 }
 
+// The description whose last step is on the step tape, if it is known. Several
+// loops may use the same step tape.
+std::unordered_map<short, detail::Infos *> &stepTapeOwners() {
+  static thread_local std::unordered_map<short, detail::Infos *> owners;
+  return owners;
+}
+
 void setFovRows(std::vector<double> &values, int rows, int cols,
                 std::vector<double *> &rowPointers) {
   for (int row = 0; row < rows; ++row)
@@ -130,6 +138,12 @@ revolve_action detail::Infos::nextAction() {
 }
 
 void detail::Infos::revolveForward(int keep) {
+  clearStack();
+  stepTapeOwners().erase(cpTapeId);
+  reverseReady = false;
+  if (steps == 1) // no snapshot is part of the schedule
+    takeSnapshot();
+
   /* init revolve */
   check = -1;
   capo = 0;
@@ -155,6 +169,8 @@ void detail::Infos::revolveForward(int keep) {
 
     case revolve_firsturn:
       tapeStep(keep);
+      stepTapeOwners()[cpTapeId] = this;
+      reverseReady = true;
       break;
 
     case revolve_error:
@@ -227,14 +243,19 @@ int zos_forward(size_t cpIndex, short tapeId, [[maybe_unused]] int m, int n,
   std::vector<double> state(x, x + n);
   InternalForwardBuffer guard(cpInfos, state.data());
 
-  cpInfos->revolveForward(keep);
+  cpInfos->restoreInitialNonAdoubles();
+  if (keep)
+    cpInfos->revolveForward(1);
+  else
+    for (int i = 0; i < cpInfos->steps; ++i)
+      cpInfos->function_double(cpInfos->dim, state.data());
 
   // write back
   std::copy(state.begin(), state.end(), y);
   return 0;
 }
 
-int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
+int fos_forward(size_t cpIndex, short tapeId, int m, int n, int keep,
                 const double *x, const double *X, double *y, double *Y) {
   ValueTape &tape = findTape(tapeId);
   detail::Infos *cpInfos = checkpointingInfos(tape, cpIndex);
@@ -247,6 +268,13 @@ int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
   std::vector<double> nextState(m);
   std::vector<double> nextTangent(m);
 
+  cpInfos->restoreInitialNonAdoubles();
+  stepTapeOwners().erase(cpInfos->cpTapeId);
+  if (keep) {
+    InternalForwardBuffer guard(cpInfos, state.data());
+    cpInfos->keepInitialState();
+  }
+
   int ret_c = 3;
   for (int step = 0; step < cpInfos->steps; ++step) {
     if (step == 0 || cpInfos->retaping != 0)
@@ -291,6 +319,9 @@ int fov_forward(size_t cpIndex, short tapeId, int m, int n, int p,
     for (int col = 0; col < p; ++col)
       tangent[static_cast<size_t>(row) * p + col] = Xp[row][col];
 
+  cpInfos->restoreInitialNonAdoubles();
+  stepTapeOwners().erase(cpInfos->cpTapeId);
+
   int ret_c = 3;
   for (int step = 0; step < cpInfos->steps; ++step) {
     if (step == 0 || cpInfos->retaping != 0)
@@ -351,6 +382,8 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   std::vector<double> adjoint(u, u + m);
   InternalForwardBuffer guard(cpInfos, state.data());
 
+  cpInfos->prepareReverse();
+
   // execute second part of revolve_firstturn left from forward sweep
   ::fos_reverse(cpInfos->cpTapeId, m, n, adjoint.data(), adjoint.data());
 
@@ -410,7 +443,7 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
       break;
     }
   } while (whattodo != revolve_terminate && whattodo != revolve_error);
-  cpInfos->release(); // release first checkpoint if written
+  cpInfos->finishReverse();
   tape.branchSwitchWarning(old_bsw);
 
   // save results: a separate input keeps the adjoints it has so far
@@ -440,6 +473,8 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
               adjoint.data() + static_cast<size_t>(row) * m);
   setFovRows(adjoint, q, m, adjointRows);
 
+  cpInfos->prepareReverse();
+
   // execute second part of revolve_firstturn left from forward sweep
   ::fov_reverse(cpInfos->cpTapeId, m, n, q, adjointRows.data(),
                 adjointRows.data());
@@ -500,8 +535,7 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
     }
   } while (whattodo != revolve_terminate && whattodo != revolve_error);
 
-  // release first checkpoint if written
-  cpInfos->release();
+  cpInfos->finishReverse();
   tape.branchSwitchWarning(old_bsw);
 
   // save results: a separate input keeps the adjoints it has so far
@@ -579,6 +613,41 @@ void detail::Infos::release() {
   }
 }
 
+void detail::Infos::saveInitialNonAdoubles() {
+  delete[] initialNonAdoubles;
+  initialNonAdoubles = nullptr;
+  if (saveNonAdoubles != nullptr)
+    initialNonAdoubles = static_cast<double *>(saveNonAdoubles());
+}
+
+void detail::Infos::restoreInitialNonAdoubles() {
+  if (initialNonAdoubles != nullptr)
+    restoreNonAdoubles(static_cast<void *>(initialNonAdoubles));
+}
+
+void detail::Infos::keepInitialState() {
+  clearStack();
+  takeSnapshot();
+  reverseReady = false;
+}
+
+void detail::Infos::prepareReverse() {
+  const auto owner = stepTapeOwners().find(cpTapeId);
+  if (reverseReady && owner != stepTapeOwners().end() && owner->second == this)
+    return;
+  // start again with the state before the first step
+  while (cpStack.size() > 1)
+    release();
+  restore();
+  revolveForward(1);
+}
+
+void detail::Infos::finishReverse() {
+  while (cpStack.size() > 1)
+    release();
+  reverseReady = false;
+}
+
 /* a further description with the settings of an existing one */
 namespace {
 detail::Infos *copySettings(ValueTape &tape, const detail::Infos *from) {
@@ -701,6 +770,8 @@ int Context::checkpointing(short tapeId) {
   std::vector<double> state(cpInfos->dim);
   InternalForwardBuffer guard(cpInfos, state.data());
 
+  cpInfos->saveInitialNonAdoubles();
+
   // initialize internal arguments
   for (int i = 0; i < cpInfos->dim; ++i)
     state[i] = cpInfos->adp_x[i].value();
-- 
2.43.0


From d3897b4be720b3c8b34bf81d73c8333b28f68247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 78/95] fix: checkpointing called outside a traced section
 wrote to the tape

---
 ADOL-C/src/checkpointing.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 64206bd..cb6ebe8 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -756,12 +756,17 @@ int Context::checkpointing(short tapeId) {
   // but we do not call it
   // we use direct taping to avoid unnecessary argument copying
 
-  tape.put_op(ext_diff);
-  tape.put_loc(edf->index);
-  tape.put_loc(cpInfos->dim);
-  tape.put_loc(cpInfos->dim);
-  tape.put_loc(cpInfos->adp_x[0].loc());
-  tape.put_loc(cpInfos->adp_y[0].loc());
+  const bool recording = tape.workMode() == TapeInfos::WRITE_ACCESS;
+  const bool keep = recording && tape.keepTaylors();
+
+  if (recording) {
+    tape.put_op(ext_diff);
+    tape.put_loc(edf->index);
+    tape.put_loc(cpInfos->dim);
+    tape.put_loc(cpInfos->dim);
+    tape.put_loc(cpInfos->adp_x[0].loc());
+    tape.put_loc(cpInfos->adp_y[0].loc());
+  }
   edf->firstIndLocation = cpInfos->adp_x[0].loc();
   edf->firstDepLocation = cpInfos->adp_y[0].loc();
 
@@ -776,7 +781,7 @@ int Context::checkpointing(short tapeId) {
   for (int i = 0; i < cpInfos->dim; ++i)
     state[i] = cpInfos->adp_x[i].value();
 
-  if (tape.keepTaylors()) {
+  if (keep) {
     // perform all time steps, tape the last, take checkpoints
     cpInfos->revolveForward(1);
   } else
@@ -788,8 +793,9 @@ int Context::checkpointing(short tapeId) {
 
   // update taylor stack; same structure as in adouble.cpp +
   // correction in taping.cpp
-  tape.add_numTays_Tape(cpInfos->dim);
-  if (tape.keepTaylors())
+  if (recording)
+    tape.add_numTays_Tape(cpInfos->dim);
+  if (keep)
     for (int i = 0; i < cpInfos->dim; ++i)
       tape.write_scaylor(cpInfos->adp_y[i].value());
 
-- 
2.43.0


From 152a9b8c3c9d23e27a043d137751b02be8482b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 79/95] fix: fixed point iterations of different tapes and
 threads were mixed up

---
 ADOL-C/src/fixpoint.cpp | 74 +++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 003438b..249a5d9 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -28,6 +28,7 @@
 /* F(x,u,y,dim_x,dim_u) */
 /* norm(x,dim_x)        */
 struct fpi_data {
+  short tape_num;
   size_t edf_index;
   short sub_tape_num;
   double_F double_func;
@@ -40,11 +41,26 @@ struct fpi_data {
   size_t N_max_deriv;
 };
 
-static std::vector<fpi_data> fpi_stack;
+// The tapes belong to one thread, and so do the iterations recorded on them.
+static thread_local std::vector<fpi_data> fpi_stack;
+
+// Find fpi_stack element of the given call; the indices of the external
+// functions are those of their tape.
+static const fpi_data &find_fpi(short tapeId, size_t edf_index) {
+  auto current = std::find_if(
+      fpi_stack.begin(), fpi_stack.end(), [&](const fpi_data &v) {
+        return v.tape_num == tapeId && v.edf_index == edf_index;
+      });
+
+  if (current == fpi_stack.end())
+    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  return *current;
+}
 
 static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
   double err;
-  const fpi_data &current = fpi_stack.back();
+  // the vector may grow during the call
+  const fpi_data current = fpi_stack.back();
 
   for (int i = 0; i < dim_x; ++i)
     x_fix[i] = xu[i];
@@ -75,28 +91,23 @@ static int fp_zos_forward(short tapeId, int dim_x, int dim_xu, int, double *xu,
   double err;
   const size_t edf_index = tape.ext_diff_fct_index();
 
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  // the vector may grow during the call
+  const fpi_data current = find_fpi(tapeId, edf_index);
 
   for (int i = 0; i < dim_x; ++i)
     x_fix[i] = xu[i];
 
-  for (size_t k = 1; k <= current->N_max; ++k) {
+  for (size_t k = 1; k <= current.N_max; ++k) {
     for (int i = 0; i < dim_x; ++i)
       xu[i] = x_fix[i];
 
-    current->double_func(xu, xu + dim_x, x_fix, dim_x, dim_xu - dim_x);
+    current.double_func(xu, xu + dim_x, x_fix, dim_x, dim_xu - dim_x);
 
     for (int i = 0; i < dim_x; ++i)
       xu[i] = x_fix[i] - xu[i];
 
-    err = current->norm_func(xu, dim_x);
-    if (err < current->epsilon)
+    err = current.norm_func(xu, dim_x);
+    if (err < current.epsilon)
       // this is bad... but the return type of all functions is fixed to "int"
       // so it is converted implicitly anyway
       return static_cast<int>(k);
@@ -114,14 +125,9 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 
   const size_t edf_index = tape.ext_diff_fct_index();
 
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
-  for (size_t k = 1; (k < current->N_max_deriv) || (k < current->N_max); ++k) {
+  // the vector may grow during the call
+  const fpi_data current = find_fpi(tapeId, edf_index);
+  for (size_t k = 1; (k < current.N_max_deriv) || (k < current.N_max); ++k) {
     if (k > 1) {
       for (int i = 0; i < dim_x; ++i)
         xu[i] = x_fix[i];
@@ -132,18 +138,18 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 
     // type signatures of "external driver" and "normal" drivers are not aligned
     // thats why we have to cast...
-    fos_forward(current->sub_tape_num, static_cast<int>(dim_x),
+    fos_forward(current.sub_tape_num, static_cast<int>(dim_x),
                 static_cast<int>(dim_xu), keep, xu, xu_dot, x_fix, x_fix_dot);
 
     for (int i = 0; i < dim_x; ++i)
       xu[i] = x_fix[i] - xu[i];
 
-    err = current->norm_func(xu, dim_x);
+    err = current.norm_func(xu, dim_x);
     for (int i = 0; i < dim_x; ++i)
       xu_dot[i] = x_fix_dot[i] - xu_dot[i];
 
-    err_deriv = current->norm_deriv_func(xu_dot, dim_x);
-    if ((err < current->epsilon) && (err_deriv < current->epsilon_deriv)) {
+    err_deriv = current.norm_deriv_func(xu_dot, dim_x);
+    if ((err < current.epsilon) && (err_deriv < current.epsilon_deriv)) {
       // this is bad... but the return type of all functions is fixed to "int"
       // so it is converted implicitly anyway
       return static_cast<int>(k);
@@ -161,24 +167,19 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   ValueTape &tape = findTape(tapeId);
   const size_t edf_index = tape.ext_diff_fct_index();
 
-  // Find fpi_stack element with index 'edf_index'.
-  auto current =
-      std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
-
-  if (current == fpi_stack.end())
-    ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
+  // the vector may grow during the call
+  const fpi_data current = find_fpi(tapeId, edf_index);
 
   double *U = new double[dim_xu];
   double *xi = new double[dim_x];
 
-  for (size_t k = 1; k < current->N_max_deriv; ++k) {
+  for (size_t k = 1; k < current.N_max_deriv; ++k) {
     for (int i = 0; i < dim_x; ++i)
       xi[i] = U[i];
 
     // type signatures of "external driver" and "normal" drivers are not aligned
     // thats why we have to cast...
-    fos_reverse(current->sub_tape_num, static_cast<int>(dim_x),
+    fos_reverse(current.sub_tape_num, static_cast<int>(dim_x),
                 static_cast<int>(dim_xu), xi, U);
 
     for (int i = 0; i < dim_x; ++i)
@@ -187,8 +188,8 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
     for (int i = 0; i < dim_x; ++i)
       xi[i] = U[i] - xi[i];
 
-    err = current->norm_deriv_func(xi, dim_x);
-    if (err < current->epsilon_deriv) {
+    err = current.norm_deriv_func(xi, dim_x);
+    if (err < current.epsilon_deriv) {
       for (int i = 0; i < dim_xu - dim_x; ++i) {
         xu_bar[dim_x + i] += U[dim_x + i];
       }
@@ -223,6 +224,7 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
 
   // add new fp information
   fpi_stack.emplace_back(fpi_data{
+      tapeId,
       edf_iteration->index,
       sub_tape_num,
       double_func,
-- 
2.43.0


From 2dd25078c512ea100b4e2114e68a5c9010410c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 80/95] fix: adjoints of fixed point iterations belonged to the
 point of the taping

---
 ADOL-C/src/fixpoint.cpp | 102 ++++++++++++++++++++++++----------------
 1 file changed, 62 insertions(+), 40 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 249a5d9..85d6ed7 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -57,6 +57,44 @@ static const fpi_data &find_fpi(short tapeId, size_t edf_index) {
   return *current;
 }
 
+// tape one step near the solution
+static void tape_step(const fpi_data &data, const double *x_vals,
+                      const double *u_vals, size_t dim_x, size_t dim_u) {
+  const short last_default_tape_id = currentTape().tapeId();
+  setCurrentTape(data.sub_tape_num);
+  currentTape().ensureContiguousLocations(2 * (dim_u + dim_x));
+  adouble *x_fix_new = new adouble[dim_u + dim_x];
+  adouble *xu_sub_tape = new adouble[dim_u + dim_x];
+
+  // read out x_fix
+  for (size_t i = 0; i < dim_x; ++i)
+    x_fix_new[i] = x_vals[i];
+
+  trace_on(data.sub_tape_num, 1);
+
+  for (size_t i = 0; i < dim_x; ++i)
+    xu_sub_tape[i] <<= x_vals[i];
+
+  for (size_t i = 0; i < dim_u; ++i)
+    xu_sub_tape[dim_x + i] <<= u_vals[i];
+
+  // IMPORTANT: Dont reuse x_fix here. The location of the x_fix's adoubles
+  // could change and the old locations are already stored on the tape. This
+  // would cause errors
+  data.adouble_func(xu_sub_tape, xu_sub_tape + dim_x, x_fix_new, dim_x, dim_u);
+
+  double dummy_out;
+  for (size_t i = 0; i < dim_x; ++i)
+    x_fix_new[i] >>= dummy_out;
+
+  trace_off();
+
+  delete[] xu_sub_tape;
+  delete[] x_fix_new;
+
+  setCurrentTape(last_default_tape_id);
+}
+
 static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
   double err;
   // the vector may grow during the call
@@ -127,7 +165,7 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 
   // the vector may grow during the call
   const fpi_data current = find_fpi(tapeId, edf_index);
-  for (size_t k = 1; (k < current.N_max_deriv) || (k < current.N_max); ++k) {
+  for (size_t k = 1; k <= std::max(current.N_max_deriv, current.N_max); ++k) {
     if (k > 1) {
       for (int i = 0; i < dim_x; ++i)
         xu[i] = x_fix[i];
@@ -138,8 +176,14 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 
     // type signatures of "external driver" and "normal" drivers are not aligned
     // thats why we have to cast...
-    fos_forward(current.sub_tape_num, static_cast<int>(dim_x),
-                static_cast<int>(dim_xu), keep, xu, xu_dot, x_fix, x_fix_dot);
+    if (fos_forward(current.sub_tape_num, static_cast<int>(dim_x),
+                    static_cast<int>(dim_xu), keep, xu, xu_dot, x_fix,
+                    x_fix_dot) < 0) {
+      // the step takes another branch than the taped one
+      tape_step(current, xu, xu + dim_x, dim_x, dim_xu - dim_x);
+      fos_forward(current.sub_tape_num, static_cast<int>(dim_x),
+                  static_cast<int>(dim_xu), keep, xu, xu_dot, x_fix, x_fix_dot);
+    }
 
     for (int i = 0; i < dim_x; ++i)
       xu[i] = x_fix[i] - xu[i];
@@ -159,8 +203,8 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 }
 
 static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
-                          double *x_fix_bar, double *xu_bar, double *,
-                          double *) {
+                          double *x_fix_bar, double *xu_bar, double *xu,
+                          double *x_fix) {
   // (d x_fix) / (d x_0) = 0 (!)
 
   double err = 0.0;
@@ -170,10 +214,20 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   // the vector may grow during the call
   const fpi_data current = find_fpi(tapeId, edf_index);
 
-  double *U = new double[dim_xu];
+  // The sub tape may be used by other calls, and the fixed point may be another
+  // one than that of the taping.
+  std::vector<double> base(x_fix, x_fix + dim_x);
+  base.insert(base.end(), xu + dim_x, xu + dim_xu);
+  std::vector<double> next(dim_x);
+  if (zos_forward(current.sub_tape_num, dim_x, dim_xu, 1, base.data(),
+                  next.data()) < 0)
+    tape_step(current, base.data(), base.data() + dim_x, dim_x,
+              dim_xu - dim_x);
+
+  double *U = new double[dim_xu]();
   double *xi = new double[dim_x];
 
-  for (size_t k = 1; k < current.N_max_deriv; ++k) {
+  for (size_t k = 1; k <= current.N_max_deriv; ++k) {
     for (int i = 0; i < dim_x; ++i)
       xi[i] = U[i];
 
@@ -266,39 +320,7 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
   for (size_t i = 0; i < dim_u; ++i)
     u_vals[i] = xu[dim_x + i].value();
 
-  setCurrentTape(sub_tape_num);
-  currentTape().ensureContiguousLocations(2 * (dim_u + dim_x));
-  adouble *x_fix_new = new adouble[dim_u + dim_x];
-  adouble *xu_sub_tape = new adouble[dim_u + dim_x];
-
-  // read out x_fix
-  for (size_t i = 0; i < dim_x; ++i)
-    x_fix_new[i] = x_vals[i];
-
-  // tape near solution
-  trace_on(sub_tape_num, 1);
-
-  for (size_t i = 0; i < dim_x; ++i)
-    // xu[i] <<= x_fix[i].value();
-    xu_sub_tape[i] <<= x_vals[i];
-
-  for (size_t i = 0; i < dim_u; ++i)
-    // xu[dim_x + i] <<= u[i].value();
-    xu_sub_tape[dim_x + i] <<= u_vals[i];
-
-  // IMPORTANT: Dont reuse x_fix here. The location of the x_fix's adoubles
-  // could change and the old locations are already stored on the tape. This
-  // would cause errors
-  adouble_func(xu_sub_tape, xu_sub_tape + dim_x, x_fix_new, dim_x, dim_u);
-
-  double dummy_out;
-  for (size_t i = 0; i < dim_x; ++i)
-    x_fix_new[i] >>= dummy_out;
-
-  trace_off();
-
-  delete[] xu_sub_tape;
-  delete[] x_fix_new;
+  tape_step(fpi_stack.back(), x_vals.data(), u_vals.data(), dim_x, dim_u);
 
   setCurrentTape(tapeId);
   delete[] xu;
-- 
2.43.0


From 91802e677abc20272456cd78a0eddbb5ea426f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 81/95] fix: a sweep that failed left its tape in use,
 set_param_vec with a wrong count too

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 23 ++++++++++++++++++++++
 ADOL-C/src/fo_rev.cpp                      |  1 +
 ADOL-C/src/ho_rev.cpp                      |  1 +
 ADOL-C/src/tapedoc/tapedoc.cpp             |  1 +
 ADOL-C/src/uni5_for.cpp                    |  5 +++++
 ADOL-C/src/valuetape/valuetape.cpp         |  4 +++-
 6 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 655850c..e29efba 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -16,6 +16,7 @@
 #include <adolc/valuetape/tapeinfos.h>
 #include <cstdarg>
 #include <cstdio>
+#include <exception>
 #include <limits>
 #include <memory>
 #include <stack>
@@ -816,6 +817,28 @@ public:
   }
   // finish a forward or reverse sweep
   void end_sweep();
+
+  /// Ends a sweep that is left by an exception: otherwise the tape would stay
+  /// in use. Taylor coefficients the sweep did not finish writing are discarded.
+  class SweepGuard {
+    ValueTape &tape_;
+    const int pending_{std::uncaught_exceptions()};
+    bool keepsTaylors_{false};
+
+  public:
+    explicit SweepGuard(ValueTape &tape) : tape_(tape) {}
+    SweepGuard(const SweepGuard &) = delete;
+    SweepGuard &operator=(const SweepGuard &) = delete;
+    void keepsTaylors() { keepsTaylors_ = true; }
+    ~SweepGuard() {
+      if (std::uncaught_exceptions() > pending_ &&
+          tape_.workMode() == TapeInfos::READ_ACCESS) {
+        tape_.end_sweep();
+        if (keepsTaylors_)
+          tape_.finish_tay_file();
+      }
+    }
+  };
   // initialization for the taping process -> buffer allocation, sets files
   // names, and calls appropriate setup routines
   void start_trace();
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index bda11fa..d8e6420 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -447,6 +447,7 @@ int int_reverse_safe(
   /*------------------------------------------------------------------------*/
   /* Set up stuff for the tape */
   /* Initialize the Reverse Sweep */
+  ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Reverse>();
 
   if ((to_size_t(depen) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 4fcedc3..0422904 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -402,6 +402,7 @@ int hov_ti_reverse(
   /* Set up stuff for the tape */
 
   /* Initialize the Reverse Sweep */
+  ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Reverse>();
 
   if ((to_size_t(depen) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index db87889..7654da9 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -266,6 +266,7 @@ void tape_doc(short tnum,     /* tape id */
   int i;
   double aDouble;
 #endif
+  ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Forward>();
   tag = tnum;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index c4d756f..8ab5adf 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1093,6 +1093,7 @@ int hov_forward(
   /* Set up stuff for the tape */
 
   /* Initialize the Forward Sweep */
+  ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Forward>();
 
   if ((to_size_t(depcheck) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
@@ -1147,6 +1148,7 @@ int hov_forward(
   if (keep) {
     const size_t taylbuf = tape.tapestats(TapeInfos::TAY_BUFFER_SIZE);
 
+    sweepGuard.keepsTaylors();
     tape.taylor_begin(taylbuf, keep - 1);
   }
 #endif
@@ -1164,6 +1166,7 @@ int hov_forward(
 #if defined(_KEEP_)
   if (keep) {
     const size_t taylbuf = tape.tapestats(TapeInfos::TAY_BUFFER_SIZE);
+    sweepGuard.keepsTaylors();
     tape.taylor_begin(taylbuf, keep - 1);
   }
 #endif
@@ -1234,6 +1237,7 @@ int hov_forward(
 #if defined(_KEEP_)
   if (keep) {
     const size_t taylbuf = tape.tapestats(TapeInfos::TAY_BUFFER_SIZE);
+    sweepGuard.keepsTaylors();
     tape.taylor_begin(taylbuf, keep - 1);
   }
 #endif
@@ -1248,6 +1252,7 @@ int hov_forward(
 #if defined(_KEEP_)
   if (keep) {
     const size_t taylbuf = tape.tapestats(TapeInfos::TAY_BUFFER_SIZE);
+    sweepGuard.keepsTaylors();
     tape.taylor_begin(taylbuf, keep - 1);
   }
 #endif
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index f3105e6..9055b01 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -554,11 +554,13 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
   /* make room for tapeInfos and read tapestats if necessary, keep value
    * stack information */
   openTape();
-  if (tapestats(TapeInfos::NUM_PARAM) != numparam)
+  if (tapestats(TapeInfos::NUM_PARAM) != numparam) {
+    workMode(TapeInfos::NO_MODE);
     fail(PARAM_COUNTS_MISMATCH, CURRENT_LOCATION,
          FailInfo{.info1 = tag,
                   .info5 = numparam,
                   .info6 = tapeInfos_.stats[TapeInfos::NUM_PARAM]});
+  }
   workMode(TapeInfos::WRITE_ACCESS);
 
   if (!paramstore())
-- 
2.43.0


From 8670ab4a259d053cecb6ac34a66a69e40fb90e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 82/95] fix: a failed sparse driver call destroyed the pattern
 a repeated call relies on

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 24 +++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index 04b018d..770b6af 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -685,14 +685,18 @@ int buildJacPatternAndSeed(short tag, int depen, int indep,
                            const double *basepoint) {
 
   ValueTape &tape = findTape(tag);
-  tape.sJInfos().setJP(std::vector<uint *>(depen));
-  std::span<uint *> JPSpan = tape.sJInfos().getJP();
+  // the tape keeps a previous pattern together with its seed if this one fails
+  std::vector<uint *> JP(depen);
+  std::span<uint *> JPSpan{JP};
   int ret_val = jac_pat<SM, CFM, BPPD>(tag, depen, indep, basepoint, JPSpan);
 
   if (ret_val < 0) {
+    for (uint *row : JP)
+      delete[] row;
     printf(" ADOL-C error in sparse_jac() \n");
     return ret_val;
   }
+  tape.sJInfos().setJP(std::move(JP));
 
   tape.sJInfos().depen_ = depen;
   tape.sJInfos().nnzIn_ = 0;
@@ -729,15 +733,19 @@ template <PiecewiseLinear>
 int buildJacPatternAndSeed(short tag, int depen, int indep, int numSwitches,
                            const double *basepoint) {
   auto &tape = findTape(tag);
-  tape.sJInfos().setJP(std::vector<uint *>(depen + numSwitches));
-  std::span<uint *> JPSpan{tape.sJInfos().getJP()};
+  // the tape keeps a previous pattern together with its seed if this one fails
+  std::vector<uint *> JP(depen + numSwitches);
+  std::span<uint *> JPSpan{JP};
 
   int ret_val = jac_pat<PiecewiseLinear{}>(tag, depen, indep, numSwitches,
                                            basepoint, JPSpan);
   if (ret_val < 0) {
+    for (uint *row : JP)
+      delete[] row;
     printf(" ADOL-C error in sparse_jac() \n");
     return ret_val;
   }
+  tape.sJInfos().setJP(std::move(JP));
 
   tape.sJInfos().depen_ = depen + numSwitches;
   tape.sJInfos().nnzIn_ = 0;
@@ -1231,15 +1239,19 @@ int buildHessPatternAndSeed(short tag, int indep, const double *basepoint,
   ValueTape &tape = findTape(tag);
   int ret_val = -1;
   // Generate sparsity pattern, determine nnz, allocate memory
-  tape.sHInfos().setHP(indep, std::vector<uint *>(indep));
-  std::span<uint *> HPSpan = tape.sHInfos().HP_;
+  // the tape keeps a previous pattern together with its seed if this one fails
+  std::vector<uint *> HP(indep);
+  std::span<uint *> HPSpan{HP};
   // generate sparsity pattern
   ret_val = hess_pat<CFM>(tag, indep, basepoint, HPSpan);
 
   if (ret_val < 0) {
+    for (uint *row : HP)
+      delete[] row;
     printf(" ADOL-C error in sparse_hess() \n");
     return ret_val;
   }
+  tape.sHInfos().setHP(indep, std::move(HP));
 
   tape.sHInfos().indep_ = indep;
   tape.sHInfos().nnzIn_ = 0;
-- 
2.43.0


From 0dd79a2449310c3552e674960615715c076536ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 83/95] fix: reverse sweeps after an aborted forward sweep read
 Taylor coefficients that were never written

---
 ADOL-C/src/uni5_for.cpp            | 13 ++++++++++++-
 ADOL-C/src/valuetape/valuetape.cpp |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 8ab5adf..30727f9 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1093,6 +1093,7 @@ int hov_forward(
   /* Set up stuff for the tape */
 
   /* Initialize the Forward Sweep */
+  [[maybe_unused]] bool aborted = false;
   ValueTape::SweepGuard sweepGuard(tape);
   tape.init_sweep<ValueTape::Forward>();
 
@@ -1326,6 +1327,7 @@ int hov_forward(
                   "(operator eq_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -1345,6 +1347,7 @@ int hov_forward(
                   "(operator neq_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -1363,6 +1366,7 @@ int hov_forward(
                   "(operator le_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -1383,6 +1387,7 @@ int hov_forward(
                   "(operator gt_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -1401,6 +1406,7 @@ int hov_forward(
                   "(operator ge_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -1421,6 +1427,7 @@ int hov_forward(
                   "(operator lt_zero).\n"
                   "Forward sweep aborted! Retaping recommended!\n");
         ret_c = -1;
+        aborted = true;
         operation = end_of_tape;
         continue;
       }
@@ -5916,8 +5923,12 @@ int hov_forward(
 #endif /* ADOLC_DEBUG */
 
 #if defined(_KEEP_)
-  if (keep)
+  if (keep) {
     tape.taylor_close();
+    // an aborted sweep leaves nothing a reverse sweep could use
+    if (aborted)
+      tape.finish_tay_file();
+  }
 #endif
 
   /* clean up */
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 9055b01..f4814eb 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -226,6 +226,8 @@ void ValueTape::finish_tay_file() {
   if (tapeInfos_.tayBuffer_.file() != nullptr) {
     tapeInfos_.tayBuffer_.closeFile();
     remove(tay_fileName());
+    // nothing is left that taylor_back could read
+    tapeInfos_.tayBuffer_.numOnTape(0);
   }
   return;
 }
-- 
2.43.0


From 86b60d444d766ea0972e1b1998835034172f7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 84/95] fix: external function calls that are refused left an
 incomplete operation on the tape

---
 ADOL-C/src/externfcts.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 333afee..3d0ea25 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -47,20 +47,18 @@ ext_diff_fct *reg_ext_fct(short tapeId, short extTapeId,
 }
 
 void check_input(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
+  if (!edfct)
+    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_STRUCT,
+                     CURRENT_LOCATION);
   if (xa[n - 1].loc() - xa[0].loc() != to_size_t(n - 1) ||
       ya[m - 1].loc() - ya[0].loc() != to_size_t(m - 1))
     ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
                      CURRENT_LOCATION);
-  if (!edfct)
-    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_STRUCT,
-                     CURRENT_LOCATION);
 }
 
 void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
                               adouble *ya, double *&vals) {
 
-  check_input(edfct, n, xa, m, ya);
-
   ValueTape &tape = findTape(edfct->tapeId);
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
@@ -125,6 +123,8 @@ int call_ext_fct(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
   double *y = nullptr;
   assert(n >= 0);
   assert(m >= 0);
+  // nothing may be on the tape if the call is refused
+  check_input(edfct, n, xa, m, ya);
 
   ValueTape &tape = findTape(edfct->tapeId);
 
@@ -158,6 +158,7 @@ int call_ext_fct(ext_diff_fct *edfct, size_t iArrLength, size_t *iArr, int n,
   double *y = nullptr;
   assert(n >= 0);
   assert(m >= 0);
+  check_input(edfct, n, xa, m, ya);
 
   ValueTape &tape = findTape(edfct->tapeId);
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
-- 
2.43.0


From 90285dd6b83948f6594137260f0a3a8d31725fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 85/95] fix: trace_on on a tape in use changed the current tape
 before failing

---
 ADOL-C/src/tape_interface.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index bdb52ee..fc80936 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -39,11 +39,11 @@
 int trace_on(short tapeId, int keepTaylors) {
 
   ValueTape &tape = findTape(tapeId);
+  // fails if the tape is in use; nothing may have changed then
+  int retval = tape.initNewTape();
   // store Id to restore it after trace_off
   currentTapeStack().push(currentTapePtr());
   setCurrentTape(tapeId);
-
-  int retval = tape.initNewTape();
 #ifdef ADOLC_MEDIPACK_SUPPORT
   tape.mediInitTape(tapeId);
 #endif
@@ -63,11 +63,11 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
              size_t tbs, int skipFileCleanup) {
 
   ValueTape &tape = findTape(tapeId);
+  // fails if the tape is in use; nothing may have changed then
+  int retval = tape.initNewTape();
   // store Id to restore it after trace_off
   currentTapeStack().push(currentTapePtr());
   setCurrentTape(tapeId);
-
-  int retval = tape.initNewTape();
 #ifdef ADOLC_MEDIPACK_SUPPORT
   tape.mediInitTape(tapeId);
 #endif
-- 
2.43.0


From 416dc52f4bd8c8ca6a32800526ae19a839d59f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 86/95] fix: lookupindex never noticed a decreasing vector

---
 ADOL-C/src/advector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index cf1219f..d3a892a 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -438,8 +438,10 @@ void condeqassign(adubref &res, const adouble &cond, const adouble &arg) {
 bool advector::nondecreasing() const {
   bool ret = true;
   double last = -ADOLC_MATH_NSP::numeric_limits<double>::infinity();
-  for (const auto &a : data_)
+  for (const auto &a : data_) {
     ret = ret && (a.value() >= last);
+    last = a.value();
+  }
   return ret;
 }
 
-- 
2.43.0


From 8910c2d0421ab375b92480f725340e2a0c33792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 87/95] fix: subscripts out of bounds were recorded before they
 were refused

---
 ADOL-C/src/advector.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index d3a892a..c094510 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -465,6 +465,9 @@ adouble advector::operator[](const adouble &index) const {
   ensureContiguous();
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
+  if (idx >= size())
+    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
+                     ADOLCError::FailInfo{.info5 = size(), .info6 = idx});
   adouble ret_adouble;
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
@@ -480,10 +483,6 @@ adouble advector::operator[](const adouble &index) const {
       tape.write_scaylor(ret_adouble.value());
   }
 
-  if (idx >= size())
-    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
-                     ADOLCError::FailInfo{.info5 = size(), .info6 = idx});
-
   ret_adouble.value(data_[idx].value());
   return ret_adouble;
 }
@@ -492,8 +491,11 @@ adubref advector::operator[](const adouble &index) {
   ensureContiguous();
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
-  size_t locat = tape.next_loc();
   size_t n = data_.size();
+  if (idx >= n)
+    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
+                     ADOLCError::FailInfo{.info5 = n, .info6 = idx});
+  size_t locat = tape.next_loc();
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
     tape.put_op(subscript_ref);
     tape.put_loc(index.loc());
@@ -506,10 +508,6 @@ adubref advector::operator[](const adouble &index) {
       tape.write_scaylor(tape.get_ad_value(locat));
   }
 
-  if (idx >= n)
-    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
-                     ADOLCError::FailInfo{.info5 = n, .info6 = idx});
-
   tape.set_ad_value(locat, static_cast<double>(data_[idx].loc()));
   return adubref(locat, data_[idx].loc());
 }
-- 
2.43.0


From a091a65ad157e5614e475751bda0465fabf68b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:38 +0000
Subject: [PATCH 88/95] fix: free_short_mat released an array with delete and
 left its rows

---
 ADOL-C/c_interface/array_handler.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/c_interface/array_handler.cpp b/ADOL-C/c_interface/array_handler.cpp
index 597b19b..7cdfca9 100644
--- a/ADOL-C/c_interface/array_handler.cpp
+++ b/ADOL-C/c_interface/array_handler.cpp
@@ -1,4 +1,5 @@
 #include "array_handler.h"
+#include <cstddef>
 
 /*
 Setter and getter for vectors, matrizes and tensors.
@@ -23,12 +24,21 @@ void setindex_tens(double ***A, const double val, const int dim, const int row,
   A[dim][row][col] = val;
 }
 
+// All entries are in one block, which starts with the first row.
 short **alloc_short_mat(const int rows, const int cols) {
+  if (rows <= 0)
+    return nullptr;
   short **s = new short *[rows];
-  for (int i = 0; i < rows; i++) {
-    s[i] = new short[cols];
+  s[0] = new short[static_cast<size_t>(rows) * cols];
+  for (int i = 1; i < rows; i++) {
+    s[i] = s[i - 1] + cols;
   }
   return s;
 }
-void free_short_mat(short **s) { delete s; }
+void free_short_mat(short **s) {
+  if (s == nullptr)
+    return;
+  delete[] s[0];
+  delete[] s;
+}
 }
\ No newline at end of file
-- 
2.43.0


From 53e337c99de57f12f7cd8571016e39aa8b00cfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:43 +0000
Subject: [PATCH 89/95] fix: adolc_tb_free_on_tape changed the current tape

---
 ADOL-C/c_interface/ADOLC_TB_interface.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/c_interface/ADOLC_TB_interface.cpp b/ADOL-C/c_interface/ADOLC_TB_interface.cpp
index cdad104..c348ef7 100644
--- a/ADOL-C/c_interface/ADOLC_TB_interface.cpp
+++ b/ADOL-C/c_interface/ADOLC_TB_interface.cpp
@@ -42,8 +42,13 @@ void adolc_tb_free_on_tape(const short tape_id, const tape_loc v) {
   }
   assert(findTapePtr_(tape_id) != nullptr &&
          "adolc_tb_free_on_tape: tape_id does not exist");
+  // freeing must not redirect a recording to another tape
+  ValueTape *const last = currentTapePtr();
   setCurrentTape(tape_id);
-  tape_location<adouble> owning_loc(v.loc, tape_location<adouble>::OWNING);
+  {
+    tape_location<adouble> owning_loc(v.loc, tape_location<adouble>::OWNING);
+  }
+  setCurrentTape(last);
 }
 
 double adolc_tb_value(const tape_loc v) { return borrow(v).value(); }
-- 
2.43.0


From dc94f85dee827ed2a48324a40f58e9d75b6fca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:47 +0000
Subject: [PATCH 90/95] fix: adolc_tb_d_le held for NaN

---
 ADOL-C/c_interface/ADOLC_TB_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/c_interface/ADOLC_TB_interface.cpp b/ADOL-C/c_interface/ADOLC_TB_interface.cpp
index c348ef7..657b299 100644
--- a/ADOL-C/c_interface/ADOLC_TB_interface.cpp
+++ b/ADOL-C/c_interface/ADOLC_TB_interface.cpp
@@ -325,7 +325,7 @@ bool adolc_tb_d_g(const double x, const tape_loc a) {
 }
 bool adolc_tb_d_le(const double x, const tape_loc a) {
   adouble aa = borrow(a);
-  return !(x > aa);
+  return x <= aa;
 }
 bool adolc_tb_d_l(const double x, const tape_loc a) {
   adouble aa = borrow(a);
-- 
2.43.0


From 8513fdaafed9d9f1780bee9ee5e2d23baa224526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 91/95] fix: frexp of a temporary left its argument on the tape

---
 ADOL-C/include/adolc/adtb_types.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 13247c3..8ad1c1c 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1026,8 +1026,7 @@ ADOLC_API inline adouble frexp(const adouble &a, int *exp) {
 }
 ADOLC_API inline adouble frexp(adouble &&a, int *exp) {
   const double coval = std::frexp(a.value(), exp);
-  a.value(coval);
-  return a;
+  return adouble(coval);
 }
 
 /*---------------------------------------------------------------*/
-- 
2.43.0


From e2485b568438ed3f400b98c19d678a8ddc4fa5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 92/95] fix: stream input of active variables was declared for
 const operands only

---
 ADOL-C/include/adolc/adtb_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 8ad1c1c..65b67cb 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -581,7 +581,7 @@ ADOLC_API inline void operator>>=(std::span<adouble> deps,
 }
 
 ADOLC_API std::ostream &operator<<(std::ostream &, const adouble &);
-ADOLC_API std::istream &operator>>(std::istream &, const adouble &);
+ADOLC_API std::istream &operator>>(std::istream &, adouble &);
 
 /**
  * ADOUBLE ARTIHEMTICS
-- 
2.43.0


From 94f071cdd7f302a2652282cb584d0d4c49ee4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:59 +0000
Subject: [PATCH 93/95] fix: atan2 with a zero first and a negative second
 argument was -pi

---
 ADOL-C/include/adolc/adtb_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 65b67cb..ba0f623 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1093,7 +1093,7 @@ ADOLC_API inline adouble pow(const adouble &a, const adouble &b) {
 ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
   adouble a1, a2, ret, sy;
   const double pihalf = ADOLC_MATH_NSP::asin(1.0);
-  condassign(sy, a, adouble{1.0}, adouble{-1.0});
+  condeqassign(sy, a, adouble{1.0}, adouble{-1.0});
   condassign(a1, b, atan(a / b), atan(a / b) + sy * 2 * pihalf);
   condassign(a2, fabs(a), sy * pihalf - atan(b / a), adouble{0.0});
   condassign(ret, fabs(b) - fabs(a), a1, a2);
-- 
2.43.0


From 4bbd49139e8e8ee5f9e88a4a43466f25e86325e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:39 +0000
Subject: [PATCH 94/95] fix: tape_doc did not know a third of the operations
 and lost its place

---
 ADOL-C/src/tapedoc/tapedoc.cpp | 230 +++++++++++++++++++++++++++++++++
 1 file changed, 230 insertions(+)

diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 7654da9..4076fdc 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -1318,6 +1318,236 @@ void tape_doc(short tnum,     /* tape id */
       tape.get_locint_f(); /* nout again */
       filewrite(operation, "extern diff v2", 3, loc_a, 0, cst_d);
       break;
+
+      /*--------------------------------------------------------------------------*/
+    case assign_p: /* assign_p */
+      loc_a[0] = tape.get_locint_f(); /* parameter */
+      loc_a[1] = tape.get_locint_f(); /* res */
+      filewrite(operation, "assign p", 2, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case cond_eq_assign: /* cond_eq_assign */
+      loc_a[0] = tape.get_locint_f(); /* cond */
+      loc_a[1] = tape.get_locint_f(); /* arg1 */
+      loc_a[2] = tape.get_locint_f(); /* arg2 */
+      loc_a[3] = tape.get_locint_f(); /* res */
+      cst_d[0] = tape.get_val_f();
+      filewrite(operation, "cond eq assign", 4, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case cond_eq_assign_s: /* cond_eq_assign_s */
+      loc_a[0] = tape.get_locint_f(); /* cond */
+      loc_a[1] = tape.get_locint_f(); /* arg1 */
+      loc_a[2] = tape.get_locint_f(); /* res */
+      cst_d[0] = tape.get_val_f();
+      filewrite(operation, "cond eq assign s", 3, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case eq_a_a: /* eq_a_a */
+      cst_d[0] = tape.get_val_f();
+      loc_a[0] = tape.get_locint_f(); /* arg1 */
+      loc_a[1] = tape.get_locint_f(); /* arg2 */
+      loc_a[2] = tape.get_locint_f(); /* res */
+      filewrite(operation, "eq a a", 3, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case neq_a_a: /* neq_a_a */
+      cst_d[0] = tape.get_val_f();
+      loc_a[0] = tape.get_locint_f(); /* arg1 */
+      loc_a[1] = tape.get_locint_f(); /* arg2 */
+      loc_a[2] = tape.get_locint_f(); /* res */
+      filewrite(operation, "neq a a", 3, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case le_a_a: /* le_a_a */
+      cst_d[0] = tape.get_val_f();
+      loc_a[0] = tape.get_locint_f(); /* arg1 */
+      loc_a[1] = tape.get_locint_f(); /* arg2 */
+      loc_a[2] = tape.get_locint_f(); /* res */
+      filewrite(operation, "le a a", 3, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case gt_a_a: /* gt_a_a */
+      cst_d[0] = tape.get_val_f();
+      loc_a[0] = tape.get_locint_f(); /* arg1 */
+      loc_a[1] = tape.get_locint_f(); /* arg2 */
+      loc_a[2] = tape.get_locint_f(); /* res */
+      filewrite(operation, "gt a a", 3, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ge_a_a: /* ge_a_a */
+      cst_d[0] = tape.get_val_f();
+      loc_a[0] = tape.get_locint_f(); /* arg1 */
+      loc_a[1] = tape.get_locint_f(); /* arg2 */
+      loc_a[2] = tape.get_locint_f(); /* res */
+      filewrite(operation, "ge a a", 3, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case lt_a_a: /* lt_a_a */
+      cst_d[0] = tape.get_val_f();
+      loc_a[0] = tape.get_locint_f(); /* arg1 */
+      loc_a[1] = tape.get_locint_f(); /* arg2 */
+      loc_a[2] = tape.get_locint_f(); /* res */
+      filewrite(operation, "lt a a", 3, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case subscript: /* subscript */
+      cst_d[0] = tape.get_val_f();
+      loc_a[0] = tape.get_locint_f(); /* index */
+      loc_a[1] = tape.get_locint_f(); /* first element */
+      loc_a[2] = tape.get_locint_f(); /* res */
+      filewrite(operation, "subscript", 3, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case subscript_ref: /* subscript_ref */
+      cst_d[0] = tape.get_val_f();
+      loc_a[0] = tape.get_locint_f(); /* index */
+      loc_a[1] = tape.get_locint_f(); /* first element */
+      loc_a[2] = tape.get_locint_f(); /* res */
+      filewrite(operation, "subscript ref", 3, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_copyout: /* ref_copyout */
+      loc_a[0] = tape.get_locint_f(); /* ref */
+      loc_a[1] = tape.get_locint_f(); /* res */
+      filewrite(operation, "ref copyout", 2, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_assign_d_zero: /* ref_assign_d_zero */
+      loc_a[0] = tape.get_locint_f(); /* ref */
+      filewrite(operation, "ref assign d zero", 1, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_assign_d_one: /* ref_assign_d_one */
+      loc_a[0] = tape.get_locint_f(); /* ref */
+      filewrite(operation, "ref assign d one", 1, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_assign_ind: /* ref_assign_ind */
+      loc_a[0] = tape.get_locint_f(); /* ref */
+      filewrite(operation, "ref assign ind", 1, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_incr_a: /* ref_incr_a */
+      loc_a[0] = tape.get_locint_f(); /* ref */
+      filewrite(operation, "ref incr a", 1, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_decr_a: /* ref_decr_a */
+      loc_a[0] = tape.get_locint_f(); /* ref */
+      filewrite(operation, "ref decr a", 1, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_assign_d: /* ref_assign_d */
+      loc_a[0] = tape.get_locint_f(); /* ref */
+      cst_d[0] = tape.get_val_f();
+      filewrite(operation, "ref assign d", 1, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_eq_plus_d: /* ref_eq_plus_d */
+      loc_a[0] = tape.get_locint_f(); /* ref */
+      cst_d[0] = tape.get_val_f();
+      filewrite(operation, "ref eq plus d", 1, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_eq_min_d: /* ref_eq_min_d */
+      loc_a[0] = tape.get_locint_f(); /* ref */
+      cst_d[0] = tape.get_val_f();
+      filewrite(operation, "ref eq min d", 1, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_eq_mult_d: /* ref_eq_mult_d */
+      loc_a[0] = tape.get_locint_f(); /* ref */
+      cst_d[0] = tape.get_val_f();
+      filewrite(operation, "ref eq mult d", 1, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_assign_a: /* ref_assign_a */
+      loc_a[0] = tape.get_locint_f(); /* arg */
+      loc_a[1] = tape.get_locint_f(); /* ref */
+      filewrite(operation, "ref assign a", 2, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_eq_plus_a: /* ref_eq_plus_a */
+      loc_a[0] = tape.get_locint_f(); /* arg */
+      loc_a[1] = tape.get_locint_f(); /* ref */
+      filewrite(operation, "ref eq plus a", 2, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_eq_min_a: /* ref_eq_min_a */
+      loc_a[0] = tape.get_locint_f(); /* arg */
+      loc_a[1] = tape.get_locint_f(); /* ref */
+      filewrite(operation, "ref eq min a", 2, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_eq_mult_a: /* ref_eq_mult_a */
+      loc_a[0] = tape.get_locint_f(); /* arg */
+      loc_a[1] = tape.get_locint_f(); /* ref */
+      filewrite(operation, "ref eq mult a", 2, loc_a, 0, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_cond_assign: /* ref_cond_assign */
+      loc_a[0] = tape.get_locint_f(); /* cond */
+      loc_a[1] = tape.get_locint_f(); /* arg1 */
+      loc_a[2] = tape.get_locint_f(); /* arg2 */
+      loc_a[3] = tape.get_locint_f(); /* ref */
+      cst_d[0] = tape.get_val_f();
+      filewrite(operation, "ref cond assign", 4, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_cond_assign_s: /* ref_cond_assign_s */
+      loc_a[0] = tape.get_locint_f(); /* cond */
+      loc_a[1] = tape.get_locint_f(); /* arg1 */
+      loc_a[2] = tape.get_locint_f(); /* ref */
+      cst_d[0] = tape.get_val_f();
+      filewrite(operation, "ref cond assign s", 3, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_cond_eq_assign: /* ref_cond_eq_assign */
+      loc_a[0] = tape.get_locint_f(); /* cond */
+      loc_a[1] = tape.get_locint_f(); /* arg1 */
+      loc_a[2] = tape.get_locint_f(); /* arg2 */
+      loc_a[3] = tape.get_locint_f(); /* ref */
+      cst_d[0] = tape.get_val_f();
+      filewrite(operation, "ref cond eq assign", 4, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case ref_cond_eq_assign_s: /* ref_cond_eq_assign_s */
+      loc_a[0] = tape.get_locint_f(); /* cond */
+      loc_a[1] = tape.get_locint_f(); /* arg1 */
+      loc_a[2] = tape.get_locint_f(); /* ref */
+      cst_d[0] = tape.get_val_f();
+      filewrite(operation, "ref cond eq assign s", 3, loc_a, 1, cst_d);
+      break;
+
 #ifdef ADOLC_MEDIPACK_SUPPORT
       /*--------------------------------------------------------------------------*/
     case medi_call:
-- 
2.43.0


From 604fcc11edadc3cefb7fb4175619d2c2aca974eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:28 +0000
Subject: [PATCH 95/95] fix: location buffers up to the size of the statistics
 corrupted the tape

---
 ADOL-C/src/valuetape/valuetape.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index f4814eb..093e7aa 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -334,8 +334,13 @@ void ValueTape::start_trace() {
     ADOLCError::fail(ADOLCError::ErrorType::MORE_STAT_SPACE_REQUIRED,
                      CURRENT_LOCATION);
 
-  for (size_t i = 0; i < statSpace; ++i)
+  // full blocks are skipped when the tape is read, see prepare_for
+  for (size_t i = 0; i < statSpace; ++i) {
     put_loc(0);
+    if (tapeInfos_.locBuffer_.remainingCapacity() == 0)
+      tapeInfos_.put_block<LocInfo<TapeInfos, ErrorType>>(
+          perTapeInfos_.loc_fileName, tapeInfos_.locBuffer_.capacity());
+  }
 
   /* initialize value stack if necessary */
   if (keepTaylors())
-- 
2.43.0

