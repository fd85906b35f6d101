From 94b7545ed4215f72c4ba190795f4d73bf10edc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 01/46] fix: poly_fmult, poly_fmult2x2 and poly_fmult3x3 return
 the factor itself for n=1

ret_code was returned uninitialised and the result buffer was never written when only one factor was given.
---
 src/private/fnft__poly_fmult.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/private/fnft__poly_fmult.c b/src/private/fnft__poly_fmult.c
index 830a8ee..d5c96f3 100644
--- a/src/private/fnft__poly_fmult.c
+++ b/src/private/fnft__poly_fmult.c
@@ -147,7 +147,7 @@ INT fnft__poly_fmult(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Pad with z^deg if n is not a power of two
     const UINT n_excess = misc_nextpowerof2(n) - n;
@@ -613,7 +613,7 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -678,6 +678,10 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // A single factor is already the result, the main loop does nothing then
+    if (n == 1)
+        memcpy(result, p, 4*p_stride*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
@@ -783,7 +787,7 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -889,6 +893,10 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // A single factor is already the result, the main loop does nothing then
+    if (n == 1)
+        memcpy(result, p, 9*p_stride*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
-- 
2.43.0


From e1d5458c3d9df2bf7028ac63fe4c7a6da74d08c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 02/46] fix: akns_scatter_bound_states initialises the scaling
 factors at both ends and checks the second allocation

---
 src/private/fnft__akns_scatter.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 396db69..d3cc4a7 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -496,7 +496,10 @@ INT akns_scatter_bound_states(UINT const D,
         WPHI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
-        CHECK_NOMEM(WPHI, ret_code, leave_fun);
+        CHECK_NOMEM(WPSI, ret_code, leave_fun);
+        // The initial conditions at the boundaries are not scaled
+        WPHI[0] = 0;
+        WPSI[D_given] = 0;
     }
 
     // Define stepsize constants that are often needed
-- 
2.43.0


From 515b39a109b5cd41d96045feb217d0da5c655406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 03/46] fix: derivative of the slow scattering matrix at
 removable singularities (qr = lambda^2)

---
 src/private/fnft__akns_scatter.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index d3cc4a7..3011eaa 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -47,14 +47,14 @@ static inline void akns_scatter_U_BO(COMPLEX const qn,
         U[5] = ch + u1;
         memcpy(&U[10],&U[0],6 * sizeof(COMPLEX)); // lower right block
 
-        COMPLEX const chi = ch/ks;
-        COMPLEX const ud1 = eps_t*ln2*chi*I;
-        COMPLEX const ud2 = misc_CSINC_derivative(I*eps_t*k)*I*ln*eps_t*eps_t/k;
+        // ud2 = ln*(eps_t*ch - sh)/ks, whose limit for k->0 is ln*eps_t^3/3
+        COMPLEX const ud2 = (k == 0.0) ? ln*eps_t*eps_t*eps_t/3.0
+            : misc_CSINC_derivative(I*eps_t*k)*I*ln*eps_t*eps_t/k;
 
-        U[8]  = ud1 - ( ln*eps_t + I + (ln2*I)/ks )*sh;
+        U[8]  = I*ln*ud2 - ( ln*eps_t + I )*sh;
         U[9]  = -qn*ud2;
         U[12] = -rn*ud2;
-        U[13] = -ud1 - ( ln*eps_t - I - (ln2*I)/ks )*sh;
+        U[13] = -I*ln*ud2 - ( ln*eps_t - I )*sh;
     } else {
         U[2] = rn*sh;
         U[3] = ch + u1;
@@ -78,10 +78,10 @@ static inline void akns_scatter_U_ES4(COMPLEX const a1,
         U[5] = c - s*a3;
         memcpy(&U[10],&U[0],6 * sizeof(COMPLEX)); // lower right block
 
-        COMPLEX w_d = -(a1*tmp2[0]+a2*tmp2[1]+a3*tmp2[2]);
+        COMPLEX const w_d = -(a1*tmp2[0]+a2*tmp2[1]+a3*tmp2[2]);
         COMPLEX const c_d = -misc_CSINC(w)*w_d;
-        w_d /= w;
-        COMPLEX const s_d = w_d * misc_CSINC_derivative(w);
+        // misc_CSINC_derivative(w)/w -> -1/3 for w -> 0
+        COMPLEX const s_d = (w == 0.0) ? -w_d/3.0 : w_d/w * misc_CSINC_derivative(w);
         U[8] = c_d+s_d*a3+s*tmp2[2];
         U[9] = s_d*a1+s*tmp2[0]-I*s_d*a2-I*s*tmp2[1];
         U[12] = s_d*a1+s*tmp2[0]+I*s_d*a2+I*s*tmp2[1];
-- 
2.43.0


From 4aa410e6fb07cf71d36d3d2a3d522b6e625f259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 04/46] fix: phase_factor_rho rejects unknown discretizations
 (comparison with NAN is always false)

---
 src/private/fnft__kdv_discretization.c | 2 +-
 src/private/fnft__nse_discretization.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__kdv_discretization.c b/src/private/fnft__kdv_discretization.c
index 64e9ae1..3233226 100644
--- a/src/private/fnft__kdv_discretization.c
+++ b/src/private/fnft__kdv_discretization.c
@@ -272,7 +272,7 @@ INT fnft__kdv_discretization_phase_factor_rho(const REAL eps_t, const REAL T1,
 {
     REAL boundary_coeff;
     boundary_coeff = kdv_discretization_boundary_coeff(kdv_discretization);
-    if (boundary_coeff == NAN)
+    if (isnan(boundary_coeff))
         return E_INVALID_ARGUMENT(kdv_discretization);
     *phase_factor_rho = -2.0*(T1 + eps_t*boundary_coeff);
     return SUCCESS;
diff --git a/src/private/fnft__nse_discretization.c b/src/private/fnft__nse_discretization.c
index 4db9e57..6b646ac 100644
--- a/src/private/fnft__nse_discretization.c
+++ b/src/private/fnft__nse_discretization.c
@@ -245,7 +245,7 @@ INT fnft__nse_discretization_phase_factor_rho(const REAL eps_t, const REAL T1,
 {
     REAL boundary_coeff;
     boundary_coeff = nse_discretization_boundary_coeff(nse_discretization);
-    if (boundary_coeff == NAN)
+    if (isnan(boundary_coeff))
         return E_INVALID_ARGUMENT(nse_discretization);
     if (nse_discretization == nse_discretization_2SPLIT2A ||
         nse_discretization == nse_discretization_2SPLIT2_MODAL) {
-- 
2.43.0


From c6e0c85c3b19e5f476412b4e9bbe67a072d46f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 05/46] fix: manakov method order of BO (2) and CF4_2 (4)
 reported as unknown

---
 src/private/fnft__manakov_discretization.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index ca07500..a387483 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -91,6 +91,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_2SPLIT4B:
         case manakov_discretization_2SPLIT4A:
         case manakov_discretization_2SPLIT6B:
+        case manakov_discretization_BO:
             return 2;
         case manakov_discretization_4SPLIT4A:
         case manakov_discretization_4SPLIT4B:
@@ -98,6 +99,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_FTES4_4A:
         case manakov_discretization_FTES4_4B:
 		case manakov_discretization_FTES4_suzuki:
+        case manakov_discretization_CF4_2:
             return 4;
 
         default: // discretization not implemented for manakov
-- 
2.43.0


From da7b9b462a18bb98c45c7c72836fe6a6fef7e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 06/46] fix: slow Manakov scattering returned NaN where
 lambda^2 + kappa*(|q1|^2+|q2|^2) = 0

---
 src/private/fnft__manakov_scatter.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/private/fnft__manakov_scatter.c b/src/private/fnft__manakov_scatter.c
index 4d63958..ed2729a 100644
--- a/src/private/fnft__manakov_scatter.c
+++ b/src/private/fnft__manakov_scatter.c
@@ -52,18 +52,19 @@ static inline void manakov_scatter_U_BO(COMPLEX const q1,       // calculates th
     COMPLEX x1 = CSQRT(lam*lam + kappa*q1*CONJ(q1) + kappa*q2*CONJ(q2));
     COMPLEX x2  = eps_t*x1*I;
     COMPLEX x3 = q1*CONJ(q1)+q2*CONJ(q2);
+    COMPLEX sh = I*eps_t*misc_CSINC(eps_t*x1); // = CSINH(x2)/x1, also for x1 = 0
 
-        U[0] = -(lam/x1)*CSINH(x2)+CCOSH(x2);
-        U[1] = -(I*q1/x1)*CSINH(x2);
-        U[2] = -(I*q2/x1)*CSINH(x2);
+        U[0] = -lam*sh+CCOSH(x2);
+        U[1] = -(I*q1)*sh;
+        U[2] = -(I*q2)*sh;
 
-        U[3] = (I*kappa*CONJ(q1)/x1)*CSINH(x2);
-        U[4] = (q1*CONJ(q1)/x3)*(CCOSH(x2) + (lam/x1)*CSINH(x2)) + q2*CONJ(q2)*CEXP(eps_t*lam*I)/x3;
-        U[5] = (q2*CONJ(q1)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + (lam/x1)*CSINH(x2));
+        U[3] = (I*kappa*CONJ(q1))*sh;
+        U[4] = (q1*CONJ(q1)/x3)*(CCOSH(x2) + lam*sh) + q2*CONJ(q2)*CEXP(eps_t*lam*I)/x3;
+        U[5] = (q2*CONJ(q1)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + lam*sh);
 
-        U[6] = (I*kappa*CONJ(q2)/x1)*CSINH(x2);
-        U[7] = (q1*CONJ(q2)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + (lam/x1)*CSINH(x2));
-        U[8] = (q2*CONJ(q2)/x3)*(CCOSH(x2) + (lam/x1)*CSINH(x2)) + q1*CONJ(q1)*CEXP(eps_t*lam*I)/x3;
+        U[6] = (I*kappa*CONJ(q2))*sh;
+        U[7] = (q1*CONJ(q2)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + lam*sh);
+        U[8] = (q2*CONJ(q2)/x3)*(CCOSH(x2) + lam*sh) + q1*CONJ(q1)*CEXP(eps_t*lam*I)/x3;
     }
 
 }
-- 
2.43.0


From 7b1dd12f4385f9cc7bccf725b83945802cb1f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 07/46] fix: poly_evalderiv returned NaN for constant
 polynomials outside the unit disk (deg - 1 wrapped around)

---
 src/private/fnft__poly_eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__poly_eval.c b/src/private/fnft__poly_eval.c
index 001a88b..e9d42d1 100644
--- a/src/private/fnft__poly_eval.c
+++ b/src/private/fnft__poly_eval.c
@@ -83,7 +83,7 @@ INT poly_evalderiv(const UINT deg, COMPLEX const * const p, \
                 tmp2 = tmp + tmp2/z[i];
                 tmp = p[deg - j] + tmp/z[i];
             }
-            deriv[i] = CPOW(z[i], deg - 1)*(deg*tmp - tmp2/z[i]);
+            deriv[i] = CPOW(z[i], (REAL)deg - 1)*(deg*tmp - tmp2/z[i]);
             z[i] = tmp * CPOW(z[i], deg);
         }
     }
-- 
2.43.0


From 34a8a7c69b2152a489c6337395e4b19c2bc756cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:03 +0000
Subject: [PATCH 08/46] fix: accept two samples in misc_downsample and
 misc_resample as documented

---
 src/private/fnft__misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__misc.c b/src/private/fnft__misc.c
index 43d24dc..1eb21d4 100644
--- a/src/private/fnft__misc.c
+++ b/src/private/fnft__misc.c
@@ -257,7 +257,7 @@ INT misc_downsample(const UINT D, COMPLEX const * const q,
 {
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (D <= 2)
+    if (D < 2)
         return E_INVALID_ARGUMENT(D);
     if (qsub_ptr == NULL)
         return E_INVALID_ARGUMENT(qsub_ptr);
@@ -310,7 +310,7 @@ INT misc_resample(const UINT D, const REAL eps_t, COMPLEX const * const q,
 {
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (D <= 2)
+    if (D < 2)
         return E_INVALID_ARGUMENT(D);
     if (q_new == NULL)
         return E_INVALID_ARGUMENT(q_new);
-- 
2.43.0


From d118895ef03f4f9a44a2f24495d2ec91ddd21c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 09/46] fix: scale a and b instead of the transfer matrix for
 slow methods (reflection coefficient was NaN when a and b overflow)

---
 src/fnft_nsev.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 2e491e8..2944f74 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -848,11 +848,6 @@ static inline INT nsev_compute_contspec(
         for (i = 0; i < M; i++){
             H11_vals[i] = scatter_coeffs[i*4];
             H21_vals[i] = scatter_coeffs[i*4+2];
-            if (opts->normalization_flag) {
-                const REAL scl = POW(2, Ws[i]);
-                H11_vals[i] *= scl;
-                H21_vals[i] *= scl;
-            }
         }
 
     }else{
@@ -913,6 +908,11 @@ static inline INT nsev_compute_contspec(
             CHECK_RETCODE(ret_code, leave_fun);
 
             for (i = 0; i < M; i++) {
+                // Slow methods return individual scaling exponents. (They cannot
+                // be applied earlier since the reflection coefficient can be
+                // finite even if a and b overflow.)
+                if (Ws != NULL)
+                    scale = POW(2, Ws[i]);
                 result[offset + i] = H11_vals[i] * scale * CEXP(I*xi[i]*phase_factor_a);
                 result[offset + M + i] = H21_vals[i] * scale * CEXP(I*xi[i]*phase_factor_b);
             }
-- 
2.43.0


From 3b2c03e5bd4e45ddfba657295c22d4f82e002cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:38 +0000
Subject: [PATCH 10/46] fix: fnft_nsev no longer changes opts (or the default
 options) when a step fails

---
 src/fnft_nsev.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 2944f74..b1d0e76 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -185,6 +185,10 @@ INT fnft_nsev(
     }
     if (opts == NULL)
         opts = &default_opts;
+    // Some options are changed temporarily below. Work on a copy such that
+    // neither the options of the user nor the default options are affected.
+    fnft_nsev_opts_t opts_copy = *opts;
+    opts = &opts_copy;
 
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
-- 
2.43.0


From 8e65eee90c729e00fd4ee5f60e95b1c41ad5f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 11/46] fix: fnft_nsev with Richardson extrapolation and
 residues wrote beyond normconsts_or_residues; missing NULL checks

---
 src/fnft_nsev.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index b1d0e76..382747d 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -263,7 +263,9 @@ INT fnft_nsev(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == nsev_dstype_RESIDUES){
+        if (ds_type_opt == nsev_dstype_RESIDUES && kappa == +1
+                && bound_states != NULL && normconsts_or_residues != NULL
+                && *K_ptr != 0){
             opts->discspec_type = nsev_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -321,7 +323,7 @@ INT fnft_nsev(
         opts->bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE;
     } else {
         ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                    bound_states, normconsts_or_residues, kappa, opts);
+                    bound_states, normconsts_or_residues_reserve, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
     }
 
@@ -411,8 +413,8 @@ INT fnft_nsev(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -439,7 +441,7 @@ INT fnft_nsev(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH){
+                    if (normconsts_or_residues != NULL && (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -450,11 +452,12 @@ INT fnft_nsev(
                     }
                 }
             }
-            if (ds_type_opt == nsev_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == nsev_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // Only the residues have been requested, but norming constants and
+        // residues have been stored in normconsts_or_residues_reserve
+        if (normconsts_or_residues_reserve != normconsts_or_residues && kappa == +1
+                && bound_states != NULL)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr*sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From 4180cba8d500f702ee8cd82fe0de97a275afdc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:32 +0000
Subject: [PATCH 12/46] fix: fnft_nsev leaked memory on error paths

---
 src/fnft_nsev.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 382747d..f95198e 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -830,9 +830,7 @@ static inline INT nsev_compute_contspec(
 
     // Allocate memory for transfer matrix values
     H11_vals = malloc(2*M * sizeof(COMPLEX));
-    if (H11_vals == NULL){
-        return E_NOMEM;
-        goto leave_fun;}
+    CHECK_NOMEM(H11_vals, ret_code, leave_fun);
     H21_vals = H11_vals + M;
 
     // If the discretization is a slow method then there should be no transfer_matrix
@@ -892,7 +890,7 @@ static inline INT nsev_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -1009,13 +1007,17 @@ static inline INT nsev_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(COMPLEX));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From abd1959dc7f076f5ae42061ac246eb37cf442d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:10 +0000
Subject: [PATCH 13/46] fix: fnft_kdvv no longer changes opts (or the default
 options) when a step fails

---
 src/fnft_kdvv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index bcd66c5..89515ae 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -170,6 +170,10 @@ INT fnft_kdvv(
 
     if (opts == NULL)
         opts = &default_opts;
+    // Some options are changed temporarily below. Work on a copy such that
+    // neither the options of the user nor the default options are affected.
+    fnft_kdvv_opts_t opts_copy = *opts;
+    opts = &opts_copy;
 
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
-- 
2.43.0


From 16b52419d54ac0262ba95a10e4fac17353ab2001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:10 +0000
Subject: [PATCH 14/46] fix: fnft_kdvv with Richardson extrapolation and
 residues wrote beyond normconsts_or_residues; missing NULL checks

---
 src/fnft_kdvv.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 89515ae..74abea0 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -163,7 +163,7 @@ INT fnft_kdvv(
         if (XI == NULL || XI[0] >= XI[1])
             return E_INVALID_ARGUMENT(XI);
     }
-    for (i=0; i<M; i++){
+    for (i=0; contspec != NULL && i<M; i++){
         if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
             return E_INVALID_ARGUMENT(XI);
     }
@@ -219,7 +219,8 @@ INT fnft_kdvv(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == kdvv_dstype_RESIDUES){
+        if (ds_type_opt == kdvv_dstype_RESIDUES && bound_states != NULL
+                && normconsts_or_residues != NULL && *K_ptr != 0){
             opts->discspec_type = kdvv_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -242,7 +243,7 @@ INT fnft_kdvv(
     CHECK_RETCODE(ret_code, leave_fun);
 
     ret_code = fnft_kdvv_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                bound_states, normconsts_or_residues, kappa, opts);
+                bound_states, normconsts_or_residues_reserve, kappa, opts);
     CHECK_RETCODE(ret_code, leave_fun);
 
     if (opts->richardson_extrapolation_flag == 1){
@@ -327,8 +328,8 @@ INT fnft_kdvv(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -355,7 +356,7 @@ INT fnft_kdvv(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH){
+                    if (normconsts_or_residues != NULL && (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -366,11 +367,11 @@ INT fnft_kdvv(
                     }
                 }
             }
-            if (ds_type_opt == kdvv_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == kdvv_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // Only the residues have been requested, but norming constants and
+        // residues have been stored in normconsts_or_residues_reserve
+        if (normconsts_or_residues_reserve != normconsts_or_residues && bound_states != NULL)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr*sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From 1f9b44f33a05f2a829c89a676d98f0d70bcb1138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:10 +0000
Subject: [PATCH 15/46] fix: memory leaks in fnft_kdvv when a step fails

---
 src/fnft_kdvv.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 74abea0..088db14 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -749,7 +749,7 @@ static inline INT kdvv_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(4*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     COMPLEX * const H12_vals = H11_vals + M;
     COMPLEX * const H21_vals = H12_vals + M;
@@ -854,7 +854,7 @@ static inline INT kdvv_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -958,13 +958,17 @@ static inline INT kdvv_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(complex double));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // if normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 4562e6187aa88c616afb5b595ce52a452786ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:10 +0000
Subject: [PATCH 16/46] fix: scale a and b instead of the transfer matrix for
 slow methods in fnft_kdvv

---
 src/fnft_kdvv.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 088db14..a8d540d 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -776,12 +776,9 @@ static inline INT kdvv_compute_contspec(
         // boundary conditions can be applied using common code for slow
         // methods and polynomial transfer matrix based methods.
         for (i = 0; i < M; i++){
-            REAL scl = 1;
-            if (opts->normalization_flag)
-                scl = POW(2, log_scaling_factors[i]);
-            H11_vals[i] = scl*scatter_coeffs[i*4];
+            H11_vals[i] = scatter_coeffs[i*4];
 //            H12_vals[i] = scatter_coeffs[i*4+1]; // Not used
-            H21_vals[i] = scl*scatter_coeffs[i*4+2];
+            H21_vals[i] = scatter_coeffs[i*4+2];
 //            H22_vals[i] = scatter_coeffs[i*4+3]; // Not used
         }
 
@@ -877,6 +874,11 @@ static inline INT kdvv_compute_contspec(
             CHECK_RETCODE(ret_code, leave_fun);
 
             for (i = 0; i < M; i++) {
+                // Slow methods return individual scaling exponents. (They cannot
+                // be applied earlier since the reflection coefficient can be
+                // finite even if a and b overflow.)
+                if (log_scaling_factors != NULL)
+                    scale = POW(2, log_scaling_factors[i]);
                 result[offset + i] = H11_vals[i] * scale * CEXP(I*xi[i]*phase_factor_a);
                 result[offset + M + i] = H21_vals[i] * scale * CEXP(I*xi[i]*phase_factor_b);
             }
-- 
2.43.0


From 6cbcf74a43d66f8da9d4232327adc7dd4484184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 17/46] fix: fnft_manakovv no longer changes opts (or the
 default options) when a step fails

---
 src/fnft_manakovv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index bd5fe19..581c95e 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -158,6 +158,10 @@ INT fnft_manakovv(
 	}
 	if (opts == NULL)
 		opts = &default_opts;
+	// Some options are changed temporarily below. Work on a copy such that
+	// neither the options of the user nor the default options are affected.
+	fnft_manakovv_opts_t opts_copy = *opts;
+	opts = &opts_copy;
 
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
-- 
2.43.0


From a53dca6a96095c687cfeab80c465ef75c862f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 18/46] fix: fnft_manakovv overwrote the capacity *K_ptr before
 the final bound state search; NULL dereferences with Richardson extrapolation

---
 src/fnft_manakovv.c | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 581c95e..3139832 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -131,9 +131,7 @@ INT fnft_manakovv(
 	UINT first_last_index[2] = { 0 };
 	UINT K_sub;
 	COMPLEX* contspec_sub = NULL;
-	COMPLEX* normconsts_or_residues_reserve = NULL;
 	fnft_manakovv_bsloc_t bs_loc_opt = 0;
-	fnft_manakovv_dstype_t ds_type_opt = 0;
 	INT ret_code = SUCCESS;
 	UINT i, j, upsampling_factor;
 
@@ -203,18 +201,6 @@ INT fnft_manakovv(
 	// Determine step size
 	const REAL eps_t = (T[1] - T[0]) / (D - 1);
 
-	if (opts->richardson_extrapolation_flag == 1) {
-		ds_type_opt = opts->discspec_type;
-		if (ds_type_opt == manakovv_dstype_RESIDUES) {
-			opts->discspec_type = manakovv_dstype_BOTH;
-			normconsts_or_residues_reserve = malloc(*K_ptr * 2 * sizeof(COMPLEX));
-			if (normconsts_or_residues_reserve == NULL) {
-				ret_code = E_NOMEM;
-				goto leave_fun;
-			}
-		}
-	}
-
 	// Some higher-order discretizations require samples on a non-equidistant grid
 	// while others require derivatives. The preprocessing function computes
 	// the required non-equidistant samples using bandlimited interpolation and
@@ -228,10 +214,6 @@ INT fnft_manakovv(
 	CHECK_RETCODE(ret_code, leave_fun);
 
 	if (contspec != NULL){
-		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, NULL, XI, K_ptr,
-			bound_states, kappa, opts);
-		CHECK_RETCODE(ret_code, leave_fun);
-
 		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, contspec, XI, K_ptr,
 			NULL, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
@@ -254,6 +236,8 @@ INT fnft_manakovv(
 		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, T, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
+	} else if (K_ptr != NULL) {
+		*K_ptr = 0;
 	}
 
 	if (opts->richardson_extrapolation_flag == 1) {
@@ -313,13 +297,12 @@ INT fnft_manakovv(
 			NULL, kappa, opts);	// bound_states already calculated. Passing NULL for boundstates to avoid recalculating
 		CHECK_RETCODE(ret_code, leave_fun);
 		opts->bound_state_localization = bs_loc_opt;
-		opts->discspec_type = ds_type_opt;
 
 		// Richardson extrapolation of the continuous spectrum
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
-		REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 		if (contspec != NULL && M > 0) {
+			REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
 					for (j = 0; j < contspec_len; j += M)
@@ -335,8 +318,7 @@ leave_fun:
     free(q1sub_preprocessed);
 	free(q2sub_preprocessed);
 	free(contspec_sub);
-	if (normconsts_or_residues_reserve != normconsts_or_residues)
-		free(normconsts_or_residues_reserve);
+	(void)normconsts_or_residues; // not computed yet
 	return ret_code;
 }
 
-- 
2.43.0


From e21439398d550d6eaf8ec2a5d537b44bb0d02e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 19/46] fix: fnft_manakovv divided by zero for opts->Dsub > 2*D
 (the preprocessing determines the actual Dsub)

---
 src/fnft_manakovv.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 3139832..b896845 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -226,8 +226,6 @@ INT fnft_manakovv(
 		Dsub = opts->Dsub;
         if (Dsub == 0) // The user wants us to determine Dsub
             Dsub = SQRT(D * LOG2(D) * LOG2(D));
-        UINT nskip_per_step = ROUND((REAL)D / Dsub);
-        Dsub = ROUND((REAL)D / nskip_per_step); // actual Dsub
 
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
                 first_last_index, opts->discretization);
-- 
2.43.0


From 1dbb0f2af43b8a46e2aae06bb2895559ee3df8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 20/46] fix: fnft_manakovv used the wrong step size for the
 bound states of the subsampled signal

---
 src/fnft_manakovv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index b896845..4bfbb44 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -230,8 +230,10 @@ INT fnft_manakovv(
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
+		Tsub[0] = T[0] + first_last_index[0] * eps_t;
+		Tsub[1] = T[0] + first_last_index[1] * eps_t;
 
-		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, T, M, NULL, XI, K_ptr,
+		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
 	} else if (K_ptr != NULL) {
-- 
2.43.0


From 5d01f5357979f3e4ba0e270917f8fa920e09a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:40 +0000
Subject: [PATCH 21/46] fix: memory leaks in fnft_manakovv when a step fails

---
 src/fnft_manakovv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 4bfbb44..3e9cbca 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -542,7 +542,7 @@ static inline INT manakovv_compute_contspec(
 	// Allocate memory for transfer matrix values
 	H11_vals = malloc(3 * M * sizeof(COMPLEX));
 	if (H11_vals == NULL) {
-		return E_NOMEM;
+		ret_code = E_NOMEM;
 		goto leave_fun;
 	}
 	H21_vals = H11_vals + M;
@@ -609,7 +609,7 @@ static inline INT manakovv_compute_contspec(
 
 		for (i = 0; i < M; i++) {
 			if (H11_vals[i] == 0.0) {
-				return E_DIV_BY_ZERO;
+				ret_code = E_DIV_BY_ZERO;
 				goto leave_fun;
 			}
 			result[i] = H21_vals[i] * CEXP(I * xi[i] * phase_factor_rho) / H11_vals[i];
-- 
2.43.0


From 5f5248bcaaec174f65a2a0e0fe8f92d99f048a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:50 +0000
Subject: [PATCH 22/46] fix: continuous spectrum was NaN for grids with a
 single point (M=1)

---
 src/fnft_kdvv.c     | 6 +++---
 src/fnft_manakovv.c | 4 ++--
 src/fnft_nsev.c     | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index a8d540d..deede9f 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -164,7 +164,7 @@ INT fnft_kdvv(
             return E_INVALID_ARGUMENT(XI);
     }
     for (i=0; contspec != NULL && i<M; i++){
-        if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
+        if (XI[0]+((i > 0) ? i*(XI[1]-XI[0])/(M-1) : 0.0) == 0)
             return E_INVALID_ARGUMENT(XI);
     }
 
@@ -329,7 +329,7 @@ INT fnft_kdvv(
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
         if (contspec != NULL && M > 0){
-            REAL const dxi = (XI[1]-XI[0])/(M-1);
+            REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -735,7 +735,7 @@ static inline INT kdvv_compute_contspec(
     }
     D_given = D/upsampling_factor;
     const REAL eps_t = (T[1] - T[0])/(D_given - 1);
-    const REAL eps_xi = (XI[1] - XI[0])/(M - 1);
+    const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
     // Build xi-grid which is required for applying boundary conditions
     xi = malloc(M * sizeof(COMPLEX));
diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 3e9cbca..588c454 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -302,7 +302,7 @@ INT fnft_manakovv(
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
 		if (contspec != NULL && M > 0) {
-			REAL const dxi = (XI[1] - XI[0]) / (M - 1);
+			REAL const dxi = (M > 1) ? (XI[1] - XI[0]) / (M - 1) : 0.0;
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
 					for (j = 0; j < contspec_len; j += M)
@@ -527,7 +527,7 @@ static inline INT manakovv_compute_contspec(
 	}
 	D_given = D / upsampling_factor;
 	const REAL eps_t = (T[1] - T[0]) / (D_given - 1);
-	const REAL eps_xi = (XI[1] - XI[0]) / (M - 1);
+	const REAL eps_xi = (M > 1) ? (XI[1] - XI[0]) / (M - 1) : 0.0;
 
 
 	// Build xi-grid which is required for applying boundary conditions
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index f95198e..df550c9 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -414,7 +414,7 @@ INT fnft_nsev(
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
         if (contspec != NULL && M > 0){
-            REAL const dxi = (XI[1]-XI[0])/(M-1);
+            REAL const dxi = (M > 1) ? (XI[1]-XI[0])/(M-1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -817,7 +817,7 @@ static inline INT nsev_compute_contspec(
     }
     D_given = D/upsampling_factor;
     const REAL eps_t = (T[1] - T[0])/(D_given - 1);
-    const REAL eps_xi = (XI[1] - XI[0])/(M - 1);
+    const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
     // Build xi-grid which is required for applying boundary conditions
     xi = malloc(M * sizeof(COMPLEX));
-- 
2.43.0


From 60ca128df01b73845fe1bb4cd49d5fb5968598cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 23/46] fix: fnft_nsep no longer changes the bounding box in
 *opts or in the library-wide defaults

---
 src/fnft_nsep.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 955a70d..2b5328e 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -124,6 +124,11 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         return E_NOT_YET_IMPLEMENTED(sheet_indices, Pass sheet_indices="NULL".);
     if (opts_ptr == NULL)
         opts_ptr = &default_opts;
+
+    // Work on a copy since some fields (bounding box) are modified below
+    fnft_nsep_opts_t opts = *opts_ptr;
+    opts_ptr = &opts;
+
     if (opts_ptr->filtering != fnft_nsep_filt_NONE && main_spec == NULL && aux_spec != NULL)
         return E_INVALID_ARGUMENT(main_spec. Filtering of the auxiliary spectrum is not possible if the main spectrum is not computed.);
 
@@ -225,11 +230,6 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         aux_spec[i] += Lam_shift;
     }
 
-    // Restoring changed limits
-    if (opts_ptr->filtering == fnft_nsep_filt_MANUAL){
-        opts_ptr->bounding_box[0] += Lam_shift;
-        opts_ptr->bounding_box[1] += Lam_shift;
-    }
         leave_fun:
             free(q_preprocessed);
             return ret_code;
-- 
2.43.0


From d920147ae0f034630189f2fde2f0caad42784574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 24/46] fix: fnft_nsep grid search returned an uninitialised
 *K_ptr when main_spec is NULL

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 2b5328e..ec116cb 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -252,7 +252,7 @@ static inline INT gridsearch(const UINT D,
     REAL PHI[2] = { 0.0, 2.0*PI };
     UINT deg;
     INT W = 0, *W_ptr = NULL;
-    UINT K, K_filtered;
+    UINT K = 0, K_filtered;
     UINT M = 0;
     UINT i, upsampling_factor, D_effective;// upsampling_factor*D gives the effective number of samples
     INT ret_code = SUCCESS;
-- 
2.43.0


From e4ac7ebb04b0f1ead02512b2a46026b0b0214dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 25/46] fix: fnft_nsep ignored failures of the root finder for
 the auxiliary spectrum

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index ec116cb..ff4ef8a 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -668,7 +668,7 @@ static inline INT subsample_and_refine(const UINT D,
     if (aux_spec != NULL) {
         ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
                 roots);
-
+        CHECK_RETCODE(ret_code, release_mem);
 
         // Set number of points in the aux spectrum
         M = deg;
-- 
2.43.0


From 74c497ea714c71570accd28316a35d57b9f064a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 26/46] fix: fnft_nsep leaked its buffers on some error returns

---
 src/fnft_nsep.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index ff4ef8a..034e0a0 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -177,8 +177,10 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
             // Store lengths of still unused parts of user-provided arrays in temp
             // variables
-            if (K1 > *K_ptr || M1 > *M_ptr)
-                return E_ASSERTION_FAILED;
+            if (K1 > *K_ptr || M1 > *M_ptr) {
+                ret_code = E_ASSERTION_FAILED;
+                goto leave_fun;
+            }
             K2 = *K_ptr - K1;
             M2 = *M_ptr - M1;
 
@@ -219,7 +221,8 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         default:
 
-            return E_INVALID_ARGUMENT(opts_ptr->discretization);
+            ret_code = E_INVALID_ARGUMENT(opts_ptr->localization);
+            goto leave_fun;
     }
     if (main_spec != NULL) {
     for (i=0; i < *K_ptr; i++)
@@ -520,10 +523,12 @@ static inline INT subsample_and_refine(const UINT D,
     CHECK_RETCODE(ret_code, release_mem);
 
     nskip_per_step = D/Dsub;
-    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D )
-        return E_ASSERTION_FAILED; // Correct update of T for general
-                                   // downsampling still needs to be
-                                 // implemented
+    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D ) {
+        ret_code = E_ASSERTION_FAILED; // Correct update of T for general
+                                       // downsampling still needs to be
+                                       // implemented
+        goto release_mem;
+    }
 
     if (upsampling_factor == 2) {
         nse_discretization = nse_discretization_CF4_2;
-- 
2.43.0


From 760bb6f30fe4a6054854f7ef12554dda52bffbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 27/46] fix: fnft_nsep grid search looked at the wrong arc for
 discretizations with upsampling

---
 src/fnft_nsep.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 034e0a0..342e964 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -308,8 +308,8 @@ static inline INT gridsearch(const UINT D,
         return E_INVALID_ARGUMENT(opts_ptr->discretization);
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
-    PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0];
-    PHI[1] = map_coeff*eps_t*opts_ptr->bounding_box[1];
+    PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0]/upsampling_factor;
+    PHI[1] = map_coeff*eps_t*opts_ptr->bounding_box[1]/upsampling_factor;
     if (PHI[0] > PHI[1]) {
         REAL tmp = PHI[0];
         PHI[0] = PHI[1];
-- 
2.43.0


From ad14e9a7154105c0f0f73cf3cdf6a86347f983cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:05 +0000
Subject: [PATCH 28/46] fix: layer peeling for defocusing 2SPLIT2A used atan
 instead of atanh

---
 src/private/fnft__akns_finvscatter_q_from_r.inc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index 2c1f1ae..b26f1f8 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -208,6 +208,13 @@ start_pos_2:
                 *s[i].q = X/eps_t;
                 break;
             case FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2A):
+                #ifdef FNFT__AKNS_FINVSCATTER_Q_FROM_R_HAS_KAPPA
+                // The modulus of X is tan(eps_t*|q|) in the focusing case, but
+                // tanh(eps_t*|q|) in the defocusing case
+                if (kappa == -1)
+                    *s[i].q = ATANH(CABS(X))*CEXP(I*CARG(X))/eps_t;
+                else
+                #endif
                 *s[i].q = ATAN(CABS(X))*CEXP(I*CARG(X))/eps_t;
                 break;
             default: // discretization is unknown or not supported
-- 
2.43.0


From 52e43ae2328737fb6f789eac1ccc60164e5a3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:05 +0000
Subject: [PATCH 29/46] fix: inverse scattering overran its stack for
 unsupported discretizations

---
 src/private/fnft__akns_finvscatter_q_from_r.inc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index b26f1f8..a1a8ba2 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -263,6 +263,12 @@ INT FNFT__AKNS_FINVSCATTER_Q_FROM_R__PREFIX(finvscatter)(
             discretization);
     if (discretization_degree == 0) // unknown discretization
         return E_INVALID_ARGUMENT(discretization);
+    if (discretization !=
+        FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2_MODAL)
+        && discretization !=
+        FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2A))
+        return E_INVALID_ARGUMENT(discretization); // not supported; the
+        // recursion below would not fit on the stack for higher degrees
     const UINT D = deg / discretization_degree;
     if (D < 2 || (D&(D-1)) != 0)
         return E_OTHER("Number of samples D used to build the transfer matrix was no positive power of two.");
-- 
2.43.0


From c8b9c2858988b5b784657d75399b9e832aa7e813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:10 +0000
Subject: [PATCH 30/46] fix: poly_roots_fasteigen failed for zero constant
 terms and linear polynomials and was inaccurate for quadratic ones

---
 src/private/fnft__poly_roots_fasteigen.c | 35 +++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index 9aa2683..35616d3 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -29,6 +29,7 @@ extern INT z_poly_roots_modified_(INT *N, double complex const * const coeffs,
 INT poly_roots_fasteigen(const UINT deg,
     COMPLEX const * const p, COMPLEX * const roots)
 {
+    UINT n;
     INT int_deg, info;
 
   // Check inputs
@@ -37,8 +38,40 @@ INT poly_roots_fasteigen(const UINT deg,
   if (roots == NULL)
     return E_INVALID_ARGUMENT(roots);
 
+    // Split off roots at the origin. The root finding routine can neither deal
+    // with vanishing constant terms nor with polynomials of degree one, and
+    // is inaccurate for polynomials of degree two.
+    n = deg;
+    while (n > 0 && p[n] == 0.0) {
+        n--;
+        roots[n] = 0.0;
+    }
+    if (n == 0)
+        return SUCCESS;
+    if (n == 1) {
+        if (p[0] == 0.0)
+            return E_DIV_BY_ZERO;
+        roots[0] = -p[1]/p[0];
+        return SUCCESS;
+    }
+
+    if (n == 2) { // numerically stable quadratic formula; note that p[2]!=0
+        if (p[0] == 0.0)
+            return E_DIV_BY_ZERO;
+        const COMPLEX half_b = p[1]/2.0;
+        const COMPLEX sqrt_disc = CSQRT(half_b*half_b - p[0]*p[2]);
+        COMPLEX s = half_b + sqrt_disc;
+        if (CABS(half_b - sqrt_disc) > CABS(s))
+            s = half_b - sqrt_disc;
+        if (s == 0.0) // only possible if all products underflow
+            return E_DIV_BY_ZERO;
+        roots[0] = -s/p[0];
+        roots[1] = -p[2]/s;
+        return SUCCESS;
+    }
+
     // Call Fortran root finding routine
-    int_deg = (int)deg;
+    int_deg = (int)n;
     z_poly_roots_modified_(&int_deg, p, roots, &info);
 
     if (info == 0)
-- 
2.43.0


From 5116b5e65a92260384c05b6485a94313d19b6276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:12 +0000
Subject: [PATCH 31/46] fix: bound states and auxiliary spectra could not be
 computed when leading coefficients vanish (e.g. 2SPLIT2_MODAL with few
 samples)

---
 src/fnft_manakovv.c | 13 ++++++++++++-
 src/fnft_nsep.c     | 17 ++++++++++++-----
 src/fnft_nsev.c     | 13 ++++++++++++-
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 588c454..323764b 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -439,6 +439,7 @@ static inline INT manakovv_compute_boundstates(
 {
 	UINT K;
 	REAL bounding_box[4] = { NAN };
+	COMPLEX const * a_coeffs;
 	COMPLEX * buffer = NULL;
 	INT ret_code = SUCCESS;
 	// Set-up bounding_box, only eigenvalues in upper half complex plane
@@ -460,7 +461,17 @@ static inline INT manakovv_compute_boundstates(
 				buffer = transfer_matrix + (deg+1);
 			}
 
-			ret_code = poly_roots_fasteigen(deg, transfer_matrix, buffer);
+			// Vanishing leading or trailing coefficients belong to roots z=infinity
+			// and z=0, respectively, for which there is no corresponding lambda.
+			a_coeffs = transfer_matrix;
+			while (K > 0 && a_coeffs[0] == 0.0) {
+				a_coeffs++;
+				K--;
+			}
+			while (K > 0 && a_coeffs[K] == 0.0)
+				K--;
+
+			ret_code = poly_roots_fasteigen(K, a_coeffs, buffer);
 			CHECK_RETCODE(ret_code, leave_fun);
 			// Roots are returned in discrete-time domain -> coordinate
 			// transform (from discrete-time to continuous-time domain).
diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 342e964..9255497 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -671,12 +671,19 @@ static inline INT subsample_and_refine(const UINT D,
 
     // Compute aux spectrum if desired
     if (aux_spec != NULL) {
-        ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
-                roots);
-        CHECK_RETCODE(ret_code, release_mem);
-
-        // Set number of points in the aux spectrum
+        // Vanishing leading or trailing coefficients belong to roots z=infinity
+        // and z=0, respectively, for which there is no corresponding lambda.
+        COMPLEX const * b_coeffs = transfer_matrix + (deg + 1);
         M = deg;
+        while (M > 0 && b_coeffs[0] == 0.0) {
+            b_coeffs++;
+            M--;
+        }
+        while (M > 0 && b_coeffs[M] == 0.0)
+            M--;
+
+        ret_code = poly_roots_fasteigen(M, b_coeffs, roots);
+        CHECK_RETCODE(ret_code, release_mem);
 
         // Coordinate transform (from discrete-time to continuous-time domain)
         ret_code = nse_discretization_z_to_lambda(M, eps_t_sub, roots, opts_ptr->discretization);
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index df550c9..6fb102d 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -628,6 +628,7 @@ static inline INT nsev_compute_boundstates(
     REAL degree1step = 0.0 , map_coeff = 2.0;
     UINT K, upsampling_factor, i, j, D_given;
     REAL bounding_box[4] = { NAN };
+    COMPLEX const * a_coeffs;
     COMPLEX * buffer = NULL;
     INT ret_code = SUCCESS;
     nse_discretization_t discretization;
@@ -743,7 +744,17 @@ static inline INT nsev_compute_boundstates(
                 buffer = transfer_matrix + (deg+1);
             }
 
-            ret_code = poly_roots_fasteigen(deg, transfer_matrix, buffer);
+            // Vanishing leading or trailing coefficients belong to roots z=infinity
+            // and z=0, respectively, for which there is no corresponding lambda.
+            a_coeffs = transfer_matrix;
+            while (K > 0 && a_coeffs[0] == 0.0) {
+                a_coeffs++;
+                K--;
+            }
+            while (K > 0 && a_coeffs[K] == 0.0)
+                K--;
+
+            ret_code = poly_roots_fasteigen(K, a_coeffs, buffer);
             CHECK_RETCODE(ret_code, leave_fun);
             // Roots are returned in discrete-time domain -> coordinate
             // transform (from discrete-time to continuous-time domain).
-- 
2.43.0


From 738e70d3105b20f85ed6ea2ee237dfc28de3e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:14 +0000
Subject: [PATCH 32/46] fix: fnft_nsep with NEWTON rejected all splitting
 schemes, including the default one, and AUTO filtering dropped all points for
 slow schemes

---
 src/fnft_nsep.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 9255497..463bf9b 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -748,7 +748,8 @@ static inline INT newton(const UINT D,
         const INT kappa, fnft_nsep_opts_t * opts_ptr)
 {
     COMPLEX * initial_guesses = NULL;
-    REAL degree1step, map_coeff;
+    REAL degree1step, map_coeff = 2;
+    nse_discretization_t refine_discretization = opts_ptr->discretization;
     REAL tol_im;
     REAL refine_tol;
     UINT Dsub = 0;
@@ -790,17 +791,26 @@ static inline INT newton(const UINT D,
         goto release_mem;
     }
 
+    // Will be required later for coordinate transforms and filtering
+    degree1step = nse_discretization_degree(opts_ptr->discretization);
+    if (degree1step == NAN)
+        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+
+    // The refinement is based on the base method of the discretization
+    if (degree1step != 0) {
+        map_coeff = 2/degree1step;
+        if (upsampling_factor == 1)
+            refine_discretization = nse_discretization_BO;
+        else if (upsampling_factor == 2)
+            refine_discretization = nse_discretization_CF4_2;
+    }
+
     // Determine the tolerance for the refinement steps
     if (opts_ptr->tol < 0)
         refine_tol = SQRT(EPSILON);
     else
         refine_tol = opts_ptr->tol;
 
-    // Will be required later for coordinate transforms and filtering
-    degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
-    map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[1] - opts_ptr->bounding_box[0];
     tol_im /= oversampling_factor*(D - 1);
@@ -832,7 +842,7 @@ static inline INT newton(const UINT D,
             ret_code = refine_mainspec(D_effective, q_preprocessed, r_preprocessed, eps_t,
                                        K, initial_guesses, opts_ptr->max_evals,
                                        -rhs, refine_tol, kappa,
-                                       opts_ptr->discretization, opts_ptr->bounding_box,
+                                       refine_discretization, opts_ptr->bounding_box,
                                        opts_ptr->normalization_flag);
             CHECK_RETCODE(ret_code, release_mem);
 
@@ -856,7 +866,7 @@ static inline INT newton(const UINT D,
         // Refine the roots
         ret_code = refine_auxspec(D_effective, q_preprocessed, r_preprocessed, eps_t, M,
                                   aux_spec, opts_ptr->max_evals, refine_tol,
-                                  kappa, opts_ptr->discretization, opts_ptr->bounding_box,
+                                  kappa, refine_discretization, opts_ptr->bounding_box,
                                   opts_ptr->normalization_flag);
         CHECK_RETCODE(ret_code, release_mem);
 
-- 
2.43.0


From f87d560b40bfc64e88b4fdb0be724cd95dffe524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:16 +0000
Subject: [PATCH 33/46] fix: fnft_nsep grid search and mixed localization
 without (finite) bounding box found nothing

---
 src/fnft_nsep.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 463bf9b..772752f 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -252,7 +252,7 @@ static inline INT gridsearch(const UINT D,
     COMPLEX * p = NULL;
     COMPLEX * roots = NULL;
     REAL degree1step, map_coeff;
-    REAL PHI[2] = { 0.0, 2.0*PI };
+    REAL PHI[2] = { -PI, PI }; // complete circle, used if there is no filtering
     UINT deg;
     INT W = 0, *W_ptr = NULL;
     UINT K = 0, K_filtered;
@@ -308,13 +308,20 @@ static inline INT gridsearch(const UINT D,
         return E_INVALID_ARGUMENT(opts_ptr->discretization);
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
-    PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0]/upsampling_factor;
-    PHI[1] = map_coeff*eps_t*opts_ptr->bounding_box[1]/upsampling_factor;
+    if (opts_ptr->filtering != fnft_nsep_filt_NONE) {
+        PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0]/upsampling_factor;
+        PHI[1] = map_coeff*eps_t*opts_ptr->bounding_box[1]/upsampling_factor;
+    }
     if (PHI[0] > PHI[1]) {
         REAL tmp = PHI[0];
         PHI[0] = PHI[1];
         PHI[1] = tmp;
     }
+    // There are no further points beyond the complete circle
+    if (!(PHI[1] - PHI[0] <= 2.0*PI)) {
+        PHI[0] = -PI;
+        PHI[1] = PI;
+    }
 
     roots = malloc(oversampling_factor*deg*sizeof(COMPLEX));
     if (roots == NULL) {
@@ -571,6 +578,8 @@ static inline INT subsample_and_refine(const UINT D,
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t_sub, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[3] - opts_ptr->bounding_box[2];
+    if (opts_ptr->filtering == fnft_nsep_filt_NONE || !(tol_im < INFINITY))
+        tol_im = -2.0*LOG(0.1) / (FABS(map_coeff) * eps_t_sub); // see AUTO
     tol_im /= oversampling_factor*(D - 1);
 
     // Use unused part of transfer matrix as buffer for the roots
-- 
2.43.0


From 621146d116b9628f2450c5d1df19ea165fb82f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:18 +0000
Subject: [PATCH 34/46] fix: fnft_nsep changed its outputs before rejecting
 invalid filter options

---
 src/fnft_nsep.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 772752f..6bb1540 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -132,6 +132,20 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
     if (opts_ptr->filtering != fnft_nsep_filt_NONE && main_spec == NULL && aux_spec != NULL)
         return E_INVALID_ARGUMENT(main_spec. Filtering of the auxiliary spectrum is not possible if the main spectrum is not computed.);
 
+    // Check the remaining options before any of the outputs is written
+    switch (opts_ptr->filtering) {
+        case fnft_nsep_filt_NONE:
+        case fnft_nsep_filt_AUTO:
+            break;
+        case fnft_nsep_filt_MANUAL:
+            if (!(opts_ptr->bounding_box[0] <= opts_ptr->bounding_box[1])
+                    || !(opts_ptr->bounding_box[2] <= opts_ptr->bounding_box[3]))
+                return E_INVALID_ARGUMENT(opts_ptr->bounding_box);
+            break;
+        default:
+            return E_INVALID_ARGUMENT(opts_ptr->filtering);
+    }
+
     REAL Lam_shift = phase_shift/(-2*(T[1] - T[0]));
     const REAL eps_t = (T[1] - T[0])/D;
     q_preprocessed = malloc(D * sizeof(COMPLEX));
-- 
2.43.0


From 3d1a547eb3dfe58b7b0ac4f6cd49c34648751417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:20 +0000
Subject: [PATCH 35/46] fix: validate options before any output of the
 nonlinear Fourier transforms is written

---
 src/fnft_kdvv.c         | 32 ++++++++++++++++++++++++++++
 src/fnft_manakovv.c     | 30 ++++++++++++++++++++++++++
 src/fnft_nsev.c         | 47 +++++++++++++++++++++++++++++++++++++++++
 src/fnft_nsev_inverse.c | 42 ++++++++++++++++++++++++++++++++++++
 4 files changed, 151 insertions(+)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index deede9f..5931300 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -175,6 +175,38 @@ INT fnft_kdvv(
     fnft_kdvv_opts_t opts_copy = *opts;
     opts = &opts_copy;
 
+    // Check the options before any of the outputs is written
+    if (contspec != NULL) {
+        switch (opts->contspec_type) {
+            case kdvv_cstype_REFLECTION_COEFFICIENT:
+            case kdvv_cstype_AB:
+            case kdvv_cstype_BOTH:
+                break;
+            default:
+                return E_INVALID_ARGUMENT(opts->contspec_type);
+        }
+    }
+    if (bound_states != NULL) {
+        switch (opts->bound_state_localization) {
+            case kdvv_bsloc_NEWTON:
+                break;
+            case kdvv_bsloc_GRIDSEARCH_AND_REFINE:
+                if (!(opts->grid_spacing > 0))
+                    return E_INVALID_ARGUMENT(opts->grid_spacing);
+                break;
+            default:
+                return E_INVALID_ARGUMENT(opts->bound_state_localization);
+        }
+        switch (opts->discspec_type) {
+            case kdvv_dstype_NORMING_CONSTANTS:
+            case kdvv_dstype_RESIDUES:
+            case kdvv_dstype_BOTH:
+                break;
+            default:
+                return E_INVALID_ARGUMENT(opts->discspec_type);
+        }
+    }
+
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
             return E_INVALID_ARGUMENT(K_ptr);
diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 323764b..1661b91 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -161,6 +161,36 @@ INT fnft_manakovv(
 	fnft_manakovv_opts_t opts_copy = *opts;
 	opts = &opts_copy;
 
+	// Check the options before any of the outputs is written
+	if (contspec != NULL) {
+		switch (opts->contspec_type) {
+		case manakovv_cstype_REFLECTION_COEFFICIENT:
+		case manakovv_cstype_AB:
+		case manakovv_cstype_BOTH:
+			break;
+		default:
+			return E_INVALID_ARGUMENT(opts->contspec_type);
+		}
+	}
+	if (kappa == +1 && bound_states != NULL) {
+		switch (opts->bound_state_localization) {
+		case manakovv_bsloc_FAST_EIGENVALUE:
+		case manakovv_bsloc_NEWTON:
+		case manakovv_bsloc_SUBSAMPLE_AND_REFINE:
+			break;
+		default:
+			return E_INVALID_ARGUMENT(opts->bound_state_localization);
+		}
+		switch (opts->bound_state_filtering) {
+		case manakovv_bsfilt_NONE:
+		case manakovv_bsfilt_BASIC:
+		case manakovv_bsfilt_FULL:
+			break;
+		default:
+			return E_INVALID_ARGUMENT(opts->bound_state_filtering);
+		}
+	}
+
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case manakov_discretization_2SPLIT3A:
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 6fb102d..9309fe6 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -190,6 +190,53 @@ INT fnft_nsev(
     fnft_nsev_opts_t opts_copy = *opts;
     opts = &opts_copy;
 
+    // Check the options before any of the outputs is written
+    if (contspec != NULL) {
+        switch (opts->contspec_type) {
+            case nsev_cstype_REFLECTION_COEFFICIENT:
+            case nsev_cstype_AB:
+            case nsev_cstype_BOTH:
+                break;
+            default:
+                return E_INVALID_ARGUMENT(opts->contspec_type);
+        }
+    }
+    if (kappa == +1 && bound_states != NULL) {
+        switch (opts->bound_state_localization) {
+            case nsev_bsloc_FAST_EIGENVALUE:
+            case nsev_bsloc_NEWTON:
+            case nsev_bsloc_SUBSAMPLE_AND_REFINE:
+                break;
+            default:
+                return E_INVALID_ARGUMENT(opts->bound_state_localization);
+        }
+        switch (opts->bound_state_filtering) {
+            case nsev_bsfilt_NONE:
+            case nsev_bsfilt_BASIC:
+            case nsev_bsfilt_FULL:
+                break;
+            case nsev_bsfilt_MANUAL:
+                for (i=0; i<4; i++) {
+                    if (opts->bounding_box[i] != opts->bounding_box[i]) // check for NaN's
+                        return E_OTHER("Must set opts->bounding_box for manual filtering.");
+                }
+                if (!(opts->bounding_box[0] <= opts->bounding_box[1])
+                        || !(opts->bounding_box[2] <= opts->bounding_box[3]))
+                    return E_INVALID_ARGUMENT(opts->bounding_box);
+                break;
+            default:
+                return E_INVALID_ARGUMENT(opts->bound_state_filtering);
+        }
+        switch (opts->discspec_type) {
+            case nsev_dstype_NORMING_CONSTANTS:
+            case nsev_dstype_RESIDUES:
+            case nsev_dstype_BOTH:
+                break;
+            default:
+                return E_INVALID_ARGUMENT(opts->discspec_type);
+        }
+    }
+
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case nse_discretization_2SPLIT2_MODAL:
diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index f677c86..6cb0553 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -154,6 +154,10 @@ INT fnft_nsev_inverse(
     for (i = 0; i < K; i++) {
         if (CIMAG(bound_states[i]) <= 0)
             return E_SANITY_CHECK_FAILED(bound_states should be stricly in the upper-half complex-plane.);
+        for (UINT j = 0; j < i; j++) {
+            if (bound_states[i] == bound_states[j])
+                return E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
+        }
     }
     if (K > 0 && normconsts_or_residues == NULL)
         return E_INVALID_ARGUMENT(normconsts_or_residues);
@@ -168,6 +172,44 @@ INT fnft_nsev_inverse(
         opts_ptr->contspec_type != fnft_nsev_inverse_cstype_B_OF_TAU)
         return E_INVALID_ARGUMENT(XI);
 
+    // Check the remaining options before any of the outputs is written
+    if (contspec != NULL) {
+        switch (opts_ptr->contspec_type) {
+        case fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT:
+            if (opts_ptr->contspec_inversion_method
+                    == fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER) {
+                if (M != D)
+                    return E_INVALID_ARGUMENT(M);
+                if (kappa != -1)
+                    return E_INVALID_ARGUMENT(kappa);
+            }
+            break;
+        case fnft_nsev_inverse_cstype_B_OF_XI:
+        case fnft_nsev_inverse_cstype_B_OF_TAU:
+            if (opts_ptr->oversampling_factor < 1)
+                return E_INVALID_ARGUMENT(opts_ptr->oversampling_factor);
+            break;
+        default:
+            return E_INVALID_ARGUMENT(opts_ptr->contspec_type);
+        }
+    }
+    switch (opts_ptr->contspec_inversion_method) {
+    case fnft_nsev_inverse_csmethod_DEFAULT:
+    case fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_REFL_COEFF:
+    case fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER:
+        break;
+    case fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD:
+        // The seed potential replaces the continuous spectrum
+        if (contspec != NULL)
+            return E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+        break;
+    default:
+        return E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+    }
+    if (K > 0 && opts_ptr->discspec_type != fnft_nsev_inverse_dstype_NORMING_CONSTANTS
+            && opts_ptr->discspec_type != fnft_nsev_inverse_dstype_RESIDUES)
+        return E_INVALID_ARGUMENT(opts_ptr->discspec_type);
+
     INT ret_code = SUCCESS;
     UINT contspec_flag = 0;
     COMPLEX *transfer_matrix = NULL;
-- 
2.43.0


From 2ee5d2c53261775fabdd12554b624d17b330fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:45 +0000
Subject: [PATCH 36/46] fix: kdv_fscatter: check the return code of
 kdv_discretization_vanilla_flag

---
 src/private/fnft__kdv_fscatter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__kdv_fscatter.c b/src/private/fnft__kdv_fscatter.c
index 647d654..9982d55 100644
--- a/src/private/fnft__kdv_fscatter.c
+++ b/src/private/fnft__kdv_fscatter.c
@@ -66,7 +66,8 @@ INT kdv_fscatter(const UINT D, COMPLEX const * const q, COMPLEX const * const r,
     CHECK_RETCODE(ret_code, leave_fun);
 
     UINT vanilla_flag;
-    kdv_discretization_vanilla_flag(&vanilla_flag, discretization);
+    ret_code = kdv_discretization_vanilla_flag(&vanilla_flag, discretization);
+    CHECK_RETCODE(ret_code, leave_fun);
     if(vanilla_flag) {
         ret_code = akns_fscatter(D, q, r, eps_t, result, deg_ptr, W_ptr, akns_discretization);
         CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From c8ab1a9a3a3b4f3c868957042bcea56c85f8ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:45 +0000
Subject: [PATCH 37/46] fix: akns_discretization_preprocess_signal: free the
 output arrays on failure

---
 src/private/fnft__akns_discretization.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__akns_discretization.c b/src/private/fnft__akns_discretization.c
index f758f9a..ec89ea5 100644
--- a/src/private/fnft__akns_discretization.c
+++ b/src/private/fnft__akns_discretization.c
@@ -434,6 +434,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
     COMPLEX *q_1 = NULL;
     COMPLEX *q_2 = NULL;
     COMPLEX *q_3 = NULL;
+    COMPLEX *q_preprocessed = NULL;
+    COMPLEX *r_preprocessed = NULL;
 
     COMPLEX *qr_weights = NULL;
     COMPLEX *eps_t_weights = NULL;
@@ -471,8 +473,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
         goto release_mem;
     }
     D_effective = Dsub * upsampling_factor;
-    COMPLEX * const q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     if (q_preprocessed == NULL || r_preprocessed == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
@@ -666,6 +668,10 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q_preprocessed);
+            free(r_preprocessed);
+        }
         free(q_1);
         free(q_2);
         free(q_3);
-- 
2.43.0


From 364e0fd639128215aee7accce9e1ba8b6377c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:45 +0000
Subject: [PATCH 38/46] fix: manakov_discretization_preprocess_signal: check
 allocations and resampling, free the outputs on failure

---
 src/private/fnft__manakov_discretization.c | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index a387483..fc0c8e3 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -121,6 +121,8 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     COMPLEX *q2_c2 = NULL;
     COMPLEX *q1_sub = NULL;
     COMPLEX *q2_sub = NULL;
+    COMPLEX *q1_preprocessed = NULL;
+    COMPLEX *q2_preprocessed = NULL;
 
     // Check inputs
     if (D < 2)
@@ -158,15 +160,17 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         goto release_mem;
     }
     D_effective = Dsub*upsampling_factor;
-    COMPLEX * const q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     q1_c1 = malloc(Dsub*sizeof(COMPLEX));
     q2_c1 = malloc(Dsub*sizeof(COMPLEX));
     q1_c2 = malloc(Dsub*sizeof(COMPLEX));
     q2_c2 = malloc(Dsub*sizeof(COMPLEX));
     q1_sub = malloc(Dsub * sizeof(COMPLEX));
 	q2_sub = malloc(Dsub * sizeof(COMPLEX));
-    if (q1_preprocessed == NULL || q2_preprocessed == NULL) {
+    if (q1_preprocessed == NULL || q2_preprocessed == NULL
+            || q1_c1 == NULL || q2_c1 == NULL || q1_c2 == NULL || q2_c2 == NULL
+            || q1_sub == NULL || q2_sub == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
     }
@@ -202,10 +206,14 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         // Getting non-equidistant samples. qci has sample points at T0+(n+ci)*eps_t,
 		// c1 = 0.5-sqrt(3)/6, c2 = 0.5+sqrt(3)/6
 		// Getting new samples:
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		CHECK_RETCODE(ret_code, release_mem);
 
 		for (i = 0; i < Dsub; i++) {
 			q1_preprocessed[2 * i] = a1 * q1_c1[i] + a2 * q1_c2[i];
@@ -228,6 +236,10 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q1_preprocessed);
+            free(q2_preprocessed);
+        }
         free(q1_c1);
         free(q1_c2);
         free(q2_c1);
-- 
2.43.0


From 73c76b999e18d884dab263d53bd847cf767783cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:45 +0000
Subject: [PATCH 39/46] fix: nsev, manakovv: no double free when the second
 preprocessing step fails

---
 src/fnft_manakovv.c | 8 ++++----
 src/fnft_nsev.c     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 1661b91..d75d85d 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -308,10 +308,10 @@ INT fnft_manakovv(
 		// required for obtaining a second approximation of the spectrum
 		// which will be used for Richardson extrapolation.
 		Dsub = (UINT)CEIL(D / 2);
-        if (q1sub_preprocessed != NULL)
-            free(q1sub_preprocessed);
-        if (q2sub_preprocessed != NULL)
-            free(q2sub_preprocessed);
+        free(q1sub_preprocessed);
+        q1sub_preprocessed = NULL;
+        free(q2sub_preprocessed);
+        q2sub_preprocessed = NULL;
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
 			first_last_index, opts->discretization);
 		CHECK_RETCODE(ret_code, leave_fun);
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 9309fe6..9529d98 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -435,10 +435,10 @@ INT fnft_nsev(
         // required for obtaining a second approximation of the spectrum
         // which will be used for Richardson extrapolation.
         Dsub = (UINT) CEIL(D/2);
-        if (qsub_preprocessed != NULL)
-            free(qsub_preprocessed);
-        if (rsub_preprocessed != NULL)
-            free(rsub_preprocessed);
+        free(qsub_preprocessed);
+        qsub_preprocessed = NULL;
+        free(rsub_preprocessed);
+        rsub_preprocessed = NULL;
         ret_code = nse_discretization_preprocess_signal(D, q, eps_t, kappa, &Dsub, &qsub_preprocessed, &rsub_preprocessed,
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From 5c2357ddf90a9624eb2a9738e3c7b300bbc978eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:33 +0000
Subject: [PATCH 40/46] fix: poly_roots_fasteigen: results do not depend on a
 hidden random number state

---
 src/3rd_party/eiscor/z_upr1fact_startchase.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1fact_startchase.f90 b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
index b9538f0..db7da26 100644
--- a/src/3rd_party/eiscor/z_upr1fact_startchase.f90
+++ b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
@@ -64,10 +64,10 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   complex(8) :: shift, A(2,2)
   
   ! compute shift
-  ! random shift
+  ! exceptional shift (quasi-random, such that the roots only depend on the input)
   if ((mod(ITCNT,20).EQ.0).AND.(ITCNT.GT.0)) then
-    call random_number(G(1))
-    call random_number(G(2))
+    G(1) = mod(0.6180339887498949d0*ITCNT,1d0)
+    G(2) = mod(0.7548776662466927d0*ITCNT,1d0)
     shift = cmplx(G(1),G(2),kind=8)
           
   ! wilkinson shift
-- 
2.43.0


From 7e07704ae6cb4d5c63ce097e9bbe21213766770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:43 +0000
Subject: [PATCH 41/46] fix: bound state scattering returned an uninitialised
 norming constant when no sample gives a finite error metric

---
 src/private/fnft__akns_scatter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 3011eaa..c46068f 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -834,6 +834,7 @@ INT akns_scatter_bound_states(UINT const D,
             CHECK_RETCODE(ret_code, leave_fun);
 
             REAL error_metric = INFINITY, tmp = INFINITY;
+            b_vals[neig] = NAN; // In case that the metric is nowhere finite
             for (UINT n = 0; n <= D_given; n++){
                 COMPLEX * const psi_S = &f_S[0], * const phi_S = &f_S[2], b_temp[2];
                 // Calculate phi and psi for this sample in S basis
-- 
2.43.0


From 2d2816fea711c68ff02b7f82636f79f865c5ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:43 +0000
Subject: [PATCH 42/46] fix: fnft_kdvv grid search returns as many bound states
 as fit, as documented, instead of failing

---
 src/fnft_kdvv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 5931300..24f275a 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -665,15 +665,15 @@ static inline INT kdvv_compute_boundstates(
             for (i = 0; i < M; i++) {
                 if (scatter_coeffs[4*i]==0) {
                     if (K>=*K_ptr) { // Lucky us: Exact bound state found
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+                        break;
                     }
                     bound_states[K]=xi[i];
                     K++;
                 } else if ( i>0 && CREAL(scatter_coeffs[4*i])*CREAL(scatter_coeffs[4*(i-1)])<0) {
                     if (K>=*K_ptr) { // Bound state between this sample and the previous
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+                        break;
                     }
                     
                     // Zero crossing estimate with regula falsi:
-- 
2.43.0


From d249b4761e70fbda76f3cb8842edbb4afe1b6033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:43 +0000
Subject: [PATCH 43/46] fix: fnft_nsev_max_K and fnft_manakovv_max_K take the
 upsampling factor into account

---
 src/fnft_manakovv.c | 6 ++++--
 src/fnft_nsev.c     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index d75d85d..95809dc 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -53,9 +53,11 @@ fnft_manakovv_opts_t fnft_manakovv_default_opts()
 UINT fnft_manakovv_max_K(const UINT D, fnft_manakovv_opts_t const* const opts)
 {
 	if (opts != NULL)
-		return manakov_discretization_degree(opts->discretization) * D;
+		return manakov_discretization_degree(opts->discretization)
+			* manakov_discretization_upsampling_factor(opts->discretization) * D;
 	else
-		return manakov_discretization_degree(default_opts.discretization) * D;
+		return manakov_discretization_degree(default_opts.discretization)
+			* manakov_discretization_upsampling_factor(default_opts.discretization) * D;
 }
 
 /**
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 9529d98..52d11b8 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -55,9 +55,11 @@ fnft_nsev_opts_t fnft_nsev_default_opts()
 UINT fnft_nsev_max_K(const UINT D, fnft_nsev_opts_t const * const opts)
 {
     if (opts != NULL)
-        return nse_discretization_degree(opts->discretization) * D;
+        return nse_discretization_degree(opts->discretization)
+            * nse_discretization_upsampling_factor(opts->discretization) * D;
     else
-        return nse_discretization_degree(default_opts.discretization) * D;
+        return nse_discretization_degree(default_opts.discretization)
+            * nse_discretization_upsampling_factor(default_opts.discretization) * D;
 }
 
 /**
-- 
2.43.0


From 62de03bd27a0b058a127f4ca3a8bdc8f1fbba7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:43 +0000
Subject: [PATCH 44/46] fix: fnft_nsev_inverse: propagate eigenfunctions
 correctly where |q|^2 equals minus the squared bound state

---
 src/fnft_nsev_inverse.c | 52 ++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 6cb0553..1a02ebf 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -989,30 +989,22 @@ static INT compute_eigenfunctions(
         ks = (-(CABS(q[0])*CABS(q[0]))-(l*l));
         k = CSQRT(ks);
         ch = CCOSH(k*eps_t);
-        sh = CSINH(k*eps_t)/k;
+        sh = (ks == 0) ? eps_t : CSINH(k*eps_t)/k; // limit for k->0
         u1 = l*sh*I;
         for (n = 1; n < D; n++){
             //First half-step
-            if (ks != 0){
-                phi1_ptr[n] = (ch-u1)*phi1_ptr[n-1] + (q[n-1]*sh)*phi2_ptr[n-1];
-                phi2_ptr[n] = (-CONJ(q[n-1])*sh)*phi1_ptr[n-1] + (ch + u1)*phi2_ptr[n-1];
-            }
-            else{
-                phi1_ptr[n] = phi1_ptr[n-1];
-                phi2_ptr[n] = phi2_ptr[n-1];
-            }
+            phi1_ptr[n] = (ch-u1)*phi1_ptr[n-1] + (q[n-1]*sh)*phi2_ptr[n-1];
+            phi2_ptr[n] = (-CONJ(q[n-1])*sh)*phi1_ptr[n-1] + (ch + u1)*phi2_ptr[n-1];
             //Second half-step
             ks = (-(CABS(q[n])*CABS(q[n]))-(l*l));
             k = CSQRT(ks);
             ch = CCOSH(k*eps_t);
-            sh = CSINH(k*eps_t)/k;
+            sh = (ks == 0) ? eps_t : CSINH(k*eps_t)/k; // limit for k->0
             u1 = l*sh*I;
-            if (ks != 0){
-                tmp1 = (ch-u1)*phi1_ptr[n] + (q[n]*sh)*phi2_ptr[n];
-                tmp2 = (-CONJ(q[n])*sh)*phi1_ptr[n] + (ch + u1)*phi2_ptr[n];
-                phi1_ptr[n] = tmp1;
-                phi2_ptr[n] = tmp2;
-            }
+            tmp1 = (ch-u1)*phi1_ptr[n] + (q[n]*sh)*phi2_ptr[n];
+            tmp2 = (-CONJ(q[n])*sh)*phi1_ptr[n] + (ch + u1)*phi2_ptr[n];
+            phi1_ptr[n] = tmp1;
+            phi2_ptr[n] = tmp2;
         }
     }
     // computing-psi
@@ -1028,32 +1020,24 @@ static INT compute_eigenfunctions(
         ks = (-(CABS(q[D-1])*CABS(q[D-1]))-(l*l));
         k = CSQRT(ks);
         ch = CCOSH(k*eps_t);
-        sh = CSINH(k*eps_t)/k;
+        sh = (ks == 0) ? eps_t : CSINH(k*eps_t)/k; // limit for k->0
         u1 = l*sh*I;
         for (n = D-1; n > 0; n--){
             //First half-step
-            if (ks != 0){
-                scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n])*sh)*(q[n]*sh));
-                psi1_ptr[n-1] = ((ch + u1)*psi1_ptr[n] + (-q[n]*sh)*psi2_ptr[n])/scl;
-                psi2_ptr[n-1] = ((CONJ(q[n])*sh)*psi1_ptr[n] + (ch - u1)*psi2_ptr[n])/scl;
-            }
-            else{
-                psi1_ptr[n-1] = psi1_ptr[n];
-                psi2_ptr[n-1] = psi2_ptr[n];
-            }
+            scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n])*sh)*(q[n]*sh));
+            psi1_ptr[n-1] = ((ch + u1)*psi1_ptr[n] + (-q[n]*sh)*psi2_ptr[n])/scl;
+            psi2_ptr[n-1] = ((CONJ(q[n])*sh)*psi1_ptr[n] + (ch - u1)*psi2_ptr[n])/scl;
             //Second half-step
             ks = (-(CABS(q[n-1])*CABS(q[n-1]))-(l*l));
             k = CSQRT(ks);
             ch = CCOSH(k*eps_t);
-            sh = CSINH(k*eps_t)/k;
+            sh = (ks == 0) ? eps_t : CSINH(k*eps_t)/k; // limit for k->0
             u1 = l*sh*I;
-            if (ks != 0){
-                scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n-1])*sh)*(q[n-1]*sh));
-                tmp1 = ((ch + u1)*psi1_ptr[n-1] + (-q[n-1]*sh)*psi2_ptr[n-1])/scl;
-                tmp2 = ((CONJ(q[n-1])*sh)*psi1_ptr[n-1] + (ch - u1)*psi2_ptr[n-1])/scl;
-                psi1_ptr[n-1] = tmp1;
-                psi2_ptr[n-1] = tmp2;
-            }
+            scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n-1])*sh)*(q[n-1]*sh));
+            tmp1 = ((ch + u1)*psi1_ptr[n-1] + (-q[n-1]*sh)*psi2_ptr[n-1])/scl;
+            tmp2 = ((CONJ(q[n-1])*sh)*psi1_ptr[n-1] + (ch - u1)*psi2_ptr[n-1])/scl;
+            psi1_ptr[n-1] = tmp1;
+            psi2_ptr[n-1] = tmp2;
         }
     }
     return ret_code;
-- 
2.43.0


From 16ab08b50ddc7ca51d9933650e0fefb6327c82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:43 +0000
Subject: [PATCH 45/46] fix: poly_specfact: the Hilbert transform was scaled in
 single precision

---
 src/private/fnft__poly_specfact.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__poly_specfact.c b/src/private/fnft__poly_specfact.c
index 7e3fcf7..1cfcabb 100644
--- a/src/private/fnft__poly_specfact.c
+++ b/src/private/fnft__poly_specfact.c
@@ -117,10 +117,10 @@ INT poly_specfact(const UINT deg,
 
     buf_in[0] = 0.0;
     for (i=1; i<M/2-1; i++)
-        buf_in[i] *= -I/M;
+        buf_in[i] *= -I/(REAL)M; // I is a float constant
     buf_in[M/2-1] = 0.0;
     for (i=M/2; i<M; i++)
-        buf_in[i] *= I/M;
+        buf_in[i] *= I/(REAL)M;
 
     ret_code = fft_wrapper_execute_plan(plan_inv, buf_in, buf_out);
     CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From 5b8a291a655aa7bcae7b51e33161f40cc025e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:03 +0000
Subject: [PATCH 46/46] fix: misc_resample treated the highest positive
 harmonic of odd-length signals as a negative frequency

---
 src/private/fnft__misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__misc.c b/src/private/fnft__misc.c
index 1eb21d4..f337bbd 100644
--- a/src/private/fnft__misc.c
+++ b/src/private/fnft__misc.c
@@ -350,9 +350,9 @@ INT misc_resample(const UINT D, const REAL eps_t, COMPLEX const * const q,
     
     const REAL scl_factor = (REAL)D*eps_t;
     // Applying phase shift
-    for (i = 0; i <D/2; i++)
+    for (i = 0; i < (D+1)/2; i++)
         freq[i] = i/scl_factor;
-    for (i = D/2; i < D; i++)
+    for (i = (D+1)/2; i < D; i++)
         freq[i] = ((REAL)i - (REAL)D)/scl_factor;
 
     for (i = 0; i < D; i++) {
-- 
2.43.0

