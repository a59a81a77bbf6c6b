From df8babeec0cf89606b381ac751903fce964ae613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 01/63] fix: manakov preprocessing: check allocations and
 resampling, free buffers on error

---
 src/private/fnft__manakov_discretization.c | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index ca07500..eb9c4fa 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -119,6 +119,8 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     COMPLEX *q2_c2 = NULL;
     COMPLEX *q1_sub = NULL;
     COMPLEX *q2_sub = NULL;
+    COMPLEX *q1_preprocessed = NULL;
+    COMPLEX *q2_preprocessed = NULL;
 
     // Check inputs
     if (D < 2)
@@ -156,15 +158,17 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         goto release_mem;
     }
     D_effective = Dsub*upsampling_factor;
-    COMPLEX * const q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     q1_c1 = malloc(Dsub*sizeof(COMPLEX));
     q2_c1 = malloc(Dsub*sizeof(COMPLEX));
     q1_c2 = malloc(Dsub*sizeof(COMPLEX));
     q2_c2 = malloc(Dsub*sizeof(COMPLEX));
     q1_sub = malloc(Dsub * sizeof(COMPLEX));
 	q2_sub = malloc(Dsub * sizeof(COMPLEX));
-    if (q1_preprocessed == NULL || q2_preprocessed == NULL) {
+    if (q1_preprocessed == NULL || q2_preprocessed == NULL || q1_c1 == NULL
+            || q2_c1 == NULL || q1_c2 == NULL || q2_c2 == NULL
+            || q1_sub == NULL || q2_sub == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
     }
@@ -200,10 +204,14 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         // Getting non-equidistant samples. qci has sample points at T0+(n+ci)*eps_t,
 		// c1 = 0.5-sqrt(3)/6, c2 = 0.5+sqrt(3)/6
 		// Getting new samples:
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		CHECK_RETCODE(ret_code, release_mem);
 
 		for (i = 0; i < Dsub; i++) {
 			q1_preprocessed[2 * i] = a1 * q1_c1[i] + a2 * q1_c2[i];
@@ -226,6 +234,10 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q1_preprocessed);
+            free(q2_preprocessed);
+        }
         free(q1_c1);
         free(q1_c2);
         free(q2_c1);
-- 
2.43.0


From fafbe5b6d358e89555815a1c410d4fc16c2acfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 02/63] fix: manakov BO scattering: removable singularity at
 lambda^2+kappa*|q|^2=0 gave NaN

---
 src/private/fnft__manakov_scatter.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/private/fnft__manakov_scatter.c b/src/private/fnft__manakov_scatter.c
index 4d63958..0ecd778 100644
--- a/src/private/fnft__manakov_scatter.c
+++ b/src/private/fnft__manakov_scatter.c
@@ -51,19 +51,20 @@ static inline void manakov_scatter_U_BO(COMPLEX const q1,       // calculates th
 	}else{
     COMPLEX x1 = CSQRT(lam*lam + kappa*q1*CONJ(q1) + kappa*q2*CONJ(q2));
     COMPLEX x2  = eps_t*x1*I;
+    COMPLEX x4 = I*eps_t*misc_CSINC(eps_t*x1); // sinh(x2)/x1, also for x1=0
     COMPLEX x3 = q1*CONJ(q1)+q2*CONJ(q2);
 
-        U[0] = -(lam/x1)*CSINH(x2)+CCOSH(x2);
-        U[1] = -(I*q1/x1)*CSINH(x2);
-        U[2] = -(I*q2/x1)*CSINH(x2);
+        U[0] = -lam*x4+CCOSH(x2);
+        U[1] = -I*q1*x4;
+        U[2] = -I*q2*x4;
 
-        U[3] = (I*kappa*CONJ(q1)/x1)*CSINH(x2);
-        U[4] = (q1*CONJ(q1)/x3)*(CCOSH(x2) + (lam/x1)*CSINH(x2)) + q2*CONJ(q2)*CEXP(eps_t*lam*I)/x3;
-        U[5] = (q2*CONJ(q1)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + (lam/x1)*CSINH(x2));
+        U[3] = I*kappa*CONJ(q1)*x4;
+        U[4] = (q1*CONJ(q1)/x3)*(CCOSH(x2) + lam*x4) + q2*CONJ(q2)*CEXP(eps_t*lam*I)/x3;
+        U[5] = (q2*CONJ(q1)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + lam*x4);
 
-        U[6] = (I*kappa*CONJ(q2)/x1)*CSINH(x2);
-        U[7] = (q1*CONJ(q2)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + (lam/x1)*CSINH(x2));
-        U[8] = (q2*CONJ(q2)/x3)*(CCOSH(x2) + (lam/x1)*CSINH(x2)) + q1*CONJ(q1)*CEXP(eps_t*lam*I)/x3;
+        U[6] = I*kappa*CONJ(q2)*x4;
+        U[7] = (q1*CONJ(q2)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + lam*x4);
+        U[8] = (q2*CONJ(q2)/x3)*(CCOSH(x2) + lam*x4) + q1*CONJ(q1)*CEXP(eps_t*lam*I)/x3;
     }
 
 }
-- 
2.43.0


From 1bb1ffbab1e2bd21f258463152e22477d80d6160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 03/63] fix: eiscor startchase: do not read the empty flag
 array when N=2

---
 src/3rd_party/eiscor/z_upr1fact_startchase.f90 | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1fact_startchase.f90 b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
index b9538f0..031736d 100644
--- a/src/3rd_party/eiscor/z_upr1fact_startchase.f90
+++ b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
@@ -58,11 +58,17 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   
   ! compute variables
   integer :: ir1, ir2, id1, id2
-  logical :: tp(2)
+  logical :: tp(2), p1
   real(8) :: Ginv(3)
   real(8) :: tq(6), td(6), tc(9), tb(9)
   complex(8) :: shift, A(2,2)
   
+  ! position flag of the first core, P is empty if N = 2
+  p1 = .FALSE.
+  if (N.GT.2) then
+    p1 = P(1)
+  end if
+
   ! compute shift
   ! random shift
   if ((mod(ITCNT,20).EQ.0).AND.(ITCNT.GT.0)) then
@@ -112,7 +118,7 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
 !print*,""
 
   ! build bulge
-  call z_upr1fact_buildbulge(P(1),Q(1:3),D(1:4),C(1:6),B(1:6),shift,G)
+  call z_upr1fact_buildbulge(p1,Q(1:3),D(1:4),C(1:6),B(1:6),shift,G)
 
   ! set Ginv
   Ginv(1) = G(1)
@@ -133,7 +139,7 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   
   ! initialize turnover 
   ! hess
-  if (.NOT.P(1)) then
+  if (.NOT.p1) then
   
     ! fuse Ginv and Q, Ginv is now a diagonal rotation
     call z_rot3_fusion(.FALSE.,Ginv,Q(1:3))
-- 
2.43.0


From f2ea169b5e255c7fa6c51f79e4a88637ce1c9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 04/63] fix: eiscor exceptional shift came from the global
 random number state, roots depended on earlier calls

---
 src/3rd_party/eiscor/z_upr1fact_startchase.f90 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1fact_startchase.f90 b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
index 031736d..f852b8e 100644
--- a/src/3rd_party/eiscor/z_upr1fact_startchase.f90
+++ b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
@@ -70,10 +70,11 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   end if
 
   ! compute shift
-  ! random shift
+  ! exceptional shift, a fixed quasi-random sequence because
+  ! the result should not depend on earlier calls
   if ((mod(ITCNT,20).EQ.0).AND.(ITCNT.GT.0)) then
-    call random_number(G(1))
-    call random_number(G(2))
+    G(1) = mod(0.6180339887498949d0*(ITCNT/20),1d0)
+    G(2) = mod(0.7548776662466927d0*(ITCNT/20),1d0)
     shift = cmplx(G(1),G(2),kind=8)
           
   ! wilkinson shift
-- 
2.43.0


From f3c612f91823f9c6a25bc29c7057d49e4e8dc8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 05/63] fix: nsev changed the user's options and the shared
 default options while running

---
 src/fnft_nsev.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 2e491e8..6f79380 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -183,8 +183,10 @@ INT fnft_nsev(
         if (K_ptr == NULL)
             return E_INVALID_ARGUMENT(K_ptr);
     }
-    if (opts == NULL)
-        opts = &default_opts;
+    // Work on a copy: some options are changed temporarily below, which must
+    // neither affect the options of the user nor the default options
+    fnft_nsev_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
+    opts = &opts_copy;
 
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
-- 
2.43.0


From b51dad1f4af125c3b4261dfe95ede13a39b4c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 06/63] fix: nsev Richardson extrapolation wrote past or
 dereferenced absent arrays, residues could stay unset

---
 src/fnft_nsev.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 6f79380..79cacd2 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -261,7 +261,8 @@ INT fnft_nsev(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == nsev_dstype_RESIDUES){
+        if (ds_type_opt == nsev_dstype_RESIDUES && bound_states != NULL
+                && normconsts_or_residues != NULL){
             opts->discspec_type = nsev_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -319,7 +320,7 @@ INT fnft_nsev(
         opts->bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE;
     } else {
         ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                    bound_states, normconsts_or_residues, kappa, opts);
+                    bound_states, normconsts_or_residues_reserve, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
     }
 
@@ -364,11 +365,11 @@ INT fnft_nsev(
                     ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
                     goto leave_fun;
             }
-            normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
-            if (normconsts_or_residues_sub == NULL || bound_states_sub == NULL) {
-                ret_code = E_NOMEM;
-                goto leave_fun;
+            if (normconsts_or_residues != NULL) {
+                normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
+                CHECK_NOMEM(normconsts_or_residues_sub, ret_code, leave_fun);
             }
+            CHECK_NOMEM(bound_states_sub, ret_code, leave_fun);
             for (i=0; i<K_sub; i++)
                 bound_states_sub[i] = bound_states[i];
         }
@@ -384,10 +385,10 @@ INT fnft_nsev(
         // required for obtaining a second approximation of the spectrum
         // which will be used for Richardson extrapolation.
         Dsub = (UINT) CEIL(D/2);
-        if (qsub_preprocessed != NULL)
-            free(qsub_preprocessed);
-        if (rsub_preprocessed != NULL)
-            free(rsub_preprocessed);
+        free(qsub_preprocessed);
+        free(rsub_preprocessed);
+        qsub_preprocessed = NULL;
+        rsub_preprocessed = NULL;
         ret_code = nse_discretization_preprocess_signal(D, q, eps_t, kappa, &Dsub, &qsub_preprocessed, &rsub_preprocessed,
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
@@ -409,8 +410,8 @@ INT fnft_nsev(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -437,7 +438,8 @@ INT fnft_nsev(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH){
+                    if (normconsts_or_residues != NULL
+                    && (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -448,11 +450,12 @@ INT fnft_nsev(
                     }
                 }
             }
-            if (ds_type_opt == nsev_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == nsev_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // The reserve contains norming constants followed by residues, but the
+        // user only requested the latter
+        if (kappa == +1 && normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues, normconsts_or_residues_reserve + *K_ptr,
+                    *K_ptr * sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From 907074e277e00b37121569779243bb23de14660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 07/63] fix: nsev leaked memory on several error paths

---
 src/fnft_nsev.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 79cacd2..3419721 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -829,7 +829,7 @@ static inline INT nsev_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(2*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     H21_vals = H11_vals + M;
 
@@ -895,7 +895,7 @@ static inline INT nsev_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -1007,13 +1007,17 @@ static inline INT nsev_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(COMPLEX));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From f44dbbb0a3e7738fcdf02c9e8010acfc58ed405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 08/63] fix: nsev division by zero if more subsamples than
 samples are requested

---
 src/fnft_nsev.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 3419721..6b0f3d1 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -293,6 +293,8 @@ INT fnft_nsev(
         Dsub = opts->Dsub;
         if (Dsub == 0) // The user wants us to determine Dsub
             Dsub = (UINT) SQRT(D * LOG2(D) * LOG2(D));
+        if (Dsub > D)
+            Dsub = D;
         nskip_per_step = (UINT) ROUND((REAL)D / Dsub);
         Dsub = (UINT) ROUND((REAL)D / nskip_per_step); // actual Dsub
 
-- 
2.43.0


From 11cda09ac3025661529b04ccc0c5391554220044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 09/63] fix: nsev performed only half of the requested Newton
 iterations

---
 src/fnft_nsev.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 6b0f3d1..82dec25 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -1097,7 +1097,6 @@ static inline INT nsev_refine_bound_states_newton(
             // We don't have to scale a and a' by 2^W because that factor cancels.
             error = a_val / aprime_val;
             bound_states[i] -= error;
-            iter++;
             if (CIMAG(bound_states[i]) > bounding_box[3]
                     || CREAL(bound_states[i]) > bounding_box[1]
                     || CREAL(bound_states[i]) < bounding_box[0]
-- 
2.43.0


From 0000405dc68933ed82f37b9aba452fc450a7c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 10/63] fix: manakovv changed the user's options and the shared
 default options while running

---
 src/fnft_manakovv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index bd5fe19..71513e8 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -156,8 +156,10 @@ INT fnft_manakovv(
 		if (K_ptr == NULL)
 			return E_INVALID_ARGUMENT(K_ptr);
 	}
-	if (opts == NULL)
-		opts = &default_opts;
+	// Work on a copy: some options are changed temporarily below, which must
+	// neither affect the options of the user nor the default options
+	fnft_manakovv_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
+	opts = &opts_copy;
 
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
-- 
2.43.0


From 7f66b18a615989eeb0ce84ff256bc4857960fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 11/63] fix: manakovv Richardson extrapolation dereferenced
 absent arguments and freed buffers twice

---
 src/fnft_manakovv.c | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 71513e8..a16a430 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -131,9 +131,7 @@ INT fnft_manakovv(
 	UINT first_last_index[2] = { 0 };
 	UINT K_sub;
 	COMPLEX* contspec_sub = NULL;
-	COMPLEX* normconsts_or_residues_reserve = NULL;
 	fnft_manakovv_bsloc_t bs_loc_opt = 0;
-	fnft_manakovv_dstype_t ds_type_opt = 0;
 	INT ret_code = SUCCESS;
 	UINT i, j, upsampling_factor;
 
@@ -201,18 +199,6 @@ INT fnft_manakovv(
 	// Determine step size
 	const REAL eps_t = (T[1] - T[0]) / (D - 1);
 
-	if (opts->richardson_extrapolation_flag == 1) {
-		ds_type_opt = opts->discspec_type;
-		if (ds_type_opt == manakovv_dstype_RESIDUES) {
-			opts->discspec_type = manakovv_dstype_BOTH;
-			normconsts_or_residues_reserve = malloc(*K_ptr * 2 * sizeof(COMPLEX));
-			if (normconsts_or_residues_reserve == NULL) {
-				ret_code = E_NOMEM;
-				goto leave_fun;
-			}
-		}
-	}
-
 	// Some higher-order discretizations require samples on a non-equidistant grid
 	// while others require derivatives. The preprocessing function computes
 	// the required non-equidistant samples using bandlimited interpolation and
@@ -292,10 +278,10 @@ INT fnft_manakovv(
 		// required for obtaining a second approximation of the spectrum
 		// which will be used for Richardson extrapolation.
 		Dsub = (UINT)CEIL(D / 2);
-        if (q1sub_preprocessed != NULL)
-            free(q1sub_preprocessed);
-        if (q2sub_preprocessed != NULL)
-            free(q2sub_preprocessed);
+        free(q1sub_preprocessed);
+        free(q2sub_preprocessed);
+        q1sub_preprocessed = NULL;
+        q2sub_preprocessed = NULL;
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
 			first_last_index, opts->discretization);
 		CHECK_RETCODE(ret_code, leave_fun);
@@ -311,13 +297,12 @@ INT fnft_manakovv(
 			NULL, kappa, opts);	// bound_states already calculated. Passing NULL for boundstates to avoid recalculating
 		CHECK_RETCODE(ret_code, leave_fun);
 		opts->bound_state_localization = bs_loc_opt;
-		opts->discspec_type = ds_type_opt;
 
 		// Richardson extrapolation of the continuous spectrum
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
-		REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 		if (contspec != NULL && M > 0) {
+			REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
 					for (j = 0; j < contspec_len; j += M)
@@ -333,8 +318,6 @@ leave_fun:
     free(q1sub_preprocessed);
 	free(q2sub_preprocessed);
 	free(contspec_sub);
-	if (normconsts_or_residues_reserve != normconsts_or_residues)
-		free(normconsts_or_residues_reserve);
 	return ret_code;
 }
 
-- 
2.43.0


From 80319e7e3b4ae9b8be4594c42a2da5af7b87187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 12/63] fix: manakovv bound states depended on whether the
 continuous spectrum is requested and used a wrong step size after subsampling

---
 src/fnft_manakovv.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index a16a430..754f9f6 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -212,10 +212,6 @@ INT fnft_manakovv(
 	CHECK_RETCODE(ret_code, leave_fun);
 
 	if (contspec != NULL){
-		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, NULL, XI, K_ptr,
-			bound_states, kappa, opts);
-		CHECK_RETCODE(ret_code, leave_fun);
-
 		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, contspec, XI, K_ptr,
 			NULL, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
@@ -235,7 +231,9 @@ INT fnft_manakovv(
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
 
-		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, T, M, NULL, XI, K_ptr,
+		Tsub[0] = T[0] + first_last_index[0] * eps_t;
+		Tsub[1] = T[0] + first_last_index[1] * eps_t;
+		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
 	}
-- 
2.43.0


From 0a8c10c7606d5d4adfdbae12ff8ee573c8dea4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 13/63] fix: manakovv did not report that there are no bound
 states

---
 src/fnft_manakovv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 754f9f6..91bafda 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -236,6 +236,8 @@ INT fnft_manakovv(
 		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
+	} else if (K_ptr != NULL) {
+		*K_ptr = 0; // there are no bound states
 	}
 
 	if (opts->richardson_extrapolation_flag == 1) {
-- 
2.43.0


From 84a7ae224b3030775f48815e194ed3b4713237cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 14/63] fix: manakovv division by zero if more subsamples than
 samples are requested

---
 src/fnft_manakovv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 91bafda..c5c9558 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -224,6 +224,8 @@ INT fnft_manakovv(
 		Dsub = opts->Dsub;
         if (Dsub == 0) // The user wants us to determine Dsub
             Dsub = SQRT(D * LOG2(D) * LOG2(D));
+        if (Dsub > D)
+            Dsub = D;
         UINT nskip_per_step = ROUND((REAL)D / Dsub);
         Dsub = ROUND((REAL)D / nskip_per_step); // actual Dsub
 
-- 
2.43.0


From 60eb286f43bd18859fd281a138842770964ad52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 15/63] fix: manakovv leaked memory on error paths

---
 src/fnft_manakovv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index c5c9558..0c0ede9 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -543,7 +543,7 @@ static inline INT manakovv_compute_contspec(
 	// Allocate memory for transfer matrix values
 	H11_vals = malloc(3 * M * sizeof(COMPLEX));
 	if (H11_vals == NULL) {
-		return E_NOMEM;
+		ret_code = E_NOMEM;
 		goto leave_fun;
 	}
 	H21_vals = H11_vals + M;
@@ -610,7 +610,7 @@ static inline INT manakovv_compute_contspec(
 
 		for (i = 0; i < M; i++) {
 			if (H11_vals[i] == 0.0) {
-				return E_DIV_BY_ZERO;
+				ret_code = E_DIV_BY_ZERO;
 				goto leave_fun;
 			}
 			result[i] = H21_vals[i] * CEXP(I * xi[i] * phase_factor_rho) / H11_vals[i];
-- 
2.43.0


From c81ef045c53df6da4bfc33affb503a0cd1c5b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 16/63] fix: manakov order of BO and CF4_2 was missing,
 extrapolation failed

---
 src/private/fnft__manakov_discretization.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index eb9c4fa..d530d7a 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -91,6 +91,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_2SPLIT4B:
         case manakov_discretization_2SPLIT4A:
         case manakov_discretization_2SPLIT6B:
+        case manakov_discretization_BO:
             return 2;
         case manakov_discretization_4SPLIT4A:
         case manakov_discretization_4SPLIT4B:
@@ -98,6 +99,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_FTES4_4A:
         case manakov_discretization_FTES4_4B:
 		case manakov_discretization_FTES4_suzuki:
+        case manakov_discretization_CF4_2:
             return 4;
 
         default: // discretization not implemented for manakov
-- 
2.43.0


From a0d2aaecbd463f210505558c63c1210d00fe7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 17/63] fix: kdvv changed the user's options and the shared
 default options while running

---
 src/fnft_kdvv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index bcd66c5..4632666 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -168,8 +168,10 @@ INT fnft_kdvv(
             return E_INVALID_ARGUMENT(XI);
     }
 
-    if (opts == NULL)
-        opts = &default_opts;
+    // Work on a copy: some options are changed temporarily below, which must
+    // neither affect the options of the user nor the default options
+    fnft_kdvv_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
+    opts = &opts_copy;
 
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
-- 
2.43.0


From 4698b89d8b3f992d2a3ef345e09f7388085c3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 18/63] fix: kdvv Richardson extrapolation wrote past or
 dereferenced absent arrays, residues could stay unset

---
 src/fnft_kdvv.c | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 4632666..8b1f63f 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -163,7 +163,7 @@ INT fnft_kdvv(
         if (XI == NULL || XI[0] >= XI[1])
             return E_INVALID_ARGUMENT(XI);
     }
-    for (i=0; i<M; i++){
+    for (i=0; contspec != NULL && i<M; i++){
         if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
             return E_INVALID_ARGUMENT(XI);
     }
@@ -217,7 +217,8 @@ INT fnft_kdvv(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == kdvv_dstype_RESIDUES){
+        if (ds_type_opt == kdvv_dstype_RESIDUES && bound_states != NULL
+                && normconsts_or_residues != NULL){
             opts->discspec_type = kdvv_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -240,7 +241,7 @@ INT fnft_kdvv(
     CHECK_RETCODE(ret_code, leave_fun);
 
     ret_code = fnft_kdvv_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                bound_states, normconsts_or_residues, kappa, opts);
+                bound_states, normconsts_or_residues_reserve, kappa, opts);
     CHECK_RETCODE(ret_code, leave_fun);
 
     if (opts->richardson_extrapolation_flag == 1){
@@ -284,11 +285,11 @@ INT fnft_kdvv(
                     ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
                     goto leave_fun;
             }
-            normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
-            if (normconsts_or_residues_sub == NULL || bound_states_sub == NULL) {
-                ret_code = E_NOMEM;
-                goto leave_fun;
+            if (normconsts_or_residues != NULL) {
+                normconsts_or_residues_sub = malloc(discspec_len * sizeof(COMPLEX));
+                CHECK_NOMEM(normconsts_or_residues_sub, ret_code, leave_fun);
             }
+            CHECK_NOMEM(bound_states_sub, ret_code, leave_fun);
             for (i=0; i<K_sub; i++)
                 bound_states_sub[i] = bound_states[i];
         }
@@ -325,8 +326,8 @@ INT fnft_kdvv(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -353,7 +354,8 @@ INT fnft_kdvv(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH){
+                    if (normconsts_or_residues != NULL
+                    && (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -364,11 +366,12 @@ INT fnft_kdvv(
                     }
                 }
             }
-            if (ds_type_opt == kdvv_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == kdvv_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // The reserve contains norming constants followed by residues, but the
+        // user only requested the latter
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues, normconsts_or_residues_reserve + *K_ptr,
+                    *K_ptr * sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From 8efe2d16d86d60da0c7ad6e0d8da6bf645373f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 19/63] fix: kdvv leaked memory on several error paths

---
 src/fnft_kdvv.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 8b1f63f..027823a 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -749,7 +749,7 @@ static inline INT kdvv_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(4*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     COMPLEX * const H12_vals = H11_vals + M;
     COMPLEX * const H21_vals = H12_vals + M;
@@ -854,7 +854,7 @@ static inline INT kdvv_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -958,13 +958,17 @@ static inline INT kdvv_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(complex double));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // if normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 88198d77afdd2b035175360abb6679d89a27215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 20/63] fix: kdvv search grid was coarser than grid_spacing, no
 search at all for large spacings

---
 src/fnft_kdvv.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 027823a..3f066a6 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -589,11 +589,7 @@ static inline INT kdvv_compute_boundstates(
             }
             UINT M = 0;
             if (opts->grid_spacing > 0) {
-                M = CEIL(dist/opts->grid_spacing);
-                if (M<2) {
-                    *K_ptr = 0;
-                    goto leave_fun;
-                }   
+                M = CEIL(dist/opts->grid_spacing) + 1;
             } else {
                 ret_code = E_INVALID_ARGUMENT(opts->grid_spacing);
                 goto leave_fun;
-- 
2.43.0


From 744d411a3ccd737ca69d355ced65c6e176549b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 21/63] fix: kdvv failed instead of returning as many bound
 states as possible

---
 src/fnft_kdvv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 3f066a6..df18500 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -629,15 +629,15 @@ static inline INT kdvv_compute_boundstates(
             for (i = 0; i < M; i++) {
                 if (scatter_coeffs[4*i]==0) {
                     if (K>=*K_ptr) { // Lucky us: Exact bound state found
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+                        break;
                     }
                     bound_states[K]=xi[i];
                     K++;
                 } else if ( i>0 && CREAL(scatter_coeffs[4*i])*CREAL(scatter_coeffs[4*(i-1)])<0) {
                     if (K>=*K_ptr) { // Bound state between this sample and the previous
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+                        break;
                     }
                     
                     // Zero crossing estimate with regula falsi:
-- 
2.43.0


From dcaf808466952508d5c81bec25889a152f4eb960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 22/63] fix: kdvv integer division in the scaling of the regula
 falsi

---
 src/fnft_kdvv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index df18500..9615ef0 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -661,7 +661,7 @@ static inline INT kdvv_compute_boundstates(
                         // However, this can quickly lead to overflow problems. By multiplying both
                         // the numerator and denominator in Eq 1 with the factor 2^-(l[i]-l[i-1])/2,
                         // we instead arrive at the following scaling factors.
-                        const REAL s = (log_scaling_factors[i]-log_scaling_factors[i-1])/2;
+                        const REAL s = (log_scaling_factors[i]-log_scaling_factors[i-1])/2.0;
                         scl1 = POW(2, s);
                         scl2 = POW(2, -s);
                     }
-- 
2.43.0


From 8a48d91ec6d7821edf39efbe3c7bb0c788bc01de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 23/63] fix: manakovv unused parameter warning

---
 src/fnft_manakovv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 0c0ede9..f210464 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -134,6 +134,7 @@ INT fnft_manakovv(
 	fnft_manakovv_bsloc_t bs_loc_opt = 0;
 	INT ret_code = SUCCESS;
 	UINT i, j, upsampling_factor;
+	(void)normconsts_or_residues; // currently not used
 
 	// Check inputs
 	if (D < 2)
-- 
2.43.0


From 7b085f4a63834372ef266e4196c9559b1ddee505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 24/63] fix: nsep changed the user's options and the shared
 default options while running

---
 src/fnft_nsep.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 955a70d..5954801 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -102,6 +102,7 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
     INT warn_flags[2] = { 0, 0 }; // 0 = no warning about too many points so
     // far, 1st val is for main spec, 2nd for aux
     COMPLEX *q_preprocessed = NULL;
+    fnft_nsep_opts_t opts;
 
     // Check inputs
     // D (and Dsub in line 493) only need to be even to ensure that deg in line 279 and 537 are also even for all discretizations.
@@ -122,8 +123,9 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         return E_INVALID_ARGUMENT(M_ptr);
     if (sheet_indices != NULL)
         return E_NOT_YET_IMPLEMENTED(sheet_indices, Pass sheet_indices="NULL".);
-    if (opts_ptr == NULL)
-        opts_ptr = &default_opts;
+    // Work on a copy of the options (the bounding box is changed below)
+    opts = (opts_ptr == NULL) ? default_opts : *opts_ptr;
+    opts_ptr = &opts;
     if (opts_ptr->filtering != fnft_nsep_filt_NONE && main_spec == NULL && aux_spec != NULL)
         return E_INVALID_ARGUMENT(main_spec. Filtering of the auxiliary spectrum is not possible if the main spectrum is not computed.);
 
@@ -225,11 +227,6 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         aux_spec[i] += Lam_shift;
     }
 
-    // Restoring changed limits
-    if (opts_ptr->filtering == fnft_nsep_filt_MANUAL){
-        opts_ptr->bounding_box[0] += Lam_shift;
-        opts_ptr->bounding_box[1] += Lam_shift;
-    }
         leave_fun:
             free(q_preprocessed);
             return ret_code;
-- 
2.43.0


From 0c8635f04aab39cc50ec82bb40f34c3f71eef14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 25/63] fix: nsep leaked memory on error paths, ignored failure
 of the aux spectrum root finder

---
 src/fnft_nsep.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 5954801..efa37d5 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -174,8 +174,10 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
             // Store lengths of still unused parts of user-provided arrays in temp
             // variables
-            if (K1 > *K_ptr || M1 > *M_ptr)
-                return E_ASSERTION_FAILED;
+            if (K1 > *K_ptr || M1 > *M_ptr) {
+                ret_code = E_ASSERTION_FAILED;
+                goto leave_fun;
+            }
             K2 = *K_ptr - K1;
             M2 = *M_ptr - M1;
 
@@ -216,7 +218,8 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         default:
 
-            return E_INVALID_ARGUMENT(opts_ptr->discretization);
+            ret_code = E_INVALID_ARGUMENT(opts_ptr->localization);
+            goto leave_fun;
     }
     if (main_spec != NULL) {
     for (i=0; i < *K_ptr; i++)
@@ -298,8 +301,10 @@ static inline INT gridsearch(const UINT D,
 
     // Will be required later for coordinate transforms
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step) { // i.e., NaN
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0];
@@ -517,10 +522,12 @@ static inline INT subsample_and_refine(const UINT D,
     CHECK_RETCODE(ret_code, release_mem);
 
     nskip_per_step = D/Dsub;
-    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D )
-        return E_ASSERTION_FAILED; // Correct update of T for general
-                                   // downsampling still needs to be
-                                 // implemented
+    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D ) {
+        ret_code = E_ASSERTION_FAILED; // Correct update of T for general
+                                       // downsampling still needs to be
+                                       // implemented
+        goto release_mem;
+    }
 
     if (upsampling_factor == 2) {
         nse_discretization = nse_discretization_CF4_2;
@@ -558,8 +565,10 @@ static inline INT subsample_and_refine(const UINT D,
 
     // Will be required later for coordinate transforms and filtering
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step) { // i.e., NaN
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t_sub, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[3] - opts_ptr->bounding_box[2];
@@ -665,7 +674,7 @@ static inline INT subsample_and_refine(const UINT D,
     if (aux_spec != NULL) {
         ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
                 roots);
-
+        CHECK_RETCODE(ret_code, release_mem);
 
         // Set number of points in the aux spectrum
         M = deg;
@@ -783,8 +792,10 @@ static inline INT newton(const UINT D,
 
     // Will be required later for coordinate transforms and filtering
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step != degree1step) { // i.e., NaN
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[1] - opts_ptr->bounding_box[0];
-- 
2.43.0


From 6cdbb1e94945632ae4122f88c87025bf4f5d197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:12 +0000
Subject: [PATCH 26/63] fix: nsep grid search returned an uninitialized number
 of main spectrum points if only the aux spectrum is requested

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index efa37d5..58a0f28 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -252,7 +252,7 @@ static inline INT gridsearch(const UINT D,
     REAL PHI[2] = { 0.0, 2.0*PI };
     UINT deg;
     INT W = 0, *W_ptr = NULL;
-    UINT K, K_filtered;
+    UINT K = 0, K_filtered;
     UINT M = 0;
     UINT i, upsampling_factor, D_effective;// upsampling_factor*D gives the effective number of samples
     INT ret_code = SUCCESS;
-- 
2.43.0


From 48bfb5010d40f94b2ec9d823b1959828f4b606a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 27/63] fix: polynomial products with a single factor returned
 an uninitialized error code and result

---
 src/private/fnft__poly_fmult.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/private/fnft__poly_fmult.c b/src/private/fnft__poly_fmult.c
index 830a8ee..d8eb4ab 100644
--- a/src/private/fnft__poly_fmult.c
+++ b/src/private/fnft__poly_fmult.c
@@ -147,7 +147,7 @@ INT fnft__poly_fmult(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Pad with z^deg if n is not a power of two
     const UINT n_excess = misc_nextpowerof2(n) - n;
@@ -239,7 +239,7 @@ inline INT poly_fmult_two_polys2x2(const UINT deg,
     COMPLEX * const buf2,
     const UINT mode_offset)
 {
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     COMPLEX const * const p1_12 = p1_11 + p1_stride;
     COMPLEX const * const p1_21 = p1_12 + p1_stride;
@@ -331,7 +331,7 @@ inline INT poly_fmult_two_polys3x3(const UINT deg,
     const UINT sufficent_space_flag)
 {
     UINT mode;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     COMPLEX const * const p1_12 = p1_11 + p1_stride;
     COMPLEX const * const p1_13 = p1_12 + p1_stride;
@@ -613,7 +613,7 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -678,6 +678,10 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // Nothing to multiply if there is only one factor
+    if (n == 1)
+        memcpy(result, p, 4*(deg+1)*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
@@ -783,7 +787,7 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -889,6 +893,10 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // Nothing to multiply if there is only one factor
+    if (n == 1)
+        memcpy(result, p, 9*(deg+1)*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
-- 
2.43.0


From f65ca9b8a564cdde5970f32f33e64ffb54dd5f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 28/63] fix: akns preprocessing leaked its output buffers on
 errors

---
 src/private/fnft__akns_discretization.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__akns_discretization.c b/src/private/fnft__akns_discretization.c
index f758f9a..4eac3cc 100644
--- a/src/private/fnft__akns_discretization.c
+++ b/src/private/fnft__akns_discretization.c
@@ -437,6 +437,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
 
     COMPLEX *qr_weights = NULL;
     COMPLEX *eps_t_weights = NULL;
+    COMPLEX *q_preprocessed = NULL;
+    COMPLEX *r_preprocessed = NULL;
 
     // Check inputs
     if (D < 2)
@@ -471,8 +473,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
         goto release_mem;
     }
     D_effective = Dsub * upsampling_factor;
-    COMPLEX * const q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     if (q_preprocessed == NULL || r_preprocessed == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
@@ -671,6 +673,10 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
         free(q_3);
         free(qr_weights);
         free(eps_t_weights);
+        if (ret_code != SUCCESS) {
+            free(q_preprocessed);
+            free(r_preprocessed);
+        }
         return ret_code;
 }
 
-- 
2.43.0


From b3fe03c80f494565962cd179c3618ceea17289d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 29/63] fix: akns scattering derivatives were NaN at removable
 singularities

---
 src/private/fnft__akns_scatter.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 396db69..2774326 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -47,14 +47,16 @@ static inline void akns_scatter_U_BO(COMPLEX const qn,
         U[5] = ch + u1;
         memcpy(&U[10],&U[0],6 * sizeof(COMPLEX)); // lower right block
 
-        COMPLEX const chi = ch/ks;
-        COMPLEX const ud1 = eps_t*ln2*chi*I;
-        COMPLEX const ud2 = misc_CSINC_derivative(I*eps_t*k)*I*ln*eps_t*eps_t/k;
+        // g = sinc'(x)/x for x=I*eps_t*k. The singularity at x=0 is removable.
+        COMPLEX const x = I*eps_t*k;
+        COMPLEX const g = (x == 0.0) ? -1.0/3.0 : misc_CSINC_derivative(x)/x;
+        COMPLEX const ud1 = -I*ln2*eps_t*eps_t*eps_t*g;
+        COMPLEX const ud2 = -ln*eps_t*eps_t*eps_t*g;
 
-        U[8]  = ud1 - ( ln*eps_t + I + (ln2*I)/ks )*sh;
+        U[8]  = ud1 - ( ln*eps_t + I )*sh;
         U[9]  = -qn*ud2;
         U[12] = -rn*ud2;
-        U[13] = -ud1 - ( ln*eps_t - I - (ln2*I)/ks )*sh;
+        U[13] = -ud1 - ( ln*eps_t - I )*sh;
     } else {
         U[2] = rn*sh;
         U[3] = ch + u1;
@@ -78,10 +80,10 @@ static inline void akns_scatter_U_ES4(COMPLEX const a1,
         U[5] = c - s*a3;
         memcpy(&U[10],&U[0],6 * sizeof(COMPLEX)); // lower right block
 
-        COMPLEX w_d = -(a1*tmp2[0]+a2*tmp2[1]+a3*tmp2[2]);
+        COMPLEX const w_d = -(a1*tmp2[0]+a2*tmp2[1]+a3*tmp2[2]);
         COMPLEX const c_d = -misc_CSINC(w)*w_d;
-        w_d /= w;
-        COMPLEX const s_d = w_d * misc_CSINC_derivative(w);
+        // The singularity of sinc'(w)/w at w=0 is removable.
+        COMPLEX const s_d = w_d * ((w == 0.0) ? -1.0/3.0 : misc_CSINC_derivative(w)/w);
         U[8] = c_d+s_d*a3+s*tmp2[2];
         U[9] = s_d*a1+s*tmp2[0]-I*s_d*a2-I*s*tmp2[1];
         U[12] = s_d*a1+s*tmp2[0]+I*s_d*a2+I*s*tmp2[1];
-- 
2.43.0


From 78980d339f8d8fbab744c4546b8b8472f0782aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 30/63] fix: akns bound state scattering used unchecked and
 uninitialized memory

---
 src/private/fnft__akns_scatter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 2774326..aff738c 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -498,7 +498,9 @@ INT akns_scatter_bound_states(UINT const D,
         WPHI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
-        CHECK_NOMEM(WPHI, ret_code, leave_fun);
+        CHECK_NOMEM(WPSI, ret_code, leave_fun);
+        WPHI[0] = 0; // the boundary values are not rescaled
+        WPSI[D_given] = 0;
     }
 
     // Define stepsize constants that are often needed
-- 
2.43.0


From f3c742d58ccbe1e7d6ec2677c218f0b21dade8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 31/63] fix: akns bound state scattering left b unset if no
 sample is usable for the forward-backward method

---
 src/private/fnft__akns_scatter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index aff738c..5474c46 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -835,6 +835,7 @@ INT akns_scatter_bound_states(UINT const D,
             CHECK_RETCODE(ret_code, leave_fun);
 
             REAL error_metric = INFINITY, tmp = INFINITY;
+            COMPLEX b_direct = NAN; // phi/psi at the right boundary
             for (UINT n = 0; n <= D_given; n++){
                 COMPLEX * const psi_S = &f_S[0], * const phi_S = &f_S[2], b_temp[2];
                 // Calculate phi and psi for this sample in S basis
@@ -849,6 +850,7 @@ INT akns_scatter_bound_states(UINT const D,
                     if (normalization_flag)
                         b_temp[i] *= POW(2, WPHI[n] - WPSI[n]);
                 }
+                b_direct = b_temp[1];
                 if (PDE!=akns_pde_KdV || CREAL(b_temp[0]*b_temp[1])>0) {
                     tmp = FABS( 0.5* LOG( (REAL)CABS( b_temp[1]/b_temp[0] ) ) );
                     if (tmp < error_metric){
@@ -857,6 +859,8 @@ INT akns_scatter_bound_states(UINT const D,
                     }
                 }
             }
+            if (error_metric == INFINITY) // the metric was never finite
+                b_vals[neig] = b_direct;
         }
     }
 
-- 
2.43.0


From e93eb3943e85017eae8c3c88ee36a80fc7ded2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 32/63] fix: finvscatter wrote past its stack for unsupported
 discretizations

---
 src/private/fnft__akns_finvscatter_q_from_r.inc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index 2c1f1ae..362f51b 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -259,6 +259,8 @@ INT FNFT__AKNS_FINVSCATTER_Q_FROM_R__PREFIX(finvscatter)(
     const UINT D = deg / discretization_degree;
     if (D < 2 || (D&(D-1)) != 0)
         return E_OTHER("Number of samples D used to build the transfer matrix was no positive power of two.");
+    if (discretization_degree != 1) // not supported, the stack is too small
+        return E_INVALID_ARGUMENT(discretization);
 
     INT ret_code = SUCCESS;
     UINT i = 0;
-- 
2.43.0


From 9948c7df8c57a97e886fd977b15f2f51eb5550a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 33/63] fix: nsev_inverse leaked memory if the inversion method
 is not supported

---
 src/fnft_nsev_inverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index f677c86..1e900f2 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -902,7 +902,7 @@ static INT add_discrete_spectrum(
         }
     }
     else
-        return E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
 
     leave_fun:
         free(t);
-- 
2.43.0


From fa9a3d2823ed2ee18d11c7cf6f940a67bcfc6445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 34/63] fix: polynomial root finder terminated the process when
 running out of memory

---
 src/3rd_party/eiscor/z_poly_roots_modified.f90 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/3rd_party/eiscor/z_poly_roots_modified.f90 b/src/3rd_party/eiscor/z_poly_roots_modified.f90
index 4d7d2bf..b2697fe 100644
--- a/src/3rd_party/eiscor/z_poly_roots_modified.f90
+++ b/src/3rd_party/eiscor/z_poly_roots_modified.f90
@@ -3,6 +3,7 @@
 ! Changes:
 !   - Residuals are not computed
 !   - The roots are no longer printed (forgotten printf?)
+!   - Failed memory allocations are reported with INFO = 1 (no abort)
 !   - Always use QR since it is as good as QZ -> https://arxiv.org/pdf/1611.02435.pdf
 !
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
@@ -85,8 +86,17 @@ subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
   end interface
 
   ! allocate memory
-  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N))
-  allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N))
+  ! (arrays that were allocated are freed automatically if we return early)
+  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N),stat=INFO)
+  if (INFO.NE.0) then
+     INFO = 1
+     return
+  end if
+  allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N),stat=INFO)
+  if (INFO.NE.0) then
+     INFO = 1
+     return
+  end if
 
   ! initialize INFO
   INFO = 0
-- 
2.43.0


From b53ac448ec852bc4854395c7853712b38f244d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 35/63] fix: polynomial root finder wrote out of bounds for
 degree zero and failed for degree one

---
 src/private/fnft__poly_roots_fasteigen.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index 9aa2683..bd43f8f 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -32,11 +32,21 @@ INT poly_roots_fasteigen(const UINT deg,
     INT int_deg, info;
 
   // Check inputs
+  if (deg == 0)
+    return E_INVALID_ARGUMENT(deg);
   if (p == NULL)
     return E_INVALID_ARGUMENT(p);
   if (roots == NULL)
     return E_INVALID_ARGUMENT(roots);
 
+    // The Fortran routine requires at least degree two
+    if (deg == 1) {
+        if (p[0] == 0.0)
+            return E_DIV_BY_ZERO;
+        roots[0] = -p[1]/p[0];
+        return SUCCESS;
+    }
+
     // Call Fortran root finding routine
     int_deg = (int)deg;
     z_poly_roots_modified_(&int_deg, p, roots, &info);
-- 
2.43.0


From 283e4f7c8ab2f4b5dfa41e18480f7929129830e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 36/63] fix: akns bound state scattering converted out of range
 values to int

---
 src/private/fnft__akns_scatter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 5474c46..6cf0d65 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -21,6 +21,7 @@
  */
 #define FNFT_ENABLE_SHORT_NAMES
 
+#include <limits.h>
 #include "fnft__akns_scatter.h"
 
 /**
@@ -812,7 +813,10 @@ INT akns_scatter_bound_states(UINT const D,
             // change the absolute values of the results. Therefore, we write the
             // amplitude of that term as 2^u*2^v, with -1/2<=u<=1/2 and v integer,
             // and we shift the 2^v part into the scaling factor 2^Ws.
-            const INT v = ROUND(CREAL(exponent)/l2);
+            // (No shift if v is no integer or too large, the result will then
+            // be NaN, infinite or zero anyway.)
+            const REAL v_real = ROUND(CREAL(exponent)/l2);
+            const INT v = FABS(v_real) < INT_MAX/4 ? (INT)v_real : 0;
             const COMPLEX u = CREAL(exponent)/l2 - v; // between -1/2 and 1/2
             a_vals[neig] = f_S[0] * CEXP(I*CIMAG(exponent) + u*l2);
             Ws[neig] = v + WPHI_acc;
-- 
2.43.0


From c536e0c159fac3bc2a199a5bd269d8129f61ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 37/63] fix: normalization routines converted infinite
 exponents to int

---
 include/private/fnft__misc.h   | 4 ++--
 src/private/fnft__poly_fmult.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/private/fnft__misc.h b/include/private/fnft__misc.h
index 0b84e21..563c7b8 100644
--- a/include/private/fnft__misc.h
+++ b/include/private/fnft__misc.h
@@ -414,8 +414,8 @@ static inline FNFT_INT fnft__misc_normalize_vector(const FNFT_UINT len, FNFT_COM
             max_abs = cur_abs;
     }
 
-    // Return if polynomial is identical to zero
-    if (max_abs == 0.0)
+    // Return if the vector is identical to zero or not finite
+    if (max_abs == 0.0 || max_abs == FNFT_INF)
         return 0;
 
     // Otherwise, rescale
diff --git a/src/private/fnft__poly_fmult.c b/src/private/fnft__poly_fmult.c
index d8eb4ab..85b0773 100644
--- a/src/private/fnft__poly_fmult.c
+++ b/src/private/fnft__poly_fmult.c
@@ -507,7 +507,7 @@ static inline INT poly_rescale2x2(const UINT d,
     }
 
     // Return if polynomials are all identical to zero
-    if (max_abs == 0.0)
+    if (max_abs == 0.0 || max_abs == FNFT_INF) // (or not finite)
         return 0;
 
     // Otherwise, rescale
@@ -574,7 +574,7 @@ static inline INT poly_rescale3x3(const UINT d,
     }
 
     // Return if polynomials are all identical to zero
-    if (max_abs == 0.0)
+    if (max_abs == 0.0 || max_abs == FNFT_INF) // (or not finite)
         return 0;
 
     // Otherwise, rescale
-- 
2.43.0


From 4099d3a7e4d7e48757189d37526322f0563a6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 38/63] fix: root finder crashed when memory for compiler
 temporaries ran out

---
 src/3rd_party/eiscor/z_upr1utri_decompress.f90 | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1utri_decompress.f90 b/src/3rd_party/eiscor/z_upr1utri_decompress.f90
index c426ebe..e0ca9d8 100644
--- a/src/3rd_party/eiscor/z_upr1utri_decompress.f90
+++ b/src/3rd_party/eiscor/z_upr1utri_decompress.f90
@@ -47,8 +47,8 @@ subroutine z_upr1utri_decompress(DIAG,N,D,C,B,T)
   complex(8), intent(inout) :: T(N,N)
   
   ! compute variables
-  integer :: ii,ind
-  complex(8) :: g, p, temp(2,2)
+  integer :: ii,jj,ind
+  complex(8) :: g, p, h, temp(2,2)
   
   ! diagonals only
   if (DIAG) then
@@ -77,7 +77,12 @@ subroutine z_upr1utri_decompress(DIAG,N,D,C,B,T)
       temp(2,1) = cmplx(B(ind+3),0d0,kind=8)
       temp(1,2) = -temp(2,1)
       temp(2,2) = conjg(temp(1,1))
-      T(1:(ii+1),ii:(ii+1)) = matmul(T(1:(ii+1),ii:(ii+1)),temp)
+      ! (no matmul, the compiler would allocate temporary memory for it)
+      do jj=1,(ii+1)
+        h = T(jj,ii)*temp(1,1) + T(jj,ii+1)*temp(2,1)
+        T(jj,ii+1) = T(jj,ii)*temp(1,2) + T(jj,ii+1)*temp(2,2)
+        T(jj,ii) = h
+      end do
     end do
     T(:,N) = T(:,N)*cmplx(B(3*(N-1)+1),B(3*(N-1)+2),kind=8)
     
@@ -103,7 +108,11 @@ subroutine z_upr1utri_decompress(DIAG,N,D,C,B,T)
       temp(2,1) = cmplx(C(ind+3),0d0,kind=8)
       temp(1,2) = -temp(2,1)
       temp(2,2) = conjg(temp(1,1))
-      T(ii:(ii+1),(ii+1):N) = matmul(temp,T(ii:(ii+1),(ii+1):N))
+      do jj=(ii+1),N
+        h = temp(1,1)*T(ii,jj) + temp(1,2)*T(ii+1,jj)
+        T(ii+1,jj) = temp(2,1)*T(ii,jj) + temp(2,2)*T(ii+1,jj)
+        T(ii,jj) = h
+      end do
       T(ii,ii) = temp(1,1)*T(ii,ii) + temp(1,2)*T(ii+1,ii)
       T(ii+1,ii) = cmplx(0d0,0d0,kind=8)
     end do
-- 
2.43.0


From efc2293f969df7c98160053af506dc50c64becbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:14 +0000
Subject: [PATCH 39/63] fix: fft of lengths with large prime factors crashed
 when running out of memory

---
 src/3rd_party/kiss_fft/kiss_fft.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/3rd_party/kiss_fft/kiss_fft.c b/src/3rd_party/kiss_fft/kiss_fft.c
index f051be3..d33e7c8 100644
--- a/src/3rd_party/kiss_fft/kiss_fft.c
+++ b/src/3rd_party/kiss_fft/kiss_fft.c
@@ -211,7 +211,9 @@ static void kf_bfly_generic(
     kiss_fft_cpx t;
     FNFT_UINT Norig = st->nfft;
 
-    kiss_fft_cpx * scratch = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);
+    /* p entries of scratch space, reserved behind the twiddle factors when
+       the plan was created */
+    kiss_fft_cpx * scratch = st->twiddles + Norig;
 
     for ( u=0; u<m; ++u ) {
         k=u;
@@ -234,7 +236,6 @@ static void kf_bfly_generic(
             k += m;
         }
     }
-    KISS_FFT_TMP_FREE(scratch);
 }
 
 static
@@ -343,7 +344,8 @@ kiss_fft_cfg kiss_fft_alloc(FNFT_UINT nfft,FNFT_UINT inverse_fft,void * mem,FNFT
 {
     kiss_fft_cfg st=NULL;
     FNFT_UINT memneeded = sizeof(struct kiss_fft_state)
-        + sizeof(kiss_fft_cpx)*(nfft-1); /* twiddle factors*/
+        + sizeof(kiss_fft_cpx)*(nfft-1)  /* twiddle factors*/
+        + sizeof(kiss_fft_cpx)*nfft; /* scratch space for kf_bfly_generic */
 
     if ( lenmem==NULL ) {
         st = ( kiss_fft_cfg)KISS_FFT_MALLOC( memneeded );
-- 
2.43.0


From 56bb9f92bed151fa16b770658b43e898bfd40ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 40/63] fix: max_K of nsev and manakovv ignored the upsampling
 factor

---
 src/fnft_manakovv.c | 6 ++++--
 src/fnft_nsev.c     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index f210464..fe664c8 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -53,9 +53,11 @@ fnft_manakovv_opts_t fnft_manakovv_default_opts()
 UINT fnft_manakovv_max_K(const UINT D, fnft_manakovv_opts_t const* const opts)
 {
 	if (opts != NULL)
-		return manakov_discretization_degree(opts->discretization) * D;
+		return manakov_discretization_degree(opts->discretization)
+		    * manakov_discretization_upsampling_factor(opts->discretization) * D;
 	else
-		return manakov_discretization_degree(default_opts.discretization) * D;
+		return manakov_discretization_degree(default_opts.discretization)
+		    * manakov_discretization_upsampling_factor(default_opts.discretization) * D;
 }
 
 /**
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 82dec25..a5efaf0 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -55,9 +55,11 @@ fnft_nsev_opts_t fnft_nsev_default_opts()
 UINT fnft_nsev_max_K(const UINT D, fnft_nsev_opts_t const * const opts)
 {
     if (opts != NULL)
-        return nse_discretization_degree(opts->discretization) * D;
+        return nse_discretization_degree(opts->discretization)
+            * nse_discretization_upsampling_factor(opts->discretization) * D;
     else
-        return nse_discretization_degree(default_opts.discretization) * D;
+        return nse_discretization_degree(default_opts.discretization)
+            * nse_discretization_upsampling_factor(default_opts.discretization) * D;
 }
 
 /**
-- 
2.43.0


From afdb6c0b10f35cab9a87a05f1d6534deb64b28d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 41/63] fix: nsev subsample and refine lost bound states if
 *K_ptr was below the number of initial guesses

---
 src/fnft_nsev.c | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index a5efaf0..35f276c 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -163,6 +163,9 @@ INT fnft_nsev(
     COMPLEX *bound_states_sub = NULL;
     COMPLEX *normconsts_or_residues_sub = NULL;
     COMPLEX *normconsts_or_residues_reserve = NULL;
+    UINT K_buf;
+    COMPLEX *bound_states_buf = NULL;
+    COMPLEX *normconsts_or_residues_buf = NULL;
     fnft_nsev_bsloc_t bs_loc_opt = 0;
     fnft_nsev_dstype_t ds_type_opt = 0;
     INT ret_code = SUCCESS;
@@ -307,19 +310,45 @@ INT fnft_nsev(
         Tsub[0] = T[0] + first_last_index[0] * eps_t;
         Tsub[1] = T[0] + first_last_index[1] * eps_t;
 
+        // There can be more initial guesses than bound states that are left
+        // after the refinement. Since the user-supplied arrays only have to be
+        // large enough for the latter, use larger buffers in both steps.
+        K_buf = nse_discretization_degree(opts->discretization) * upsampling_factor * Dsub;
+        bound_states_buf = malloc((K_buf + 1) * sizeof(COMPLEX));
+        CHECK_NOMEM(bound_states_buf, ret_code, leave_fun);
+        if (normconsts_or_residues_reserve != NULL) {
+            normconsts_or_residues_buf = malloc((2*K_buf + 1) * sizeof(COMPLEX));
+            CHECK_NOMEM(normconsts_or_residues_buf, ret_code, leave_fun);
+        }
+
         // Fixed bound states of qsub using the fast eigenvalue method
         opts->bound_state_localization = nsev_bsloc_FAST_EIGENVALUE;
-        ret_code = fnft_nsev_base(Dsub * upsampling_factor, qsub_preprocessed, rsub_preprocessed, Tsub, 0, NULL, XI, K_ptr,
-                bound_states, NULL, kappa, opts);
+        ret_code = fnft_nsev_base(Dsub * upsampling_factor, qsub_preprocessed, rsub_preprocessed, Tsub, 0, NULL, XI, &K_buf,
+                bound_states_buf, NULL, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
 
         // Second step: Refine the found bound states using Newton's method
         // on the full signal and compute continuous spectrum
         opts->bound_state_localization = nsev_bsloc_NEWTON;
-        ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                bound_states, normconsts_or_residues_reserve, kappa, opts);
+        ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, &K_buf,
+                bound_states_buf, normconsts_or_residues_buf, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
 
+        // Copy the results to the user-supplied arrays
+        if (*K_ptr < K_buf) {
+            WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+        } else {
+            *K_ptr = K_buf;
+        }
+        memcpy(bound_states, bound_states_buf, *K_ptr * sizeof(COMPLEX));
+        if (normconsts_or_residues_reserve != NULL) {
+            memcpy(normconsts_or_residues_reserve, normconsts_or_residues_buf,
+                    *K_ptr * sizeof(COMPLEX));
+            if (opts->discspec_type == nsev_dstype_BOTH)
+                memcpy(normconsts_or_residues_reserve + *K_ptr,
+                        normconsts_or_residues_buf + K_buf, *K_ptr * sizeof(COMPLEX));
+        }
+
         // Restore original state of opts
         opts->bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE;
     } else {
@@ -470,6 +499,8 @@ INT fnft_nsev(
         free(contspec_sub);
         free(bound_states_sub);
         free(normconsts_or_residues_sub);
+        free(bound_states_buf);
+        free(normconsts_or_residues_buf);
         if (normconsts_or_residues_reserve != normconsts_or_residues)
             free(normconsts_or_residues_reserve);
         return ret_code;
-- 
2.43.0


From 593e6a6f4fe1e9651af6425934e0ce076fd4b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 42/63] fix: defocusing nse_finvscatter returned samples that
 were off for 2SPLIT2A

---
 src/private/fnft__akns_finvscatter_q_from_r.inc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index 362f51b..f15ce7a 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -208,6 +208,11 @@ start_pos_2:
                 *s[i].q = X/eps_t;
                 break;
             case FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2A):
+                #ifdef FNFT__AKNS_FINVSCATTER_Q_FROM_R_HAS_KAPPA
+                if (kappa == -1)
+                    *s[i].q = ATANH(CABS(X))*CEXP(I*CARG(X))/eps_t;
+                else
+                #endif
                 *s[i].q = ATAN(CABS(X))*CEXP(I*CARG(X))/eps_t;
                 break;
             default: // discretization is unknown or not supported
-- 
2.43.0


From 57f4c0d475f2a79b16667fcd1fda7551e1accd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 43/63] fix: poly_evalderiv returned NaN for constant
 polynomials outside the unit circle

---
 src/private/fnft__poly_eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__poly_eval.c b/src/private/fnft__poly_eval.c
index 001a88b..9489371 100644
--- a/src/private/fnft__poly_eval.c
+++ b/src/private/fnft__poly_eval.c
@@ -83,7 +83,7 @@ INT poly_evalderiv(const UINT deg, COMPLEX const * const p, \
                 tmp2 = tmp + tmp2/z[i];
                 tmp = p[deg - j] + tmp/z[i];
             }
-            deriv[i] = CPOW(z[i], deg - 1)*(deg*tmp - tmp2/z[i]);
+            deriv[i] = CPOW(z[i], (REAL)deg - 1.0)*(deg*tmp - tmp2/z[i]);
             z[i] = tmp * CPOW(z[i], deg);
         }
     }
-- 
2.43.0


From bd2fdbe5576003a1668d850b583b4365b3c0b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 44/63] fix: poly_roots_fasteigen failed for polynomials with
 roots at zero

---
 src/private/fnft__poly_roots_fasteigen.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index bd43f8f..2839bf7 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -39,16 +39,23 @@ INT poly_roots_fasteigen(const UINT deg,
   if (roots == NULL)
     return E_INVALID_ARGUMENT(roots);
 
+    // Roots at zero have to be removed for the Fortran routine
+    UINT deg_nz = deg;
+    while (deg_nz > 0 && p[deg_nz] == 0.0)
+        roots[--deg_nz] = 0.0;
+    if (p[0] == 0.0)
+        return E_DIV_BY_ZERO; // the leading coefficient may not vanish
+    if (deg_nz == 0)
+        return SUCCESS;
+
     // The Fortran routine requires at least degree two
-    if (deg == 1) {
-        if (p[0] == 0.0)
-            return E_DIV_BY_ZERO;
+    if (deg_nz == 1) {
         roots[0] = -p[1]/p[0];
         return SUCCESS;
     }
 
     // Call Fortran root finding routine
-    int_deg = (int)deg;
+    int_deg = (int)deg_nz;
     z_poly_roots_modified_(&int_deg, p, roots, &info);
 
     if (info == 0)
-- 
2.43.0


From 93fc7193f9948de9ff4c69e5231925f24a8f3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 45/63] fix: poly_roots_fftgridsearch_paraherm reported a root
 on a grid point twice

---
 src/private/fnft__poly_roots_fftgridsearch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/fnft__poly_roots_fftgridsearch.c b/src/private/fnft__poly_roots_fftgridsearch.c
index 4b34f61..7a504bd 100644
--- a/src/private/fnft__poly_roots_fftgridsearch.c
+++ b/src/private/fnft__poly_roots_fftgridsearch.c
@@ -200,6 +200,10 @@ INT poly_roots_fftgridsearch_paraherm(const UINT deg,
 
     // Approximate the roots
     for (i=1; i<M; i++) {
+        // A zero at the left point has already been found in the last step
+        if (i > 1 && CREAL(roots[i-1]) == 0.0)
+            continue;
+
         // Mean value theorem => change of sign between two consecutive values
         // shows there is a root in between them
         if (CREAL(roots[i-1])*CREAL(roots[i]) <= 0.0) {
-- 
2.43.0


From 11f2dbcbab0f6bf5ecdf2e376c6d5340ec7576a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 46/63] fix: poly_specfact applied an inexact Hilbert transform

---
 src/private/fnft__poly_specfact.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/private/fnft__poly_specfact.c b/src/private/fnft__poly_specfact.c
index 7e3fcf7..1c86ab7 100644
--- a/src/private/fnft__poly_specfact.c
+++ b/src/private/fnft__poly_specfact.c
@@ -116,11 +116,12 @@ INT poly_specfact(const UINT deg,
     CHECK_RETCODE(ret_code, leave_fun);
 
     buf_in[0] = 0.0;
-    for (i=1; i<M/2-1; i++)
-        buf_in[i] *= -I/M;
-    buf_in[M/2-1] = 0.0;
-    for (i=M/2; i<M; i++)
-        buf_in[i] *= I/M;
+    for (i=1; i<(M+1)/2; i++)
+        buf_in[i] *= -I/(REAL)M;
+    if (M%2 == 0)
+        buf_in[M/2] = 0.0;
+    for (i=M/2+1; i<M; i++)
+        buf_in[i] *= I/(REAL)M;
 
     ret_code = fft_wrapper_execute_plan(plan_inv, buf_in, buf_out);
     CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From 95343760b0d3661b0f1cd4cf0069ee6c210175ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 47/63] fix: misc_merge compared with values that had already
 been removed

---
 src/private/fnft__misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__misc.c b/src/private/fnft__misc.c
index 43d24dc..70f668c 100644
--- a/src/private/fnft__misc.c
+++ b/src/private/fnft__misc.c
@@ -236,7 +236,7 @@ INT misc_merge(UINT *N_ptr, COMPLEX * const vals, REAL tol)
     N = *N_ptr;
     N_filtered = 1;
     for (i=1; i<N; i++) {
-        for (j = 0; j < i; j++) {
+        for (j = 0; j < N_filtered; j++) {
             dist = CABS(vals[j] - vals[i]);
             if (dist < tol)
                 break;
-- 
2.43.0


From 009a28bc47e27b6c84f9d058d5aaec72efb6b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 48/63] fix: misc_resample shifted the highest frequency of odd
 lengths incorrectly

---
 src/private/fnft__misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__misc.c b/src/private/fnft__misc.c
index 70f668c..31afcd2 100644
--- a/src/private/fnft__misc.c
+++ b/src/private/fnft__misc.c
@@ -350,9 +350,9 @@ INT misc_resample(const UINT D, const REAL eps_t, COMPLEX const * const q,
     
     const REAL scl_factor = (REAL)D*eps_t;
     // Applying phase shift
-    for (i = 0; i <D/2; i++)
+    for (i = 0; i < (D+1)/2; i++)
         freq[i] = i/scl_factor;
-    for (i = D/2; i < D; i++)
+    for (i = (D+1)/2; i < D; i++)
         freq[i] = ((REAL)i - (REAL)D)/scl_factor;
 
     for (i = 0; i < D; i++) {
-- 
2.43.0


From 322ea9509bca60d80ee372901ecc60c5e6ff351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:23 +0000
Subject: [PATCH 49/63] fix: residues after Richardson extrapolation with
 several matches

When several bound states were matched with the same bound state of the
subsampled signal, its residue was converted to a derivative of a more than
once, which turned the derivative back into a residue.
---
 src/fnft_kdvv.c | 6 ++++--
 src/fnft_nsev.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 9615ef0..e4a16b9 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -358,9 +358,11 @@ INT fnft_kdvv(
                     && (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
-                        normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
+                        // (several bound states may be matched with the same
+                        // subsampled one, so the sub array must not be changed)
+                        COMPLEX const aprime_sub = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
                         // Richardson step on aprime
-                        normconsts_or_residues_reserve[K+i] = (scl_num*normconsts_or_residues_reserve[K+i] - normconsts_or_residues_sub[loc+K_sub])/scl_den;
+                        normconsts_or_residues_reserve[K+i] = (scl_num*normconsts_or_residues_reserve[K+i] - aprime_sub)/scl_den;
                         // Computing residue
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                     }
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 35f276c..e1366c9 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -475,9 +475,11 @@ INT fnft_nsev(
                     && (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
-                        normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
+                        // (several bound states may be matched with the same
+                        // subsampled one, so the sub array must not be changed)
+                        COMPLEX const aprime_sub = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
                         // Richardson step on aprime
-                        normconsts_or_residues_reserve[K+i] = (scl_num*normconsts_or_residues_reserve[K+i] - normconsts_or_residues_sub[loc+K_sub])/scl_den;
+                        normconsts_or_residues_reserve[K+i] = (scl_num*normconsts_or_residues_reserve[K+i] - aprime_sub)/scl_den;
                         // Computing residue
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                     }
-- 
2.43.0


From ebf4b05b4b0936c509432106bc90ab579638cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 50/63] fix: bound state scattering underflowed for long
 windows

Even with normalization on, the boundary values of the Jost solutions were
computed without scaling. They are zero when Im(lambda)*|T| exceeds 745, so
bound states were lost or an error was returned.
---
 src/private/fnft__akns_scatter.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 6cf0d65..cd35110 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -27,6 +27,17 @@
 /**
  * Auxiliary routines, used by the main routines below
  */
+// Computes exp(x)*2^-W, where the integer W is chosen such that neither
+// overflows nor underflows occur (W=0 if there is no such risk, or if x is
+// not finite or too large)
+static inline COMPLEX akns_scatter_scaled_exp(COMPLEX const x, INT * const W)
+{
+    REAL const l2 = LOG(2);
+    REAL const w = ROUND(CREAL(x)/l2);
+    *W = FABS(w) > 900 && FABS(w) < INT_MAX/4 ? (INT)w : 0;
+    return CEXP(x - *W*l2);
+}
+
 static inline void akns_scatter_U_BO(COMPLEX const qn,
                                      COMPLEX const rn,
                                      COMPLEX const ln,
@@ -500,8 +511,6 @@ INT akns_scatter_bound_states(UINT const D,
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPSI, ret_code, leave_fun);
-        WPHI[0] = 0; // the boundary values are not rescaled
-        WPSI[D_given] = 0;
     }
 
     // Define stepsize constants that are often needed
@@ -596,7 +605,10 @@ INT akns_scatter_bound_states(UINT const D,
         // accurate computation of b-coefficient.
         // Set initial condition for PHI in S basis:
         COMPLEX f_S[4];
-        f_S[0] = 1.0*CEXP(-I*l_curr*(T[0]-eps_t*boundary_coeff));
+        COMPLEX const exponent_0 = -I*l_curr*(T[0]-eps_t*boundary_coeff);
+        f_S[0] = normalization_flag ? akns_scatter_scaled_exp(exponent_0, &WPHI_acc) : CEXP(exponent_0);
+        if (WPHI != NULL)
+            WPHI[0] = WPHI_acc;
         f_S[1] = 0.0;
         f_S[2] = f_S[0]*(-I*(T[0]-eps_t*boundary_coeff));
         f_S[3] = 0.0;
@@ -702,7 +714,10 @@ INT akns_scatter_bound_states(UINT const D,
 
             // Set final condition for PSI in S basis:
             f_S[0] = 0.0;
-            f_S[1] = 1.0*CEXP(I*l_curr*(T[1]+eps_t*boundary_coeff));
+            COMPLEX const exponent_1 = I*l_curr*(T[1]+eps_t*boundary_coeff);
+            f_S[1] = normalization_flag ? akns_scatter_scaled_exp(exponent_1, &WPSI_acc) : CEXP(exponent_1);
+            if (WPSI != NULL)
+                WPSI[D_given] = WPSI_acc;
 
             // Fetch the change of basis matrix from S to the basis of the discretization
             derivative_flag = 0;
-- 
2.43.0


From 185c45317cbcf9baae5e5ea2983c0feadbe307b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:28 +0000
Subject: [PATCH 51/63] fix: nsep failed when a refined point met a vanishing
 derivative exactly

---
 src/fnft_nsep.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 58a0f28..49ee03b 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -928,8 +928,11 @@ static inline INT refine_mainspec(
             // The current values of f and f' at lam = mainspec[k]
             f = next_f;
             f_prime = next_f_prime;
-            if (f_prime == 0.0)
-                return E_DIV_BY_ZERO;
+            if (f_prime == 0.0) {
+                // Either an exact multiple root, or no direction to proceed
+                best_incr = (f == 0.0) ? 0.0 : INFINITY;
+                break;
+            }
             incr = f / f_prime;
 
 	        // Test different increments to deal with the many higher order
@@ -964,9 +967,8 @@ static inline INT refine_mainspec(
             if ( CABS(best_incr) <= tol || CABS(f) <= tol ) {
                 // We already know f and f_prime at the new mainspec[k], so
                 // let's use that for a final first-order Newton step.
-                if (next_f_prime == 0.0)
-                    return E_DIV_BY_ZERO;
-                mainspec[k] -= next_f / next_f_prime;
+                if (next_f_prime != 0.0)
+                    mainspec[k] -= next_f / next_f_prime;
                 break;
             }
 
@@ -1020,8 +1022,11 @@ static inline INT refine_auxspec(
             // care about the ratio of f and f_prime, so that scl cancels out
             f = M[1]; // f = b(lam)
             f_prime = M[5]; // f' = b'(lam)
-            if (f_prime == 0.0)
-                return E_DIV_BY_ZERO;
+            if (f_prime == 0.0) {
+                // Either an exact multiple root, or no direction to proceed
+                incr = (f == 0.0) ? 0.0 : INFINITY;
+                break;
+            }
 
             //printf("AUX k=%zu, iter=%zu: lam=%g+%gj, |f|=%g, |f_prime|=%g\n", k, iter, CREAL(auxspec[k]), CIMAG(auxspec[k]), CABS(f), CABS(f_prime));
 
-- 
2.43.0


From dd9516b826522c06473afa5d51a1dd10eb8d0dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 52/63] fix: nsep failed if leading coefficients of the
 auxiliary polynomial vanish

---
 src/fnft_nsep.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 49ee03b..026d3b4 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -672,12 +672,21 @@ static inline INT subsample_and_refine(const UINT D,
 
     // Compute aux spectrum if desired
     if (aux_spec != NULL) {
-        ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
-                roots);
-        CHECK_RETCODE(ret_code, release_mem);
-
-        // Set number of points in the aux spectrum
-        M = deg;
+        // The leading coefficients may vanish exactly (e.g. if q has zeros),
+        // which reduces the number of (finite) roots
+        i = 0;
+        while (i < deg && transfer_matrix[deg + 1 + i] == 0.0)
+            i++;
+        if (transfer_matrix[deg + 1 + i] == 0.0)
+            i = 0; // the whole polynomial vanishes => raise an error below
+
+        // Number of points in the aux spectrum
+        M = deg - i;
+        if (M > 0) {
+            ret_code = poly_roots_fasteigen(M, transfer_matrix + (deg + 1 + i),
+                    roots);
+            CHECK_RETCODE(ret_code, release_mem);
+        }
 
         // Coordinate transform (from discrete-time to continuous-time domain)
         ret_code = nse_discretization_z_to_lambda(M, eps_t_sub, roots, opts_ptr->discretization);
-- 
2.43.0


From 118076f7661bc7893a90942d6f56adec52fb63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:01 +0000
Subject: [PATCH 53/63] fix: Richardson extrapolation of two samples returned
 NaN with success

---
 src/fnft_kdvv.c     | 5 +++++
 src/fnft_manakovv.c | 5 +++++
 src/fnft_nsev.c     | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index e4a16b9..77732dd 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -173,6 +173,11 @@ INT fnft_kdvv(
     fnft_kdvv_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
     opts = &opts_copy;
 
+    // Richardson extrapolation compares with a subsampled signal, which would
+    // not be different from the signal if there are only two samples
+    if (opts->richardson_extrapolation_flag == 1 && D < 3)
+        return E_INVALID_ARGUMENT(D);
+
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
             return E_INVALID_ARGUMENT(K_ptr);
diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index fe664c8..ada65c5 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -162,6 +162,11 @@ INT fnft_manakovv(
 	fnft_manakovv_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
 	opts = &opts_copy;
 
+	// Richardson extrapolation compares with a subsampled signal, which would
+	// not be different from the signal if there are only two samples
+	if (opts->richardson_extrapolation_flag == 1 && D < 3)
+		return E_INVALID_ARGUMENT(D);
+
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case manakov_discretization_2SPLIT3A:
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index e1366c9..54caa9f 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -193,6 +193,11 @@ INT fnft_nsev(
     fnft_nsev_opts_t opts_copy = (opts == NULL) ? default_opts : *opts;
     opts = &opts_copy;
 
+    // Richardson extrapolation compares with a subsampled signal, which would
+    // not be different from the signal if there are only two samples
+    if (opts->richardson_extrapolation_flag == 1 && D < 3)
+        return E_INVALID_ARGUMENT(D);
+
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case nse_discretization_2SPLIT2_MODAL:
-- 
2.43.0


From 07cb52d96468bd5403a2b2f1b0f019114645edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:59 +0000
Subject: [PATCH 54/63] fix: nsev and manakovv failed if leading coefficients
 of a vanish

---
 src/fnft_manakovv.c | 13 +++++++++----
 src/fnft_nsev.c     | 11 ++++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index ada65c5..741fd3a 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -446,7 +446,7 @@ static inline INT manakovv_compute_boundstates(
 		COMPLEX * const bound_states,
 		fnft_manakovv_opts_t * const opts)
 {
-	UINT K;
+	UINT K, i;
 	REAL bounding_box[4] = { NAN };
 	COMPLEX * buffer = NULL;
 	INT ret_code = SUCCESS;
@@ -457,7 +457,10 @@ static inline INT manakovv_compute_boundstates(
 		bounding_box[3] = INFINITY;
 
 	// Localize bound states ...
-			K = deg;
+			// The leading coefficients may vanish exactly (e.g. if q1 and q2
+			// have zeros), which reduces the number of (finite) roots
+			for (i = 0; i < deg && transfer_matrix[i] == 0.0; i++) {}
+			K = deg - i;
 			if (*K_ptr >= K) {
 				buffer = bound_states;
 			} else {
@@ -469,8 +472,10 @@ static inline INT manakovv_compute_boundstates(
 				buffer = transfer_matrix + (deg+1);
 			}
 
-			ret_code = poly_roots_fasteigen(deg, transfer_matrix, buffer);
-			CHECK_RETCODE(ret_code, leave_fun);
+			if (K > 0) {
+				ret_code = poly_roots_fasteigen(K, transfer_matrix + i, buffer);
+				CHECK_RETCODE(ret_code, leave_fun);
+			}
 			// Roots are returned in discrete-time domain -> coordinate
 			// transform (from discrete-time to continuous-time domain).
 			ret_code = manakov_discretization_z_to_lambda(K, eps_t, buffer, opts->discretization);
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 54caa9f..bc1f5cb 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -771,7 +771,10 @@ static inline INT nsev_compute_boundstates(
             // ... using the fast eigenvaluebased root finding
         case nsev_bsloc_FAST_EIGENVALUE:
 
-            K = deg;
+            // The leading coefficients may vanish exactly (e.g. if q has zeros),
+            // which reduces the number of (finite) roots
+            for (i = 0; i < deg && transfer_matrix[i] == 0.0; i++) {}
+            K = deg - i;
             if (*K_ptr >= K) {
                 buffer = bound_states;
             } else {
@@ -783,8 +786,10 @@ static inline INT nsev_compute_boundstates(
                 buffer = transfer_matrix + (deg+1);
             }
 
-            ret_code = poly_roots_fasteigen(deg, transfer_matrix, buffer);
-            CHECK_RETCODE(ret_code, leave_fun);
+            if (K > 0) {
+                ret_code = poly_roots_fasteigen(K, transfer_matrix + i, buffer);
+                CHECK_RETCODE(ret_code, leave_fun);
+            }
             // Roots are returned in discrete-time domain -> coordinate
             // transform (from discrete-time to continuous-time domain).
             ret_code = nse_discretization_z_to_lambda(K, eps_t, buffer, opts->discretization);
-- 
2.43.0


From 27244e6b60110ec1b8514dccec0f978b9615681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:49 +0000
Subject: [PATCH 55/63] fix: kdvv missed bound states below the first grid
 point or returned NaN

The grid search started at the smallest positive number, where a(xi) has
a pole, instead of a point above the rounding errors.
---
 src/fnft_kdvv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 77732dd..bd5032d 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -608,7 +608,8 @@ static inline INT kdvv_compute_boundstates(
                 goto leave_fun;
             }
 
-            xi[0] = I*nexttoward(bounding_box[2],bounding_box[3]);
+            // a(xi) has a pole at zero => do not start too close to it
+            xi[0] = I*(bounding_box[2] + SQRT(EPSILON)*dist);
             for (i = 1; i < M-1; i++)
                 xi[i] = I * CIMAG(eps_xi*i);
             xi[M-1] = I*nexttoward(bounding_box[3],bounding_box[2]);
-- 
2.43.0


From 56252f55719c3eda2a469b8710b6eecc9fe6711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:49 +0000
Subject: [PATCH 56/63] fix: kdvv reported points outside the interval with the
 sign change

Newton refinement could leave the interval in which the grid search had
found a sign change of a(xi). Use bisection in that case.
---
 src/fnft_kdvv.c | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index bd5032d..5164a46 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -107,6 +107,7 @@ static inline INT kdvv_refine_bound_states_newton(const UINT D,
         kdv_discretization_t const discretization,
         UINT const niter,
         REAL const * const bounding_box,
+        REAL const * const brackets,
         const INT normalization_flag);
 
 /**
@@ -523,6 +524,7 @@ static inline INT kdvv_compute_boundstates(
     COMPLEX * xi = NULL;
     COMPLEX * scatter_coeffs = NULL;
     INT * log_scaling_factors = NULL;
+    REAL * brackets = NULL;
     INT const kappa = 1;
 
     upsampling_factor = kdv_discretization_upsampling_factor(opts->discretization);
@@ -614,6 +616,10 @@ static inline INT kdvv_compute_boundstates(
                 xi[i] = I * CIMAG(eps_xi*i);
             xi[M-1] = I*nexttoward(bounding_box[3],bounding_box[2]);
 
+            // Allocate memory for the intervals in which bound states are found
+            brackets = malloc(2 * M * sizeof(REAL));
+            CHECK_NOMEM(brackets, ret_code, leave_fun);
+
             // Allocate memory for call to kdv_scatter_matrix
             scatter_coeffs = malloc(4 * M * sizeof(COMPLEX));
             CHECK_NOMEM(scatter_coeffs, ret_code, leave_fun);
@@ -641,6 +647,8 @@ static inline INT kdvv_compute_boundstates(
                         break;
                     }
                     bound_states[K]=xi[i];
+                    brackets[2*K] = CIMAG(xi[i]);
+                    brackets[2*K+1] = CIMAG(xi[i]);
                     K++;
                 } else if ( i>0 && CREAL(scatter_coeffs[4*i])*CREAL(scatter_coeffs[4*(i-1)])<0) {
                     if (K>=*K_ptr) { // Bound state between this sample and the previous
@@ -674,6 +682,8 @@ static inline INT kdvv_compute_boundstates(
                         scl2 = POW(2, -s);
                     }
                     bound_states[K] = (xi[i-1] * scl1*CREAL(scatter_coeffs[4*i]) - xi[i] * scl2*CREAL(scatter_coeffs[4*(i-1)])) / CREAL( scl1*scatter_coeffs[4*i] - scl2*scatter_coeffs[4*(i-1)]);
+                    brackets[2*K] = CIMAG(xi[i-1]);
+                    brackets[2*K+1] = CIMAG(xi[i]);
                     K++;
                 }
             }
@@ -685,7 +695,7 @@ static inline INT kdvv_compute_boundstates(
             // should be in the continuous-time domain.
 
             ret_code = kdvv_refine_bound_states_newton(D, q, r, T, K, bound_states,
-                    opts_slow.discretization, opts_slow.niter, bounding_box, opts_slow.normalization_flag);
+                    opts_slow.discretization, opts_slow.niter, bounding_box, brackets, opts_slow.normalization_flag);
             CHECK_RETCODE(ret_code, leave_fun);
 
             break;
@@ -702,6 +712,7 @@ leave_fun:
     free(xi);
     free(scatter_coeffs);
     free(log_scaling_factors);
+    free(brackets);
     return ret_code;
 }
 
@@ -997,6 +1008,7 @@ static inline INT kdvv_refine_bound_states_newton(
         kdv_discretization_t const discretization,
         const UINT niter,
         REAL const * const bounding_box,
+        REAL const * const brackets,
         const INT normalization_flag)
 {
     INT ret_code = SUCCESS;
@@ -1046,6 +1058,31 @@ static inline INT kdvv_refine_bound_states_newton(
             error = CREAL(a_val) / (I * CIMAG(aprime_val));
             bound_states[i] -= error;
             iter++;
+
+            // If we know an interval in which a(lam) changes its sign, but
+            // Newton's method leaves it, use bisection instead
+            if (brackets != NULL && !(CIMAG(bound_states[i]) >= brackets[2*i]
+                    && CIMAG(bound_states[i]) <= brackets[2*i+1])) {
+                REAL lo = brackets[2*i], hi = brackets[2*i+1], a_lo = 0.0;
+                COMPLEX lam = I*lo;
+                while (1) {
+                    ret_code = kdv_scatter_bound_states(D, q, r, T, 1, &lam,
+                            &a_val, &aprime_val, &b_val, W_ptr, discretization, 1);
+                    CHECK_RETCODE(ret_code, leave_fun);
+                    if (a_lo == 0.0) // first iteration
+                        a_lo = CREAL(a_val);
+                    else if (CREAL(a_val)*a_lo > 0.0)
+                        lo = CIMAG(lam);
+                    else
+                        hi = CIMAG(lam);
+                    lam = I*(lo + 0.5*(hi - lo));
+                    if (a_lo == 0.0 || !(CIMAG(lam) > lo && CIMAG(lam) < hi))
+                        break;
+                }
+                bound_states[i] = lam;
+                break;
+            }
+
             if (CIMAG(bound_states[i]) > bounding_box[3]
                     || CREAL(bound_states[i]) > bounding_box[1]
                     || CREAL(bound_states[i]) < bounding_box[0]
-- 
2.43.0


From b6c4bd1878b8bfa87387493b0a0570e46ed99565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:49 +0000
Subject: [PATCH 57/63] fix: nsep refinement threw converged points near double
 roots away

---
 src/fnft_nsep.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 026d3b4..75553ba 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -968,6 +968,12 @@ static inline INT refine_mainspec(
                         break;
                 }
             }
+            if (CABS(f) <= tol && !(min_abs < CABS(f))) {
+                // Already converged. The step would make the result worse
+                // (f/f' is not reliable close to roots of higher order)
+                best_incr = 0.0;
+                break;
+            }
             best_incr = best_m*incr;
             mainspec[k] -= best_incr; // Newton step
 
@@ -975,8 +981,9 @@ static inline INT refine_mainspec(
 
             if ( CABS(best_incr) <= tol || CABS(f) <= tol ) {
                 // We already know f and f_prime at the new mainspec[k], so
-                // let's use that for a final first-order Newton step.
-                if (next_f_prime != 0.0)
+                // let's use that for a final first-order Newton step (unless
+                // it is not reliable, see above).
+                if (next_f_prime != 0.0 && CABS(next_f / next_f_prime) <= CABS(best_incr))
                     mainspec[k] -= next_f / next_f_prime;
                 break;
             }
-- 
2.43.0


From 61fc57c0988561a20a82e9c4bdca4a9bca7e3d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:49 +0000
Subject: [PATCH 58/63] fix: nsep grid search reported points twice or failed
 (4SPLIT, wide boxes)

---
 src/fnft_nsep.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 75553ba..04c9dee 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -307,13 +307,18 @@ static inline INT gridsearch(const UINT D,
     }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
-    PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0];
-    PHI[1] = map_coeff*eps_t*opts_ptr->bounding_box[1];
+    PHI[0] = map_coeff/upsampling_factor*eps_t*opts_ptr->bounding_box[0];
+    PHI[1] = map_coeff/upsampling_factor*eps_t*opts_ptr->bounding_box[1];
     if (PHI[0] > PHI[1]) {
         REAL tmp = PHI[0];
         PHI[0] = PHI[1];
         PHI[1] = tmp;
     }
+    // Roots would be found several times if the circle was passed repeatedly
+    if (PHI[0] < -PI)
+        PHI[0] = -PI;
+    if (PHI[1] > PI)
+        PHI[1] = PI;
 
     roots = malloc(oversampling_factor*deg*sizeof(COMPLEX));
     if (roots == NULL) {
-- 
2.43.0


From b2f1d9b5c3cee71e42ee76b9be30a9d5b3f78765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:49 +0000
Subject: [PATCH 59/63] fix: nsep MIXED lost all nonreal points if the box is
 unbounded

---
 src/fnft_nsep.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 04c9dee..f00781b 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -577,6 +577,8 @@ static inline INT subsample_and_refine(const UINT D,
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t_sub, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[3] - opts_ptr->bounding_box[2];
+    if (tol_im == INFINITY) // fall back to the height of the AUTO box
+        tol_im = -2.0*LOG(0.1) / (map_coeff * eps_t_sub);
     tol_im /= oversampling_factor*(D - 1);
 
     // Use unused part of transfer matrix as buffer for the roots
-- 
2.43.0


From 33aa194ae800c7127e37f823f661b20d1a1afada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:49 +0000
Subject: [PATCH 60/63] fix: nsep aux refinement stopped early with
 normalization

The unscaled value of |f| was compared with tol.
---
 src/fnft_nsep.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index f00781b..ee99cfc 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -1023,6 +1023,7 @@ static inline INT refine_auxspec(
     UINT k, nevals;
     COMPLEX M[8];
     COMPLEX f, f_prime, incr;
+    REAL abs_f;
     INT warn_flag = 0;
     INT ret_code;
     INT W = 0;
@@ -1041,10 +1042,13 @@ static inline INT refine_auxspec(
                 return E_SUBROUTINE(ret_code);
             nevals++;
             // We should in principle multiply all entries of M with scl
-            // due to the normalization, but we don't because we only
-            // care about the ratio of f and f_prime, so that scl cancels out
+            // due to the normalization, but we don't because scl cancels out
+            // in the ratio of f and f_prime. It is only required for the
+            // comparisons of |f| with tol.
+            const REAL scl = (normalization_flag) ? POW(2, W) : 1;
             f = M[1]; // f = b(lam)
             f_prime = M[5]; // f' = b'(lam)
+            abs_f = scl*CABS(f);
             if (f_prime == 0.0) {
                 // Either an exact multiple root, or no direction to proceed
                 incr = (f == 0.0) ? 0.0 : INFINITY;
@@ -1055,7 +1059,7 @@ static inline INT refine_auxspec(
 
             incr = f / f_prime;
             auxspec[k] -= incr;
-            if ( CABS(incr) <= tol || CABS(f) <= tol ) // Intentionally put after the previous line
+            if ( CABS(incr) <= tol || abs_f <= tol ) // Intentionally put after the previous line
                 // => we use the already known values for f and f_prime for a
                 // last Newton step even if already |f|<tol.
                 break;
@@ -1065,7 +1069,7 @@ static inline INT refine_auxspec(
                 break;
         }
 
-    	if (CABS(incr) > tol && CABS(f) > tol && in_box(auxspec[k], bounding_box))
+    	if (CABS(incr) > tol && abs_f > tol && in_box(auxspec[k], bounding_box))
     	    warn_flag = 1;
     }
 
-- 
2.43.0


From 7a1abed90db000260af4696c1c4fd5e20109f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:07 +0000
Subject: [PATCH 61/63] fix: nsev_inverse did not detect some multiple bound
 states

---
 src/fnft_nsev_inverse.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 1e900f2..f79eb65 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -752,10 +752,14 @@ static INT add_discrete_spectrum(
         }
     }
     //Checking for multiplicity of bound_states.
-    for (i = 0; i < K-1; i++){
-        if (bnd_states[i+1] == bnd_states[i]){
-            ret_code = E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
-            goto leave_fun;
+    // (Equal values are not necessarily adjacent since only the imaginary parts
+    // have been sorted.)
+    for (i = 0; i < K; i++){
+        for (j = i + 1; j < K; j++){
+            if (bnd_states[j] == bnd_states[i]){
+                ret_code = E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
+                goto leave_fun;
+            }
         }
     }
 
-- 
2.43.0


From 5bf3a6fd3a291f83f6e1a038274b02ef4193990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:07 +0000
Subject: [PATCH 62/63] fix: nsev_inverse skipped samples where |q|^2 =
 -lambda^2 in the Darboux transform

The transition matrix over such a half step is the limit cosh(0)=1,
sinh(k*h)/k=h, not the identity.
---
 src/fnft_nsev_inverse.c | 52 ++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index f79eb65..23b5d85 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -951,30 +951,22 @@ static INT compute_eigenfunctions(
         ks = (-(CABS(q[0])*CABS(q[0]))-(l*l));
         k = CSQRT(ks);
         ch = CCOSH(k*eps_t);
-        sh = CSINH(k*eps_t)/k;
+        sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
         u1 = l*sh*I;
         for (n = 1; n < D; n++){
             //First half-step
-            if (ks != 0){
-                phi1_ptr[n] = (ch-u1)*phi1_ptr[n-1] + (q[n-1]*sh)*phi2_ptr[n-1];
-                phi2_ptr[n] = (-CONJ(q[n-1])*sh)*phi1_ptr[n-1] + (ch + u1)*phi2_ptr[n-1];
-            }
-            else{
-                phi1_ptr[n] = phi1_ptr[n-1];
-                phi2_ptr[n] = phi2_ptr[n-1];
-            }
+            phi1_ptr[n] = (ch-u1)*phi1_ptr[n-1] + (q[n-1]*sh)*phi2_ptr[n-1];
+            phi2_ptr[n] = (-CONJ(q[n-1])*sh)*phi1_ptr[n-1] + (ch + u1)*phi2_ptr[n-1];
             //Second half-step
             ks = (-(CABS(q[n])*CABS(q[n]))-(l*l));
             k = CSQRT(ks);
             ch = CCOSH(k*eps_t);
-            sh = CSINH(k*eps_t)/k;
+            sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
             u1 = l*sh*I;
-            if (ks != 0){
-                tmp1 = (ch-u1)*phi1_ptr[n] + (q[n]*sh)*phi2_ptr[n];
-                tmp2 = (-CONJ(q[n])*sh)*phi1_ptr[n] + (ch + u1)*phi2_ptr[n];
-                phi1_ptr[n] = tmp1;
-                phi2_ptr[n] = tmp2;
-            }
+            tmp1 = (ch-u1)*phi1_ptr[n] + (q[n]*sh)*phi2_ptr[n];
+            tmp2 = (-CONJ(q[n])*sh)*phi1_ptr[n] + (ch + u1)*phi2_ptr[n];
+            phi1_ptr[n] = tmp1;
+            phi2_ptr[n] = tmp2;
         }
     }
     // computing-psi
@@ -990,32 +982,24 @@ static INT compute_eigenfunctions(
         ks = (-(CABS(q[D-1])*CABS(q[D-1]))-(l*l));
         k = CSQRT(ks);
         ch = CCOSH(k*eps_t);
-        sh = CSINH(k*eps_t)/k;
+        sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
         u1 = l*sh*I;
         for (n = D-1; n > 0; n--){
             //First half-step
-            if (ks != 0){
-                scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n])*sh)*(q[n]*sh));
-                psi1_ptr[n-1] = ((ch + u1)*psi1_ptr[n] + (-q[n]*sh)*psi2_ptr[n])/scl;
-                psi2_ptr[n-1] = ((CONJ(q[n])*sh)*psi1_ptr[n] + (ch - u1)*psi2_ptr[n])/scl;
-            }
-            else{
-                psi1_ptr[n-1] = psi1_ptr[n];
-                psi2_ptr[n-1] = psi2_ptr[n];
-            }
+            scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n])*sh)*(q[n]*sh));
+            psi1_ptr[n-1] = ((ch + u1)*psi1_ptr[n] + (-q[n]*sh)*psi2_ptr[n])/scl;
+            psi2_ptr[n-1] = ((CONJ(q[n])*sh)*psi1_ptr[n] + (ch - u1)*psi2_ptr[n])/scl;
             //Second half-step
             ks = (-(CABS(q[n-1])*CABS(q[n-1]))-(l*l));
             k = CSQRT(ks);
             ch = CCOSH(k*eps_t);
-            sh = CSINH(k*eps_t)/k;
+            sh = (ks != 0) ? CSINH(k*eps_t)/k : eps_t;
             u1 = l*sh*I;
-            if (ks != 0){
-                scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n-1])*sh)*(q[n-1]*sh));
-                tmp1 = ((ch + u1)*psi1_ptr[n-1] + (-q[n-1]*sh)*psi2_ptr[n-1])/scl;
-                tmp2 = ((CONJ(q[n-1])*sh)*psi1_ptr[n-1] + (ch - u1)*psi2_ptr[n-1])/scl;
-                psi1_ptr[n-1] = tmp1;
-                psi2_ptr[n-1] = tmp2;
-            }
+            scl = ((ch-u1)*(ch + u1))-(( -CONJ(q[n-1])*sh)*(q[n-1]*sh));
+            tmp1 = ((ch + u1)*psi1_ptr[n-1] + (-q[n-1]*sh)*psi2_ptr[n-1])/scl;
+            tmp2 = ((CONJ(q[n-1])*sh)*psi1_ptr[n-1] + (ch - u1)*psi2_ptr[n-1])/scl;
+            psi1_ptr[n-1] = tmp1;
+            psi2_ptr[n-1] = tmp2;
         }
     }
     return ret_code;
-- 
2.43.0


From e4893c1d78de3a0b999bf061accef10cd25d0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:04 +0000
Subject: [PATCH 63/63] fix: nsep Newton refinement ignored the phase shift in
 the initial guesses

---
 src/fnft_nsep.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index ee99cfc..b200bc8 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -77,7 +77,7 @@ static inline INT newton(
         const UINT D, COMPLEX const * const q, REAL const * const T,
         UINT * const K_ptr, COMPLEX * const main_spec, UINT * const M_ptr,
         COMPLEX * const aux_spec, REAL * const sheet_indices,
-        const INT kappa, fnft_nsep_opts_t * opts_ptr);
+        const INT kappa, fnft_nsep_opts_t * opts_ptr, const REAL Lam_shift);
 
 static inline INT gridsearch(const UINT D,
         COMPLEX const * const q,
@@ -205,7 +205,7 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         case fnft_nsep_loc_NEWTON:
 
             ret_code = newton(D, q_preprocessed, T, K_ptr, main_spec, M_ptr, aux_spec,
-                              sheet_indices, kappa, opts_ptr);
+                              sheet_indices, kappa, opts_ptr, Lam_shift);
             CHECK_RETCODE(ret_code, leave_fun);
             break;
 
@@ -749,13 +749,14 @@ static inline INT subsample_and_refine(const UINT D,
 }
 
 // Auxiliary function: Refines user-provided initial guesses for the main and
-// auxiliary spectrum using Newton's method.
+// auxiliary spectrum using Newton's method. The guesses are for the signal
+// before its phase rotation was removed, which shifts the spectra by -Lam_shift.
 static inline INT newton(const UINT D,
         COMPLEX const * const q,
         REAL const * const T, UINT * const K_ptr,
         COMPLEX * const main_spec, UINT * const M_ptr,
         COMPLEX * const aux_spec, REAL * const sheet_indices,
-        const INT kappa, fnft_nsep_opts_t * opts_ptr)
+        const INT kappa, fnft_nsep_opts_t * opts_ptr, const REAL Lam_shift)
 {
     COMPLEX * initial_guesses = NULL;
     REAL degree1step, map_coeff;
@@ -835,6 +836,8 @@ static inline INT newton(const UINT D,
         if (nvals>1)
             rhs_step /= nvals - 1;
         initial_guesses = main_spec;
+        for (UINT i=0; i<K*nvals; i++)
+            main_spec[i] -= Lam_shift;
 
         for (UINT nval=0; nval<nvals; nval++) {
 
@@ -866,6 +869,8 @@ static inline INT newton(const UINT D,
     if (aux_spec != NULL) {
 
         // Refine the roots
+        for (UINT i=0; i<M; i++)
+            aux_spec[i] -= Lam_shift;
         ret_code = refine_auxspec(D_effective, q_preprocessed, r_preprocessed, eps_t, M,
                                   aux_spec, opts_ptr->max_evals, refine_tol,
                                   kappa, opts_ptr->discretization, opts_ptr->bounding_box,
-- 
2.43.0

