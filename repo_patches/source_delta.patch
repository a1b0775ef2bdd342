From bb12c4aae310f575642bd1e87a75134289f69904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 01/33] fix: osqp_update_settings dereferenced the solver
 before checking it for NULL

---
 src/osqp_api.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 57b5924..1c99e52 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1474,10 +1474,11 @@ OSQPInt osqp_update_rho(OSQPSolver* solver,
 OSQPInt osqp_update_settings(OSQPSolver*         solver,
                              const OSQPSettings* new_settings) {
 
-  OSQPSettings* settings = solver->settings;
+  OSQPSettings* settings;
 
   /* Check if workspace has been initialized */
   if (!solver || !solver->work) return osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+  settings = solver->settings;
 
   /* Validate settings */
   if (validate_settings(new_settings, 0)) return osqp_error(OSQP_SETTINGS_VALIDATION_ERROR);
-- 
2.43.0


From 628b9256cc209cd7f790e1552626d7bae8e1a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 02/33] fix: osqp_cold_start crashed on a NULL solver

---
 src/osqp_api.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 1c99e52..12c1093 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1294,7 +1294,15 @@ OSQPInt osqp_warm_start(OSQPSolver*      solver,
 
 
 void osqp_cold_start(OSQPSolver *solver) {
-  OSQPWorkspace *work = solver->work;
+  OSQPWorkspace *work;
+
+  /* Check if workspace has been initialized */
+  if (!solver || !solver->work) {
+    osqp_error(OSQP_WORKSPACE_NOT_INIT_ERROR);
+    return;
+  }
+  work = solver->work;
+
   OSQPVectorf_set_scalar(work->x, 0.);
   OSQPVectorf_set_scalar(work->z, 0.);
   OSQPVectorf_set_scalar(work->y, 0.);
-- 
2.43.0


From e24ec828ba4f0d910afa7c47f3d527975e854e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 03/33] fix: osqp_error_message read out of bounds for codes
 that are not positive

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 12c1093..d31e2de 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -240,7 +240,7 @@ const char* osqp_version(void) {
 
 
 const char* osqp_error_message(OSQPInt error_flag) {
-  if( error_flag >= OSQP_LAST_ERROR_PLACE ) {
+  if( error_flag <= OSQP_NO_ERROR || error_flag >= OSQP_LAST_ERROR_PLACE ) {
     return OSQP_ERROR_MESSAGE[OSQP_LAST_ERROR_PLACE-1];
   }
 
-- 
2.43.0


From 7f9e9e4633a14625c428716f6db99f1c2770f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 04/33] fix: osqp_setup crashed on missing bound vectors

---
 src/auxil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index fbca9f4..faf8941 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -971,6 +971,11 @@ OSQPInt validate_data(const OSQPCscMatrix* P,
     return 1;
   }
 
+  if (m > 0 && (!l || !u)) {
+    c_eprint("Missing lower or upper bounds");
+    return 1;
+  }
+
   // General dimensions Tests
   if ((n <= 0) || (m < 0)) {
     c_eprint("n must be positive and m nonnegative; n = %i, m = %i",
-- 
2.43.0


From d02cf3c917af245ce590c02caf44af4a449cf06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 05/33] fix: a re-solve could report the status, polish time
 and rho updates of an earlier solve

---
 src/osqp_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index d31e2de..cf4b29b 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -661,6 +661,9 @@ OSQPInt osqp_solve(OSQPSolver *solver) {
   work->rho_update_from_solve = 1;
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
+  // Forget the outcome of the previous solve
+  reset_info(solver->info);
+
   // Initialize variables
   exitflag              = 0;
   can_check_termination = 0;
-- 
2.43.0


From 032c262d06e03cbf74ffdffdad1860ac3f137864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 06/33] fix: status_polish of an earlier solve was reported by
 a solve that did not polish

---
 src/auxil.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/auxil.c b/src/auxil.c
index faf8941..02e68af 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -775,6 +775,7 @@ void reset_info(OSQPInfo *info) {
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
   update_status(info, OSQP_UNSOLVED); // Problem is unsolved
+  info->status_polish = OSQP_POLISH_NOT_PERFORMED;
 
 #if OSQP_EMBEDDED_MODE != 1
   info->rho_updates = 0;              // Rho updates are now 0
-- 
2.43.0


From 68d31ddb3449ef93baceaffc185ac7cfe5e29544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 07/33] fix: info did not describe the returned point when the
 time limit stopped a solve

---
 src/osqp_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index cf4b29b..edc0ae6 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -758,6 +758,8 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       if (settings->verbose) c_print("run time limit reached\n");
       can_print = 0;  // Not printing at this iteration
 # endif /* ifdef OSQP_ENABLE_PRINTING */
+      can_check_termination = 0;  // Nothing has been checked at this iteration
+      iter++;                     // As after a complete run of the loop: iter-1 iterations were performed
       break;
     }
 #endif /* ifdef OSQP_ENABLE_PROFILING */
-- 
2.43.0


From b027ce436a66f09c9c2e9946b860df10354b94c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 08/33] fix: rho updates after an interrupted or failed solve
 were not timed

---
 src/osqp_api.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index edc0ae6..dc2815f 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1015,8 +1015,6 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Indicate that the update_time should be set to zero
   work->clear_update_time = 1;
 
-  // Indicate that osqp_update_rho is not called from osqp_solve
-  work->rho_update_from_solve = 0;
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
 #ifdef OSQP_ENABLE_PRINTING
@@ -1037,6 +1035,11 @@ exit:
   osqp_end_interrupt_listener();
 #endif /* ifdef OSQP_ENABLE_INTERRUPT */
 
+#ifdef OSQP_ENABLE_PROFILING
+  // Indicate that osqp_update_rho is not called from osqp_solve
+  work->rho_update_from_solve = 0;
+#endif /* ifdef OSQP_ENABLE_PROFILING */
+
   osqp_profiler_sec_pop(OSQP_PROFILER_SEC_OPT_SOLVE);
 
   return exitflag;
-- 
2.43.0


From 7ef16a84f9bd77270f6a20d28249ec18b1292e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 09/33] fix: time-based rho adaptation always chose an interval
 of one iteration

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index dc2815f..ea30db7 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -813,7 +813,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
           }
 
           // Make sure the interval is not 0 and at least check_termination times
-          settings->adaptive_rho_interval = c_min(1, c_max(settings->adaptive_rho_interval,
+          settings->adaptive_rho_interval = c_max(1, c_max(settings->adaptive_rho_interval,
                                                            settings->check_termination));
         }
         else
-- 
2.43.0


From 62d8d1829dbedf5aee3e6d9c4eebd2f60d575318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 10/33] fix: scalar rho outside of its limits was inverted
 without clipping it

---
 src/osqp_api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index ea30db7..dec3547 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -493,7 +493,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   }
   else {
     solver->settings->rho = c_min(c_max(settings->rho, OSQP_RHO_MIN), OSQP_RHO_MAX);
-    work->rho_inv = 1. / settings->rho;
+    work->rho_inv = 1. / solver->settings->rho;
   }
 
   // Initialize linear system solver structure
-- 
2.43.0


From eb9b483cc8c182dccd654c22632142e1fbfb1e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 11/33] fix: full update of P added the KKT regularization to
 the wrong entries

---
 algebra/_common/kkt.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/algebra/_common/kkt.c b/algebra/_common/kkt.c
index c4f33a1..1775baf 100644
--- a/algebra/_common/kkt.c
+++ b/algebra/_common/kkt.c
@@ -353,14 +353,13 @@ void update_KKT_P(OSQPCscMatrix* KKT,
                   OSQPInt*       PtoKKT,
                   OSQPFloat      param1,
                   OSQPInt        format) {
-  OSQPInt j, Pidx, Kidx, row, offset, doall;
+  OSQPInt j, Pidx, Kidx, row, doall;
 
   if(P_new_n <= 0){return;}
 
   //if Px_new_idx is null, we assume that all
   //elements are to be replaced (and that P_new_n = nnz(P))
   doall  = Px_new_idx == OSQP_NULL ? 1 : 0;
-  offset = format == 0 ? 1 : 0;
 
   for (j = 0; j < P_new_n; j++) {
     Pidx = doall ? j : Px_new_idx[j];
@@ -369,8 +368,10 @@ void update_KKT_P(OSQPCscMatrix* KKT,
 
     //is the corresonding column nonempty with
     //the current element on the diagonal (i.e. row==col)?
+    //NB: P is triu CSC whatever the format of the KKT, so
+    //its diagonal terms are last in every column.
     row  = P->i[Pidx];
-    if((P->p[row] < P->p[row+1]) && ((P->p[row+offset] - offset) == Pidx)){
+    if((P->p[row] < P->p[row+1]) && ((P->p[row+1] - 1) == Pidx)){
       KKT->x[Kidx] += param1;
     }
   }
-- 
2.43.0


From ed44e8cced21df5c324ab0988e2e3cfa281bc8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 12/33] fix: polishing ignored the delta setting

---
 algebra/_common/lin_sys/qdldl/qdldl_interface.c | 2 +-
 algebra/mkl/lin_sys/direct/pardiso_interface.c  | 3 ++-
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 6 +++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/algebra/_common/lin_sys/qdldl/qdldl_interface.c b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
index 6af6385..6ec74e9 100644
--- a/algebra/_common/lin_sys/qdldl/qdldl_interface.c
+++ b/algebra/_common/lin_sys/qdldl/qdldl_interface.c
@@ -226,7 +226,7 @@ OSQPInt init_linsys_solver_qdldl(qdldl_solver**      sp,
     OSQPInt    m, n;      // Dimensions of A
     OSQPInt    n_plus_m;  // Define n_plus_m dimension
     OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
-    OSQPFloat  sigma = settings->sigma;
+    OSQPFloat  sigma = polishing ? settings->delta : settings->sigma;
 
     // Allocate private structure to store KKT factorization
     qdldl_solver* s = c_calloc(1, sizeof(qdldl_solver));
diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index e207116..ef0e240 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -77,7 +77,8 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   OSQPInt    n_plus_m;  // n_plus_m dimension
   OSQPFloat* rhov;      // used for direct access to rho_vec data when polishing=false
 
-  OSQPFloat sigma = settings->sigma;
+  // Regularization of the KKT matrix: delta for polishing, sigma for ADMM
+  OSQPFloat sigma = polishing ? settings->delta : settings->sigma;
 
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index de14930..8e39443 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -99,7 +99,7 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //data, no copies or processing required
   s->P       = *(OSQPMatrix**)(&P);
   s->A       = *(OSQPMatrix**)(&A);
-  s->sigma   = settings->sigma;
+  s->sigma   = polish ? settings->delta : settings->sigma;
   s->polish  = polish;
   s->m       = m;
   s->n       = n;
@@ -108,12 +108,12 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->scaled_dual_res = scaled_dual_res;
 
   //if polish is false, use the rho_vec we get.
-  //Otherwise, use rho_vec = ones.*(1/sigma)
+  //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
       OSQPVectorf_copy(s->rho_vec, rho_vec);
   } else {
-      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->sigma);
+      OSQPVectorf_set_scalar(s->rho_vec, 1/settings->delta);
   }
 
   //Link functions
-- 
2.43.0


From 428d77c8f2ff2a7cc933a54afff67dea3ec55089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 13/33] fix: MKL CG solver crashed with a scalar rho

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 8e39443..c098cb3 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -111,7 +111,8 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //Otherwise, use rho_vec = ones.*(1/delta)
   s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
-      OSQPVectorf_copy(s->rho_vec, rho_vec);
+      if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
+      else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
   } else {
       OSQPVectorf_set_scalar(s->rho_vec, 1/settings->delta);
   }
@@ -364,7 +365,8 @@ OSQPInt update_matrices_linsys_mklcg(mklcg_solver*     s,
 OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
                               const OSQPVectorf* rho_vec,
                               OSQPFloat          rho_sc) {
-  OSQPVectorf_copy(s->rho_vec, rho_vec);
+  if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
+  else         OSQPVectorf_set_scalar(s->rho_vec, rho_sc);
 
   // Update the preconditioner (rho-only update)
   cg_update_precond(s);
-- 
2.43.0


From 4c72e46c0a4e7e3ac8c4e84c14298792ec1a2f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:35 +0000
Subject: [PATCH 14/33] fix: products with an empty matrix left the result
 vector as it was

---
 algebra/mkl/matrix.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index 3c4e6d1..a353913 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -231,6 +231,13 @@ void OSQPMatrix_Axpy(const OSQPMatrix*  A,
     descr.diag = SPARSE_DIAG_NON_UNIT;
   }
 
+  /* There is no MKL matrix if A is empty, so only scale y */
+  if (!A->mkl_mat) {
+    if (beta == 0.0) OSQPVectorf_set_scalar(y, 0.0);
+    else             OSQPVectorf_mult_scalar(y, beta);
+    return;
+  }
+
   spblas_mv(SPARSE_OPERATION_NON_TRANSPOSE, alpha, A->mkl_mat, descr, x->values, beta, y->values);
 }
 
@@ -255,6 +262,13 @@ void OSQPMatrix_Atxpy(const OSQPMatrix*  A,
     descr.diag = SPARSE_DIAG_NON_UNIT;
   }
 
+  /* There is no MKL matrix if A is empty, so only scale y */
+  if (!A->mkl_mat) {
+    if (beta == 0.0) OSQPVectorf_set_scalar(y, 0.0);
+    else             OSQPVectorf_mult_scalar(y, beta);
+    return;
+  }
+
   spblas_mv(SPARSE_OPERATION_TRANSPOSE, alpha, A->mkl_mat, descr, x->values, beta, y->values);
 }
 
-- 
2.43.0


From ffbed06980e08da95006f3f77fea96c89dd31ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:35 +0000
Subject: [PATCH 15/33] fix: infeasibility certificates were left scaled with
 scaled_termination

---
 src/auxil.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index 02e68af..5c0f60f 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -915,8 +915,8 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_PRIMAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
-      // Update infeasibility certificate
+    if (settings->scaling) {
+      // Unscale infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_y,
                           work->delta_y,
                           work->scaling->E);
@@ -932,8 +932,8 @@ OSQPInt check_termination(OSQPSolver* solver,
       update_status(info, OSQP_DUAL_INFEASIBLE);
     }
 
-    if (settings->scaling && !settings->scaled_termination) {
-      // Update infeasibility certificate
+    if (settings->scaling) {
+      // Unscale infeasibility certificate
       OSQPVectorf_ew_prod(work->delta_x,
                           work->delta_x,
                           work->scaling->D);
-- 
2.43.0


From 08e08f7e0d3a38c4bc4ae0253087643968fe89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:35 +0000
Subject: [PATCH 16/33] fix: stale certificates were returned for non convex
 problems

---
 src/auxil.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/auxil.c b/src/auxil.c
index 5c0f60f..6e99b7c 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -645,6 +645,14 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
 
 #ifndef OSQP_EMBEDDED_MODE
 
+    // Neither certificate is available for a non convex problem
+    if (info->status_val == OSQP_NON_CVX) {
+      OSQPVectorf_set_scalar(work->delta_y, OSQP_NAN);
+      OSQPVectorf_set_scalar(work->delta_x, OSQP_NAN);
+      OSQPVectorf_to_raw(solution->prim_inf_cert, work->delta_y);
+      OSQPVectorf_to_raw(solution->dual_inf_cert, work->delta_x);
+    }
+
     // Normalize infeasibility certificates if embedded is off
     // NB: It requires a division
     if ((info->status_val == OSQP_PRIMAL_INFEASIBLE) ||
-- 
2.43.0


From 6460d066281a71855d61efd6a45f8f540a858bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:35 +0000
Subject: [PATCH 17/33] fix: iterates were reset when the result of an
 infeasible problem was read, not when it was solved

---
 src/auxil.c    | 13 +++++--------
 src/osqp_api.c |  4 ++++
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/auxil.c b/src/auxil.c
index 6e99b7c..46a9937 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -634,14 +634,11 @@ void store_solution(OSQPSolver *solver, OSQPSolution* solution) {
   else {
 
     // No solution present. Solution is NaN
-    OSQPVectorf_set_scalar(work->x, OSQP_NAN);
-    OSQPVectorf_set_scalar(work->y, OSQP_NAN);
-    OSQPVectorf_to_raw(solution->x, work->x); // primal
-    OSQPVectorf_to_raw(solution->y, work->y); // dual
-
-    // reset iterates to 0 for next run (they cannot start from NaN)
-    osqp_cold_start(solver);
-
+    // (use x_prev and z_prev as scratch space, the iterates are kept)
+    OSQPVectorf_set_scalar(work->x_prev, OSQP_NAN);
+    OSQPVectorf_set_scalar(work->z_prev, OSQP_NAN);
+    OSQPVectorf_to_raw(solution->x, work->x_prev); // primal
+    OSQPVectorf_to_raw(solution->y, work->z_prev); // dual
 
 #ifndef OSQP_EMBEDDED_MODE
 
diff --git a/src/osqp_api.c b/src/osqp_api.c
index dec3547..e39ae5c 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1025,6 +1025,10 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   // Store solution
   store_solution(solver, solver->solution);
 
+  // If there is no solution, reset iterates to 0 for next run
+  // (they cannot start from diverging values)
+  if (!has_solution(solver->info)) osqp_cold_start(solver);
+
 // Define exit flag for quitting function
 #if defined(OSQP_ENABLE_PROFILING) || defined(OSQP_ENABLE_INTERRUPT) || OSQP_EMBEDDED_MODE != 1
 exit:
-- 
2.43.0


From a934ed1a6d59e6a0065f067c8c3de2f1f719875a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:35 +0000
Subject: [PATCH 18/33] fix: a rejected bounds update overwrote the
 infeasibility certificate

---
 src/osqp_api.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index e39ae5c..6770f4d 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1219,9 +1219,10 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
 
   /* Update constraint bounds */
   if (l_new || u_new) {
-    /* Use z_prev and delta_y to store l_new and u_new */
+    /* Use z_prev and Adelta_x to store l_new and u_new
+     * NB: delta_y holds the primal infeasibility certificate */
     l_tmp = work->z_prev;
-    u_tmp = work->delta_y;
+    u_tmp = work->Adelta_x;
 
     /* Copy l_new and u_new to l_tmp and u_tmp */
     if (l_new) OSQPVectorf_from_raw(l_tmp, l_new);
@@ -1239,9 +1240,9 @@ OSQPInt osqp_update_data_vec(OSQPSolver*      solver,
       if (exitflag) return osqp_error(OSQP_DATA_VALIDATION_ERROR);
 
       /* Swap vectors.
-       * NB: Use work->z_prev & delta_y rather than l_tmp & u_tmp */
+       * NB: Use work->z_prev & Adelta_x rather than l_tmp & u_tmp */
       if (l_new) swap_vectors(&work->z_prev,  &work->data->l);
-      if (u_new) swap_vectors(&work->delta_y, &work->data->u);
+      if (u_new) swap_vectors(&work->Adelta_x, &work->data->u);
 
 #if OSQP_EMBEDDED_MODE != 1
       /* Update rho_vec and refactor if constraints type changes */
-- 
2.43.0


From b50525aef449b5cecd815b8aa14e05f1c96e34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:35 +0000
Subject: [PATCH 19/33] fix: a negative duality gap was ignored in the relative
 KKT error

---
 src/auxil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auxil.c b/src/auxil.c
index 46a9937..b6967e3 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -759,7 +759,7 @@ void update_info(OSQPSolver* solver,
 #endif /* ifdef OSQP_ENABLE_PROFILING */
 
   // Compute the relative KKT error
-  info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), *dual_gap);
+  info->rel_kkt_error = c_max( c_max(*dual_res, *prim_res), c_absval(*dual_gap));
 
 #ifdef OSQP_ENABLE_PRINTING
   work->summary_printed = 0; // The just updated info have not been printed
-- 
2.43.0


From 79a7d17a3b39e54c83ac61907a0dc1ce6fac57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:35 +0000
Subject: [PATCH 20/33] fix: the relative KKT error was that of the rejected
 point after a failed polish

---
 src/polish.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/polish.c b/src/polish.c
index f66a0a0..30135e7 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -319,6 +319,8 @@ OSQPInt polish(OSQPSolver* solver) {
   OSQPInt polish_successful = 0;
   OSQPInt exitflag = 0;
 
+  OSQPFloat rel_kkt_error; // KKT error of the ADMM solution
+
   LinSysSolver* plsh = OSQP_NULL;
   OSQPVectorf*  rhs_red = OSQP_NULL;
   OSQPVectorf*  pol_sol = OSQP_NULL; // Polished solution (x and reduced y)
@@ -456,6 +458,7 @@ OSQPInt polish(OSQPSolver* solver) {
   OSQPVectorf_minus(work->pol->y, work->pol->y, work->pol->z);
 
   // Compute primal and dual residuals at the polished solution
+  rel_kkt_error = info->rel_kkt_error;
   update_info(solver, 0, 1);
 
   // Check if polish was successful
@@ -497,6 +500,9 @@ OSQPInt polish(OSQPSolver* solver) {
   } else { // Polishing failed
     info->status_polish = OSQP_POLISH_FAILED;
 
+    // The ADMM solution is kept, and so is its KKT error
+    info->rel_kkt_error = rel_kkt_error;
+
     // TODO: Try to find a better solution on the line connecting ADMM
     //       and polished solution
   }
-- 
2.43.0


From 347d247444706a21da54158500b58ab7470e5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:11 +0000
Subject: [PATCH 21/33] fix: iterates were distorted by the rescaling of a
 matrix update

---
 src/osqp_api.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 6770f4d..a051427 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -1390,7 +1390,15 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
     A_new_n = nnzA;
   }
 
-  if (solver->settings->scaling) unscale_data(solver);
+  if (solver->settings->scaling) {
+    unscale_data(solver);
+
+    // Unscale iterates too, because the scaling is about to change
+    OSQPVectorf_ew_prod(work->x, work->x, work->scaling->D);
+    OSQPVectorf_ew_prod(work->z, work->z, work->scaling->Einv);
+    OSQPVectorf_ew_prod(work->y, work->y, work->scaling->E);
+    OSQPVectorf_mult_scalar(work->y, work->scaling->cinv);
+  }
 
   if (Px_new){
     OSQPMatrix_update_values(work->data->P, Px_new, Px_new_idx, P_new_n);
@@ -1399,7 +1407,14 @@ OSQPInt osqp_update_data_mat(OSQPSolver*      solver,
     OSQPMatrix_update_values(work->data->A, Ax_new, Ax_new_idx, A_new_n);
   }
 
-  if (solver->settings->scaling) scale_data(solver);
+  if (solver->settings->scaling) {
+    scale_data(solver);
+
+    OSQPVectorf_ew_prod(work->x, work->x, work->scaling->Dinv);
+    OSQPVectorf_ew_prod(work->z, work->z, work->scaling->E);
+    OSQPVectorf_ew_prod(work->y, work->y, work->scaling->Einv);
+    OSQPVectorf_mult_scalar(work->y, work->scaling->c);
+  }
 
   // Update linear system structure with new data.
   // If there is scaling, then a full update is needed.
-- 
2.43.0


From bfca979b3b5ca3a41605ea587fe4488f86390109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:58 +0000
Subject: [PATCH 22/33] fix: allocation failures in the CSC matrix constructors
 crashed or returned broken matrices

---
 src/osqp_api.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index a051427..6f3d734 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -66,6 +66,16 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   mat->n  = n;
   mat->nz = -1;
   mat->p  = (OSQPInt*) c_calloc(n + 1, sizeof(OSQPInt));
+  mat->i  = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
+  mat->x  = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
+
+  // We own the arrays
+  mat->owned = 1;
+
+  if (!mat->p || (min_elem > 0 && (!mat->i || !mat->x))) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
 
   if( m < n) {
     // Fewer rows than columns
@@ -84,8 +94,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   }
 
   mat->nzmax = min_elem;
-  mat->i     = (OSQPInt*) c_malloc(min_elem * sizeof(OSQPInt));
-  mat->x     = (OSQPFloat*) c_malloc(min_elem * sizeof(OSQPFloat));
 
   for(i=0; i < min_elem; i++) {
     mat->i[i] = i;
@@ -95,9 +103,6 @@ OSQPCscMatrix* OSQPCscMatrix_diag_scalar(OSQPInt   m,
   // Last element of column vector is always the number of entries
   mat->p[n] = min_elem;
 
-  // We own the arrays
-  mat->owned = 1;
-
   return mat;
 }
 
@@ -140,6 +145,11 @@ OSQPCscMatrix* OSQPCscMatrix_zeros(OSQPInt    m,
   // We own the arrays
   mat->owned = 1;
 
+  if (!mat->p) {
+    OSQPCscMatrix_free(mat);
+    return OSQP_NULL;
+  }
+
   return mat;
 }
 
-- 
2.43.0


From c083595dda3a6d4496570687bb48fe63a9773742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:58 +0000
Subject: [PATCH 23/33] fix: unchecked allocations in the MKL matrices

---
 algebra/mkl/matrix.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/algebra/mkl/matrix.c b/algebra/mkl/matrix.c
index a353913..f8c9795 100644
--- a/algebra/mkl/matrix.c
+++ b/algebra/mkl/matrix.c
@@ -17,6 +17,21 @@ OSQPInt OSQPMatrix_is_eq(const OSQPMatrix* A,
           csc_is_eq(A->csc, B->csc, tol) );
 }
 
+static void mkl_csc_spfree(OSQPCscMatrix* M) {
+  if(M) {
+    if(M->p)
+      blas_free(M->p);
+
+    if(M->i)
+      blas_free(M->i);
+
+    if(M->x)
+      blas_free(M->x);
+
+    c_free(M);
+  }
+}
+
 /* Special routine to allocate a OSQPCscMatrix using the MKL memory routines
    instead of the normal memory routines */
 static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPInt hasData) {
@@ -34,22 +49,13 @@ static OSQPCscMatrix* mkl_csc_spalloc(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPI
   csc->i     = hasData ? blas_malloc(nzmax * sizeof(OSQPInt)) : OSQP_NULL;
   csc->x     = hasData ? blas_malloc(nzmax * sizeof(OSQPFloat)) : OSQP_NULL;
 
-  return csc;
-}
-
-static void mkl_csc_spfree(OSQPCscMatrix* M) {
-  if(M) {
-    if(M->p)
-      blas_free(M->p);
-
-    if(M->i)
-      blas_free(M->i);
-
-    if(M->x)
-      blas_free(M->x);
-
-    c_free(M);
+  /* NB: The memory routines can return a null pointer for empty arrays */
+  if(!csc->p || (hasData && nzmax > 0 && (!csc->i || !csc->x))) {
+    mkl_csc_spfree(csc);
+    return OSQP_NULL;
   }
+
+  return csc;
 }
 
 //Make a copy from a csc matrix.  Returns OSQP_NULL on failure
@@ -342,7 +348,10 @@ static OSQPCscMatrix* mkl_submatrix_byrows(const OSQPCscMatrix* A,
 
   // Form R = A(rows,:), where nrows = sum(rows != 0)
   R = mkl_csc_spalloc(Rm, An, nzR, 1);
-  if (!R) return OSQP_NULL;
+  if (!R) {
+    c_free(rridx);
+    return OSQP_NULL;
+  }
 
   // no active constraints
   if (Rm == 0) {
-- 
2.43.0


From 3e6a0cb17e57a0b89f513b215caa187341529b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:58 +0000
Subject: [PATCH 24/33] fix: osqp_setup dereferenced a failed allocation and
 left structures uninitialized for osqp_cleanup

---
 src/osqp_api.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 6f3d734..41fcf26 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -427,13 +427,13 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   work->x           = OSQPVectorf_calloc(n);
   work->z           = OSQPVectorf_calloc(m);
   work->xz_tilde    = OSQPVectorf_calloc(n + m);
-  work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
-  work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   work->x_prev      = OSQPVectorf_calloc(n);
   work->z_prev      = OSQPVectorf_calloc(m);
   work->y           = OSQPVectorf_calloc(m);
   if (!(work->x) || !(work->z) || !(work->xz_tilde))
     return osqp_error(OSQP_MEM_ALLOC_ERROR);
+  work->xtilde_view = OSQPVectorf_view(work->xz_tilde,0,n);
+  work->ztilde_view = OSQPVectorf_view(work->xz_tilde,n,m);
   if (!(work->xtilde_view) || !(work->ztilde_view))
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
   if (!(work->x_prev) || !(work->z_prev) || !(work->y))
@@ -467,7 +467,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   // Perform scaling
   if (settings->scaling) {
     // Allocate scaling structure
-    work->scaling = c_malloc(sizeof(OSQPScaling));
+    work->scaling = c_calloc(1, sizeof(OSQPScaling));
     if (!(work->scaling)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
     work->scaling->D    = OSQPVectorf_calloc(n);
     work->scaling->Dinv = OSQPVectorf_calloc(n);
@@ -523,7 +523,7 @@ OSQPInt osqp_setup(OSQPSolver**         solverp,
   osqp_cold_start(solver);
 
   // Initialize active constraints structure
-  work->pol = c_malloc(sizeof(OSQPPolish));
+  work->pol = c_calloc(1, sizeof(OSQPPolish));
   if (!(work->pol)) return osqp_error(OSQP_MEM_ALLOC_ERROR);
   work->pol->active_flags = OSQPVectori_malloc(m);
   work->pol->x            = OSQPVectorf_malloc(n);
-- 
2.43.0


From 6fc62b10ccfb0bf26dcc86ca49f98fa7c8f406ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:58 +0000
Subject: [PATCH 25/33] fix: allocation failures in the Pardiso interface
 crashed or left a dangling solver

---
 .../mkl/lin_sys/direct/pardiso_interface.c    | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/algebra/mkl/lin_sys/direct/pardiso_interface.c b/algebra/mkl/lin_sys/direct/pardiso_interface.c
index ef0e240..7396d9c 100644
--- a/algebra/mkl/lin_sys/direct/pardiso_interface.c
+++ b/algebra/mkl/lin_sys/direct/pardiso_interface.c
@@ -36,14 +36,16 @@ void warm_start_linsys_solver_pardiso(pardiso_solver*    s,
 void free_linsys_solver_pardiso(pardiso_solver* s) {
   if (s) {
 
-    // Free pardiso solver using internal function
-    s->phase = PARDISO_CLEANUP;
-    PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
-             &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
-             s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
-
-    if ( s->error != 0 ){
-      c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+    // Free pardiso solver using internal function (if it has been called at all)
+    if (s->phase) {
+      s->phase = PARDISO_CLEANUP;
+      PARDISO (s->pt, &(s->maxfct), &(s->mnum), &(s->mtype), &(s->phase),
+               &(s->nKKT), &(s->fdum), s->KKT_p, s->KKT_i, &(s->idum), &(s->nrhs),
+               s->iparm, &(s->msglvl), &(s->fdum), &(s->fdum), &(s->error));
+
+      if ( s->error != 0 ){
+        c_eprint("Error during MKL Pardiso cleanup: %d", (int)s->error);
+      }
     }
     // Check each attribute of the structure and free it if it exists
     if (s->KKT)         csc_spfree(s->KKT);
@@ -83,6 +85,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   // Allocate private structure to store KKT factorization
   pardiso_solver *s = c_calloc(1, sizeof(pardiso_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   // Size of KKT
   n = P->csc->n;
@@ -122,6 +125,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   }
   // else it is NULL
 
+  if (!s->bp || !s->sol || (rho_vec && !s->rho_inv_vec)) {
+    free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   // Form KKT matrix
   if (polishing){ // Called from polish()
     s->KKT = form_KKT(P->csc,A->csc,
@@ -136,6 +145,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->AtoKKT   = c_malloc(A->csc->p[n] * sizeof(OSQPInt));
     s->rhotoKKT = c_malloc(m * sizeof(OSQPInt));
 
+    if ((P->csc->p[n] > 0 && !s->PtoKKT) || (A->csc->p[n] > 0 && !s->AtoKKT) || (m > 0 && !s->rhotoKKT)) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     // Use s->rho_inv_vec for storing param2 = rho_inv_vec
     if (rho_vec) {
         rhov = rho_vec->values;
@@ -157,6 +172,7 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
   if (!(s->KKT)) {
 	  c_eprint("Error in forming KKT matrix");
     free_linsys_solver_pardiso(s);
+    *sp = OSQP_NULL;
     return OSQP_LINSYS_SOLVER_INIT_ERROR;
   } else {
     // Adjust indexing for Pardiso
@@ -164,6 +180,12 @@ OSQPInt init_linsys_solver_pardiso(pardiso_solver**    sp,
     s->KKT_i = c_malloc((nnzKKT) * sizeof(OSQPInt));
     s->KKT_p = c_malloc((n_plus_m + 1) * sizeof(OSQPInt));
 
+    if (!s->KKT_i || !s->KKT_p) {
+      free_linsys_solver_pardiso(s);
+      *sp = OSQP_NULL;
+      return OSQP_MEM_ALLOC_ERROR;
+    }
+
     for(i = 0; i < nnzKKT; i++){
       s->KKT_i[i] = s->KKT->i[i] + 1;
     }
-- 
2.43.0


From 440f99d48a1404b525a6b7d6d36aaeb2e6947fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:58 +0000
Subject: [PATCH 26/33] fix: unchecked allocations in the MKL CG interface

---
 .../mkl/lin_sys/indirect/mkl-cg_interface.c   | 55 ++++++++++++-------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index c098cb3..9ff71f7 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -92,8 +92,9 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   OSQPInt m = A->csc->m;
   OSQPInt n = P->csc->n;
   MKL_INT status;
-  mklcg_solver* s = (mklcg_solver *)c_malloc(sizeof(mklcg_solver));
+  mklcg_solver* s = (mklcg_solver *)c_calloc(1, sizeof(mklcg_solver));
   *sp = s;
+  if (!s) return OSQP_MEM_ALLOC_ERROR;
 
   //Just hold on to pointers to the problem
   //data, no copies or processing required
@@ -107,9 +108,35 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->scaled_prim_res = scaled_prim_res;
   s->scaled_dual_res = scaled_dual_res;
 
+  //Initialise solver state to zero since it provides
+  //cold start condition for the CG inner solver
+  s->x = OSQPVectorf_calloc(n);
+
+  //Vector for the step sizes
+  s->rho_vec = OSQPVectorf_malloc(m);
+
+  //Workspace for CG products and polishing
+  s->ywork = OSQPVectorf_malloc(m);
+
+  //Allocate a 4*n vector for the MKL workspace
+  // 1:n     = Vector to multiply by the matrix
+  // n+1:2n  = Vector after multiplying by the matrix
+  // 2n+1:3n = Vector to apply the preconditioner to
+  // 3n+1:4n = Vector after application of the preconditioner
+  s->tmp = OSQPVectorf_malloc(4*n);
+
+  //Preconditioner vectors
+  s->precond     = OSQPVectorf_malloc(n);
+  s->precond_inv = OSQPVectorf_malloc(n);
+
+  if (!s->x || !s->rho_vec || !s->ywork || !s->tmp || !s->precond || !s->precond_inv) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   //if polish is false, use the rho_vec we get.
   //Otherwise, use rho_vec = ones.*(1/delta)
-  s->rho_vec = OSQPVectorf_malloc(m);
   if (!polish) {
       if (rho_vec) OSQPVectorf_copy(s->rho_vec, rho_vec);
       else         OSQPVectorf_set_scalar(s->rho_vec, settings->rho);
@@ -145,13 +172,6 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   //the same thing as the pardiso solver
   s->nthreads = mkl_get_max_threads();
 
-  //Initialise solver state to zero since it provides
-  //cold start condition for the CG inner solver
-  s->x = OSQPVectorf_calloc(n);
-
-  //Workspace for CG products and polishing
-  s->ywork = OSQPVectorf_malloc(m);
-
   //make subviews for the rhs.   OSQP passes
   //a different RHS pointer at every iteration,
   //so we will need to update these views every
@@ -159,13 +179,6 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->r1 = OSQPVectorf_view(s->x, 0, 0);
   s->r2 = OSQPVectorf_view(s->x, 0, 0);
 
-  //Allocate a 4*n vector for the MKL workspace
-  // 1:n     = Vector to multiply by the matrix
-  // n+1:2n  = Vector after multiplying by the matrix
-  // 2n+1:3n = Vector to apply the preconditioner to
-  // 3n+1:4n = Vector after application of the preconditioner
-  s->tmp = OSQPVectorf_malloc(4*n);
-
   // Create subviews to tmp to aid the matrix-vector multiplication
   s->mvm_pre  = OSQPVectorf_view(s->tmp, 0, n);
   s->mvm_post = OSQPVectorf_view(s->tmp, n, n);
@@ -174,11 +187,15 @@ OSQPInt init_linsys_mklcg(mklcg_solver**     sp,
   s->precond_pre  = OSQPVectorf_view(s->tmp, 2*n, n);
   s->precond_post = OSQPVectorf_view(s->tmp, 3*n, n);
 
+  if (!s->r1 || !s->r2 || !s->mvm_pre || !s->mvm_post || !s->precond_pre || !s->precond_post) {
+    free_linsys_mklcg(s);
+    *sp = OSQP_NULL;
+    return OSQP_MEM_ALLOC_ERROR;
+  }
+
   status = cg_solver_init(s);
 
   // Compute the preconditioner
-  s->precond     = OSQPVectorf_malloc(n);
-  s->precond_inv = OSQPVectorf_malloc(n);
   cg_update_precond(s);
 
   return status;
@@ -377,7 +394,7 @@ OSQPInt update_rho_linsys_mklcg(mklcg_solver*    s,
 
 void free_linsys_mklcg(mklcg_solver* s) {
 
-  if (s->tmp) {
+  if (s) {
     OSQPVectorf_free(s->tmp);
     OSQPVectorf_free(s->rho_vec);
     OSQPVectorf_free(s->x);
-- 
2.43.0


From 73a7b3297185958ac6fbb6e4b034e9632a8be4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:35 +0000
Subject: [PATCH 27/33] fix: failures while polishing leaked memory and crashed
 on failed allocations

---
 src/polish.c | 71 ++++++++++++++++++++--------------------------------
 1 file changed, 27 insertions(+), 44 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index 30135e7..56082dc 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -200,6 +200,7 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
 
     // Allocate dz and rhs vectors
     rhs = OSQPVectorf_malloc(work->data->n + mred);
+    if (!rhs) return osqp_error(OSQP_MEM_ALLOC_ERROR);
 
     //form views of the top/bottom parts of rhs and z
     rhs1 = OSQPVectorf_view(rhs,0,work->data->n);
@@ -207,7 +208,13 @@ static OSQPInt iterative_refinement(OSQPSolver*   solver,
     z1   = OSQPVectorf_view(z,0,work->data->n);
     z2   = OSQPVectorf_view(z,work->data->n,mred);
 
-    if (!rhs || !rhs1 || !rhs2 || !z1 || !z2) {
+    if (!rhs1 || !rhs2 || !z1 || !z2) {
+      OSQPVectorf_free(rhs);
+      OSQPVectorf_view_free(rhs1);
+      OSQPVectorf_view_free(rhs2);
+      OSQPVectorf_view_free(z1);
+      OSQPVectorf_view_free(z2);
+
       return osqp_error(OSQP_MEM_ALLOC_ERROR);
     }
 
@@ -360,11 +367,7 @@ OSQPInt polish(OSQPSolver* solver) {
   if (exitflag) {
     /* Failure to initialize the linear system */
     info->status_polish = OSQP_POLISH_LINSYS_ERROR;
-
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-
-    return exitflag;
+    goto exit;
   }
 
   // Form reduced right-hand side rhs_red
@@ -373,11 +376,8 @@ OSQPInt polish(OSQPSolver* solver) {
   if (!rhs_red) {
     /* Failure to allocate memory */
     info->status_polish = OSQP_POLISH_FAILED;
-
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
+    goto exit;
   }
 
   exitflag = form_rhs_red(work, rhs_red);
@@ -385,11 +385,7 @@ OSQPInt polish(OSQPSolver* solver) {
   if (exitflag) {
     /* Failure to form reduced right hand side */
     info->status_polish = OSQP_POLISH_FAILED;
-
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-
-    return exitflag;
+    goto exit;
   }
 
   pol_sol = OSQPVectorf_copy_new(rhs_red);
@@ -397,12 +393,8 @@ OSQPInt polish(OSQPSolver* solver) {
   if (!pol_sol) {
     /* Failure to allocate vector */
     info->status_polish = OSQP_POLISH_FAILED;
-
-    /* Memory clean-up */
-    OSQPMatrix_free(work->pol->Ared);
-    OSQPVectorf_free(rhs_red);
-
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
+    goto exit;
   }
 
   pol_sol_xview = OSQPVectorf_view(pol_sol,0,work->data->n);
@@ -412,15 +404,8 @@ OSQPInt polish(OSQPSolver* solver) {
 
     // Polishing failed
     info->status_polish = OSQP_POLISH_FAILED;
-
-    // Memory clean-up
-    OSQPMatrix_free(work->pol->Ared);
-    OSQPVectorf_free(rhs_red);
-    OSQPVectorf_free(pol_sol);
-    OSQPVectorf_view_free(pol_sol_xview);
-    OSQPVectorf_view_free(pol_sol_yview);
-
-    return osqp_error(OSQP_MEM_ALLOC_ERROR);
+    exitflag = osqp_error(OSQP_MEM_ALLOC_ERROR);
+    goto exit;
   }
 
   // Warm start the polished solution
@@ -435,21 +420,19 @@ OSQPInt polish(OSQPSolver* solver) {
   if (exitflag) {
     // Polishing failed
     info->status_polish = OSQP_POLISH_FAILED;
-
-    // Memory clean-up
-    OSQPMatrix_free(work->pol->Ared);
-    OSQPVectorf_free(rhs_red);
-    OSQPVectorf_free(pol_sol);
-    OSQPVectorf_view_free(pol_sol_xview);
-    OSQPVectorf_view_free(pol_sol_yview);
-
-    return exitflag;
+    goto exit;
   }
 
   // Store the polished solution (x,z,y)
   OSQPVectorf_copy(work->pol->x, pol_sol_xview);   // pol->x
   OSQPMatrix_Axpy(work->data->A, work->pol->x, work->pol->z, 1.0, 0.0);
-  get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+  exitflag = get_ypol_from_yred(work, pol_sol_yview);     // pol->y
+
+  if (exitflag) {
+    // Polishing failed
+    info->status_polish = OSQP_POLISH_FAILED;
+    goto exit;
+  }
 
   // Ensure z is in C and y is in the normal cone N_C(z)
   // by doing: y <- y + z;  z <- proj_C(y);  y <- y - z
@@ -507,15 +490,15 @@ OSQPInt polish(OSQPSolver* solver) {
     //       and polished solution
   }
 
+exit:
   // Memory clean-up
-  plsh->free(plsh);
+  if (plsh) plsh->free(plsh);
 
-  // Checks that they are not NULL are already performed earlier
   OSQPMatrix_free(work->pol->Ared);
   OSQPVectorf_free(rhs_red);
   OSQPVectorf_free(pol_sol);
   OSQPVectorf_view_free(pol_sol_xview);
   OSQPVectorf_view_free(pol_sol_yview);
 
-  return OSQP_NO_ERROR;
+  return exitflag;
 }
-- 
2.43.0


From 8fa237804f4d2988d67e0118069b4bcbbd7a854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 28/33] fix: an iteration printed for its rho update was
 printed a second time as the last one

---
 src/osqp_api.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index 41fcf26..ba94584 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -913,6 +913,7 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
     // Print summary if requested or if rho was updated
     if (can_print || (settings->verbose && work->rho_updated)) {
       print_summary(solver);
+      can_print = 1; // The info of this iteration has been printed
     }
 #endif /* ifdef OSQP_ENABLE_PRINTING */
   }        // End of ADMM for loop
-- 
2.43.0


From 76803633d0b6d64b9d2355bcb2ef9794e9a50f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 29/33] fix: the last iteration was marked with the rho update
 of the one before

---
 src/osqp_api.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/osqp_api.c b/src/osqp_api.c
index ba94584..d07392b 100644
--- a/src/osqp_api.c
+++ b/src/osqp_api.c
@@ -711,6 +711,9 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
   for (iter = 1; iter <= max_iter; iter++) {
     osqp_profiler_sec_push(OSQP_PROFILER_SEC_ADMM_ITER);
 
+    // rho has not been updated in this iteration
+    work->rho_updated = 0;
+
     // Update x_prev, z_prev (preallocated, no malloc)
     swap_vectors(&(work->x), &(work->x_prev));
     swap_vectors(&(work->z), &(work->z_prev));
@@ -879,7 +882,6 @@ osqp_profiler_sec_push(OSQP_PROFILER_SEC_OPT_SOLVE);
       }
     }
 
-    work->rho_updated = 0;
 #if OSQP_EMBEDDED_MODE != 1
     // Further processing to determine if the KKT error has decresed
     // This requires values computed in update_info, so must be done here.
-- 
2.43.0


From 4d7ac30ff8d70b4ed8d08e79b62835b6bee29459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:10 +0000
Subject: [PATCH 30/33] fix: a skipped polish was reported on the console of a
 silent solve

---
 src/polish.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polish.c b/src/polish.c
index 56082dc..298b9f6 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -351,7 +351,7 @@ OSQPInt polish(OSQPSolver* solver) {
     return exitflag;
   } else if (work->pol->n_active == 0) {
     /* No active constraints, so skip polishing */
-    c_print("Polishing not needed - no active set detected at optimal point\n");
+    if (settings->verbose) c_print("Polishing not needed - no active set detected at optimal point\n");
     info->status_polish = OSQP_POLISH_NO_ACTIVE_SET_FOUND;
 
     /* Memory clean-up */
-- 
2.43.0


From e57f6f75ffb80e1ea85af3f4a9d21c3b1bc3a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 31/33] fix: a diverged solve whose iterates overflowed was
 reported as solved

---
 src/auxil.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auxil.c b/src/auxil.c
index b6967e3..a0e7610 100644
--- a/src/auxil.c
+++ b/src/auxil.c
@@ -836,8 +836,10 @@ OSQPInt check_termination(OSQPSolver* solver,
   eps_dual_inf = settings->eps_dual_inf;
 
   // If residuals are too large, the problem is probably non convex
+  // (once the iterates have overflowed the residuals may be anything, but the objective is not a number)
   if ((info->prim_res > OSQP_INFTY) ||
-      (info->dual_res > OSQP_INFTY)){
+      (info->dual_res > OSQP_INFTY) ||
+      (info->obj_val != info->obj_val)){
     // Looks like residuals are diverging. Probably the problem is non convex!
     // Terminate and report it
     update_status(info, OSQP_NON_CVX);
-- 
2.43.0


From a4f148687fdfcdfb522ffe9ad027f25c86172cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 32/33] fix: polishing accepted a point with a large residual
 when the residual it replaces was tiny

---
 src/polish.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/polish.c b/src/polish.c
index 298b9f6..21a1a01 100644
--- a/src/polish.c
+++ b/src/polish.c
@@ -450,14 +450,14 @@ OSQPInt polish(OSQPSolver* solver) {
                                                                     // are
                                                                     // reduced
                       (work->pol->prim_res < info->prim_res &&
-                       info->dual_res < 1e-10) ||              // Dual
+                       work->pol->dual_res < 1e-10) ||         // Dual
                                                                     // residual
-                                                                    // already
+                                                                    // stays
                                                                     // tiny
                       (work->pol->dual_res < info->dual_res &&
-                       info->prim_res < 1e-10);                // Primal
+                       work->pol->prim_res < 1e-10);           // Primal
                                                                     // residual
-                                                                    // already
+                                                                    // stays
                                                                     // tiny
 
   if (polish_successful) {
-- 
2.43.0


From 090c4a3a9798a923f7a755c6bc4bda91a786b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 33/33] fix: MKL printed a warning when the settings of a used
 indirect solver were updated

---
 algebra/mkl/lin_sys/indirect/mkl-cg_interface.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
index 9ff71f7..1c64ac3 100644
--- a/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
+++ b/algebra/mkl/lin_sys/indirect/mkl-cg_interface.c
@@ -316,9 +316,6 @@ OSQPInt solve_linsys_mklcg(mklcg_solver* s,
 void update_settings_linsys_solver_mklcg(struct mklcg_solver_* s,
                                          const OSQPSettings*   settings) {
 
-  MKL_INT mkln = s->n;
-  MKL_INT rci_request = 1;
-
   // New precoditioner type requested
   if (s->precond_type != settings->cg_precond) {
     s->precond_type = settings->cg_precond;
@@ -338,10 +335,9 @@ void update_settings_linsys_solver_mklcg(struct mklcg_solver_* s,
   s->reduction_interval = settings->cg_tol_reduction;
   s->tol_fraction       = settings->cg_tol_fraction;
 
-  //returns -1 for dcg failure, 0 otherwise
-  dcg_check(&mkln, NULL, NULL, &rci_request,
-            s->iparm, s->dparm, OSQPVectorf_data(s->tmp));
-
+  // The parameters are passed to MKL, and checked by it, at the start of the
+  // next solve. They can't be checked here, since after a solve the MKL
+  // parameters describe the finished iteration.
   return;
 }
 
-- 
2.43.0

