From 7add8a850db8d1f845c0f1c4c965ae8a4ba74b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 01/50] fix: line search at a step bound no longer hides the
 answer of the method

When the method had just declared convergence (or a specific warning or error)
for a step equal to one of its bounds, the common code replaced this answer by
a STEP_EQ_STPMIN/STEP_EQ_STPMAX warning, so that bound constrained optimization
stopped with an error as soon as a line search succeeded at the largest step.
---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 89ec57a..041d1c0 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -175,12 +175,12 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   }
   ls->task = ls->ops->iterate(ls, stp_ptr, f1, g1);
   if (*stp_ptr <= ls->stpmin) {
-    if (bound < 0) {
+    if (bound < 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMIN);
     }
     *stp_ptr = ls->stpmin;
   } else if (*stp_ptr >= ls->stpmax) {
-    if (bound > 0) {
+    if (bound > 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMAX);
     }
     *stp_ptr = ls->stpmax;
-- 
2.43.0


From 680b0c8af06f1b19fc1a0f65b85ec1f0bc67d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 02/50] fix: always project trial points of bound constrained
 optimization

For steps not longer than the one to the first bound, the trial point was not
projected and rounding errors could make it violate the bounds.
---
 src/vmlmb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index a8b6367..6a2de5c 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -732,7 +732,9 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
 
   /* Compute a new trial point along the line search. */
   opk_vaxpby(x, 1, opt->x0, -opt->stp, opt->d);
-  if (bounded && opt->stp > opt->bsmin) {
+  if (bounded) {
+    /* Even though no bound should be crossed for short steps, rounding errors
+       may yield a point slightly outside the feasible set. */
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
       return failure(opt, status);
-- 
2.43.0


From e2b6588a110837efee2bac577306767aef6faa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 03/50] fix: take into account the minimal function value given
 to NLCG

The option fmin_given was ignored by the constructor.
---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 135043d..d9990df 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -521,7 +521,7 @@ opk_new_nlcg_optimizer(const opk_nlcg_options* opts,
   opt->stpmax = opts->stpmax;
   opt->fmin = opts->fmin;
   opt->flags = flags;
-  opt->fmin_given = FALSE;
+  opt->fmin_given = opts->fmin_given;
   opt->update_Hager_Zhang_orig = FALSE;
 
   /* Allocate work vectors. */
-- 
2.43.0


From 6cc4d44dd83cf45ae9473d3aeb89796864e7dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 04/50] fix: starting an optimization forgets the values of the
 non-monotone line search

The function values remembered by the non-monotone line search were kept when
an optimizer was started again, so that the first steps of a new run were
compared to the objective function of the previous run.
---
 src/lnsrch.c            | 13 ++++++++++---
 src/nlcg.c              |  1 +
 src/optimpack-private.h |  9 +++++++++
 src/vmlmb.c             |  1 +
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 041d1c0..c548816 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -119,6 +119,14 @@ opk_allocate_line_search(opk_lnsrch_operations *ops,
   return ls;
 }
 
+void
+opk__reset_lnsrch(opk_lnsrch* ls)
+{
+  if (ls != NULL && ls->ops->reset != NULL) {
+    ls->ops->reset(ls);
+  }
+}
+
 /* after an error or convergence, you must call opk_lnsrch_start */
 
 opk_lnsrch_task
@@ -358,14 +366,12 @@ nonmonotone_start(opk_lnsrch* ls)
   return success(ls, OPK_LNSRCH_SEARCH);
 }
 
-#if 0
 static void
 nonmonotone_reset(opk_lnsrch* ls)
 {
   nonmonotone_lnsrch* nmls = (nonmonotone_lnsrch*)ls;
   nmls->mp = 0;
 }
-#endif
 
 static opk_lnsrch_task
 nonmonotone_iterate(opk_lnsrch* ls,
@@ -415,7 +421,8 @@ static opk_lnsrch_operations nonmonotone_operations = {
   NULL,
   nonmonotone_start,
   nonmonotone_iterate,
-  FALSE
+  FALSE,
+  nonmonotone_reset
 };
 
 opk_lnsrch*
diff --git a/src/nlcg.c b/src/nlcg.c
index d9990df..096ff9b 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -711,6 +711,7 @@ opk_start_nlcg(opk_nlcg* opt, opk_vector* x)
   opt->iterations = 0;
   opt->evaluations = 0;
   opt->restarts = 0;
+  opk__reset_lnsrch(opt->lnsrch);
   return success(opt, OPK_TASK_COMPUTE_FG);
 }
 
diff --git a/src/optimpack-private.h b/src/optimpack-private.h
index 26aa301..91413bd 100644
--- a/src/optimpack-private.h
+++ b/src/optimpack-private.h
@@ -490,12 +490,21 @@ struct opk_lnsrch_operations_ {
      or 1st Wolfe condition only).  The initial directional derivative at the
      start of each search is always needed. */
   opk_bool use_deriv;
+
+  /* Method called by opk__reset_lnsrch() when an optimization is started to
+     forget anything about previous line searches.  Can be NULL. */
+  void (*reset)(opk_lnsrch* self);
 };
 
 extern opk_lnsrch*
 opk_allocate_line_search(opk_lnsrch_operations *ops,
                          size_t size);
 
+/* Forget about previous line searches (done when an optimization is
+   started). */
+extern void
+opk__reset_lnsrch(opk_lnsrch* ls);
+
 extern void
 opk__set_nlcg_status(opk_nlcg* opt, opk_status status);
 
diff --git a/src/vmlmb.c b/src/vmlmb.c
index 6a2de5c..6f9d746 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -375,6 +375,7 @@ opk_start_vmlmb(opk_vmlmb* opt, opk_vector* x)
   opt->restarts = 0;
   opt->updates = 0;
   opt->mp = 0;
+  opk__reset_lnsrch(opt->lnsrch);
   if (opt->box != NULL) {
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
-- 
2.43.0


From f19f369c0d0fc05bbaa58850e8943ce03ddb5596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 05/50] fix: a line search called with a null address answers
 an error task

---
 src/lnsrch.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index c548816..56ca219 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -134,7 +134,7 @@ opk_lnsrch_start(opk_lnsrch* ls, double f0, double g0,
                  double stp, double stpmin, double stpmax)
 {
   if (ls == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (stpmin < 0) {
     return failure(ls, OPK_STPMIN_LT_ZERO);
@@ -165,8 +165,11 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
 {
   int bound;
 
-  if (ls == NULL || stp_ptr == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+  if (ls == NULL) {
+    return OPK_LNSRCH_ERROR;
+  }
+  if (stp_ptr == NULL) {
+    return failure(ls, OPK_ILLEGAL_ADDRESS);
   }
   if (ls->task != OPK_LNSRCH_SEARCH) {
     return failure(ls, OPK_NOT_STARTED);
-- 
2.43.0


From 48ae18bf51a54c18e037ffe206806f9ccaa7a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 06/50] fix: line search constructors reject parameters which
 are not numbers

---
 src/lnsrch.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 56ca219..5ce5387 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -318,7 +318,8 @@ opk_lnsrch_new_backtrack(double ftol, double amin)
 {
   opk_lnsrch* ls;
 
-  if (ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
+  if (non_finite(ftol) || non_finite(amin) ||
+      ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -435,7 +436,7 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
   opk_lnsrch* ls;
   size_t size, offset;
 
-  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma1) ||
+  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma2) ||
       ftol <= 0.0 || sigma1 <= 0.0 || sigma1 >= sigma2 || sigma2 >= 1.0 ||
       m < 1) {
     errno = EINVAL;
@@ -661,15 +662,15 @@ opk_lnsrch_new_csrch(double ftol, double gtol, double xtol)
 {
   opk_lnsrch* ls;
 
-  if (ftol < 0) {
+  if (isnan(ftol) || ftol < 0) {
     errno = EINVAL;
     return NULL;
   }
-  if (gtol < 0) {
+  if (isnan(gtol) || gtol < 0) {
     errno = EINVAL;
     return NULL;
   }
-  if (xtol < 0) {
+  if (isnan(xtol) || xtol < 0) {
     errno = EINVAL;
     return NULL;
   }
-- 
2.43.0


From 7724550e89e1557144aeb7af04547bcc6ec2611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 07/50] fix: non-monotone line search no longer proposes the
 same step forever

---
 src/lnsrch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 5ce5387..fc3853c 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -410,6 +410,10 @@ nonmonotone_iterate(opk_lnsrch* ls,
   } else {
     /* Take the bisection step. */
     alpha = (alpha + ls->stpmin)/2.0;
+    if (alpha >= *stp_ptr) {
+      /* Because of rounding, the step can no longer be bisected. */
+      alpha = ls->stpmin;
+    }
   }
 
   /* Safeguard the step. */
-- 
2.43.0


From f8939c18713315740923b742152ab9c765e50d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 08/50] fix: backtracking line search refuses ftol = 1/2, for
 which it may never end

---
 src/lnsrch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index fc3853c..8ceebec 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -319,7 +319,7 @@ opk_lnsrch_new_backtrack(double ftol, double amin)
   opk_lnsrch* ls;
 
   if (non_finite(ftol) || non_finite(amin) ||
-      ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
+      ftol <= 0 || ftol >= 0.5 || amin <= 0 || amin >= 1) {
     errno = EINVAL;
     return NULL;
   }
-- 
2.43.0


From 09cc773e6efddaf3522c80fea95ec265ee768ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 09/50] fix: opk_fmin_get_final answers the end points of the
 bracket

---
 src/fmin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 8b2d504..c18c387 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -211,11 +211,11 @@ opk_fmin_get_final(opk_fmin_context* ctx,
   if (ctx->u > ctx->w) {
     MAYBE_GET(xlo, ctx->w);
     MAYBE_GET(flo, ctx->fw);
-    MAYBE_GET(xup, ctx->v);
-    MAYBE_GET(fup, ctx->fv);
+    MAYBE_GET(xup, ctx->u);
+    MAYBE_GET(fup, ctx->fu);
   } else {
-    MAYBE_GET(xlo, ctx->v);
-    MAYBE_GET(flo, ctx->fv);
+    MAYBE_GET(xlo, ctx->u);
+    MAYBE_GET(flo, ctx->fu);
     MAYBE_GET(xup, ctx->w);
     MAYBE_GET(fup, ctx->fw);
   }
-- 
2.43.0


From d57f8e5e2b3f49b6a88f2d96355f62d07b8891e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 10/50] fix: opk_fmin honours a maximum number of evaluations
 equal to zero

---
 src/fmin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index c18c387..e094ebf 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -526,7 +526,7 @@ int func(args)
   fv = f(v);
   ++nevals;
   while (fv > fw) {
-    if (maxeval > 0 && nevals >= maxeval) {
+    if (maxeval >= 0 && nevals >= maxeval) {
       status = 2; /* no bracket yet */
       goto done;
     }
@@ -548,7 +548,7 @@ int func(args)
     if (fabs(w - v) <= prec*r) {
       status = 0; /* convergence */
       goto done;
-    } else if (maxeval > 0 && nevals >= maxeval) {
+    } else if (maxeval >= 0 && nevals >= maxeval) {
       status = 1; /* bracket but no convergence */
       goto done;
     }
-- 
2.43.0


From bfe800bced06dac41ef1d8f18e1636dbe96e27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 11/50] fix: univariate minimization has no shared mutable
 variable

---
 src/fmin.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index e094ebf..d6c3846 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -58,10 +58,8 @@
 
 static const double FMIN_EPSILON = DBL_EPSILON;
 static const double FMIN_INFINITY = HUGE_VAL;
-static double FMIN_SQRT_EPSILON_ = -1.0;
 
-#define FMIN_SQRT_EPSILON ((FMIN_SQRT_EPSILON_ > 0.0) ? FMIN_SQRT_EPSILON_ \
-                         : (FMIN_SQRT_EPSILON_ = sqrt(FMIN_EPSILON)))
+#define FMIN_SQRT_EPSILON sqrt(FMIN_EPSILON)
 
 #define SWAP(a, b, temp)  temp = a; a = b; b = temp
 
-- 
2.43.0


From 65d7c89694dfa1223f43e54138fee3fcaa0be499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 12/50] fix: symmetric rank k update uses the leading dimension
 of its operand

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index 2564a31..c97f2ee 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1475,7 +1475,7 @@ OPK_SYRK(opk_blas_uplo uplo,
 #undef c
 #define c(a1,a2) c_[(a2)*ldc + a1]
 #undef a
-#define a(a1,a2) a_[(a2)*ldc + a1]
+#define a(a1,a2) a_[(a2)*lda + a1]
 
   /* Local constants and variables. */
   const real_t ZERO = OPK_REALCONST(0.0);
-- 
2.43.0


From 6c17cc38058674b5c9a7280e1368692623155c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 13/50] fix: matrix product reports the position of an invalid
 transposition of its second operand

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index c97f2ee..8cb8fb9 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1324,7 +1324,7 @@ OPK_GEMM(opk_blas_trans transa,
     notb = 0;
     nrowb = n;
   } else {
-    return 1;
+    return 2;
   }
   if (m < 0) return 3;
   if (n < 0) return 4;
-- 
2.43.0


From f318eeb668314c56260a8da893a96ad2efcb2e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 14/50] fix: Euclidean norm of tiny vectors

---
 src/linalg.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/linalg.c b/src/linalg.c
index 8cb8fb9..4bb55db 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -550,7 +550,6 @@ OPK_NRM2(opk_index n, const real_t x[],
          opk_index incx)
 {
   const real_t ZERO = OPK_REALCONST(0.0);
-  const real_t ONE = OPK_REALCONST(1.0);
   real_t a, b, s, t;
   opk_index i, m;
 
@@ -581,16 +580,15 @@ OPK_NRM2(opk_index n, const real_t x[],
 
   /* Compute sum of squares avoiding overflows. */
   s = ZERO;
-  b = ONE/a;
   if (incx == 1) {
     for (i = 0; i < n; ++i) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   } else {
     m = n*incx;
     for (i = 0; i < m; i += incx) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   }
-- 
2.43.0


From 945b94fa4fb7599876aa3d6cafc8a23c46044c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 15/50] fix: bounds hold exactly when BOBYQA scales the
 variables

---
 src/bobyqa.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8c8c257..c9807d7 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -103,13 +103,15 @@ typedef struct {
   bobyqa_objfun* objfun; /* objective function */
   void*          data;   /* client data for the objective function */
   const REAL*    scl;    /* scaling factors */
+  const REAL*    xl;     /* lower bounds of the unscaled variables */
+  const REAL*    xu;     /* upper bounds of the unscaled variables */
   REAL*          ws;     /* temporary workspace */
   REAL           sgn;    /* sign: +1 for minimize, -1 for maximize */
   INTEGER        n;      /* number of variables */
 } context;
 
 #define GET_VARIABLES(ctx, x) ((ctx)->scl == NULL ? (x) : \
-                               scale((ctx)->ws, (ctx)->n, (ctx)->scl, (x)))
+                               unscale((ctx)->ws, (ctx), (x)))
 
 #define CALL_OBJFUN(ctx, x)   ((ctx)->objfun((ctx)->n, GET_VARIABLES(ctx, x), \
                                            (ctx)->data)*(ctx)->sgn)
@@ -171,17 +173,6 @@ update(const INTEGER n, const INTEGER npt, REAL* bmat,
        REAL* zmat, const INTEGER ndim, REAL* vlag, const REAL beta,
        const REAL denom, const INTEGER knew, REAL* w);
 
-static REAL*
-scale(REAL* dst, INTEGER n, const REAL* scl, const REAL* src)
-{
-  INTEGER i;
-
-  for (i = 0; i < n; ++i) {
-    dst[i] = scl[i]*src[i];
-  }
-  return dst;
-}
-
 /* `clamp(x,lo,hi)` returns the value in the range `[lo,hi]` which is the
    closest to `x`.  It is assumed that 'lo <= hi` holds.  */
 static REAL
@@ -190,6 +181,20 @@ clamp(REAL x, REAL lo, REAL hi)
   return (x >= hi ? hi : (x <= lo ? lo : x));
 }
 
+/* Compute the unscaled variables.  Multiplying the scaled variables by the
+   scaling factors is subject to rounding errors, hence the result must be
+   clamped for the bounds to strictly hold. */
+static REAL*
+unscale(REAL* dst, const context* ctx, const REAL* src)
+{
+  INTEGER i;
+
+  for (i = 0; i < ctx->n; ++i) {
+    dst[i] = clamp(ctx->scl[i]*src[i], ctx->xl[i], ctx->xu[i]);
+  }
+  return dst;
+}
+
 static REAL
 min(REAL a, REAL b)
 {
@@ -370,6 +375,8 @@ bobyqa_status bobyqa_optimize(
   ctx.objfun = objfun;
   ctx.data = data;
   ctx.scl = NULL;
+  ctx.xl = xl;
+  ctx.xu = xu;
   ctx.ws = NULL;
   ctx.sgn = (maximize ? FLT(-1.0) : FLT(1.0));
   ctx.n = n;
@@ -479,7 +486,7 @@ bobyqa_status bobyqa_optimize(
 
   /* Scale the final variables, if scaling. */
   if (ctx.scl != NULL) {
-    scale(x, n, ctx.scl, x);
+    unscale(x, &ctx, x);
   }
 
   /* Return status. */
-- 
2.43.0


From 4ce6a326338bc3d68e37237619d49f60c59cbb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 16/50] fix: BOBYQA leaves the variables unchanged when the
 bounds are too close

---
 src/bobyqa.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index c9807d7..675c981 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -394,14 +394,12 @@ bobyqa_status bobyqa_optimize(
       }
     }
     if (scaling) {
-      /* If scaling, divide the initial variables and the bounds by the scaling
-         factors. */
+      /* If scaling, divide the bounds by the scaling factors. */
       REAL* tmpx  = w + WORK_SIZE(n, npt);
       REAL* tmpxl = tmpx + n;
       REAL* tmpxu = tmpxl + n;
       for (j = 0; j < n; ++j) {
         REAL s = one/scl[j];
-        x[j] *= s;
         tmpxl[j] = s*xl[j];
         tmpxu[j] = s*xu[j];
       }
@@ -412,6 +410,26 @@ bobyqa_status bobyqa_optimize(
     }
   }
 
+  /* Return if there is insufficient space between the bounds (this must be
+     checked before any change of the variables). */
+  for (j = 0; j < n; ++j) {
+    temp = xu[j] - xl[j];
+    if (temp < rhobeg + rhobeg) {
+      if (iprint > 0) {
+        print_error("one of the differences XU(I)-XL(I) is less than 2*RHOBEG");
+      }
+      return BOBYQA_TOO_CLOSE;
+    }
+  }
+
+  /* If scaling, divide the initial variables by the scaling factors. */
+  if (ctx.scl != NULL) {
+    for (j = 0; j < n; ++j) {
+      REAL s = one/ctx.scl[j];
+      x[j] *= s;
+    }
+  }
+
   /* Partition the working space array, so that different parts of it can
      be treated separately during the calculation of BOBYQB.  The partition
      requires the first (NPT+2)*(NPT+N)+3*N*(N+5)/2 elements of W plus the
@@ -435,20 +453,13 @@ bobyqa_status bobyqa_optimize(
   ivl = id + n;
   iw = ivl + ndim;
 
-  /* Return if there is insufficient space between the bounds.  Modify the
-     initial X if necessary in order to avoid conflicts between the bounds and
-     the construction of the first quadratic model.  The lower and upper bounds
+  /* Modify the initial X if necessary in order to avoid conflicts between the
+     bounds and the construction of the first quadratic model.  The lower and upper bounds
      on moves from the updated X are set now, in the ISL and ISU partitions of
      W, in order to provide useful and exact information about components of X
      that become within distance RHOBEG from their bounds. */
   for (j = 0; j < n; ++j) {
     temp = xu[j] - xl[j];
-    if (temp < rhobeg + rhobeg) {
-      if (iprint > 0) {
-        print_error("one of the differences XU(I)-XL(I) is less than 2*RHOBEG");
-      }
-      return BOBYQA_TOO_CLOSE;
-    }
     jsl = isl + j;
     jsu = jsl + n;
     w[jsl] = xl[j] - x[j];
-- 
2.43.0


From 2ea1f8859dfef8886299b447aedab68cf3c0a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 17/50] fix: refuse NaN trust region radii in BOBYQA, NEWUOA
 and COBYLA

---
 src/bobyqa.c | 2 +-
 src/cobyla.c | 4 ++--
 src/newuoa.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 675c981..600235f 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -367,7 +367,7 @@ bobyqa_status bobyqa_optimize(
     }
     return BOBYQA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg)) {
     return BOBYQA_BAD_RHO_RANGE;
   }
 
diff --git a/src/cobyla.c b/src/cobyla.c
index 8a88cb1..205bd2a 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -208,7 +208,7 @@ cobyla_create(INTEGER n, INTEGER m, REAL rhobeg, REAL rhoend,
   size_t size, offset1, offset2;
 
   /* Check arguments. */
-  if (n < 1 || m < 0 || rhobeg < rhoend || rhoend <= 0 || maxfun < 1) {
+  if (n < 1 || m < 0 || ! (rhoend > 0 && rhoend <= rhobeg) || maxfun < 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -424,7 +424,7 @@ cobyla_optimize(INTEGER n, INTEGER m,
   if (m < 0) {
     return COBYLA_BAD_NCONS;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg)) {
     return COBYLA_BAD_RHO_RANGE;
   }
 
diff --git a/src/newuoa.c b/src/newuoa.c
index 6d36508..528244c 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -545,7 +545,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     }
     return NULL;
   }
-  if (rhoend <= 0 || rhoend > rhobeg) {
+  if (! (rhoend > 0 && rhoend <= rhobeg)) {
     if (iprint > 0) {
       print_error("invalid RHOBEG and/or RHOEND");
     }
@@ -847,7 +847,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
     }
     return NEWUOA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (! (rhoend > zero && rhoend <= rhobeg)) {
     return NEWUOA_BAD_RHO_RANGE;
   }
 
-- 
2.43.0


From d33652c1695ae0a2ea5a4023b4992443428457de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 18/50] fix: best variables when NEWUOA runs out of evaluations
 before its first model

---
 src/newuoa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/newuoa.c b/src/newuoa.c
index 528244c..b6c1be3 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1631,6 +1631,12 @@ newuoa_optimize(INTEGER n, INTEGER npt,
   }
   status = NEWUOA_SUCCESS;
  done:
+  if (nf < npt) {
+    /* XOPT has not yet been set. */
+    LOOP(i,n) {
+      XOPT(i) = XPT(kopt,i);
+    }
+  }
   if (fopt <= f) {
     LOOP(i,n) {
       X(i) = XBASE(i) + XOPT(i);
-- 
2.43.0


From e4c4c7ca416da079697768791069a2df9bb9bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 19/50] fix: arguments checked by newuoa_create

---
 src/newuoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index b6c1be3..73226f6 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -532,7 +532,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
   size_t size, offset;
 
   /* Check arguments. */
-  if (n < 0) {
+  if (n < 2) {
     if (iprint > 0) {
       print_error("invalid number of variables N");
     }
@@ -543,6 +543,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     if (iprint > 0) {
       print_error("NPT is not in the required interval");
     }
+    errno = EINVAL;
     return NULL;
   }
   if (! (rhoend > 0 && rhoend <= rhobeg)) {
-- 
2.43.0


From a7fafa8be6cf7e3c062d029bec1ce3d93d07457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 20/50] fix: radius reported by NEWUOA and COBYLA at the start
 and after a restart

---
 src/cobyla.c | 1 +
 src/newuoa.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/cobyla.c b/src/cobyla.c
index 205bd2a..295de0d 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -266,6 +266,7 @@ cobyla_restart(cobyla_context* ctx)
     return COBYLA_BAD_ADDRESS;
   }
   ctx->nfvals = 0;
+  ctx->rho = 0;
   ctx->status = COBYLA_ITERATE;
   return ctx->status;
 }
diff --git a/src/newuoa.c b/src/newuoa.c
index 73226f6..101a7f2 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -619,6 +619,7 @@ newuoa_restart(newuoa_context* ctx)
     return NEWUOA_BAD_ADDRESS;
   }
   ctx->nevals = 0;
+  ctx->rho = 0;
   ctx->status = NEWUOA_ITERATE;
   return ctx->status;
 }
@@ -1006,6 +1007,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
   /* Begin the initialization procedure. NF becomes one more than the number of
      function values so far. The coordinates of the displacement of the next
      initial interpolation point from XBASE are set in XPT(NF,.). */
+  rho = rhobeg;
   rhosq = rhobeg*rhobeg;
   recip = one/rhosq;
   reciq = SQRT(half)/rhosq;
-- 
2.43.0


From a55be0954e86f7857ee25a93f1ea975823a858a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 21/50] fix: COBYLA does not print anything when iprint is zero

---
 src/cobyla.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 295de0d..f9ab9d7 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -528,8 +528,10 @@ cobyla_optimize(INTEGER n, INTEGER m,
  call_calcfc:
   if (nfvals >= maxfun && nfvals > 0) {
     status = COBYLA_TOO_MANY_EVALUATIONS;
-    fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
-            cobyla_reason(status));
+    if (iprint >= 1) {
+      fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
+              cobyla_reason(status));
+    }
     goto L_600;
   }
 #ifdef COBYLA_REVCOM_
-- 
2.43.0


From 499d50f5102fa0bee549db20e5dc6d55bbdce038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 22/50] fix: BOBYQA returns the best variables when a step has
 failed

---
 src/bobyqa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 600235f..a369be9 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -1058,6 +1058,7 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
   /* Pick the next value of DELTA after a trust region step. */
   if (ntrits > 0) {
     if (vquad >= zero) {
+      fsave = f;
       goto step_failed;
     }
     ratio = (f - fopt)/vquad;
-- 
2.43.0


From f62a7ed01d5fd8b8d97dd05cd65cebefc28523a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 23/50] fix: holding a NULL object does nothing, as documented

---
 src/algebra.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algebra.c b/src/algebra.c
index f46234b..8674ad9 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -61,7 +61,9 @@ opk_allocate_object(void (*finalize)(opk_object* self),
 opk_object*
 opk_hold_object(opk_object* obj)
 {
-  ++obj->references;
+  if (obj != NULL) {
+    ++obj->references;
+  }
   return obj;
 }
 
-- 
2.43.0


From d6d431e37cc6786a2315ce7b85acd8838fd6c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 24/50] fix: printing a NULL vector to the default stream

---
 src/algebra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index 8674ad9..beabede 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -231,6 +231,9 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
   opk_vspace* vspace;
   opk_index i, n;
 
+  if (file == NULL) {
+    file = stdout;
+  }
   if (vect == NULL) {
     if (name != NULL) {
       fputs(name, file);
@@ -240,9 +243,6 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
     }
     return;
   }
-  if (file == NULL) {
-    file = stdout;
-  }
   if (name != NULL) {
     fputs(name, file);
     fputs(" = {", file);
-- 
2.43.0


From ac5d78679c18e463354cc5d85e1538015ccc5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 25/50] fix: errno tells why a box set cannot be created

---
 src/algebra.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index beabede..56a36c9 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -846,10 +846,14 @@ opk_new_boxset(opk_vspace* space,
                                               freevar, steplim,
                                               sizeof(opk_boxset));
   if (box != NULL) {
-    if (set_bound(space, &box->lower, lower_type, lower) != OPK_SUCCESS ||
-        set_bound(space, &box->upper, upper_type, upper) != OPK_SUCCESS) {
+    opk_status status = set_bound(space, &box->lower, lower_type, lower);
+    if (status == OPK_SUCCESS) {
+      status = set_bound(space, &box->upper, upper_type, upper);
+    }
+    if (status != OPK_SUCCESS) {
       OPK_DROP(box);
-      errno = EINVAL;
+      errno = (status == OPK_INSUFFICIENT_MEMORY ? ENOMEM :
+               status == OPK_ILLEGAL_ADDRESS ? EFAULT : EINVAL);
       return NULL;
     }
   }
-- 
2.43.0


From c935fe344ae04870711c954ad7c5e1c397f50f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 26/50] fix: creating or wrapping a vector of a NULL space
 reports an error

---
 src/algebra.c       | 4 ++++
 src/simple_vector.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/algebra.c b/src/algebra.c
index 56a36c9..d4d9ebe 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -157,6 +157,10 @@ opk_allocate_vector(opk_vspace* vspace, size_t nbytes)
 opk_vector*
 opk_vcreate(opk_vspace* vspace)
 {
+  if (vspace == NULL) {
+    errno = EFAULT;
+    return NULL;
+  }
   return vspace->ops->create(vspace);
 }
 
diff --git a/src/simple_vector.c b/src/simple_vector.c
index d305ba7..49b0f17 100644
--- a/src/simple_vector.c
+++ b/src/simple_vector.c
@@ -932,6 +932,10 @@ WRAP_VECTOR(opk_vspace* vspace, REAL data[],
             void (*free_client_data)(void*), void* client_data)
 {
   opk_vector* v;
+  if (vspace == NULL) {
+    errno = EFAULT;
+    return NULL;
+  }
   if (vspace->ops != &operations) {
     errno = EINVAL;
     return NULL;
-- 
2.43.0


From 57018b75d4bb14ffbfa942837683c17e62de1077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 27/50] fix: no overflow of the size of a vector

---
 src/simple_vector.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simple_vector.c b/src/simple_vector.c
index 49b0f17..51e9edb 100644
--- a/src/simple_vector.c
+++ b/src/simple_vector.c
@@ -85,7 +85,13 @@ create(opk_vspace* vspace)
 {
   const size_t offset = ROUND_UP(sizeof(simple_vector), sizeof(REAL));
   size_t size = offset + vspace->size*sizeof(REAL);
-  opk_vector* v = opk_allocate_vector(vspace, size);
+  opk_vector* v;
+  if ((size_t)vspace->size > ((size_t)-1 - offset)/sizeof(REAL)) {
+    /* The size in bytes cannot be represented. */
+    errno = ENOMEM;
+    return NULL;
+  }
+  v = opk_allocate_vector(vspace, size);
   if (v != NULL) {
     simple_vector* sv = (simple_vector*)v;
     sv->data = (REAL*)(((char*)v) + offset);
-- 
2.43.0


From 0a1b3a1e73c084d732f5948254afb7a9907b020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 28/50] fix: insufficient memory in opk_new_optimizer is
 reported

---
 src/driver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver.c b/src/driver.c
index 5961e79..6fee9a9 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -342,6 +342,9 @@ opk_new_optimizer(opk_algorithm algorithm, /* optimization algorithm */
   /* Allocate optimizer and instanciate it. */
   opt = (opk_optimizer*)opk_allocate_object(finalize_optimizer,
                                               sizeof(opk_optimizer));
+  if (opt == NULL) {
+    return NULL;
+  }
   opt->single = single;
   opt->n = n;
   opt->algorithm = algorithm;
-- 
2.43.0


From b2a6df3d97741a15e59e25b0cd893f1d513b3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 29/50] fix: description of a NULL optimizer is an empty string
 like its name

---
 src/driver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/driver.c b/src/driver.c
index 6fee9a9..9464b12 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -526,7 +526,11 @@ opk_get_name(char* buf, size_t size, const opk_optimizer* opt)
 size_t
 opk_get_description(char* buf, size_t size, const opk_optimizer* opt)
 {
-  return opt->ops->get_description(buf, size, opt);
+  if (opt == NULL) {
+    return opk_copy_string(buf, size, "");
+  } else {
+    return opt->ops->get_description(buf, size, opt);
+  }
 }
 
 double
-- 
2.43.0


From e43f983ef9b8725d1d4b91e858fae637bc43dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 30/50] fix: messages of the FTOL, GTOL and XTOL status were
 permuted

---
 src/optimpack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimpack.h b/src/optimpack.h
index 7167da8..3485671 100644
--- a/src/optimpack.h
+++ b/src/optimpack.h
@@ -303,11 +303,11 @@ OPK_BEGIN_C_DECLS
   OPK_STATUS_(14, OPK_STEP_LT_STPMIN, "Step lesser than lower bound")   \
   OPK_STATUS_(15, OPK_STEP_GT_STPMAX, "Step greater than upper bound")  \
   OPK_STATUS_(16, OPK_FTOL_TEST_SATISFIED,                              \
-              "Convergence within variable tolerance")                  \
+              "Convergence within function tolerance")                  \
   OPK_STATUS_(17, OPK_GTOL_TEST_SATISFIED,                              \
-                "Convergence within function tolerance")                \
-  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
                 "Convergence within gradient tolerance")                \
+  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
+                "Convergence within variable tolerance")                \
   OPK_STATUS_(19, OPK_STEP_EQ_STPMAX, "Step blocked at upper bound")    \
   OPK_STATUS_(20, OPK_STEP_EQ_STPMIN, "Step blocked at lower bound")    \
   OPK_STATUS_(21, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS,                 \
-- 
2.43.0


From 879e4812c9b99558636dcf81acfe0809bd257425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 31/50] fix: buffer overflow in the description of NLCG methods

The longest descriptions (default options included) have 81 to 83 bytes.
---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 096ff9b..10cfe2c 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -595,7 +595,7 @@ opk_get_nlcg_name(char* buf, size_t size, const opk_nlcg* opt)
 size_t
 opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
 {
-  char str[80];
+  char str[128];
   int and;
 
   if (opt == NULL || (buf == NULL && size > 0)) {
-- 
2.43.0


From b75a3deab33780337cc7458733fb0cc015695d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 32/50] fix: the size of NLCG description is returned when the
 buffer is NULL

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 10cfe2c..0a4fb81 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -598,7 +598,7 @@ opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
   char str[128];
   int and;
 
-  if (opt == NULL || (buf == NULL && size > 0)) {
+  if (opt == NULL) {
     return 0;
   }
   switch (opt->flags & 0xff) {
-- 
2.43.0


From 1f3843cab684abff6ede95786ee1d40c09927960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 33/50] fix: errno is set when re-wrapping a vector fails, as
 documented

---
 src/simple_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simple_vector.c b/src/simple_vector.c
index 51e9edb..b191ae5 100644
--- a/src/simple_vector.c
+++ b/src/simple_vector.c
@@ -1013,12 +1013,15 @@ REWRAP_VECTOR(opk_vector* v, REAL new_data[],
 
   /* Check arguments. */
   if (v == NULL) {
+    errno = EFAULT;
     return OPK_ILLEGAL_ADDRESS;
   }
   if (v->owner->ops != &operations) {
+    errno = EINVAL;
     return OPK_BAD_SPACE;
   }
   if (new_data == NULL) {
+    errno = EFAULT;
     return OPK_ILLEGAL_ADDRESS;
   }
 
-- 
2.43.0


From c1f8f5f470e29dfecec28e08219f228e8139e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 34/50] fix: opk_check_nlcg_options refuses an unknown method
 like the constructor

---
 src/nlcg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nlcg.c b/src/nlcg.c
index 0a4fb81..f1b70a4 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -702,6 +702,11 @@ opk_check_nlcg_options(const opk_nlcg_options* opts)
       (opts->fmin_given && non_finite(opts->fmin))) {
     return OPK_INVALID_ARGUMENT;
   }
+  if (opts->flags != 0 &&
+      ((opts->flags & 0xff) < OPK_NLCG_FLETCHER_REEVES ||
+       (opts->flags & 0xff) > OPK_NLCG_HAGER_ZHANG)) {
+    return OPK_INVALID_ARGUMENT;
+  }
   return OPK_SUCCESS;
 }
 
-- 
2.43.0


From 095aa045a00a833171d7fea5f308a0ab390d594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 35/50] fix: no overflow of the size of a non-monotone line
 search

---
 src/lnsrch.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 8ceebec..97f1ccc 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -447,6 +447,11 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
     return NULL;
   }
   offset = ROUND_UP(sizeof(nonmonotone_lnsrch), sizeof(double));
+  if ((size_t)m > ((size_t)-1 - offset)/sizeof(double)) {
+    /* The size in bytes cannot be represented. */
+    errno = ENOMEM;
+    return NULL;
+  }
   size = offset + m*sizeof(double);
   ls = opk_allocate_line_search(&nonmonotone_operations, size);
   if (ls != NULL) {
-- 
2.43.0


From 7fb8d9ef5265fca1b87c008c92f369608111bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 36/50] fix: retrieve constant OPK_NLCG_DEFAULT by name

OPK_NLCG_POLAK_RIBIERE_POLYAK was listed twice.
---
 src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 468ddea..8e3a2c9 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -157,7 +157,7 @@ opk_get_integer_constant(const char* name, long* ptr)
     TEST(OPK_NLCG_HAGER_ZHANG);
     TEST(OPK_NLCG_POWELL);
     TEST(OPK_NLCG_SHANNO_PHUA);
-    TEST(OPK_NLCG_POLAK_RIBIERE_POLYAK);
+    TEST(OPK_NLCG_DEFAULT);
 
     TEST(OPK_BOUND_NONE);
     TEST(OPK_BOUND_SCALAR_FLOAT);
-- 
2.43.0


From c83a4e32573c4aa37554d1a2eb47a6a1f984e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 37/50] fix: opk_gqtpar works on its copy of the matrix

The pointer to the copy was moved beyond its end by the loop copying the
coefficients: memory not belonging to the array was read and written.
---
 yorick/opky.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yorick/opky.c b/yorick/opky.c
index 7191433..9615248 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -943,6 +943,7 @@ void Y_opk_gqtpar(int argc)
     if (type == Y_DOUBLE) {
       double* dst = ypush_d(dims);
       const double* src = (const double*)A;
+      A = (void*)dst;
       if (A_full) {
         for (j2 = 0; j2 < n; ++j2, dst += n, src += n) {
           for (j1 = 0; j1 <= j2; ++j1) {
@@ -956,10 +957,10 @@ void Y_opk_gqtpar(int argc)
           }
         }
       }
-      A = (void*)dst;
     } else {
       float* dst = ypush_f(dims);
       const float* src = (const float*)A;
+      A = (void*)dst;
       if (A_full) {
         for (j2 = 0; j2 < n; ++j2, dst += n, src += n) {
           for (j1 = 0; j1 <= j2; ++j1) {
@@ -973,7 +974,6 @@ void Y_opk_gqtpar(int argc)
           }
         }
       }
-      A = (void*)dst;
     }
     yarg_swap(A_iarg + 1, 0);
     yarg_drop(1);
-- 
2.43.0


From 50264d70042eab9318ef55ec6b44d1a3da350e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 38/50] fix: opk_gqtpar leaves the caller's matrix unchanged

A matrix which is not a simple variable (member of an object, pointee) is not
necessarily a temporary array.
---
 yorick/opky.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yorick/opky.c b/yorick/opky.c
index 9615248..ae917a5 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -898,7 +898,7 @@ void Y_opk_gqtpar(int argc)
     }
     A_temp = TRUE;
   } else {
-    A_temp = (yget_ref(A_iarg) < 0L);
+    A_temp = yarg_scratch(A_iarg);
   }
   if (b_type != type && ! IS_REAL(b_type)) {
     y_error("bad data type for vector B");
-- 
2.43.0


From 472ed9a36f79af11f47df664aeedc8d6d8c97f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 39/50] fix: keyword FMIN of opk_nlcg is taken into account

---
 yorick/opky.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yorick/opky.c b/yorick/opky.c
index ae917a5..cb6c4b1 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -615,7 +615,10 @@ void Y_opk_nlcg(int argc)
       } else if (index == stpmax_index) {
         options.stpmax = get_optional_double(iarg, options.stpmax);
       } else if (index == fmin_index) {
-        options.fmin = get_optional_double(iarg, options.fmin);
+        if (! yarg_nil(iarg)) {
+          options.fmin = get_optional_double(iarg, options.fmin);
+          options.fmin_given = TRUE;
+        }
       } else if (index == single_index) {
         single = yarg_true(iarg);
       } else if (index == flags_index) {
-- 
2.43.0


From da9f9388004c3d0f3e57584735bfe5ae49477c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 40/50] fix: optimizers of the plug-in update a scalar variable

The array given by the interpreter for a scalar variable is a copy, the
variables were never changed.
---
 yorick/opky.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/yorick/opky.c b/yorick/opky.c
index cb6c4b1..6873feb 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -396,6 +396,15 @@ get_array(int iarg, const yopt_instance_t* opt)
   return arr;
 }
 
+/* The array of a scalar variable is a copy on the stack, store it back. */
+static void
+update_array(int iarg, long index)
+{
+  if (index >= 0L && yarg_scratch(iarg)) {
+    yput_global(index, iarg);
+  }
+}
+
 static void
 get_bound(int iarg, yopt_instance_t* opt, value_t* val,
           opk_bound_type* type_ptr, void** addr_ptr)
@@ -764,12 +773,15 @@ void Y_opk_start(int argc)
 {
   yopt_instance_t* opt;
   void* x;
+  long x_index;
   opk_task task;
 
   if (argc != 2) y_error("expecting exactly 2 arguments");
   opt = get_opt_instance(1);
+  x_index = yget_ref(0);
   x = get_array(0, opt);
   task = opk_start(opt->optimizer, x);
+  update_array(0, x_index);
   ypush_int(task);
 }
 
@@ -779,14 +791,17 @@ void Y_opk_iterate(int argc)
   double f;
   void* x;
   void* g;
+  long x_index;
   opk_task task;
 
   if (argc != 4) y_error("expecting exactly 4 arguments");
   opt = get_opt_instance(3);
+  x_index = yget_ref(2);
   x = get_array(2, opt);
   f = ygets_d(1);
   g = get_array(0, opt);
   task = opk_iterate(opt->optimizer, x, f, g);
+  update_array(2, x_index);
   ypush_int(task);
 }
 
-- 
2.43.0


From 6127340eb10e8e0a28422f043139059477497039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 41/50] fix: opk_minimize returns the best solution when the
 limit of evaluations is reached

The returned function value and gradient were not those at the returned
variables, which had not been evaluated.
---
 yorick/opky.i | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yorick/opky.i b/yorick/opky.i
index 86cff44..f0ef407 100644
--- a/yorick/opky.i
+++ b/yorick/opky.i
@@ -334,6 +334,7 @@ func opk_minimize(fg, x0, &fx, &gx,
   }
   check_eval = ! is_void(maxeval);
   check_iter = ! is_void(maxiter);
+  local best_x, best_fx, best_gx;
   if (single) {
     type = float;
     single = TRUE;
@@ -371,12 +372,22 @@ func opk_minimize(fg, x0, &fx, &gx,
   for (;;) {
     if (task == OPK_TASK_COMPUTE_FG) {
       if (check_eval && opt.evaluations >= maxeval) {
-        /* FIXME: should restore best solution so far. */
+        if (! is_void(best_fx)) {
+          /* Restore best solution so far. */
+          x = best_x;
+          fx = best_fx;
+          gx = best_gx;
+        }
         task = OPK_TASK_WARNING;
         reason = "too many evaluations";
         stage = 2;
       } else {
         fx = fg(x, gx);
+        if (check_eval && (is_void(best_fx) || fx < best_fx)) {
+          best_fx = fx;
+          best_x = x;
+          best_gx = gx;
+        }
         stage = 0;
       }
     } else if (task == OPK_TASK_NEW_X) {
-- 
2.43.0


From 67fe3b4dae2737d82ebfcb56ad3211d02e30e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 42/50] fix: the plug-in refuses dimensions whose product
 overflows

---
 yorick/opky.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yorick/opky.c b/yorick/opky.c
index 6873feb..a91cc59 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -34,6 +34,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 
 #include <pstdlib.h>
@@ -369,6 +370,7 @@ get_dims(int iarg, long dims[])
       for (i = 1; i <= ndims; ++i) {
         dim = vals[i];
         if (dim < 1) y_error("invalid dimension length");
+        if (number > LONG_MAX/dim) y_error("too many elements");
         dims[i] = dim;
         number *= dim;
       }
-- 
2.43.0


From fa136d50a96cc16e98e3291e1c87c2d8c7963217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 43/50] fix: cobyla_create refuses sizes which overflow

---
 src/cobyla.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index f9ab9d7..b9af73f 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -32,6 +32,7 @@
 #include <errno.h>
 #include <math.h>
 #include <stdio.h>
+#include <stdint.h>
 
 #include "cobyla.h"
 
@@ -213,7 +214,11 @@ cobyla_create(INTEGER n, INTEGER m, REAL rhobeg, REAL rhoend,
     return NULL;
   }
 
-  /* Allocate memory. */
+  /* Allocate memory (avoiding integer overflows). */
+  if (n*(3.0*n + 2.0*m + 11.0) + 5.0*m > (double)PTRDIFF_MAX/(2*sizeof(REAL))) {
+    errno = ENOMEM;
+    return NULL;
+  }
   size = sizeof(cobyla_context);
   offset1 = ROUND_UP(size, sizeof(INTEGER));
   size = offset1 + (m + 1)*sizeof(INTEGER);
-- 
2.43.0


From d1cf03951e68ae5881972fe34b443e62be85aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 44/50] fix: newuoa_create refuses sizes which overflow

---
 src/newuoa.c     | 10 ++++++++--
 yorick/ynewuoa.c |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index 101a7f2..709f8c2 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -31,6 +31,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <math.h>
+#include <stdint.h>
 
 #include "newuoa.h"
 
@@ -539,7 +540,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     errno = EINVAL;
     return NULL;
   }
-  if (npt < n + 2 || npt > (n + 2)*(n + 1)/2) {
+  if (npt < n || npt - n < 2 || npt > 0.5*(n + 2.0)*(n + 1.0)) {
     if (iprint > 0) {
       print_error("NPT is not in the required interval");
     }
@@ -561,7 +562,12 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     return NULL;
   }
 
-  /* Allocate memory. */
+  /* Allocate memory (avoiding integer overflows). */
+  if ((npt + 13.0)*((double)npt + n) + 3.0*n*(n + 3.0) >
+      (double)PTRDIFF_MAX/(2*sizeof(REAL))) {
+    errno = ENOMEM;
+    return NULL;
+  }
   size = sizeof(newuoa_context);
   offset = ROUND_UP(size, sizeof(REAL));
   size = offset + ((npt+13)*(npt+n)+3*n*(n+3)/2)*sizeof(REAL);
diff --git a/yorick/ynewuoa.c b/yorick/ynewuoa.c
index 8e1029a..0254f44 100644
--- a/yorick/ynewuoa.c
+++ b/yorick/ynewuoa.c
@@ -133,7 +133,7 @@ void Y_newuoa_create(int argc)
   rhoend = ygets_d(2);
   iprint = ygets_l(1);
   maxfun = ygets_l(0);
-  if (npt < n + 2 || npt > (n + 2)*(n + 1)/2) {
+  if (npt < n || npt - n < 2 || npt > 0.5*(n + 2.0)*(n + 1.0)) {
     y_error("NPT is not in the required interval");
   } else if (rhoend <= 0.0 || rhoend > rhobeg) {
     y_error("invalid RHOBEG and/or RHOEND");
-- 
2.43.0


From 69a2617d42f64d4feff99bef11bb3f0f9a321e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 45/50] fix: opk_gqtpar does not overwrite the matrix of a
 variable

A matrix can be used as workspace only if it is neither a variable nor owned
by another object.
---
 yorick/opky.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yorick/opky.c b/yorick/opky.c
index a91cc59..5893926 100644
--- a/yorick/opky.c
+++ b/yorick/opky.c
@@ -918,7 +918,7 @@ void Y_opk_gqtpar(int argc)
     }
     A_temp = TRUE;
   } else {
-    A_temp = yarg_scratch(A_iarg);
+    A_temp = (yget_ref(A_iarg) < 0L && yarg_scratch(A_iarg));
   }
   if (b_type != type && ! IS_REAL(b_type)) {
     y_error("bad data type for vector B");
-- 
2.43.0


From ee0e6ceee874bbf2cf0d0d7b0fca301b3191ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 46/50] fix: do not call the scale method with a unit factor in
 linear combinations

---
 src/algebra.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index d4d9ebe..76e9d79 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -404,11 +404,11 @@ opk_vaxpby(opk_vector* dst,
       if (beta == 0.0) {
         vspace->ops->fill(vspace, dst, 0.0);
       } else {
-        vspace->ops->scale(vspace, dst, beta, y);
+        opk_vscale(dst, beta, y);
       }
     } else {
       if (beta == 0.0) {
-        vspace->ops->scale(vspace, dst, alpha, x);
+        opk_vscale(dst, alpha, x);
       } else {
         vspace->ops->axpby(vspace, dst, alpha, x, beta, y);
       }
@@ -432,11 +432,11 @@ opk_vaxpbypcz(opk_vector* dst,
         if (gamma == 0.0) {
           vspace->ops->fill(vspace, dst, 0.0);
         } else {
-          vspace->ops->scale(vspace, dst, gamma, z);
+          opk_vscale(dst, gamma, z);
         }
       } else {
         if (gamma == 0.0) {
-          vspace->ops->scale(vspace, dst, beta, y);
+          opk_vscale(dst, beta, y);
         } else {
           vspace->ops->axpby(vspace, dst, beta, y, gamma, z);
         }
@@ -444,7 +444,7 @@ opk_vaxpbypcz(opk_vector* dst,
     } else {
       if (beta == 0.0) {
         if (gamma == 0.0) {
-          vspace->ops->scale(vspace, dst, alpha, x);
+          opk_vscale(dst, alpha, x);
         } else {
           vspace->ops->axpby(vspace, dst, alpha, x, gamma, z);
         }
-- 
2.43.0


From af7ee3b6a393f22896e2bb5fd412ad61dda7175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 47/50] fix: check the status of the step limits before using
 them

---
 src/vmlmb.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index 6f9d746..0e69ebb 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -684,13 +684,13 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       double bsmin1, bsmin2, bsmax;
       status = opk_get_step_limits(&bsmin1, &bsmin2, &bsmax,
                                    x, opt->box, opt->d, OPK_ASCENT);
+      if (status != OPK_SUCCESS) {
+        return failure(opt, status);
+      }
       if (bsmin1 < 0) {
         fprintf(stderr, "FIXME: SMIN1 =%g, SMIN2 =%g, SMAX =%g\n",
                 bsmin1, bsmin2, bsmax);
       }
-      if (status != OPK_SUCCESS) {
-        return failure(opt, status);
-      }
       if (bsmax <= 0) {
         return failure(opt, OPK_WOULD_BLOCK);
       }
-- 
2.43.0


From 0557e53660616aa58a9c4c7d01a92e48d431a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:46 +0000
Subject: [PATCH 48/50] fix: COBYLA prints the variables of the caller when the
 radius is reduced with scaling

---
 src/cobyla.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index b9af73f..d042832 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -968,8 +968,12 @@ cobyla_optimize(INTEGER n, INTEGER m,
       fprintf(stdout, "\n   Reduction in RHO to%13.6E  and PARMU =%13.6E\n",
               (double)rho, (double)parmu);
       if (iprint == 2) {
-        PRINT(stdout, n, nfvals, DATMAT(mp,np), DATMAT(mpp,np),
-                     &SIM(1,np));
+#ifdef COBYLA_REVCOM_
+        xs = &SIM(1,np);
+#else
+        xs = (scl == NULL ? &SIM(1,np) : scale(w, n, scl, &SIM(1,np)));
+#endif
+        PRINT(stdout, n, nfvals, DATMAT(mp,np), DATMAT(mpp,np), xs);
       }
     }
     goto L_140;
-- 
2.43.0


From 20f71fcb7f7d28f58f9f4ace575525ca1f301b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:21 +0000
Subject: [PATCH 49/50] fix: no evaluations are reported by the Fortran
 subroutine COBYLA for invalid arguments

---
 src/cobyla.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index d042832..0c23b12 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -162,9 +162,11 @@ FORTRAN_NAME(cobyla,COBYLA)(INTEGER* n, INTEGER* m, REAL x[], REAL* rhobeg,
                             REAL* rhoend, INTEGER* iprint, INTEGER* maxfun,
                             REAL w[], INTEGER iact[])
 {
-  (void)cobyla(*n, *m, calcfc_wrapper, NULL, x, *rhobeg, *rhoend,
-               *iprint, *maxfun, w, iact);
-  *maxfun = iact[0];
+  cobyla_status status = cobyla(*n, *m, calcfc_wrapper, NULL, x, *rhobeg,
+                                *rhoend, *iprint, *maxfun, w, iact);
+  /* The number of evaluations is not stored in IACT for invalid arguments. */
+  *maxfun = (status == COBYLA_BAD_NVARS || status == COBYLA_BAD_NCONS ||
+             status == COBYLA_BAD_RHO_RANGE ? 0 : iact[0]);
   return 0;
 }
 
-- 
2.43.0


From cf05141065d6d05bb431b54b9cb3fcc899712564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:13 +0000
Subject: [PATCH 50/50] fix: NEWUOA links with any of the Fortran naming
 conventions

---
 src/newuoa.c | 2 +-
 src/newuoa.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index 709f8c2..8e66435 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -163,7 +163,7 @@ newuoa_test(void)
     newuoa(n, npt, objfun_test, NULL, x, rhobeg, rhoend, iprint, maxfun, w);
 #else
    /* Test the FORTRAN wrapper. */
-   newuoa_(&n, &npt, x, &rhobeg, &rhoend, &iprint, &maxfun, w);
+   FORTRAN_NAME(newuoa,NEWUOA)(&n, &npt, x, &rhobeg, &rhoend, &iprint, &maxfun, w);
 #endif
   }
 } /* newuoa_test */
diff --git a/src/newuoa.h b/src/newuoa.h
index b283f44..601f112 100644
--- a/src/newuoa.h
+++ b/src/newuoa.h
@@ -316,7 +316,7 @@ extern double newuoa_calfun_wrapper(const opk_index n, const double* x, void* da
 
 /* Subroutine that must be defined by the application to use the FORTRAN
    wrapper to NEWUOA. */
-extern int calfun_(const opk_index* n, double *x, double *f);
+extern int FORTRAN_NAME(calfun,CALFUN)(const opk_index* n, double *x, double *f);
 
 #endif /* FORTRAN_LINKAGE */
 
-- 
2.43.0

