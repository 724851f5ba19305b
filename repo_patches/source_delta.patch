From f8332d04d55d0ba2888352dbd329ab2ce96e811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 01/38] fix: opk_hold_object() must accept a NULL object as
 documented

---
 src/algebra.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algebra.c b/src/algebra.c
index f46234b..8674ad9 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -61,7 +61,9 @@ opk_allocate_object(void (*finalize)(opk_object* self),
 opk_object*
 opk_hold_object(opk_object* obj)
 {
-  ++obj->references;
+  if (obj != NULL) {
+    ++obj->references;
+  }
   return obj;
 }
 
-- 
2.43.0


From 3774490210ec0ee6007ce0fd6cfa1da6a9771458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 02/38] fix: opk_new_optimizer() must check the allocation of
 the optimizer

---
 src/driver.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver.c b/src/driver.c
index 5961e79..6fee9a9 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -342,6 +342,9 @@ opk_new_optimizer(opk_algorithm algorithm, /* optimization algorithm */
   /* Allocate optimizer and instanciate it. */
   opt = (opk_optimizer*)opk_allocate_object(finalize_optimizer,
                                               sizeof(opk_optimizer));
+  if (opt == NULL) {
+    return NULL;
+  }
   opt->single = single;
   opt->n = n;
   opt->algorithm = algorithm;
-- 
2.43.0


From e202d779c58f5e24f6930770c2b46c40d426d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 03/38] fix: opk_new_boxset() must report ENOMEM when a bound
 cannot be allocated

---
 src/algebra.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index 8674ad9..0b58fba 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -846,10 +846,13 @@ opk_new_boxset(opk_vspace* space,
                                               freevar, steplim,
                                               sizeof(opk_boxset));
   if (box != NULL) {
-    if (set_bound(space, &box->lower, lower_type, lower) != OPK_SUCCESS ||
-        set_bound(space, &box->upper, upper_type, upper) != OPK_SUCCESS) {
+    opk_status status = set_bound(space, &box->lower, lower_type, lower);
+    if (status == OPK_SUCCESS) {
+      status = set_bound(space, &box->upper, upper_type, upper);
+    }
+    if (status != OPK_SUCCESS) {
       OPK_DROP(box);
-      errno = EINVAL;
+      errno = (status == OPK_INSUFFICIENT_MEMORY ? ENOMEM : EINVAL);
       return NULL;
     }
   }
-- 
2.43.0


From b06cc34850766ecabfb3b26e2fc77960df84ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 04/38] fix: the description of a nonlinear conjugate gradient
 method could overrun its buffer

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 135043d..febc695 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -595,7 +595,7 @@ opk_get_nlcg_name(char* buf, size_t size, const opk_nlcg* opt)
 size_t
 opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
 {
-  char str[80];
+  char str[128];
   int and;
 
   if (opt == NULL || (buf == NULL && size > 0)) {
-- 
2.43.0


From a3c8ebc0490302a7b6480c88eb141b117b267002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 05/38] fix: opk_get_nlcg_description() must yield the size
 needed for a NULL buffer

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index febc695..508b55d 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -598,7 +598,7 @@ opk_get_nlcg_description(char* buf, size_t size, const opk_nlcg* opt)
   char str[128];
   int and;
 
-  if (opt == NULL || (buf == NULL && size > 0)) {
+  if (opt == NULL) {
     return 0;
   }
   switch (opt->flags & 0xff) {
-- 
2.43.0


From cdf8fea9dbbaddec29b77f0b1d8b28640ef2562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 06/38] fix: opk_get_description() must accept a NULL optimizer
 like opk_get_name()

---
 src/driver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/driver.c b/src/driver.c
index 6fee9a9..9464b12 100644
--- a/src/driver.c
+++ b/src/driver.c
@@ -526,7 +526,11 @@ opk_get_name(char* buf, size_t size, const opk_optimizer* opt)
 size_t
 opk_get_description(char* buf, size_t size, const opk_optimizer* opt)
 {
-  return opt->ops->get_description(buf, size, opt);
+  if (opt == NULL) {
+    return opk_copy_string(buf, size, "");
+  } else {
+    return opt->ops->get_description(buf, size, opt);
+  }
 }
 
 double
-- 
2.43.0


From 8816897e1d90240de08227e0bb586ca6d31c0f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 07/38] fix: the textual descriptions of the tolerance tests
 were permuted

---
 src/optimpack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimpack.h b/src/optimpack.h
index 7167da8..3485671 100644
--- a/src/optimpack.h
+++ b/src/optimpack.h
@@ -303,11 +303,11 @@ OPK_BEGIN_C_DECLS
   OPK_STATUS_(14, OPK_STEP_LT_STPMIN, "Step lesser than lower bound")   \
   OPK_STATUS_(15, OPK_STEP_GT_STPMAX, "Step greater than upper bound")  \
   OPK_STATUS_(16, OPK_FTOL_TEST_SATISFIED,                              \
-              "Convergence within variable tolerance")                  \
+              "Convergence within function tolerance")                  \
   OPK_STATUS_(17, OPK_GTOL_TEST_SATISFIED,                              \
-                "Convergence within function tolerance")                \
-  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
                 "Convergence within gradient tolerance")                \
+  OPK_STATUS_(18, OPK_XTOL_TEST_SATISFIED,                              \
+                "Convergence within variable tolerance")                \
   OPK_STATUS_(19, OPK_STEP_EQ_STPMAX, "Step blocked at upper bound")    \
   OPK_STATUS_(20, OPK_STEP_EQ_STPMIN, "Step blocked at lower bound")    \
   OPK_STATUS_(21, OPK_ROUNDING_ERRORS_PREVENT_PROGRESS,                 \
-- 
2.43.0


From a08db2014a01588b27f1d85b48dcf4a8a2304ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:27 +0000
Subject: [PATCH 08/38] fix: opk_vprint() must use stdout for a NULL file
 whatever the vector

---
 src/algebra.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra.c b/src/algebra.c
index 0b58fba..cd870e5 100644
--- a/src/algebra.c
+++ b/src/algebra.c
@@ -231,6 +231,9 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
   opk_vspace* vspace;
   opk_index i, n;
 
+  if (file == NULL) {
+    file = stdout;
+  }
   if (vect == NULL) {
     if (name != NULL) {
       fputs(name, file);
@@ -240,9 +243,6 @@ opk_vprint(FILE* file, const char* name, const opk_vector* vect,
     }
     return;
   }
-  if (file == NULL) {
-    file = stdout;
-  }
   if (name != NULL) {
     fputs(name, file);
     fputs(" = {", file);
-- 
2.43.0


From 967c17ede036aaa98c4e12bf7b8621c1ce966391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 09/38] fix: line search functions must return a task (negative
 for errors), not a status, for NULL arguments

---
 src/lnsrch.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 89ec57a..e64ab44 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -126,7 +126,7 @@ opk_lnsrch_start(opk_lnsrch* ls, double f0, double g0,
                  double stp, double stpmin, double stpmax)
 {
   if (ls == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+    return OPK_LNSRCH_ERROR;
   }
   if (stpmin < 0) {
     return failure(ls, OPK_STPMIN_LT_ZERO);
@@ -157,8 +157,11 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
 {
   int bound;
 
-  if (ls == NULL || stp_ptr == NULL) {
-    return OPK_ILLEGAL_ADDRESS;
+  if (ls == NULL) {
+    return OPK_LNSRCH_ERROR;
+  }
+  if (stp_ptr == NULL) {
+    return failure(ls, OPK_ILLEGAL_ADDRESS);
   }
   if (ls->task != OPK_LNSRCH_SEARCH) {
     return failure(ls, OPK_NOT_STARTED);
-- 
2.43.0


From 1edd6957ffe34f6922eff2f4cf53f2aa7ba94f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 10/38] fix: a line search which has converged at a bound of
 the step must not be reported as blocked

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index e64ab44..7e0598f 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -178,12 +178,12 @@ opk_lnsrch_iterate(opk_lnsrch* ls, double* stp_ptr,
   }
   ls->task = ls->ops->iterate(ls, stp_ptr, f1, g1);
   if (*stp_ptr <= ls->stpmin) {
-    if (bound < 0) {
+    if (bound < 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMIN);
     }
     *stp_ptr = ls->stpmin;
   } else if (*stp_ptr >= ls->stpmax) {
-    if (bound > 0) {
+    if (bound > 0 && ls->task == OPK_LNSRCH_SEARCH) {
       warning(ls, OPK_STEP_EQ_STPMAX);
     }
     *stp_ptr = ls->stpmax;
-- 
2.43.0


From 083f7224b34f2c2dee7e207ddda19937f41db5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 11/38] fix: line search constructors must refuse parameters
 which are not a number

---
 src/lnsrch.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 7e0598f..6e107e5 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -310,7 +310,8 @@ opk_lnsrch_new_backtrack(double ftol, double amin)
 {
   opk_lnsrch* ls;
 
-  if (ftol <= 0 || ftol > 0.5 || amin <= 0 || amin >= 1) {
+  if (isnan(ftol) || ftol <= 0 || ftol > 0.5 ||
+      isnan(amin) || amin <= 0 || amin >= 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -428,7 +429,7 @@ opk_lnsrch_new_nonmonotone(opk_index m, double ftol,
   opk_lnsrch* ls;
   size_t size, offset;
 
-  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma1) ||
+  if (non_finite(ftol) || non_finite(sigma1) || non_finite(sigma2) ||
       ftol <= 0.0 || sigma1 <= 0.0 || sigma1 >= sigma2 || sigma2 >= 1.0 ||
       m < 1) {
     errno = EINVAL;
@@ -654,15 +655,15 @@ opk_lnsrch_new_csrch(double ftol, double gtol, double xtol)
 {
   opk_lnsrch* ls;
 
-  if (ftol < 0) {
+  if (isnan(ftol) || ftol < 0) {
     errno = EINVAL;
     return NULL;
   }
-  if (gtol < 0) {
+  if (isnan(gtol) || gtol < 0) {
     errno = EINVAL;
     return NULL;
   }
-  if (xtol < 0) {
+  if (isnan(xtol) || xtol < 0) {
     errno = EINVAL;
     return NULL;
   }
-- 
2.43.0


From ab3c488ad926ab74de329702b5d0c592a7de0862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 12/38] fix: re-wrapping a vector must set errno in case of
 failure as documented

---
 src/simple_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simple_vector.c b/src/simple_vector.c
index d305ba7..653e653 100644
--- a/src/simple_vector.c
+++ b/src/simple_vector.c
@@ -1003,12 +1003,15 @@ REWRAP_VECTOR(opk_vector* v, REAL new_data[],
 
   /* Check arguments. */
   if (v == NULL) {
+    errno = EFAULT;
     return OPK_ILLEGAL_ADDRESS;
   }
   if (v->owner->ops != &operations) {
+    errno = EINVAL;
     return OPK_BAD_SPACE;
   }
   if (new_data == NULL) {
+    errno = EFAULT;
     return OPK_ILLEGAL_ADDRESS;
   }
 
-- 
2.43.0


From 7b3bbc6fd8560767fbc4cf3937abedc072b31a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 13/38] fix: backtracking must bisect when the function value
 is not a number

---
 src/lnsrch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 6e107e5..1cc793a 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -279,8 +279,8 @@ backtrack_iterate(opk_lnsrch* ls,
   } else {
     double q = -stp*ls->ginit;
     double r = (f - (ls->finit - q))*2;
-    if (r <= 0) {
-      /* Bisection step. */
+    if (! (r > 0)) {
+      /* Bisection step (also if the function value is not a number). */
       stp *= 0.5;
     } else if (q <= bls->amin*r) {
       /* Small step. */
-- 
2.43.0


From 67472419a282d6711ae0eeaf518c80f73f9a0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 14/38] fix: the nonlinear conjugate gradient optimizer must
 use the given minimal function value

---
 src/nlcg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlcg.c b/src/nlcg.c
index 508b55d..e16610d 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -521,7 +521,7 @@ opk_new_nlcg_optimizer(const opk_nlcg_options* opts,
   opt->stpmax = opts->stpmax;
   opt->fmin = opts->fmin;
   opt->flags = flags;
-  opt->fmin_given = FALSE;
+  opt->fmin_given = opts->fmin_given;
   opt->update_Hager_Zhang_orig = FALSE;
 
   /* Allocate work vectors. */
-- 
2.43.0


From 9d02e1049916e2e9725b1faa1c8ad997d5f58db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 15/38] fix: rounding errors must not yield infeasible
 variables in VMLMB

---
 src/vmlmb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index a8b6367..dd4e7f9 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -732,7 +732,9 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
 
   /* Compute a new trial point along the line search. */
   opk_vaxpby(x, 1, opt->x0, -opt->stp, opt->d);
-  if (bounded && opt->stp > opt->bsmin) {
+  if (bounded) {
+    /* The variables are projected even though no bounds should be overcome,
+       because of rounding errors. */
     opk_status status = opk_project_variables(x, x, opt->box);
     if (status != OPK_SUCCESS) {
       return failure(opt, status);
-- 
2.43.0


From 7fe8b56c18f135773db5f8a6f19470b365f1bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 16/38] fix: VMLMB must accept the step to the last bound if it
 yields a sufficient decrease

---
 src/vmlmb.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index dd4e7f9..e941932 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -129,6 +129,7 @@ struct opk_vmlmb_ {
   double stpmin;           /**< Relative minimum step length. */
   double stpmax;           /**< Relative maximum step length. */
   double bsmin;            /**< Step size to the first encountered bound. */
+  double bsmax;            /**< Step size to the last encountered bound. */
   opk_vspace* vspace;    /**< Variable space. */
   opk_lnsrch* lnsrch;    /**< Line search method. */
   opk_vector* x0;        /**< Variables at the start of the line search. */
@@ -566,7 +567,9 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
            whether this error can be safely ignored. */
         status = opk_lnsrch_get_status(opt->lnsrch);
         if (lnsrch_task != OPK_LNSRCH_WARNING ||
-            status != OPK_ROUNDING_ERRORS_PREVENT_PROGRESS) {
+            (status != OPK_ROUNDING_ERRORS_PREVENT_PROGRESS &&
+             ! (bounded && status == OPK_STEP_EQ_STPMAX &&
+                opt->stp >= opt->bsmax))) {
           return failure(opt, status);
         }
       }
@@ -700,6 +703,7 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
         stpmax = bsmax;
       }
       opt->bsmin = bsmin2;
+      opt->bsmax = bsmax;
     }
 
     /* Save current point. */
-- 
2.43.0


From b3c71ebd45bff400862950cdc80efbdc460cd6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 17/38] fix: the minimal step of VMLMB must be relative to the
 step limited by the bounds

---
 src/vmlmb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vmlmb.c b/src/vmlmb.c
index e941932..04af42d 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -679,7 +679,6 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       }
     }
 
-    stpmin = opt->stp*opt->stpmin;
     stpmax = opt->stp*opt->stpmax;
     if (bounded) {
       /* Shortcut the step length. */
@@ -705,6 +704,7 @@ opk_iterate_vmlmb(opk_vmlmb* opt, opk_vector* x,
       opt->bsmin = bsmin2;
       opt->bsmax = bsmax;
     }
+    stpmin = opt->stp*opt->stpmin;
 
     /* Save current point. */
     if (opt->save_memory) {
-- 
2.43.0


From 0d73f3a75e6eed08dd7edeb9bf5c6525629568ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 18/38] fix: starting an optimizer must forget the values
 memorized by its line search

---
 src/lnsrch.c            | 13 ++++++++++---
 src/nlcg.c              |  1 +
 src/optimpack-private.h |  7 +++++++
 src/vmlmb.c             |  1 +
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/lnsrch.c b/src/lnsrch.c
index 1cc793a..dbf1d20 100644
--- a/src/lnsrch.c
+++ b/src/lnsrch.c
@@ -119,6 +119,14 @@ opk_allocate_line_search(opk_lnsrch_operations *ops,
   return ls;
 }
 
+void
+opk__reset_line_search(opk_lnsrch* ls)
+{
+  if (ls != NULL && ls->ops->reset != NULL) {
+    ls->ops->reset(ls);
+  }
+}
+
 /* after an error or convergence, you must call opk_lnsrch_start */
 
 opk_lnsrch_task
@@ -362,14 +370,12 @@ nonmonotone_start(opk_lnsrch* ls)
   return success(ls, OPK_LNSRCH_SEARCH);
 }
 
-#if 0
 static void
 nonmonotone_reset(opk_lnsrch* ls)
 {
   nonmonotone_lnsrch* nmls = (nonmonotone_lnsrch*)ls;
   nmls->mp = 0;
 }
-#endif
 
 static opk_lnsrch_task
 nonmonotone_iterate(opk_lnsrch* ls,
@@ -419,7 +425,8 @@ static opk_lnsrch_operations nonmonotone_operations = {
   NULL,
   nonmonotone_start,
   nonmonotone_iterate,
-  FALSE
+  FALSE,
+  nonmonotone_reset
 };
 
 opk_lnsrch*
diff --git a/src/nlcg.c b/src/nlcg.c
index e16610d..935bec9 100644
--- a/src/nlcg.c
+++ b/src/nlcg.c
@@ -711,6 +711,7 @@ opk_start_nlcg(opk_nlcg* opt, opk_vector* x)
   opt->iterations = 0;
   opt->evaluations = 0;
   opt->restarts = 0;
+  opk__reset_line_search(opt->lnsrch);
   return success(opt, OPK_TASK_COMPUTE_FG);
 }
 
diff --git a/src/optimpack-private.h b/src/optimpack-private.h
index 26aa301..d9a6651 100644
--- a/src/optimpack-private.h
+++ b/src/optimpack-private.h
@@ -490,12 +490,19 @@ struct opk_lnsrch_operations_ {
      or 1st Wolfe condition only).  The initial directional derivative at the
      start of each search is always needed. */
   opk_bool use_deriv;
+
+  /* Optional method to forget what has been memorized from the previous line
+     searches.  Called when an optimizer is (re)started. */
+  void (*reset)(opk_lnsrch* self);
 };
 
 extern opk_lnsrch*
 opk_allocate_line_search(opk_lnsrch_operations *ops,
                          size_t size);
 
+extern void
+opk__reset_line_search(opk_lnsrch* ls);
+
 extern void
 opk__set_nlcg_status(opk_nlcg* opt, opk_status status);
 
diff --git a/src/vmlmb.c b/src/vmlmb.c
index 04af42d..353ee40 100644
--- a/src/vmlmb.c
+++ b/src/vmlmb.c
@@ -374,6 +374,7 @@ opk_start_vmlmb(opk_vmlmb* opt, opk_vector* x)
   opt->iterations = 0;
   opt->evaluations = 0;
   opt->restarts = 0;
+  opk__reset_line_search(opt->lnsrch);
   opt->updates = 0;
   opt->mp = 0;
   if (opt->box != NULL) {
-- 
2.43.0


From dd220ccc2cfb13fd1306569c4223c335620c258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 19/38] fix: opk_fmin_get_final must return both ends of the
 interval

---
 src/fmin.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index 8b2d504..c18c387 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -211,11 +211,11 @@ opk_fmin_get_final(opk_fmin_context* ctx,
   if (ctx->u > ctx->w) {
     MAYBE_GET(xlo, ctx->w);
     MAYBE_GET(flo, ctx->fw);
-    MAYBE_GET(xup, ctx->v);
-    MAYBE_GET(fup, ctx->fv);
+    MAYBE_GET(xup, ctx->u);
+    MAYBE_GET(fup, ctx->fu);
   } else {
-    MAYBE_GET(xlo, ctx->v);
-    MAYBE_GET(flo, ctx->fv);
+    MAYBE_GET(xlo, ctx->u);
+    MAYBE_GET(flo, ctx->fu);
     MAYBE_GET(xup, ctx->w);
     MAYBE_GET(fup, ctx->fw);
   }
-- 
2.43.0


From 823c5d2a28e86b984639f91ac583891116ffbeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 20/38] fix: opk_fmin must honor a maximum number of
 evaluations equal to zero

---
 src/fmin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index c18c387..e094ebf 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -526,7 +526,7 @@ int func(args)
   fv = f(v);
   ++nevals;
   while (fv > fw) {
-    if (maxeval > 0 && nevals >= maxeval) {
+    if (maxeval >= 0 && nevals >= maxeval) {
       status = 2; /* no bracket yet */
       goto done;
     }
@@ -548,7 +548,7 @@ int func(args)
     if (fabs(w - v) <= prec*r) {
       status = 0; /* convergence */
       goto done;
-    } else if (maxeval > 0 && nevals >= maxeval) {
+    } else if (maxeval >= 0 && nevals >= maxeval) {
       status = 1; /* bracket but no convergence */
       goto done;
     }
-- 
2.43.0


From fb057c65f79795549746d1336de91a881279d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 21/38] fix: opk_fmin must stop when rounding errors prevent
 further progresses

---
 src/fmin.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fmin.c b/src/fmin.c
index e094ebf..4dbc6d4 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -350,7 +350,12 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
     }
 
     /* Take a golden section interpolation step. */
-    EVAL(5, x, FMIN_ALPHA*(w - v) + v);
+    t = FMIN_ALPHA*(w - v) + v;
+    if (t == u || t == v || t == w) {
+      /* Rounding errors prevent further progresses. */
+      return (ctx->status = OPK_FMIN_CONVERGENCE);
+    }
+    EVAL(5, x, t);
 
     /* Update the interval.  In case of a tie (fx = fv and fu = fw), the
        situation is symmetrical and the choice arbitrary. */
@@ -555,14 +560,11 @@ int func(args)
 
     /* Take a golden section interpolation step. */
     x = FMIN_ALPHA*(w - v) + v;
-#if 0
-    /* FIXME: This test may be used to save one function evaluation when
-       extreme precision is requested and rounding errors prevent further
-       progresses. */
     if (x == u || x == v || x == w) {
-      break;
+      /* Rounding errors prevent further progresses. */
+      status = 0; /* convergence */
+      goto done;
     }
-#endif
     fx = f(x);
     ++nevals;
     /* Update the interval.  In case of a tie (fx = fv and fu = fw), the
-- 
2.43.0


From 635cdcc309a3c766a8eaf659f9e354fad316570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 22/38] fix: continuing after convergence must not process the
 last function value again in opk_fmin_next

---
 src/fmin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmin.c b/src/fmin.c
index 4dbc6d4..9bcd0e3 100644
--- a/src/fmin.c
+++ b/src/fmin.c
@@ -287,6 +287,10 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
          of the variable. */
       return (ctx->status = OPK_FMIN_ERROR);
     }
+    if (ctx->status == OPK_FMIN_CONVERGENCE) {
+      /* No new function value, the interval is unchanged. */
+      goto reduce;
+    }
     switch (ctx->stage) {
       JUMP(1);
       JUMP(2);
@@ -340,6 +344,7 @@ opk_fmin_next(opk_fmin_context* ctx, double* xptr, double fx)
   }
 
   /* Reduce the bracketing interval to improve the precision. */
+ reduce:
   for (;;) {
     /* Check for convergence. */
     r = fabs(u);
-- 
2.43.0


From dee553ad1f7e30836023ca20829333ecaafb29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 23/38] fix: symmetric rank-k update must use the leading
 dimension of its first matrix

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index 2564a31..c97f2ee 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1475,7 +1475,7 @@ OPK_SYRK(opk_blas_uplo uplo,
 #undef c
 #define c(a1,a2) c_[(a2)*ldc + a1]
 #undef a
-#define a(a1,a2) a_[(a2)*ldc + a1]
+#define a(a1,a2) a_[(a2)*lda + a1]
 
   /* Local constants and variables. */
   const real_t ZERO = OPK_REALCONST(0.0);
-- 
2.43.0


From f2841bb987d7b8d3293805d50f213a9dfbf8475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 24/38] fix: matrix multiplication must report its second
 argument when invalid

---
 src/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg.c b/src/linalg.c
index c97f2ee..8cb8fb9 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1324,7 +1324,7 @@ OPK_GEMM(opk_blas_trans transa,
     notb = 0;
     nrowb = n;
   } else {
-    return 1;
+    return 2;
   }
   if (m < 0) return 3;
   if (n < 0) return 4;
-- 
2.43.0


From f11eb3633bcd7e26ae211402fe858eb208d37036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 25/38] fix: Euclidean norm must not overflow for denormalized
 values

---
 src/linalg.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/linalg.c b/src/linalg.c
index 8cb8fb9..4bb55db 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -550,7 +550,6 @@ OPK_NRM2(opk_index n, const real_t x[],
          opk_index incx)
 {
   const real_t ZERO = OPK_REALCONST(0.0);
-  const real_t ONE = OPK_REALCONST(1.0);
   real_t a, b, s, t;
   opk_index i, m;
 
@@ -581,16 +580,15 @@ OPK_NRM2(opk_index n, const real_t x[],
 
   /* Compute sum of squares avoiding overflows. */
   s = ZERO;
-  b = ONE/a;
   if (incx == 1) {
     for (i = 0; i < n; ++i) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   } else {
     m = n*incx;
     for (i = 0; i < m; i += incx) {
-      t = b*x[i];
+      t = x[i]/a;
       s += t*t;
     }
   }
-- 
2.43.0


From 1a88f62bf6551ba9a6c3e5ab2c3734b5fde5990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 26/38] fix: Cholesky factorization must check its first
 argument even for an empty matrix

---
 src/linalg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linalg.c b/src/linalg.c
index 4bb55db..2e0257f 100644
--- a/src/linalg.c
+++ b/src/linalg.c
@@ -1657,6 +1657,9 @@ OPK_POTF2(opk_blas_uplo uplo,
   opk_index j;
 
   /* Test the input parameters. */
+  if (uplo != OPK_BLAS_UPPER && uplo != OPK_BLAS_LOWER) {
+    return -1;
+  }
   if (n < 0) {
     return -2;
   }
-- 
2.43.0


From 91311ee8d7a9b90c77ee9ebd19860f485fd63584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 27/38] fix: newuoa_create must refuse less than 2 variables
 and set errno for a bad NPT

---
 src/newuoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index 6d36508..ea738d3 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -532,7 +532,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
   size_t size, offset;
 
   /* Check arguments. */
-  if (n < 0) {
+  if (n < 2) {
     if (iprint > 0) {
       print_error("invalid number of variables N");
     }
@@ -543,6 +543,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     if (iprint > 0) {
       print_error("NPT is not in the required interval");
     }
+    errno = EINVAL;
     return NULL;
   }
   if (rhoend <= 0 || rhoend > rhobeg) {
-- 
2.43.0


From ad974fab892105f32bd73daa687baef130c84242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 28/38] fix: size of the trust region of NEWUOA and COBYLA must
 be as documented before and after the first iteration

---
 src/cobyla.c | 1 +
 src/newuoa.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/cobyla.c b/src/cobyla.c
index 8a88cb1..40142b5 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -266,6 +266,7 @@ cobyla_restart(cobyla_context* ctx)
     return COBYLA_BAD_ADDRESS;
   }
   ctx->nfvals = 0;
+  ctx->rho = 0;
   ctx->status = COBYLA_ITERATE;
   return ctx->status;
 }
diff --git a/src/newuoa.c b/src/newuoa.c
index ea738d3..bc05072 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -619,6 +619,7 @@ newuoa_restart(newuoa_context* ctx)
     return NEWUOA_BAD_ADDRESS;
   }
   ctx->nevals = 0;
+  ctx->rho = 0;
   ctx->status = NEWUOA_ITERATE;
   return ctx->status;
 }
@@ -1006,6 +1007,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
   /* Begin the initialization procedure. NF becomes one more than the number of
      function values so far. The coordinates of the displacement of the next
      initial interpolation point from XBASE are set in XPT(NF,.). */
+  rho = rhobeg;
   rhosq = rhobeg*rhobeg;
   recip = one/rhosq;
   reciq = SQRT(half)/rhosq;
-- 
2.43.0


From 46cd22ab2a03df0e5b6414f561400c1f655fb6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 29/38] fix: NEWUOA must return the best point when MAXFUN is
 less than NPT

---
 src/newuoa.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index bc05072..978efad 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1634,7 +1634,13 @@ newuoa_optimize(INTEGER n, INTEGER npt,
   }
   status = NEWUOA_SUCCESS;
  done:
-  if (fopt <= f) {
+  if (nf < npt) {
+    /* XOPT is not yet defined, the best point is the KOPT-th initial one. */
+    LOOP(i,n) {
+      X(i) = XBASE(i) + XPT(kopt,i);
+    }
+    f = fopt;
+  } else if (fopt <= f) {
     LOOP(i,n) {
       X(i) = XBASE(i) + XOPT(i);
     }
-- 
2.43.0


From d1563ae9a5fdf2684f0550e8b9feb8bf346439de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 30/38] fix: COBYLA must not print anything when IPRINT is zero

---
 src/cobyla.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 40142b5..69baa76 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -528,8 +528,10 @@ cobyla_optimize(INTEGER n, INTEGER m,
  call_calcfc:
   if (nfvals >= maxfun && nfvals > 0) {
     status = COBYLA_TOO_MANY_EVALUATIONS;
-    fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
-            cobyla_reason(status));
+    if (iprint >= 1) {
+      fprintf(stderr, "Return from subroutine COBYLA because %s.\n",
+              cobyla_reason(status));
+    }
     goto L_600;
   }
 #ifdef COBYLA_REVCOM_
-- 
2.43.0


From 78268b12ad537c5f1ae1109fe24bf27754a84af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 31/38] fix: BOBYQA must satisfy the bounds exactly when the
 variables are scaled

---
 src/bobyqa.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8c8c257..8776b28 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -103,13 +103,15 @@ typedef struct {
   bobyqa_objfun* objfun; /* objective function */
   void*          data;   /* client data for the objective function */
   const REAL*    scl;    /* scaling factors */
+  const REAL*    xl;     /* unscaled lower bounds */
+  const REAL*    xu;     /* unscaled upper bounds */
   REAL*          ws;     /* temporary workspace */
   REAL           sgn;    /* sign: +1 for minimize, -1 for maximize */
   INTEGER        n;      /* number of variables */
 } context;
 
 #define GET_VARIABLES(ctx, x) ((ctx)->scl == NULL ? (x) : \
-                               scale((ctx)->ws, (ctx)->n, (ctx)->scl, (x)))
+                               unscale((ctx)->ws, (ctx), (x)))
 
 #define CALL_OBJFUN(ctx, x)   ((ctx)->objfun((ctx)->n, GET_VARIABLES(ctx, x), \
                                            (ctx)->data)*(ctx)->sgn)
@@ -171,17 +173,6 @@ update(const INTEGER n, const INTEGER npt, REAL* bmat,
        REAL* zmat, const INTEGER ndim, REAL* vlag, const REAL beta,
        const REAL denom, const INTEGER knew, REAL* w);
 
-static REAL*
-scale(REAL* dst, INTEGER n, const REAL* scl, const REAL* src)
-{
-  INTEGER i;
-
-  for (i = 0; i < n; ++i) {
-    dst[i] = scl[i]*src[i];
-  }
-  return dst;
-}
-
 /* `clamp(x,lo,hi)` returns the value in the range `[lo,hi]` which is the
    closest to `x`.  It is assumed that 'lo <= hi` holds.  */
 static REAL
@@ -190,6 +181,20 @@ clamp(REAL x, REAL lo, REAL hi)
   return (x >= hi ? hi : (x <= lo ? lo : x));
 }
 
+/* Convert the scaled variables `src` into the variables of the caller.  The
+   result is clamped because, due to rounding errors, multiplying a scaled bound
+   by the scaling factor may not yield the exact bound. */
+static REAL*
+unscale(REAL* dst, const context* ctx, const REAL* src)
+{
+  INTEGER i;
+
+  for (i = 0; i < ctx->n; ++i) {
+    dst[i] = clamp(ctx->scl[i]*src[i], ctx->xl[i], ctx->xu[i]);
+  }
+  return dst;
+}
+
 static REAL
 min(REAL a, REAL b)
 {
@@ -370,6 +375,8 @@ bobyqa_status bobyqa_optimize(
   ctx.objfun = objfun;
   ctx.data = data;
   ctx.scl = NULL;
+  ctx.xl = xl;
+  ctx.xu = xu;
   ctx.ws = NULL;
   ctx.sgn = (maximize ? FLT(-1.0) : FLT(1.0));
   ctx.n = n;
@@ -479,7 +486,7 @@ bobyqa_status bobyqa_optimize(
 
   /* Scale the final variables, if scaling. */
   if (ctx.scl != NULL) {
-    scale(x, n, ctx.scl, x);
+    unscale(x, &ctx, x);
   }
 
   /* Return status. */
-- 
2.43.0


From 475e024d7007bed109fdc00564c6851c05575385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 32/38] fix: BOBYQA must not change the variables when there is
 insufficient space between the bounds

---
 src/bobyqa.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8776b28..8cb78e5 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -394,14 +394,12 @@ bobyqa_status bobyqa_optimize(
       }
     }
     if (scaling) {
-      /* If scaling, divide the initial variables and the bounds by the scaling
-         factors. */
+      /* If scaling, divide the bounds by the scaling factors. */
       REAL* tmpx  = w + WORK_SIZE(n, npt);
       REAL* tmpxl = tmpx + n;
       REAL* tmpxu = tmpxl + n;
       for (j = 0; j < n; ++j) {
         REAL s = one/scl[j];
-        x[j] *= s;
         tmpxl[j] = s*xl[j];
         tmpxu[j] = s*xu[j];
       }
@@ -435,12 +433,8 @@ bobyqa_status bobyqa_optimize(
   ivl = id + n;
   iw = ivl + ndim;
 
-  /* Return if there is insufficient space between the bounds.  Modify the
-     initial X if necessary in order to avoid conflicts between the bounds and
-     the construction of the first quadratic model.  The lower and upper bounds
-     on moves from the updated X are set now, in the ISL and ISU partitions of
-     W, in order to provide useful and exact information about components of X
-     that become within distance RHOBEG from their bounds. */
+  /* Return if there is insufficient space between the bounds, the initial
+     variables are left unchanged in that case. */
   for (j = 0; j < n; ++j) {
     temp = xu[j] - xl[j];
     if (temp < rhobeg + rhobeg) {
@@ -449,6 +443,22 @@ bobyqa_status bobyqa_optimize(
       }
       return BOBYQA_TOO_CLOSE;
     }
+  }
+
+  /* If scaling, divide the initial variables by the scaling factors. */
+  if (ctx.scl != NULL) {
+    for (j = 0; j < n; ++j) {
+      x[j] *= one/ctx.scl[j];
+    }
+  }
+
+  /* Modify the initial X if necessary in order to avoid conflicts between the bounds and
+     the construction of the first quadratic model.  The lower and upper bounds
+     on moves from the updated X are set now, in the ISL and ISU partitions of
+     W, in order to provide useful and exact information about components of X
+     that become within distance RHOBEG from their bounds. */
+  for (j = 0; j < n; ++j) {
+    temp = xu[j] - xl[j];
     jsl = isl + j;
     jsu = jsl + n;
     w[jsl] = xl[j] - x[j];
-- 
2.43.0


From fd727cc28ccb72a55965ccb3644c455ab7d13d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 33/38] fix: BOBYQA must return the best point when a trust
 region step fails

---
 src/bobyqa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index 8cb78e5..cb41d34 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -1057,6 +1057,7 @@ bobyqb(const INTEGER n, const INTEGER npt, const context* ctx,
   /* Pick the next value of DELTA after a trust region step. */
   if (ntrits > 0) {
     if (vquad >= zero) {
+      fsave = f;
       goto step_failed;
     }
     ratio = (f - fopt)/vquad;
-- 
2.43.0


From fe53113f663c36ee81b4bb910534e12db6098018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 34/38] fix: NEWUOA, BOBYQA and COBYLA must refuse a trust
 region size which is not a number

---
 src/bobyqa.c | 2 +-
 src/cobyla.c | 4 ++--
 src/newuoa.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bobyqa.c b/src/bobyqa.c
index cb41d34..77b29ce 100644
--- a/src/bobyqa.c
+++ b/src/bobyqa.c
@@ -367,7 +367,7 @@ bobyqa_status bobyqa_optimize(
     }
     return BOBYQA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (!(rhoend > zero && rhoend <= rhobeg)) {
     return BOBYQA_BAD_RHO_RANGE;
   }
 
diff --git a/src/cobyla.c b/src/cobyla.c
index 69baa76..556ca5a 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -208,7 +208,7 @@ cobyla_create(INTEGER n, INTEGER m, REAL rhobeg, REAL rhoend,
   size_t size, offset1, offset2;
 
   /* Check arguments. */
-  if (n < 1 || m < 0 || rhobeg < rhoend || rhoend <= 0 || maxfun < 1) {
+  if (n < 1 || m < 0 || !(rhoend > 0 && rhoend <= rhobeg) || maxfun < 1) {
     errno = EINVAL;
     return NULL;
   }
@@ -425,7 +425,7 @@ cobyla_optimize(INTEGER n, INTEGER m,
   if (m < 0) {
     return COBYLA_BAD_NCONS;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (!(rhoend > zero && rhoend <= rhobeg)) {
     return COBYLA_BAD_RHO_RANGE;
   }
 
diff --git a/src/newuoa.c b/src/newuoa.c
index 978efad..fb0011e 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -546,7 +546,7 @@ newuoa_create(const INTEGER n, const INTEGER npt,
     errno = EINVAL;
     return NULL;
   }
-  if (rhoend <= 0 || rhoend > rhobeg) {
+  if (!(rhoend > 0 && rhoend <= rhobeg)) {
     if (iprint > 0) {
       print_error("invalid RHOBEG and/or RHOEND");
     }
@@ -849,7 +849,7 @@ newuoa_optimize(INTEGER n, INTEGER npt,
     }
     return NEWUOA_BAD_NPT;
   }
-  if (rhoend <= zero || rhoend > rhobeg) {
+  if (!(rhoend > zero && rhoend <= rhobeg)) {
     return NEWUOA_BAD_RHO_RANGE;
   }
 
-- 
2.43.0


From 1389ec668b6923a33b948ffffe23e19cde6d89d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 35/38] fix: COBYLA must not loop forever when the function
 values overflow

---
 src/cobyla.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 556ca5a..0f16a83 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -1527,7 +1527,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
   /* If the full step is not acceptable then begin another iteration.
      Otherwise switch to stage two or end the calculation. */
   if (icon > 0) goto L_70;
-  if (step == stpful) goto L_500;
+  if (!(step < stpful)) goto L_500; /* also true if STEP is not a number */
  L_480:
   mcon = m + 1;
   icon = mcon;
-- 
2.43.0


From 509d842213ffa50667158cd3101508e3e0735542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 36/38] fix: NEWUOA returns the best point when the last value
 is not a number

---
 src/newuoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/newuoa.c b/src/newuoa.c
index fb0011e..0a53298 100644
--- a/src/newuoa.c
+++ b/src/newuoa.c
@@ -1640,7 +1640,8 @@ newuoa_optimize(INTEGER n, INTEGER npt,
       X(i) = XBASE(i) + XPT(kopt,i);
     }
     f = fopt;
-  } else if (fopt <= f) {
+  } else if (! (f < fopt)) {
+    /* F may be NaN. */
     LOOP(i,n) {
       X(i) = XBASE(i) + XOPT(i);
     }
-- 
2.43.0


From 9afdc51d919a19fac28dbecd0a36009c9674f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 37/38] fix: COBYLA replaces the selected constraint in the
 active set, not the last one

---
 src/cobyla.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index 0f16a83..fb21ceb 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -1110,14 +1110,15 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
   const REAL Op1   = FLT(0.1);
   const REAL Op2   = FLT(0.2);
 
-  /* Local variables (FIXME: `iout` was unused). */
+  /* Local variables. */
   REAL acca, accb, alpha, beta, dd, optnew, optold, ratio, resmax, resold, sd,
     sp, spabs, ss, step, stpful, sum, sumabs, temp, tempa, tempb, tot, vsave,
     zdotv, zdotw, zdvabs, zdwabs;
-  INTEGER i, icon, icount, isave, j, k, kk, kl, kp, kw, mcon, nact, nactx;
+  INTEGER i, icon, icount, iout, isave, j, k, kk, kl, kp, kw, mcon, nact, nactx;
 
   *ifull = 1;
   icon = 0; /* FIXME: `icon` was uninitialized */
+  iout = 0;
   mcon = m;
   nact = 0;
   resmax = zero;
@@ -1247,7 +1248,7 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
       tempa = VMULTC(k)/temp;
       if (ratio < zero || tempa < ratio) {
         ratio = tempa;
-        /* iout = k; (FIXME: `iout` unused) */
+        iout = k;
       }
     }
     if (k >= 2) {
@@ -1271,10 +1272,10 @@ trstlp(const INTEGER n, const INTEGER m, const REAL a[], const REAL b[],
     tempb = VMULTC(k) - ratio*VMULTD(k);
     VMULTC(k) = MAX(zero, tempb);
   }
-  if (icon < nact) {
-    isave = IACT(icon);
-    vsave = VMULTC(icon);
-    k = icon;
+  if (iout < nact) {
+    isave = IACT(iout);
+    vsave = VMULTC(iout);
+    k = iout;
     do {
       kp = k + 1;
       kw = IACT(kp);
-- 
2.43.0


From 7b2ea86dd1426c90356e8e3cc6be960caa9aac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 38/38] fix: COBYLA does not ignore the constraints when the
 objective is locally constant

---
 src/cobyla.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/cobyla.c b/src/cobyla.c
index fb21ceb..d6d5eaa 100644
--- a/src/cobyla.c
+++ b/src/cobyla.c
@@ -364,7 +364,7 @@ cobyla_optimize(INTEGER n, INTEGER m,
      variables are those which must be preserved between calls in a reverse
      communication version of the algorithm). */
   REAL parmu, parsig, prerec, prerem, rho;
-  REAL barmu, cvmaxm, cvmaxp, dxsign, edgmax, error, pareta, phi, phimin,
+  REAL acca, accb, barmu, cvmaxm, cvmaxp, dxsign, edgmax, error, pareta, phi, phimin,
     ratio, resmax, resnew, sum, temp, tempa, trured, vmnew, vmold;
   REAL *con, *sim, *simi, *datmat, *a, *vsig, *veta, *sigbar, *dx, *w;
   REAL* xs; /* rescaled variables or variables to print */
@@ -824,6 +824,19 @@ cobyla_optimize(INTEGER n, INTEGER m,
      respectively. */
   prerec = DATMAT(mpp,np) - resnew;
   barmu = (prerec > zero ? sum/prerec : zero);
+
+  /* If the predicted change to F could be due to computer rounding errors,
+     make PARMU large enough for the constraint violation to have an effect on
+     the merit function. */
+  temp = ABS(DATMAT(mp,np));
+  LOOP(j,n) {
+    temp = MAX(temp, ABS(DATMAT(mp,j)));
+  }
+  acca = temp + FLT(0.1)*ABS(sum);
+  accb = temp + FLT(0.2)*ABS(sum);
+  if (prerec > zero && (temp >= acca || acca >= accb)) {
+    barmu = FLT(1.0e-6)*temp/prerec;
+  }
   if (parmu < FLT(1.5)*barmu) {
     parmu = FLT(2.0)*barmu;
     if (iprint >= 2) {
-- 
2.43.0

