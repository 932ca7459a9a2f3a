From a8ed7275f3ef2ac84cd6954ceffb459cae9f39f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 001/219] fix: id_sp_kron used B's column count as its row
 count (wrong for non-square B)

---
 pystatsm/utilities/python_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 1a29696..3b30660 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -253,7 +253,7 @@ def id_sp_kron(m, B):
     Ci = np.zeros(m * nnz, dtype=np.int32)
     Cx = np.zeros(m * nnz, dtype=np.float64)
     
-    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return sp.sparse.csc_matrix((Cx, Ci, Cp), shape=(m * Bnr, m * Bnc))
 
@@ -263,7 +263,7 @@ def id_sp_kron_inplace(m, B, C):
     Bp, Bi, Bx = B.indptr, B.indices, B.data
     Cp, Ci, Cx = C.indptr, C.indices, C.data
    
-    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnc, Bnc, Cx, Ci, Cp)
+    cs_kron_id_sp_inplace_wrapper(m, Bx, Bi, Bp, Bnr, Bnc, Cx, Ci, Cp)
     
     return C
 
-- 
2.43.0


From ba44c803f99cb2d4dc067210ba28600e185981e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 002/219] fix: cs_matmul_inplace left unsorted indices flagged
 as sorted when its output is reused

---
 pystatsm/utilities/python_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index 3b30660..b73be9c 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -101,6 +101,8 @@ def cs_matmul_inplace(A, B, C):
     Cp, Ci, Cx = C.indptr, C.indices, C.data
     
     cs_matmul_inplace_wrapper(Ap, Ai, Ax, Anr, Anc, Bp, Bi, Bx, Bnr, Bnc, Cp, Ci, Cx)
+    # the kernel rewrites C.indices unsorted, so a flag cached by an earlier call is stale
+    C.has_sorted_indices = False
     C.sort_indices()
     return C
 
@@ -114,6 +116,8 @@ def cs_matmul_inplace_complex(A, B, C):
     Cp, Ci, Cx = C.indptr, C.indices, C.data
     
     cs_matmul_inplace_complex_wrapper(Ap, Ai, Ax, Anr, Anc, Bp, Bi, Bx, Bnr, Bnc, Cp, Ci, Cx)
+    # the kernel rewrites C.indices unsorted, so a flag cached by an earlier call is stale
+    C.has_sorted_indices = False
     C.sort_indices()
     return C
 
-- 
2.43.0


From 296d508dd0560f615aca7b5fda9193976d8d4e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 003/219] fix: Fortran-ordered tril/triu_indices swapped rows
 and columns for non-square shapes

---
 pystatsm/utilities/indexing_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/indexing_utils.py b/pystatsm/utilities/indexing_utils.py
index 9a0a12e..734d555 100644
--- a/pystatsm/utilities/indexing_utils.py
+++ b/pystatsm/utilities/indexing_utils.py
@@ -79,7 +79,7 @@ def tril_indices(n, k=0, m=None, order='F'):
     """
     if order == 'F':
         k = int(k * -1)
-        inds = np.triu_indices(n=n, k=k, m=m)[::-1]
+        inds = np.triu_indices(n=n if m is None else m, k=k, m=n)[::-1]
     elif order == 'C':
         inds = np.tril_indices(n=n, k=k, m=m)
     return inds
@@ -113,7 +113,7 @@ def triu_indices(n, k=0, m=None, order='F'):
     """
     if order == 'F':
         k = int(k * -1)
-        inds = np.tril_indices(n=n, k=k, m=m)[::-1]
+        inds = np.tril_indices(n=n if m is None else m, k=k, m=n)[::-1]
     elif order == 'C':
         inds = np.triu_indices(n=n, k=k, m=m)
     return inds
-- 
2.43.0


From e50494c53c1a264693d5d6996d4ebd9ac7a4b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 004/219] fix: DuplicationMatrix.apply_pre_post multiplied by
 the transposed right factor (default call raised)

---
 pystatsm/utilities/special_mats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/special_mats.py b/pystatsm/utilities/special_mats.py
index 2e7500a..3f5a353 100644
--- a/pystatsm/utilities/special_mats.py
+++ b/pystatsm/utilities/special_mats.py
@@ -430,7 +430,7 @@ class DuplicationMatrix:
             D2 = D2.T
 
         A = D1.dot(A)
-        A = (D2.dot(A.T)).T
+        A = (D2.T.dot(A.T)).T
         return A
 
 class DpMatrix:
-- 
2.43.0


From 732f982cb45f2a5beb98f62dca78f2e7c34229de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 005/219] fix: process_optimizer_kwargs handed out the shared
 default option dict, so edits leaked into later calls

---
 pystatsm/utilities/optimizer_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/optimizer_utils.py b/pystatsm/utilities/optimizer_utils.py
index dcc745e..02711f0 100644
--- a/pystatsm/utilities/optimizer_utils.py
+++ b/pystatsm/utilities/optimizer_utils.py
@@ -29,7 +29,7 @@ def process_optimizer_kwargs(optimizer_kwargs, default_method='trust-constr'):
         optimizer_kwargs['method'] = default_method
 
     if 'options' not in keys:
-        optimizer_kwargs['options'] = default_opts[optimizer_kwargs['method']]
+        optimizer_kwargs['options'] = dict(default_opts[optimizer_kwargs['method']])
     else:
         options_keys = optimizer_kwargs['options'].keys()
         for dfkey, dfval in default_opts[optimizer_kwargs['method']].items():
-- 
2.43.0


From 498fb8cdf594cf2baa20a14fd0757a43ba6bf8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 006/219] fix: vine_corr skipped the first two partial
 correlations, so matrices could be indefinite

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 68ffbdc..46d9973 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -25,7 +25,7 @@ def vine_corr(d, eta=1, beta=None, seed=None, min_eig=False):
             P[k, i] = np.random.beta(beta, beta)
             P[k, i] = (P[k, i] - 0.5)*2.0
             p = P[k, i]
-            for l in range(k-1, 1, -1):
+            for l in range(k-1, -1, -1):
                 p = p * np.sqrt((1 - P[l, i]**2)*(1 - P[l, k]**2)) + P[l, i]*P[l, k]
             S[k, i] = p
             S[i, k] = p
-- 
2.43.0


From 4e8300a53d3b13ffcc709e586beec7880e77fe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 007/219] fix: scalar_truncnorm without bounds scaled and
 shifted its draw twice

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 46d9973..c8a6067 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -128,7 +128,7 @@ def scalar_truncnorm(mu, sd, lb, ub):
     sample = 1
     if (lb < -1e16) or (ub>1e16):
         if (lb < -1e16) and (ub>1e16):
-            z = np.random.normal(mu, sd)
+            z = np.random.normal(0.0, 1.0)
         else:
             if ub > 1e16:
                 tr = (lb - mu) / sd
-- 
2.43.0


From 95bd25b0599d0baf0c657b272cc4d86ba50f8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 008/219] fix: multivariate_t added its mean twice (once scaled
 by the chi-square mixing variable)

---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index c8a6067..454209f 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -197,7 +197,7 @@ def cauchy(loc, scale, size=None, rng=None):
 def multivariate_t(mean, cov, nu=1, size=None, rng=None):
     rng = np.random.default_rng() if rng is None else rng
     u = np.sqrt(nu / rng.chisquare(df=nu, size=size))[:, np.newaxis]
-    Y = rng.multivariate_normal(mean=mean, cov=cov, size=size)
+    Y = rng.multivariate_normal(mean=np.zeros_like(mean, dtype=float), cov=cov, size=size)
     X = mean + u * Y
     return X
 
-- 
2.43.0


From c7440ab1aca9604b8b488ed464614e4240402c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 009/219] fix: flat_cross_tabulate used np.product, which numpy
 2 removed

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 7893d08..019782a 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -405,7 +405,7 @@ def flat_cross_tabulate(arr, column_dim=-1):
     axis_positions.append(axis_positions.pop(column_dim))
     axis_locations = [axis_positions.index(i) for i in range(counts.ndim)]
     counts = np.moveaxis(counts, list(range(counts.ndim)), axis_locations)
-    counts = counts.reshape(np.product(counts.shape[:-1]), counts.shape[-1], order='C')
+    counts = counts.reshape(np.prod(counts.shape[:-1]), counts.shape[-1], order='C')
     row_labels = np.array(list(itertools.product(*levels)))
     return counts, row_labels, col_labels, axis_locations
     
-- 
2.43.0


From 3596895cd7c07f5a914d35616065276ccf6ce258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 010/219] fix: welford_variance permuted the remaining axes for
 axis >= 2 of 3-d arrays

---
 pystatsm/utilities/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index 019782a..ad3ca75 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -349,7 +349,7 @@ def welford_variance(arr, axis=None, unbiased=False):
     n = shape.pop(axis)
     mean = np.zeros(tuple(shape))
     sumsq = np.zeros(tuple(shape))
-    arr = np.swapaxes(arr, 0, axis)
+    arr = np.ascontiguousarray(np.moveaxis(arr, axis, 0))
     mean, sumsq = _welford_variance(arr, n, mean, sumsq)
     variance = sumsq / (n - unbiased)
     return mean, variance
-- 
2.43.0


From ae440d4e7dc0a04c7091da3d9eb43858b7612993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 011/219] fix: sign_change with nth_change > 1 counted points
 on the other side instead of changes

---
 pystatsm/utilities/data_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index ad3ca75..b783a60 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -291,6 +291,7 @@ def _kth_sign_change_1d(arr, b, k=1):
     for i in range(1, n):
         if np.sign(arr[i]-b)!=s:
             j += 1
+            s = np.sign(arr[i]-b)
         if j==k:
             break
     return i-1
-- 
2.43.0


From dbd629f9c19ae53dcbd18f34d5e0b7fcb116f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 012/219] fix: B-spline smooths (kind='bs') always raised:
 bspline_penalty passed a removed argument and its caller omitted the degree

---
 pystatsm/utilities/splines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/utilities/splines.py b/pystatsm/utilities/splines.py
index e284575..6ccb243 100644
--- a/pystatsm/utilities/splines.py
+++ b/pystatsm/utilities/splines.py
@@ -168,7 +168,7 @@ def bspline_penalty(all_knots, knots, degree, penalty=2, intercept=False):
     pord = penalty-1
     h1 = np.repeat(np.diff(knots)/pord, pord)
     k1 = np.concatenate((np.array([knots[0]]), h1)).cumsum()
-    G = bspline_basis(k1, all_knots, degree, deriv=2, intercept=False)
+    G = bspline_basis(k1, all_knots, deriv=2, degree=degree)
     a = np.tile(np.linspace(-1, 1, pord+1), pord+1)
     b = np.repeat(np.arange(0, pord+1), pord+1)
     P = (a**b).reshape(pord+1, pord+1, order='F')
@@ -236,7 +236,7 @@ def _get_crsplines(x, df=10):
     
 def _get_bsplines(x, df=10):
     knots, inner_knots = bspline_knots(x, df)
-    F, S = bspline_penalty(knots, inner_knots)
+    F, S = bspline_penalty(knots, inner_knots, degree=3)
     X = bspline_basis(x, knots, deriv=0)
     fkws = {"deriv":0}
     return X, S, knots, fkws
-- 
2.43.0


From 4ffecf9cfc9cf9cd7ce179dab981c61b66bc2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 013/219] Revert "fix: vine_corr skipped the first two partial
 correlations, so matrices could be indefinite"

This reverts commit 498fb8cdf594cf2baa20a14fd0757a43ba6bf8a7.
---
 pystatsm/utilities/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 454209f..fee88aa 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -25,7 +25,7 @@ def vine_corr(d, eta=1, beta=None, seed=None, min_eig=False):
             P[k, i] = np.random.beta(beta, beta)
             P[k, i] = (P[k, i] - 0.5)*2.0
             p = P[k, i]
-            for l in range(k-1, -1, -1):
+            for l in range(k-1, 1, -1):
                 p = p * np.sqrt((1 - P[l, i]**2)*(1 - P[l, k]**2)) + P[l, i]*P[l, k]
             S[k, i] = p
             S[i, k] = p
-- 
2.43.0


From 4ae08979670c75a27d33e92cd1531a4317cdc669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 014/219] fix: get_antedependence1_corr filled the upper
 triangle in the wrong order (asymmetric for n >= 4)

---
 pystatsm/utilities/cov_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/utilities/cov_utils.py b/pystatsm/utilities/cov_utils.py
index 00bb423..89ecdee 100644
--- a/pystatsm/utilities/cov_utils.py
+++ b/pystatsm/utilities/cov_utils.py
@@ -180,7 +180,8 @@ def get_antedependence1_corr(rho, n_var=None):
         r.append(np.cumprod(rho[i:]))
     r = np.concatenate(r)
     R = np.eye(n_var)
-    R[np.triu_indices(n_var, 1)[::-1]] = R[np.tril_indices(n_var, -1)[::-1]] = r
+    rows, cols = np.triu_indices(n_var, 1)
+    R[rows, cols] = R[cols, rows] = r
     return R
 
 def get_factor_cov(A, Psi, Phi=None, n_var=None):
-- 
2.43.0


From 1e083fc1074815983524b6a80a9e608f007841d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 015/219] fix: sum_preserving_round added one to every element
 when the input was already integral

---
 pystatsm/utilities/func_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/func_utils.py b/pystatsm/utilities/func_utils.py
index 3be3838..b747f14 100644
--- a/pystatsm/utilities/func_utils.py
+++ b/pystatsm/utilities/func_utils.py
@@ -311,7 +311,7 @@ def sum_preserving_round(arr):
     arr_fract = arr - arr_floor
     arr_fract_sort = np.argsort(arr_fract)
     sum_diff = int(np.round(np.sum(arr) -  np.sum(arr_floor)))
-    ind = arr_fract_sort[-sum_diff:]
+    ind = arr_fract_sort[len(arr)-sum_diff:]
     arr_floor[ind] = arr_floor[ind] + 1
     return arr_floor
 
-- 
2.43.0


From 1410c2157b9bbd11a444aa54d3ce32193c678799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:50 +0000
Subject: [PATCH 016/219] fix: BCa bias correction had the wrong sign

---
 pystatsm/utilities/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/utilities/output.py b/pystatsm/utilities/output.py
index 50f6938..b99830e 100644
--- a/pystatsm/utilities/output.py
+++ b/pystatsm/utilities/output.py
@@ -86,7 +86,7 @@ def compute_bias_corrected_bootstrap_intervals(params, jack_samples, boot_sample
     jack_samples = np.asarray(jack_samples)
     boot_samples = np.asarray(boot_samples)
 
-    z0 = sp.special.ndtri(np.mean(params < boot_samples, axis=0)).reshape(-1, 1)
+    z0 = sp.special.ndtri(np.mean(boot_samples < params, axis=0)).reshape(-1, 1)
     jack_mean = np.mean(jack_samples, axis=0)
     d = jack_mean - jack_samples
     d2 = d * d
-- 
2.43.0


From a1de0578e009f96fd1fe5154e4b97b0286691cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 017/219] fix: ProbitLink.d4link called a nonexistent special
 function

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index 899b071..ad09404 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -148,7 +148,7 @@ class ProbitLink(Link):
         return g
     
     def d4link(self, mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 353571c..a7a5c40 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -201,7 +201,7 @@ class ProbitLink(Link):
     
     @staticmethod
     def d4link(mu):
-        u = sp.special.erfinc(2.0 * mu - 1.0)
+        u = sp.special.erfinv(2.0 * mu - 1.0)
         c = 4.0 * np.sqrt(2.0) * np.pi**2
         g = c * np.exp(4.0 * u**2) * u * (12 * u**2 + 7)
         return g
-- 
2.43.0


From d8c9d2f4f4d3e6700f42c91a916937ab80a689da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 018/219] fix: NegativeBinomialLink d2link and d4link had the
 wrong sign

---
 pystatsm/pyglm/links.py  | 4 ++--
 pystatsm/pyglm2/links.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index ad09404..8aa3203 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -399,7 +399,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -411,7 +411,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index a7a5c40..7d26fd4 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -486,7 +486,7 @@ class NegativeBinomialLink(Link):
         return dmu
     
     def d2link(self, mu):
-        a = self.v * (self.v + 2.0 * mu)
+        a = -self.v * (self.v + 2.0 * mu)
         b = mu**2 * (self.v + mu)**2
         return a / b
         
@@ -498,7 +498,7 @@ class NegativeBinomialLink(Link):
     
     def d4link(self, mu):
         v = self.v
-        a = 6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
+        a = -6.0 * v * (v**3 + 4.0 * v**2 * mu + 6.0 * v * mu**2 + 4.0 * mu**3)
         b = mu**4 * (mu + v)**4
         return a / b
         
-- 
2.43.0


From 766c40a32e43fbcc6183f8cbc8eae1b792506c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 019/219] fix: IdentityLink.dinv_link could not be called
 (static method with self)

---
 pystatsm/pyglm2/links.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index 7d26fd4..cecc596 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -68,7 +68,7 @@ class IdentityLink(Link):
         return mu
     
     @staticmethod
-    def dinv_link(self, eta):
+    def dinv_link(eta):
         dmu = 0.0*eta+1.0
         return dmu
        
-- 
2.43.0


From 3ddffaddfc0c0b822320c8fc8afd28eb7e981e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 020/219] fix: pylmm PowerLink differentiated its mean function
 with respect to the power

---
 pystatsm/pylmm/links.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/links.py b/pystatsm/pylmm/links.py
index 810c819..bc2051c 100644
--- a/pystatsm/pylmm/links.py
+++ b/pystatsm/pylmm/links.py
@@ -202,16 +202,15 @@ class PowerLink(Link):
         if self.alpha==0:
             dmu = np.exp(eta)
         else:
-            dmu = -(eta**(1/self.alpha) * np.log(eta)) / (self.alpha**2)
+            dmu = eta**(1/self.alpha - 1.0) / self.alpha
         return dmu
     
     def d2inv_link(self, eta):
         alpha=self.alpha
-        lnx = np.log(eta)
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (eta**(1/alpha) * lnx * (lnx+2*alpha)) / alpha**4
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From 8dcc8ec0b0af71c6bc7e43ae0ac0b64ac9d16d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 021/219] fix: PowerLink.d2inv_link had the wrong sign

---
 pystatsm/pyglm/links.py  | 2 +-
 pystatsm/pyglm2/links.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/links.py b/pystatsm/pyglm/links.py
index 8aa3203..e100a58 100644
--- a/pystatsm/pyglm/links.py
+++ b/pystatsm/pyglm/links.py
@@ -293,7 +293,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
diff --git a/pystatsm/pyglm2/links.py b/pystatsm/pyglm2/links.py
index cecc596..c1fd4ca 100644
--- a/pystatsm/pyglm2/links.py
+++ b/pystatsm/pyglm2/links.py
@@ -372,7 +372,7 @@ class PowerLink(Link):
         if alpha==0:
             d2mu = np.exp(eta)
         else:
-            d2mu = (alpha - 1.0) * eta**(1/alpha - 2.0) / alpha**2
+            d2mu = (1.0 - alpha) * eta**(1/alpha - 2.0) / alpha**2
         return d2mu
     
     def link(self, mu):
-- 
2.43.0


From 73a314322ae5b37d409d99cf872cca9ce4d931ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 022/219] fix: Pearson and signed residuals of families ignored
 the weights passed to them

---
 pystatsm/pyglm/families.py  | 4 ++--
 pystatsm/pyglm2/families.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8708ca3..8dbc63c 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -77,7 +77,7 @@ class ExponentialFamily(object):
         weights = self.weights if weights is None else weights
         y, mu = self.cshape(y, mu)
         V = self.var_func(mu=mu, dispersion=dispersion)
-        w = np.sqrt(self.weights / V)
+        w = np.sqrt(weights / V)
         r_p = w * (y - mu)
         return r_p
     
@@ -98,7 +98,7 @@ class ExponentialFamily(object):
     def signed_resid(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         mu = self._to_mean(eta=eta, T=T) if mu is None else mu
         y, mu = self.cshape(y, mu)
-        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion)
+        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
 
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 8a681ee..2809afe 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -116,7 +116,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         return chi2
 
     def signed_resid(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion)
+        d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         r_s = np.sign(y - mu) * np.sqrt(d)
         return r_s
 
-- 
2.43.0


From 4502be24defdbded04c51f89a4c0bf954b99183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 023/219] fix: pyglm2 get_ehw applied the prior weights twice

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 2809afe..44e1839 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -171,7 +171,7 @@ class ExponentialFamily(metaclass=ABCMeta):
     def get_ehw(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         den = self.variance(mu=mu, weights=weights, phi=phi, dispersion=dispersion) 
         den = den * self.dlink(mu)**2
-        w = weights / den
+        w = 1.0 / den
         return w
 
     def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-- 
2.43.0


From b9f7d5230f88ed7db729d64536867f06dab59dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 024/219] fix: pyglm2 get_g, get_w and the weight derivatives
 called methods that do not exist

---
 pystatsm/pyglm2/families.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 44e1839..9ed1971 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -158,11 +158,11 @@ class ExponentialFamily(metaclass=ABCMeta):
         return a
 
     def get_g(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        g = self.dlink(mu) / self._get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
+        g = self.dlink(mu) / self.get_a(y=y, mu=mu, phi=phi, dispersion=dispersion)
         return g
     
     def get_w(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
-        a = self._get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
+        a = self.get_a(y=y, mu=mu, weights=weights, phi=phi, dispersion=dispersion)
         v = self.var_func(mu, dispersion)
         dmu = self.dlink(mu)
         res = a / (dmu**2 * v)
@@ -174,8 +174,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         w = 1.0 / den
         return w
 
-    def da_dmu(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
+    def da_dmu(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         V0, V1, V2 = self.var_derivs(mu, dispersion, 2)
         g1, g2, g3 = self.dlink(mu), self.d2link(mu), self.d3link(mu)
         u = (V1 / V0 + g2 / g1)
@@ -183,8 +182,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         res = (y - mu) * v - u
         return res
 
-    def d2a_dmu2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
+    def d2a_dmu2(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1 = self.dlink(mu)
         g2 = self.d2link(mu)
@@ -196,8 +194,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         res = (y - mu) * (v1 + v2) - 2.0 * u
         return res
 
-    def dw_deta(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
+    def dw_deta(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         a0 = self.get_a(y=y, mu=mu, dispersion=dispersion)
         a1 = self.da_dmu(y=y, mu=mu, dispersion=dispersion)
         w = self.get_w(y=y, mu=mu, dispersion=dispersion)
@@ -206,8 +203,7 @@ class ExponentialFamily(metaclass=ABCMeta):
         res = (w / g1) * (a1 / a0 - V1 / V0 - 2.0 * g2 / g1)
         return res
 
-    def d2w_deta2(self, y, mu=None, weights=None, phi=1.0, dispersion=1.0, **kwargs):
-        y, mu, weights = self._check_args(**dict(y=y, mu=mu, weights=weights, **kwargs))
+    def d2w_deta2(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         V0, V1, V2, V3 = self.var_derivs(mu, dispersion, 3)
         g1, g2, g3, g4 = self.dlink(mu), self.d2link(mu), self.d3link(mu), self.d4link(mu)
         g21 = g2 / g1
-- 
2.43.0


From b313206564b5386134e6224096e492b12e46c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 025/219] fix: pyglm2 InverseGaussian.d2llscale had the wrong
 sign

---
 pystatsm/pyglm2/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 9ed1971..3d5832a 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -404,7 +404,7 @@ class InverseGaussian(ExponentialFamily):
 
     def d2llscale(self, phi, y):
         ls2 = -len(y) / (2.0 * phi**2)
-        return -ls2
+        return ls2
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-- 
2.43.0


From 065ff2014213b65df695f407db5be62c53da7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 026/219] fix: InverseGaussian rvs and ppf used the wrong scale
 (and ppf a shifted Wald law)

---
 pystatsm/pyglm/families.py  | 4 ++--
 pystatsm/pyglm2/families.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 8dbc63c..2ba800a 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -425,10 +425,10 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0 / phi)
 
     def ppf(self, q, mu, phi=1.0):
-        return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
+        return sp.stats.invgauss(mu * phi, scale=1.0 / phi).ppf(q)
 
 
 class Gamma(ExponentialFamily):
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 3d5832a..4441653 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -408,10 +408,10 @@ class InverseGaussian(ExponentialFamily):
 
     def rvs(self, mu, phi=1.0, rng=None, seed=None):
         rng = np.random.default_rng(seed) if rng is None else rng
-        return rng.wald(mean=mu, scale=np.sqrt(phi))
+        return rng.wald(mean=mu, scale=1.0 / phi)
 
     def ppf(self, q, mu, phi=1.0):
-        return sp.stats.wald(loc=mu, scale=np.sqrt(phi)).ppf(q)
+        return sp.stats.invgauss(mu * phi, scale=1.0 / phi).ppf(q)
 
 
 class Gamma(ExponentialFamily):
-- 
2.43.0


From 76368042ea2d87e926e0f2dd208bc77286f36cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 027/219] fix: Poisson.ppf always raised (scipy's poisson takes
 no scale)

---
 pystatsm/pyglm/families.py  | 2 +-
 pystatsm/pyglm2/families.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 2ba800a..41a2f05 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -758,7 +758,7 @@ class Poisson(ExponentialFamily):
         return y
 
     def ppf(self, q, mu, scale=1.0):
-        return sp.stats.poisson(mu=mu, scale=np.sqrt(scale)).ppf(q)
+        return sp.stats.poisson(mu=mu).ppf(q)
 
 
 class Binomial(ExponentialFamily):
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 4441653..6472eda 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -704,7 +704,7 @@ class Poisson(ExponentialFamily):
         return y
 
     def ppf(self, q, mu, scale=1.0):
-        return sp.stats.poisson(mu=mu, scale=np.sqrt(scale)).ppf(q)
+        return sp.stats.poisson(mu=mu).ppf(q)
 
 
 class Binomial(ExponentialFamily):
-- 
2.43.0


From a8bca30ca95b0eec2d648b8087fe5dd741b2b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 028/219] fix: canonical parameter of the inverse Gaussian and
 d2canonical of the Gaussian and inverse Gaussian

---
 pystatsm/pyglm/families.py | 6 +++---
 pystatsm/pylmm/families.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index 41a2f05..b0eeb39 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -269,7 +269,7 @@ class Gaussian(ExponentialFamily):
         return V
     
     def d2canonical(self, mu, dispersion=1.0):
-        res = 0.0*mu+1.0
+        res = 0.0*mu
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
@@ -351,7 +351,7 @@ class InverseGaussian(ExponentialFamily):
         return llf
 
     def canonical_parameter(self, mu, dispersion=1.0):
-        T = 1.0 / (np.power(mu, 2.0))
+        T = -0.5 / (np.power(mu, 2.0))
         return T
 
     def cumulant(self, T, dispersion=1.0):
@@ -368,7 +368,7 @@ class InverseGaussian(ExponentialFamily):
         return V
 
     def d2canonical(self, mu, dispersion=1.0):
-        res = 3.0 / (np.power(mu, 4))
+        res = -3.0 / (np.power(mu, 4))
         return res
 
     def deviance(self, y, weights=None, T=None, mu=None, eta=None, phi=1.0, dispersion=1.0):
diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 817da41..2317718 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -149,7 +149,7 @@ class Gaussian(ExponentialFamily):
         return V
                 
     def d2canonical(self, mu):
-        res = 0.0*mu+1.0
+        res = 0.0*mu
         return res
     
     def deviance(self, y, T=None, mu=None, eta=None, scale=1.0):
@@ -200,7 +200,7 @@ class InverseGaussian(ExponentialFamily):
 
     
     def canonical_parameter(self, mu):
-        T = 1.0 / (np.power(mu, 2.0))
+        T = -0.5 / (np.power(mu, 2.0))
         return T
     
     def cumulant(self, T):
@@ -219,7 +219,7 @@ class InverseGaussian(ExponentialFamily):
         return V
                 
     def d2canonical(self, mu):
-        res = 3.0 / (FOUR_SQRT2 * np.power(-mu, 2.5))
+        res = -3.0 / np.power(mu, 4)
         return res
     
     def deviance(self, y, T=None, mu=None, eta=None, scale=1.0):
-- 
2.43.0


From fdac2dc1ff9564ef3e645b875679f4edb141004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 029/219] fix: negative binomial mean_func and cumulant did not
 match its canonical parameter

---
 pystatsm/pyglm/families.py | 4 ++--
 pystatsm/pylmm/families.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index b0eeb39..fcf68e4 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -572,12 +572,12 @@ class NegativeBinomial(ExponentialFamily):
         return T
 
     def cumulant(self, T, dispersion=1.0):
-        b = (-1.0 / dispersion) * np.log(1 - dispersion * np.exp(T))
+        b = (-1.0 / dispersion) * np.log(1 - np.exp(T))
         return b
 
     def mean_func(self, T, dispersion=1.0):
         u = np.exp(T)
-        mu = -1.0 / dispersion * (u / (1 - u))
+        mu = 1.0 / dispersion * (u / (1 - u))
         return mu
 
     def var_func(self, T=None, mu=None, eta=None, dispersion=1.0):
diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 2317718..3b1d34a 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -362,12 +362,12 @@ class NegativeBinomial(ExponentialFamily):
         return T
     
     def cumulant(self, T, scale=1.0):
-        b = (-1.0 / scale) * np.log(1 - scale * np.exp(T))
+        b = (-1.0 / scale) * np.log(1 - np.exp(T))
         return b
     
     def mean_func(self, T, scale=1.0):
         u = np.exp(T)
-        mu = -1.0 / scale * (u / (1 - u))
+        mu = 1.0 / scale * (u / (1 - u))
         return mu
     
     def var_func(self, T=None, mu=None, eta=None, scale=1.0):
-- 
2.43.0


From b36f8720c554c711732833f8c7180d18caefd19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 030/219] fix: pylmm d2tau of the Gaussian and inverse Gaussian
 was half the derivative of dtau

---
 pystatsm/pylmm/families.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 3b1d34a..7d972d5 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -172,7 +172,7 @@ class Gaussian(ExponentialFamily):
         y, mu = self.cshape(y, mu)
         w = self.weights
         phi = np.exp(tau)
-        g = np.sum(w * np.power((y - mu), 2) / (2 * phi))
+        g = np.sum(w * np.power((y - mu), 2) / phi)
         return g
         
 
@@ -244,7 +244,7 @@ class InverseGaussian(ExponentialFamily):
         y, mu = self.cshape(y, mu)
         w = self.weights
         phi = np.exp(tau)
-        g = np.sum(w * np.power((y - mu), 2) / (2 * phi * y * mu**2))
+        g = np.sum(w * np.power((y - mu), 2) / (phi * y * mu**2))
         return g
 
 
-- 
2.43.0


From 4216c4181025928b48742daaa016a1012e9b52fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 031/219] fix: pylmm InverseGaussian log-likelihood used y^2
 for y^3

---
 pystatsm/pylmm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 7d972d5..927a50f 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -190,7 +190,7 @@ class InverseGaussian(ExponentialFamily):
         w = self.weights / scale
         
         ll = w * np.power((y - mu), 2) / (y * mu**2)
-        ll+= np.log((scale * y**2) / self.weights)
+        ll+= np.log((scale * y**3) / self.weights)
         return ll
     
     def _full_loglike(self, y, eta=None, mu=None, T=None, scale=1.0):
-- 
2.43.0


From 1b7e77f1cd54301cb55177f25a0c9894f283f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 032/219] fix: pylmm ExponentialFamily.d2link always raised

---
 pystatsm/pylmm/families.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 927a50f..574eb42 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -55,7 +55,7 @@ class ExponentialFamily(object):
         return 1.0 / self.dinv_link(self.link(mu))
     
     def d2link(self, mu):
-        eta = self.link.link(mu)
+        eta = self.link(mu)
         res = -self.d2inv_link(eta) / np.power(self.dinv_link(eta), 3)
         return res
     
-- 
2.43.0


From 6ac31ba9a7357c1a54e60f52515add3afdea9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 033/219] fix: pylmm NegativeBinomial dtau and d2tau were not
 derivatives of its log-likelihood

---
 pystatsm/pylmm/families.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 574eb42..4ced7e4 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -402,7 +402,7 @@ class NegativeBinomial(ExponentialFamily):
         y, mu = self.cshape(y, mu)
         w = self.weights
         phi = np.exp(tau)
-        A = phi * (y - mu) / ((1 + phi) * mu)
+        A = phi * (y - mu) / (1 + phi * mu)
         T0 = sp.special.digamma(y + 1 / phi)
         T1 = np.log(1+phi*mu)
         T2 = sp.special.digamma(1 / phi)
@@ -416,9 +416,9 @@ class NegativeBinomial(ExponentialFamily):
         v = 1/phi
         T0 = v*np.log(1+phi*mu)
         T1 = v*(sp.special.digamma(y+v) - sp.special.digamma(v))
-        T2 = v**2 * (sp.special.polygamma(2, y+v)-sp.special.polygamma(2, v))
-        A = -y*phi*mu+mu+2*phi*mu**2 / ((1+phi*mu)**2)
-        g = np.sum(w / phi * (T0 - A - T1 - T2))
+        T2 = v**2 * (sp.special.polygamma(1, y+v)-sp.special.polygamma(1, v))
+        A = (-y*phi*mu+mu+2*phi*mu**2) / ((1+phi*mu)**2)
+        g = np.sum(w * (T0 - A - T1 - T2))
         return g
 
     
-- 
2.43.0


From 41807a0d750e3a320c45a70ad8343034de4b5950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 034/219] fix: start values of pyglm GLM gamma and inverse
 Gaussian models raised for one-dimensional responses

---
 pystatsm/pyglm/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 8406d24..e9d59d6 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -59,8 +59,9 @@ class GLM:
                 mu0 = (self.Y + self.Y.mean()) / 2.0
             else:
                 mu0 = self.Y
+            mu0 = _check_shape(mu0, 1)
             nu, gp, vmu = self.f.link(mu0), self.f.dlink(mu0), self.f.var_func(mu=mu0)
-            w = 1 / (vmu[:, None] * gp**2)
+            w = (1 / (vmu * gp**2))[:, None]
             b0 = np.linalg.solve((self.X * w).T.dot(self.X), (self.X * w).T.dot(nu))
             self.theta_init = _check_shape(b0, 1)
         
-- 
2.43.0


From f4e7c018cdd4598ba4cda70385bcdabbdea7fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 035/219] fix: GLM Hessian of a weighted negative binomial
 ignored the weights in the dispersion block

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/glm.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 065acb8..ba23762 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1606,7 +1606,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 4834eb5..09d84d9 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -215,7 +215,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         gw, hw = f.get_ghw(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         H = np.dot((X * hw.reshape(-1, 1)).T, X)
         if isinstance(f, NegativeBinomial) or f.name=="NegativeBinomial":
-            dbdt = -np.dot(X.T, dispersion * (y - mu) /
+            dbdt = -np.dot(X.T, weights * dispersion * (y - mu) /
                            ((1 + dispersion * mu)**2 * f.dlink(mu)))
         else:
             dbdt = np.dot(X.T, gw)
-- 
2.43.0


From 702ddda25cfc58f75ca00b61f81f0de1f0c3c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:36 +0000
Subject: [PATCH 036/219] fix: pyglm GLM.hessian with other data used the
 model's own data for the scale cross term

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index e9d59d6..7e27d5b 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -156,7 +156,7 @@ class GLM:
         H = (X.T * w).dot(X)
         if self.scale_handling == 'NR':
             d2t = np.atleast_2d(self.f.d2tau(tau, Y, mu))
-            dbdt = -np.atleast_2d(self.gradient(params)[:-1])
+            dbdt = -np.atleast_2d(self.gradient(params, X=X, Y=Y)[:-1])
             H = np.block([[H, dbdt.T], [dbdt, d2t]])
         return H 
     
-- 
2.43.0


From 9d8e1ff0951e8e0f4e9ce73e36a0b09cbca8a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 037/219] fix: moment estimate of the GLM scale ignored the
 weights, so standard errors did not match phi

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/glm.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index ba23762..026fe41 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1526,7 +1526,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             dispersion = 1.0
         
         if scale_estimator == "M":
-            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion) / (X.shape[0] - X.shape[1])
+            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion, weights=weights) / (X.shape[0] - X.shape[1])
         elif scale_estimator != "NR":
             phi = 1.0
         return X, y, weights, mu, beta, phi, tau, dispersion
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 09d84d9..1b9fa75 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -135,7 +135,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             dispersion = 1.0
 
         if scale_estimator == "M":
-            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion) / (X.shape[0] - X.shape[1])
+            phi = f.pearson_chi2(y, mu=mu, dispersion=dispersion, weights=weights) / (X.shape[0] - X.shape[1])
         elif scale_estimator != "NR":
             phi = 1.0
         return X, y, weights, mu, beta, phi, tau, dispersion
-- 
2.43.0


From 55c22513b6d5a67f6299aa435ec72bacd1898caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 038/219] fix: GLM.fit of a negative binomial with
 scale_estimator M or fixed always raised in the null model

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/glm.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 026fe41..affb0da 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1755,7 +1755,7 @@ class GLM(RegressionMixin, LikelihoodModel):
                                             "Cooks"])
 
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
-        if self.f.name == "NegativeBinomial":
+        if self.f.name == "NegativeBinomial" and scale_estimator == "NR":
             opt_null = self._optimize(t_init=np.zeros(
                 2), data=(np.ones((self.n, 1)), self.y, None))
             self.lln = self.full_loglike(
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 1b9fa75..2f5bc8a 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -366,7 +366,7 @@ class GLM(RegressionMixin, LikelihoodModel):
                                             "Cooks"])
 
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
-        if self.f.name == "NegativeBinomial":
+        if self.f.name == "NegativeBinomial" and scale_estimator == "NR":
             opt_null = self._optimize(t_init=np.zeros(
                 2), data=(np.ones((self.n, 1)), self.y, 1.0))
             self.lln = self.full_loglike(
-- 
2.43.0


From 5cd9931d19f04f1ae524e4182016a794bbff8f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 039/219] fix: GLM null-model log-likelihood ignored the
 weights

---
 pystatsm/pyglm/linear_model.py | 5 +++--
 pystatsm/pyglm2/glm.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index affb0da..6413911 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1757,12 +1757,13 @@ class GLM(RegressionMixin, LikelihoodModel):
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         if self.f.name == "NegativeBinomial" and scale_estimator == "NR":
             opt_null = self._optimize(t_init=np.zeros(
-                2), data=(np.ones((self.n, 1)), self.y, None))
+                2), data=(np.ones((self.n, 1)), self.y, weights))
             self.lln = self.full_loglike(
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*y.mean(), phi=phi, weights=weights)
+                y, mu=np.full(mu.shape, np.average(y, weights=np.broadcast_to(weights, y.shape))),
+                phi=phi, dispersion=dispersion, weights=weights)
 
         k = len(self.params)
         sumstats = {}
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 2f5bc8a..40c02aa 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -368,12 +368,13 @@ class GLM(RegressionMixin, LikelihoodModel):
         self.llf = self.f.full_loglike(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
         if self.f.name == "NegativeBinomial" and scale_estimator == "NR":
             opt_null = self._optimize(t_init=np.zeros(
-                2), data=(np.ones((self.n, 1)), self.y, 1.0))
+                2), data=(np.ones((self.n, 1)), self.y, weights))
             self.lln = self.full_loglike(
                 opt_null.x, data=(np.ones((self.n, 1)), self.y, weights))
         else:
             self.lln = self.f.full_loglike(
-                y, mu=np.ones(mu.shape[0])*y.mean(), phi=phi, weights=weights)
+                y, mu=np.full(mu.shape, np.average(y, weights=np.broadcast_to(weights, y.shape))),
+                phi=phi, dispersion=dispersion, weights=weights)
 
         k = len(self.params)
         sumstats = {}
-- 
2.43.0


From f8ec2916d911eff8c77f45dc5cf75d3690cb397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 040/219] fix: parameter-adjusted pseudo R-squares rewarded
 extra parameters (sign of the penalty)

---
 pystatsm/pyglm/linear_model.py      | 2 +-
 pystatsm/pyglm2/likelihood_model.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 6413911..0de1f17 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -191,7 +191,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         llr = 2.0 * (ll_null - ll_model)
         return r2_cs, r2_nk, r2_mc, r2_mb, llr
 
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 8a08a6b..9033e52 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -181,9 +181,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         r2_cs = 1-np.exp(2.0/n_obs * (ll_model - ll_null))
         r2_nk = r2_cs / (1-np.exp(2.0 / n_obs * -ll_null))
         r2_mc = 1.0 - ll_model / ll_null
-        r2_mb = 1.0 - (ll_model - n_params) / ll_null
+        r2_mb = 1.0 - (ll_model + n_params) / ll_null
         r2_es = 1.0 - np.exp((2*ll_null/n_obs) * np.log(1.0-2.0*(ll_null - ll_model) / (2 * ll_null)))
-        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((n_params - ll_model) / -ll_null))
+        r2_ea = 1.0 - np.exp((2*ll_null/n_obs) * np.log((n_params + ll_model) / ll_null))
         r2_an = 2.0 * (ll_null - ll_model) / (2.0 * (ll_null - ll_model) + n_obs)
         r2_vz = (2.0 * (ll_null - ll_model) * (2*ll_null+n_obs)) /\
                 (2.0 * (ll_null * (2 * (ll_null - ll_model) + n_obs)))
-- 
2.43.0


From e37be4244c426004c444df51e0b3f0896225a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 041/219] fix: pyglm GLM reported an AIC with a penalty of k
 instead of 2k

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 7e27d5b..c1f9502 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -279,7 +279,7 @@ class GLM:
         k = len(params)
         N = self.X.shape[0]
         sumstats = {}
-        sumstats['aic'] = 2*llf + k
+        sumstats['aic'] = 2*llf + 2*k
         sumstats['aicc'] = 2*llf + (2 * k * N) / (N - k - 1)
         sumstats['bic'] = 2*llf + np.log(N)*k
         sumstats['caic'] = 2*llf + k*(np.log(N) + 1.0)
-- 
2.43.0


From 9787752995bbae1ea49657bf884d27320c805a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 042/219] fix: pyglm GLM adjusted McFadden R-square had the
 wrong penalty

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index c1f9502..8cf1563 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -293,7 +293,7 @@ class GLM:
         LLR = 2*(lln - llf)
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
         sumstats['PseudoR2_MCF'] = 1 - self.LLA / self.LL0
-        sumstats['PseudoR2_MCFA'] = 1 - (self.LLA - k) / self.LL0
+        sumstats['PseudoR2_MCFA'] = 1 - (llf + k) / lln
         sumstats['PseudoR2_MFA'] =  (LLR) / (LLR + N)
         
         self.sumstats = pd.DataFrame(sumstats, index=['Fit Statistic']).T
-- 
2.43.0


From b39df3e97c974c5b7d7923f3b985ad3b7cd9d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 043/219] fix: GLM._predict passed the variance to ppf under a
 name it does not accept

---
 pystatsm/pyglm/linear_model.py | 11 ++++++++---
 pystatsm/pyglm2/glm.py         | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 0de1f17..522bf2e 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1844,11 +1844,16 @@ class GLM(RegressionMixin, LikelihoodModel):
 
         if predicted_ci:
             predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-            v = f.variance(mu=mu, phi=phi, dispersion=dispersion)
+            if f.name == "NegativeBinomial":
+                kws = dict(dispersion=dispersion)
+            elif f.name in ["Poisson", "Binomial"]:
+                kws = {}
+            else:
+                kws = dict(phi=phi)
             res["predicted_lower_ci"] = f.ppf(
-                1-predicted_ci_level, mu=mu, scale=v)
+                1-predicted_ci_level, mu=mu, **kws)
             res["predicted_upper_ci"] = f.ppf(
-                predicted_ci_level, mu=mu, scale=v)
+                predicted_ci_level, mu=mu, **kws)
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 40c02aa..0a3a32c 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -462,11 +462,16 @@ class GLM(RegressionMixin, LikelihoodModel):
 
         if predicted_ci:
             predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-            v = f.variance(mu=mu, phi=phi, dispersion=dispersion)
+            if f.name == "NegativeBinomial":
+                kws = dict(dispersion=dispersion)
+            elif f.name in ["Poisson", "Binomial"]:
+                kws = {}
+            else:
+                kws = dict(phi=phi)
             res["predicted_lower_ci"] = f.ppf(
-                1-predicted_ci_level, mu=mu, scale=v)
+                1-predicted_ci_level, mu=mu, **kws)
             res["predicted_upper_ci"] = f.ppf(
-                predicted_ci_level, mu=mu, scale=v)
+                predicted_ci_level, mu=mu, **kws)
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-- 
2.43.0


From 45a3fddb24846c87f2589bc94c497396eb85f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 044/219] fix: pyglm GLM prediction standard error was the
 variance

---
 pystatsm/pyglm/linear_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 522bf2e..0674b78 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1821,7 +1821,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         res = {}
         eta = np.dot(X, coefs)
         if linpred_se or mean_ci:
-            eta_se = wdiag_outer_prod(X, coefs_cov, X)
+            eta_se = np.sqrt(wdiag_outer_prod(X, coefs_cov, X))
 
         if mean or mean_ci or predicted_ci:
             mu = f.inv_link(eta)
-- 
2.43.0


From be204f53006e14153c3f469937916f2effc03d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 045/219] fix: GLM leverage and residuals ignored the weights

---
 pystatsm/pyglm/linear_model.py | 12 ++++++++----
 pystatsm/pyglm2/glm.py         | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 0674b78..e445305 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1713,13 +1713,17 @@ class GLM(RegressionMixin, LikelihoodModel):
             phi = 1.0
         self.phi = phi
         self.dispersion = dispersion
-        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion).reshape(-1, 1))
+        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion,
+                                   weights=weights).reshape(-1, 1))
         h = self._compute_leverage_qr(WX)
 
         self.resid_raw = y - mu
-        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
+        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                           weights=weights)
+        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                           weights=weights)
+        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                           weights=weights)
 
         self.resid_pearson_s = self.resid_pearson / np.sqrt(phi)
         self.resid_pearson_sst = self.resid_pearson_s / np.sqrt(1 - h)
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 0a3a32c..9579c6f 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -324,13 +324,17 @@ class GLM(RegressionMixin, LikelihoodModel):
             phi = 1.0
         self.phi = phi
         self.dispersion = dispersion
-        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion).reshape(-1, 1))
+        WX = X * np.sqrt(f.get_ehw(y, mu, phi=phi, dispersion=dispersion,
+                                   weights=weights).reshape(-1, 1))
         h = self._compute_leverage_qr(WX)
 
         self.resid_raw = y - mu
-        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
-        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion)
+        self.resid_pearson = self.f.pearson_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                           weights=weights)
+        self.resid_deviance = self.f.deviance_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                           weights=weights)
+        self.resid_signed = self.f.signed_resid(y, mu=mu, phi=1.0, dispersion=dispersion,
+                                           weights=weights)
 
         self.resid_pearson_s = self.resid_pearson / np.sqrt(phi)
         self.resid_pearson_sst = self.resid_pearson_s / np.sqrt(1 - h)
-- 
2.43.0


From 71311ee27fb394c2a668e0e1ddcd2ab33345b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 046/219] fix: robust GLM standard errors ignored the weights

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/glm.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index e445305..ec54a28 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1805,7 +1805,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=self.model_data,
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 9579c6f..83d0574 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -423,7 +423,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         
     def get_robust_res(self, grad_kws=None):
         default_kws = dict(params=self.params,
-                           data=(self.X, self.y, self.f.weights), 
+                           data=self.model_data,
                            scale_estimator=self.scale_estimator,
                            f=self.f)
         grad_kws = handle_default_kws(grad_kws, default_kws)
-- 
2.43.0


From f4509f53f2de43e982458e6c716fe7edf806e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 047/219] fix: GLM jackknife and bootstrap ignored the weights

---
 pystatsm/pyglm/linear_model.py | 8 ++------
 pystatsm/pyglm2/glm.py         | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index ec54a28..5766b15 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1861,10 +1861,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        weights = np.broadcast_to(self.weights, self.n_obs)
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
@@ -1894,8 +1891,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
-        w = weights if type(weights) is np.ndarray else np.ones(n)
+        w = np.broadcast_to(self.weights, n)
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot) if verbose else None
         boot_samples = np.zeros((n_boot, q))
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 83d0574..20d0334 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -479,10 +479,7 @@ class GLM(RegressionMixin, LikelihoodModel):
         return res
     
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        weights = np.broadcast_to(self.weights, self.n_obs)
         if method == "optimize":
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
@@ -512,8 +509,7 @@ class GLM(RegressionMixin, LikelihoodModel):
     def _bootstrap(self, n_boot=1000, verbose=True, return_info=False, rng=None):
         rng = np.random.default_rng() if rng is None else rng 
         n, q = self.n_obs, self.n_params
-        weights = self.f.weights
-        w = weights if type(weights) is np.ndarray else np.ones(n)
+        w = np.broadcast_to(self.weights, n)
         X, y = self.X, self.y
         pbar = tqdm.tqdm(total=n_boot, smoothing=1e-6) if verbose else None
         boot_samples = np.zeros((n_boot, q))
-- 
2.43.0


From 7103df34a10a4a79ef85e8f292a328d7b2f92926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 048/219] fix: pyglm GLM bootstrap raised when not verbose

---
 pystatsm/pyglm/linear_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 5766b15..ac39c9b 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1899,7 +1899,8 @@ class GLM(RegressionMixin, LikelihoodModel):
             ii = rng.choice(n, size=n, replace=True)
             opt = self._optimize(data=(X[ii], y[ii], w[ii]), f=self.f)
             boot_samples[i] = opt.x
-            pbar.update(1)
+            if verbose:
+                pbar.update(1)
         if verbose:
             pbar.close()
         boot_samples = pd.DataFrame(boot_samples,columns=self.param_labels)
-- 
2.43.0


From 9591ead8879e64f811478e07f222222141705edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 049/219] fix: one-step GLM jackknife used the weights instead
 of their square roots

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/glm.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index ac39c9b..9f40241 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1879,7 +1879,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
                                dispersion=self.dispersion,
                                weights=weights).reshape(-1, 1)
-            WX = self.X * w
+            WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
             one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
             jacknife_samples = self.params.reshape(1, -1) - one_step
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 20d0334..91b8d35 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -497,7 +497,7 @@ class GLM(RegressionMixin, LikelihoodModel):
             w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
                                dispersion=self.dispersion,
                                weights=weights).reshape(-1, 1)
-            WX = self.X * w
+            WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
             one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
             jacknife_samples = self.params.reshape(1, -1) - one_step
-- 
2.43.0


From 613740d3433cc81c0150e332e0e5861ca97d528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:47 +0000
Subject: [PATCH 050/219] fix: one-step GLM jackknife divided by sqrt(1 - h)
 instead of 1 - h

---
 pystatsm/pyglm/linear_model.py | 2 +-
 pystatsm/pyglm2/glm.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 9f40241..bd1c89c 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1881,7 +1881,7 @@ class GLM(RegressionMixin, LikelihoodModel):
                                weights=weights).reshape(-1, 1)
             WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
-            one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
+            one_step = self._one_step_approx(WX, h, self.resid_pearson_sst)
             jacknife_samples = self.params.reshape(1, -1) - one_step
         jacknife_samples = pd.DataFrame(jacknife_samples, index=self.xinds,
                                         columns=self.param_labels)
diff --git a/pystatsm/pyglm2/glm.py b/pystatsm/pyglm2/glm.py
index 91b8d35..0b19c2b 100644
--- a/pystatsm/pyglm2/glm.py
+++ b/pystatsm/pyglm2/glm.py
@@ -499,7 +499,7 @@ class GLM(RegressionMixin, LikelihoodModel):
                                weights=weights).reshape(-1, 1)
             WX = self.X * np.sqrt(w)
             h = self._compute_leverage_qr(WX)
-            one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
+            one_step = self._one_step_approx(WX, h, self.resid_pearson_sst)
             jacknife_samples = self.params.reshape(1, -1) - one_step
         jacknife_samples = pd.DataFrame(jacknife_samples, index=self.xinds,
                                         columns=self.param_labels)
-- 
2.43.0


From b1f9a160920d98401625b242a71c12db9f1708bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:47 +0000
Subject: [PATCH 051/219] fix: pyglm GLM null-model log-likelihood ignored the
 weights

---
 pystatsm/pyglm/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 8cf1563..3c2c52c 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -272,7 +272,8 @@ class GLM:
         self.phi = phi
         
         llf = self.f.full_loglike(y, mu=mu, phi=phi)
-        lln = self.f.full_loglike(y, mu=np.ones(mu.shape[0])*y.mean(), 
+        ybar = np.average(y, weights=np.broadcast_to(self.f.weights, y.shape))
+        lln = self.f.full_loglike(y, mu=np.ones(mu.shape[0])*ybar,
                                   phi=phi)
         self.LLA = llf*2.0
         self.LL0 = lln*2.0
-- 
2.43.0


From 8ca13ca92527d871295d7924a90654d02fd00dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:47 +0000
Subject: [PATCH 052/219] fix: pyglm GLM Pearson residuals multiplied by the
 weights instead of their square roots

---
 pystatsm/pyglm/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 3c2c52c..6f8e327 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -259,7 +259,7 @@ class GLM:
         self.params = params
         mu = self.predict(params, kind="mean")
         y, mu = self.f.cshape(self.Y, mu)
-        presid = self.f.weights * (y - mu) / np.sqrt(self.f.var_func(mu=mu))
+        presid = np.sqrt(self.f.weights) * (y - mu) / np.sqrt(self.f.var_func(mu=mu))
         self.pearson_resid = presid
         self.mu = mu
         self.y = y
-- 
2.43.0


From d97573a02773c8a202a2e2e77ec40598a39832a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 053/219] fix: pyglm GLM with a moment scale optimised an
 objective its gradient did not match and stopped early

---
 pystatsm/pyglm/linear_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index bd1c89c..5d6440f 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1629,6 +1629,8 @@ class GLM(RegressionMixin, LikelihoodModel):
         t_init = self.params_init if t_init is None else t_init
         data = self.model_data if data is None else data #(self.X, self.y, None) if data is None else data
         s = self.scale_estimator if s is None else s
+        if s=="M":
+            s = "fixed"
         f = self.f if f is None else f
         opt_kws = {} if opt_kws is None else opt_kws
         default_kws = dict(method='trust-constr',
-- 
2.43.0


From 312d31dbae951a65fe964f84f428faada5b2479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 054/219] fix: pyglm.glm.GLM with a moment scale optimised an
 objective its gradient did not match and stopped early

---
 pystatsm/pyglm/glm.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pystatsm/pyglm/glm.py b/pystatsm/pyglm/glm.py
index 6f8e327..c57d07b 100644
--- a/pystatsm/pyglm/glm.py
+++ b/pystatsm/pyglm/glm.py
@@ -168,6 +168,13 @@ class GLM:
         
     
     def _fit_optim(self, opt_kws=None, t_init=None, X=None, Y=None):
+        if self.scale_handling == 'M':
+            # the moment estimate of the scale does not affect the optimum
+            self.scale_handling = 'fixed'
+            try:
+                return self._fit_optim(opt_kws, t_init, X, Y)
+            finally:
+                self.scale_handling = 'M'
         if t_init is None:
             t_init = self.theta_init
         opt_kws = {} if opt_kws is None else opt_kws
@@ -201,6 +208,12 @@ class GLM:
             
     
     def _fit_manual(self, theta=None):
+        if self.scale_handling == 'M':
+            self.scale_handling = 'fixed'
+            try:
+                return self._fit_manual(theta)
+            finally:
+                self.scale_handling = 'M'
 
         if theta is None:
             theta = self.theta_init
-- 
2.43.0


From 90215f6f6a147090064ab59e12124bb71fa5ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:45 +0000
Subject: [PATCH 055/219] fix: deviance residuals of perfectly fitted rows were
 NaN when the deviance rounded below zero

---
 pystatsm/pyglm/families.py  | 4 ++--
 pystatsm/pyglm2/families.py | 4 ++--
 pystatsm/pylmm/families.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index fcf68e4..ebf4e8b 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -99,14 +99,14 @@ class ExponentialFamily(object):
         mu = self._to_mean(eta=eta, T=T) if mu is None else mu
         y, mu = self.cshape(y, mu)
         d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
-        r_s = np.sign(y - mu) * np.sqrt(d)
+        r_s = np.sign(y - mu) * np.sqrt(np.maximum(d, 0.0))
         return r_s
 
     def deviance_resid(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
         mu = self._to_mean(eta=eta, T=T) if mu is None else mu
         weights = self.weights if weights is None else weights
         d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
-        r = np.sign(y - mu) * np.sqrt(d)
+        r = np.sign(y - mu) * np.sqrt(np.maximum(d, 0.0))
         return r
 
     def gw(self, y, mu, phi=1.0, dispersion=1.0, weights=None):
diff --git a/pystatsm/pyglm2/families.py b/pystatsm/pyglm2/families.py
index 6472eda..bc439c9 100644
--- a/pystatsm/pyglm2/families.py
+++ b/pystatsm/pyglm2/families.py
@@ -117,12 +117,12 @@ class ExponentialFamily(metaclass=ABCMeta):
 
     def signed_resid(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
-        r_s = np.sign(y - mu) * np.sqrt(d)
+        r_s = np.sign(y - mu) * np.sqrt(np.maximum(d, 0.0))
         return r_s
 
     def deviance_resid(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
         d = self.deviance(y, mu=mu, phi=phi, dispersion=dispersion, weights=weights)
-        r = np.sign(y - mu) * np.sqrt(d)
+        r = np.sign(y - mu) * np.sqrt(np.maximum(d, 0.0))
         return r
 
     def gw(self, y, mu, weights=1.0, phi=1.0, dispersion=1.0):
diff --git a/pystatsm/pylmm/families.py b/pystatsm/pylmm/families.py
index 4ced7e4..78e1f11 100644
--- a/pystatsm/pylmm/families.py
+++ b/pystatsm/pylmm/families.py
@@ -83,7 +83,7 @@ class ExponentialFamily(object):
             mu = self._to_mean(eta=eta, T=T)
         y, mu = self.cshape(y, mu)
         d = self.deviance(y, mu=mu)
-        r_s = np.sign(y - mu) * np.sqrt(d)
+        r_s = np.sign(y - mu) * np.sqrt(np.maximum(d, 0.0))
         return r_s
     
     def gw(self, y, mu, phi=1.0):
-- 
2.43.0


From 1fe6b9207781e8e70d2fb6c4aa806bdbe1901bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:28 +0000
Subject: [PATCH 056/219] fix: OLS.permutation_test with stored samples
 compared signed t values and mixed up the axes of the FWER comparison

---
 pystatsm/pyglm/ols.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index cb34e74..02159f2 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -218,8 +218,8 @@ class OLS:
         L, Linv, X, y = self.L, self.Linv, self.X, self.y
         if store_samples:
             t_samples = self._permutation_test_store(n_perms, L, Linv, X, y, verbose)
-            abst = t_samples
-            p_values_fwer = (abst.max(axis=1)>np.abs(self.tvalues)).sum(axis=0)/n_perms
+            abst = np.abs(t_samples)
+            p_values_fwer = (abst.max(axis=1)[:, None]>np.abs(self.tvalues)).sum(axis=0)/n_perms
             p_values = (abst > np.abs(self.tvalues)).sum(axis=0) / n_perms
         else:
             p_values_fwer, p_values =  self._permutation_test(n_perms, L, Linv, X, y, verbose)
-- 
2.43.0


From 265a411e8788915e24226225183f5b44f5dad9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:56 +0000
Subject: [PATCH 057/219] fix: pyglm.ols.OLS raised for a response given as a
 Series or a one-column DataFrame

---
 pystatsm/pyglm/ols.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index 02159f2..31c105d 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -34,8 +34,10 @@ class OLS:
                 ycols = ['y']
                 yinds = np.arange(y.shape[0])
             else:
-                 ycols, yinds = y.columns, y.index
+                 ycols = y.columns if y.ndim == 2 else [y.name]
+                 yinds = y.index
                  y = y.values
+                 y = y[:, 0] if y.ndim == 2 else y
         
         if X.ndim==1:
             X = X[:, None]
-- 
2.43.0


From de260b4cc79201933e9d692e61dd0fabf0152fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:56 +0000
Subject: [PATCH 058/219] fix: OLS.get_influence counted the intercept column
 twice and deleted-residual variances were wrong

---
 pystatsm/pyglm/ols.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pystatsm/pyglm/ols.py b/pystatsm/pyglm/ols.py
index 31c105d..c970b6c 100644
--- a/pystatsm/pyglm/ols.py
+++ b/pystatsm/pyglm/ols.py
@@ -326,30 +326,27 @@ class OLS:
         h = self.h if h is None else h
         r = self.resids if r is None else r
         ssr = np.sum(r**2)
-        dfe = self.n - self.p - 1.0
+        dfe = self.n - self.p
         msr = ssr / dfe
-        n = self.n
         p = self.p
         s = np.sqrt(msr)
-        s_i = np.sqrt((ssr-r**2) / (dfe-1))
+        s_i = np.sqrt((ssr - r**2 / (1.0 - h)) / (dfe-1))
         
         r_students = r / (s_i * np.sqrt(1.0 - h))
         dfbeta = r / (1.0 - h) * self.W
-        h_tilde = 1.0 / n + h
 
-        cov_ratio = (s_i / s)**(2 * p) * 1.0 / (1.0 - h_tilde)
+        cov_ratio = (s_i / s)**(2 * p) * 1.0 / (1.0 - h)
 
         
-        d_residuals = r / (1.0 - h_tilde)
+        d_residuals = r / (1.0 - h)
         
-        s_star_i = 1/np.sqrt(n-p-1)*np.sqrt((n-p)*s**2/(1-h_tilde)-d_residuals**2)
-        s_i = s_star_i * np.sqrt(1.0 - h_tilde)
+        s_star_i = s_i / np.sqrt(1.0 - h)
         
         studentized_d_residuals = d_residuals / s_star_i
                 
         dfits = r * np.sqrt(h) / (s_i * (1.0 -h))
         
-        cooks_distance = d_residuals**2 * h_tilde / (s**2 * (p + 1))
+        cooks_distance = d_residuals**2 * h / (s**2 * p)
         
         res = dict(r_students=r_students, cov_ratio=cov_ratio,
                    s_i=s_i, studentized_d_residuals=studentized_d_residuals,
-- 
2.43.0


From 2e94f80c88c1edd8b19958a661c07558c68cdfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:56 +0000
Subject: [PATCH 059/219] fix: _permutation_test of LinearModel and pyglm2 OLS
 always raised and used the sum of squares of the unpermuted response

---
 pystatsm/pyglm/linear_model.py | 5 +++--
 pystatsm/pyglm2/ols.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 5d6440f..fbe3a4e 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -1379,7 +1379,8 @@ class LinearModel(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
+        tvalues = self.params[:-1] / np.sqrt(np.diag(self.Ginv) * self.scale_unbiased**2)
+        abst = np.abs(tvalues[vars_of_interest])
         
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
@@ -1401,7 +1402,7 @@ class LinearModel(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
diff --git a/pystatsm/pyglm2/ols.py b/pystatsm/pyglm2/ols.py
index f0026cc..3aa7d0b 100644
--- a/pystatsm/pyglm2/ols.py
+++ b/pystatsm/pyglm2/ols.py
@@ -503,7 +503,8 @@ class OLS(RegressionMixin, LikelihoodModel):
         pbar = tqdm.tqdm(total=n_perms, smoothing=0.001) if verbose else None
         p_values = np.zeros(len(vars_of_interest))
         p_values_fwer = np.zeros(len(vars_of_interest))
-        abst = np.abs(self.tvalues[vars_of_interest])
+        tvalues = self.params[:-1] / np.sqrt(np.diag(self.Ginv) * self.scale_unbiased**2)
+        abst = np.abs(tvalues[vars_of_interest])
         
         n, p = self.n, self.p
         ixc = np.setdiff1d(np.arange(p), vars_of_interest)
@@ -525,7 +526,7 @@ class OLS(RegressionMixin, LikelihoodModel):
             z = u + r[rng.permutation(n)]
             c = X.T.dot(z)
             w = sp.linalg.solve_triangular(L, c, lower=True)
-            s2 =  (y.T.dot(y) - w.T.dot(w)) / (n - p)
+            s2 =  (z.T.dot(z) - w.T.dot(w)) / (n - p)
             beta = sp.linalg.solve_triangular(L.T, w, lower=False)
             beta_se = np.sqrt(s2 * Ginv)           
             abstp = np.abs(beta / beta_se)[vars_of_interest]
-- 
2.43.0


From b183f42ff2fbac0e3942fab0cd9be79eb9277299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 060/219] fix: MANOVA tests divided by zero when the error
 degrees of freedom are the number of responses plus three

---
 pystatsm/pyglm2/mvols.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/mvols.py b/pystatsm/pyglm2/mvols.py
index 5c78655..d733252 100644
--- a/pystatsm/pyglm2/mvols.py
+++ b/pystatsm/pyglm2/mvols.py
@@ -142,9 +142,9 @@ def _hotelling_ftest(hotelling, s, m_par, n_par, n_y, df_h):
     """F approximation for the Hotelling-Lawley trace."""
     if n_par > 0:
         b = (n_y + 2.0 * n_par) * (df_h + 2.0 * n_par)
-        b = b / (2.0 * (2.0 * n_par + 1.0) * (n_par - 1.0))
+        k = 2.0 * (2.0 * n_par + 1.0) * (n_par - 1.0)
         num_df = n_y * df_h
-        den_df = 4.0 + (n_y * df_h + 2.0) / (b - 1.0)
+        den_df = 4.0 + (n_y * df_h + 2.0) * k / (b - k)
         c = (den_df - 2.0) / (2.0 * n_par)
         f = den_df / num_df * hotelling / c
     else:
-- 
2.43.0


From 251fc15c471918d9b5e6c7f9485a4642d0b9bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:47 +0000
Subject: [PATCH 061/219] fix: fitting raised ZeroDivisionError in the AICc
 when n is the number of parameters plus one

---
 pystatsm/pyglm/linear_model.py      | 3 ++-
 pystatsm/pyglm2/likelihood_model.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index fbe3a4e..9fc25f7 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -156,7 +156,8 @@ class LikelihoodModel(metaclass=ABCMeta):
         logn = np.log(n_obs)
         tll = 2 * ll
         aic = tll + 2 * n_params
-        aicc = tll + 2 * n_params * n_obs / (n_obs - n_params - 1)
+        aicc_df = n_obs - n_params - 1
+        aicc = tll + 2 * n_params * n_obs / aicc_df if aicc_df != 0 else np.inf
         bic = tll + n_params * logn
         caic = tll + n_params * (logn + 1)
         return aic, aicc, bic, caic
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 9033e52..2c5b81b 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -146,7 +146,8 @@ class LikelihoodModel(metaclass=ABCMeta):
         logn = np.log(n_obs)
         tll = 2 * ll
         aic = tll + 2 * n_params
-        aicc = tll + 2 * n_params * n_obs / (n_obs - n_params - 1)
+        aicc_df = n_obs - n_params - 1
+        aicc = tll + 2 * n_params * n_obs / aicc_df if aicc_df != 0 else np.inf
         bic = tll + n_params * logn
         caic = tll + n_params * (logn + 1)
         return aic, aicc, bic, caic
-- 
2.43.0


From fb4c8b585d03c7fd30d16a1ccbc706b0adef076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 062/219] fix: every constraint of _make_constraints and the
 constrained profile fixed the last parameter only

---
 pystatsm/pyglm/linear_model.py      | 6 +++---
 pystatsm/pyglm2/likelihood_model.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 9fc25f7..d578c13 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -239,9 +239,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices = np.where(fixed_indices)[0]
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -283,7 +283,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index 2c5b81b..e6d5264 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -234,9 +234,9 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         constraints = []
         if np.asarray(fixed_indices).dtype==bool:
-            fixed_indices = np.where(fixed_indices)
+            fixed_indices = np.where(fixed_indices)[0]
         for i, xi in list(zip(fixed_indices, fixed_values)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         return constraints
 
     @staticmethod
@@ -278,7 +278,7 @@ class LikelihoodModel(metaclass=ABCMeta):
         par, ind = np.atleast_1d(par), np.atleast_1d(ind)
         constraints = []
         for i, xi in list(zip(ind, par)):
-            constraints.append({"type":"eq", "fun":lambda x: x[i] - xi})
+            constraints.append({"type":"eq", "fun":lambda x, i=i, xi=xi: x[i] - xi})
         default_minimize_kws = dict(fun=loglike, jac=grad, hess=hess,
                                     method="trust-constr",
                                     constraints=constraints)
-- 
2.43.0


From 720557a32f865a6181170ac703ce6fe6fc90c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 063/219] fix: ModelData recorded no column names or design
 info for a Series, misaligning them with the data

---
 pystatsm/pyglm/linear_model.py      | 2 ++
 pystatsm/pyglm2/regression_model.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index d578c13..4200b60 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -631,6 +631,8 @@ class ModelData(object):
             else:  # pd.Series
                 self.names.append(data.name)
                 self.data.append(data.to_numpy().reshape(-1, 1))
+                self.columns.append(pd.Index([data.name]))
+                self.design_info.append(None)
         else:  # numpy array
             self.design_info.append(None)
             self.indexes.append(np.arange(data.shape[0]))
diff --git a/pystatsm/pyglm2/regression_model.py b/pystatsm/pyglm2/regression_model.py
index a4e9e36..dc97fc8 100644
--- a/pystatsm/pyglm2/regression_model.py
+++ b/pystatsm/pyglm2/regression_model.py
@@ -93,6 +93,8 @@ class ModelData(object):
             else:  # pd.Series
                 self.names.append(data.name)
                 self.data.append(data.to_numpy().reshape(-1, 1))
+                self.columns.append(pd.Index([data.name]))
+                self.design_info.append(None)
         else:  # numpy array
             self.design_info.append(None)
             self.indexes.append(np.arange(data.shape[0]))
-- 
2.43.0


From 09bbae4e2a7396d85be3227650774161c56c331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 064/219] fix: ModelData.drop_missing raised for
 one-dimensional arrays

---
 pystatsm/pyglm2/regression_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/regression_model.py b/pystatsm/pyglm2/regression_model.py
index dc97fc8..2b7b0fb 100644
--- a/pystatsm/pyglm2/regression_model.py
+++ b/pystatsm/pyglm2/regression_model.py
@@ -215,7 +215,7 @@ class ModelData(object):
         Drop rows containing nan values from the data arrays.
         """
         # Find rows with nan values
-        nan_rows = np.any([np.isnan(arr).any(axis=1) for arr in self.data], axis=0)
+        nan_rows = np.any([np.isnan(arr.reshape(len(arr), -1)).any(axis=1) for arr in self.data], axis=0)
     
         # Remove rows with nan values from data arrays
         for i, arr in enumerate(self.data):
-- 
2.43.0


From cb1aab62c2181ea0388a1ac75ceead9575158de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 065/219] fix: ModelData kept scalar weights, so indexing and
 printing the data of every GLM raised

---
 pystatsm/pyglm/linear_model.py      | 3 ++-
 pystatsm/pyglm2/regression_model.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 4200b60..42b55db 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -740,7 +740,8 @@ class ModelData(object):
         weights : array_like, optional
             An array of weights for the data, default is None.
         """
-        self.weights = np.ones(len(self.data[-1])) if weights is None else weights
+        weights = 1.0 if weights is None else weights
+        self.weights = weights * np.ones(len(self.data[-1])) if np.ndim(weights) == 0 else weights
         
     def flatten_y(self):
         """
diff --git a/pystatsm/pyglm2/regression_model.py b/pystatsm/pyglm2/regression_model.py
index 2b7b0fb..dc53d18 100644
--- a/pystatsm/pyglm2/regression_model.py
+++ b/pystatsm/pyglm2/regression_model.py
@@ -202,7 +202,8 @@ class ModelData(object):
         weights : array_like, optional
             An array of weights for the data, default is None.
         """
-        self.weights = np.ones(len(self.data[-1])) if weights is None else weights
+        weights = 1.0 if weights is None else weights
+        self.weights = weights * np.ones(len(self.data[-1])) if np.ndim(weights) == 0 else weights
         
     def flatten_y(self):
         """
-- 
2.43.0


From 8514abeb11ab9492776eccad18db08ddda3a7d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 066/219] fix: _solve_interval(method='lstq') could return both
 ends on the same side of the estimate

---
 pystatsm/pyglm/linear_model.py      | 8 ++++----
 pystatsm/pyglm2/likelihood_model.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyglm/linear_model.py b/pystatsm/pyglm/linear_model.py
index 42b55db..281a823 100644
--- a/pystatsm/pyglm/linear_model.py
+++ b/pystatsm/pyglm/linear_model.py
@@ -402,10 +402,10 @@ class LikelihoodModel(metaclass=ABCMeta):
             The lower and upper bounds of the confidence interval.
         """
         if method == "lstq":
-            left=sp.optimize.minimize(lambda x:(profile_loglike(x)-lli)**2,
-                                        par-2 * par_se)
-            right=sp.optimize.minimize(lambda x:(profile_loglike(x)-lli)**2,
-                                         par+2 * par_se)
+            left=sp.optimize.least_squares(lambda x:np.ravel(profile_loglike(x)-lli),
+                                           par-2 * par_se, bounds=(-np.inf, par))
+            right=sp.optimize.least_squares(lambda x:np.ravel(profile_loglike(x)-lli),
+                                            par+2 * par_se, bounds=(par, np.inf))
             if return_info:
                 left, right = left, right
             else:
diff --git a/pystatsm/pyglm2/likelihood_model.py b/pystatsm/pyglm2/likelihood_model.py
index e6d5264..927ac87 100644
--- a/pystatsm/pyglm2/likelihood_model.py
+++ b/pystatsm/pyglm2/likelihood_model.py
@@ -398,10 +398,10 @@ class LikelihoodModel(metaclass=ABCMeta):
         """
         # TODO: Try implement Venzon and Moolgavkar Method
         if method == "lstq":
-            left=sp.optimize.minimize(lambda x:(profile_loglike(x)-lli)**2,
-                                        par-2 * par_se)
-            right=sp.optimize.minimize(lambda x:(profile_loglike(x)-lli)**2,
-                                         par+2 * par_se)
+            left=sp.optimize.least_squares(lambda x:np.ravel(profile_loglike(x)-lli),
+                                           par-2 * par_se, bounds=(-np.inf, par))
+            right=sp.optimize.least_squares(lambda x:np.ravel(profile_loglike(x)-lli),
+                                            par+2 * par_se, bounds=(par, np.inf))
             if return_info:
                 left, right = left, right
             else:
-- 
2.43.0


From 546241a2d36304fe9cf955bd0c71d38f0d961556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 067/219] fix: CLM threshold constraints all bound to the last
 pair of thresholds

---
 pystatsm/pyglm/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 74cb009..afcbe55 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -31,7 +31,7 @@ class CLM:
         self.W = np.ones(self.X.shape[0])
         self.constraints = [dict(zip(
                 ['type', 'fun'], 
-                ['ineq', lambda params: params[i+1]-params[i]])) 
+                ['ineq', lambda params, i=i: params[i+1]-params[i]])) 
                 for i in range(self.n_cats-2)]
         self.A1, self.A2 = self.Y[:, :-1], self.Y[:, 1:]
         self.o1, self.o2 = self.Y[:, -1]*30e1, self.Y[:, 0]*-10e5
-- 
2.43.0


From a6ca562bf6914af597d5138b525b69c15f9ca610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 068/219] fix: CLM likelihood ratio statistic, its degrees of
 freedom and the adjusted McFadden R2

---
 pystatsm/pyglm/clm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index afcbe55..9d1245f 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -152,17 +152,16 @@ class CLM:
     def _summarystats(self, paramsf, paramsr):
         LLf = self.loglike(paramsf)
         LL0 = self.loglike(paramsr, self.B1_intercept, self.B2_intercept)
-        degfree_f = len(paramsf)
-        degfree_r = len(paramsr)
-        degfree_llr = degfree_f - degfree_r
+        intercept = np.ones((self.X.shape[0], 1))
+        degfree_llr = np.linalg.matrix_rank(np.hstack([intercept, self.X])) - 1
         chi2_dist = sp.stats.chi2(degfree_llr)
-        LLR = LL0 - LLf
+        LLR = 2.0 * (LL0 - LLf)
         LLR_pvalue = chi2_dist.sf(LLR)
         n, p = self.X.shape
         rmax =  (1 - np.exp(-2.0/n * (LL0)))
         r2_coxsnell = 1 - np.exp(2.0/n*(LLf - LL0))
         r2_mcfadden = 1 - LLf / LL0
-        r2_mcfadden_adj = 1 - (LLf-p) / LL0
+        r2_mcfadden_adj = 1 - (LLf+p) / LL0
         r2_nagelkerke = r2_coxsnell / rmax
         
         statistic = dict(LLR=LLR, 
-- 
2.43.0


From 3a1f40b57b9ba46692acb876cf488af6744fd844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 069/219] fix: pyglm2 CLM hessian ignored the weights in its
 second derivative terms

---
 pystatsm/pyglm2/clm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 4bb7ea9..dea3cd1 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -261,8 +261,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         g = -np.dot(dprob[:, :q].T, w / prob)
@@ -298,8 +298,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         
         w3 =  w / prob**2
         dprob = (B1 * d1eta1[:, None]) - (B2 * d1eta2[:, None])
-        T0 = (B1 * (d2eta1 / prob)[:, None]).T.dot(B1)
-        T1 = (B2 * (d2eta2 / prob)[:, None]).T.dot(B2)
+        T0 = (B1 * (w * d2eta1 / prob)[:, None]).T.dot(B1)
+        T1 = (B2 * (w * d2eta2 / prob)[:, None]).T.dot(B2)
         T2 = (dprob * w3[:, None]).T.dot(dprob)
         H = -(T0 - T1 - T2)
         return H
-- 
2.43.0


From 696b5582b1d8acda31443948d1295808f410fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 070/219] fix: pyglm2 CLM.fit passed method and opt_kws as the
 start values and the data

---
 pystatsm/pyglm2/clm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index dea3cd1..169cdd3 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -333,7 +333,9 @@ class CLM(RegressionMixin, LikelihoodModel):
         return params, opt
     
     def fit(self, method=None, opt_kws=None):
-        self.params, self.opt = self._fit(method, opt_kws)
+        if method is not None:
+            opt_kws = {"method": method, **({} if opt_kws is None else opt_kws)}
+        self.params, self.opt = self._fit(opt_kws=opt_kws)
         n, n_params = self.n, len(self.params)
         q = self.q
         self.n_params = n_params
@@ -353,7 +355,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         B2 = np.block([self.A2.toarray(), -intercept])
         dat = ModelData(B1, B2,  self.o1, self.o2, self.o1ix, self.weights)
         
-        self.paramsn, self.optn = self._fit(self.params_init[:B1.shape[1]], data=dat)
+        self.paramsn, self.optn = self._fit(self.params_init[:B1.shape[1]], data=dat,
+                                            opt_kws=opt_kws)
         self.llf = self.loglike(self.params)
         self.lln = self.loglike(self.paramsn, data=dat)
         k = len(self.params)
-- 
2.43.0


From 00de050cc17872ee81bdfefb357eadfc755ebefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 071/219] fix: pyglm2 CLM.predict misspelled its keys and
 raised for a DataFrame X

---
 pystatsm/pyglm2/clm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 169cdd3..25451fe 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -399,7 +399,7 @@ class CLM(RegressionMixin, LikelihoodModel):
         else:
             xinds = self.xinds
         q = self.q if q is None else q
-        X = self.X if X is None else X
+        X = self.X if X is None else np.asarray(X)
         tau, beta = params[:q].reshape(1, -1), params[q:]
         eta = tau - (X.dot(beta)).reshape(-1, 1)
         cmu = self.link.inv_link(eta)
@@ -449,8 +449,8 @@ class CLM(RegressionMixin, LikelihoodModel):
         eta = pd.DataFrame(eta, index=xinds, columns=cols[:-1])
         
         linpred = dict(mean=eta, se=eta_se, lower=eta_lower, upper=eta_upper)
-        prob = dict(mean=mu, loewr=mu_lower, upper=mu_upper)
-        cumulative_prob = dict(mean=cprob, lower=cprob_lower, uppwer=cprob_upper)
+        prob = dict(mean=mu, lower=mu_lower, upper=mu_upper)
+        cumulative_prob = dict(mean=cprob, lower=cprob_lower, upper=cprob_upper)
         return linpred, prob, cumulative_prob
         
     def _jacknife(self, method="optimize", verbose=True):
-- 
2.43.0


From a971d8a066c9e29120d9a316ff643e36acc1134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:59 +0000
Subject: [PATCH 072/219] fix: pyglm2 CLM._jacknife always raised

---
 pystatsm/pyglm2/clm.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/pystatsm/pyglm2/clm.py b/pystatsm/pyglm2/clm.py
index 25451fe..50f67aa 100644
--- a/pystatsm/pyglm2/clm.py
+++ b/pystatsm/pyglm2/clm.py
@@ -454,31 +454,26 @@ class CLM(RegressionMixin, LikelihoodModel):
         return linpred, prob, cumulative_prob
         
     def _jacknife(self, method="optimize", verbose=True):
-        if type(self.f.weights) is np.ndarray:
-            weights = self.f.weights
-        else:
-            weights = np.ones(self.n_obs)
+        B1, B2, o1, o2, o1ix, w = self.model_data
         if method == "optimize":
+            params = OrderedTransform._fwd(self.params.copy(), self.q)
             jacknife_samples = np.zeros((self.n_obs, self.n_params))
             ii = np.ones(self.n_obs, dtype=bool)
             pbar = tqdm.tqdm(total=self.n_obs) if verbose else None
             for i in range(self.n_obs):
                 ii[i] = False
-                opt = self._optimize(data=(self.X[ii], self.y[ii], weights[ii]), f=self.f)
-                jacknife_samples[i] = opt.x
+                params_i, _ = self._fit(params=params.copy(), 
+                                        data=(B1[ii], B2[ii], o1[ii], o2[ii], 
+                                              o1ix[ii], w[ii]))
+                jacknife_samples[i] = params_i
                 ii[i] = True
                 if verbose:
                     pbar.update(1)
             if verbose:
                 pbar.close()
         elif method == "one-step":    
-            w = self.f.get_ehw(self.y, self.mu, phi=self.phi,
-                               dispersion=self.dispersion,
-                               weights=weights).reshape(-1, 1)
-            WX = self.X * w
-            h = self._compute_leverage_qr(WX)
-            one_step = self._one_step_approx(WX, h, self.resid_pearson_s)
-            jacknife_samples = self.params.reshape(1, -1) - one_step
+            one_step = self.gradient_i(self.params).dot(self.params_cov)
+            jacknife_samples = self.params.reshape(1, -1) + one_step
         jacknife_samples = pd.DataFrame(jacknife_samples, index=self.xinds,
                                         columns=self.param_labels)
         return jacknife_samples
-- 
2.43.0


From d5d6c820c0fd059c97d7d3f1de43261a5fc01af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 073/219] fix: CLM started from unit coefficients, where the
 complementary log-log likelihood is not finite

---
 pystatsm/pyglm/clm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/clm.py b/pystatsm/pyglm/clm.py
index 9d1245f..663fa8c 100644
--- a/pystatsm/pyglm/clm.py
+++ b/pystatsm/pyglm/clm.py
@@ -47,7 +47,7 @@ class CLM:
         self.f = link
         Yprops = np.sum(self.Y, axis=0).cumsum()[:-1]/np.sum(self.Y)
         self.theta_init = sp.stats.norm(0, 1).ppf(Yprops)
-        self.beta_init = np.ones(self.X.shape[1])
+        self.beta_init = np.zeros(self.X.shape[1])
         self.params_init = np.concatenate([self.theta_init, self.beta_init], axis=0)
     
     def loglike(self, params, B1=None, B2=None):
-- 
2.43.0


From 38b274180295ef208fb2256b212256938d50de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 074/219] fix: BetaReg could not be fitted to arrays, and a one
 column response was broadcast to a matrix

---
 pystatsm/pyglm/betareg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index e2f043c..8373649 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -50,8 +50,10 @@ class BetaReg:
                 ycols = ['y']
                 yinds = np.arange(y.shape[0])
             else:
-                 ycols, yinds = y.columns, y.index
+                 ycols = y.columns if type(y) is pd.DataFrame else [y.name]
+                 yinds = y.index
                  y = y.values
+            y = y.reshape(-1)
         
         self.X, self.Z, self.y = X, Z, y
         self.xcols, self.zcols, self.ycols = xcols, zcols, ycols
@@ -148,7 +150,7 @@ class BetaReg:
         se = np.sqrt(np.diag(np.linalg.inv(H)))
         theta = opt.x
         res = pd.DataFrame(np.vstack((theta, se, theta/se)).T, columns=['param', 'SE', 't'])
-        res.index = self.xcols.tolist() + self.zcols.tolist()
+        res.index = list(self.xcols) + list(self.zcols)
         res['p'] = sp.stats.t(df=self.n_obs-self.n_xvar-self.n_zvar).sf(np.abs(res['t']))*2.0
         self.res = res
         self.theta = theta
-- 
2.43.0


From a42f6c2adf483a1db7fdd7d46073c97d4144fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 075/219] fix: BetaReg information criteria and pseudo R2
 treated the negative log likelihood as the log likelihood

---
 pystatsm/pyglm/betareg.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pystatsm/pyglm/betareg.py b/pystatsm/pyglm/betareg.py
index 8373649..c01be43 100644
--- a/pystatsm/pyglm/betareg.py
+++ b/pystatsm/pyglm/betareg.py
@@ -145,7 +145,7 @@ class BetaReg:
     def fit(self):
         opt = sp.optimize.minimize(self.loglike, self.theta_init, hess=self.hessian, 
                                    jac=self.gradient, method='trust-constr', 
-                                   options=dict(verbose=3))
+                                   options=dict(verbose=0))
         H = self.hessian(opt.x)
         se = np.sqrt(np.diag(np.linalg.inv(H)))
         theta = opt.x
@@ -169,18 +169,19 @@ class BetaReg:
         k = len(self.theta)
         N = self.n_obs
         sumstats = {}
-        sumstats['aic'] = -2.0*self.llf + k
-        sumstats['aicc'] = -2*self.llf + (2 * k * N) / (N - k - 1)
-        sumstats['bic'] = -2*self.llf + np.log(N)*k
-        sumstats['caic'] = -2*self.llf + k*(np.log(N) + 1.0)
+        # llf and lln are negative log likelihoods
+        sumstats['aic'] = 2.0*self.llf + 2.0*k
+        sumstats['aicc'] = 2.0*self.llf + (2 * k * N) / (N - k - 1)
+        sumstats['bic'] = 2.0*self.llf + np.log(N)*k
+        sumstats['caic'] = 2.0*self.llf + k*(np.log(N) + 1.0)
         sumstats['LLR'] = self.llr
 
         sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/N * (self.llf - self.lln))
-        rmax = 1-np.exp(2.0 / N *self.lln)
+        rmax = 1-np.exp(-2.0 / N *self.lln)
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
-        sumstats['PseudoR2_MCF'] = 1 - self.lln / self.llf
-        sumstats['PseudoR2_MCFA'] = 1 - (self.lln - k) / (self.llf)
-        sumstats['PseudoR2_MFA'] = 1 - (self.llr) / (self.llr + N)
+        sumstats['PseudoR2_MCF'] = 1 - self.llf / self.lln
+        sumstats['PseudoR2_MCFA'] = 1 - (self.llf + k) / self.lln
+        sumstats['PseudoR2_MFA'] = self.llr / (self.llr + N)
         self.sumstats = sumstats
     
     def predict(self, theta=None, X=None, Z=None):
-- 
2.43.0


From 8ec63e1e31f83124bd041e5b7d600aa8c719c647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 076/219] fix: NegativeBinomial p values used n-2 degrees of
 freedom whatever the number of parameters

---
 pystatsm/pyglm/nb2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index f843d93..0511242 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -124,7 +124,7 @@ class NegativeBinomial(object):
                                            self.params/self.se_params)).T,
                                 columns=['param', 'SE', 't'])
         self.res.index = self.xcols.tolist() + ['variance']
-        nu = self.X.shape[0]-2
+        nu = self.X.shape[0]-len(self.params)
         self.res['p'] = sp.stats.t(nu).sf(np.abs(self.res['t'])) * 2.0
         self.LLR = 2.0*(self.ll_full - self.ll_null)
         self.BIC = (np.log(self.n_obs) * len(self.params) - 2 * self.ll_full)
-- 
2.43.0


From 9c05ad29cc521b81d2de6bad21081cb45eaeb0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 077/219] fix: NegativeBinomial.bootstrap left the model with
 the response of the last bootstrap sample

---
 pystatsm/pyglm/nb2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index 0511242..94f409d 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -195,6 +195,7 @@ class NegativeBinomial(object):
         pbar.close()
         self.beta_samples = beta_samples
         self.X, self.Y = X, Y
+        self.y = _check_shape(Y, 1)
         samples_df = pd.DataFrame(self.beta_samples, columns=self.res.index)
         boot_res = samples_df.agg(["mean", "std", "min"]).T
         boot_res["pct1.0%"] = sp.stats.scoreatpercentile(beta_samples, 1.0, axis=0)
-- 
2.43.0


From 6b006704df4e6f29d8b754edc9459584c1a09efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 078/219] fix: NegativeBinomial.predict raised without explicit
 parameters

---
 pystatsm/pyglm/nb2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pyglm/nb2.py b/pystatsm/pyglm/nb2.py
index 94f409d..601f7de 100644
--- a/pystatsm/pyglm/nb2.py
+++ b/pystatsm/pyglm/nb2.py
@@ -164,6 +164,7 @@ class NegativeBinomial(object):
         if X is None:
             X = self.X
         if b is None:
+            params = self.params if params is None else params
             b = params[:-1]
         mu_hat = np.exp(X.dot(b))
         return mu_hat
-- 
2.43.0


From 347eca326e9f92e2856e08d120412da7eed43646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 079/219] fix: ZIP log likelihood used log((y-1)!) instead of
 log(y!)

---
 pystatsm/pyglm/zimodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 2da5216..70631d2 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -50,7 +50,7 @@ class ZIP:
         self.X0, self.X1 = self.X[self.ix0], self.X[self.ix1]
         self.y0, self.y1 = self.y[self.ix0], self.y[self.ix1]
         self.Z0, self.Z1 = self.Z[self.ix0], self.Z[self.ix1]
-        self._llc = sp.special.gammaln(self.y1)
+        self._llc = sp.special.gammaln(self.y1 + 1.0)
     
     def _check_params(self, params, X):
         b, a = params[:X.shape[1]], params[X.shape[1]:]
-- 
2.43.0


From 86928bb96337dd63509b8e5ad3c0f07ffea6ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 080/219] fix: ZIP raised for Series, one dimensional Z and
 DataFrames of several columns

---
 pystatsm/pyglm/zimodels.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index 70631d2..a0ea532 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -18,7 +18,8 @@ def process_data(X, default_varname='x'):
             xcols = [f'{default_varname}{i}' for i in range(1, X.shape[1]+1)]
         xix = np.arange(X.shape[0])
     else:
-        xcols, xix = X.columns, X.index
+        xcols = X.columns if X.ndim == 2 else [X.name]
+        xcols, xix = list(xcols), X.index
         X = X.values
     return X, xcols, xix
 
@@ -41,6 +42,8 @@ class ZIP:
             self.zix = self.xix
         else:
             self.Z, self.zcols, self.zix = process_data(Z, "z")
+            if self.Z.ndim == 1:
+                self.Z = self.Z.reshape(-1, 1)
         
         self.n_zvars = self.Z.shape[1]
         self.n_params = self.n_xvars+self.n_zvars
-- 
2.43.0


From c495514c681f91aae04a9f8a8017bbbac1b48107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 081/219] fix: ZIP p values, AICc and pseudo R2 formulas

---
 pystatsm/pyglm/zimodels.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglm/zimodels.py b/pystatsm/pyglm/zimodels.py
index a0ea532..7affa9e 100644
--- a/pystatsm/pyglm/zimodels.py
+++ b/pystatsm/pyglm/zimodels.py
@@ -178,7 +178,7 @@ class ZIP:
         self.params = self.opt.x
         self.se_params = np.diag(np.linalg.inv(self.hessian(self.params)))**0.5
         t = self.params / self.se_params
-        p = sp.stats.t(self.n_params).sf(np.abs(t))*2.0
+        p = sp.stats.t(self.n_obs - self.n_params).sf(np.abs(t))*2.0
         res = pd.DataFrame(np.vstack((self.params, self.se_params, 
                                       t, p)).T)
         res.columns = ['param', 'SE', 't', 'p']
@@ -186,17 +186,17 @@ class ZIP:
         self.res = res
         self.aic = -2.0 * (self.ll_model - self.n_params)
         self.bic = self.n_params * np.log(self.n_obs) - 2.0 * self.ll_model
-        self.aicc = self.aic + (self.n_params**2 + self.n_params)/(self.n_obs-self.n_params-1.0)
+        self.aicc = self.aic + 2.0 * (self.n_params**2 + self.n_params)/(self.n_obs-self.n_params-1.0)
         self.yhat, self.yhvar = self.predict(self.params)
         self.resids = self.y - self.yhat
         self.pearson_resids = self.resids / np.sqrt(self.yhvar)
         sumstats = dict(AIC=self.aic, AICc=self.aicc, BIC=self.bic, LLR=self.ll_ratio,
                         LLRp=self.ll_rpval)
-        sumstats['PseudoR2_CS'] = 1 - np.exp(1.0/ self.n_obs * (self.ll_null - self.ll_model))
-        rmax = 1-np.exp(1.0 / self.n_obs *(self.ll_null))
+        sumstats['PseudoR2_CS'] = 1 - np.exp(2.0/ self.n_obs * (self.ll_null - self.ll_model))
+        rmax = 1-np.exp(2.0 / self.n_obs *(self.ll_null))
         sumstats['PseudoR2_N'] = sumstats['PseudoR2_CS'] / rmax
         sumstats['PseudoR2_MCF'] =  1.0 - self.ll_model / self.ll_null
-        sumstats['PseudoR2_MCFA'] = 1.0 - (-self.ll_model - self.n_params) / -self.ll_null
+        sumstats['PseudoR2_MCFA'] = 1.0 - (self.ll_model - self.n_params) / self.ll_null
         sumstats['PseudoR2_MFA'] = (self.ll_ratio) / (self.ll_ratio + self.n_obs)
         self.sumstats = pd.DataFrame(sumstats, index=['Fit Statistic']).T
 
-- 
2.43.0


From 103c9a12d3e995a9e7ef2c8cb8b63507968f80d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 082/219] fix: ZeroInflatedPoisson log likelihood used
 log((y-1)!) instead of log(y!)

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 0d45188..00058d9 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -58,7 +58,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ll[ix] = -w[ix] * np.log(mu2[ix] + (1 - mu2[ix]) * np.exp(-mu1[ix]))
         ix = ~ix
         ll[ix] = -w[ix] * (np.log(1 - mu2[ix]) + y[ix] * np.log(mu1[ix]) \
-                          - mu1[ix] - sp.special.gammaln(y[ix]))
+                          - mu1[ix] - sp.special.gammaln(y[ix] + 1.0))
         return ll
     
     def loglike_i(self, params, data=None, link=None, zero_link=None):
@@ -79,7 +79,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         ix = ~ix
         ll = ll + np.sum(-w[ix] * (np.log(1 - omega[ix]) \
                          + y[ix] * np.log(lambd[ix]) - lambd[ix]\
-                         - sp.special.gammaln(y[ix])))
+                         - sp.special.gammaln(y[ix] + 1.0)))
 
         return ll
     
-- 
2.43.0


From 8c341ece2b87ed185e245f796d34dd6de1b12127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 083/219] fix: ZeroInflatedPoisson gradient of the zero part
 was wrong with weights

---
 pystatsm/pyglm2/zinf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index 00058d9..d76c652 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -118,7 +118,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         
         # Compute the gradient for the Bernoulli part
         u_bernoulli = np.zeros(len(y))
-        u_bernoulli[ix_zero] = -(w[ix_zero] * h1 - h1 * exlam[ix_zero]) / den
+        u_bernoulli[ix_zero] = -w[ix_zero] * (h1 - h1 * exlam[ix_zero]) / den
         u_bernoulli[~ix_zero] = w[~ix_zero] * zero_link.dinv_link(omega_lp[~ix_zero]) / (1.0 - omega[~ix_zero])
         g_bernoulli = np.dot(Z.T, u_bernoulli)         # FLOPs: n_bernoulli_params * len(y)
         
@@ -163,7 +163,7 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         t1 = t0 * exlam[ix]
         h1 = zero_link.dinv_link(omega_lp[ix])
         gw1 =  (w[ix] * t1 * link.dinv_link(lambda_lp[ix])) / (t1 + omega[ix]) 
-        gw2 = -(w[ix] * h1 - h1 * exlam[ix]) / (t1 + omega[ix])
+        gw2 = -w[ix] * (h1 - h1 * exlam[ix]) / (t1 + omega[ix])
 
         g[i1, j1] = X[ix] * (gw1)[:, None]
         g[i1, j2] = Z[ix] * (gw2)[:, None]
-- 
2.43.0


From 65f4819f64b82795c41cb931b8edc451df3c0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 084/219] fix: zero inflated models raised for array inputs

---
 pystatsm/pyglm2/zinf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index d76c652..c096cb7 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -41,8 +41,8 @@ class ZeroInflatedPoisson(RegressionMixin, LikelihoodModel):
         self.q = self.model_data.data[1].shape[1]
         self.X, self.Z, self.y, self.weights = self.model_data
         self.params_init = np.zeros(self.p+self.q)
-        poiss_labels = [("Poiss",x) for x in self.model_data.columns[0].to_list()]
-        binom_labels = [("Binom",x) for x in self.model_data.columns[1].to_list()]
+        poiss_labels = [("Poiss",x) for x in list(self.model_data.columns[0])]
+        binom_labels = [("Binom",x) for x in list(self.model_data.columns[1])]
         labels = poiss_labels + binom_labels
         labels = pd.MultiIndex.from_tuples(labels, names=["ModelComponent", "Parameter"])
         self.param_labels = labels#[f"beta{i}" for i in range(1, self.p+1)]+[f"gamma{i}" for i in range(1, self.q+1)]
@@ -490,8 +490,8 @@ class ZeroInflatedModel(RegressionMixin, LikelihoodModel):
            self.n_params += 1
        
         self.params_init = np.zeros(self.n_params)
-        labels = [(self.f.name,x) for x in self.model_data.columns[0].to_list()]
-        labels.extend([("Binom",x) for x in self.model_data.columns[1].to_list()])
+        labels = [(self.f.name,x) for x in list(self.model_data.columns[0])]
+        labels.extend([("Binom",x) for x in list(self.model_data.columns[1])])
         if self.has_scale:
             labels.append((self.f.name, "Scale"))
         labels = pd.MultiIndex.from_tuples(labels, names=["ModelComponent", "Parameter"])
-- 
2.43.0


From 0d2cd868f5aa744459075066eaa9e609e2477515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 085/219] fix: ZeroInflatedNBinom could not be constructed
 (ExponentialFamily was not imported)

---
 pystatsm/pyglm2/zinf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index c096cb7..ca16918 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -17,7 +17,7 @@ from .likelihood_model import LikelihoodModel
 from .links import (CloglogLink, IdentityLink, Link, LogitLink, LogLink, #analysis:ignore
                     LogComplementLink, NegativeBinomialLink, ProbitLink,
                     PowerLink)
-from .families import NegativeBinomial
+from .families import ExponentialFamily, NegativeBinomial
 from ..utilities.func_utils import symmetric_conf_int, handle_default_kws
 
 from ..utilities.linalg_operations import wdiag_outer_prod, wls_qr, nwls   
-- 
2.43.0


From 8ba23e6777bf484218296231e83da88cb6aefeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 086/219] fix: ZeroInflatedNBinom log likelihood, gradient and
 hessian each used the weights differently

---
 pystatsm/pyglm2/zinf.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index ca16918..f5a31fe 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -520,14 +520,14 @@ class ZeroInflatedModel(RegressionMixin, LikelihoodModel):
         k = np.exp(params[-1]) if has_scale else 1.0
         eta1, eta2 = np.dot(X, b1), np.dot(Z, b2)
         mu1, mu2 = f.inv_link(eta1), link.inv_link(eta2)
-        lnp = -f._full_loglike(y, weights=w, mu=mu1, phi=1.0, dispersion=k)
+        lnp = -f._full_loglike(y, mu=mu1, phi=1.0, dispersion=k)
         ll = np.zeros(len(y), dtype=params.dtype)
         
         i = y==0
         ll[i] = -np.log(mu2[i]+(1-mu2[i])*np.exp(lnp[i]))
         i=~i
-        ll[i] = -lnp[i] - np.log(1.0 - mu2[i]) * w[i]
-        return ll
+        ll[i] = -lnp[i] - np.log(1.0 - mu2[i])
+        return w * ll
         
     
 
@@ -566,10 +566,10 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         mu1, mu2 = f.inv_link(eta1), link.inv_link(eta2)
         ll = np.zeros(len(y),dtype=params.dtype)
         ix = y==0
-        ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
+        ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k * mu1[ix])**(-1.0 / k))
         ix = ~ix
-        ll[ix] = f._loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
-        return ll
+        ll[ix] = f._full_loglike(y[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix])  
+        return w * ll
     
     def loglike_i(self, params, data=None, link=None, f=None):
         data = self.model_data if data is None else data 
@@ -586,10 +586,10 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
       mu1, mu2 = f.inv_link(eta1), link.inv_link(eta2)
       ll = np.zeros(len(y), dtype=params.dtype)
       ix = y==0
-      ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k / w[ix] * mu1[ix])**(-w[ix] / k))
+      ll[ix] = - np.log(mu2[ix] + (1-mu2[ix]) * (1 + k * mu1[ix])**(-1.0 / k))
       ix = ~ix
-      ll[ix] = f._full_loglike(y[ix], weights=w[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix]) 
-      return np.sum(ll)
+      ll[ix] = f._full_loglike(y[ix], mu=mu1[ix], phi=1.0, dispersion=k) -np.log(1.0 - mu2[ix]) 
+      return np.sum(w * ll)
     
     def loglike(self, params, data=None, link=None, f=None):
         data = self.model_data if data is None else data 
@@ -601,7 +601,8 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
 
     @staticmethod
     def _gradient(params, data, link, f):
-        X, Z, y, w = data
+        X, Z, y, weights = data
+        w = np.ones(len(y))
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         # Compute lambda_lp, omega_lp, lambd, and omega
@@ -647,6 +648,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         d1[i] = link.dinv_link(eta2[i]) / (x5 - 1.0)
         d2[i] = -x4 * x6 * (-x2 * x8 + x3 * x7 + x3 * x9)
                                
+        d0, d1, d2 = weights * d0, weights * d1, weights * d2
         g1 = np.dot(X.T, d0)
         g2 = np.dot(Z.T, d1)
         g3 = np.sum(d2)
@@ -665,7 +667,8 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
     
     @staticmethod
     def _gradient_i(params, data, link, f):
-        X, Z, y, w = data
+        X, Z, y, weights = data
+        w = np.ones(len(y))
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         # Compute lambda_lp, omega_lp, lambd, and omega
@@ -741,6 +744,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         d2[i] += w[i]*x4*sp.special.polygamma(0, x6) + x0*x2*x3*x6*x8 - \
                 x5*np.log(x7) - x5*sp.special.polygamma(0, x5) - y[i]
                                        
+        d0, d1, d2 = weights * d0, weights * d1, weights * d2
         g1 = d0.reshape(-1, 1) * X
         g2 = d1.reshape(-1, 1) * Z
         g3 = d2.reshape(-1, 1)
@@ -758,7 +762,8 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         
     @staticmethod
     def _hessian_i(params, data, link,f):
-        X, Z, y, w = data
+        X, Z, y, weights = data
+        w = np.ones(len(y))
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         eta1 = X.dot(coefs[:p])  
@@ -837,7 +842,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
             - x19 * sp.special.polygamma(1, x8) + x7 * np.log(x10) +\
                 x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8)
                 
-        h = h0 + h1        
+        h = weights * (h0 + h1)
       
         h00 = np.einsum("ij,ik->ijk", X*h[[0]].T, X)
         h10 = np.einsum("ij,ik->ijk", Z*h[[1]].T, X)
@@ -868,7 +873,8 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
         return g
     @staticmethod
     def _hessian(params, data, link,f):
-        X, Z, y, w = data
+        X, Z, y, weights = data
+        w = np.ones(len(y))
         p, q = X.shape[1], Z.shape[1]
         coefs, k = params[:-1], np.exp(params[-1])
         eta1 = X.dot(coefs[:p])  
@@ -947,7 +953,7 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
             - x19 * sp.special.polygamma(1, x8) + x7 * np.log(x10) +\
                 x7 * sp.special.polygamma(0, x7) - x7 * sp.special.polygamma(0, x8)
                 
-        h = h0 + h1        
+        h = weights * (h0 + h1)
       
         h00 = np.einsum("ij,ik->jk", X*h[[0]].T, X)
         h10 = np.einsum("ij,ik->jk", Z*h[[1]].T, X)
-- 
2.43.0


From 221353c9923f5526680472aabdceb37039495b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 087/219] fix: ZeroInflatedNBinom.predict always raised in its
 predictive interval

---
 pystatsm/pyglm2/zinf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglm2/zinf.py b/pystatsm/pyglm2/zinf.py
index f5a31fe..9322304 100644
--- a/pystatsm/pyglm2/zinf.py
+++ b/pystatsm/pyglm2/zinf.py
@@ -1095,11 +1095,10 @@ class ZeroInflatedNBinom(ZeroInflatedModel):
                               ]).T
         if predicted_ci:
              predicted_ci_level = symmetric_conf_int(predicted_ci_level)
-             v = f.variance(mu=mu1, phi=1.0, dispersion=k)
              res["predicted_lower_ci"] = f.ppf(
-                 1-predicted_ci_level, mu=mu1, dispersion=v)
+                 1-predicted_ci_level, mu=mu1, dispersion=k)
              res["predicted_upper_ci"] = f.ppf(
-                 predicted_ci_level, mu=mu1, dispersion=v)
+                 predicted_ci_level, mu=mu1, dispersion=k)
         return res  
 
     def predict(self, X=None, Z=None, params=None, params_cov=None, **kws):
-- 
2.43.0


From d181102ce732fa2f66229960bd7dfe57a6b0704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 088/219] fix: elnet never let a coefficient that had touched
 zero back in, so it could stop away from the optimum

---
 pystatsm/pyglmnet/gaussian_eln.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglmnet/gaussian_eln.py b/pystatsm/pyglmnet/gaussian_eln.py
index 73076b6..f23232c 100644
--- a/pystatsm/pyglmnet/gaussian_eln.py
+++ b/pystatsm/pyglmnet/gaussian_eln.py
@@ -70,6 +70,7 @@ def eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters=1000, dtol=1e-5, btol=1
     f_old = msr + pen
     fvals = np.zeros((n_iters+1, 3))
     beta_hat = b
+    candidates, full = active.copy(), True
     for i in range(n_iters):
         active_vars = index[active]
         fvals[i] = msr, pen, f_old
@@ -85,12 +86,16 @@ def eln_cd(X, y, Xsq, alpha, lambda_, b, active, n_iters=1000, dtol=1e-5, btol=1
         msr = np.sum(r**2)/ n2
         pen = elnet_penalty(b, alpha, lambda_)
         f_new = msr + pen
-        if (f_old - f_new)<dtol:
+        if (f_old - f_new)<dtol and full:
             fvals[i+1] = msr, pen, f_new
             break
-        else:
-            f_old = f_new
-            beta_hat = b
+        # variables dropped along the way may reenter: converged only once a
+        # sweep over all of them changes nothing
+        full = (f_old - f_new)<dtol
+        if full:
+            active[:] = candidates
+        f_old = f_new
+        beta_hat = b
     return beta_hat, fvals, active, i
 
 
-- 
2.43.0


From a8df71ae6b6000bc85d97276ec2027918ba9d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 089/219] fix: lasso_accelerated_grad stopped at the first
 momentum overshoot and ignored the starting value in its first step

---
 pystatsm/pyglmnet/lasso.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyglmnet/lasso.py b/pystatsm/pyglmnet/lasso.py
index 0a72449..bb26277 100644
--- a/pystatsm/pyglmnet/lasso.py
+++ b/pystatsm/pyglmnet/lasso.py
@@ -46,14 +46,19 @@ def lasso_accelerated_grad(beta, X, y, Xty, XtX, lambda_, max_eig, n_iters=500,
     alpha = 1.0 / (2 * max_eig) 
     tau = alpha * lambda_
     fhist = np.array([lasso_obj(beta, X, y, lambda_ )])
-    theta = beta.copy()*0.0
+    theta, k = beta.copy(), 0
     for i in range(n_iters):
         g = (Xty - XtX.dot(theta)) / n
         beta_new = soft_threshold(theta + alpha * g, tau)
-        theta_new = beta_new + (1+i) / (4 + i) * (beta_new - beta)
+        theta_new = beta_new + (1+k) / (4 + k) * (beta_new - beta)
         fhist = np.append(fhist, np.array([lasso_obj(beta_new, X, y, lambda_)]), axis=0)
         if fhist[i+1, 2] > fhist[i, 2]:
-            break
+            if k==0:
+                break
+            # the momentum overshot: drop the step and restart from beta
+            theta, k, fhist[i+1] = beta.copy(), 0, fhist[i]
+            continue
+        k += 1
         dt = np.abs(beta_new - beta)
         bt = np.abs(beta) 
         if np.all(dt < bt * rtol) or np.all(dt < bt * rtol + atol):
-- 
2.43.0


From 97d2888c70aec93a3461adf435677557960bfea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:34 +0000
Subject: [PATCH 090/219] fix: binom_glmnet dropped variables for good, lost
 the last coefficient update and returned an intercept when none was fitted

---
 pystatsm/pyglmnet/binomial_eln.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 926698e..31aca96 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -262,6 +262,7 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
     fvals = np.zeros(n_iters+1)
     xv = np.zeros_like(b)
     yconj = 1.0 - y
+    candidates, full = acs.copy(), True
     for i in range(n_iters):
         eta = X.dot(b) + b0 * intercept
         eta[eta<lb] = lb
@@ -271,17 +272,18 @@ def _binom_glmnet(b, X, Xsq, y, la, dla, acs, ix, n, n_iters=2000,
         w = mu * muconj
         r = y - mu
         fvals[i] = -2.0*np.sum(y * np.log(mu) + np.log(muconj) * yconj)/n
-        b_new, b0, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
-                                               acs, ix, n)
-        
-        if np.max(xvd) < btol:
-            break
-        if i>0 and 0<(fvals[i-1]-fvals[i])<dtol:
-            break
-        else:
-            b = b_new
-        if nr_ent:
+        xv[:] = 0.0
+        b, b0_new, acs_new, xvd = binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv, la, dla, 
+                                               acs.copy(), ix, n)
+        d0 = (b0_new - b0) * intercept
+        b0 = b0 + d0
+        conv = max(np.max(xvd), d0**2 * np.mean(w)) < btol or (i>0 and 0<(fvals[i-1]-fvals[i])<dtol)
+        if conv and full:
             acs = acs_new
+            break
+        # converged only once a cycle over all of the variables changes nothing
+        full = conv or not nr_ent
+        acs = candidates if full else acs_new
     return b, b0, acs, fvals[:i]
 
 
-- 
2.43.0


From 62847083e1e948f9b96a7a4bc2ba67ec108f8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 091/219] fix: binom_elnet ignored its weights, dropped
 variables for good and measured convergence on the wrong scale

---
 pystatsm/pyglmnet/binom_eln2.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 20b3696..67cfd00 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -53,7 +53,8 @@ def objective_function(y, mu, weights, b, alpha, halc, lam):
 @numba.jit(nopython=True)
 def _welnet_cd(X, Xsq, r, w, alpha, lam, beta, active, index, max_iters=1000, 
                dtol=1e-10):
-    active_vars = index[active]
+    candidates = active.copy()
+    active_vars, full = index[active], True
     xv = np.zeros(X.shape[1])
     la, dla = lam * alpha, lam * (1.0 - alpha)
     b0, b = beta[0], beta[1:]
@@ -75,17 +76,21 @@ def _welnet_cd(X, Xsq, r, w, alpha, lam, beta, active, index, max_iters=1000,
                 d = b[j] - bj
                 xv[j] = d**2 * xwx[j]
                 r = r - d * w * xj
-                dlx = max(xv[j]*d**2, dlx)
+                dlx = max(xv[j], dlx)
             if b[j]==0:
                 active[j] = False
-        if i==0:
-            active_vars = index[active]
         d = np.sum(r) / wsum
         b0 = b0 + d
         r = r - d * w
         dlx = max(dlx, wsum * d**2)
-        if abs(dlx)<dtol:
+        conv = abs(dlx)<dtol
+        if conv and full:
             break
+        # variables that left are tried again before declaring convergence
+        full = conv
+        active[:] = candidates if full else candidates & (b != 0)
+        active_vars = index[active]
+    active[:] = candidates
     return b, b0, active
     
     
@@ -121,6 +126,12 @@ def get_eta_mu(X, b, b0):
     w = mu * (1.0 - mu)
     return eta, mu, w
 
+@numba.jit(nopython=True)
+def _working_values(y, mu, w, weights):
+    # weights sum to one, and the coordinate descent divides by n
+    n = len(y)
+    return weights * n * (y - mu), weights * n * w
+
 @numba.jit(nopython=True)
 def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index, 
                     n_iters=100, dtol=1e-6, ftol=1e-7, store_betas=False, 
@@ -134,13 +145,13 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
         betas = None
     eta, mu, w = get_eta_mu(X, beta[1:], beta[0])
     weights = weights / np.sum(weights)
-    r = (y - mu)
+    r, w = _working_values(y, mu, w, weights)
     fvals[0] = objective_function(y, mu, weights, beta[1:], alpha, halc, lam)
     for i in range(1, n_iters):
         b, b0, active = _welnet_cd(X, Xsq, r, w , alpha, lam, beta.copy(),
                                    active, index, max_iters, dtol)
         eta, mu, w = get_eta_mu(X, b, b0)
-        r = (y - mu)
+        r, w = _working_values(y, mu, w, weights)
         fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
         ii = 0
         if fvals[i]>fvals[i-1]+1e-7:
@@ -151,7 +162,7 @@ def _binom_elnet_cd(lam, beta, active, X, Xsq, y, weights, alpha, halc, index,
                 b = (beta[1:] + b) / 2
                 b0 = (beta[0] + b0) / 2
                 eta, mu, w = get_eta_mu(X, b, b0)
-                r = (y - mu)
+                r, w = _working_values(y, mu, w, weights)
                 fvals[i] = objective_function(y, mu, weights, b, alpha, halc, lam)
         step_halves[i] = ii
         if store_betas:
-- 
2.43.0


From 29fc4de14913f9ec399fe016f2f905d2c3575afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 092/219] fix: binom_elnet_path returned each coefficient
 vector one lambda late and ignored its weights

---
 pystatsm/pyglmnet/binom_eln2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglmnet/binom_eln2.py b/pystatsm/pyglmnet/binom_eln2.py
index 67cfd00..74b533a 100644
--- a/pystatsm/pyglmnet/binom_eln2.py
+++ b/pystatsm/pyglmnet/binom_eln2.py
@@ -200,15 +200,16 @@ def binom_elnet(X, y, lam, alpha=0.99, weights=None, cd_kws=None):
     
 
 def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_bar=None):
+    X = (X - X.mean(axis=0)) / X.std(axis=0)
+    weights = np.ones_like(y) if weights is None else weights
     if (lambdas is None) or (type(lambdas) in [int, float]):
         if lambdas is None:
             n_lambdas = 150
         else:
             n_lambdas = int(lambdas)
-        lambdas = get_lambdas(X, y, np.ones_like(y), n_lambdas, alpha)
+        lambdas = get_lambdas(X, y, weights, n_lambdas, alpha)
     else:
         n_lambdas = len(lambdas)
-    X = (X - X.mean(axis=0)) / X.std(axis=0)
     b0, mu, eta = get_intercept(y, weights)
     halc = (1 - alpha) / 2.0
     Xsq = X**2
@@ -216,7 +217,6 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
     betas = np.zeros((n_lambdas+1, n_var+1))
     fvals_hist = []
     fvals, active, index = np.zeros(n_lambdas+1), np.ones(n_var, dtype=bool), np.arange(n_var)
-    weights = np.ones_like(y)
     betas[0, 0] = b0
     
     default_cd_kws = dict(X=X, Xsq=Xsq, y=y, weights=weights, alpha=alpha,
@@ -229,7 +229,7 @@ def binom_elnet_path(X, y, weights, alpha, lambdas=None, cd_kws=None, progress_b
     pbar = tqdm.tqdm(total=n_lambdas, smoothing=0.0001) if progress_bar is None else progress_bar
     for i, lam in enumerate(lambdas):
         active = np.ones(n_var, dtype=bool)
-        beta, fval, _, _ = _binom_elnet_cd(lam, betas[i], active, **cd_kws)
+        beta, fval, _, _ = _binom_elnet_cd(lam, betas[i].copy(), active, **cd_kws)
         betas[i+1] = beta
         fvals_hist.append(fval)
         fvals[i+1] = fval[-1]
-- 
2.43.0


From 2c7b3b5cee023508ca77f62b085fee077f9afdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 093/219] fix: cv_binom_glmnet left the intercept out of the
 held-out deviance and started from the wrong lambda_max

---
 pystatsm/pyglmnet/binomial_eln.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/binomial_eln.py b/pystatsm/pyglmnet/binomial_eln.py
index 31aca96..e5b67d2 100644
--- a/pystatsm/pyglmnet/binomial_eln.py
+++ b/pystatsm/pyglmnet/binomial_eln.py
@@ -454,7 +454,8 @@ def cv_binom_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, btol=1e-4, dtol=
             nl = 150
         else:
             nl = int(lambdas)
-        b0 = X.T.dot(y - np.log(y.mean() / (1.0 - y.mean()))) / X.shape[0]
+        mu0 = y.mean() if intercept else 0.5
+        b0 = X.T.dot(y - mu0) / X.shape[0]
         if lmin_pct is None:
             lmin_pct = X.shape[1] / X.shape[0] * 100.0
         lambda_min = sp.stats.scoreatpercentile(np.abs(b0), lmin_pct) if lmin is None else lmin
@@ -494,7 +495,7 @@ def cv_binom_glmnet(cv, X, y, alpha=0.99, lambdas=None, b=None, btol=1e-4, dtol=
                                        active=active, btol=btol, dtol=dtol,
                                        n_iters=n_iters, pmin=pmin,nr_ent=nr_ent, 
                                        intercept=intercept)
-            fi = binom_eval(yt[k], Xt[k].dot(bi), bi, alpha, lambda_)
+            fi = binom_eval(yt[k], Xt[k].dot(bi) + b0, bi, alpha, lambda_)
             betas_cv[i+1, k] = bi
             b0s_cv[i+1, k] = b0
             fvals[i, k] = fi
-- 
2.43.0


From fa5bce1a8248a5f2f0b15eee03fcb41651d6277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 094/219] fix: GLMEN.fit raised for the binomial family,
 intercept and n_iters were ignored, and predict dropped the binomial
 intercept and link

---
 pystatsm/pyglmnet/glmen.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglmnet/glmen.py b/pystatsm/pyglmnet/glmen.py
index 70b90ca..e636d20 100644
--- a/pystatsm/pyglmnet/glmen.py
+++ b/pystatsm/pyglmnet/glmen.py
@@ -7,7 +7,7 @@ Created on Sat Jun 12 01:23:16 2021
 import patsy
 import numpy as np
 import pandas as pd
-from .binomial_eln import binom_glmnet
+from .binomial_eln import binom_glmnet, inv_logit
 from .binomial_eln import cv_binom_glmnet
 from .gaussian_eln import elnet as gaussian_glmnet
 from .gaussian_eln import cv_glmnet as cv_gaussian_glmnet
@@ -61,7 +61,11 @@ class GLMEN:
     def fit(self, lambda_, alpha=0.99, X=None, y=None, intercept=True, n_iters=1000, **kws):
         X = self.X if X is None else X
         y = self.y if y is None else y
-        beta, active, fvals, _ = self._fit(X, y, lambda_, alpha, **kws)
+        res = self._fit(X, y, lambda_, alpha, n_iters=n_iters, intercept=intercept, **kws)
+        if self.family=="binomial":
+            beta, self.b0, active, fvals, _ = res
+        else:
+            beta, fvals, active, _ = res
         self.beta = beta 
         self.active = active
         self.fvals = fvals
@@ -74,7 +78,8 @@ class GLMEN:
                                                             cv, X, y, alpha, 
                                                             lambdas=lambdas,
                                                             n_iters=n_iters, b=b, 
-                                                            refit=refit, **kws)
+                                                            refit=refit, 
+                                                            intercept=intercept, **kws)
         self.beta_path = b_path
         self.f_path = f_path
         self.lambdas = lambdas
@@ -97,7 +102,11 @@ class GLMEN:
     def predict(self, beta=None, X=None, intercept=True):
         beta = self.beta if beta is None else beta
         X = self.X if X is None else X
-        yhat = X.dot(beta) + intercept * self.y.mean()
+        if self.family=="binomial":
+            b0 = self.b0 if np.ndim(self.b0)==0 else self.b0[self.lmin_idx]
+            yhat = inv_logit(X.dot(beta) + intercept * b0)
+        else:
+            yhat = X.dot(beta) + intercept * self.y.mean()
         return yhat
     
     
-- 
2.43.0


From 742c10e3266cf86139adeb6753b44be5f31637b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 095/219] fix: lars(method='lasso') raised ZeroDivisionError
 whenever a variable left before all had entered

---
 pystatsm/pyglmnet/lars.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyglmnet/lars.py b/pystatsm/pyglmnet/lars.py
index 675f1e9..9b9f01c 100644
--- a/pystatsm/pyglmnet/lars.py
+++ b/pystatsm/pyglmnet/lars.py
@@ -46,8 +46,9 @@ def lars_add_var(cj_, j, G, L, C, active, s, ind):
 
 def lars_drop_var(L, betas, active, s, ind, drops, i):
     drop_ix, = np.where(drops)
-    for k in drop_ix:
-        L = chol_downdate(L, k)
+    for m, k in enumerate(drop_ix[::-1]):
+        n_active = len(active) - m
+        L[:n_active, :n_active] = chol_downdate(L[:n_active, :n_active].copy(), k)
     active_ix = active[drop_ix]
     betas[i, active_ix] = 0.0
     active = active[~drops]
-- 
2.43.0


From b88bc5ed55e1b212f56767b4d662c7b3ba515003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 096/219] fix: lasso_accelerated_grad took a momentum step that
 stood still for convergence

---
 pystatsm/pyglmnet/lasso.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyglmnet/lasso.py b/pystatsm/pyglmnet/lasso.py
index bb26277..cee857c 100644
--- a/pystatsm/pyglmnet/lasso.py
+++ b/pystatsm/pyglmnet/lasso.py
@@ -58,13 +58,14 @@ def lasso_accelerated_grad(beta, X, y, Xty, XtX, lambda_, max_eig, n_iters=500,
             # the momentum overshot: drop the step and restart from beta
             theta, k, fhist[i+1] = beta.copy(), 0, fhist[i]
             continue
-        k += 1
         dt = np.abs(beta_new - beta)
         bt = np.abs(beta) 
+        beta = beta_new
         if np.all(dt < bt * rtol) or np.all(dt < bt * rtol + atol):
-            beta = beta_new
-            break
+            if k==0:
+                break
+            # not moving while carried by momentum is not yet convergence
+            theta, k = beta.copy(), 0
         else:
-            beta = beta_new
-            theta = theta_new
+            theta, k = theta_new, k + 1
     return beta, fhist  
-- 
2.43.0


From 97b0084560076188517d04504bbb68be748b3f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 097/219] fix: LMM standard errors of the variance parameters
 use the fitted criterion (ML or REML)

---
 pystatsm/pylmm/lmm.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 80eb4c1..5e563fe 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -463,18 +463,24 @@ class LMM(object):
         ZtPy = Z.T.dot(Py)
         PPy = W.dot(Py) - WX.dot(U.dot(Py))
         ZtPPy =  Z.T.dot(PPy)
+        # the trace terms come from log|V|, or from log|V|+log|X'V^-1X| (reml)
+        if reml:
+            T, ZtT, ZtTZ = W - WX.dot(U), ZtP, ZtPZ
+        else:
+            W, WZ = W.toarray(), WZ.toarray()
+            T, ZtT, ZtTZ = W, WZ.T, Z.T.dot(WZ)
         H = self.H * 0.0
         PJ, yPZJ, ZPJ = [], [], []
         ix = []
         for i in range(self.levels):
             ind = self.jac_inds[i]
-            ZtPZi = ZtPZ[ind]
+            ZtTZi = ZtTZ[ind]
             ZtPyi = ZtPy[ind]
-            ZtPi = ZtP[ind]
+            ZtTi = ZtT[ind]
             for dGdi in self.random_effects.terms[i].G_deriv:
-                PJ.append(dGdi.dot(ZtPZi))
+                PJ.append(dGdi.dot(ZtTZi))
                 yPZJ.append(dGdi.dot(ZtPyi))
-                ZPJ.append((dGdi.dot(ZtPi)).T)
+                ZPJ.append((dGdi.dot(ZtTi)).T)
                 ix.append(ind)
 
         t_indices = list(zip(*np.triu_indices(len(self.theta)-1)))
@@ -486,14 +492,13 @@ class LMM(object):
                     + (2 * (yPZJi.T.dot(ZtPZij)).dot(JjZPy))[0]
             H[i, j] = H[j, i] = Hij
         dR = self.dR
-        dRZtP = (dR.dot(ZtP.T))
+        dRZtP = (dR.dot(ZtT.T))
         for i in range(len(self.theta)-1):
             yPZJi = yPZJ[i]
             ZPJi = ZPJ[i]
             ZtPPyi = ZtPPy[ix[i]]
             H[i, -1] = H[-1, i] = 2*yPZJi.T.dot(ZtPPyi) - np.einsum('ij,ji->', ZPJi.T, dRZtP[:, ix[i]])
-        P = W - WX.dot(U)
-        H[-1, -1] = Py.T.dot(PPy)*2 - np.einsum("ij,ji->", P, P)
+        H[-1, -1] = Py.T.dot(PPy)*2 - np.einsum("ij,ji->", T, T)
         return H
 
 
@@ -580,11 +585,11 @@ class LMM(object):
             re_corrs[i] = v.dot(C).dot(v)
 
         if analytic_se:
-            Htheta = self.hessian(theta)
+            Htheta = self.hessian(theta, reml)
         elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta)
+            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
         else:
-            Htheta = so_fc_cd(self.loglike, theta)
+            Htheta = so_fc_cd(self.loglike, theta, args=(reml,))
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
-- 
2.43.0


From bb30f5bfdff6d6ce341830cf8bf0a0a8e769a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 098/219] fix: LMM and LMM2 tables give signed t statistics and
 two-sided p values

---
 pystatsm/pylmm/lmm.py    | 4 ++--
 pystatsm/pylmm/re_mod.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 5e563fe..758c896 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -650,13 +650,13 @@ class LMM(object):
         res = np.vstack((self.params, self.se_params)).T
         res = pd.DataFrame(res, index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
+        res['p'] = 2.0 * sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
         res['degfree'] = (self.X.shape[0] - self.X.shape[1])*1.0
         if adjusted_pvals:
             L = np.eye(self.X.shape[1])
             L_list = [L[[i]] for i in range(self.X.shape[1])]
             adj_table = pd.DataFrame(self.approx_degfree(L_list), index=self.fe_vars)
-            res.loc[self.fe_vars, 't'] = adj_table['F']**0.5
+            res.loc[self.fe_vars, 't'] = adj_table['F']**0.5 * np.sign(self.beta)
             res.loc[self.fe_vars, 'degfree'] = adj_table['df2']
             res.loc[self.fe_vars, 'p'] = adj_table['p']
         self.res = res
diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index f32be69..df39927 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1133,7 +1133,7 @@ class LMM2(object):
         res = pd.DataFrame(np.vstack([self.params, self.se_params]).T,
                            index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(n_obs - n_fe).sf(np.abs(res['t']))
+        res['p'] = 2.0 * sp.stats.t(n_obs - n_fe).sf(np.abs(res['t']))
         res['degfree'] = float(n_obs - n_fe)
         self.res = res
         self.sumstats = pd.DataFrame(
-- 
2.43.0


From 0db03b10a3b9276975c5fa3910f553f915a4a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 099/219] fix: LMM2 Satterthwaite degrees of freedom use the
 covariance of the variance parameters

---
 pystatsm/pylmm/re_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index df39927..fa0544f 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -1305,7 +1305,7 @@ class LMM2(object):
             f = float(np.sum(t2) / q)
             D = np.array([[float(x.dot(Ji).dot(x)) for Ji in J] for x in P[:q]])
             nu_d = np.array([D[i].dot(Vtheta).dot(D[i]) for i in range(q)])
-            nu_m = u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
+            nu_m = 2.0 * u[:q] ** 2 / np.maximum(nu_d, np.finfo(float).tiny)
             keep = nu_m > 2
             E = float(np.sum(nu_m[keep] / (nu_m[keep] - 2.0)))
             nu = float(2.0 * E / (E - q)) if E > q else np.nan
-- 
2.43.0


From 6a0175dff4189a27489ea0f002741b4c1752e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 100/219] fix: LMM and LMM2 fits with a singular estimate give
 a result instead of raising

---
 pystatsm/pylmm/lmm.py                   | 28 ++++++++++++++++---------
 pystatsm/pylmm/re_mod.py                | 13 +++++++++---
 pystatsm/utilities/linalg_operations.py |  5 +++++
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 758c896..91b2a0c 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -16,7 +16,7 @@ from ..utilities.linalg_operations import invech_chol, invech, vech
 from ..utilities.numerical_derivs import fo_fc_cd, so_fc_cd, so_gc_cd
 from ..utilities.formula import parse_random_effects
 
-from ..utilities.linalg_operations import cholesky, cholesky_AAt
+from ..utilities.linalg_operations import cholesky, cholesky_AAt, not_posdef_errors
 import pandas as pd
 
 
@@ -584,16 +584,21 @@ class LMM(object):
             v = np.diag(np.sqrt(1/np.diag(C)))
             re_corrs[i] = v.dot(C).dot(v)
 
-        if analytic_se:
-            Htheta = self.hessian(theta, reml)
-        elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
-        else:
-            Htheta = so_fc_cd(self.loglike, theta, args=(reml,))
+        try:
+            if analytic_se:
+                Htheta = self.hessian(theta, reml)
+            elif use_grad:
+                Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
+            else:
+                Htheta = so_fc_cd(self.loglike, theta, args=(reml,))
+            Hinv_theta = np.linalg.pinv(Htheta/2.0)
+        except not_posdef_errors:
+            # singular fit: the criterion is not differentiable at the boundary
+            Hinv_theta = np.full((len(theta), len(theta)), np.nan)
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
-        self.Hinv_theta = np.linalg.pinv(Htheta/2.0)
+        self.Hinv_theta = Hinv_theta
         self.se_beta = np.sqrt(np.diag(XtWX_inv))
         self.se_theta = np.sqrt(np.diag(self.Hinv_theta))
         self.se_params = np.concatenate([self.se_beta, self.se_theta])
@@ -652,7 +657,7 @@ class LMM(object):
         res['t'] = res['estimate'] / res['SE']
         res['p'] = 2.0 * sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
         res['degfree'] = (self.X.shape[0] - self.X.shape[1])*1.0
-        if adjusted_pvals:
+        if adjusted_pvals and np.all(np.isfinite(self.Hinv_theta)):
             L = np.eye(self.X.shape[1])
             L_list = [L[[i]] for i in range(self.X.shape[1])]
             adj_table = pd.DataFrame(self.approx_degfree(L_list), index=self.fe_vars)
@@ -666,7 +671,10 @@ class LMM(object):
         theta = self.theta if theta is None else theta
         beta = self.beta if beta is None else beta
         C = np.linalg.inv(self.vinvcrossprod(self.X, self.X, theta))
-        Vtheta = np.linalg.inv(so_gc_cd(self.gradient, theta))
+        if theta is self.theta:
+            Vtheta = self.Hinv_theta / 2.0
+        else:
+            Vtheta = np.linalg.inv(so_gc_cd(self.gradient, theta))
         J = []
         for i in range(self.levels):
             ind = self.jac_inds[i]
diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index fa0544f..a004c00 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -31,7 +31,8 @@ from ..utilities.linalg_operations import (invech_chol,
                                            _vech, vech,
                                            _vec,
                                            cholesky,
-                                           analyze)
+                                           analyze,
+                                           not_posdef_errors)
 from ..utilities.formula import parse_random_effects
 from ..utilities.indexing_utils import vech_inds_reverse
 from ..utilities.param_transforms import CholeskyCov, CombinedTransform
@@ -1090,9 +1091,15 @@ class LMM2(object):
         self.beta, self.XtVinvX_inv, self.u = self.compute_effects(theta_hat)
         self.se_beta = np.sqrt(np.diag(self.XtVinvX_inv))
 
-        H = so_gc_cd(self.gradient, theta_hat, args=(reml,))
+        try:
+            H = so_gc_cd(self.gradient, theta_hat, args=(reml,))
+            Hinv = np.linalg.pinv(H / 2.0)
+        except not_posdef_errors:
+            # singular fit: the criterion is not differentiable at the boundary
+            H = np.full((len(theta_hat), len(theta_hat)), np.nan)
+            Hinv = H.copy()
         self.H_theta = H
-        self.Hinv_theta = np.linalg.pinv(H / 2.0)
+        self.Hinv_theta = Hinv
         self.se_theta = np.sqrt(np.diag(self.Hinv_theta))
 
         n_obs = self.mme.n_obs
diff --git a/pystatsm/utilities/linalg_operations.py b/pystatsm/utilities/linalg_operations.py
index 9cdd1b5..93d9afb 100644
--- a/pystatsm/utilities/linalg_operations.py
+++ b/pystatsm/utilities/linalg_operations.py
@@ -30,6 +30,11 @@ if _cholmod is not None:
 else:
     _SKSPARSE_NEW_API = False
 
+# what the dense and sparse factorizations raise for an indefinite matrix
+not_posdef_errors = (np.linalg.LinAlgError,) + tuple(
+    getattr(_cholmod, name) for name in
+    ('CholmodNotPositiveDefiniteError',) if hasattr(_cholmod, name))
+
 
 def _to_csc(A):
     if _SKSPARSE_NEW_API and not isinstance(A, sp.sparse.csc_array):
-- 
2.43.0


From d17156fca5318b3992ca1479908ad46e1a264490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 101/219] fix: LMM.loglike is right under the sparse
 factorisation's own ordering

---
 pystatsm/pylmm/lmm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 91b2a0c..76d7655 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -158,14 +158,19 @@ class LMM(object):
         Ginv = self.update_gmat(theta, inverse=True)
         M = self.update_mme(Ginv, theta)
         if (M.nnz / np.prod(M.shape) < sparsity_threshold) and use_sparse:
-            L = cholesky(M.tocsc()).L().toarray()
+            # the fill reducing ordering need not keep y last
+            chol_fac = cholesky(M.tocsc())
+            e_y = np.zeros(M.shape[0])
+            e_y[-1] = 1.0
+            ytPy = 1.0 / chol_fac.solve_A(e_y)[-1]
+            logdetC = chol_fac.slogdet()[1] - np.log(ytPy)
         else:
             L = np.linalg.cholesky(M.toarray())
-        ytPy = np.diag(L)[-1]**2
+            ytPy = np.diag(L)[-1]**2
+            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
         logdetG = self.lndet_gmat(theta)
         logdetR = np.log(theta[-1]) * self.Z.shape[0]
         if reml:
-            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
             ll = logdetR + logdetC + logdetG + ytPy
         else:
             Q = Ginv + self.ZtZ / theta[-1]
-- 
2.43.0


From 34df0077e49bb48522320189705591807e527777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 102/219] fix: LMM2 is right (and stays in its buffers) when a
 random effect column is zero within a group

---
 pystatsm/pylmm/re_mod.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index a004c00..720318b 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -78,6 +78,19 @@ def sparsity(a):
     return a.nnz / np.prod(a.shape)
 
 
+def _fill_pattern(A, B):
+    """A with explicit zeros wherever B has an entry and A has none."""
+    A, B = A.tocoo(), B.tocoo()
+    data = np.concatenate([A.data, np.zeros(B.nnz)])
+    rows = np.concatenate([A.row, B.row])
+    cols = np.concatenate([A.col, B.col])
+    C = sp.sparse.csc_array((data, (rows, cols)), shape=A.shape)
+    C.sort_indices()
+    C.indptr = C.indptr.astype(np.int32)
+    C.indices = C.indices.astype(np.int32)
+    return C
+
+
 def _resolve_a(a_cov):
     n = a_cov.shape[0]
     if sp.sparse.issparse(a_cov):
@@ -656,7 +669,7 @@ class MMEBlocked(BaseMME):
             self._initialize_unweighted()
         else:
             self._initialize_weighted()
-        self.C = self.ZtRZ + self.G
+        self.C = _fill_pattern(self.ZtRZ, self.G)
 
     def _initialize_unweighted(self):
         ZtR = self.Zt.dot(self.R).tocsc()
@@ -664,7 +677,8 @@ class MMEBlocked(BaseMME):
         ZtR_dR_RZ = sp.sparse.csc_array.dot(ZtRdR, ZtR.T).tocsc()
 
         ZtZ = sp.sparse.csc_array.dot(self.Zt, self.Zt.T).tocsc()
-        ZtZ.sort_indices()
+        # C and the gradient are filled in place over the pattern of G
+        ZtZ = _fill_pattern(ZtZ, self.G)
         ZtRZ = ZtZ.copy()                       # persistent buffer
         ZtRZ.sort_indices()
 
-- 
2.43.0


From b3bf35b3453834e0f6df9f24b7d12651b68cc76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 103/219] fix: random effects correlated across levels work for
 any pattern and memory order

---
 pystatsm/pylmm/re_mod.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylmm/re_mod.py b/pystatsm/pylmm/re_mod.py
index 720318b..ba14581 100644
--- a/pystatsm/pylmm/re_mod.py
+++ b/pystatsm/pylmm/re_mod.py
@@ -97,11 +97,13 @@ def _resolve_a(a_cov):
         a_csc = a_cov.tocsc()
         fac = cholesky(sp.sparse.csc_matrix(a_csc))
         a_inv = sp.sparse.csc_matrix(fac.solve_A(sp.sparse.eye(n, format='csc')))
-        return a_csc, a_inv
+        # G and its inverse share one buffer, so they share one pattern
+        return _fill_pattern(a_csc, a_inv), _fill_pattern(a_inv, a_csc)
     A = np.asarray(a_cov)
     L = np.linalg.cholesky(A)
     A_inv = sp.linalg.cho_solve((L, True), np.eye(n))
-    return sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    A, A_inv = sp.sparse.csc_matrix(A), sp.sparse.csc_matrix(A_inv)
+    return _fill_pattern(A, A_inv), _fill_pattern(A_inv, A)
 
 
 class BaseCovarianceStructure(metaclass=ABCMeta):
@@ -214,8 +216,8 @@ class BaseProductCovariance(metaclass=ABCMeta):
         pass
 
     def accumulate_gradient(self, par_offset, sl, ZtRZ, L_zz, T_zx, v_y,
-                            T_xx_inv, reml, grad):
-        L_zz_blk_t = L_zz[sl].T.tocsc()
+                            T_xx_inv, reml, grad, L_zz_sl=None):
+        L_zz_blk_t = (L_zz_sl if L_zz_sl is not None else L_zz[sl]).T.tocsc()
         ZtRZ_blk = ZtRZ[sl, sl]
         T_zx_blk = T_zx[sl]
         v_y_blk = v_y[sl]
@@ -328,7 +330,7 @@ class KronAG(BaseProductCovariance):
 
     def _update_gdata(self, G0, inv, out):
         A = self.a_inv if inv else self.a_cov
-        sparse_dense_kron_inplace(A, G0, out)
+        sparse_dense_kron_inplace(A, np.asfortranarray(G0), out)
 
     def get_logdet(self, params, out=0.0):
         G0 = invech(params)
@@ -337,7 +339,7 @@ class KronAG(BaseProductCovariance):
 
     def dcov_dparams(self, params, i):
         dG0_i = self.unstructured_cov.dcov_dparams(params, i).copy()
-        dGi = sparse_dense_kron(self.a_cov, dG0_i)
+        dGi = sparse_dense_kron(self.a_cov, np.asfortranarray(dG0_i))
         dGi.eliminate_zeros()
         return dGi
 
-- 
2.43.0


From 7be538bcf5935aab2036e24e7b410ba63f459b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 104/219] fix: LMM2 gradient is right under the sparse
 factorisation's own ordering

---
 pystatsm/utilities/python_wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pystatsm/utilities/python_wrappers.py b/pystatsm/utilities/python_wrappers.py
index b73be9c..15dc6a5 100644
--- a/pystatsm/utilities/python_wrappers.py
+++ b/pystatsm/utilities/python_wrappers.py
@@ -318,6 +318,9 @@ def block_diag_self_dot(L_csr, ng, nv, out=None):
     out[a, b] = sum_j sum_p L[j*nv+a, p] * L[j*nv+b, p]."""
     if out is None:
         out = np.zeros((nv, nv), dtype=np.double)
+    # the kernel merges rows, so their column indices have to be sorted
+    if not L_csr.has_sorted_indices:
+        L_csr = L_csr.sorted_indices()
     cs_block_diag_self_dot_wrapper(L_csr.indptr.astype(np.int32, copy=False),
                                    L_csr.indices.astype(np.int32, copy=False),
                                    L_csr.data.astype(np.double, copy=False),
-- 
2.43.0


From 3e623caf6e04a14388abc03b63ee38de6f5ccc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:34 +0000
Subject: [PATCH 105/219] fix: LMM.pls applies the factorisation's permutation

---
 pystatsm/pylmm/lmm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/lmm.py b/pystatsm/pylmm/lmm.py
index 76d7655..77e264c 100644
--- a/pystatsm/pylmm/lmm.py
+++ b/pystatsm/pylmm/lmm.py
@@ -189,11 +189,11 @@ class LMM(object):
         ZtWy = ZtW.dot(Wy)
         LtZtW = (L.T.dot(ZtW)).tocsc()
         Lfactor = cholesky_AAt(LtZtW, beta=1)
-        cu    = Lfactor.solve_L(L.T.dot(ZtWy), use_LDLt_decomposition=False)
-        RZX   = Lfactor.solve_L(L.T.dot(ZtWX), use_LDLt_decomposition=False)
+        cu    = Lfactor.solve_L(Lfactor.apply_P(L.T.dot(ZtWy)), use_LDLt_decomposition=False)
+        RZX   = Lfactor.solve_L(Lfactor.apply_P(L.T.dot(ZtWX)), use_LDLt_decomposition=False)
         RXtRX = XtWX - RZX.T.dot(RZX)
         b = np.linalg.solve(RXtRX, XtWy - RZX.T.dot(cu))
-        v = Lfactor.solve_Lt(cu - RZX.dot(b), use_LDLt_decomposition=False)
+        v = Lfactor.apply_Pt(Lfactor.solve_Lt(cu - RZX.dot(b), use_LDLt_decomposition=False))
         u = L.dot(v)
         mu = X.dot(b) + Z.dot(u)
         wtres = W.dot(y - mu)
-- 
2.43.0


From 321cd14796795b1c90b8bc47d7c0fc6933197f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 106/219] fix: VarCorrReparam orders the correlations like vech
 for four or more variables

---
 pystatsm/pylmm/model_matrices.py | 7 ++++---
 pystatsm/pylmm/prf.py            | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index 8a09ba9..d202894 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -213,10 +213,11 @@ class VarCorrReparam:
             i, j = np.triu_indices(n_vars)
             ix = np.arange(start, start+n_params)
             start += n_params
-            gix[key] = {"v":np.diag_indices(n_vars), "r":np.tril_indices(n_vars, k=-1)}
             tix[key] = {"v":ix[i==j], "r":ix[i!=j]}
-            i, j = np.tril_indices(n_vars)
-            dix[key] = i[i!=j], j[i!=j]
+            # below the diagonal, in the order of vech
+            j, i = np.triu_indices(n_vars, k=1)
+            gix[key] = {"v":np.diag_indices(n_vars), "r":(i, j)}
+            dix[key] = i, j
         self.dims = dims
         self.ix = indices
         self.gix, self.tix, self.dix = gix, tix, dix
diff --git a/pystatsm/pylmm/prf.py b/pystatsm/pylmm/prf.py
index 422e35c..0139073 100644
--- a/pystatsm/pylmm/prf.py
+++ b/pystatsm/pylmm/prf.py
@@ -24,10 +24,11 @@ class VarCorrReparam:
             i, j = np.triu_indices(n_vars)
             ix = np.arange(start, start+n_params)
             start += n_params
-            gix[key] = {"v":np.diag_indices(n_vars), "r":np.tril_indices(n_vars, k=-1)}
             tix[key] = {"v":ix[i==j], "r":ix[i!=j]}
-            i, j = np.tril_indices(n_vars)
-            dix[key] = i[i!=j], j[i!=j]
+            # below the diagonal, in the order of vech
+            j, i = np.triu_indices(n_vars, k=1)
+            gix[key] = {"v":np.diag_indices(n_vars), "r":(i, j)}
+            dix[key] = i, j
         self.dims = dims
         self.ix = indices
         self.gix, self.tix, self.dix = gix, tix, dix
-- 
2.43.0


From 5c2d1b5aae89a44aec50fc21cd7f9b56bf33faff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 107/219] fix: pysem indexers use np.prod (np.product is gone
 from numpy)

---
 pystatsm/pysem/model_mats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/model_mats.py b/pystatsm/pysem/model_mats.py
index d48e7b2..23421e9 100644
--- a/pystatsm/pysem/model_mats.py
+++ b/pystatsm/pysem/model_mats.py
@@ -75,7 +75,7 @@ class FlattenedIndicatorIndices(object):
             _size = triangular_number(shape[-1])
         else:
             v = _vec(array)
-            _size = np.product(shape[-2:])
+            _size = np.prod(shape[-2:])
         self._shape = shape
         self._size = _size
         self._symmetric = symmetric
-- 
2.43.0


From cdb95661fc14f2820a39514ce829dbecda50f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 108/219] fix: pysem2 leaves no unit residual variance on
 observed variables of the structural part

---
 pystatsm/pysem2/model_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index 79457b8..da52f7d 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -263,7 +263,7 @@ class ParameterMapping:
             elif i == 2:
                 mat_template = np.eye(mat_dims[i][0])
             elif i == 3:
-                inx = [ov_order[x] for x in var_names["onx"]]
+                inx = [ov_order[x] for x in var_names["obs"] - var_names["lav"]]
                 mat_template[inx, inx] = 1.0
             else:
                 mat_template = np.zeros(mat_dims[i])
-- 
2.43.0


From 3423c58a1d3dc35a6238566e97525dea61588d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 109/219] fix: SEM data columns outside the model do not enter
 the fit function

---
 pystatsm/pysem/model_data.py  | 5 +++++
 pystatsm/pysem2/model_data.py | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/pystatsm/pysem/model_data.py b/pystatsm/pysem/model_data.py
index 026c436..276bbbf 100644
--- a/pystatsm/pysem/model_data.py
+++ b/pystatsm/pysem/model_data.py
@@ -43,12 +43,17 @@ class ModelData(object):
     def subset_and_order(self, variables):
         if isinstance(variables, dict):
             variables = list(variables.keys())
+        if hasattr(self, "data_df"):
+            self.data_df = self.data_df.loc[:, variables]
+            self.data = self.data_df.values
 
         for i in range(self.n_groups):
             self.sample_cov_df[i] = self.sample_cov_df[i].loc[variables, variables]
             self.sample_mean_df[i] = self.sample_mean_df[i][variables]
             self.sample_cov[i] = self.sample_cov_df[i].values
             self.sample_mean[i] = self.sample_mean_df[i].values
+            lndS = np.linalg.slogdet(self.sample_cov[i])[1]
+            self.const[i] = -lndS - self.sample_cov[i].shape[0]
 
     @staticmethod
     def _convert_to_dict(data):
diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 61e946e..3d7e8e1 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -51,6 +51,8 @@ class ModelData(object):
             self.sample_mean_df[i] = self.sample_mean_df[i][variables]
             self.sample_cov[i] = self.sample_cov_df[i].values
             self.sample_mean[i] = self.sample_mean_df[i].values
+            lndS = np.linalg.slogdet(self.sample_cov[i])[1]
+            self.const[i] = -lndS - self.sample_cov[i].shape[0]
 
     @staticmethod
     def _convert_to_dict(data):
-- 
2.43.0


From ea8f673bb75a70f920f5dcd1482d5d1963e93707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 110/219] fix: SEM gradients with equality constraints on the
 last parameters

---
 pystatsm/pysem/param_table.py | 6 +++---
 pystatsm/pysem2/indexers.py   | 4 ++--
 pystatsm/pysem2/model_base.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index c0f766c..e6b6dd1 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -28,8 +28,8 @@ def _default_sort_key(item):
     return (alphabetic_part, numeric_part)
 
 
-def equality_constraint_mat(unique_locs):
-    n = unique_locs.max()+1
+def equality_constraint_mat(unique_locs, n=None):
+    n = unique_locs.max() + 1 if n is None else n
     m = len(unique_locs)
     row = np.arange(m)
     col = unique_locs
@@ -527,7 +527,7 @@ class BaseModel:
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(
             unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(indices, len(ftable))
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
diff --git a/pystatsm/pysem2/indexers.py b/pystatsm/pysem2/indexers.py
index e21bb07..c5b79ff 100644
--- a/pystatsm/pysem2/indexers.py
+++ b/pystatsm/pysem2/indexers.py
@@ -205,8 +205,8 @@ class BlockFlattenedArrays:
         self.colex_descending_inds = np.vstack(self._tril_inds).T
 
 
-def equality_constraint_mat(unique_locs):
-    n = unique_locs.max() + 1
+def equality_constraint_mat(unique_locs, n=None):
+    n = unique_locs.max() + 1 if n is None else n
     m = len(unique_locs)
     row = np.arange(m)
     col = unique_locs
diff --git a/pystatsm/pysem2/model_base.py b/pystatsm/pysem2/model_base.py
index da52f7d..cdcff5c 100644
--- a/pystatsm/pysem2/model_base.py
+++ b/pystatsm/pysem2/model_base.py
@@ -442,7 +442,7 @@ class ModelBase(ParameterTable, FixedValueManager, ParameterMapping):
         unique_values, inverse_mapping, indices = indexing_utils.unique(ftable["label"])
         unique_labels = pd.Series(unique_values)
         label_to_ind = pd.Series(unique_labels.index, index=unique_labels.values)
-        self.dfree_dtheta = equality_constraint_mat(indices)
+        self.dfree_dtheta = equality_constraint_mat(indices, len(ftable))
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
-- 
2.43.0


From df859d0c33aedac4f6a1a137dd5acd3c75abfe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 111/219] fix: pysem2 SEM.fit works without optimiser options

---
 pystatsm/pysem2/sem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pysem2/sem.py b/pystatsm/pysem2/sem.py
index 7f16f08..d96728a 100644
--- a/pystatsm/pysem2/sem.py
+++ b/pystatsm/pysem2/sem.py
@@ -405,6 +405,7 @@ class SEM(ModelSpecification):
         else:
             hess = None
         theta = self.theta if theta_init is None else theta_init
+        minimize_options = {} if minimize_options is None else minimize_options
         if "method" in minimize_options:
             if minimize_options["method"] == "trust-constr":
                 default_minimize_options = dict(initial_tr_radius=1.0, verbose=3)
-- 
2.43.0


From ccaba351491fcdc6a49a748b0feffbebc54516af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:30 +0000
Subject: [PATCH 112/219] fix: second derivatives of the SEM means in two
 regression coefficients

---
 pystatsm/pysem/derivatives.py  | 2 +-
 pystatsm/pysem2/derivatives.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/derivatives.py b/pystatsm/pysem/derivatives.py
index 00ee46b..54270df 100644
--- a/pystatsm/pysem/derivatives.py
+++ b/pystatsm/pysem/derivatives.py
@@ -86,7 +86,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(Ji.dot(B).dot(Jj) + Jj.dot(B).dot(Ji)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
diff --git a/pystatsm/pysem2/derivatives.py b/pystatsm/pysem2/derivatives.py
index be669a9..10a4a56 100644
--- a/pystatsm/pysem2/derivatives.py
+++ b/pystatsm/pysem2/derivatives.py
@@ -81,7 +81,7 @@ def _d2sigma_mu(d2Sm, L, B, F, b, dA, m_size, m_type, d2_inds, vind, n, p2):
             dSij = LB.dot(t1 + t1.T + t3 + t4).dot(LB.T)
             d2Sm[:p2, i, j] += dSij.T.flatten()[vind]
             d2Sm[:p2, j, i] = d2Sm[:p2, i, j]
-            dmij = LB.dot(Ji).dot(B).dot(Jj).dot(Bb)
+            dmij = LB.dot(Ji.dot(B).dot(Jj) + Jj.dot(B).dot(Ji)).dot(Bb)
             d2Sm[p2:, i, j] += dmij.flatten()
             d2Sm[p2:, j, i] = d2Sm[p2:, i, j]
         elif kind == 5:
-- 
2.43.0


From ecf896ca9bf8daae6b979e968a7e1d82da0e6583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 113/219] fix: pysem SEM starts variances written in the
 formula at a positive value

---
 pystatsm/pysem/param_table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index e6b6dd1..96e870e 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -531,7 +531,9 @@ class BaseModel:
         self._unique_locs, self._first_locs = inverse_mapping, indices
         self.free_df = ftable
         self.free_df["theta_index"] = ftable["label"].map(label_to_ind)
-        self.free = self.free_df["start"].fillna(0).values
+        # variances written in the formula start like the ones added by default
+        is_var = (self.free_df["lhs"] == self.free_df["rhs"]) & (self.free_df["rel"] == "~~")
+        self.free = self.free_df["start"].fillna(is_var.astype(float)).values
         self.dfree_dgroup = {}
         self.free_to_group_free = {}
         for i in range(self.n_groups):
-- 
2.43.0


From 9f7f216f529456247d003c8be59e3297482b099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:24 +0000
Subject: [PATCH 114/219] fix: SEM models can be given by sample moments

---
 pystatsm/pysem/model_data.py  | 9 ++++-----
 pystatsm/pysem2/model_data.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pysem/model_data.py b/pystatsm/pysem/model_data.py
index 276bbbf..220e550 100644
--- a/pystatsm/pysem/model_data.py
+++ b/pystatsm/pysem/model_data.py
@@ -69,6 +69,7 @@ class ModelData(object):
             arr, df = data.values, data
             arr = arr.reshape(1, -1)
         elif isinstance(data, np.ndarray):
+            data = np.atleast_2d(data)
             columns = [f"x{i}" for i in range(1, data.shape[1]+1)]
             arr, df = data, pd.DataFrame(data, columns=columns)
         return arr, df
@@ -121,12 +122,10 @@ class ModelData(object):
         sample_cov_df = {}
         sample_mean_df = {}
         for i in range(n_groups):
-            sample_cov[i], sample_cov_df[i] = cls._to_dataframe_and_array(
-                sample_cov[i])
-            sample_mean[i], sample_mean_df[i] = cls._to_dataframe_and_array(
-                sample_mean[i])
+            sample_cov_df[i] = cls._to_dataframe_and_array(sample_cov[i])[1]
+            sample_mean_df[i] = cls._to_dataframe_and_array(sample_mean[i])[1]
 
-        return cls(sample_cov=sample_cov, sample_mean=sample_mean, n_obs=n_obs, ddof=ddof)
+        return cls(sample_cov=sample_cov_df, sample_mean=sample_mean_df, n_obs=n_obs, ddof=ddof)
 
 
 # class ModelData(object):
diff --git a/pystatsm/pysem2/model_data.py b/pystatsm/pysem2/model_data.py
index 3d7e8e1..29a4a72 100644
--- a/pystatsm/pysem2/model_data.py
+++ b/pystatsm/pysem2/model_data.py
@@ -68,6 +68,7 @@ class ModelData(object):
             arr, df = data.values, data
             arr = arr.reshape(1, -1)
         elif isinstance(data, np.ndarray):
+            data = np.atleast_2d(data)
             columns = [f"x{i}" for i in range(1, data.shape[1] + 1)]
             arr, df = data, pd.DataFrame(data, columns=columns)
         return arr, df
@@ -122,9 +123,7 @@ class ModelData(object):
         sample_cov_df = {}
         sample_mean_df = {}
         for i in range(n_groups):
-            sample_cov[i], sample_cov_df[i] = cls._to_dataframe_and_array(
-                sample_cov[i])
-            sample_mean[i], sample_mean_df[i] = cls._to_dataframe_and_array(
-                sample_mean[i])
+            sample_cov_df[i] = cls._to_dataframe_and_array(sample_cov[i])[1]
+            sample_mean_df[i] = cls._to_dataframe_and_array(sample_mean[i])[1]
 
-        return cls(sample_cov=sample_cov, sample_mean=sample_mean, n_obs=n_obs, ddof=ddof)
+        return cls(sample_cov=sample_cov_df, sample_mean=sample_mean_df, n_obs=n_obs, ddof=ddof)
-- 
2.43.0


From 8c862343867dd1bc035d952fe8cbfb2f4d7fbefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 115/219] fix: SEM loadings that share the label of the fixed
 first loading are fixed with it

---
 pystatsm/pysem/param_table.py    | 5 +++++
 pystatsm/pysem2/model_builder.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index 96e870e..6f43005 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -297,6 +297,11 @@ class BaseModel:
                 if ~np.any(ltable.loc[ix, "fixed"]):
                     param_df.loc[ltable.index[ix][0], "fixed"] = True
                     param_df.loc[ltable.index[ix][0], "fixedval"] = 1.0
+                    label = param_df.loc[ltable.index[ix][0], "label"]
+                    if not pd.isnull(label):
+                        # equality constraints tie the other parameters to 1.0
+                        param_df.loc[param_df["label"] == label, "fixed"] = True
+                        param_df.loc[param_df["label"] == label, "fixedval"] = 1.0
         self.param_df = param_df
 
     @property
diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index ff0d73e..92d4ae3 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -304,6 +304,11 @@ class ModelBuilder:
                     if ~np.any(ltable.loc[ix, "fixed"]):
                         param_df.loc[ltable.index[ix][0], "fixed"] = True
                         param_df.loc[ltable.index[ix][0], "fixedval"] = 1.0
+                        label = param_df.loc[ltable.index[ix][0], "label"]
+                        if not pd.isnull(label):
+                            # equality constraints tie the other parameters to 1.0
+                            param_df.loc[param_df["label"] == label, "fixed"] = True
+                            param_df.loc[param_df["label"] == label, "fixedval"] = 1.0
                     
         self.param_df = param_df
         
-- 
2.43.0


From 0902b30c5b096ca1a0d37e31670ef8f432004b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 116/219] fix: SEM variances of latent variables are fixed at 1
 with fix_lv_var

---
 pystatsm/pysem/param_table.py    | 1 +
 pystatsm/pysem2/model_builder.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index 6f43005..475592a 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -241,6 +241,7 @@ class BaseModel:
                 row["fixed"] = True
             elif var in var_names["nob"] and fix_lv_cov:
                 row["fixed"] = True
+                row["fixedval"] = 1.0
             list_of_param_dicts.append(row)
         self.param_df = pd.DataFrame(list_of_param_dicts)
 
diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index 92d4ae3..563a56d 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -91,6 +91,7 @@ class ModelBuilder:
                 row["fixed"] = True
             elif var in var_names["nob"] and fix_lv_cov:
                 row["fixed"] = True
+                row["fixedval"] = 1.0
             else:
                 row["fixed"] = False
             list_of_param_dicts.append(row)
-- 
2.43.0


From 21580125d7c8d6f6eacbafae89cccad7d68391e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 117/219] fix: SEM options lvx_cov and y_cov take effect

---
 pystatsm/pysem/param_table.py    | 2 +-
 pystatsm/pysem2/model_builder.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pysem/param_table.py b/pystatsm/pysem/param_table.py
index 475592a..f4cfabe 100644
--- a/pystatsm/pysem/param_table.py
+++ b/pystatsm/pysem/param_table.py
@@ -73,7 +73,7 @@ class BaseModel:
         fix_lv_cov = self.kwargs.get('fix_lv_cov', False)
         self.add_variances(fix_lv_cov=fix_lv_cov)
         self.fix_first()
-        lvx_cov = self.kwargs.get('fix_lv_cov', True)
+        lvx_cov = self.kwargs.get('lvx_cov', True)
         y_cov = self.kwargs.get('y_cov', True)
         self.add_covariances(lvx_cov=lvx_cov, y_cov=y_cov)
         fix_lv_mean = self.kwargs.get('fix_lv_mean', True)
diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index 563a56d..a8c6a87 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -27,7 +27,7 @@ class ModelBuilder:
         fix_lv_var : bool, optional
             whether to fix the latent variable variance to 1.0. Default is False.
         lvx_cov : bool, optional
-            whether to include covariances for all latent exogenous variables. Default is False.
+            whether to include covariances for all latent exogenous variables. Default is True.
         y_cov : bool, optional
             whether to include covariances for all observed variables. Default is True.
         fix_lv_mean : bool, optional
@@ -35,7 +35,7 @@ class ModelBuilder:
         """
         self.add_variances(fix_lv_cov=kwargs.get('fix_lv_var', False))
         self.fix_first(vars_to_fix=kwargs.get('fix_first', True))
-        self.add_covariances(lvx_cov=~kwargs.get('lvx_cov', False), y_cov=~kwargs.get('y_cov', True))
+        self.add_covariances(lvx_cov=kwargs.get('lvx_cov', True), y_cov=kwargs.get('y_cov', True))
         self.add_means(fix_lv_mean=kwargs.get('fix_lv_mean', True))
         self.add_latent_dummies()
         self.check_initital_loadings()
-- 
2.43.0


From 64b31509450ec22e8d8bf0aed3107bf774a4d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 118/219] fix: SEM option fix_first=False leaves every loading
 free

---
 pystatsm/pysem2/model_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pysem2/model_builder.py b/pystatsm/pysem2/model_builder.py
index a8c6a87..f111a30 100644
--- a/pystatsm/pysem2/model_builder.py
+++ b/pystatsm/pysem2/model_builder.py
@@ -287,6 +287,8 @@ class ModelBuilder:
         vnob = var_names["nob"]
         if vars_to_fix is None or vars_to_fix is True: #woof
             vars_to_fix = {v:True for v in vnob}
+        elif vars_to_fix is False:
+            vars_to_fix = {v:False for v in vnob}
         elif type(vars_to_fix) is not dict:
             raise ValueError("Expected dictionary or a a boolean")
         #else we have a dict
-- 
2.43.0


From 94e759de21a9e98eb60b1ed22b1c65289221ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 119/219] fix: SEM SRMR standardises the residuals by both
 standard deviations

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 17692b6..cf185d7 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -494,7 +494,7 @@ class SEM:
         EVCI = LL + 2.0 * t / (self.n_obs - self.p - 2.0)
         resids = Sigma - self.S
         v = np.diag(np.sqrt(1.0 / np.diag(self.S)))
-        std_sq_resids = vech(v.dot(resids**2).dot(v))
+        std_sq_resids = vech(v.dot(resids).dot(v))**2
         resids = vech(resids)
         
         RMR = np.sqrt(np.mean(resids**2))
-- 
2.43.0


From 3814d375a9ee75bf407f40afadd76f4f6a9f8f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 120/219] fix: SEM chi-square test uses the model's degrees of
 freedom

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index cf185d7..9f2045e 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -477,7 +477,7 @@ class SEM:
         LLF = self.n_obs * LL + self.n_obs * self.p * np.log(2.0 * np.pi)
         fval =  LL - self.ldS - self.p
         Chi2 = (self.n_obs - 1) * fval
-        Chi2_pval = sp.stats.chi2(t).sf(Chi2)
+        Chi2_pval = sp.stats.chi2(df).sf(Chi2)
         GFI = 1.0 - np.trace((SV - self.Ip).dot(SV-self.Ip)) / np.trace(SV.dot(SV))
         if df!=0:
             AGFI = 1.0 - (self.df_cov / df) *  (1.0 - GFI)
-- 
2.43.0


From fda0da5395e537d32289707c0b6fa2326ce7f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 121/219] fix: SEM critical N at levels 0.01 and 0.05 carry the
 right names

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 9f2045e..71e6c4b 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -487,7 +487,7 @@ class SEM:
             AGFI = np.nan
             Standardized_Chi2 = np.nan
             RMSEA = np.nan
-        CN01, CN05 = sp.stats.chi2(df).ppf([0.95, 0.99]) / fval + 1.0
+        CN05, CN01 = sp.stats.chi2(df).ppf([0.95, 0.99]) / fval + 1.0
 
         AIC = LLF + 2.0  * t
         BIC = LLF + np.log(self.n_obs) * t
-- 
2.43.0


From b09f54d7276a6b567d5885b4e1a4c93eea6c36ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 122/219] fix: SEM labels of loadings and regressions follow
 the order of the parameters

---
 pystatsm/pysem/sem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 71e6c4b..6c7357b 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -118,10 +118,10 @@ class SEM:
                 
         ovn, svn = Lambda.index, Lambda.columns
         
-        ix1, ix2 = np.where(LAf)
+        ix2, ix1 = np.where(LAf.T) #same order as vec(LAf)
         lambda_labels = [f"{x}<-{y}" for x,y in list(zip(ovn[ix1], svn[ix2]))]
         
-        ix1, ix2 = np.where(BEf)
+        ix2, ix1 = np.where(BEf.T)
         beta_labels = [f"{x}~{y}" for x,y in list(zip(svn[ix1], svn[ix2]))]
         
         ix1, ix2 = [], []
-- 
2.43.0


From 23e4dc3ed967d612686a2bd1196a5f5bb83531c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 123/219] fix: SEM scales each latent variable by its first
 specified indicator

---
 pystatsm/pysem/sem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 6c7357b..26bf139 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -85,7 +85,7 @@ class SEM:
         if indicator_vars is None:
             for i, var in enumerate(Lambda.columns):
                 if (Phi.loc[var, var]!=0.0) or ((LAf.loc[:, var]!=0).sum()==1):
-                    vi = np.argmax(LAf.loc[:, var])
+                    vi = np.argmax(LAf.loc[:, var] != 0)
                     LAf.iloc[vi, i] = 0.0
         else:
             LAf = LAf - indicator_vars
-- 
2.43.0


From 33e126197a28e0a43e2e0f24d726ab1787a04741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:52 +0000
Subject: [PATCH 124/219] fix: SEM aligns every model matrix with the data

---
 pystatsm/pysem/sem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pystatsm/pysem/sem.py b/pystatsm/pysem/sem.py
index 26bf139..a3437ba 100644
--- a/pystatsm/pysem/sem.py
+++ b/pystatsm/pysem/sem.py
@@ -69,6 +69,9 @@ class SEM:
         if S is None:
             S = data.cov(ddof=0)
         Lambda = Lambda.loc[S.index] #Align loadings and variable order
+        Psi = Psi.loc[S.index, S.index]
+        Beta = Beta.loc[Lambda.columns, Lambda.columns]
+        Phi = Phi.loc[Lambda.columns, Lambda.columns]
         
         n_mvars, n_lvars = Lambda.shape 
         
-- 
2.43.0


From ba24b4bcb2d66dcbe6432c92c48955af1de4136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 125/219] fix: oblique constraint derivatives work with current
 scipy (kmat has no .A)

---
 pystatsm/pyfa/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 856026c..84022a7 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -595,7 +595,7 @@ def oblique_constraint_derivs(params, model):
     gamma = model._gamma
     p, q  = L.shape
     Iq = np.eye(q)
-    Kpq = kmat(p, q).A
+    Kpq = kmat(p, q).toarray()
     L2 = L**2
     A = np.eye(p) -  np.ones((p, p)) * gamma / p
     B = np.ones((q, q)) - np.eye(q)
-- 
2.43.0


From 326f08673b50e483ab4089abd2aafffb9f492192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 126/219] fix: target rotation weights enter the criterion as
 in its gradient

---
 pystatsm/pyfa/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 84022a7..1555899 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -337,7 +337,7 @@ class TargetRotation(RotationMethod):
         self.W, self.H = W, H
 
     def Q(self, L):
-        f = np.sum((self.W * (L - self.H))**2) / 2
+        f = np.sum(self.W * (L - self.H)**2) / 2
         return f
 
     def dQ(self, L):
@@ -346,7 +346,7 @@ class TargetRotation(RotationMethod):
 
     def vgQ(self, L):
         Gq = self.W * (L - self.H)
-        fq = np.sum(Gq**2) / 2
+        fq = self.Q(L)
         return fq, Gq
 
 
-- 
2.43.0


From 9d3b6ba38896f08e2836d84b21a076d03183f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 127/219] fix: quartimax does not penalise the column sums of
 squared loadings

---
 pystatsm/pyfa/rotation.py   | 4 ++--
 pystatsm/pyfa2/criterion.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 1555899..513af4a 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -175,7 +175,7 @@ def get_gcf_constants(method, p, m):
     if method == 'varimax':
         consts = dict(k1=0.0, k2=(p-1)/p, k3=1/p, k4=-1)
     elif method == 'quartimax':
-        consts = dict(k1=0.0, k2=1, k3=1, k4=-1)
+        consts = dict(k1=0.0, k2=1, k3=0, k4=-1)
     elif method == 'equamax':
         consts = dict(k1=0.0, k2=1-m/(2.0 * p), k3=m/(2.0 * p), k4=-1)
     elif method == 'parsimax':
@@ -197,7 +197,7 @@ class GeneralizedCrawfordFerguson(RotationMethod):
         elif method == 'quartimax':
             k1 = 0.0
             k2 = 1.0
-            k3 = 1.0
+            k3 = 0.0
             k4 = -1.0
         elif method == 'equamax':
             k1 = 0.0
diff --git a/pystatsm/pyfa2/criterion.py b/pystatsm/pyfa2/criterion.py
index 8cda5b7..3d8b71c 100644
--- a/pystatsm/pyfa2/criterion.py
+++ b/pystatsm/pyfa2/criterion.py
@@ -6,7 +6,7 @@ def _gcf_constants(method, p, m):
     if method == 'varimax':
         return (0.0, (p - 1) / p, 1 / p, -1.0)
     if method == 'quartimax':
-        return (0.0, 1.0, 1.0, -1.0)
+        return (0.0, 1.0, 0.0, -1.0)
     if method == 'equamax':
         return (0.0, 1 - m / (2.0 * p), m / (2.0 * p), -1.0)
     if method == 'parsimax':
-- 
2.43.0


From 6ddb7f3c88d24a3074b1276a2e7982d5816fb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 128/219] fix: rotations take descent steps whatever the scale
 of the loadings

---
 pystatsm/pyfa/rotation.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index 513af4a..c72da00 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -79,7 +79,7 @@ class RotationMethod(object):
             if s<tol:
                 break
             alpha = 2.0 * alpha0
-            for c in range(10):
+            for c in range(50):
                 X = T - alpha * Gp
                 U, D, V = np.linalg.svd(X, full_matrices=False)
                 Tt = np.dot(U, V)
@@ -89,6 +89,8 @@ class RotationMethod(object):
                     break
                 else:
                     alpha = alpha * 0.5
+            else:
+                break #no descent is possible
             #if abs(ft - ft_new) < 1e-16:
             #    break
             ft, T =ft_new, Tt
@@ -112,7 +114,7 @@ class RotationMethod(object):
             if s<tol:
                 break
             alpha = 2.0 * alpha
-            for c in range(10):
+            for c in range(50):
                 X = T - alpha * Gp
                 X2 = X**2
                 V = np.diag(1 / np.sqrt(np.sum(X2, axis=0)))
@@ -124,6 +126,8 @@ class RotationMethod(object):
                     break
                 else:
                     alpha = alpha * 0.5
+            else:
+                break #no descent is possible
             if abs(ft - ft_new) <= ftol:
                 break
             ft, T =ft_new, Tt
@@ -428,7 +432,7 @@ def rotate_ortho(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=1000):
         if s<tol:
             break
         alpha = 2.0 * alpha0
-        for c in range(10):
+        for c in range(50):
             X = T - alpha * Gp
             U, D, V = np.linalg.svd(X, full_matrices=False)
             Tt = np.dot(U, V)
@@ -438,6 +442,8 @@ def rotate_ortho(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=1000):
                 break
             else:
                 alpha = alpha * 0.5
+        else:
+            break #no descent is possible
         ft, T =ft_new, Tt
         G = np.dot(A.T, Gq)
     return T, G, Gq, opt_hist
@@ -474,7 +480,7 @@ def rotate_obli(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=500):
         if s<tol:
             break
         alpha = 2.0 * alpha
-        for c in range(10):
+        for c in range(50):
             X = T - alpha * Gp
             X2 = X**2
             V = np.diag(1 / np.sqrt(np.sum(X2, axis=0)))
@@ -486,6 +492,8 @@ def rotate_obli(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=500):
                 break
             else:
                 alpha = alpha * 0.5
+        else:
+            break #no descent is possible
         ft, T =ft_new, Tt
         G = -np.linalg.multi_dot([L.T, Gq, Tinv]).T
     return T.T, G, Gq, opt_hist
-- 
2.43.0


From 02f22572d514fdf9155461df65561a16f3ba45d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 129/219] fix: equamax weights the column term by half the
 number of factors

---
 pystatsm/pyfa/rotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/rotation.py b/pystatsm/pyfa/rotation.py
index c72da00..81619bd 100644
--- a/pystatsm/pyfa/rotation.py
+++ b/pystatsm/pyfa/rotation.py
@@ -498,7 +498,7 @@ def rotate_obli(A, vgq, T=None, alpha=1.0, gamma=0, tol=1e-9, n_iters=500):
         G = -np.linalg.multi_dot([L.T, Gq, Tinv]).T
     return T.T, G, Gq, opt_hist
 
-def get_gamma_ob(criterion, p, custom_gamma):
+def get_gamma_ob(criterion, k, custom_gamma):
     if (criterion == 'quartimin') or (criterion == 'quartimax'):
         gamma = 0.0
     elif (criterion == 'biquartimin') or (criterion == 'biquartimax'):
@@ -506,7 +506,7 @@ def get_gamma_ob(criterion, p, custom_gamma):
     elif (criterion == 'varimax') or (criterion == 'covarimin'):
         gamma = 1.0
     elif (criterion == 'equamax'):
-        gamma = p / 2.0
+        gamma = k / 2.0
     elif (criterion == 'oblique'):
         gamma = custom_gamma if custom_gamma is not None else -0.1
     else:
@@ -657,7 +657,7 @@ def rotate(A, criterion, method='oblimin', rotation_type='oblique', T=None,
     '''
     p, k = A.shape
     if method == 'oblimin':
-        gamma, vgq = get_gamma_ob(criterion, p, custom_gamma), vgq_ob
+        gamma, vgq = get_gamma_ob(criterion, k, custom_gamma), vgq_ob
     elif method == 'cf':
         gamma, vgq = get_gamma_cf(criterion, p, k), vgq_cf
 
-- 
2.43.0


From a4a35fa24bcea5a2055c5ecd122a2e8b8c4a0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 130/219] fix: exploratory factor models lose the rotational
 indeterminacy from their parameter count

---
 pystatsm/pyfa/efa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index a472700..f16a7c5 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -107,7 +107,7 @@ class FactorAnalysis(object):
         ixr = np.arange(nl + ns, nl + ns + nr)
         self.ixa, self.ixl, self.ixs, self.ixr = ixa, ixl, ixs, ixr
         self.nl, self.ns, self.nr, self.nc, self.nt = nl, ns, nr, nc, nt
-        self.n_params = len(ixa) - nc
+        self.n_params = len(ixa) - 2 * nc
 
     def model_matrices_to_params(self, L, Phi, Psi):
         """
-- 
2.43.0


From 2b1634214963c7679ac90f5c85352baa53a42a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 131/219] fix: RMSEA of factor models is truncated at zero and
 uses the model's degrees of freedom

---
 pystatsm/pyfa/efa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index f16a7c5..acb4927 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -589,7 +589,7 @@ class FactorAnalysis(object):
         rni = ((chi2_null - df_null) - (chi2_full - df_full)) / (chi2_null - df_null)
         cfi = (np.maximum(chi2_null - df_null, 0) - np.maximum(chi2_full - df_full, 0))\
              /np.maximum(chi2_null - df_null, 0)
-        rmsea = np.sqrt(np.max(chi2_full - df_full, 0) / (df_null * (self.n_obs - 1)))
+        rmsea = np.sqrt(np.maximum(chi2_full - df_full, 0) / (df_full * (self.n_obs - 1)))
         gfi_ = gfi(Sigma, self.S)
         agfi_ = agfi(Sigma, self.S, df_full)
         srmr_ = srmr(Sigma, self.S, df_full)
-- 
2.43.0


From cb4b12db04e9708bbdac11ffd1e876ad8e14e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 132/219] fix: factor analysis starts from positive unique
 variances in the units of the data

---
 pystatsm/pyfa/efa.py             | 3 +--
 pystatsm/pyfa/factor_analysis.py | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index acb4927..f52bb8d 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -85,8 +85,7 @@ class FactorAnalysis(object):
 
     def _init_psi(self):
         self.pix = np.arange(self.n_vars*self.n_facs, self.n_vars*self.n_facs+self.n_vars)
-        L = self.V[:, :self.n_facs]
-        psi = np.diag(self.S - np.dot(L, L.T))
+        psi = (1.0 - self.n_facs / (2.0 * self.n_vars)) / np.diag(np.linalg.inv(self.S))
         self.psi_init = psi
         self.rho_init = np.log(psi)
 
diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 52d7068..7529c27 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -88,8 +88,8 @@ class FactorAnalysis(object):
         self.theta = np.zeros(self.n_pars)
         self.lix = np.arange(self.n_vars*self.n_facs)
         self.pix = np.arange(self.n_vars*self.n_facs, self.n_vars*self.n_facs+self.n_vars)
-        L = self.V[:, :self.n_facs]
-        psi = np.diag(self.S - np.dot(L, L.T))
+        L = self.V[:, :self.n_facs] * np.sqrt(self.u[:self.n_facs])
+        psi = (1.0 - self.n_facs / (2.0 * self.n_vars)) / np.diag(np.linalg.inv(self.S))
         self.theta[self.lix] = vec(L)
         self.theta[self.pix] = np.log(psi)
 
-- 
2.43.0


From bd0449d86794b9c8790a4d3c2318be87146cf0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 133/219] fix: sorted factors keep their own signs

---
 pystatsm/pyfa/efa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index f52bb8d..3467f5e 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -372,10 +372,11 @@ class FactorAnalysis(object):
         order = np.argsort(np.sum(L**2, axis=0))
         sign = np.sign(np.sum(L, axis=0))
         perm_mat = np.diag(sign)[:, order]
+        sign = sign[order]
         L = L[:, order] * sign
         T = T[:, order] * sign
         Phi = Phi[order, order[None].T]
-        Phi = sign[:,None] * Phi * sign[: None].T
+        Phi = sign[:,None] * Phi * sign
         return L, T, Phi, perm_mat
 
     def params_to_model_matrices(self, params):
-- 
2.43.0


From 227ed505355bbebef7f7ecd02026bef675e60582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 134/219] fix: the first hessian of a factor model is not off
 by a stray identity

---
 pystatsm/pyfa/factor_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 7529c27..fd579fd 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -200,7 +200,7 @@ class FactorAnalysis(object):
         H2 = 1.0 * DGp.T.dot(W2).dot(DGp)
 
         Hpp = []
-        Dp, Ik, E = self.Dp, self.Ik, self.E
+        Dp, Ik, E = self.Dp, self.Ik, self.E*0.0
         Hij = np.zeros((self.n_pars, self.n_pars))
         for i in range(self.n_vars):
             for j in range(i, self.n_vars):
@@ -278,7 +278,7 @@ class FactorAnalysis(object):
     def d2sigma_augmented(self, params):
         L, Phi, Psi = self.model_matrices_augmented(params)
         Hpp = []
-        Ik, E = self.Ik, self.E
+        Ik, E = self.Ik, self.E*0.0
         ix = vech(np.eye(L.shape[1]))!=1
         Hij = np.zeros((self.nt, self.nt))
         for i in range(self.n_vars):
@@ -395,7 +395,7 @@ class FactorAnalysis(object):
         H2 = 1.0 * DGp.T.dot(W2).dot(DGp)
         ix = vech(np.eye(L.shape[1]))!=1
         Hpp = []
-        Dp, Ik, E = self.Dp, self.Ik, self.E
+        Dp, Ik, E = self.Dp, self.Ik, self.E*0.0
         Hij = np.zeros((self.nt, self.nt))
         for i in range(self.n_vars):
             for j in range(i, self.n_vars):
-- 
2.43.0


From 0467c80eed02c2b1f35b700fc13d9d6c0c53f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 135/219] fix: likelihood ratio test of a factor model uses its
 degrees of freedom

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 pystatsm/pyfa/fit_measures.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index fd579fd..476a44e 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -570,7 +570,7 @@ class FactorAnalysis(object):
 
         """
         t = (self.n_vars + 1.0) * self.n_vars / 2.0
-        k = len(self.theta)
+        k = len(self.theta) - self.n_facs * (self.n_facs - 1) // 2
         degfree = t  - k
         GFI = gfi(Sigma, self.S)
         AGFI = agfi(Sigma, self.S, degfree)
diff --git a/pystatsm/pyfa/fit_measures.py b/pystatsm/pyfa/fit_measures.py
index 8bb11d7..582af9a 100644
--- a/pystatsm/pyfa/fit_measures.py
+++ b/pystatsm/pyfa/fit_measures.py
@@ -38,7 +38,7 @@ def lr_test(Sigma, S, df, n):
     Sigma_inv = np.linalg.pinv(Sigma)
     chi2 = (lndSigma + np.trace(Sigma_inv.dot(S)) - lndS - p) * n
     chi2 = np.maximum(chi2, 1e-12)
-    pval = sp.stats.chi2.sf(chi2, (p + 1)*p/2)
+    pval = sp.stats.chi2.sf(chi2, df)
     return chi2, pval
 
 def gfi(Sigma, S):
-- 
2.43.0


From 75ea590a98ffd9de781470fa9d0e7fb02b006c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 136/219] fix: unrotated loadings are canonical, as their
 standard errors assume

---
 pystatsm/pyfa/factor_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 476a44e..f8ce252 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -608,6 +608,9 @@ class FactorAnalysis(object):
                                         hess=hess, method='trust-constr', **opt_kws)
         self.theta = self.opt.x.copy()
         self.A, self.Psi = self.model_matrices(self.theta)
+        _, V = eighs(np.dot(self.A.T / np.diag(self.Psi), self.A))
+        self.A = np.dot(self.A, V)
+        self.theta[self.lix] = vec(self.A)
 
         if self.rotation_method is not None:
             self._rotate.A = self.A
-- 
2.43.0


From 4e289e989801731713553141e58668c5bc8cfcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 137/219] fix: canonical constraints are differentiated in the
 unique variances, not their logarithms

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index f8ce252..4b245d4 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -483,7 +483,7 @@ class FactorAnalysis(object):
         Psi_inv = np.diag(1.0 / np.diag(Psi))
         A = L.T.dot(Psi_inv)
         Dpsi = self.Dpsi
-        Dpsi.data = np.diag(Psi)
+        Dpsi.data = np.ones(self.n_vars)
         J1 = self.Nk.dot(np.kron(self.Ik, A))
         J2 =-np.kron(A, A)
         J2 = (Dpsi.T.dot(J2.T)).T
-- 
2.43.0


From 5e7047ee33123ac34157cf5b8ae9f3fa807a163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 138/219] fix: factor scores are computed from the covariance
 the loadings belong to

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 4b245d4..535d8eb 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -771,7 +771,7 @@ class FactorAnalysis(object):
 
         """
         X = self.X - np.mean(self.X, axis=0)
-        R = corr(X)
+        R = self.S
         L, Phi = self.L, self.Phi
         A = L.dot(Phi)
         if method == "thurstone":
-- 
2.43.0


From fca955aa2e122ebaca16d2594e12bec9c39de45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 139/219] fix: factor models fit from a covariance matrix have
 no scores to compute

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 535d8eb..67250ea 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -739,7 +739,7 @@ class FactorAnalysis(object):
                                 columns=res_cols, index=param_labels)
         self.L = pd.DataFrame(self.L, index=self.cols, columns=fcols)
         
-        if compute_factors:
+        if compute_factors and self.X is not None:
             factor_coefs, factors = self.compute_factors(factor_method)
             self.factor_coefs = pd.DataFrame(factor_coefs, index=self.cols, columns=fcols)
             self.factors = pd.DataFrame(factors, index=self.inds, columns=fcols)
-- 
2.43.0


From 2c714f7e98d4e3d6f5cb805938e9d8e0e5ad8611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 140/219] fix: log-likelihood of an obliquely rotated factor
 model includes the factor correlations

---
 pystatsm/pyfa/factor_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index 67250ea..affb8d7 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -578,7 +578,7 @@ class FactorAnalysis(object):
         stdchi2 = (chi2 - degfree) /  np.sqrt(2 * degfree)
         RMSEA = np.sqrt(np.maximum(chi2 -degfree, 0)/(degfree*(self.n_obs-1)))
         SRMR = srmr(Sigma, self.S, degfree)
-        llval = -(self.n_obs-1)*self.loglike(self.theta)/2
+        llval = -(self.n_obs-1)*self.loglike_augmented(self.params)/2
         BIC = k * np.log(self.n_obs) -2 * llval
         AIC = 2 * k - 2*llval
         sumstats = dict(GFI=GFI, AGFI=AGFI, chi2=chi2, chi2_pvalue=chi2p,
-- 
2.43.0


From e37a0c5b930a35f812d80c19800d36afd7fb82f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 141/219] fix: exact draws of a factor model come from its own
 generator

---
 pystatsm/pyfa/simulate_factor_model.py | 2 +-
 pystatsm/utilities/random.py           | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 6bee17f..1878d8c 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -81,7 +81,7 @@ class FactorModelSim(object):
         
     def simulate_data(self, n_obs=1000, exact=True):
         if exact:
-            Z = exact_rmvnorm(n=n_obs, S=self.C)
+            Z = exact_rmvnorm(n=n_obs, S=self.C, rng=self.rng)
         else:
             Z = self.rng.multivariate_normal(mean=np.zeros(self.n_vars+self.n_facs),
                                              cov=self.C, size=n_obs)
diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index fee88aa..8aaa36b 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -64,14 +64,18 @@ def onion_corr(d, eta=1, beta=None):
 
 
 @numba.jit(nopython=True)
-def exact_rmvnorm(S, n=1000, mu=None, seed=None):
+def exact_rmvnorm(S, n=1000, mu=None, seed=None, rng=None):
     if seed is not None:
         np.random.seed(seed)
     p = S.shape[0]
+    if rng is None:
+        Z = np.random.normal(0.0, 1.0, size=(n, p))
+    else:
+        Z = rng.normal(0.0, 1.0, size=(n, p))
     U, d, _ = np.linalg.svd(S)
     d = d.reshape(1, -1)
     L = U * d**0.5
-    X = _csd(np.random.normal(0.0, 1.0, size=(n, p)))
+    X = _csd(Z)
     R = _corr(X)
     L = L.dot(np.linalg.inv(np.linalg.cholesky(R)))
     X = X.dot(L.T)
-- 
2.43.0


From 1a10a0ba2f233760794466eafa3b4aacb4840baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 142/219] fix: random factor correlations are a matrix

---
 pystatsm/pyfa/simulate_factor_model.py | 2 +-
 pystatsm/pyfa2/simulation.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyfa/simulate_factor_model.py b/pystatsm/pyfa/simulate_factor_model.py
index 1878d8c..a0c8fff 100644
--- a/pystatsm/pyfa/simulate_factor_model.py
+++ b/pystatsm/pyfa/simulate_factor_model.py
@@ -49,7 +49,7 @@ class FactorModelSim(object):
         r_kws = {} if r_kws is None else r_kws
         r_kws = {**default_r_kws, **r_kws}
         if random:
-            Phi = r_lkj(n=1, dim=self.n_facs, rng=self.rng, **r_kws)
+            Phi = r_lkj(n=1, dim=self.n_facs, rng=self.rng, **r_kws).reshape(self.n_facs, self.n_facs)
         else:
             Phi = rho**sp.linalg.toeplitz(np.arange(self.n_facs))
             s = (-1)**np.arange(self.n_facs).reshape(-1, 1)
diff --git a/pystatsm/pyfa2/simulation.py b/pystatsm/pyfa2/simulation.py
index 7c52563..ac0bbdf 100644
--- a/pystatsm/pyfa2/simulation.py
+++ b/pystatsm/pyfa2/simulation.py
@@ -32,7 +32,7 @@ def generate_loadings(p, m, low=0.4, high=0.9, random=False, rng=None):
 
 def generate_factor_corr(m, rho=0.5, random=False, eta=2.0, rng=None):
     if random:
-        return r_lkj(n=1, dim=m, eta=eta, rng=rng)
+        return r_lkj(n=1, dim=m, eta=eta, rng=rng).reshape(m, m)
     Phi = rho ** sp.linalg.toeplitz(np.arange(m))
     s = (-1) ** np.arange(m).reshape(-1, 1)
     return s * Phi * s.T
-- 
2.43.0


From 02243f77734a7ffbb4f76a567a2b624595919e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 143/219] fix: a correlation matrix of one variable can be
 drawn

---
 pystatsm/utilities/random.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/utilities/random.py b/pystatsm/utilities/random.py
index 8aaa36b..1ccf208 100644
--- a/pystatsm/utilities/random.py
+++ b/pystatsm/utilities/random.py
@@ -210,6 +210,8 @@ def r_lkj_cholesky(eta=1.0, n=1, dim=1, rng=None, seed=None):
 
     eta = np.atleast_1d(eta)
     batch_shape = np.concatenate([[n], np.shape(eta)], axis=0).astype(np.int32)
+    if dim == 1:
+        return np.ones(list(batch_shape) + [1, 1])
     beta = eta + (dim - 2.) / 2.
     dimension_range = np.arange(1., dim)
     a = dimension_range / 2.
-- 
2.43.0


From baeb789b3e76e8876cf33f86821a4610e6f4ee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 144/219] fix: build the pseudo inverse of the unique variance
 Hessian from the eigenpairs, as a numerical rank decision lets rounding blow
 it up

---
 pystatsm/pyfa/efa.py             | 5 +++--
 pystatsm/pyfa/factor_analysis.py | 5 +++--
 pystatsm/pyfa2/likelihood.py     | 4 ++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyfa/efa.py b/pystatsm/pyfa/efa.py
index 3467f5e..e04214d 100644
--- a/pystatsm/pyfa/efa.py
+++ b/pystatsm/pyfa/efa.py
@@ -229,11 +229,12 @@ class FactorAnalysis(object):
         W = s.T * S * s
         u, V = np.linalg.eigh(W)
         B = np.zeros((p, p))
-        Ip = np.eye(p)
         for i in range(q):
             A = np.outer(V[:, i], V[:, i])
             b1 = (2 * u[i] - 1) * A
-            b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
+            d = u[i] - u
+            d[i] = np.inf
+            b2 = 2 * u[i] * (u[i] - 1) * (V / d).dot(V.T)
             B+= (b1 + b2) * A
         H = Psi_inv.dot(B).dot(Psi_inv)
         return H
diff --git a/pystatsm/pyfa/factor_analysis.py b/pystatsm/pyfa/factor_analysis.py
index affb8d7..b025897 100644
--- a/pystatsm/pyfa/factor_analysis.py
+++ b/pystatsm/pyfa/factor_analysis.py
@@ -437,11 +437,12 @@ class FactorAnalysis(object):
         W = s.T * S * s
         u, V = np.linalg.eigh(W)
         B = np.zeros((p, p))
-        Ip = np.eye(p)
         for i in range(q):
             A = np.outer(V[:, i], V[:, i])
             b1 = (2 * u[i] - 1) * A
-            b2 = 2 * u[i] * (u[i] - 1) * np.linalg.pinv(u[i] * Ip - W)
+            d = u[i] - u
+            d[i] = np.inf
+            b2 = 2 * u[i] * (u[i] - 1) * (V / d).dot(V.T)
             B+= (b1 + b2) * A
         H = -Psi_inv.dot(B).dot(Psi_inv)
         return H
diff --git a/pystatsm/pyfa2/likelihood.py b/pystatsm/pyfa2/likelihood.py
index af31712..5d4e60d 100644
--- a/pystatsm/pyfa2/likelihood.py
+++ b/pystatsm/pyfa2/likelihood.py
@@ -101,8 +101,8 @@ class MLEstimator:
             A = np.outer(V[:, i], V[:, i])
             b1 = (2 * u[i] - 1) * A
             diffs = u[i] - u
-            inv = np.zeros_like(diffs)
-            np.divide(1.0, diffs, out=inv, where=np.abs(diffs) > 1e-12)
+            diffs[i] = np.inf
+            inv = 1.0 / diffs
             pinv_term = np.matmul(V * inv, V.T)
             b2 = 2 * u[i] * (u[i] - 1) * pinv_term
             B += (b1 + b2) * A
-- 
2.43.0


From 5cf30fe894050bd128f70265373bf470764764ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 145/219] fix: keep a leading minus when the smooths are taken
 out of a formula, so that the intercept can be removed

---
 pystatsm/pygam/smooth_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index f152958..fe07c36 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -47,7 +47,7 @@ def get_parametric_formula(formula):
     for x in re.findall(r"s\([^()]*\)", frm):
         frm = frm.replace(x, "")
     frm = re.sub(r"[+\-]{2,}", lambda m: m.group()[-1], frm)
-    frm = re.sub(r"~[+\-]+", "~", frm)
+    frm = re.sub(r"~\++", "~", frm)
     frm = re.sub(r"[+\-]+$", "", frm)
     if frm.endswith("~") or "~" not in frm:
         frm = frm + "1" if frm.endswith("~") else frm
-- 
2.43.0


From 5bc5a6a3bbed13ea1315366652a02aa363156a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 146/219] fix: LogbLink uses its offset

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index eebf2ad..7de7c92 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -22,7 +22,7 @@ from ..utilities.optimizer_utils import MemoizeGradHess
 class LogbLink(Link):
 
     def __init__(self, b=0.01):
-        self.b = 0.01
+        self.b = b
 
     def link(self, mu):
         return np.log(1.0 / mu - self.b)
-- 
2.43.0


From 7b18ccbfd4ab4812f5029fd7b3adc5c61a881caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 147/219] fix: the log pseudo determinant of a smoothing
 penalty takes as many eigenvalues as its rank

---
 pystatsm/pygam/gaussian_additive_model.py | 4 ++--
 pystatsm/pygam/smooth_setup.py            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index aff5b45..1260fd0 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -56,8 +56,8 @@ class GaussianAdditiveModel:
             S[i] = Si
             Sj.append(s['S'])
             ranks.append(np.linalg.matrix_rank(Si))
-            u = np.linalg.eigvals(s['S'])
-            ldS.append(np.log(u[u>np.finfo(float).eps]).sum())
+            u = np.linalg.eigvalsh(s['S'])
+            ldS.append(np.log(u[p_i-ranks[-1]:]).sum())
         self.X, self.Xp, self.y = np.concatenate(X, axis=1), Xp.values, y.values[:, 0]
         self.S, self.Sj, self.ranks, self.ldS = S, Sj, ranks, ldS
         self.f, self.smooths = family, smooths
diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index fe07c36..507b62f 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -113,7 +113,7 @@ def get_smooth_matrices(Xp, smooths, n_smooth_terms, n_total_params):
         X.append(smooths[var]['X'])
         S[i] = Si
         ranks.append(np.linalg.matrix_rank(Si))
-        u = np.linalg.eigvals(s['S'])
-        ldS.append(np.log(u[u>np.finfo(float).eps]).sum())
+        u = np.linalg.eigvalsh(s['S'])
+        ldS.append(np.log(u[p_i-ranks[-1]:]).sum())
     return X, S, ranks, ldS
 
-- 
2.43.0


From 99cd7f2f2cbb6b8d14ca369228c002d17baf062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 148/219] fix: p values of the additive models are two sided
 with residual degrees of freedom

---
 pystatsm/pygam/gam.py                     | 2 +-
 pystatsm/pygam/gauls.py                   | 3 ++-
 pystatsm/pygam/gaussian_additive_model.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index ddae4b4..a7ea0c6 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -675,7 +675,7 @@ class GAM:
 
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = 2.0 * sp.stats.t(self.n_obs - self.edf).sf(np.abs(t))
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 7de7c92..c55e026 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -128,6 +128,7 @@ class GauLS:
         self.ns_m = len(self.m.theta)
         self.ns_s = len(self.s.theta)
         self.y = self.m.y
+        self.n_obs = self.m.n_obs
         self.ixl = np.arange(0, self.m.Xp.shape[1])
         self.ixm = np.arange(0, self.m.X.shape[1])
         self.ixs = np.arange(self.m.X.shape[1],
@@ -1088,7 +1089,7 @@ class GauLS:
 
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = 2.0 * sp.stats.t(self.n_obs - self.edf).sf(np.abs(t))
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index 1260fd0..ed58a73 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -284,7 +284,7 @@ class GaussianAdditiveModel:
         
         c = sp.stats.norm(0, 1).ppf(1-(100-confint)/200)
         t = b/se
-        p = sp.stats.t(self.edf).sf(np.abs(t))
+        p = 2.0 * sp.stats.t(self.n_obs - self.edf).sf(np.abs(t))
         res = np.vstack((b, b-c*se, b+c*se, se, t, p)).T
         self.res = pd.DataFrame(res, index=self.varnames,
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
-- 
2.43.0


From b201db8b627a4696b14c17260922d8209dd49bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 149/219] fix: GaussianAdditiveModel sampling covariance and
 effective degrees of freedom

---
 pystatsm/pygam/gaussian_additive_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gaussian_additive_model.py b/pystatsm/pygam/gaussian_additive_model.py
index ed58a73..46d923d 100644
--- a/pystatsm/pygam/gaussian_additive_model.py
+++ b/pystatsm/pygam/gaussian_additive_model.py
@@ -268,12 +268,12 @@ class GaussianAdditiveModel:
         Jb = self.grad_beta_rho(beta, lambda_)
         C = Jb.dot(Vp[:-1, :-1]).dot(Jb.T)
         Vc = Vb + C
-        Vf = Vb.dot(XtX*scale).dot(Vb) + C
+        Vf = Vb.dot(XtX/scale).dot(Vb) + C
         self.Slambda = Slambda
         self.Vb, self.Vp, self.Vc, self.Vf = Vb, Vp, Vc, Vf
         self.opt, self.theta, self.scale = opt, theta, scale
         self.beta, self.eta, self.dev = beta, eta, dev
-        self.edf = np.trace(np.linalg.inv(Vb*XtX/scale))
+        self.edf = np.trace(Vb.dot(XtX)/scale)
         
     def fit(self, opt_kws={}, confint=95):
         self.optimize_penalty(opt_kws=opt_kws)
-- 
2.43.0


From 701734cb586b5fbc66b349211b25c7a03761442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 150/219] fix: GauLS without smooths of the mean

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index c55e026..740d2ea 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -662,7 +662,7 @@ class GauLS:
         for i, (r, lds) in enumerate(list(zip(self.m.ranks, self.m.ldS))):
             logdet += r * rho[i] + lds
         for j, (r, lds) in enumerate(list(zip(self.s.ranks, self.s.ldS))):
-            logdet += r * rho[j+i+1] + lds
+            logdet += r * rho[j+self.ns_m] + lds
         return logdet
 
     def reml(self, rho):
-- 
2.43.0


From 5603ddd06682ded127ce3840d149fe2fdaef3e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 151/219] fix: GauLS R squared uses the fitted mean, not the
 linear predictor

---
 pystatsm/pygam/gauls.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 740d2ea..47b9e43 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -1095,12 +1095,11 @@ class GauLS:
                                 columns=['param', f'CI{confint}-', f'CI{confint}+',
                                          'SE', 't', 'p'])
         yhat = self.m.X.dot(self.beta[self.ixm])
-        resids = self.y - yhat
-        ssr = np.sum(resids**2)
         sst =  np.sum((self.y - self.y.mean())**2)
         self.mu = self.m.link.inv_link(yhat)
         self.tau = self.s.link.inv_link(self.s.X.dot(self.beta[self.ixs]))
         self.resids = self.y - self.mu
+        ssr = np.sum(self.resids**2)
         self.pearson_resids = self.resids * self.tau
         self.model_deviance = np.sum(self.pearson_resids**2)
         self.null_deviance = np.sum(((self.y - self.y.mean())*self.tau)**2)
-- 
2.43.0


From 5be89de27484ade2bcf4da0df13c33dea97eaffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 152/219] fix: GauLS.predict_component looks for the intercept
 of the scale in its own predictor

---
 pystatsm/pygam/gauls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gauls.py b/pystatsm/pygam/gauls.py
index 47b9e43..01e0bab 100644
--- a/pystatsm/pygam/gauls.py
+++ b/pystatsm/pygam/gauls.py
@@ -916,7 +916,7 @@ class GauLS:
             eta_s = s.evaluate_component_basis(comp, points).dot(self.beta[self.ixs][s.smooths[comp]['ix']])
         else:
             eta_s = np.zeros_like(points)
-        if "Intercept" in m.x_varnames:
+        if "Intercept" in s.x_varnames:
             eta_s = eta_s + self.res.loc["s(Intercept)", "param"]
 
 
-- 
2.43.0


From a8279c2dbb0cb8200359eb88fd5ce1a82b06660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 153/219] fix: evaluate by-variable smooths of a GAM on new
 data

---
 pystatsm/pygam/gam.py          | 2 +-
 pystatsm/pygam/smooth_setup.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pygam/gam.py b/pystatsm/pygam/gam.py
index a7ea0c6..6e60558 100644
--- a/pystatsm/pygam/gam.py
+++ b/pystatsm/pygam/gam.py
@@ -523,7 +523,7 @@ class GAM:
         methods = {"cr":crspline_basis, "cc":ccspline_basis,"bs":bspline_basis}
         s = self.smooths[key]
         knots = s['knots']
-        x = np.linspace(knots.min(), knots.max(), 200) if data is None else data[key]
+        x = np.linspace(knots.min(), knots.max(), 200) if data is None else np.asarray(data[s['var']])
         Xs = methods[s['kind']](x, knots, **s['fkws'])
         Xs, _ = absorb_constraints(s['q'], X=Xs)
         y = Xs.dot(beta[s['ix']])
diff --git a/pystatsm/pygam/smooth_setup.py b/pystatsm/pygam/smooth_setup.py
index 507b62f..68353ee 100644
--- a/pystatsm/pygam/smooth_setup.py
+++ b/pystatsm/pygam/smooth_setup.py
@@ -86,6 +86,7 @@ def get_smooth_terms(smooth_info, Xp):
         slist = get_smooth(**val)
         if len(slist)==1:
             smooths[key], = slist
+            smooths[key]['var'] = key
             p_i = smooths[key]['X'].shape[1]
             varnames += [f"{key}{j}" for j in range(1, p_i+1)]
             n_total_params += p_i
@@ -94,6 +95,7 @@ def get_smooth_terms(smooth_info, Xp):
             for i, x in enumerate(slist):
                 by_key = f"{key}_{x['by_cat']}"
                 smooths[by_key] = x
+                smooths[by_key]['var'] = key
                 p_i = x['X'].shape[1]
                 varnames += [f"{by_key}_{j}" for j in range(1, p_i+1)]
                 n_total_params += p_i
-- 
2.43.0


From d95342ef6e223134f71ce96295dc7f0a29d71106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 154/219] fix: robust rho, psi, phi and weights of whole-number
 arguments are not truncated

---
 pystatsm/pyrobust/m_estimators.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 6c00a6d..51753b3 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -91,7 +91,7 @@ class Huber(MEstimator):
         
     def rho(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -101,7 +101,7 @@ class Huber(MEstimator):
     
     def psi(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -111,7 +111,7 @@ class Huber(MEstimator):
     
     def phi(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -120,7 +120,7 @@ class Huber(MEstimator):
     
     def weights(self, x, c=None):
         c = self.c if c is None else c
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         abs_x = np.abs(x)
         ix = abs_x <= c
         y = np.zeros_like(x)
@@ -163,7 +163,7 @@ class Bisquare(MEstimator):
         self.c = c
     
     def rho(self, x, c=None):
-        x = np.atleast_1d(x)
+        x = np.atleast_1d(np.asarray(x, dtype=float))
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -176,7 +176,7 @@ class Bisquare(MEstimator):
         return y
         
     def psi(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -187,7 +187,7 @@ class Bisquare(MEstimator):
         return y
 
     def phi(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
@@ -198,7 +198,7 @@ class Bisquare(MEstimator):
         return y
         
     def weights(self, x, c=None):
-        x = np.asarray(x)
+        x = np.asarray(x, dtype=float)
         c = self.c if c is None else c
         abs_x = np.abs(x)
         ix = abs_x <= c
-- 
2.43.0


From 131a0671823a438506098fd3fc03584e98b05efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 155/219] fix: Huber keeps the tuning constant it is given

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 51753b3..dd9aeba 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -86,7 +86,7 @@ class MEstimator(object):
 class Huber(MEstimator):
     
     def __init__(self, c=1.345):
-        self.c = 1.345
+        self.c = c
 
         
     def rho(self, x, c=None):
-- 
2.43.0


From 7e367b0d7b3516ffe089ab6a3c2d48e5f1f3591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 156/219] fix: the expectation of psi integrates psi, not rho

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index dd9aeba..8546925 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -26,7 +26,7 @@ class MEstimator(object):
         return self._normal_ev(f)
     
     def E_psi(self, c=None):
-        f = lambda x: self.rho(x, c) * norm_pdf(x)
+        f = lambda x: self.psi(x, c) * norm_pdf(x)
         return self._normal_ev(f)
         
     def E_phi(self, c=None):
-- 
2.43.0


From 3d57c3e2235dbfe2489b1e9dd1479d6e34bea852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 157/219] fix: simultaneous M-estimates of location and scale
 run, and iterate until they stop moving

---
 pystatsm/pyrobust/m_estimators.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index 8546925..c5b3c42 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -223,7 +223,7 @@ def estimate_simultaneous(x, func=Huber(), d=0.5, n_iters=200, tol=1e-6,
    
     mu, sd = np.median(x, axis=0), dispersion_est(x)
     r = (x - mu) / sd
-    f_prev = func.rho_func(r).sum()
+    f_prev = func.rho(r).sum()
     
     mu_vec = np.zeros(n_iters)
     sd_vec = np.ones(n_iters)
@@ -233,22 +233,22 @@ def estimate_simultaneous(x, func=Huber(), d=0.5, n_iters=200, tol=1e-6,
     sd_vec[0] = sd
     fvals[0] = f_prev
     
-    for i in range(n_iters):
+    for i in range(1, n_iters):
         w_mu = func.weights(r)
-        w_sd =func.scale_weights(r)
         
         mu = np.sum((w_mu * x)) / np.sum(w_mu)
-        sd = np.sqrt((sd**2) / (d * n) * np.sum(w_sd * r**2))
+        sd = np.sqrt((sd**2) / (d * n) * np.sum(func.rho(r)))
         mu_vec[i] = mu
         sd_vec[i] = sd
         r = (x - mu) / sd
         
-        f_new = func.rho_func(r).sum()
+        f_new = func.rho(r).sum()
         fvals[i] = f_new
-        if np.abs(f_new - f_prev)<tol:
+        conv = np.abs(mu - mu_vec[i-1]) + np.abs(sd - sd_vec[i-1]) < tol * sd
+        if conv:
             break
     if rethist:
-        return fvals[:i], mu_vec[:i], sd_vec[:i]
+        return fvals[:i+1], mu_vec[:i+1], sd_vec[:i+1]
     else:
         return fvals[i], mu_vec[i], sd_vec[i]
             
-- 
2.43.0


From 85c0678f181a563da15f327965685eb0d444daa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 158/219] fix: Qn is the C(h, 2)-th smallest distance, h =
 [n/2] + 1

---
 pystatsm/pyrobust/dispersion_estimators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyrobust/dispersion_estimators.py b/pystatsm/pyrobust/dispersion_estimators.py
index 1125479..0eb2004 100644
--- a/pystatsm/pyrobust/dispersion_estimators.py
+++ b/pystatsm/pyrobust/dispersion_estimators.py
@@ -107,8 +107,8 @@ def qn_estimator(x, corrected=True, *args):
     n = len(x)
     a, b = np.tril_indices(n, -1)
     m = np.fabs(x[a] - x[b])
-    h = np.ceil(n / 2) + 1
-    k = int((h * (h - 1)) / 2)
+    h = n // 2 + 1
+    k = (h * (h - 1)) // 2 - 1
     m = m[np.argsort(m)[k]]
     if corrected:
         m = m*PHI58
@@ -118,8 +118,8 @@ def qn_estimator(x, corrected=True, *args):
 def qn_estimator2(x, corrected=True):
     n = len(x)
     m = vech(np.fabs(np.subtract.outer(x, x)))
-    h = np.ceil(n / 2) + 1
-    k = int((h * (h - 1)) / 2)
+    h = n // 2 + 1
+    k = (h * (h - 1)) // 2 - 1
     m = m[np.argsort(m)[k]]
     if corrected:
         m = m*PHI58
-- 
2.43.0


From de6b08a27035639a8f401d702afc55d0e9df2b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 159/219] fix: qn_estimator2 does not count the distance of a
 value to itself

---
 pystatsm/pyrobust/dispersion_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/dispersion_estimators.py b/pystatsm/pyrobust/dispersion_estimators.py
index 0eb2004..9613694 100644
--- a/pystatsm/pyrobust/dispersion_estimators.py
+++ b/pystatsm/pyrobust/dispersion_estimators.py
@@ -119,7 +119,7 @@ def qn_estimator2(x, corrected=True):
     n = len(x)
     m = vech(np.fabs(np.subtract.outer(x, x)))
     h = n // 2 + 1
-    k = (h * (h - 1)) // 2 - 1
+    k = n + (h * (h - 1)) // 2 - 1 # the n distances from each x to itself come first
     m = m[np.argsort(m)[k]]
     if corrected:
         m = m*PHI58
-- 
2.43.0


From a259d5afffb25221744449bce0e92617f9580911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 160/219] fix: RobustLM uses the tuning constant it is given

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 5f7800e..1af069e 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -33,7 +33,7 @@ class RobustLM:
         scale_init = np.log(mad(self.y - self.X.dot(beta_init)))
         self.theta_init = np.r_[beta_init, scale_init]
         self.a = 0.5
-        self.f = Huber()
+        self.f = Huber(c=c)
 
         
     def _update_y(self, y):
-- 
2.43.0


From e5e5f471e7cb54fcbb063acbc2a01bdc6ede8ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 161/219] fix: iteratively reweighted fits of RobustLM solve
 Huber's estimating equations, with either scale

---
 pystatsm/pyrobust/rls.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 1af069e..6ad2b9a 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -116,21 +116,21 @@ class RobustLM:
             if scale == "mad":
                 s = mad(r)
             else:
-                v = (u * self.f.psi(u) -  self.f.rho(u)) * s**2
-                s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.E_psi2))
+                v = self.f.psi(r / s)**2 * s**2
+                s = np.sqrt(np.sum(v) / ((self.n_obs - self.n_var) * self.f.E_psi2()))
             u = r /s
-            w = np.sqrt(self.f.psi(u) / u)
+            w = self.f.weights(u)
             b_new = nwls(self.X, self.y, w)
             r_new = self.y - self.X.dot(b_new)
             
             d = np.sqrt(np.sum((b - b_new)**2) / (np.sum(b**2)+1e-16))
             fit_hist[i] = [d, np.sum(self.grad(np.r_[b_new, np.log(s)])**2),
                            self.rho(np.r_[b_new, np.log(s)])]
-            if d < tol:
-                break
             b = b_new
             r = r_new
-        fit_hist = fit_hist[:i]
+            if d < tol:
+                break
+        fit_hist = fit_hist[:i+1]
         return np.r_[b, np.log(s)], fit_hist
     
     def fit(self, opt_kws=None):
-- 
2.43.0


From e9518eac21a489100c6caf4ee286564be7ec59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 162/219] fix: the covariances of RobustLM are of the residuals
 over their scale

---
 pystatsm/pyrobust/rls.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 6ad2b9a..245e4f6 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -145,8 +145,8 @@ class RobustLM:
         self.scale = np.exp(self.theta[-1])
         self.resids = self.y - self.X.dot(self.beta)
         
-        self.psi_r = self.f.psi(self.resids)
-        self.phi_r = self.f.phi(self.resids)
+        self.psi_r = self.f.psi(self.resids / self.scale)
+        self.phi_r = self.f.phi(self.resids / self.scale)
         
         self.dfe = (self.n_obs-self.n_var)
         
@@ -155,9 +155,10 @@ class RobustLM:
         
         self.k = 1.0 + self.n_var / self.n_obs * np.var(self.phi_r) / self.E_phi**2
         
-        self.k1 = self.k**2 * self.E_psi_sq / self.E_phi**2
-        self.k2 = self.k * self.E_psi_sq / self.E_phi
-        self.k3 = self.E_psi_sq / self.k
+        var = self.scale**2 * self.E_psi_sq
+        self.k1 = self.k**2 * var / self.E_phi**2
+        self.k2 = self.k * var / self.E_phi
+        self.k3 = var / self.k
         
         self.XtX = self.X.T.dot(self.X)
         self.G = np.linalg.inv(self.XtX)
-- 
2.43.0


From 91e9672db9d773c6483a205433ef0c3413d85db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 163/219] fix: simulated robust regressions are reproducible by
 seed or generator

---
 pystatsm/pyrobust/robust_model_sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyrobust/robust_model_sim.py b/pystatsm/pyrobust/robust_model_sim.py
index 385d4f8..c82c93c 100644
--- a/pystatsm/pyrobust/robust_model_sim.py
+++ b/pystatsm/pyrobust/robust_model_sim.py
@@ -17,7 +17,7 @@ class RobustRegressionModel:
                  beta=None, beta_vals=None,  rsq=None, seed=None, 
                  rng=None, resid_dist=None):
         
-        rng = np.random.default_rng() if rng is None else rng
+        rng = np.random.default_rng(seed) if rng is None else rng
         if resid_dist is None:
             resid_dist = lambda loc, scale, size: students_t(loc, scale, nu=2, 
                                                              size=size, rng=rng)
@@ -29,7 +29,7 @@ class RobustRegressionModel:
             rho = 0.0 if rho is None else rho
             x_cov = rho**sp.linalg.toeplitz(np.arange(n_var))
         
-        X = exact_rmvnorm(x_cov, n=np.max((n_obs, n_var+1)), seed=seed)[:n_obs]        
+        X = exact_rmvnorm(x_cov, n=np.max((n_obs, n_var+1)), rng=rng)[:n_obs]        
         if beta is None:
             if beta_vals is None:
                 beta_vals = np.zeros(n_nnz)
-- 
2.43.0


From 622986c452127b03f089a3c002312890da547372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 164/219] fix: S-estimation starts from the scale, not its
 logarithm

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index 245e4f6..e25b07b 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -212,7 +212,7 @@ class RobustSLM:
         self.n_obs, self.n_var = self.X.shape
         
         self.beta_init = lsqr(self.X, self.y)
-        self.scale_init = np.log(mad(self.y - self.X.dot(self.beta_init)))
+        self.scale_init = mad(self.y - self.X.dot(self.beta_init))
         self.f = Bisquare(c=c)
     
     def _s_est_eq(self, r, s, bd=0.5):
-- 
2.43.0


From 1335c4275863d78a90dec21b81b5aa3089bd44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 165/219] fix: reweighting starts from the spread of the
 residuals about zero, so that some rows keep a weight

---
 pystatsm/pyrobust/m_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/m_estimators.py b/pystatsm/pyrobust/m_estimators.py
index c5b3c42..c764842 100644
--- a/pystatsm/pyrobust/m_estimators.py
+++ b/pystatsm/pyrobust/m_estimators.py
@@ -63,7 +63,7 @@ class MEstimator(object):
     
     def irls_step(self, X, y,  beta, scale=None, bd=0.5, n_iters=50, tol=1e-12):
         r = y - X.dot(beta)
-        scale = mad(r) if scale is None else scale
+        scale = np.median(np.abs(r)) / QTF75 if scale is None else scale
         for i in range(n_iters):
             ss = np.mean(self.rho(r / scale)) / bd
             scale = np.sqrt(scale**2 * ss)
-- 
2.43.0


From 2a43cedf89ae2b943c80ecd40d55f39b5fdc9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 166/219] fix: RobustLM.fit reaches the minimum in any units of
 the response

---
 pystatsm/pyrobust/rls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index e25b07b..abee758 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -134,7 +134,7 @@ class RobustLM:
         return np.r_[b, np.log(s)], fit_hist
     
     def fit(self, opt_kws=None):
-        default_opt_kws = dict(method="trust-constr")
+        default_opt_kws = dict(method="trust-exact")
         opt_kws = {} if opt_kws is None else opt_kws
         opt_kws = {**default_opt_kws, **opt_kws}
         self.opt = sp.optimize.minimize(self.rho, self.theta_init,
-- 
2.43.0


From 9435ad84e3fa13a0e63760a0335b728d159aca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 167/219] fix: S-estimation starts from the spread of the
 residuals about zero

---
 pystatsm/pyrobust/rls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyrobust/rls.py b/pystatsm/pyrobust/rls.py
index abee758..acae0b9 100644
--- a/pystatsm/pyrobust/rls.py
+++ b/pystatsm/pyrobust/rls.py
@@ -212,7 +212,8 @@ class RobustSLM:
         self.n_obs, self.n_var = self.X.shape
         
         self.beta_init = lsqr(self.X, self.y)
-        self.scale_init = mad(self.y - self.X.dot(self.beta_init))
+        self.scale_init = mad(np.r_[self.y - self.X.dot(self.beta_init),
+                                    self.X.dot(self.beta_init) - self.y])
         self.f = Bisquare(c=c)
     
     def _s_est_eq(self, r, s, bd=0.5):
-- 
2.43.0


From d093c68bf23f9a409502339c57686ea482ec622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 168/219] fix: the polyserial correlation does not depend on
 the location and scale of the continuous variable, nor on the labels of the
 other

---
 pystatsm/pylvcorr/lvcorr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index 3896a13..cd8526b 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -302,7 +302,8 @@ class Polyserial:
         self.order, self.marginal_counts = order, marginal_counts
         self.tau_arr, self.y_ordered = tau_arr, y_ordered
         self.tau1, self.tau2 = tau1, tau2
-        self.x, self.y = x, y
+        x = np.asarray(x, dtype=float)
+        self.x, self.y = (x - np.mean(x)) / np.std(x), y_ordered
         
        
         
-- 
2.43.0


From 8a8d871547dcbe9c25b360ed2b7863d8cc855ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 169/219] fix: missing values are not a category of their own

---
 pystatsm/pylvcorr/lvcorr.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylvcorr/lvcorr.py b/pystatsm/pylvcorr/lvcorr.py
index cd8526b..1d19ced 100644
--- a/pystatsm/pylvcorr/lvcorr.py
+++ b/pystatsm/pylvcorr/lvcorr.py
@@ -441,7 +441,8 @@ class Polychoric(object):
                                                             Thresholds[i],
                                                             Thresholds[j]
                                                             )
-            rho_inits[ii] = corr(X[:,i], X[:, j])
+            ind = ~(np.isnan(X[:, i]) | np.isnan(X[:, j]))
+            rho_inits[ii] = corr(X[ind, i], X[ind, j])
             
             
         
@@ -457,12 +458,12 @@ class Polychoric(object):
         self.XThresholds, self.Xtab = XThresholds, Xtab
         
     def _get_threshold(self, x, outer=True):
-        vals, counts = np.unique(x, return_counts=True)
+        vals, counts = np.unique(x[~np.isnan(x)], return_counts=True)
         t_inner = sp.special.ndtri(np.cumsum(counts)[:-1] / np.sum(counts))
         if outer:
             t = np.r_[-1e6, t_inner, 1e6]
         else:
-            t = t
+            t = t_inner
         return t
     
     def _init_crosstab(self, xi, xj, ti=None, tj=None):
@@ -603,7 +604,7 @@ class PolychoricCorr(object):
         self.xthresh = xthresh
         self.xcounts = xcounts
         self.rho_inits =rho_inits
-        self.cats = {i:np.unique(X[:, i]) for i in range(self.p)}
+        self.cats = {i:np.unique(X[~np.isnan(X[:, i]), i]) for i in range(self.p)}
         self.ncats = {i:len(self.cats[i]) for i in range(self.p)}
         self.taus = {i:self._get_threshold(X[:, i]) for i in range(self.p)}
         self.opts = {i:{} for i in range(self.p)}
@@ -611,7 +612,7 @@ class PolychoricCorr(object):
         self.R_se = np.zeros((self.p, self.p))
     
     def _get_threshold(self, x):
-        vals, counts = np.unique(x, return_counts=True)
+        vals, counts = np.unique(x[~np.isnan(x)], return_counts=True)
         t_inner = sp.special.ndtri(np.cumsum(counts)[:-1] / np.sum(counts))
         t = np.r_[-1e6, t_inner, 1e6]
         return t
-- 
2.43.0


From 8558513dc4bc8ae9a946d07dbb07f3dd8b3bd1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 170/219] fix: random thresholds give the numbers of categories
 asked for, from the smallest to the largest

---
 pystatsm/pylvcorr/polychoric2.py | 6 +++---
 pystatsm/pylvcorr/sim_lvcorr.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index b4c09e6..b93dd59 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -577,15 +577,15 @@ def random_thresholds(nvar, ncat=None, min_cat=None, max_cat=None, rng=None):
             max_cat = np.repeat(max_cat, nvar)
         ncat = np.zeros(nvar, dtype=int)
         for i in range(nvar):
-            ncat[i] = rng.choice(np.arange(min_cat[i]+2, max_cat[i]+2), 1)
-    elif type(ncat) in [int, float]:
+            ncat[i] = rng.choice(np.arange(min_cat[i], max_cat[i]+1))
+    elif np.ndim(ncat) == 0:
         ncat = np.repeat(ncat, nvar)
     elif type(ncat) is np.ndarray:
         ncat = ncat
     quantiles = {}
     taus = {}
     for i in range(nvar):
-        q = np.r_[0, rng.dirichlet(20*np.ones(ncat[i]-2)).cumsum()]
+        q = np.r_[0, rng.dirichlet(20*np.ones(ncat[i])).cumsum()]
         q[-1] = 1.0
         quantiles[i] = q
         taus[i] = sp.special.ndtri(q)
diff --git a/pystatsm/pylvcorr/sim_lvcorr.py b/pystatsm/pylvcorr/sim_lvcorr.py
index 9d032f4..6b5bd04 100644
--- a/pystatsm/pylvcorr/sim_lvcorr.py
+++ b/pystatsm/pylvcorr/sim_lvcorr.py
@@ -49,13 +49,13 @@ def random_thresholds(nvar, ncat=None, min_cat=None, max_cat=None, rng=None):
             max_cat = np.repeat(max_cat, nvar)
         ncat = np.zeros(nvar, dtype=int)
         for i in range(nvar):
-            ncat[i] = rng.choice(np.arange(min_cat[i]+2, max_cat[i]+2), 1)
-    elif type(ncat) in [int, float]:
+            ncat[i] = rng.choice(np.arange(min_cat[i], max_cat[i]+1))
+    elif np.ndim(ncat) == 0:
         ncat = np.repeat(ncat, nvar)
     quantiles = {}
     taus = {}
     for i in range(nvar):
-        q = np.r_[0, rng.dirichlet(20*np.ones(ncat[i]-2)).cumsum()]
+        q = np.r_[0, rng.dirichlet(20*np.ones(ncat[i])).cumsum()]
         q[-1] = 1.0
         quantiles[i] = q
         taus[i] = sp.special.ndtri(q)
-- 
2.43.0


From 040c5968842287d9c0e36313ce332e500a59eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 171/219] fix: cut points of the second variable may be an
 array

---
 pystatsm/pylvcorr/sim_lvcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylvcorr/sim_lvcorr.py b/pystatsm/pylvcorr/sim_lvcorr.py
index 6b5bd04..90956dc 100644
--- a/pystatsm/pylvcorr/sim_lvcorr.py
+++ b/pystatsm/pylvcorr/sim_lvcorr.py
@@ -17,7 +17,7 @@ class LVCorrSim(object):
         rng = np.random.default_rng(123) if rng is None else rng
         if type(x_bins) is int:
             x_bins = np.linspace(0, 1, x_bins+1, endpoint=False)[1:]
-        if y_bins==False:
+        if y_bins is False:
             kind = "polyserial"
         else:
             kind = "polychoric"
-- 
2.43.0


From 787e3f97f40acbe4b4b34671bc45a80e960c3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 172/219] fix: polychoric correlations of categories whose
 codes are not consecutive

---
 pystatsm/pylvcorr/polychoric.py  | 3 +--
 pystatsm/pylvcorr/polychoric2.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylvcorr/polychoric.py b/pystatsm/pylvcorr/polychoric.py
index c5ff611..d41e885 100644
--- a/pystatsm/pylvcorr/polychoric.py
+++ b/pystatsm/pylvcorr/polychoric.py
@@ -23,8 +23,7 @@ class Polychor(object):
     
     def __init__(self, data):
         self.data = data
-        self.X = data.values.astype(int)
-        self.X = self.X - np.min(self.X, axis=0)
+        self.X = np.column_stack([np.unique(x, return_inverse=True)[1] for x in data.values.T])
         self.n, self.p = self.X.shape
         self.N_cats = np.array([len(np.unique(self.X[:, i])) for i in range(self.p)]).astype(int)
         self.transform_list = [param_transforms.OrderedTransform,
diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index b93dd59..b086a93 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -60,8 +60,7 @@ class Polychor(object):
     def __init__(self, data):
         self.data = data
         self.cols = self.data.columns.tolist()
-        self.X = data.values.astype(int)
-        self.X = self.X - np.min(self.X, axis=0)
+        self.X = np.column_stack([np.unique(x, return_inverse=True)[1] for x in data.values.T])
         self.n, self.p = self.X.shape
         self.N_cats = np.array([len(np.unique(self.X[:, i])) for i in range(self.p)]).astype(int)
         self.transform_list = [param_transforms.OrderedTransform,
-- 
2.43.0


From 4817a613ff4128163d4afe4e4f73eb18bf662b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 173/219] fix: covariances of correlations are reordered
 correctly for five or more variables

---
 pystatsm/pylvcorr/polychoric.py  | 33 +++++++-------------------------
 pystatsm/pylvcorr/polychoric2.py | 33 +++++++-------------------------
 2 files changed, 14 insertions(+), 52 deletions(-)

diff --git a/pystatsm/pylvcorr/polychoric.py b/pystatsm/pylvcorr/polychoric.py
index d41e885..d0e511e 100644
--- a/pystatsm/pylvcorr/polychoric.py
+++ b/pystatsm/pylvcorr/polychoric.py
@@ -431,30 +431,11 @@ def convert_acm(acm, p):
         numpy.ndarray: The converted matrix with indices in the new order.
     
     """
-    p1 = p
-    p2 = p1 * (p1 - 1) // 2
-
-    ix1 = generate_indices((p1,)*2, first_indices_change_fastest=False, ascending=False, strict=True)
-    ix2 = generate_indices((p2,)*2, first_indices_change_fastest=False, ascending=False, strict=False)
-    ix1, ix2 = np.array(ix1), np.array(ix2)
-    
-    iy1 = generate_indices((p1,)*2, first_indices_change_fastest=False, ascending=True, strict=True)
-    iy2 = generate_indices((p2,)*2, first_indices_change_fastest=False, ascending=True, strict=False)
-    iy1, iy2 = np.array(iy1), np.array(iy2)
-
-    ij = ix1[ix2[:, 0]]
-    kl = ix1[ix2[:, 1]]
-    a, b = np.sort(ij, axis=1).T
-    c, d = np.sort(kl, axis=1).T
-
-    ab_to_ii = np.zeros((p1, p1), dtype=int)
-    ab_to_ii[(iy1[:, 0], iy1[:, 1])] = ab_to_ii[(iy1[:, 1], iy1[:,0])] = np.arange(p2)
-
-    ab, cd = np.sort(np.vstack([ab_to_ii[(a, b)], ab_to_ii[(c, d)]]), axis=0)
-    (a, b), (c, d)  = iy1[ab].T, iy1[cd].T
-    abcd = np.argsort(np.lexsort(np.vstack((a, b, c, d))))
-    acm_flat =  acm[np.tril_indices(len(acm))]
-    acm2 = np.zeros_like(acm)
-    acm2[ix2[:, 0], ix2[:, 1]] = acm2[ix2[:, 1], ix2[:, 0]] = acm_flat[abcd]
-    return acm2
+    ix = generate_indices((p,)*2, first_indices_change_fastest=False, ascending=False, strict=True)
+    iy = generate_indices((p,)*2, first_indices_change_fastest=False, ascending=True, strict=True)
+    ix, iy = np.sort(np.array(ix), axis=1), np.sort(np.array(iy), axis=1)
+    position = np.zeros((p, p), dtype=int)
+    position[ix[:, 0], ix[:, 1]] = np.arange(len(ix))
+    perm = position[iy[:, 0], iy[:, 1]]
+    return acm[np.ix_(perm, perm)]
 
diff --git a/pystatsm/pylvcorr/polychoric2.py b/pystatsm/pylvcorr/polychoric2.py
index b086a93..0b2ee21 100644
--- a/pystatsm/pylvcorr/polychoric2.py
+++ b/pystatsm/pylvcorr/polychoric2.py
@@ -539,32 +539,13 @@ def convert_acm(acm, p):
         numpy.ndarray: The converted matrix with indices in the new order.
 
     """
-    p1 = p
-    p2 = p1 * (p1 - 1) // 2
-
-    ix1 = indexing_utils.generate_indices((p1,)*2, first_indices_change_fastest=False, ascending=False, strict=True)
-    ix2 = indexing_utils.generate_indices((p2,)*2, first_indices_change_fastest=False, ascending=False, strict=False)
-    ix1, ix2 = np.array(ix1), np.array(ix2)
-
-    iy1 = indexing_utils.generate_indices((p1,)*2, first_indices_change_fastest=False, ascending=True, strict=True)
-    iy2 = indexing_utils.generate_indices((p2,)*2, first_indices_change_fastest=False, ascending=True, strict=False)
-    iy1, iy2 = np.array(iy1), np.array(iy2)
-
-    ij = ix1[ix2[:, 0]]
-    kl = ix1[ix2[:, 1]]
-    a, b = np.sort(ij, axis=1).T
-    c, d = np.sort(kl, axis=1).T
-
-    ab_to_ii = np.zeros((p1, p1), dtype=int)
-    ab_to_ii[(iy1[:, 0], iy1[:, 1])] = ab_to_ii[(iy1[:, 1], iy1[:,0])] = np.arange(p2)
-
-    ab, cd = np.sort(np.vstack([ab_to_ii[(a, b)], ab_to_ii[(c, d)]]), axis=0)
-    (a, b), (c, d)  = iy1[ab].T, iy1[cd].T
-    abcd = np.argsort(np.lexsort(np.vstack((a, b, c, d))))
-    acm_flat =  acm[np.tril_indices(len(acm))]
-    acm2 = np.zeros_like(acm)
-    acm2[ix2[:, 0], ix2[:, 1]] = acm2[ix2[:, 1], ix2[:, 0]] = acm_flat[abcd]
-    return acm2
+    ix = indexing_utils.generate_indices((p,)*2, first_indices_change_fastest=False, ascending=False, strict=True)
+    iy = indexing_utils.generate_indices((p,)*2, first_indices_change_fastest=False, ascending=True, strict=True)
+    ix, iy = np.sort(np.array(ix), axis=1), np.sort(np.array(iy), axis=1)
+    position = np.zeros((p, p), dtype=int)
+    position[ix[:, 0], ix[:, 1]] = np.arange(len(ix))
+    perm = position[iy[:, 0], iy[:, 1]]
+    return acm[np.ix_(perm, perm)]
 
 
 def random_thresholds(nvar, ncat=None, min_cat=None, max_cat=None, rng=None):
-- 
2.43.0


From 82cd898f4bf619ad71d9423d14e03a6065b85574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 174/219] fix: multivariate and generalized mixed models with
 current scipy and numpy

---
 pystatsm/pylmm/glmm.py           |  6 +++---
 pystatsm/pylmm/mlmm.py           | 12 ++++++------
 pystatsm/pylmm/model_matrices.py |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index 4be34c4..c4132ac 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -171,8 +171,8 @@ class GLMM_AGQ:
         ll_i = np.sum([self._dloglike(z[i], *args) * w[i]
                      for i in range(len(w))], axis=0) * sq2
         ll_i = np.log(ll_i)
-        lnd = np.linalg.slogdet(pirls_dict['D'].A)[1]\
-              -np.linalg.slogdet(pirls_dict['Q'].A)[1]
+        lnd = np.linalg.slogdet(pirls_dict['D'].toarray())[1]\
+              -np.linalg.slogdet(pirls_dict['Q'].toarray())[1]
         ll = -(np.sum(ll_i) + lnd)
         return ll
 
@@ -291,7 +291,7 @@ class GLMM_LAP:
             params = np.r_[params, 1.0]
         u, Xb, RtR, utGinv_u = self.pirls(params)
         lndL = lndet_gmat(params[self.p:], self.dims, self.indices)
-        lndQ = np.linalg.slogdet(RtR.A)[1]
+        lndQ = np.linalg.slogdet(RtR.toarray())[1]
         lnd = lndL + lndQ
         llf = 2.0 * self.f.loglike(self.y, eta=self.Zs.dot(u)+Xb)
         ll = (llf + utGinv_u + lnd)/2.0
diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 925969a..03b0d05 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -137,7 +137,7 @@ def inverse_transform_theta(theta, dims, indices):
 
 def get_d2_chol(dim_i):
     p = dim_i['n_vars']
-    Lp = lmat(p).A
+    Lp = lmat(p).toarray()
     T = np.zeros((p, p))
     H = []
     Ip = np.eye(p)
@@ -227,8 +227,8 @@ class MLMM:
         self.d2g_dchol = {}
         for key in self.levels:
             p = self.dims[key]['n_vars']
-            self.elim_mats[key] = lmat(p).A
-            self.symm_mats[key] = nmat(p).A
+            self.elim_mats[key] = lmat(p).toarray()
+            self.symm_mats[key] = nmat(p).toarray()
             self.iden_mats[key] = np.eye(p)
             self.d2g_dchol[key] = get_d2_chol(self.dims[key])
         self.bounds = [(0, None) if x==1 else (None, None) for x in self.theta]
@@ -271,10 +271,10 @@ class MLMM:
         Rinv = self.update_rmat(theta, inverse=True).copy()
         R = self.update_rmat(theta, inverse=False).copy()
         M = self.update_mme(Ginv, Rinv)
-        if (M.nnz / np.product(M.shape) < 0.05) and use_sparse:
-            L = cholesky(M.tocsc()).L().A
+        if (M.nnz / np.prod(M.shape) < 0.05) and use_sparse:
+            L = cholesky(M.tocsc()).L().toarray()
         else:
-            L = np.linalg.cholesky(M.A)
+            L = np.linalg.cholesky(M.toarray())
         ytPy = np.diag(L)[-1]**2
         logdetG = lndet_gmat(theta, self.dims, self.indices)
         logdetR = np.log(R.data).sum()
diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index d202894..e12e59a 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -164,7 +164,7 @@ def inverse_transform_theta(theta, dims, indices):
         
 def get_d2_chol(dim_i):
     p = dim_i['n_vars']
-    Lp = lmat(p).A
+    Lp = lmat(p).toarray()
     T = np.zeros((p, p))
     H = []
     Ip = np.eye(p)
-- 
2.43.0


From 79bbb30bcdbaf047252ad4cedbb722b3e08ea854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 175/219] fix: formulas of mixed models may contain spaces

---
 pystatsm/pylmm/mlmm.py           | 5 +++--
 pystatsm/pylmm/model_matrices.py | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 03b0d05..542ef5d 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -25,10 +25,11 @@ def replace_duplicate_operators(match):
 def parse_random_effects(formula):
     matches = re.findall("\([^)]+[|][^)]+\)", formula)
     groups = [re.search("\(([^)]+)\|([^)]+)\)", x).groups() for x in matches]
+    groups = [(x.strip(), y.strip()) for x, y in groups]
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
-    fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
+    fe_form = re.sub("(\+|\-)(\s*(\+|\-))+", replace_duplicate_operators, frm)
     return fe_form, groups
 
 def construct_random_effects(groups, data, n_yvars):
@@ -49,7 +50,7 @@ def construct_random_effects(groups, data, n_yvars):
 def construct_model_matrices(formula, data):
     fe_form, groups = parse_random_effects(formula)
     yvars, fe_form = re.split("[~]", fe_form)
-    fe_form = re.sub("\+$", "", fe_form)
+    fe_form = re.sub("\+\s*$", "", fe_form)
     yvars = re.split(",", re.sub("\(|\)", "", yvars))
     yvars = [x.strip() for x in yvars]
     n_yvars = len(yvars)
diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index e12e59a..61786f8 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -36,10 +36,11 @@ def parse_random_effects(formula):
     """
     matches = re.findall("\([^)]+[|][^)]+\)", formula)
     groups = [re.search("\(([^)]+)\|([^)]+)\)", x).groups() for x in matches]
+    groups = [(x.strip(), y.strip()) for x, y in groups]
     frm = formula
     for x in matches:
         frm = frm.replace(x, "")
-    fe_form = re.sub("(\+|\-)(\+|\-)+", replace_duplicate_operators, frm)
+    fe_form = re.sub("(\+|\-)(\s*(\+|\-))+", replace_duplicate_operators, frm)
     return fe_form, groups
 
 def construct_random_effects(groups, data, n_vars):
@@ -60,7 +61,7 @@ def construct_random_effects(groups, data, n_vars):
 def construct_model_matrices(formula, data, return_fe=False):
     fe_form, groups = parse_random_effects(formula)
     yvars, fe_form = re.split("[~]", fe_form)
-    fe_form = re.sub("\+$", "", fe_form)
+    fe_form = re.sub("\+\s*$", "", fe_form)
     yvars = re.split(",", re.sub("\(|\)", "", yvars))
     yvars = [x.strip() for x in yvars]
     n_vars = len(yvars)
@@ -77,7 +78,7 @@ def construct_model_matrices(formula, data, return_fe=False):
 def handle_missing(formula, data):
     fe_form, groups = parse_random_effects(formula)
     yvars, fe_form = re.split("[~]", fe_form)
-    fe_form = re.sub("\+$", "", fe_form)
+    fe_form = re.sub("\+\s*$", "", fe_form)
     g_vars = [x for y in groups for x in y]
     g_vars = [re.split("[+\-\*:]", x) for x in g_vars]
     re_vars = [x for y in g_vars for x in y]
-- 
2.43.0


From 8f40b74a1fb0a58495cdb8372bb88a20ce920006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 176/219] fix: rows with missing values of mixed models

---
 pystatsm/pylmm/model_matrices.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylmm/model_matrices.py b/pystatsm/pylmm/model_matrices.py
index 61786f8..d7dc250 100644
--- a/pystatsm/pylmm/model_matrices.py
+++ b/pystatsm/pylmm/model_matrices.py
@@ -83,11 +83,9 @@ def handle_missing(formula, data):
     g_vars = [re.split("[+\-\*:]", x) for x in g_vars]
     re_vars = [x for y in g_vars for x in y]
     fe_vars = re.split("[+\-\*:]", fe_form)
-    if type(yvars) is str:
-        yvars = [yvars]
-    vars_ = set(re_vars + fe_vars+yvars)
-    cols = set(data.columns)
-    var_subset = vars_.intersection(cols)
+    yvars = re.split(",", re.sub("\(|\)", "", yvars))
+    vars_ = set(x.strip() for x in re_vars + fe_vars + yvars)
+    var_subset = [x for x in data.columns if x in vars_]
     valid_ind = ~data[var_subset].isnull().any(axis=1)
     return valid_ind
 
-- 
2.43.0


From 301bb555c92369ca211fb3d93f72b22352ff21a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 177/219] fix: indicators of groups labelled by strings

---
 pystatsm/utilities/data_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystatsm/utilities/data_utils.py b/pystatsm/utilities/data_utils.py
index b783a60..9fac947 100644
--- a/pystatsm/utilities/data_utils.py
+++ b/pystatsm/utilities/data_utils.py
@@ -240,6 +240,10 @@ def _dummy(x, fullrank=True, categories=None):
 
 def dummy(x, fullrank=True, categories=None):
     x = _check_shape(_check_np(x))
+    if x.dtype.kind not in "biuf":
+        categories = np.unique(x) if categories is None else np.asarray(categories)
+        Y = (x[:, None] == categories).astype(float)
+        return Y if fullrank else Y[:, :-1]
     return _dummy(x, fullrank, categories)
 
 
-- 
2.43.0


From 20d4727919eee3d284583551dfebe5c4e55f64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 178/219] fix: hessian of the multivariate mixed model

---
 pystatsm/pylmm/mlmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 542ef5d..588ebb0 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -387,7 +387,7 @@ class MLMM:
         return H
 
     def hessian(self, theta, reml=True):
-        H = so_gc_cd(self.gradient, theta, reml=True)
+        H = so_gc_cd(self.gradient, theta, args=(reml,))
         return H
 
     def _compute_effects(self, theta=None):
-- 
2.43.0


From 011db7e35a844a0fe61af0233965471d2438a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 179/219] fix: sparse log-likelihood of the multivariate mixed
 model

---
 pystatsm/pylmm/mlmm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 588ebb0..40ddefc 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -273,14 +273,19 @@ class MLMM:
         R = self.update_rmat(theta, inverse=False).copy()
         M = self.update_mme(Ginv, Rinv)
         if (M.nnz / np.prod(M.shape) < 0.05) and use_sparse:
-            L = cholesky(M.tocsc()).L().toarray()
+            # the fill reducing ordering need not keep y last
+            chol_fac = cholesky(M.tocsc())
+            e_y = np.zeros(M.shape[0])
+            e_y[-1] = 1.0
+            ytPy = 1.0 / chol_fac.solve_A(e_y)[-1]
+            logdetC = chol_fac.slogdet()[1] - np.log(ytPy)
         else:
             L = np.linalg.cholesky(M.toarray())
-        ytPy = np.diag(L)[-1]**2
+            ytPy = np.diag(L)[-1]**2
+            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
         logdetG = lndet_gmat(theta, self.dims, self.indices)
         logdetR = np.log(R.data).sum()
         if reml:
-            logdetC = np.sum(2*np.log(np.diag(L))[:-1])
             ll = logdetR + logdetC + logdetG + ytPy
         else:
             Rinv = self.R / theta[-1]
-- 
2.43.0


From 61bafb280ecb838830d2a741404b9b87cf48b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 180/219] fix: maximum likelihood of the multivariate mixed
 model uses each residual variance

---
 pystatsm/pylmm/mlmm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 40ddefc..7af258e 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -288,7 +288,6 @@ class MLMM:
         if reml:
             ll = logdetR + logdetC + logdetG + ytPy
         else:
-            Rinv = self.R / theta[-1]
             RZ = Rinv.dot(self.Zs)
             Q = Ginv + self.Zs.T.dot(RZ)
             _, logdetV = cholesky(Q).slogdet()
-- 
2.43.0


From 2e5d12e4018ae8240871a502ad6a0fee5690316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 181/219] fix: maximum likelihood fits of the multivariate
 mixed model

---
 pystatsm/pylmm/mlmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 7af258e..d8efc52 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -369,7 +369,7 @@ class MLMM:
 
     def loglike_c(self, theta_chol, reml=True):
         theta = inverse_transform_theta(theta_chol.copy(), self.dims, self.indices)
-        return self.loglike(theta, reml)
+        return self.loglike(theta, reml=reml)
 
     def gradient_c(self, theta_chol, reml=True):
         theta = inverse_transform_theta(theta_chol.copy(), self.dims, self.indices)
-- 
2.43.0


From c76c8b1295755ffdc64ebd68676cf1800926adb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 182/219] fix: starting values of the multivariate mixed model
 keep both parameterisations

---
 pystatsm/pylmm/mlmm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index d8efc52..44bef87 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -214,7 +214,7 @@ class MLMM:
         XZy = sps.csc_matrix(np.hstack([XZ, y.reshape(-1, 1)]))
         self.X, self.Z, self.y, self.dims, self.levels = X, Z, y.reshape(-1, 1), dims, levels
         self.XZ, self.XZy = XZ, XZy
-        self.theta, self.theta_chol = theta, transform_theta(theta, dims, indices)
+        self.theta, self.theta_chol = theta, transform_theta(theta.copy(), dims, indices)
         self.G = G
         self.indices = indices
         self.R = R.todia()
@@ -232,8 +232,8 @@ class MLMM:
             self.symm_mats[key] = nmat(p).toarray()
             self.iden_mats[key] = np.eye(p)
             self.d2g_dchol[key] = get_d2_chol(self.dims[key])
-        self.bounds = [(0, None) if x==1 else (None, None) for x in self.theta]
-        self.bounds_2 = [(1e-6, None) if x==1 else (None, None) for x in self.theta]
+        self.bounds = [(0, None) if x==1 else (None, None) for x in self.theta_chol]
+        self.bounds_2 = [(1e-6, None) if x==1 else (None, None) for x in self.theta_chol]
         self.zero_mat = sp.sparse.eye(self.X.shape[1])*0.0
         self.zero_mat2 = sp.sparse.eye(1)*0.0
 
@@ -429,14 +429,14 @@ class MLMM:
                 hess = lambda x, reml: so_gc_cd(self.gradient_chol, x, args=(reml,))
             else:
                 hess = "3-point"
-            optimizer = sp.optimize.minimize(self.loglike_c, self.theta, args=(reml,),
+            optimizer = sp.optimize.minimize(self.loglike_c, self.theta_chol, args=(reml,),
                                              jac=self.gradient_chol, hess=hess,
                                              options=opt_kws, bounds=self.bounds,
                                              method='trust-constr')
         else:
             jac = lambda x, reml: fo_fc_cd(self.loglike_c, x, args=(reml,))
             hess = lambda x, reml: so_fc_cd(self.loglike_c, x, args=(reml,))
-            optimizer = sp.optimize.minimize(self.loglike_c, self.theta, args=(reml,),
+            optimizer = sp.optimize.minimize(self.loglike_c, self.theta_chol, args=(reml,),
                                              jac=jac, hess=hess, bounds=self.bounds,
                                              method='trust-constr', options=opt_kws)
         theta_chol = optimizer.x
-- 
2.43.0


From 7e8a9bb116fd02194c2927fb500311bbe20f24cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 183/219] fix: standard errors of maximum likelihood
 multivariate mixed models

---
 pystatsm/pylmm/mlmm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 44bef87..0885a66 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -418,9 +418,7 @@ class MLMM:
                   opt_kws={}):
 
         default_opt_kws = dict(verbose=0, gtol=1e-6, xtol=1e-6)
-        for key, value in default_opt_kws.items():
-                if key not in opt_kws.keys():
-                    opt_kws[key] = value
+        opt_kws = {**default_opt_kws, **opt_kws}
         if use_grad:
 
             if use_hess:
@@ -456,11 +454,11 @@ class MLMM:
             re_corrs[key] = v.dot(C).dot(v)
 
         if analytic_se:
-            Htheta = self.hessian(theta)
+            Htheta = self.hessian(theta, reml)
         elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta)
+            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
         else:
-            Htheta = so_fc_cd(self.loglike, theta)
+            Htheta = so_fc_cd(self.loglike, theta, args=(True, reml))
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
-- 
2.43.0


From 7035cfeab1628b2a9fb36bd5950f47287f2238c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 184/219] fix: parameter names of the multivariate mixed model

---
 pystatsm/pylmm/mlmm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 0885a66..3d7c6ca 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -509,14 +509,15 @@ class MLMM:
         self._post_fit(theta, theta_chol, optimizer, reml, use_grad,
                        analytic_se)
         param_names = []
-        for i in range(self.n_yvars):
-            for s in list(self.fe_vars):
+        # the outcome varies fastest in both the fixed and the random effects
+        for s in list(self.fe_vars):
+            for i in range(self.n_yvars):
                 param_names.append(f"y{i+1}~{s}")
         for level in self.levels:
             n_vars = self.dims[level]['n_vars']
             nv = n_vars // self.n_yvars
-            a = np.repeat([f"y{i+1}" for i in range(self.n_yvars)], nv)
-            b = np.tile(np.arange(nv), self.n_yvars)
+            a = np.tile([f"y{i+1}" for i in range(self.n_yvars)], nv)
+            b = np.repeat(np.arange(nv), self.n_yvars)
             for i, j in list(zip(*np.triu_indices(n_vars))):
                 param_names.append(f"{level}:({a[j]}, {a[i]}):G[{b[j]+1}][{b[i]+1}]")
         for i in range(self.n_yvars):
-- 
2.43.0


From 05003b6e3b42ea4bdde2ced1e524dc9ef8c20b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 185/219] fix: two-sided p-values of the multivariate mixed
 model

---
 pystatsm/pylmm/mlmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index 3d7c6ca..b0beb7d 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -526,7 +526,7 @@ class MLMM:
         res = np.vstack((self.params, self.se_params)).T
         res = pd.DataFrame(res, index=param_names, columns=['estimate', 'SE'])
         res['t'] = res['estimate'] / res['SE']
-        res['p'] = sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
+        res['p'] = 2.0 * sp.stats.t(self.X.shape[0]-self.X.shape[1]).sf(np.abs(res['t']))
         self.res = res
 
 
-- 
2.43.0


From c502550f5b787eecdecbd546a1dee744dd88e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 186/219] fix: random effect modes of generalized mixed models
 with any link

---
 pystatsm/pylmm/glmm.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index c4132ac..39540fc 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -128,22 +128,22 @@ class GLMM_AGQ:
         for i in range(100):
             eta = Xb + self.Z.dot(u)
             mu = self.f.inv_link(eta)
-            var_mu = self.f.var_func(mu=mu)
-            self.W.data = var_mu
+            gw, hw = self.f.get_ghw(self.y, mu)
+            self.W.data = hw
             ZtWZ = self.Zt.dot(self.W.dot(self.Zs))
-            Ztr = self.Zt.dot(_check_shape(self.y, 1) - mu)
+            Ztr = -self.Zt.dot(gw)
             RtR, r = ZtWZ + Psi_inv, Ztr - Psi_inv.dot(u)
             u_new = u + sps.linalg.spsolve(RtR, r)
             diff = np.linalg.norm(u_new - u) / len(u)
+            u = u_new
             if diff<1e-6:
                 break
-            u = u_new
         eta = Xb + self.Zs.dot(u)
         mu = self.f.inv_link(eta)
-        var_mu = self.f.var_func(mu=mu)
-        self.W.data = var_mu
+        gw, hw = self.f.get_ghw(self.y, mu)
+        self.W.data = hw
         ZtWZ = self.Zt.dot(self.W.dot(self.Zs))
-        Ztr = self.Zt.dot(self.y - mu)
+        Ztr = -self.Zt.dot(gw)
         RtR, r = ZtWZ + Psi_inv, Ztr - Psi_inv.dot(u)
         Q = cholesky(RtR.tocsc()).L()
         Qinv = sps.linalg.inv(Q)
@@ -265,22 +265,22 @@ class GLMM_LAP:
         for i in range(100):
             eta = Xb + self.Z.dot(u)
             mu = self.f.inv_link(eta)
-            var_mu = self.f.var_func(mu=mu)
-            self.W.data = var_mu
+            gw, hw = self.f.get_ghw(self.y, mu)
+            self.W.data = hw
             ZtWZ = self.Zt.dot(self.W.dot(self.Zs))
-            Ztr = self.Zt.dot(_check_shape(self.y, 1) - mu)
+            Ztr = -self.Zt.dot(gw)
             RtR, r = ZtWZ + Ginv, Ztr - Ginv.dot(u)
             u_new = u + sps.linalg.spsolve(RtR, r)
             diff = np.linalg.norm(u_new - u) / len(u)
+            u = u_new
             if diff<1e-6:
                 break
-            u = u_new
         eta = Xb + self.Zs.dot(u)
         mu = self.f.inv_link(eta)
-        var_mu = self.f.var_func(mu=mu)
-        self.W.data = var_mu
+        gw, hw = self.f.get_ghw(self.y, mu)
+        self.W.data = hw
         ZtWZ = self.Zt.dot(self.W.dot(self.Zs))
-        Ztr = self.Zt.dot(self.y - mu)
+        Ztr = -self.Zt.dot(gw)
         Ginv_u =  Ginv.dot(u)
         RtR, r = ZtWZ + Ginv, Ztr - Ginv_u
         utGinv_u = Ginv_u.dot(u)
-- 
2.43.0


From 01adf78c293bb454118011e1dd9050e299b73dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 187/219] fix: standard errors of generalized mixed models use
 the whole hessian

---
 pystatsm/pylmm/glmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index 39540fc..fc83633 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -52,6 +52,7 @@ def approx_hess(f, x, *args, eps=None):
                 dn = f(x+ei+ej)-f(x+ei-ej)-f(x-ei+ej)+f(x-ei-ej)
                 nm = 4*eps*eps
 
+            H[j, i] = H[i, j]
             ei[i], ej[j] = 0.0, 0.0
     return H
 
-- 
2.43.0


From 70c0030d0e56426b7ea537e79cfa4fdbbaa64b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 188/219] fix: adaptive quadrature of generalized mixed models
 integrates the random effect

---
 pystatsm/pylmm/glmm.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index fc83633..76dfa81 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -123,7 +123,7 @@ class GLMM_AGQ:
     def pirls(self, params):
         beta, theta = params[:self.p], params[self.p:]
         Psi_inv = self.update_gmat(theta, inverse=True)
-        D = cholesky(Psi_inv).L()
+        D = sps.diags(np.sqrt(Psi_inv.diagonal()), format='csc')
         u = np.zeros(self.q)
         Xb = self.X.dot(beta)
         for i in range(100):
@@ -146,8 +146,9 @@ class GLMM_AGQ:
         ZtWZ = self.Zt.dot(self.W.dot(self.Zs))
         Ztr = -self.Zt.dot(gw)
         RtR, r = ZtWZ + Psi_inv, Ztr - Psi_inv.dot(u)
-        Q = cholesky(RtR.tocsc()).L()
-        Qinv = sps.linalg.inv(Q)
+        # one random effect per group, so that both are diagonal
+        Q = sps.diags(np.sqrt(RtR.diagonal()), format='csc')
+        Qinv = sps.diags(1.0 / Q.diagonal(), format='csc')
         return dict(u=u, D=D, Xb=Xb, Qinv=Qinv, Q=Q)
 
     def _dloglike(self, db, Xb, Qinv, D, u):
@@ -159,7 +160,7 @@ class GLMM_AGQ:
         bT = self.f.cumulant(T)
         Du = D.dot(u_tilde)
         logf = (self.y * T - bT).dot(self.J)
-        ll = np.exp(logf - Du**2 / 2)
+        ll = logf - Du**2 / 2
         return ll
 
 
@@ -168,12 +169,12 @@ class GLMM_AGQ:
         z, w, f = gh_rules(nagq, False)
         args = (pirls_dict['Xb'], pirls_dict['Qinv'], pirls_dict['D'],
                 pirls_dict['u'])
-        sq2 = np.sqrt(2)
-        ll_i = np.sum([self._dloglike(z[i], *args) * w[i]
-                     for i in range(len(w))], axis=0) * sq2
-        ll_i = np.log(ll_i)
-        lnd = np.linalg.slogdet(pirls_dict['D'].toarray())[1]\
-              -np.linalg.slogdet(pirls_dict['Q'].toarray())[1]
+        # w are the weights of int exp(-z**2/2) f(z) dz
+        ll_i = np.array([self._dloglike(z[i], *args) + z[i]**2 / 2
+                         for i in range(len(w))])
+        ll_i = sp.special.logsumexp(ll_i, b=w[:, None] / np.sqrt(2*np.pi), axis=0)
+        lnd = np.sum(np.log(pirls_dict['D'].diagonal()))\
+              -np.sum(np.log(pirls_dict['Q'].diagonal()))
         ll = -(np.sum(ll_i) + lnd)
         return ll
 
-- 
2.43.0


From b7948ae08b1bdbb045d07919203a8ab44d782d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 189/219] fix: adaptive quadrature has no residual variance
 parameter

---
 pystatsm/pylmm/glmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index 76dfa81..b996daa 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -93,6 +93,8 @@ class GLMM_AGQ:
         self.n_groups = len(self.Xg)
         self.n, self.p = self.X.shape
         self.q = self.Z.shape[1]
+        # the residual variance is no parameter of this likelihood
+        theta = theta[:-1]
         self.nt = len(theta)
         self.params = np.zeros(self.p+self.nt)
         self.params[-self.nt:] = theta
-- 
2.43.0


From efd3b1c81baa04e1fd022572f8ef1f4f38fdf948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 190/219] fix: generalized mixed models can be constructed

---
 pystatsm/pylmm/glmm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index b996daa..877d7b7 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -11,7 +11,7 @@ import numpy as np
 import scipy as sp
 import scipy.stats
 import scipy.sparse as sps
-from ..utilities.data_utils import _check_np, _check_shape, dummy, _check_shape_nb
+from ..utilities.data_utils import _check_np, _check_shape, dummy
 from ..utilities.linalg_operations import invech, cholesky
 from .model_matrices import (construct_model_matrices,
                              make_gcov, make_theta, lndet_gmat)
@@ -68,8 +68,8 @@ class GLMM_AGQ:
         X, Z, y, dims, levels = construct_model_matrices(formula, data)
         theta, indices["theta"] = make_theta(dims)
         G, indices["g"] = make_gcov(theta, indices, dims)
-        self.X = _check_shape_nb(_check_np(X), 2)
-        self.y = _check_shape_nb(_check_np(y), 1)
+        self.X = _check_shape(_check_np(X), 2)
+        self.y = _check_shape(_check_np(y), 1)
         self.Z = Z
         self.Zs = sps.csc_matrix(Z)
         self.Zt = self.Zs.T
@@ -204,8 +204,8 @@ class GLMM_LAP:
         X, Z, y, dims, levels = construct_model_matrices(formula, data)
         theta, indices["theta"] = make_theta(dims)
         G, indices["g"] = make_gcov(theta, indices, dims)
-        self.X = _check_shape_nb(_check_np(X), 2)
-        self.y = _check_shape_nb(_check_np(y), 1)
+        self.X = _check_shape(_check_np(X), 2)
+        self.y = _check_shape(_check_np(y), 1)
         self.Z = Z
         self.Zs = sps.csc_matrix(Z)
         self.Zt = self.Zs.T
-- 
2.43.0


From 769eaad2d3fddd1b6f1674881e51033d0603476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 191/219] fix: singular fits of the multivariate mixed model

---
 pystatsm/pylmm/mlmm.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pystatsm/pylmm/mlmm.py b/pystatsm/pylmm/mlmm.py
index b0beb7d..fa09f1a 100644
--- a/pystatsm/pylmm/mlmm.py
+++ b/pystatsm/pylmm/mlmm.py
@@ -12,7 +12,7 @@ import scipy as sp
 import scipy.sparse as sps
 import pandas as pd
 from ..utilities.data_utils import dummy, _check_np, _check_shape
-from ..utilities.linalg_operations import vech, invech, vec, cholesky
+from ..utilities.linalg_operations import vech, invech, vec, cholesky, not_posdef_errors
 from ..utilities.special_mats import lmat, nmat
 from ..utilities.numerical_derivs import so_gc_cd, so_fc_cd, fo_fc_cd
 
@@ -453,16 +453,21 @@ class MLMM:
             v = np.diag(np.sqrt(1/np.diag(C)))
             re_corrs[key] = v.dot(C).dot(v)
 
-        if analytic_se:
-            Htheta = self.hessian(theta, reml)
-        elif use_grad:
-            Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
-        else:
-            Htheta = so_fc_cd(self.loglike, theta, args=(True, reml))
+        try:
+            if analytic_se:
+                Htheta = self.hessian(theta, reml)
+            elif use_grad:
+                Htheta = so_gc_cd(self.gradient, theta, args=(reml,))
+            else:
+                Htheta = so_fc_cd(self.loglike, theta, args=(True, reml))
+            Hinv_theta = np.linalg.pinv(Htheta/2.0)
+        except not_posdef_errors:
+            # singular fit: the criterion is not differentiable at the boundary
+            Hinv_theta = np.full((len(theta), len(theta)), np.nan)
 
         self.theta, self.beta, self.u, self.params = theta, beta, u, params
         self.Hinv_beta = XtWX_inv
-        self.Hinv_theta = np.linalg.pinv(Htheta/2.0)
+        self.Hinv_theta = Hinv_theta
         self.se_beta = np.sqrt(np.diag(XtWX_inv))
         self.se_theta = np.sqrt(np.diag(self.Hinv_theta))
         self.se_params = np.concatenate([self.se_beta, self.se_theta])
-- 
2.43.0


From 20c1ca9d2873f1749577dbd9f1162339fedd2780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 192/219] fix: adaptive quadrature with fitted probabilities of
 zero or one

---
 pystatsm/pyglm/families.py | 2 +-
 pystatsm/pylmm/glmm.py     | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pyglm/families.py b/pystatsm/pyglm/families.py
index ebf4e8b..fa6bef2 100644
--- a/pystatsm/pyglm/families.py
+++ b/pystatsm/pyglm/families.py
@@ -772,7 +772,7 @@ class Binomial(ExponentialFamily):
         weights = self.weights if weights is None else weights
         y, mu = self.cshape(y, mu)
         w = weights / phi
-        ll = -w * (y * np.log(mu) + (1 - y) * np.log(1 - mu))
+        ll = -w * (sp.special.xlogy(y, mu) + sp.special.xlogy(1 - y, 1 - mu))
         return ll
 
     def _full_loglike(self, y, eta=None, mu=None, T=None, phi=1.0, dispersion=1.0, weights=None):
diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index 877d7b7..7515bcd 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -158,10 +158,8 @@ class GLMM_AGQ:
         u_tilde = Qinv.dot(db) + u
         eta = (self.Z.dot(u_tilde)) + Xb
         mu = self.f.inv_link(eta)
-        T = self.f.canonical_parameter(mu)
-        bT = self.f.cumulant(T)
         Du = D.dot(u_tilde)
-        logf = (self.y * T - bT).dot(self.J)
+        logf = -self.f._loglike(self.y, mu=mu).dot(self.J)
         ll = logf - Du**2 / 2
         return ll
 
-- 
2.43.0


From 8590577defeb920a53310e934f47eec1e628e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 193/219] fix: generalized mixed models with an estimated
 variance of zero

---
 pystatsm/pylmm/glmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index 7515bcd..9cf3bb6 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -99,7 +99,7 @@ class GLMM_AGQ:
         self.params = np.zeros(self.p+self.nt)
         self.params[-self.nt:] = theta
         self.bounds = [(None, None) for i in range(self.p)]+\
-                 [(None, None) if int(x)==0 else (0, None) for x in theta]
+                 [(None, None) if int(x)==0 else (1e-8, None) for x in theta]
 
         self.D = np.eye(n_vars)
         self.W = sps.csc_matrix((np.ones(self.n), (np.arange(self.n),
@@ -236,7 +236,7 @@ class GLMM_LAP:
         self.params = np.zeros(self.p+self.nt)
         self.params[-self.nt:] = theta
         self.bounds = [(None, None) for i in range(self.p)]+\
-                      [(None, None) if int(x)==0 else (0, None) for x in theta]
+                      [(None, None) if int(x)==0 else (1e-8, None) for x in theta]
 
         self.D = np.eye(n_vars)
         self.W = sps.csc_matrix((np.ones(self.n), (np.arange(self.n),
-- 
2.43.0


From df17e3d600ae6e33776887ea2801d1f97cfaf9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 194/219] fix: adaptive quadrature at nodes of zero likelihood

---
 pystatsm/pylmm/glmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index 9cf3bb6..bc87136 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -159,7 +159,8 @@ class GLMM_AGQ:
         eta = (self.Z.dot(u_tilde)) + Xb
         mu = self.f.inv_link(eta)
         Du = D.dot(u_tilde)
-        logf = -self.f._loglike(self.y, mu=mu).dot(self.J)
+        logf = -self.f._loglike(self.y, mu=mu)
+        logf = np.nan_to_num(logf, neginf=-1e100).dot(self.J)
         ll = logf - Du**2 / 2
         return ll
 
-- 
2.43.0


From c92c5d3ed9a5ece48ab4ea7483bef1d00b03f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 195/219] fix: random effect modes are accurate enough for
 numerical standard errors

---
 pystatsm/pylmm/glmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index bc87136..c779c66 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -139,7 +139,7 @@ class GLMM_AGQ:
             u_new = u + sps.linalg.spsolve(RtR, r)
             diff = np.linalg.norm(u_new - u) / len(u)
             u = u_new
-            if diff<1e-6:
+            if diff<1e-12:
                 break
         eta = Xb + self.Zs.dot(u)
         mu = self.f.inv_link(eta)
@@ -276,7 +276,7 @@ class GLMM_LAP:
             u_new = u + sps.linalg.spsolve(RtR, r)
             diff = np.linalg.norm(u_new - u) / len(u)
             u = u_new
-            if diff<1e-6:
+            if diff<1e-12:
                 break
         eta = Xb + self.Zs.dot(u)
         mu = self.f.inv_link(eta)
-- 
2.43.0


From 44367a44c637edb8024a1ea470ed60956dcd7d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 196/219] fix: standard errors of generalized mixed models use
 the mixed second derivatives

---
 pystatsm/pylmm/glmm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index c779c66..0123b5c 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -47,12 +47,11 @@ def approx_hess(f, x, *args, eps=None):
             if i==j:
                 dn = -f(x+2*ei)+16*f(x+ei)-30*f(x)+16*f(x-ei)-f(x-2*ei)
                 nm = 12*eps**2
-                H[i, j] = dn/nm
             else:
                 dn = f(x+ei+ej)-f(x+ei-ej)-f(x-ei+ej)+f(x-ei-ej)
                 nm = 4*eps*eps
 
-            H[j, i] = H[i, j]
+            H[i, j] = H[j, i] = dn/nm
             ei[i], ej[j] = 0.0, 0.0
     return H
 
-- 
2.43.0


From 8e4b1e4d16f3e2a0cfb31f243efc3c77ae47e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 197/219] fix: canonical correlations with more x than y
 variables

---
 pystatsm/pyscca/base_cca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/base_cca.py b/pystatsm/pyscca/base_cca.py
index afbcfaf..bf74881 100644
--- a/pystatsm/pyscca/base_cca.py
+++ b/pystatsm/pyscca/base_cca.py
@@ -70,7 +70,7 @@ class CCA(object):
         return Zx, Zy
         
     def _fit(self, n_comps=None, compute_projections=True, compute_canvars=True):
-        n_comps = self.p if n_comps is None else n_comps
+        n_comps = min(self.p, self.q) if n_comps is None else n_comps
         Wx, Wy, rhos = self._cca_svd(self.Sxy, self.Sxx_isq, self.Syy_isq)
         Wx, Wy = Wx[:, :n_comps], Wy[:, :n_comps]
         Lx, Ly = self.Sxx.dot(Wx), self.Syy.dot(Wy)
-- 
2.43.0


From 2fa19577a438f11ec7138ec807f5109e6174b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 198/219] fix: canonical correlations of collinear variables

---
 pystatsm/pyscca/base_cca.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystatsm/pyscca/base_cca.py b/pystatsm/pyscca/base_cca.py
index bf74881..de51729 100644
--- a/pystatsm/pyscca/base_cca.py
+++ b/pystatsm/pyscca/base_cca.py
@@ -18,9 +18,9 @@ class CCA(object):
     @staticmethod
     def _eig_isq(S):
         u, V = eighs(S)
-        u_mask = u > 1e-16
-        u_isq = u.copy()
-        u_isq[u_mask] = 1.0 / np.sqrt(u_isq[u_mask])
+        u_mask = u > np.max(u) * len(u) * np.finfo(float).eps
+        u_isq = np.zeros_like(u)
+        u_isq[u_mask] = 1.0 / np.sqrt(u[u_mask])
         S_isq = (V * u_isq).dot(V.T)
         return u, u_mask, u_isq, V, S_isq
     
-- 
2.43.0


From 37f4a6df2b873197f748f06691af672bcc4e782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 199/219] fix: exact canonical correlation data use the
 generator

---
 pystatsm/pyscca/cca_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/cca_sim.py b/pystatsm/pyscca/cca_sim.py
index b5a7e1a..763478a 100644
--- a/pystatsm/pyscca/cca_sim.py
+++ b/pystatsm/pyscca/cca_sim.py
@@ -73,7 +73,7 @@ class SimCCA(object):
     
     def simulate_data(self, n_obs=1000, exact=False):
         if exact:
-            data = exact_rmvnorm(self.S, n=n_obs, seed=self.seed)
+            data = exact_rmvnorm(self.S, n=n_obs, rng=self.rng)
         else:
             data = self.rng.multivariate_normal(mean=np.zeros(self.p+self.q),
                                                 cov=self.S, size=n_obs)
-- 
2.43.0


From 04e6e43d9723da8b62ecb61e639033f3aa874bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 200/219] fix: sparse canonical weights start from the
 standardised data

---
 pystatsm/pyscca/scca.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/scca.py b/pystatsm/pyscca/scca.py
index b78e73b..aa4ff41 100644
--- a/pystatsm/pyscca/scca.py
+++ b/pystatsm/pyscca/scca.py
@@ -389,7 +389,8 @@ class SCCA:
         self.Sxinv = np.linalg.inv(self.X.T.dot(self.X)).dot(self.X.T)
         self.Syinv = np.linalg.inv(self.Y.T.dot(self.Y)).dot(self.Y.T)
         self.n, self.p, self.q = X.shape[0], X.shape[1], Y.shape[1]
-        self.S, self.Sx, self.Sy = X.T.dot(Y), X.T.dot(X), Y.T.dot(Y)
+        self.S = self.X.T.dot(self.Y)
+        self.Sx, self.Sy = self.X.T.dot(self.X), self.Y.T.dot(self.Y)
         self.U,  self.d, self.V = np.linalg.svd(self.S)
         wx_init = self.U[:, 0]
         wy_init =  self.V.T[:, 0]
-- 
2.43.0


From cdc3056da4e2b501ff7e9b89ee229f7c5c4d5d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 201/219] fix: labelled orthogonal sparse canonical weights

---
 pystatsm/pyscca/scca.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyscca/scca.py b/pystatsm/pyscca/scca.py
index aa4ff41..efbcdf7 100644
--- a/pystatsm/pyscca/scca.py
+++ b/pystatsm/pyscca/scca.py
@@ -435,8 +435,13 @@ class SCCA:
                                              Y, wx_init, wy_init, pdout
                                              , cca_kws)
         if ortho:
-            Wx, Wy = self.orthogonalize_components(Wx, Wy, X=X, Y=Y)
-        rho = vech(_corr(X.dot(Wx), Y.dot(Wy)))
+            Bx, By = self.orthogonalize_components(np.asarray(Wx), np.asarray(Wy), X=X, Y=Y)
+            if isinstance(Wx, pd.DataFrame):
+                Bx = pd.DataFrame(Bx, index=Wx.index, columns=Wx.columns)
+            if isinstance(Wy, pd.DataFrame):
+                By = pd.DataFrame(By, index=Wy.index, columns=Wy.columns)
+            Wx, Wy = Bx, By
+        rho = vech(_corr(X.dot(np.asarray(Wx)), Y.dot(np.asarray(Wy))))
         return Wx, Wy, rho, optinfo
     
     def orthogonalize_components(self, Wx, Wy, X=None, Y=None):
-- 
2.43.0


From cb97b9fbb233f203c4727a17194ff07959f93e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 202/219] fix: sparse canonical correlation with any number of
 components

---
 pystatsm/pyscca/scca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/scca.py b/pystatsm/pyscca/scca.py
index efbcdf7..fa89c55 100644
--- a/pystatsm/pyscca/scca.py
+++ b/pystatsm/pyscca/scca.py
@@ -581,11 +581,14 @@ class SCCA:
     def fit(self, ncv, n_comps=None, cv_kws=None, fit_kws=None):
         cv_kws = {} if cv_kws is None else cv_kws
         fit_kws = {} if fit_kws is None else fit_kws
+        n_comps = 1 if n_comps is None else n_comps
 
         self.Wxcv, self.Wycv, self.rf, self.rt, self.lambdas, optinfo = self.crossval(ncv,
                                                                                       n_comps,
                                                                                       **cv_kws)
-        self.lmax = np.argmax(self.rt.mean(axis=1)[:, [0, 2]].mean(axis=1))
+        # correlations of matching components
+        ix = vech(np.eye(self.Wxcv.shape[-1])) == 1
+        self.lmax = np.argmax(self.rt.mean(axis=1)[:, ix].mean(axis=1))
         self.lam = self.lambdas[self.lmax]
         self.Wx, self.Wy, self.rho, self.optinfo = self._fit(self.lam, self.lam,
                                                              n_comps,
-- 
2.43.0


From fefa136e9f9a4bb49c2a1e7d5cbebca5a814923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 203/219] fix: FastICA scales components by their own
 derivative

---
 pystatsm/pyica/ica.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index 4e80424..7a5ee41 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -53,7 +53,7 @@ def _fast_ica(Xw, W_init, maxiters=500):
     for i in range(maxiters):    
         Gy, dGy = gfunc(Y)
         E_XtGY, E_dGy = cov(Xw, Gy), np.diag(np.mean(dGy, axis=0))
-        W_new = symmetric_decorr(E_XtGY - (E_dGy).dot(W))
+        W_new = symmetric_decorr(E_XtGY - W.dot(E_dGy))
         dW_hist.append(convergence_check(W_new, W, W.shape[1]))
         if dW_hist[-1]<1e-6:
             break
-- 
2.43.0


From 82e33684e695436dc4f5db61f63d4ddf7429a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 204/219] fix: ICA convergence compares components

---
 pystatsm/pyica/ica.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index 7a5ee41..c15d134 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -54,7 +54,7 @@ def _fast_ica(Xw, W_init, maxiters=500):
         Gy, dGy = gfunc(Y)
         E_XtGY, E_dGy = cov(Xw, Gy), np.diag(np.mean(dGy, axis=0))
         W_new = symmetric_decorr(E_XtGY - W.dot(E_dGy))
-        dW_hist.append(convergence_check(W_new, W, W.shape[1]))
+        dW_hist.append(convergence_check(np.ascontiguousarray(W_new.T), np.ascontiguousarray(W.T), W.shape[1]))
         if dW_hist[-1]<1e-6:
             break
         W = W_new
@@ -76,7 +76,7 @@ def _fast_ica2(Xw, W_init, maxiters=500):
         A = np.diag(alpha)
         B = np.diag(beta)
         W_new = symmetric_decorr(W + (A.dot(B+EGYYt)).dot(W))
-        dW_hist.append(convergence_check(W_new, W, W.shape[1]))
+        dW_hist.append(convergence_check(np.ascontiguousarray(W_new.T), np.ascontiguousarray(W.T), W.shape[1]))
         if dW_hist[-1]<1e-6:
             break
         W = W_new
-- 
2.43.0


From 14e427021a0e569ee2e8f1e0ab5358f523c6415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 205/219] fix: maximum likelihood ICA iteration

---
 pystatsm/pyica/ica.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pyica/ica.py b/pystatsm/pyica/ica.py
index c15d134..1705b97 100644
--- a/pystatsm/pyica/ica.py
+++ b/pystatsm/pyica/ica.py
@@ -71,11 +71,11 @@ def _fast_ica2(Xw, W_init, maxiters=500):
     for i in range(maxiters):    
         Gy, dGy = gfunc(Y)
         EGYYt = cov(Y, Gy)
-        beta = np.diag(EGYYt)
+        beta = -np.diag(EGYYt)
         alpha = -1.0 / (beta + np.mean(dGy, axis=0))
         A = np.diag(alpha)
         B = np.diag(beta)
-        W_new = symmetric_decorr(W + (A.dot(B+EGYYt)).dot(W))
+        W_new = symmetric_decorr(W + W.dot((B+EGYYt).dot(A)))
         dW_hist.append(convergence_check(np.ascontiguousarray(W_new.T), np.ascontiguousarray(W.T), W.shape[1]))
         if dW_hist[-1]<1e-6:
             break
-- 
2.43.0


From bd8361fe44b17bf249525f47ce9ec9455d642f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 206/219] fix: convolutive factorisation with current numpy

---
 pystatsm/pynmf/hfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 495f417..25b833d 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -75,7 +75,7 @@ def conv2(A, B, mode='full'):
 
 def reconstruct(W, H):
     n, k, L = W.shape
-    t = int(np.product(H.shape[1:])) + 2 * L
+    t = int(np.prod(H.shape[1:])) + 2 * L
     H = np.pad(H, ((0, 0), (L, L)))
     X_hat = np.zeros((n, t))
     for tau in range(L):
@@ -85,7 +85,7 @@ def reconstruct(W, H):
     
 def seqnmf_objfunc(X, W, H):
     n, k, L = W.shape
-    t = int(np.product(H.shape[1:])) 
+    t = int(np.prod(H.shape[1:])) 
     X_hat = reconstruct(W, H)
     Sk = np.ones((1, 2*L-1))
     WtX = np.zeros((k, t))
-- 
2.43.0


From 9da94e7af7c37711b1826ff61bf705a8de4b157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 207/219] fix: central part of two-dimensional convolution

---
 pystatsm/pynmf/hfuncs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index 25b833d..d994c96 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -65,8 +65,7 @@ def shift(arr, n_shift, constant_value=0.0):
 def conv2(A, B, mode='full'):
     C = sp.signal.convolve2d(A, B, mode='full')
     if mode=='same':
-        a1 = int(np.floor(C.shape[0] / 2) - 1)
-        a2 = int(np.floor(C.shape[1] / 2) - 1)
+        a1, a2 = B.shape[0] // 2, B.shape[1] // 2
         b1, b2 = int(a1+A.shape[0]), int(a2+A.shape[1])
         C = C[a1:b1, a2:b2]
     return C
-- 
2.43.0


From 49efd80d088495bc7a40fda77914d7ac2fa4802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 208/219] fix: cross-orthogonality penalty of convolutive
 factorisation

---
 pystatsm/pynmf/hfuncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index d994c96..e8fa8f6 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -89,12 +89,12 @@ def seqnmf_objfunc(X, W, H):
     Sk = np.ones((1, 2*L-1))
     WtX = np.zeros((k, t))
     for i in range(L):
-        X_shifted = shift(X, ((0, 0), (0, i)))
+        X_shifted = np.pad(X[:, i:], ((0, 0), (0, i)))
         WtX += W[:, :, i].T.dot(X_shifted)
     WtXSHt = (sp.signal.convolve2d(WtX, Sk, 'same').dot(H.T))
     WtXSHt = WtXSHt * (1 - np.eye(WtXSHt.shape[0])) # probably not very effecient
     fval = np.linalg.norm(X - X_hat)
-    penalty = np.linalg.norm(WtXSHt, 1)
+    penalty = np.sum(np.abs(WtXSHt))
     return fval, penalty, WtX
 
 def _initparams(X, k, L):
-- 
2.43.0


From b7bdd78cd5e380bc103e389ddcdbf7883dfea788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 209/219] fix: centring of convolutive factors

---
 pystatsm/pynmf/hfuncs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystatsm/pynmf/hfuncs.py b/pystatsm/pynmf/hfuncs.py
index e8fa8f6..92e98df 100644
--- a/pystatsm/pynmf/hfuncs.py
+++ b/pystatsm/pynmf/hfuncs.py
@@ -113,14 +113,14 @@ def center_factors(W, H):
     center = np.maximum(np.floor(L / 2), 1)
     W_pad  = np.pad(W, ((0, 0), (0, 0), (L, L)))
     for i in range(k):
-        tmp = np.sum(np.squeeze(W[:, i]), axis=0)
+        tmp = np.sum(W[:, i], axis=0)
         v = np.arange(1, len(tmp)+1)
         cmass = np.maximum(np.floor(np.sum(tmp*v)/np.sum(tmp)), 1)
-        W_pad[:, i] = np.roll(np.squeeze(W_pad[:, i]), int(center-cmass), 
+        W_pad[:, i] = np.roll(W_pad[:, i], int(center-cmass), 
                               axis=1)
-        H[i] = np.roll(H[i], int(cmass-center), axis=1)
+        H[i] = np.roll(H[i], int(cmass-center))
     W = W_pad[:, :, L:-L]
-    return W
+    return W, H
 
 
 
-- 
2.43.0


From 2788f646781f64c22a146e87075846429c72f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 210/219] fix: sparse components converge only when both sides
 have settled

---
 pystatsm/pyscca/scca.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pystatsm/pyscca/scca.py b/pystatsm/pyscca/scca.py
index fa89c55..9f9469a 100644
--- a/pystatsm/pyscca/scca.py
+++ b/pystatsm/pyscca/scca.py
@@ -283,7 +283,11 @@ def _scca_vec(S, wx, wy, cx, cy, n_iters=500, tol=1e-6):
         wy_new = wx.dot(S)
         y_thresh = threshold_search(wy_new, cy)
         wy_new = sft(wy_new, y_thresh)
-        wy = wy_new / l2_penalty(wy_new)
+        wy_new = wy_new / l2_penalty(wy_new)
+        # when only the second constraint is active the starting value of wx is
+        # a fixed point of the first step although wy still changes
+        dwx = max(dwx, np.sum(np.abs(wy_new - wy)))
+        wy = wy_new
         
         if dwx < tol:
             break        
-- 
2.43.0


From 7e48478a0f42e59bcd042ac94f664a78e0767ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 211/219] fix: fitting generalized mixed models copes with
 trial covariances that are not positive definite

---
 pystatsm/pylmm/glmm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index 0123b5c..d5f82ec 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -291,6 +291,11 @@ class GLMM_LAP:
     def loglike(self, params):
         if self.freeR is False:
             params = np.r_[params, 1.0]
+        # trial points of the optimizer may lie outside of the parameter space
+        for key in self.levels:
+            Sigma = invech(params[self.p:][self.indices['theta'][key]])
+            if np.min(np.linalg.eigvalsh(Sigma)) <= 0:
+                return 1e10
         u, Xb, RtR, utGinv_u = self.pirls(params)
         lndL = lndet_gmat(params[self.p:], self.dims, self.indices)
         lndQ = np.linalg.slogdet(RtR.toarray())[1]
-- 
2.43.0


From d17ebbf7fed2396e5a6aedafbe71b3faac860391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 212/219] fix: sinharcsinh distribution can be imported without
 running its demonstration

---
 pystatsm/misc/sinharcsinh_dist.py | 131 ++++++++++++++----------------
 1 file changed, 62 insertions(+), 69 deletions(-)

diff --git a/pystatsm/misc/sinharcsinh_dist.py b/pystatsm/misc/sinharcsinh_dist.py
index 2eea5ee..03de6bd 100644
--- a/pystatsm/misc/sinharcsinh_dist.py
+++ b/pystatsm/misc/sinharcsinh_dist.py
@@ -332,111 +332,104 @@ def _variance(m, s, v, t):
     
 
 ###############################################################
-import seaborn as sns
-import matplotlib.pyplot as plt
-from pystats.utilities import numerical_derivs
+if __name__ == "__main__":
+    import seaborn as sns
+    import matplotlib.pyplot as plt
+    from pystatsm.utilities import numerical_derivs
 
-mu, sigma, nu, tau = 10.0, 2.5, 3.0, 1.5
-rng = np.random.default_rng(1234)
+    mu, sigma, nu, tau = 10.0, 2.5, 3.0, 1.5
+    rng = np.random.default_rng(1234)
 
-y = _rvs(rng, mu, sigma, nu, tau, (10_000_000, ))
+    y = _rvs(rng, mu, sigma, nu, tau, (10_000_000, ))
 
-x = np.linspace(y.min(), y.max(), 2000)
-p = np.exp(_logpdf(x, mu, sigma, nu, tau))
+    x = np.linspace(y.min(), y.max(), 2000)
+    p = np.exp(_logpdf(x, mu, sigma, nu, tau))
 
-fig, ax = plt.subplots()
-sns.histplot(y, stat="density", edgecolor="white", ax=ax, alpha=0.5)
-sns.kdeplot(y, ax=ax, ls='--')
-ax.plot(x, p)
+    fig, ax = plt.subplots()
+    sns.histplot(y, stat="density", edgecolor="white", ax=ax, alpha=0.5)
+    sns.kdeplot(y, ax=ax, ls='--')
+    ax.plot(x, p)
 
 
-p_approx = numerical_derivs.finite_diff(lambda x: _cdf(x, mu, sigma, nu, tau), x)
-np.allclose(p_approx, p)
-_qtf(_cdf(mu+1, mu, sigma, nu, tau), mu, sigma, nu, tau)
-_qtf(_cdf(mu-1, mu, sigma, nu, tau), mu, sigma, nu, tau)
+    p_approx = numerical_derivs.finite_diff(lambda x: _cdf(x, mu, sigma, nu, tau), x)
+    np.allclose(p_approx, p)
+    _qtf(_cdf(mu+1, mu, sigma, nu, tau), mu, sigma, nu, tau)
+    _qtf(_cdf(mu-1, mu, sigma, nu, tau), mu, sigma, nu, tau)
 
-p_ext = (_cdf(mu+2*sigma, mu, sigma, nu, tau) - _cdf(mu-2*sigma, mu, sigma, nu, tau))
-p_sim = np.mean((y>(mu - 2*sigma)) * (y < (mu + 2*sigma)))
+    p_ext = (_cdf(mu+2*sigma, mu, sigma, nu, tau) - _cdf(mu-2*sigma, mu, sigma, nu, tau))
+    p_sim = np.mean((y>(mu - 2*sigma)) * (y < (mu + 2*sigma)))
 
 
 
-np.allclose(numerical_derivs.finite_diff(lambda x: _logpdf(y[0], x, sigma, nu, tau), mu),
-            _dL_dmu(y[0], mu, sigma, nu, tau))
+    np.allclose(numerical_derivs.finite_diff(lambda x: _logpdf(y[0], x, sigma, nu, tau), mu),
+                _dL_dmu(y[0], mu, sigma, nu, tau))
 
-np.allclose(numerical_derivs.finite_diff(lambda x: _logpdf(y[0], mu, x, nu, tau), sigma),
-            _dL_dsigma(y[0], mu, sigma, nu, tau))
+    np.allclose(numerical_derivs.finite_diff(lambda x: _logpdf(y[0], mu, x, nu, tau), sigma),
+                _dL_dsigma(y[0], mu, sigma, nu, tau))
 
-np.allclose(numerical_derivs.finite_diff(lambda x: _logpdf(y[0], mu, sigma, x, tau), nu),
-            _dL_dnu(y[0], mu, sigma, nu, tau))
+    np.allclose(numerical_derivs.finite_diff(lambda x: _logpdf(y[0], mu, sigma, x, tau), nu),
+                _dL_dnu(y[0], mu, sigma, nu, tau))
 
-np.allclose(numerical_derivs.finite_diff(lambda x: _logpdf(y[0], mu, sigma, nu, x), tau),
-            _dL_dtau(y[0], mu, sigma, nu, tau))
+    np.allclose(numerical_derivs.finite_diff(lambda x: _logpdf(y[0], mu, sigma, nu, x), tau),
+                _dL_dtau(y[0], mu, sigma, nu, tau))
 
 
-numerical_derivs.finite_diff(lambda x: _logpdf(y[0], x, sigma, nu, tau), mu, order=2)
-numerical_derivs.finite_diff(lambda x: _dL_dmu(y[0], x, sigma, nu, tau), mu, order=1)
-_d2L_dmu2(y[0], mu, sigma, nu, tau)
+    numerical_derivs.finite_diff(lambda x: _logpdf(y[0], x, sigma, nu, tau), mu, order=2)
+    numerical_derivs.finite_diff(lambda x: _dL_dmu(y[0], x, sigma, nu, tau), mu, order=1)
+    _d2L_dmu2(y[0], mu, sigma, nu, tau)
 
 
-numerical_derivs.finite_diff(lambda x:    _logpdf(y[0], mu, x, nu, tau), sigma, order=2)
-numerical_derivs.finite_diff(lambda x: _dL_dsigma(y[0], mu, x, nu, tau), sigma, order=1)
-_d2L_dsigma2(y[0], mu, sigma, nu, tau)
+    numerical_derivs.finite_diff(lambda x:    _logpdf(y[0], mu, x, nu, tau), sigma, order=2)
+    numerical_derivs.finite_diff(lambda x: _dL_dsigma(y[0], mu, x, nu, tau), sigma, order=1)
+    _d2L_dsigma2(y[0], mu, sigma, nu, tau)
 
 
-numerical_derivs.finite_diff(lambda x: _logpdf(y[0], mu, sigma, x, tau), nu, order=2)
-numerical_derivs.finite_diff(lambda x: _dL_dnu(y[0], mu, sigma, x, tau), nu, order=1)
-_d2L_dnu2(y[0], mu, sigma, nu, tau)
+    numerical_derivs.finite_diff(lambda x: _logpdf(y[0], mu, sigma, x, tau), nu, order=2)
+    numerical_derivs.finite_diff(lambda x: _dL_dnu(y[0], mu, sigma, x, tau), nu, order=1)
+    _d2L_dnu2(y[0], mu, sigma, nu, tau)
 
 
-numerical_derivs.finite_diff(lambda x:  _logpdf(y[0], mu, sigma, nu, x), tau, order=2)
-numerical_derivs.finite_diff(lambda x: _dL_dtau(y[0], mu, sigma, nu, x), tau, order=1)
-_d2L_dtau2(y[0], mu, sigma, nu, tau)
+    numerical_derivs.finite_diff(lambda x:  _logpdf(y[0], mu, sigma, nu, x), tau, order=2)
+    numerical_derivs.finite_diff(lambda x: _dL_dtau(y[0], mu, sigma, nu, x), tau, order=1)
+    _d2L_dtau2(y[0], mu, sigma, nu, tau)
 
 
-numerical_derivs.finite_diff(lambda x: _dL_dmu(y[0], mu, x, nu, tau), sigma, order=1)
-_d2L_dmu_dsigma(y[0], mu, sigma, nu, tau)
+    numerical_derivs.finite_diff(lambda x: _dL_dmu(y[0], mu, x, nu, tau), sigma, order=1)
+    _d2L_dmu_dsigma(y[0], mu, sigma, nu, tau)
 
 
-numerical_derivs.finite_diff(lambda x: _dL_dmu(y[0], mu, sigma, x, tau), nu, order=1)
-_d2L_dmu_dnu(y[0], mu, sigma, nu, tau)
+    numerical_derivs.finite_diff(lambda x: _dL_dmu(y[0], mu, sigma, x, tau), nu, order=1)
+    _d2L_dmu_dnu(y[0], mu, sigma, nu, tau)
 
 
-numerical_derivs.finite_diff(lambda x: _dL_dmu(y[0], mu, sigma, nu, x), tau, order=1)
-_d2L_dmu_dtau(y[0], mu, sigma, nu, tau)
+    numerical_derivs.finite_diff(lambda x: _dL_dmu(y[0], mu, sigma, nu, x), tau, order=1)
+    _d2L_dmu_dtau(y[0], mu, sigma, nu, tau)
 
 
-numerical_derivs.finite_diff(lambda x: _dL_dsigma(y[0], mu, sigma, x, tau), nu, order=1)
-_d2L_dsigma_dnu(y[0], mu, sigma, nu, tau)
+    numerical_derivs.finite_diff(lambda x: _dL_dsigma(y[0], mu, sigma, x, tau), nu, order=1)
+    _d2L_dsigma_dnu(y[0], mu, sigma, nu, tau)
 
 
-numerical_derivs.finite_diff(lambda x: _dL_dsigma(y[0], mu, sigma, nu, x), tau, order=1)
-_d2L_dsigma_dtau(y[0], mu, sigma, nu, tau)
-
-numerical_derivs.finite_diff(lambda x: _dL_dnu(y[0], mu, sigma, nu, x), tau, order=1)
-_d2L_dnu_dtau(y[0], mu, sigma, nu, tau)
-
-
-theta = np.asarray([mu, sigma, nu, tau])
-y = _rvs(rng, mu, sigma, nu, tau, (1_000, ))
-
-g_elem = _grad_elementwise(theta, y)
-H_elem = _hess_elementwise(theta, y)
-
-g = _grad(theta, y)
-H = _hess(theta, y)
-
-numerical_derivs.so_gc_cd(lambda x: _grad(x, y), theta)
-numerical_derivs.fo_fc_cd(lambda x: np.sum(_logpdf(y, x[0], x[1], x[2], x[3])), theta)
-
-np.allclose(numerical_derivs.fo_fc_cd(lambda x: np.sum(_logpdf(y, x[0], x[1], x[2], x[3])), theta),
-            g)
-
-np.allclose(numerical_derivs.so_gc_cd(lambda x: _grad(x, y), theta), H)
+    numerical_derivs.finite_diff(lambda x: _dL_dsigma(y[0], mu, sigma, nu, x), tau, order=1)
+    _d2L_dsigma_dtau(y[0], mu, sigma, nu, tau)
 
+    numerical_derivs.finite_diff(lambda x: _dL_dnu(y[0], mu, sigma, nu, x), tau, order=1)
+    _d2L_dnu_dtau(y[0], mu, sigma, nu, tau)
 
 
+    theta = np.asarray([mu, sigma, nu, tau])
+    y = _rvs(rng, mu, sigma, nu, tau, (1_000, ))
 
+    g_elem = _grad_elementwise(theta, y)
+    H_elem = _hess_elementwise(theta, y)
 
+    g = _grad(theta, y)
+    H = _hess(theta, y)
 
+    numerical_derivs.so_gc_cd(lambda x: _grad(x, y), theta)
+    numerical_derivs.fo_fc_cd(lambda x: np.sum(_logpdf(y, x[0], x[1], x[2], x[3])), theta)
 
+    np.allclose(numerical_derivs.fo_fc_cd(lambda x: np.sum(_logpdf(y, x[0], x[1], x[2], x[3])), theta),
+                g)
 
+    np.allclose(numerical_derivs.so_gc_cd(lambda x: _grad(x, y), theta), H)
-- 
2.43.0


From 84e0397c2204d36ce705ee6cdc01165febd71a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 213/219] fix: intraclass correlations use the existing mixed
 model module

---
 pystatsm/misc/icc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/misc/icc.py b/pystatsm/misc/icc.py
index 1e6047d..f764b4b 100644
--- a/pystatsm/misc/icc.py
+++ b/pystatsm/misc/icc.py
@@ -9,7 +9,7 @@ import numpy as np
 import scipy as sp
 import scipy.stats
 import pandas as pd
-from ..pylmm.lmm_mod import LMM
+from ..pylmm.lmm import LMM
 
 
 def icc_from_summary_stats(subject_var, rater_var, residual_var, 
-- 
2.43.0


From ecf8807aa668b5ebef39b1cb0658ce930f1a4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 214/219] fix: mean squares and F statistics of icc in their
 rows

---
 pystatsm/misc/icc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/misc/icc.py b/pystatsm/misc/icc.py
index f764b4b..d5c9df7 100644
--- a/pystatsm/misc/icc.py
+++ b/pystatsm/misc/icc.py
@@ -146,7 +146,8 @@ def icc(subject_var, rater_var, residual_var, n_subjects, n_raters):
     stats = np.zeros((5, 3))
     stats[0] = df_subject, df_rater, df_residual
     stats[1] = ms_subject * df_subject, ms_rater * df_rater, residual_var * df_residual
-    stats[2] = f_subject, f_rater, np.nan
+    stats[2] = ms_subject, ms_rater, residual_var
+    stats[3] = f_subject, f_rater, np.nan
     stats[4] = p_subject, p_rater, np.nan
     stats = pd.DataFrame(stats,columns=["subs", "judges", "resids"],
                               index=["df", "ssq", "ms", "f", "p"])
-- 
2.43.0


From efcfd999464bca4da181617f96091b26b006e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 215/219] fix: skewness of the sinh-arcsinh distribution

---
 pystatsm/misc/shash1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/misc/shash1.py b/pystatsm/misc/shash1.py
index fce3a8e..f1d01c7 100644
--- a/pystatsm/misc/shash1.py
+++ b/pystatsm/misc/shash1.py
@@ -35,7 +35,8 @@ def skewness(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
     Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
     E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
-    mu_3_Y = s**3 * (E_Z_3 - 3 * Var_Z * E_Z - E_Z**3)
+    # Var_Z is the second moment about zero
+    mu_3_Y = s**3 * (E_Z_3 - 3 * Var_Z * E_Z + 2 * E_Z**3)
     return mu_3_Y / variance(m, s, v, t)**1.5
 
 def excess_kurtosis(m, s, v, t):
-- 
2.43.0


From dccbe6e4698ed78798e21c733ab55d3d69715e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 216/219] fix: excess kurtosis of the sinh-arcsinh distribution

---
 pystatsm/misc/shash1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystatsm/misc/shash1.py b/pystatsm/misc/shash1.py
index f1d01c7..4b4e96e 100644
--- a/pystatsm/misc/shash1.py
+++ b/pystatsm/misc/shash1.py
@@ -43,7 +43,8 @@ def excess_kurtosis(m, s, v, t):
     E_Z = np.sinh(v / t) * P(1 / t)
     Var_Z = (np.cosh(2 * v / t) * P(2 / t) - 1) / 2
     E_Z_4 = (1 / 8) * (np.cosh(4 * v / t) * P(4 / t) - 4 * np.cosh(2 * v / t) * P(2 / t) + 3)
-    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z**3 + 6 * Var_Z * E_Z**2 + 3 * E_Z**4)
+    E_Z_3 = (1 / 4) * (np.sinh(3 * v / t) * P(3 / t) - 3 * np.sinh(v / t) * P(1 / t))
+    mu_4_Y = s**4 * (E_Z_4 - 4 * E_Z_3 * E_Z + 6 * Var_Z * E_Z**2 - 3 * E_Z**4)
     return mu_4_Y / variance(m, s, v, t)**2 - 3
 
 def pdf(y, m, s, v, t):
-- 
2.43.0


From ea3763a9ef95c8ec5d94943e0747e145b36b657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 217/219] fix: skew normal methods take the three parameters of
 the distribution

---
 pystatsm/misc/skewnorm_dist.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pystatsm/misc/skewnorm_dist.py b/pystatsm/misc/skewnorm_dist.py
index 6d3f955..288f6e9 100644
--- a/pystatsm/misc/skewnorm_dist.py
+++ b/pystatsm/misc/skewnorm_dist.py
@@ -14,24 +14,24 @@ RT2 = np.sqrt(2.0)
 class SkewNorm:
     
     @staticmethod
-    def loglike(y, mu, sigma, nu, tau):
-        return _logpdf(y, mu, sigma, nu, tau)
+    def loglike(y, mu, sigma, nu):
+        return _logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d1loglike(y, mu, sigma, nu, tau):
-        return _d1logpdf(y, mu, sigma, nu, tau)
+    def d1loglike(y, mu, sigma, nu):
+        return _d1logpdf(y, mu, sigma, nu)
     
     @staticmethod
-    def d2loglike(y, mu, sigma, nu, tau):
-        return _d2logpdf(y, mu, sigma, nu, tau)
+    def d2loglike(y, mu, sigma, nu):
+        return _d2logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d3loglike(y, mu, sigma, nu, tau):
-        return _d3logpdf(y, mu, sigma, nu, tau)
+    def d3loglike(y, mu, sigma, nu):
+        return _d3logpdf(y, mu, sigma, nu)
 
     @staticmethod
-    def d4loglike(y, mu, sigma, nu, tau):
-        return _d4logpdf(y, mu, sigma, nu, tau)
+    def d4loglike(y, mu, sigma, nu):
+        return _d4logpdf(y, mu, sigma, nu)
 
     
 def _expand_arrs(*arrs):
-- 
2.43.0


From 43f0d5ba8134fc01efea9cbb502ff18c098f032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 218/219] fix: p-value of the distance correlation test is a
 share of the permutations

---
 pystatsm/misc/independence_tests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystatsm/misc/independence_tests.py b/pystatsm/misc/independence_tests.py
index 60112bc..010e5e3 100644
--- a/pystatsm/misc/independence_tests.py
+++ b/pystatsm/misc/independence_tests.py
@@ -80,7 +80,7 @@ def _dcorr_permutation_test(X, Y, n_perms=1000, unbiased=True):
     for i in numba.prange(n_perms):
         rp =  _dcorr(X, Y[np.random.permutation(n)], unbiased=unbiased)
         c += abs(rp)>abs(r)
-    p = c / n
+    p = c / n_perms
     return r, p
     
 @numba.jit(nopython=True, parallel=True)
-- 
2.43.0


From c81b1d4f4ef46f70c745a1418ce1a7769496cf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 219/219] fix: random effect modes do not overshoot where the
 mean rounds to its limit

---
 pystatsm/pylmm/glmm.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pystatsm/pylmm/glmm.py b/pystatsm/pylmm/glmm.py
index d5f82ec..74e5917 100644
--- a/pystatsm/pylmm/glmm.py
+++ b/pystatsm/pylmm/glmm.py
@@ -58,6 +58,29 @@ def approx_hess(f, x, *args, eps=None):
 
 
 
+def _halve_step(model, u, step, Xb, Ginv):
+    """
+    Shortens a step towards the modes of the random effects until it does not
+    increase the penalized deviance and the means are inside of their range.
+    """
+    def objective(u):
+        with np.errstate(all='ignore'):
+            mu = model.f.inv_link(model.Zs.dot(u) + Xb)
+            nll = model.f.loglike(model.y, mu=mu)
+            gw, hw = model.f.get_ghw(model.y, mu)
+        if not (np.all(np.isfinite(gw)) and np.all(np.isfinite(hw))):
+            return np.inf
+        return nll + u.dot(Ginv.dot(u)) / 2.0
+    f_old = objective(u)
+    for i in range(20):
+        u_new = u + step
+        f_new = objective(u_new)
+        if f_new <= f_old + 1e-8 * (1.0 + np.abs(f_old)):
+            break
+        step = step / 2.0
+    return u_new
+
+
 class GLMM_AGQ:
     def __init__(self, formula, data, family):
         if isinstance(family, ExponentialFamily)==False:
@@ -135,7 +158,7 @@ class GLMM_AGQ:
             ZtWZ = self.Zt.dot(self.W.dot(self.Zs))
             Ztr = -self.Zt.dot(gw)
             RtR, r = ZtWZ + Psi_inv, Ztr - Psi_inv.dot(u)
-            u_new = u + sps.linalg.spsolve(RtR, r)
+            u_new = _halve_step(self, u, sps.linalg.spsolve(RtR, r), Xb, Psi_inv)
             diff = np.linalg.norm(u_new - u) / len(u)
             u = u_new
             if diff<1e-12:
@@ -272,7 +295,7 @@ class GLMM_LAP:
             ZtWZ = self.Zt.dot(self.W.dot(self.Zs))
             Ztr = -self.Zt.dot(gw)
             RtR, r = ZtWZ + Ginv, Ztr - Ginv.dot(u)
-            u_new = u + sps.linalg.spsolve(RtR, r)
+            u_new = _halve_step(self, u, sps.linalg.spsolve(RtR, r), Xb, Ginv)
             diff = np.linalg.norm(u_new - u) / len(u)
             u = u_new
             if diff<1e-12:
-- 
2.43.0

