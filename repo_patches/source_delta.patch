From f0d1dbdcbc3f6bc9c8c79f0a14d4eab9e8c638b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:15 +0000
Subject: [PATCH 01/66] fix: wrong weights and variances in the nullspace
 kriging fallback

The fallback used when the block kriging system cannot be solved ignored the
contribution of the constrained part of the weights, solved a triangular
system as if it were symmetric, and used the constrained coordinates instead
of the Lagrange multipliers in the variance.
---
 gpmp/core/kriging.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gpmp/core/kriging.py b/gpmp/core/kriging.py
index f34b37d..71ab3fb 100644
--- a/gpmp/core/kriging.py
+++ b/gpmp/core/kriging.py
@@ -232,24 +232,30 @@ def _kriging_predictor_nullspace(model, xi, xt, return_type=0):
     KW = gnp.matmul(K, W)
     G = gnp.matmul(W.T, KW)  # SPD in contrast space
 
-    # Solve alpha = G^{-1} Wᵀ K(Xi,Xt)
-    alpha, _ = gnp.cholesky_solve(G, gnp.matmul(W.T, Kit))
     # Solve beta  = Rq^{-T} P(Xt)ᵀ  (enforces unbiasedness constraints)
-    beta = gnp.solve(Rq.T, Pt.T, assume_a="sym")
+    beta = gnp.solve_triangular(Rq.T, Pt.T, lower=True)
+    # Solve alpha = G^{-1} Wᵀ (K(Xi,Xt) - K Q1 beta)
+    KQ1beta = gnp.matmul(K, gnp.matmul(Q1, beta))
+    alpha, _ = gnp.cholesky_solve(G, gnp.matmul(W.T, Kit - KQ1beta))
 
     lambda_t = gnp.matmul(W, alpha) + gnp.matmul(Q1, beta)
 
+    # Lagrange multipliers: P mu = K(Xi,Xt) - K lambda
+    mu_t = gnp.solve_triangular(
+        Rq, gnp.matmul(Q1.T, Kit - gnp.matmul(K, lambda_t)), lower=False
+    )
+
     if return_type == -1:
         zt_posterior_variance = None
     elif return_type == 0:
         v0 = model.covariance(xt, xt, model.covparam, pairwise=True)
         RHS = gnp.vstack((Kit, Pt.T))
-        LM = gnp.vstack((lambda_t, beta))
+        LM = gnp.vstack((lambda_t, mu_t))
         zt_posterior_variance = v0 - gnp.einsum("i..., i...", LM, RHS)
     elif return_type == 1:
         V0 = model.covariance(xt, xt, model.covparam, pairwise=False)
         RHS = gnp.vstack((Kit, Pt.T))
-        LM = gnp.vstack((lambda_t, beta))
+        LM = gnp.vstack((lambda_t, mu_t))
         zt_posterior_variance = V0 - gnp.matmul(LM.T, RHS)
     else:
         raise ValueError("return_type must be in {-1,0,1}")
-- 
2.43.0


From af8a19026dff05697f5d66ec72d6dc4c25ddebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:15 +0000
Subject: [PATCH 02/66] fix: sign of the variance cutoff in log_prior_power_law

The soft cutoff above cut_logvariance_high was added to the log-prior, so it
rewarded large variances instead of penalizing them.
---
 gpmp/kernel/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/priors.py b/gpmp/kernel/priors.py
index 6eca6a5..08747fa 100644
--- a/gpmp/kernel/priors.py
+++ b/gpmp/kernel/priors.py
@@ -125,7 +125,7 @@ def log_prior_power_law(
     log_prior_lengths = (
         -lambda_lengthscales * gnp.sum(p) - gnp.sum(extra_low) - gnp.sum(extra_high)
     )
-    return log_prior_sigma2 + extra_sigma2 + log_prior_lengths
+    return log_prior_sigma2 - extra_sigma2 + log_prior_lengths
 
 
 def log_prior_reference(model, covparam, xi):
-- 
2.43.0


From 229534fc833893d18fd23df7f0d2a32fd796339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:15 +0000
Subject: [PATCH 03/66] fix: divide by the scale in torch normal.pdf

---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 91d6389..5e5733f 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -972,7 +972,7 @@ class normal:
     def pdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
         t = (x - loc) / scale
-        return 1 / sqrt(2 * pi) * exp(-0.5 * t**2)
+        return 1 / (scale * sqrt(2 * pi)) * exp(-0.5 * t**2)
 
     @staticmethod
     def logpdf(x, loc=0.0, scale=1.0):
-- 
2.43.0


From 8b7b20bd4406d78728c4e4c5f0b8475fde29b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:15 +0000
Subject: [PATCH 04/66] fix: underflow of torch normal.logcdf in the lower tail

Taking the log of the cdf gave -inf below about -38 standard deviations and
lost accuracy well before that.
---
 gpmp/num/torch_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 5e5733f..fecc2fc 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -965,8 +965,7 @@ class normal:
     @staticmethod
     def logcdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
-        d = Normal(loc, scale)
-        return log(d.cdf(x))
+        return torch.special.log_ndtr((x - loc) / scale)
 
     @staticmethod
     def pdf(x, loc=0.0, scale=1.0):
-- 
2.43.0


From 89f5a78ba54ba351534baf7f5b30ed27e457a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:15 +0000
Subject: [PATCH 05/66] fix: transposed systems in torch solve_triangular

`lower` refers to A, so the triangle must be swapped when A is transposed.
The off-diagonal part of the matrix was ignored.
---
 gpmp/num/torch_backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index fecc2fc..86d578e 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -847,18 +847,19 @@ def solve_triangular(
     overwrite_b=False,
     check_finite=False,
 ):
+    upper = not lower
     if trans in (0, "N", "n"):
         Aop = A
     elif trans in (1, "T", "t"):
-        Aop = A.mT
+        Aop, upper = A.mT, not upper
     elif trans in (2, "C", "c"):
-        Aop = A.mH
+        Aop, upper = A.mH, not upper
     else:
         raise ValueError(f"Invalid trans={trans!r}; expected 0/1/2 or 'N'/'T'/'C'.")
     x = torch.linalg.solve_triangular(
         Aop,
         B,
-        upper=not lower,
+        upper=upper,
         left=True,
         unitriangular=unit_diagonal,
     )
-- 
2.43.0


From 2fbfc286eecda1aaef384a5e34b24d78dbfe1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:15 +0000
Subject: [PATCH 06/66] fix: return +inf from the likelihoods on factorization
 failure with NumPy

Only the exception type raised by Torch was caught, so the NumPy backend
raised LinAlgError where the Torch backend returned +inf.
---
 gpmp/core/likelihood.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gpmp/core/likelihood.py b/gpmp/core/likelihood.py
index 4eb6179..5fe3175 100644
--- a/gpmp/core/likelihood.py
+++ b/gpmp/core/likelihood.py
@@ -44,8 +44,10 @@ def negative_log_likelihood_zero_mean(model, covparam, xi, zi):
     n = K.shape[0]
     try:
         Kinv_zi, C = gnp.cholesky_solve(K, zi)
-    except RuntimeError:
-        return gnp.safe_inf()
+    except Exception as exc:
+        if gnp._is_linalg_exception(exc):
+            return gnp.safe_inf()
+        raise
     norm2 = gnp.einsum("i..., i...", zi, Kinv_zi)
     ldetK = 2.0 * gnp.sum(gnp.log(gnp.diag(C)))
     L = 0.5 * (n * gnp.log(2.0 * gnp.pi) + ldetK + norm2)
@@ -120,8 +122,10 @@ def negative_log_restricted_likelihood(model, covparam, xi, zi):
     G = compute_contrast_covariance(W, K)  # (n-q, n-q)
     try:
         WKWinv_Wzi, C = gnp.cholesky_solve(G, Wzi)
-    except RuntimeError:
-        return gnp.safe_inf()
+    except Exception as exc:
+        if gnp._is_linalg_exception(exc):
+            return gnp.safe_inf()
+        raise
     norm2 = gnp.einsum("i..., i...", Wzi, WKWinv_Wzi)
     ldetWKW = 2.0 * gnp.sum(gnp.log(gnp.diag(C)))
     n, q = P.shape
-- 
2.43.0


From 5218888ac6581fa8533b7c52011a23c9d800f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:30 +0000
Subject: [PATCH 07/66] fix: draw multivariate_normal.rvs from the seeded
 generator

rvs used SciPy's and Torch's global generators, so set_seed did not make
Metropolis-Hastings proposals reproducible.
---
 gpmp/num/numpy_backend.py | 11 +++++++----
 gpmp/num/torch_backend.py |  5 ++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/gpmp/num/numpy_backend.py b/gpmp/num/numpy_backend.py
index 44a90ce..ba067a0 100644
--- a/gpmp/num/numpy_backend.py
+++ b/gpmp/num/numpy_backend.py
@@ -513,9 +513,9 @@ class multivariate_normal:
     def rvs(mean=0.0, cov=1.0, n=1):
         # Check if cov is a scalar or 1x1 array, and use norm if so
         if isscalar(cov) or (isinstance(cov, numpy.ndarray) and cov.size == 1):
-            return normal.rvs(mean, numpy.sqrt(cov), size=n).astype(
-                _np_dtype, copy=False
-            )
+            return normal.rvs(
+                mean, numpy.sqrt(cov), size=n, random_state=_np_rng
+            ).astype(_np_dtype, copy=False)
 
         # For dxd covariance matrix, use multivariate_normal
         cov = numpy.asarray(cov)
@@ -524,7 +524,10 @@ class multivariate_normal:
         d = cov.shape[0]
         mean_array = multivariate_normal._mean_array(mean, d)
         return numpy.asarray(
-            scipy_mvnormal.rvs(mean=mean_array, cov=cov, size=n), dtype=_np_dtype
+            scipy_mvnormal.rvs(
+                mean=mean_array, cov=cov, size=n, random_state=_np_rng
+            ),
+            dtype=_np_dtype,
         )
 
     @staticmethod
diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 86d578e..e11b92a 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -1013,8 +1013,7 @@ class multivariate_normal:
             mean_s = multivariate_normal._as_torch_float(
                 mean, device=var.device
             ).reshape(())
-            dist = Normal(mean_s, var.sqrt())
-            return dist.sample((n,))
+            return mean_s + var.sqrt() * randn(n)
 
         # matrix covariance
         if cov_t.ndim != 2 or cov_t.shape[0] != cov_t.shape[1]:
@@ -1022,7 +1021,7 @@ class multivariate_normal:
         d = cov_t.shape[0]
         mean_vec = multivariate_normal._mean_vector(mean, d, cov_t.device)
         dist = MultivariateNormal(mean_vec, covariance_matrix=cov_t)
-        return dist.sample((n,))
+        return mean_vec + randn(n, d) @ dist.scale_tril.mT
 
     @staticmethod
     def logpdf(x, mean=0.0, cov=1.0):
-- 
2.43.0


From 85d26652b795252bd30bf308309667689f0b63bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:39 +0000
Subject: [PATCH 08/66] fix: fast_univariate_stats with NumPy >= 2.4

numpy.trapz no longer exists; use scipy.integrate.trapezoid.
---
 gpmp/modeldiagnosis/param_stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index b040a78..0ce5bb2 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -39,7 +39,7 @@ from __future__ import annotations
 from typing import Any, Callable, Dict, Iterable, List, Optional, Tuple
 
 import numpy as np
-from scipy.integrate import cumulative_trapezoid
+from scipy.integrate import cumulative_trapezoid, trapezoid
 from scipy.optimize import minimize_scalar
 
 import gpmp.num as gnp
@@ -94,12 +94,12 @@ def fast_univariate_stats(
     logw -= np.max(logw)  # stabilize exp
     w = np.exp(logw)
 
-    Z = np.trapz(w, xs)
+    Z = trapezoid(w, xs)
     if not np.isfinite(Z) or Z <= 0.0:
         raise ValueError("Normalization failed in fast_univariate_stats.")
 
-    mean_val = float(np.trapz(xs * w, xs) / Z)
-    second = float(np.trapz((xs**2) * w, xs) / Z)
+    mean_val = float(trapezoid(xs * w, xs) / Z)
+    second = float(trapezoid((xs**2) * w, xs) / Z)
     variance = float(second - mean_val**2)
 
     cdf = cumulative_trapezoid(w, xs, initial=0.0) / Z
-- 
2.43.0


From 69c8ae0ae9908c557f100aa9df90594615c3a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:10 +0000
Subject: [PATCH 09/66] fix: swapped labels when indexing a DataFrame

Row and column names were passed in the wrong order, and single rows or
columns lost a dimension, so sub-tables had wrong labels and could not be
printed or indexed again.
---
 gpmp/misc/dataframe.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 0b963d1..8787e3f 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -43,18 +43,22 @@ class DataFrame:
         if isinstance(key, tuple):
             row_key, col_key = key
             if isinstance(row_key, slice) and isinstance(col_key, slice):
-                return DataFrame(self.data[row_key, col_key], self.rownames[row_key], self.colnames[col_key])
+                return DataFrame(self.data[row_key, col_key], self.colnames[col_key], self.rownames[row_key])
             elif isinstance(row_key, slice):
-                return DataFrame(self.data[row_key, self.colnames.index(col_key)], self.rownames[row_key], [col_key])
+                j = self.colnames.index(col_key)
+                return DataFrame(self.data[row_key, j : j + 1], [col_key], self.rownames[row_key])
             elif isinstance(col_key, slice):
-                return DataFrame(self.data[self.rownames.index(row_key), col_key], [row_key], self.colnames[col_key])
+                i = self.rownames.index(row_key)
+                return DataFrame(self.data[i : i + 1, col_key], self.colnames[col_key], [row_key])
             else:
                 return self.data[self.rownames.index(row_key), self.colnames.index(col_key)]
         elif isinstance(key, str):
             if key in self.rownames:
-                return DataFrame(self.data[self.rownames.index(key), :], [key], self.colnames)
+                i = self.rownames.index(key)
+                return DataFrame(self.data[i : i + 1, :], self.colnames, [key])
             elif key in self.colnames:
-                return DataFrame(self.data[:, self.colnames.index(key)], self.rownames, [key])
+                j = self.colnames.index(key)
+                return DataFrame(self.data[:, j : j + 1], [key], self.rownames)
             else:
                 raise KeyError(f"Key '{key}' not found in row or column names")
         else:
-- 
2.43.0


From 95213accf36875b2547c1905f4a3d06b01d1a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:10 +0000
Subject: [PATCH 10/66] fix: copy the label lists of a DataFrame

Appending a row or column to a table changed the labels of every table
sharing the same list, and the list passed by the caller.
---
 gpmp/misc/dataframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 8787e3f..d15c060 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -36,8 +36,8 @@ def ftos(x, fp=3):
 class DataFrame:
     def __init__(self, data, colnames, rownames):
         self.data = np.array(data)
-        self.rownames = rownames
-        self.colnames = colnames
+        self.rownames = list(rownames)
+        self.colnames = list(colnames)
         
     def __getitem__(self, key):
         if isinstance(key, tuple):
-- 
2.43.0


From 043d1a6147cd55acd185ec6ebfd60e6ea4a8428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:10 +0000
Subject: [PATCH 11/66] fix: format NaN values in tables

ftos raised ValueError on NaN, for instance when printing the performance of
a model on constant data.
---
 gpmp/misc/dataframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index d15c060..a24b5db 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -20,6 +20,8 @@ def ftos(x, fp=3):
         return "+Inf"
     elif x == float('-inf'):
         return "-Inf"
+    elif x != x:
+        return "NaN"
     abs_x = abs(x)
     if x == 0:
         return "0.0"
-- 
2.43.0


From 17cff3399b12d590feef7de080a70311996d572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:10 +0000
Subject: [PATCH 12/66] fix: linear term of the wave test function

The documented formula has 3 * x_1.
---
 gpmp/misc/testfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/misc/testfunctions.py b/gpmp/misc/testfunctions.py
index 709e27a..faf66f2 100644
--- a/gpmp/misc/testfunctions.py
+++ b/gpmp/misc/testfunctions.py
@@ -56,7 +56,7 @@ def wave(x):
     """    
     z = (
         np.exp(1.8 * (x[:, 0] + x[:, 1]))
-        + 3 * x[:, 1]
+        + 3 * x[:, 0]
         + 6 * x[:, 1] ** 2
         + 3 * np.sin(4 * np.pi * x[:, 0])
     )
-- 
2.43.0


From 23dbf2a7928091255fdcedf0faa4631440ec9005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:21 +0000
Subject: [PATCH 13/66] fix: sum all logarithmic terms in detpep8d

Only the last term (i = 8) of the sum over i = 4, ..., 8 was added.
---
 gpmp/misc/testfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/testfunctions.py b/gpmp/misc/testfunctions.py
index faf66f2..6f881e3 100644
--- a/gpmp/misc/testfunctions.py
+++ b/gpmp/misc/testfunctions.py
@@ -361,8 +361,8 @@ def detpep8d(x):
             xj = x[:, jj - 1]
             inner = inner + xj
 
-    new = ii * np.log(1 + inner)
-    outer = outer + new
+        new = ii * np.log(1 + inner)
+        outer = outer + new
 
     z = term1 + term2 + term3 + outer
 
-- 
2.43.0


From c9508b699c5a1e666b607475916d439149d55336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:32 +0000
Subject: [PATCH 14/66] fix: compute the fill distance in filldist_approx

The smallest of all distances between the sample and the discretization was
returned, instead of the largest distance to the nearest sample point. The
full distance matrix was also recomputed for every discretization point.
---
 gpmp/misc/designs.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 65522ea..507c6c1 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -9,8 +9,9 @@ Design of experiments utilities.
 """
 
 import numpy as np
+from scipy.spatial import cKDTree
 from scipy.stats import qmc
-from scipy.spatial.distance import cdist, pdist
+from scipy.spatial.distance import pdist
 
 
 def maxdist(sample):
@@ -91,15 +92,8 @@ def filldist_approx(sample, box, n=int(1e6), x=None):
     dim = sample.shape[1]
     if x is None:
         x = randunif(dim, n, box)
-    else:
-        n = x.shape[0]
-    filldist = 0
-    for i in range(n):
-        D = cdist(sample, x)
-        d = np.min(D)
-        if d > filldist:
-            filldist = d
-    return filldist
+    d, _ = cKDTree(sample).query(x)
+    return np.max(d)
 
 
 def scale(sample_standard, box):
-- 
2.43.0


From 7eabd02e320dd2e4c52cfaf1683e435373246057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:02 +0000
Subject: [PATCH 15/66] =?UTF-8?q?fix:=20NaN=20Mat=C3=A9rn=20covariances=20?=
 =?UTF-8?q?at=20very=20large=20distances?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The polynomial factor overflowed to infinity for p >= 2 while the exponential
factor underflowed to zero, so the kernel returned NaN instead of zero.
---
 gpmp/kernel/matern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/kernel/matern.py b/gpmp/kernel/matern.py
index 8ce0002..1234954 100644
--- a/gpmp/kernel/matern.py
+++ b/gpmp/kernel/matern.py
@@ -52,7 +52,9 @@ def maternp_kernel(p: int, h):
         Kernel values.
     """
     gln = gnp.compute_gammaln(p)  # expects integer table access
-    h = gnp.inftobigf(h)
+    # The kernel underflows to zero well before this cap, which keeps the
+    # polynomial below finite (no inf * 0).
+    h = gnp.minimum(gnp.inftobigf(h), 1e3)
     c = 2.0 * sqrt(p + 0.5)
     twoch = 2.0 * c * h
     polynomial = gnp.ones(h.shape)
-- 
2.43.0


From 9639ccef862d44322d484fddb25c4f284210c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:28 +0000
Subject: [PATCH 16/66] fix: burn-in of a single Metropolis-Hastings chain

The early-stopping test computed the Gelman-Rubin statistic whatever the number
of chains, so a long burn-in of a single chain raised ValueError.
---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 69f1162..0f813ca 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -567,7 +567,7 @@ class MetropolisHastings:
             else:
                 raise ValueError("adaptation_method must be 'RM' or 'Haario'.")
             # Early stopping diagnostics: check if we have enough samples and convergence is achieved
-            if diag and self.global_iter >= n_diag_samples:
+            if diag and self.n_chains >= 2 and self.global_iter >= n_diag_samples:
                 rates = self.compute_sliding_rates(self.options.sliding_rate_width)
                 i0 = max(0, self.global_iter - n_diag_samples)
                 i1 = self.global_iter
-- 
2.43.0


From b549a51dabce211eccf4502b9662aebc7980feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:28 +0000
Subject: [PATCH 17/66] fix: sign of the diminishing Robbins-Monro adaptation
 factor

The cosine schedule went down to -0.8 times the base factor instead of the
documented final fraction. In the second half of the burn-in, the proposal
scale was thus increased when the acceptance rate was too low, and conversely.
---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 0f813ca..b25a1b1 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -259,7 +259,7 @@ class MetropolisHastings:
         returns base * final_frac.
 
         """
-        cosine_component = math.cos(math.pi * n / n_total)
+        cosine_component = 0.5 * (1.0 + math.cos(math.pi * n / n_total))
         return base * (final_frac + (1 - final_frac) * cosine_component)
 
     def _validate_scheduler_args(self, n_steps_total: int, burnin: int):
-- 
2.43.0


From 4f3e290b7d73b4a43156fb14dbf2bd4f231ac10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:28 +0000
Subject: [PATCH 18/66] fix: check_convergence_ks with torch

The number of comparisons was read from the attribute size, which is a method
for torch tensors.
---
 gpmp/mcmc/mh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index b25a1b1..546b12a 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -1027,7 +1027,7 @@ class MetropolisHastings:
             return_significance=True,
             return_statistic=True,
         )
-        frac_sig_multi = gnp.to_scalar(gnp.sum(sigA) / sigA.size)
+        frac_sig_multi = gnp.to_scalar(gnp.mean(sigA * 1.0))
 
         # Single-block check.
         if single_block_size is None:
@@ -1043,7 +1043,7 @@ class MetropolisHastings:
             return_significance=True,
             return_statistic=True,
         )
-        frac_sig_single = gnp.to_scalar(gnp.sum(sigB) / sigB.size)
+        frac_sig_single = gnp.to_scalar(gnp.mean(sigB * 1.0))
 
         # Convergence is declared if the fraction of significant comparisons is low.
         ok = (frac_sig_multi < fraction_threshold) and (
-- 
2.43.0


From bcb1683406ad9ce8da0bd08d4144b501140042be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:28 +0000
Subject: [PATCH 19/66] fix: uninitialized Metropolis-Hastings states after an
 early stop

When the burn-in stops early, fewer steps than planned are run, and the tail of
the chain arrays was never written. The convergence diagnostics and the plots
used it.
---
 gpmp/mcmc/mh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 546b12a..24aa661 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -686,6 +686,11 @@ class MetropolisHastings:
             self.set_mode("sampling_adaptation")
             self.run_adaptive(n_remain)
 
+        # Drop the steps that were not run if the burn-in stopped early.
+        self.x = self.x[:, : self.global_iter + 1]
+        self.accept = self.accept[:, : self.global_iter + 1]
+        self.log_target_values = self.log_target_values[:, : self.global_iter + 1]
+
         self.global_total = self.global_iter
         if self.options.show_global_progress:
             self._print_final_time(self.global_total, self.start_time)
-- 
2.43.0


From 426061ab952b60f8d2d23f4b91cb2d156e5e6bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:28 +0000
Subject: [PATCH 20/66] fix: undefined name in the jitter fallback of
 ParticlesSet.perturb

---
 gpmp/mcmc/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index d4e35c7..8056bb6 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -397,7 +397,7 @@ class ParticlesSet:
                 self.config.jitter_max_iterations
             ):  # Try iterations of jittering
                 jitter = self.config.jitter_initial_value * (10**i)
-                C_jittered = C + jitter * np.eye(C.shape[0])  # Add jitter
+                C_jittered = C + jitter * gnp.eye(C.shape[0])  # Add jitter
                 try:
                     eps = ParticlesSet.multivariate_normal_rvs(
                         C_jittered, self.n, self.rng
-- 
2.43.0


From 8a442a007a0b3398a2ffccd3132e2f35874f68c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:28 +0000
Subject: [PATCH 21/66] fix: error message of ParticlesSet.resample

---
 gpmp/mcmc/smc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 8056bb6..8c824c7 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -245,7 +245,9 @@ class ParticlesSet:
         elif self.config.resample_scheme == "residual":
             self.residual_resample(debug=debug)
         else:
-            raise ValueError("Unknown resample scheme: {}".format(self.resample_scheme))
+            raise ValueError(
+                "Unknown resample scheme: {}".format(self.config.resample_scheme)
+            )
 
     def multinomial_resample(self, debug=False):
         """
-- 
2.43.0


From 3e5138585646b5f907d4bc4d8c61559354d12de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:42 +0000
Subject: [PATCH 22/66] fix: keep requires_grad of the parameter passed to a
 batch criterion

BatchDifferentiableSelectionCriterion switched requires_grad in place on the
tensor given by the caller.
---
 gpmp/num/torch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index e11b92a..a7d20bd 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -647,8 +647,8 @@ class BatchDifferentiableSelectionCriterion:
 
     @staticmethod
     def _prepare_param(param: TensorLike, *, req_grad: bool = False) -> torch.Tensor:
-        """Convert to tensor and set `requires_grad` (no dtype/device casting)."""
-        param = asarray(param)
+        """Copy to a tensor and set `requires_grad` (no dtype/device casting)."""
+        param = asarray(param).detach().clone()
         param.requires_grad_(req_grad)
         return param
 
-- 
2.43.0


From d80ad3eae0cb495e58523c0163d0a2d0ea72107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:42 +0000
Subject: [PATCH 23/66] fix: names listed in gpmp.kernel.__all__

Three of the exported names did not exist, so that 'from gpmp.kernel import *'
failed.
---
 gpmp/kernel/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpmp/kernel/__init__.py b/gpmp/kernel/__init__.py
index c638b1a..f2dbda5 100644
--- a/gpmp/kernel/__init__.py
+++ b/gpmp/kernel/__init__.py
@@ -126,10 +126,10 @@ __all__ = [
     "neglog_f_logrho",
     "log_prior_logrho_barrier_linear",
     "log_prior_reference",
-    "neg_log_restricted_posterior_with_power_law_prior",
-    "neg_log_restricted_posterior_with_gaussian_logsigma2_prior",
+    "neg_log_restricted_posterior_power_laws_prior",
+    "neg_log_restricted_posterior_logsigma2_prior",
     "neg_log_restricted_posterior_with_logrho_prior",
-    "neg_log_restricted_posterior_with_gaussian_logsigma2_and_logrho_prior",
+    "neg_log_restricted_posterior_logsigma2_and_logrho_prior",
     # Bounds
     "empirical_bounds_factory",
 ]
-- 
2.43.0


From 26bf0b5e68c1125eee751115d38aac53db1db286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:21 +0000
Subject: [PATCH 24/66] fix: k-fold indices with torch when the fold bounds sum
 to n

The fold bounds were passed to gnp.split, whose torch version takes them for
sizes when their sum is the number of samples. It raised IndexError for three
folds and any multiple of three samples.
---
 gpmp/dataloader.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 17f3b8d..9fdb1d8 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -186,14 +186,8 @@ class Dataset:
 
         idx = gnp.permutation(n_samples)
         base, r = divmod(n_samples, n_splits)
-        sizes = gnp.concatenate(
-            [
-                gnp.full((r,), base + 1, dtype=int),
-                gnp.full((n_splits - r,), base, dtype=int),
-            ]
-        )
-        bounds = gnp.cumsum(sizes, axis=0)[:-1]
-        folds = gnp.split(idx, bounds)
+        bounds = [k * base + min(k, r) for k in range(n_splits + 1)]
+        folds = [idx[bounds[k] : bounds[k + 1]] for k in range(n_splits)]
 
         out: List[Tuple[Idx, Idx]] = []
         for k in range(n_splits):
-- 
2.43.0


From a19062d9c7f61fb7315d52d26b45b78d273040ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:21 +0000
Subject: [PATCH 25/66] fix: negative indices of a sharded Dataset

A negative index was looked up in the first shard only.
---
 gpmp/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 9fdb1d8..a5f6420 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -104,6 +104,10 @@ class Dataset:
 
     def __getitem__(self, idx: int) -> Tuple[Array, Array]:
         """Return ``(x[idx], z[idx])`` without full-array concatenation."""
+        if idx < 0:
+            idx += self.size
+        if not (0 <= idx < self.size):
+            raise IndexError("Dataset index out of range")
         shard_idx = bisect.bisect_right(self._shard_bounds, idx)
         start = 0 if shard_idx == 0 else self._shard_bounds[shard_idx - 1]
         local_idx = idx - start
-- 
2.43.0


From f13dc8801cf9247e06d577752a283a1e9b42fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:45 +0000
Subject: [PATCH 26/66] fix: column responses in
 conditional_sample_paths_parameterized_mean

Responses of shape (n, 1), accepted by predict and conditional_sample_paths,
were broadcast against the prior mean to an (n, n) array.
---
 gpmp/core/sample_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/core/sample_paths.py b/gpmp/core/sample_paths.py
index 343b84c..ea55dfb 100644
--- a/gpmp/core/sample_paths.py
+++ b/gpmp/core/sample_paths.py
@@ -155,7 +155,7 @@ def conditional_sample_paths_parameterized_mean(
         Conditional sample paths at prediction points xt, adjusted for a parameterized mean.
     """
     xi_ = gnp.asarray(xi)
-    zi_ = gnp.asarray(zi)
+    zi_ = gnp.asarray(zi).reshape(-1)
     xt_ = gnp.asarray(xt)
     ztsim_ = gnp.asarray(ztsim)
 
-- 
2.43.0


From 26d225b2831ae55f254707d221ec209b87427ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:45 +0000
Subject: [PATCH 27/66] fix: inaccurate torch distances between points far from
 the origin

cdist expands the squared distances, which cancels when the points are far from
the origin compared with their distances: with coordinates around 1e6, the
distance between identical points was about 1e-2. Center the points first.
---
 gpmp/num/torch_backend.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index a7d20bd..9836cf3 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -789,6 +789,14 @@ def custom_sqrt(x):
 
 
 def cdist(x, y, zero_diagonal=True):
+    # Center the points: the expansion of the squared distances below cancels
+    # badly when the points are far from the origin.
+    center = x.detach().mean(0, keepdim=True)
+    if x is y:
+        x = y = x - center
+    else:
+        x, y = x - center, y - center
+
     if x is y:
         # use view method: requires contiguous tensor
         x_norm = (x**2).sum(1).view(-1, 1)
-- 
2.43.0


From a6a73231fe5edc9de7ea35cb6000c4122baa9f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:49 +0000
Subject: [PATCH 28/66] fix: return the best visited parameters when the
 optimizer ends on NaN

autoselect_parameters compared r.fun > best_criterion, which is False when
SciPy reports a NaN value, so the NaN result was returned although better
points had been visited.
---
 gpmp/kernel/parameter_selection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index 721f3c1..8390657 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -259,8 +259,8 @@ def autoselect_parameters(
         options=options,
     )
 
-    # ensure returning best seen
-    if r.fun > best_criterion:
+    # ensure returning best seen (r.fun may be NaN)
+    if best_params is not None and not r.fun <= best_criterion:
         r.x, r.fun, r.best_value_returned = best_params, best_criterion, False
     else:
         r.best_value_returned = True
-- 
2.43.0


From 33e4eb896d9ac45f91198b1eccd14be9c7e9358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:00 +0000
Subject: [PATCH 29/66] fix: leave the prior defaults unchanged when one of the
 new values is invalid

set_default_prior_hyperparameters stored the valid values it had seen before
raising on an invalid one, leaving the defaults partly updated.
---
 gpmp/kernel/prior_defaults.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/gpmp/kernel/prior_defaults.py b/gpmp/kernel/prior_defaults.py
index dd0621c..0487242 100644
--- a/gpmp/kernel/prior_defaults.py
+++ b/gpmp/kernel/prior_defaults.py
@@ -91,24 +91,30 @@ def set_default_prior_hyperparameters(
         gamma = float(gamma)
         if gamma <= 1.0:
             raise ValueError("gamma must be > 1.")
-        _PRIOR_DEFAULTS.gamma = gamma
 
     if sigma2_coverage is not None:
         sigma2_coverage = float(sigma2_coverage)
         if not (0.0 < sigma2_coverage < 1.0):
             raise ValueError("sigma2_coverage must be in (0, 1).")
-        _PRIOR_DEFAULTS.sigma2_coverage = sigma2_coverage
 
     if alpha is not None:
         alpha = float(alpha)
         if alpha <= 0.0:
             raise ValueError("alpha must be > 0.")
-        _PRIOR_DEFAULTS.alpha = alpha
 
     if rho_min_range_factor is not None:
         rho_min_range_factor = float(rho_min_range_factor)
         if rho_min_range_factor <= 0.0:
             raise ValueError("rho_min_range_factor must be > 0.")
+
+    # All values are valid: store them.
+    if gamma is not None:
+        _PRIOR_DEFAULTS.gamma = gamma
+    if sigma2_coverage is not None:
+        _PRIOR_DEFAULTS.sigma2_coverage = sigma2_coverage
+    if alpha is not None:
+        _PRIOR_DEFAULTS.alpha = alpha
+    if rho_min_range_factor is not None:
         _PRIOR_DEFAULTS.rho_min_range_factor = rho_min_range_factor
 
 
@@ -121,18 +127,12 @@ def set_default_prior_hyperparameters_from_kwargs(kwargs):
     ``prior_logrho_alpha``, ``prior_logrho_min_range_factor``.
     Recognized keys are removed from ``kwargs``.
     """
-    if "prior_logsigma2_gamma" in kwargs:
-        set_default_prior_hyperparameters(gamma=kwargs.pop("prior_logsigma2_gamma"))
-    if "prior_logsigma2_coverage" in kwargs:
-        set_default_prior_hyperparameters(
-            sigma2_coverage=kwargs.pop("prior_logsigma2_coverage")
-        )
-    if "prior_logrho_alpha" in kwargs:
-        set_default_prior_hyperparameters(alpha=kwargs.pop("prior_logrho_alpha"))
-    if "prior_logrho_min_range_factor" in kwargs:
-        set_default_prior_hyperparameters(
-            rho_min_range_factor=kwargs.pop("prior_logrho_min_range_factor")
-        )
+    set_default_prior_hyperparameters(
+        gamma=kwargs.pop("prior_logsigma2_gamma", None),
+        sigma2_coverage=kwargs.pop("prior_logsigma2_coverage", None),
+        alpha=kwargs.pop("prior_logrho_alpha", None),
+        rho_min_range_factor=kwargs.pop("prior_logrho_min_range_factor", None),
+    )
 
 
 def resolve_prior_defaults_for_selection(
-- 
2.43.0


From 5908d8ab9ea07b5eb1b9379eec3aaf0f34245b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:58 +0000
Subject: [PATCH 30/66] fix: accept Python floats in isfinite with the torch
 backend

empirical_bounds_factory and compute_logrho_min_from_xi call it on a float
infinity when a coordinate takes a single value and raised TypeError.
---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 9836cf3..4ab92d8 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -71,7 +71,6 @@ from torch import (
     any,
     isnan,
     isinf,
-    isfinite,
     isclose,
     allclose,
     hstack,
@@ -369,6 +368,7 @@ sin = scalar_safe(torch.sin)
 cos = scalar_safe(torch.cos)
 tan = scalar_safe(torch.tan)
 tanh = scalar_safe(torch.tanh)
+isfinite = scalar_safe(torch.isfinite)
 
 # ..................................................
 
-- 
2.43.0


From 734b41ffec1dbbad016415866a52154ee2bbb36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:13 +0000
Subject: [PATCH 31/66] fix: Dataset variances and deviations follow gnp.var
 and gnp.std

The dataset statistics divided by n - 1 while every other statistic of the
library, and the dataset tests, use the population convention.
---
 gpmp/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index a5f6420..b420b61 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -267,7 +267,7 @@ class Dataset:
             else:
                 total_var += shard_var
             n += data.shape[0]
-        return total_var / (n - 1)
+        return total_var / n
 
     def _reduce_std(self, x_or_z: str) -> Array:
         return gnp.sqrt(self._reduce_var(x_or_z))
-- 
2.43.0


From 2824af2e94ec1191658481df8184314f1b911a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:13 +0000
Subject: [PATCH 32/66] fix: keep Param values floating point and of constant
 length

Integer input made later assignments truncate silently, and assigning a
vector of another length left names, paths and bounds inconsistent.
---
 gpmp/parameter/param.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 6cb37c2..c5adcb2 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -114,7 +114,10 @@ class Param:
 
     @values.setter
     def values(self, new_values: Union[List[float], gnp.ndarray]) -> None:
-        self._values = gnp.asarray(new_values)
+        new_values = gnp.asarray(new_values, dtype=float)
+        if hasattr(self, "_values") and len(new_values) != self.dim:
+            raise ValueError("Mismatch in size for values.")
+        self._values = new_values
         self.dim = len(self._values)
 
     @property
-- 
2.43.0


From 57e0ebecdc58a1f7b88a40289451a2916fa9ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:50 +0000
Subject: [PATCH 33/66] fix: scalers use the population deviation with the
 torch backend too

Tensor.std divides by n - 1: fitted data did not get unit variance, and a
single row gave NaN scales.
---
 gpmp/dataloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index b420b61..ee03710 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -553,7 +553,9 @@ class Normalizer:
 
     @staticmethod
     def fit(x: Array) -> "Normalizer":
-        return Normalizer(x.mean(axis=0, keepdims=True), x.std(axis=0, keepdims=True))
+        return Normalizer(
+            x.mean(axis=0, keepdims=True), gnp.std(x, axis=0, keepdims=True)
+        )
 
 
 class RobustScaler:
@@ -625,7 +627,7 @@ class ObservationScaler:
 
     @staticmethod
     def fit(z: Array) -> "ObservationScaler":
-        return ObservationScaler(z.mean(), z.std())
+        return ObservationScaler(z.mean(), gnp.std(z))
 
 
 # ======================================================================
-- 
2.43.0


From 249adb3f224082e5266438816f8f8cbcf8d7d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:36 +0000
Subject: [PATCH 34/66] fix: gradient of a failed criterion is zero instead of
 an error (torch)

L-BFGS-B asks for the gradient at every point, so that a selection entering a
region where the covariance matrix cannot be factorized stopped with
'Gradient is None'. Same convention as value_and_grad.
---
 gpmp/num/torch_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 4ab92d8..9bb4d69 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -600,6 +600,8 @@ class DifferentiableSelectionCriterion:
             allow_unused=allow_unused,
         )[0]
         if gradients is None:
+            if not torch.isfinite(self._f_value):  # failed factorization
+                return torch.zeros_like(self._p_value).detach()
             raise RuntimeError("Gradient is None.")
         return gradients
 
-- 
2.43.0


From d5be89c2e283d46f2d82ef03990ba2f154405fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:36 +0000
Subject: [PATCH 35/66] fix: mini-batch criteria handle failed factorizations
 with torch

evaluate_pre_grad stopped with an autograd error when the criterion of a batch
was infinite; the NumPy version returns inf.
---
 gpmp/num/torch_backend.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 9bb4d69..9f79b91 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -666,11 +666,20 @@ class BatchDifferentiableSelectionCriterion:
                     self._batch_iter = iter(self.loader)
                     yield next(self._batch_iter)
 
+    def _crit(self, param, xb, zb):
+        """Criterion on one batch, infinite when a factorization fails."""
+        try:
+            return self.crit(param, xb, zb)
+        except Exception as exc:
+            if _is_linalg_exception(exc):
+                return torch.tensor(float("inf"), requires_grad=True)
+            raise
+
     def evaluate(self, param: TensorLike) -> torch.Tensor:
         total, n = 0.0, 0
         for xb, zb in self._batches():
             bs = xb.shape[0]
-            loss = self.crit(param, xb, zb) * bs
+            loss = self._crit(param, xb, zb) * bs
             total += loss.item()
             n += bs
         if n == 0:
@@ -685,7 +694,7 @@ class BatchDifferentiableSelectionCriterion:
             p = self._prepare_param(param, req_grad=False)
             for xb, zb in self._batches():
                 bs = xb.shape[0]
-                total += self.crit(p, xb, zb).item() * bs
+                total += self._crit(p, xb, zb).item() * bs
                 n += bs
         if n == 0:
             raise ValueError("Loader is empty.")
@@ -697,8 +706,10 @@ class BatchDifferentiableSelectionCriterion:
         total, n = 0.0, 0
         for xb, zb in self._batches():
             bs = xb.shape[0]
-            loss = self.crit(p, xb, zb) * bs
-            g = torch.autograd.grad(loss, p, retain_graph=False)[0]
+            loss = self._crit(p, xb, zb) * bs
+            g = torch.autograd.grad(loss, p, retain_graph=False, allow_unused=True)[0]
+            if g is None:  # criterion not defined at p
+                g = torch.zeros_like(p)
             if grad is None:
                 grad = g
             else:
-- 
2.43.0


From a9ce89e2daf9e213a61a13cef0370d3e07c74ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:18 +0000
Subject: [PATCH 36/66] fix: selection returns the best visited point when a
 line search fails

L-BFGS-B can end with the value of the last evaluation attached to the previous
iterate, here a point where the criterion is NaN.
---
 gpmp/kernel/parameter_selection.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index 8390657..0a973c7 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -259,8 +259,14 @@ def autoselect_parameters(
         options=options,
     )
 
-    # ensure returning best seen (r.fun may be NaN)
-    if best_params is not None and not r.fun <= best_criterion:
+    # ensure returning best seen (r.fun may be NaN, or may not be the value at
+    # r.x when a line search fails)
+    values_at_x = [
+        J for p, J in zip(history_params, history_criterion) if np.array_equal(p, r.x)
+    ] or [r.fun]
+    if best_params is not None and not (
+        r.fun <= best_criterion and any(J <= best_criterion for J in values_at_x)
+    ):
         r.x, r.fun, r.best_value_returned = best_params, best_criterion, False
     else:
         r.best_value_returned = True
-- 
2.43.0


From 74ad9251abf0db9224fef6ba88c9bbe9fae835a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:32 +0000
Subject: [PATCH 37/66] fix: tcrps_gaussian accepts array bounds as documented

---
 gpmp/misc/scoringrules.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gpmp/misc/scoringrules.py b/gpmp/misc/scoringrules.py
index 7cae6c0..a530426 100644
--- a/gpmp/misc/scoringrules.py
+++ b/gpmp/misc/scoringrules.py
@@ -134,6 +134,19 @@ def tcrps_gaussian(mu, sigma, z, a=-gnp.inf, b=gnp.inf):
     z = gnp.asarray(z)
     a = gnp.asarray(a)
     b = gnp.asarray(b)
+    if a.reshape(-1).shape[0] > 1 or b.reshape(-1).shape[0] > 1:
+        # one interval per prediction
+        zero = 0.0 * (mu + sigma + z) + 0.0 * gnp.isfinite(a) + 0.0 * gnp.isfinite(b)
+        mu, sigma, z = mu + zero, sigma + zero, z + zero
+        a, b = a + zero, b + zero
+        return gnp.concatenate(
+            [
+                tcrps_gaussian(
+                    mu[i : i + 1], sigma[i : i + 1], z[i : i + 1], a[i], b[i]
+                ).reshape(1)
+                for i in range(zero.shape[0])
+            ]
+        )
     if gnp.isfinite(a) and gnp.isfinite(b):
         term1 = gnp.maximum(gnp.minimum(b, z) - a, 0.0)
         term2 = ei2_up(mu, sigma, b) - ei2_up(mu, sigma, a)
-- 
2.43.0


From 2f1f6e7da163322164f41eda1e901f131f68c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:34 +0000
Subject: [PATCH 38/66] fix: PIT values with column responses and with the
 torch backend

---
 gpmp/modeldiagnosis/performance.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/gpmp/modeldiagnosis/performance.py b/gpmp/modeldiagnosis/performance.py
index b69d7c3..386d511 100644
--- a/gpmp/modeldiagnosis/performance.py
+++ b/gpmp/modeldiagnosis/performance.py
@@ -129,9 +129,8 @@ def compute_performance(
         out["loo_Q2"] = 1 - press / tss
 
         if compute_pit:
-            zloov_arr = gnp.asarray(zloov)
-            scale = gnp.sqrt(gnp.clip(zloov_arr, 0.0, gnp.inf))
-            out["loo_pit"] = gnp.normal.cdf(zi_arr, loc=zloom, scale=scale)
+            scale = gnp.sqrt(gnp.clip(_as_1d(zloov), 0.0, gnp.inf))
+            out["loo_pit"] = gnp.normal.cdf(zi_vec, loc=_as_1d(zloom), scale=scale)
 
     if xtzt is not None:
         xt, zt = xtzt
@@ -143,8 +142,6 @@ def compute_performance(
             zpm, zpv = model.predict(xi, zi_arr, xt)
         else:
             zpm, zpv = zpmzpv
-            zpm = gnp.asarray(zpm)
-            zpv = gnp.asarray(zpv)
 
         zpm_vec = _as_1d(zpm)
         n = int(zt_vec.shape[0])
@@ -167,8 +164,8 @@ def compute_performance(
         out["test_R2"] = 1 - rss / tss
 
         if compute_pit:
-            scale = gnp.sqrt(gnp.clip(zpv, 0.0, gnp.inf))
-            out["test_pit"] = gnp.normal.cdf(zt_arr, loc=zpm, scale=scale)
+            scale = gnp.sqrt(gnp.clip(_as_1d(zpv), 0.0, gnp.inf))
+            out["test_pit"] = gnp.normal.cdf(zt_vec, loc=zpm_vec, scale=scale)
 
     return out
 
-- 
2.43.0


From b7c9d8eda0f2943273804583a7a39d77c3823c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:34 +0000
Subject: [PATCH 39/66] fix: delta_over_sigma of the responses uses the
 standard deviation

---
 gpmp/modeldiagnosis/report.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpmp/modeldiagnosis/report.py b/gpmp/modeldiagnosis/report.py
index 6f8bce3..0822466 100644
--- a/gpmp/modeldiagnosis/report.py
+++ b/gpmp/modeldiagnosis/report.py
@@ -212,7 +212,8 @@ def model_diagnosis_disp(
         rownames_zi = ["zi"]
     else:
         rownames_zi = [f"zi_{j}" for j in range(int(zi.shape[1]))]
-    df_zi = describe_array(zi, rownames_zi, 1.0 / param_values[0])
+    # the first parameter is the process variance sigma^2
+    df_zi = describe_array(zi, rownames_zi, 1.0 / np.sqrt(param_values[0]))
 
     n, d = int(xi.shape[0]), int(xi.shape[1])
     rownames_xi = [f"xi_{j}" for j in range(d)]
-- 
2.43.0


From 4dbc7589469cc703c6113fab86a887861a1577f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:34 +0000
Subject: [PATCH 40/66] fix: parameter statistics for criteria with large
 absolute values

---
 gpmp/modeldiagnosis/param_stats.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index 0ce5bb2..239f49a 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -344,8 +344,14 @@ def selection_criterion_statistics(
 
         sp = make_single_param_criterion_function(selection_criterion, covparam, j)
 
+        res = minimize_scalar(lambda x: _to_float(sp(float(x))), bounds=(lo, hi), method="bounded")
+        shift = _to_float(res.fun)
+        if not np.isfinite(shift):
+            shift = 0.0
+
         def log_pdf_scalar(x: float) -> float:
-            return -_to_float(sp(float(x)))
+            # the density is normalized: subtract the minimum to keep exp() in range
+            return -(_to_float(sp(float(x))) - shift)
 
         dist = Unnormalized1DDistribution(log_pdf_scalar, bounds=(lo, hi))
 
@@ -357,7 +363,6 @@ def selection_criterion_statistics(
         q75 = float(dist.quantile(0.75))
         q90 = float(dist.quantile(0.9))
 
-        res = minimize_scalar(lambda x: _to_float(sp(float(x))), bounds=(lo, hi), method="bounded")
         mode_val = float(res.x) if getattr(res, "success", False) else float(opt)
 
         if verbose:
-- 
2.43.0


From c9fb1960ba0cea3aca9b85a1d88fcd56f0af53b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:23 +0000
Subject: [PATCH 41/66] fix: torch min and max reduce over all elements by
 default, as with NumPy

---
 gpmp/num/torch_backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 9f79b91..be64460 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -460,12 +460,18 @@ def norm(x, axis=None, ord=2):
     return torch.norm(x, dim=axis, p=ord)
 
 
-def min(x, axis=0, keepdims=False):
+def min(x, axis=None, keepdims=False):
+    if axis is None:
+        m = torch.min(x)
+        return m.reshape((1,) * x.ndim) if keepdims else m
     m = torch.min(x, dim=axis)
     return m.values.unsqueeze(axis) if keepdims else m.values
 
 
-def max(x, axis=0, keepdims=False):
+def max(x, axis=None, keepdims=False):
+    if axis is None:
+        m = torch.max(x)
+        return m.reshape((1,) * x.ndim) if keepdims else m
     m = torch.max(x, dim=axis)
     return m.values.unsqueeze(axis) if keepdims else m.values
 
-- 
2.43.0


From 56791278860b21a4afe11f7dd703e6b2e84a8b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:23 +0000
Subject: [PATCH 42/66] fix: torch array() copies its argument, as with NumPy

---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index be64460..7a7e7b4 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -185,7 +185,7 @@ def expand_dims(tensor, axis):
 # ..................................................
 
 def array(x, dtype=None):
-    return asarray(x, dtype=dtype)
+    return asarray(x, dtype=dtype).clone()
 
 
 def _resolve_torch_dtype(dtype):
-- 
2.43.0


From 9cf97f97b6b0be3eb81125cca0ac21ef319764b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:33 +0000
Subject: [PATCH 43/66] fix: MH records the log-target of the initial states

---
 gpmp/mcmc/mh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 24aa661..56828d5 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -432,6 +432,7 @@ class MetropolisHastings:
                     c,
                     log_target_x_current=prev_log_target,
                 )
+                self.log_target_values[c, t - 1] = log_target_prev
                 self.log_target_values[c, t] = log_target_next
             self.global_iter += 1
             if show_global_progress:
-- 
2.43.0


From e1eaea9ea5213f33d1907730ad6e4f03c3dc81c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:48 +0000
Subject: [PATCH 44/66] fix: subset simulation accounts for the volume of the
 initial box

---
 gpmp/mcmc/smc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 8c824c7..b74d3dd 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -1429,6 +1429,9 @@ def run_subset_simulation(
 
     # Initialize particles
     smc.particles.particles_init(init_box, n_particles)
+    # Initial particles are uniform in init_box: account for its volume
+    log_volume = gnp.sum(gnp.log(gnp.asarray(init_box[1]) - gnp.asarray(init_box[0])))
+    smc.particles.logpx = gnp.zeros((n_particles,)) - log_volume
     smc.log_data["target_logpdf_param"] = thresholds[1]
 
     stage_probs = gnp.empty(len(thresholds) - 1)
-- 
2.43.0


From ebe7be198f4aea2afcf91b8cd5fbec71e5b6be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:33:48 +0000
Subject: [PATCH 45/66] fix: SMC tempering always makes progress towards the
 target

---
 gpmp/mcmc/smc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index b74d3dd..8438de9 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -950,6 +950,9 @@ class SMC:
                 )
                 return target_logpdf_param
             next_logpdf_param = brentq(compute_delta_eta, low, high, xtol=tolerance)
+            if next_logpdf_param == current_logpdf_param:
+                # Root closer than the tolerance: refine to make progress
+                next_logpdf_param = brentq(compute_delta_eta, low, high)
 
             return next_logpdf_param
 
-- 
2.43.0


From c657e7a71cd2244e91b0e5f776c941657e8b46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:35 +0000
Subject: [PATCH 46/66] fix: posterior sampling with a single MH chain returns
 its samples

The Gelman-Rubin diagnostic needs two chains. With one chain and textual
diagnostics on, it raised at the end of the run and the samples were lost.
---
 gpmp/mcmc/param_posterior.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index aaff887..54a805b 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -474,7 +474,8 @@ def sample_from_selection_criterion_mh(
     if not silent:
         print("\n")
         mh.check_acceptance_rates(burnin_period=mh.burnin_period)
-        mh.check_convergence_gelman_rubin(burnin_period=mh.burnin_period)
+        if n_chains > 1:
+            mh.check_convergence_gelman_rubin(burnin_period=mh.burnin_period)
 
     if plot_chains:
         mh.plot_chains()
-- 
2.43.0


From 49ae56484c02e550a3a8e4e9277dca722c35bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:35 +0000
Subject: [PATCH 47/66] fix: SMC posterior sampling initializes in the
 normalized box

The initialization box was checked against the parameter dimension but the
original box was used. Scalar bounds raised, and bounds of length one gave
particles of dimension one whatever the number of parameters.
---
 gpmp/mcmc/param_posterior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 54a805b..57ece01 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -729,7 +729,9 @@ def sample_from_selection_criterion_smc(
         raise ValueError("init_box must be provided for SMC.")
 
     dim = _infer_dim(info, None, init_box)
-    _, _, _, _ = _normalize_bounds(init_box, dim, box_name="init_box")
+    _, _, lower_init_np, upper_init_np = _normalize_bounds(
+        init_box, dim, box_name="init_box"
+    )
 
     lower_b = upper_b = None
     if sampling_box is not None:
@@ -765,7 +767,7 @@ def sample_from_selection_criterion_smc(
         target_logpdf_param=final_temperature,
         compute_next_logpdf_param_method="ess",
         min_ess_ratio=min_ess_ratio,
-        init_box=init_box,
+        init_box=[lower_init_np, upper_init_np],
         n_particles=n_particles,
         mh_steps=mh_steps,
         debug=debug,
-- 
2.43.0


From 1717598feafd6ff886131529a9a806ec32aa996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:35 +0000
Subject: [PATCH 48/66] fix: SMC posterior sampling gives zero density where
 the criterion fails

An exception raised by the criterion, or a NaN value, at one particle
stopped the run. The other samplers treat such points as having zero
density.
---
 gpmp/mcmc/param_posterior.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 57ece01..3151834 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -740,7 +740,11 @@ def sample_from_selection_criterion_smc(
         )
 
     def _criterion_scalar(theta):
-        return gnp.to_scalar(gnp.asarray(f(theta)).reshape(()))
+        try:
+            v = gnp.to_scalar(gnp.asarray(f(theta)).reshape(()))
+        except Exception:
+            return float("inf")
+        return float("inf") if v != v else v
 
     def logpdf_temp(x, temperature):
         x = gnp.asarray(x)
-- 
2.43.0


From 8826e07ec5b952b141d9d8b327cabdeea0bda17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:35 +0000
Subject: [PATCH 49/66] fix: posterior samplers accept initial states of shape
 (dim, n_chains)

This documented shape was refused because the dimension was always read
from the second axis.
---
 gpmp/mcmc/param_posterior.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 3151834..3a62c0c 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -101,6 +101,7 @@ def _infer_dim(
     info: object,
     param_initial_states,
     box,
+    n_chains: Optional[int] = None,
 ) -> int:
     if param_initial_states is not None:
         theta = gnp.asarray(param_initial_states)
@@ -109,7 +110,10 @@ def _infer_dim(
         if theta.ndim == 1:
             return int(theta.shape[0])
         if theta.ndim == 2:
-            return int(theta.shape[1])
+            r, c = int(theta.shape[0]), int(theta.shape[1])
+            if r not in (1, n_chains) and c == n_chains:
+                return r  # (dim, n_chains)
+            return c
         raise ValueError("param_initial_states must be scalar, 1D or 2D.")
 
     if info is not None:
@@ -416,7 +420,7 @@ def sample_from_selection_criterion_mh(
         require_differentiable=False,
     )
     dim_box = init_box if init_box is not None else sampling_box
-    dim = _infer_dim(info, param_initial_states, dim_box)
+    dim = _infer_dim(info, param_initial_states, dim_box, n_chains)
 
     lower_init = upper_init = None
     lower_init_np = upper_init_np = None
@@ -596,7 +600,7 @@ def sample_from_selection_criterion_nuts(
         require_differentiable=True,
     )
     dim_box = init_box if init_box is not None else sampling_box
-    dim = _infer_dim(info, param_initial_states, dim_box)
+    dim = _infer_dim(info, param_initial_states, dim_box, n_chains)
 
     lower_init = upper_init = None
     lower_init_np = upper_init_np = None
-- 
2.43.0


From 6805b7f79f93ebefc4639d2de3d3b387248879f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:22 +0000
Subject: [PATCH 50/66] fix: Param keeps its own copy of the values it is given

Setting an entry of a Param built from a covariance parameter vector
also changed the caller's vector.
---
 gpmp/parameter/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index c5adcb2..e89e827 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -114,7 +114,7 @@ class Param:
 
     @values.setter
     def values(self, new_values: Union[List[float], gnp.ndarray]) -> None:
-        new_values = gnp.asarray(new_values, dtype=float)
+        new_values = gnp.copy(gnp.asarray(new_values, dtype=float))
         if hasattr(self, "_values") and len(new_values) != self.dim:
             raise ValueError("Mismatch in size for values.")
         self._values = new_values
-- 
2.43.0


From ca2e7c1924b8a863e38c7af5cd2d7f547ef08861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:35 +0000
Subject: [PATCH 51/66] fix: Fisher information of integer parameters

The finite-difference step was truncated when the covariance parameters were
given as integers, which silently returned a wrong matrix.
---
 gpmp/core/fisher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/core/fisher.py b/gpmp/core/fisher.py
index 3a0859c..a7ac5aa 100644
--- a/gpmp/core/fisher.py
+++ b/gpmp/core/fisher.py
@@ -46,7 +46,7 @@ def fisher_information(model, xi, covparam=None, epsilon: float = 1e-3):
     3) This method can be computationally expensive for high-dimensional parameter spaces,
        but is robust when autodiff faces numerical instabilities.
     """
-    theta = model.covparam if covparam is None else gnp.asarray(covparam)
+    theta = model.covparam if covparam is None else gnp.asdouble(covparam)
     p = theta.shape[0]
     I = gnp.empty((p, p))
 
@@ -105,7 +105,7 @@ def fisher_information_cpd(model, xi, covparam=None, epsilon: float = 1e-3):
     I : (p, p) array
         Fisher information matrix.
     """
-    theta = model.covparam if covparam is None else gnp.asarray(covparam)
+    theta = model.covparam if covparam is None else gnp.asdouble(covparam)
     p = theta.shape[0]
 
     # Build base covariance
-- 
2.43.0


From b36a80db5e25ca40087b83850eea4376cb236cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:35 +0000
Subject: [PATCH 52/66] fix: torch asarray accepts NumPy views with negative
 strides

The fallback repeated the conversion that had just failed. Reversed views
raised ValueError with the torch backend and were accepted with numpy.
---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 7a7e7b4..6ea7cc4 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -225,7 +225,7 @@ def asarray(x, dtype=None):
         try:
             x_ = torch.from_numpy(x)
         except (TypeError, ValueError):
-            x_ = torch.as_tensor(x)
+            x_ = torch.as_tensor(x.copy())
         if dtype is not None:
             return x_ if x_.dtype == dtype else x_.to(dtype=dtype)
         if x_.is_floating_point() and x_.dtype != _torch_dtype:
-- 
2.43.0


From d8c28ece5dd39570f4c9866871c46009e1636073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:35 +0000
Subject: [PATCH 53/66] fix: integer data are converted to double precision

Integer observations and designs were accepted by the numpy backend but
raised dtype errors with torch in predictions, selection, bounds, initial
guesses, performance metrics and dataset statistics.
---
 gpmp/core/utils.py                 | 6 +++---
 gpmp/dataloader.py                 | 4 ++--
 gpmp/kernel/bounds.py              | 4 ++--
 gpmp/kernel/parameter_selection.py | 4 ++--
 gpmp/kernel/utils.py               | 4 ++--
 gpmp/modeldiagnosis/performance.py | 8 ++++----
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/gpmp/core/utils.py b/gpmp/core/utils.py
index 1eccb57..c281439 100644
--- a/gpmp/core/utils.py
+++ b/gpmp/core/utils.py
@@ -72,11 +72,11 @@ def ensure_shapes_and_type(
 
     if convert:
         if xi is not None:
-            xi = gnp.asarray(xi)
+            xi = gnp.asdouble(xi)
         if zi is not None:
-            zi = gnp.asarray(zi)
+            zi = gnp.asdouble(zi)
         if xt is not None:
-            xt = gnp.asarray(xt)
+            xt = gnp.asdouble(xt)
 
     return xi, zi, xt
 
diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index ee03710..0dab9e8 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -77,8 +77,8 @@ class Dataset:
         self.z_list = z if isinstance(z, list) else [z]
 
         # ensure all shards are gpmp.num arrays
-        self.x_list = [gnp.asarray(xi) for xi in self.x_list]
-        self.z_list = [gnp.asarray(zi) for zi in self.z_list]
+        self.x_list = [gnp.asdouble(xi) for xi in self.x_list]
+        self.z_list = [gnp.asdouble(zi) for zi in self.z_list]
 
         # consistency check
         assert len(self.x_list) == len(self.z_list), "x and z shard counts differ"
diff --git a/gpmp/kernel/bounds.py b/gpmp/kernel/bounds.py
index b10eb65..f899300 100644
--- a/gpmp/kernel/bounds.py
+++ b/gpmp/kernel/bounds.py
@@ -23,8 +23,8 @@ def empirical_bounds_factory(
     xi, zi, *, mean_paramlength=0, var_lower_factor=2.0, var_upper_factor=10.0, length_lower_factor=2.0
 ):
     """Build bounds for params [mean..., log(sigma2), -log(rho_0), ..., -log(rho_{d-1})]."""
-    xi = gnp.asarray(xi)
-    zi = gnp.asarray(zi).reshape(-1)
+    xi = gnp.asdouble(xi)
+    zi = gnp.asdouble(zi).reshape(-1)
     _n, d = xi.shape
     neg_inf, pos_inf = -gnp.inf, gnp.inf
     bounds = []
diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index 0a973c7..3e2480b 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -114,8 +114,8 @@ def make_selection_criterion_with_gradient(
             return selection_criterion(model, covparam, xi, zi)
 
     if data_source == "arrays":
-        xi_ = gnp.asarray(xi)
-        zi_ = gnp.asarray(zi)
+        xi_ = gnp.asdouble(xi)
+        zi_ = gnp.asdouble(zi)
         crit = gnp.DifferentiableSelectionCriterion(crit_, xi_, zi_)
     else:
         crit = gnp.BatchDifferentiableSelectionCriterion(
diff --git a/gpmp/kernel/utils.py b/gpmp/kernel/utils.py
index e745e5b..ade600c 100644
--- a/gpmp/kernel/utils.py
+++ b/gpmp/kernel/utils.py
@@ -28,8 +28,8 @@ def prepare_data(xi=None, zi=None, loader=None):
     if not arrays_provided and not loader_provided:
         raise ValueError("Provide either (xi, zi) or loader.")
     if arrays_provided:
-        xi_ = gnp.asarray(xi)
-        zi_ = gnp.asarray(zi).reshape(-1, 1)
+        xi_ = gnp.asdouble(xi)
+        zi_ = gnp.asdouble(zi).reshape(-1, 1)
         n, d = xi_.shape
         return xi_, zi_, n, d, "arrays"
     # loader path (assume dataset has length and per-item shapes)
diff --git a/gpmp/modeldiagnosis/performance.py b/gpmp/modeldiagnosis/performance.py
index 386d511..51b67f1 100644
--- a/gpmp/modeldiagnosis/performance.py
+++ b/gpmp/modeldiagnosis/performance.py
@@ -96,8 +96,8 @@ def compute_performance(
         - test_rmse, test_rmse_over_std, test_R2
         - test_pit (optional)
     """
-    xi = gnp.asarray(xi)
-    zi_arr = gnp.asarray(zi)
+    xi = gnp.asdouble(xi)
+    zi_arr = gnp.asdouble(zi)
     zi_vec = _as_1d(zi_arr)
 
     out: Dict[str, Any] = {}
@@ -134,8 +134,8 @@ def compute_performance(
 
     if xtzt is not None:
         xt, zt = xtzt
-        xt = gnp.asarray(xt)
-        zt_arr = gnp.asarray(zt)
+        xt = gnp.asdouble(xt)
+        zt_arr = gnp.asdouble(zt)
         zt_vec = _as_1d(zt_arr)
 
         if zpmzpv is None:
-- 
2.43.0


From a652c84a46560042218414f6f3502b64225153c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:35 +0000
Subject: [PATCH 54/66] fix: prior bound on length scales is computed in double
 precision

With short integer designs, gaps overflowed or their logarithm was taken in
half precision.
---
 gpmp/kernel/prior_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/prior_helpers.py b/gpmp/kernel/prior_helpers.py
index 8d4d255..23fb7fd 100644
--- a/gpmp/kernel/prior_helpers.py
+++ b/gpmp/kernel/prior_helpers.py
@@ -46,7 +46,7 @@ def _componentwise_logrho_min_from_xi(xi):
     x_range : array_like of shape (d,)
         Componentwise range ``max(x[:, j]) - min(x[:, j])``.
     """
-    xi = gnp.asarray(xi)
+    xi = gnp.asdouble(xi)
     _n, d = xi.shape
     vals = []
     ranges = []
-- 
2.43.0


From 6e80ed891b630f7a478c1ef308bfe008bf4b536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:35 +0000
Subject: [PATCH 55/66] fix: NUTS diagnostics moving average

moving_average called gnp.convolve, which does not exist.
---
 gpmp/mcmc/nuts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index e56f23b..aa5c7a4 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -1140,8 +1140,8 @@ def moving_average(y, window: int):
     if window <= 1:
         return y
 
-    w = gnp.ones(window, dtype=gnp_dtype) / window
-    return gnp.convolve(y, w, mode="valid")
+    c = gnp.concatenate((gnp.zeros(1), gnp.cumsum(gnp.asarray(y), axis=0)))
+    return (c[window:] - c[:-window]) / window
 
 
 def plot_nuts_diagnostics(
-- 
2.43.0


From 6b1b04c56a1a7642b149e29e3480bb6cb54847cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:35 +0000
Subject: [PATCH 56/66] fix: SVGD marginal plots accept identical particles

The kernel density estimate was attempted on constant values and raised.
---
 gpmp/mcmc/svgd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/svgd.py b/gpmp/mcmc/svgd.py
index 6c0ad93..d71b529 100644
--- a/gpmp/mcmc/svgd.py
+++ b/gpmp/mcmc/svgd.py
@@ -620,7 +620,7 @@ def plot_svgd_empirical_distributions(
             if span <= 0.0:
                 span = 1.0
             xx = gnp.to_np(gnp.linspace(lo - 0.1 * span, hi + 0.1 * span, 100))
-            if n_particles >= 2 and span > 0.0:
+            if n_particles >= 2 and hi > lo:
                 kde = stats.gaussian_kde(vals, bw_method="scott")
                 ax.plot(xx, kde(xx), color=color)
             ax.set_xlabel(rf"$\theta_{{{int(param)+1}}}$")
@@ -655,7 +655,7 @@ def plot_svgd_empirical_distributions(
             if span <= 0.0:
                 span = 1.0
             xx = gnp.to_np(gnp.linspace(lo - 0.1 * span, hi + 0.1 * span, 100))
-            if n_particles >= 2 and span > 0.0:
+            if n_particles >= 2 and hi > lo:
                 kde = stats.gaussian_kde(vals, bw_method="scott")
                 ax.plot(xx, kde(xx), color=color)
         ax.set_xlabel(r"$\theta_i$")
-- 
2.43.0


From ffb2a66cbcd4d92fbb37bbe5738a7d377ed94f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:35 +0000
Subject: [PATCH 57/66] fix: cross sections of the criterion use the box column
 of their parameter

The box was indexed by the position of the panel instead of the index of the
parameter.
---
 gpmp/modeldiagnosis/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 5343a00..2524ce1 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -184,7 +184,7 @@ def plot_selection_criterion_crosssections(
 
         for ax_i, param_idx in enumerate(ind):
             opt_value = param_opt[param_idx]
-            p_values = _grid_for_param(ax_i, opt_value, param_box)
+            p_values = _grid_for_param(param_idx, opt_value, param_box)
             crit_values = gnp.zeros((n_crit, n_points))
             for j, x_val in enumerate(p_values):
                 param = gnp.copy(param_opt)
@@ -214,9 +214,9 @@ def plot_selection_criterion_crosssections(
     if ind_pooled is not None:
         ind_pooled = list(ind_pooled)
         fig, ax = plt.subplots(figsize=(8, 6))
-        for i, param_idx in enumerate(ind_pooled):
+        for param_idx in ind_pooled:
             opt_value = param_opt[param_idx]
-            p_values = _grid_for_param(i, opt_value, param_box_pooled)
+            p_values = _grid_for_param(param_idx, opt_value, param_box_pooled)
             crit_values = gnp.zeros((n_crit, n_points))
             for j, x_val in enumerate(p_values):
                 param = gnp.copy(param_opt)
-- 
2.43.0


From ec8a8d711eb5ca00511608f3f9fed3d73020c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:35 +0000
Subject: [PATCH 58/66] fix: PIT ECDF steps have height i/n

The smallest value was drawn at height zero and the steps were (i-1)/(n-1).
---
 gpmp/modeldiagnosis/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 2524ce1..57ee838 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -56,12 +56,12 @@ def plot_pit_ecdf(pit: Any, fig: Optional[Any] = None) -> None:
     pit = gnp.asarray(pit).reshape(-1)
     n = int(pit.shape[0])
 
-    p = gnp.concatenate((gnp.array([0.0]), gnp.linspace(0.0, 1.0, n)))
+    p = gnp.linspace(0.0, 1.0, n + 1)
     pit_sorted = gnp.concatenate((gnp.array([0.0]), gnp.sort(pit)))
 
     if fig is None:
         plt.figure()
-    plt.step(gnp.to_np(pit_sorted), gnp.to_np(p))
+    plt.step(gnp.to_np(pit_sorted), gnp.to_np(p), where="post")
     plt.plot([0.0, 1.0], [0.0, 1.0])
     plt.title("PIT ECDF")
     plt.xlabel("PIT")
-- 
2.43.0


From 2b867e0d5df2980427a4f3c0011ecfeb54fd6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:49 +0000
Subject: [PATCH 59/66] fix: the backend can be chosen with
 gpmp.config.set_backend

Importing gpmp.config imported gpmp.num through gpmp.core.Model, so that the
documented call had no effect while get_backend reported the requested
backend. Model and core are now loaded on first access like the other
subpackages.
---
 gpmp/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gpmp/__init__.py b/gpmp/__init__.py
index d01ae2a..253a1d0 100644
--- a/gpmp/__init__.py
+++ b/gpmp/__init__.py
@@ -26,7 +26,6 @@ import os
 from typing import Final
 
 from . import config as config  # eager
-from .core import Model
 
 __all__ = [
     "Model",
@@ -44,6 +43,7 @@ __all__ = [
 
 _DEFAULT_VERSION: Final[str] = "0.0.0"
 _LAZY_SUBMODULES: Final[set[str]] = {
+    "core",
     "num",
     "kernel",
     "dataloader",
@@ -78,8 +78,13 @@ def __getattr__(name: str):
         module = importlib.import_module(f"{__name__}.{name}")
         globals()[name] = module
         return module
+    if name == "Model":
+        from .core import Model
+
+        globals()[name] = Model
+        return Model
     raise AttributeError(f"module {__name__!r} has no attribute {name!r}")
 
 
 def __dir__():
-    return sorted(set(globals().keys()) | _LAZY_SUBMODULES)
+    return sorted(set(globals().keys()) | _LAZY_SUBMODULES | {"Model"})
-- 
2.43.0


From 28cfae84f1b1d9ea6fd521bdcd3a8eca5fe28b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:49 +0000
Subject: [PATCH 60/66] fix: a rejected configuration update changes nothing

The backend was written to the environment before the dtype was validated.
---
 gpmp/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpmp/config.py b/gpmp/config.py
index 6561985..0fb6c0b 100644
--- a/gpmp/config.py
+++ b/gpmp/config.py
@@ -144,11 +144,12 @@ class _GPMPConfig:
         # Validate known sensitive fields to avoid inconsistent state.
         if "backend" in kwargs:
             kwargs["backend"] = _normalize_backend_spec(kwargs["backend"])
-            if kwargs["backend"] is not None:
-                os.environ["GPMP_BACKEND"] = kwargs["backend"]
-
         if "dtype" in kwargs:
             kwargs["dtype"] = _normalize_dtype_spec(kwargs["dtype"])
+
+        if kwargs.get("backend") is not None:
+            os.environ["GPMP_BACKEND"] = kwargs["backend"]
+        if "dtype" in kwargs:
             os.environ["GPMP_DTYPE"] = kwargs["dtype"]
             # dtype_resolved must be recomputed by gpmp.num after import.
             kwargs.setdefault("dtype_resolved", None)
-- 
2.43.0


From 8556af4c1303127ab81dae0c857191f45f702a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:11 +0000
Subject: [PATCH 61/66] fix: integer covariance parameters and samples in the
 model diagnosis tools

---
 gpmp/modeldiagnosis/param_stats.py | 6 +++---
 gpmp/modeldiagnosis/plotting.py    | 6 +++---
 gpmp/modeldiagnosis/utils.py       | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index 239f49a..27f070f 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -134,7 +134,7 @@ def make_single_param_criterion_function(
         Function g(x) that evaluates f(covparam with covparam[param_index]=x).
     """
 
-    covparam_ref = gnp.asarray(covparam)
+    covparam_ref = gnp.asdouble(covparam)
 
     def single_param_function(x: float) -> Any:
         cp = gnp.copy(covparam_ref)
@@ -207,7 +207,7 @@ def selection_criterion_statistics_fast(
     if xi is None:
         raise ValueError("xi is required.")
 
-    covparam = gnp.asarray(covparam).reshape(-1)
+    covparam = gnp.asdouble(covparam).reshape(-1)
     n_params = int(covparam.shape[0])
     if ind is None:
         ind_list = list(range(n_params))
@@ -311,7 +311,7 @@ def selection_criterion_statistics(
     if xi is None:
         raise ValueError("xi is required.")
 
-    covparam = gnp.asarray(covparam).reshape(-1)
+    covparam = gnp.asdouble(covparam).reshape(-1)
     n_params = int(covparam.shape[0])
     if ind is None:
         ind_list = list(range(n_params))
diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 57ee838..5414236 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -157,9 +157,9 @@ def plot_selection_criterion_crosssections(
     if info is None:
         if covparam is None:
             raise ValueError("covparam must be supplied when info is None.")
-        param_opt = gnp.asarray(covparam).reshape(-1)
+        param_opt = gnp.asdouble(covparam).reshape(-1)
     else:
-        param_opt = gnp.asarray(covparam if covparam is not None else info.covparam).reshape(-1)
+        param_opt = gnp.asdouble(covparam if covparam is not None else info.covparam).reshape(-1)
 
     n_params = int(param_opt.shape[0])
 
@@ -317,7 +317,7 @@ def plot_selection_criterion_2d(
     f = info.selection_criterion_nograd
     values = gnp.zeros((n, n), dtype=gnp.get_dtype())
 
-    covparam = gnp.copy(info.covparam)
+    covparam = gnp.copy(gnp.asdouble(info.covparam))
     for i in range(n):
         _progress(i)
         for j in range(n):
diff --git a/gpmp/modeldiagnosis/utils.py b/gpmp/modeldiagnosis/utils.py
index ecc7fc0..b38b100 100644
--- a/gpmp/modeldiagnosis/utils.py
+++ b/gpmp/modeldiagnosis/utils.py
@@ -82,7 +82,7 @@ def describe_array(x, rownames, sigma_factor=None):
     DataFrame
         Statistics per dimension.
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     dim = 1 if x.ndim == 1 else x.shape[1]
 
     if sigma_factor is None:
-- 
2.43.0


From cf2bd8845dcd684e5fe5c0b078b71c574c29abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:11 +0000
Subject: [PATCH 62/66] fix: cross sections through integer designs were drawn
 at truncated points

---
 gpmp/plot/plotutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/plot/plotutils.py b/gpmp/plot/plotutils.py
index d36f875..8c323f2 100644
--- a/gpmp/plot/plotutils.py
+++ b/gpmp/plot/plotutils.py
@@ -283,7 +283,7 @@ def crosssections(
     Figure
         GPmp figure object.
     """
-    xi_np = np.asarray(gnp.to_np(xi))
+    xi_np = np.asarray(gnp.to_np(xi), dtype=float)
     zi_np = np.asarray(gnp.to_np(zi))
     box = np.asarray(box, dtype=float)
     nt = int(nt)
-- 
2.43.0


From 7e2b1b7d909c9309cb73071a7f0435628342886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:27:11 +0000
Subject: [PATCH 63/66] fix: NUTS started from integer states truncated its
 samples

---
 gpmp/mcmc/nuts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index aa5c7a4..b052e91 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -799,6 +799,7 @@ def nuts_sample(
       2: more frequent summaries
 
     """
+    q_init = gnp.asdouble(q_init)
     if q_init.ndim != 2:
         raise ValueError("q_init must have shape (chains, dim)")
 
-- 
2.43.0


From 8ff317abb79f1dc50e2813283e023b113695193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:25:05 +0000
Subject: [PATCH 64/66] fix: average k-NN local covariances as an array on both
 backends

---
 gpmp/mcmc/knn_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/knn_cov.py b/gpmp/mcmc/knn_cov.py
index d333adb..7957c0c 100644
--- a/gpmp/mcmc/knn_cov.py
+++ b/gpmp/mcmc/knn_cov.py
@@ -96,5 +96,5 @@ def estimate_cov_matrix_knn(
         local_covs.append(C_local)
 
     # 3) Average all local covariance matrices
-    C_avg = gnp.mean(local_covs, axis=0)  # shape (d, d)
+    C_avg = gnp.mean(gnp.stack(local_covs), axis=0)  # shape (d, d)
     return gnp.asarray(C_avg)
-- 
2.43.0


From a121288baf525cd84d89d5d764d7dccbb3d30087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:25:05 +0000
Subject: [PATCH 65/66] fix: k-NN covariance of fewer points than neighbours
 uses all of them

---
 gpmp/mcmc/knn_cov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/mcmc/knn_cov.py b/gpmp/mcmc/knn_cov.py
index 7957c0c..7f8056e 100644
--- a/gpmp/mcmc/knn_cov.py
+++ b/gpmp/mcmc/knn_cov.py
@@ -73,6 +73,8 @@ def estimate_cov_matrix_knn(
     N, d = x.shape
     if n_random > N:
         n_random = N
+    if n_neighbors > N:
+        n_neighbors = N
 
     # 1) Build the HNSW index
     p = hnswlib.Index(space='l2', dim=d)
-- 
2.43.0


From 0a3bc716174eac5aec17b1677d149e1f78cab1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:30:02 +0000
Subject: [PATCH 66/66] fix: refuse mismatched shapes in the torch
 cholesky_solve

torch words a shape mismatch as a linalg error, which the likelihoods take
for a failed factorization: responses of the wrong length gave an infinite
criterion instead of an error.
---
 gpmp/num/torch_backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 6ea7cc4..fb74aeb 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -907,6 +907,10 @@ def cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
 def cholesky_solve(A, b):
     if b.dim() == 1:
         b = b.reshape(-1, 1)
+    # torch reports mismatched shapes as a linalg error, which callers take
+    # for a failed factorization
+    if b.shape[-2] != A.shape[-1]:
+        raise ValueError("A and b must have the same number of rows.")
     L = cholesky(A)
     y = torch.linalg.solve_triangular(L, b, upper=False)
     x = torch.linalg.solve_triangular(L.t(), y, upper=True)
-- 
2.43.0

