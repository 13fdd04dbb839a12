From b5498b712ec6baf2d4e3d1d3b8648d99bbe2a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:41 +0000
Subject: [PATCH 01/82] fix: universal kriging null-space fallback returns
 wrong weights and variance

When the block system of the universal kriging predictor cannot be solved,
the fallback ignored the trend part of the weights and used the wrong
multipliers in the posterior variance. It also solved a triangular system
as if it were symmetric.
---
 gpmp/core/kriging.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gpmp/core/kriging.py b/gpmp/core/kriging.py
index f34b37d..6e29719 100644
--- a/gpmp/core/kriging.py
+++ b/gpmp/core/kriging.py
@@ -232,24 +232,27 @@ def _kriging_predictor_nullspace(model, xi, xt, return_type=0):
     KW = gnp.matmul(K, W)
     G = gnp.matmul(W.T, KW)  # SPD in contrast space
 
-    # Solve alpha = G^{-1} Wᵀ K(Xi,Xt)
-    alpha, _ = gnp.cholesky_solve(G, gnp.matmul(W.T, Kit))
     # Solve beta  = Rq^{-T} P(Xt)ᵀ  (enforces unbiasedness constraints)
-    beta = gnp.solve(Rq.T, Pt.T, assume_a="sym")
+    beta = gnp.solve(Rq.T, Pt.T)
+    # Solve alpha = G^{-1} Wᵀ (K(Xi,Xt) - K Q1 beta)
+    Q1beta = gnp.matmul(Q1, beta)
+    alpha, _ = gnp.cholesky_solve(G, gnp.matmul(W.T, Kit - gnp.matmul(K, Q1beta)))
 
-    lambda_t = gnp.matmul(W, alpha) + gnp.matmul(Q1, beta)
+    lambda_t = gnp.matmul(W, alpha) + Q1beta
+    # Lagrange multipliers of the unbiasedness constraints
+    mu_t = gnp.solve(Rq, gnp.matmul(Q1.T, Kit - gnp.matmul(K, lambda_t)))
 
     if return_type == -1:
         zt_posterior_variance = None
     elif return_type == 0:
         v0 = model.covariance(xt, xt, model.covparam, pairwise=True)
         RHS = gnp.vstack((Kit, Pt.T))
-        LM = gnp.vstack((lambda_t, beta))
+        LM = gnp.vstack((lambda_t, mu_t))
         zt_posterior_variance = v0 - gnp.einsum("i..., i...", LM, RHS)
     elif return_type == 1:
         V0 = model.covariance(xt, xt, model.covparam, pairwise=False)
         RHS = gnp.vstack((Kit, Pt.T))
-        LM = gnp.vstack((lambda_t, beta))
+        LM = gnp.vstack((lambda_t, mu_t))
         zt_posterior_variance = V0 - gnp.matmul(LM.T, RHS)
     else:
         raise ValueError("return_type must be in {-1,0,1}")
-- 
2.43.0


From 5c55af2e583a470f2281e529528fc6435310a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:57 +0000
Subject: [PATCH 02/82] fix: return an infinite likelihood when the
 factorisation fails with numpy

The likelihoods return infinity when the Cholesky factorisation fails, but
only the exception type raised by torch was handled. The numpy backend let
the error escape.
---
 gpmp/core/likelihood.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/core/likelihood.py b/gpmp/core/likelihood.py
index 4eb6179..e2aa6a0 100644
--- a/gpmp/core/likelihood.py
+++ b/gpmp/core/likelihood.py
@@ -11,6 +11,8 @@ This module implements the numerical routines used by `gpmp.core.Model`
 for likelihood evaluation in the zero-mean, parameterized-mean, and
 linear_predictor cases.
 """
+import numpy
+
 import gpmp.num as gnp
 from .linalg import compute_contrast_matrix, compute_contrast_covariance
 
@@ -44,7 +46,7 @@ def negative_log_likelihood_zero_mean(model, covparam, xi, zi):
     n = K.shape[0]
     try:
         Kinv_zi, C = gnp.cholesky_solve(K, zi)
-    except RuntimeError:
+    except (RuntimeError, numpy.linalg.LinAlgError):
         return gnp.safe_inf()
     norm2 = gnp.einsum("i..., i...", zi, Kinv_zi)
     ldetK = 2.0 * gnp.sum(gnp.log(gnp.diag(C)))
@@ -120,7 +122,7 @@ def negative_log_restricted_likelihood(model, covparam, xi, zi):
     G = compute_contrast_covariance(W, K)  # (n-q, n-q)
     try:
         WKWinv_Wzi, C = gnp.cholesky_solve(G, Wzi)
-    except RuntimeError:
+    except (RuntimeError, numpy.linalg.LinAlgError):
         return gnp.safe_inf()
     norm2 = gnp.einsum("i..., i...", Wzi, WKWinv_Wzi)
     ldetWKW = 2.0 * gnp.sum(gnp.log(gnp.diag(C)))
-- 
2.43.0


From 92ae855ed1a639ddd75e8a6a27ba433475de8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:03 +0000
Subject: [PATCH 03/82] fix: Matern kernels return NaN at very large distances

For regularities p >= 2 the polynomial factor overflowed before the
exponential factor could bring the product to zero, so a very small length
scale gave a covariance matrix filled with NaN.
---
 gpmp/kernel/matern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/kernel/matern.py b/gpmp/kernel/matern.py
index 8ce0002..28205a0 100644
--- a/gpmp/kernel/matern.py
+++ b/gpmp/kernel/matern.py
@@ -54,6 +54,8 @@ def maternp_kernel(p: int, h):
     gln = gnp.compute_gammaln(p)  # expects integer table access
     h = gnp.inftobigf(h)
     c = 2.0 * sqrt(p + 0.5)
+    # exp(-800) underflows to zero; larger distances would overflow below
+    h = gnp.minimum(h, 800.0 / c)
     twoch = 2.0 * c * h
     polynomial = gnp.ones(h.shape)
     for i in range(p):
-- 
2.43.0


From cd6ccaaa7204256dd93a98501f225401cfa24a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:23 +0000
Subject: [PATCH 04/82] fix: conditional paths with a parameterized mean reject
 column observations

Observations given as an (n, 1) array were broadcast to an (n, n) array
when the prior mean was subtracted.
---
 gpmp/core/sample_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/core/sample_paths.py b/gpmp/core/sample_paths.py
index 343b84c..ea55dfb 100644
--- a/gpmp/core/sample_paths.py
+++ b/gpmp/core/sample_paths.py
@@ -155,7 +155,7 @@ def conditional_sample_paths_parameterized_mean(
         Conditional sample paths at prediction points xt, adjusted for a parameterized mean.
     """
     xi_ = gnp.asarray(xi)
-    zi_ = gnp.asarray(zi)
+    zi_ = gnp.asarray(zi).reshape(-1)
     xt_ = gnp.asarray(xt)
     ztsim_ = gnp.asarray(ztsim)
 
-- 
2.43.0


From 59fd29f346235a290b07457313110e42f8b70590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:34 +0000
Subject: [PATCH 05/82] fix: k-fold partitions are wrong with the torch backend
 for some sizes

---
 gpmp/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 17f3b8d..813c71a 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -192,8 +192,8 @@ class Dataset:
                 gnp.full((n_splits - r,), base, dtype=int),
             ]
         )
-        bounds = gnp.cumsum(sizes, axis=0)[:-1]
-        folds = gnp.split(idx, bounds)
+        bounds = [0] + [int(b) for b in gnp.cumsum(sizes, axis=0)]
+        folds = [idx[a:b] for a, b in zip(bounds[:-1], bounds[1:])]
 
         out: List[Tuple[Idx, Idx]] = []
         for k in range(n_splits):
-- 
2.43.0


From 9c7eec6a0571de37fb7cb52fecb93e23105b7ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:34 +0000
Subject: [PATCH 06/82] fix: negative indices select the wrong row of a sharded
 dataset

---
 gpmp/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index 813c71a..a516485 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -104,6 +104,10 @@ class Dataset:
 
     def __getitem__(self, idx: int) -> Tuple[Array, Array]:
         """Return ``(x[idx], z[idx])`` without full-array concatenation."""
+        if not -self.size <= idx < self.size:
+            raise IndexError("Dataset index out of range")
+        if idx < 0:
+            idx += self.size
         shard_idx = bisect.bisect_right(self._shard_bounds, idx)
         start = 0 if shard_idx == 0 else self._shard_bounds[shard_idx - 1]
         local_idx = idx - start
-- 
2.43.0


From 192464bfebc4bbfd82caa0656be91822ad72d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:34 +0000
Subject: [PATCH 07/82] fix: scalers fitted on a single row return NaN with the
 torch backend

---
 gpmp/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index a516485..a04de89 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -545,7 +545,7 @@ class Normalizer:
 
     def __init__(self, mean: Array, std: Array) -> None:
         self.mean = mean
-        self.std = gnp.where(std < _EPS, 1.0, std)
+        self.std = gnp.where(std >= _EPS, std, 1.0)
 
     def transform(self, x: Array, copy: bool = True) -> Array:
         if copy:
@@ -617,7 +617,7 @@ class ObservationScaler:
 
     def __init__(self, mean: float, std: float) -> None:
         self.mean = mean
-        self.std = 1.0 if std < _EPS else std
+        self.std = std if std >= _EPS else 1.0
 
     def transform(self, z: Array, copy: bool = True) -> Array:
         if copy:
-- 
2.43.0


From 71af3f9a1dbd9206b3db5e817285d7734db838a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:41 +0000
Subject: [PATCH 08/82] fix: parameter selection can return a NaN-valued point
 instead of the best one

---
 gpmp/kernel/parameter_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index 721f3c1..c919fd1 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -260,7 +260,7 @@ def autoselect_parameters(
     )
 
     # ensure returning best seen
-    if r.fun > best_criterion:
+    if best_params is not None and not r.fun <= best_criterion:
         r.x, r.fun, r.best_value_returned = best_params, best_criterion, False
     else:
         r.best_value_returned = True
-- 
2.43.0


From 16c36f35517555044943bf2fe9aeb46f9ef385b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:53 +0000
Subject: [PATCH 09/82] fix: gradient requests after a failed criterion
 evaluation abort fits with torch

---
 gpmp/num/torch_backend.py | 44 +++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 91d6389..a11b839 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -544,6 +544,12 @@ def value_and_grad(f, x):
 #     return y.detach(), g.detach()
 
 
+def _same_point(p: torch.Tensor, q: torch.Tensor) -> bool:
+    return p.shape == q.shape and torch.allclose(
+        p.to(q.dtype), q, rtol=0.0, atol=0.0, equal_nan=True
+    )
+
+
 class DifferentiableSelectionCriterion:
     """Wraps a selection criterion f(p, x, z) -> scalar, allowing gradient computation."""
 
@@ -588,7 +594,7 @@ class DifferentiableSelectionCriterion:
         if self._f_value is None:
             raise ValueError("Call 'evaluate_pre_grad(p)' before 'gradient(p)'")
 
-        if not torch.equal(asarray(p), self._p_value):
+        if not _same_point(asarray(p), self._p_value):
             raise ValueError(
                 "The input 'p' in 'gradient' must be the same as in 'evaluate'"
             )
@@ -600,6 +606,9 @@ class DifferentiableSelectionCriterion:
             allow_unused=allow_unused,
         )[0]
         if gradients is None:
+            if not torch.isfinite(self._f_value).all():
+                # failed evaluation: no derivative there
+                return torch.full_like(self._p_value, float("nan"), requires_grad=False)
             raise RuntimeError("Gradient is None.")
         return gradients
 
@@ -693,16 +702,29 @@ class BatchDifferentiableSelectionCriterion:
         p = self._prepare_param(param, req_grad=True)
         grad = None  # accumulated gradient
         total, n = 0.0, 0
-        for xb, zb in self._batches():
-            bs = xb.shape[0]
-            loss = self.crit(p, xb, zb) * bs
-            g = torch.autograd.grad(loss, p, retain_graph=False)[0]
-            if grad is None:
-                grad = g
-            else:
-                grad += g
-            total += loss.item()
-            n += bs
+        try:
+            for xb, zb in self._batches():
+                bs = xb.shape[0]
+                loss = self.crit(p, xb, zb) * bs
+                g = torch.autograd.grad(
+                    loss, p, retain_graph=False, allow_unused=True
+                )[0]
+                if g is None:
+                    if torch.isfinite(loss).all():
+                        raise RuntimeError("Gradient is None.")
+                    # failed evaluation: no derivative there
+                    g = torch.full_like(p, float("nan"), requires_grad=False)
+                if grad is None:
+                    grad = g
+                else:
+                    grad += g
+                total += loss.item()
+                n += bs
+        except Exception as exc:
+            if _is_linalg_exception(exc):
+                self._gradient = torch.full_like(p, float("nan"), requires_grad=False)
+                return inf
+            raise
         if n == 0:
             raise ValueError("Loader is empty.")
         if self.reduction == "mean":
-- 
2.43.0


From 5adfa74622e3344e8b16877b6af7dc9f9829690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:53 +0000
Subject: [PATCH 10/82] fix: batch criterion switches gradient tracking on the
 caller's parameter tensor

---
 gpmp/num/torch_backend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index a11b839..c375d6c 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -657,9 +657,7 @@ class BatchDifferentiableSelectionCriterion:
     @staticmethod
     def _prepare_param(param: TensorLike, *, req_grad: bool = False) -> torch.Tensor:
         """Convert to tensor and set `requires_grad` (no dtype/device casting)."""
-        param = asarray(param)
-        param.requires_grad_(req_grad)
-        return param
+        return asarray(param).detach().clone().requires_grad_(req_grad)
 
     def _batches(self) -> Iterable[Tuple[torch.Tensor, torch.Tensor]]:
         """Yield the next set of batches for one evaluation."""
-- 
2.43.0


From 518580fdd06293c14aedf643fd67a38d9788a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:53 +0000
Subject: [PATCH 11/82] fix: batch criterion gradient silently answers for
 another parameter vector

---
 gpmp/num/torch_backend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index c375d6c..a310a2b 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -653,6 +653,7 @@ class BatchDifferentiableSelectionCriterion:
 
         self._batch_iter = iter(loader) if self.bpe > 0 else None
         self._gradient = None  # cached grad from last evaluate
+        self._p_value = None  # where it was computed
 
     @staticmethod
     def _prepare_param(param: TensorLike, *, req_grad: bool = False) -> torch.Tensor:
@@ -698,6 +699,7 @@ class BatchDifferentiableSelectionCriterion:
 
     def evaluate_pre_grad(self, param: TensorLike) -> _torch_dtype:
         p = self._prepare_param(param, req_grad=True)
+        self._p_value, self._gradient = p.detach(), None
         grad = None  # accumulated gradient
         total, n = 0.0, 0
         try:
@@ -735,6 +737,10 @@ class BatchDifferentiableSelectionCriterion:
     def gradient(self, _param: TensorLike) -> torch.Tensor:
         if self._gradient is None:
             raise RuntimeError("Call `evaluate` first.")
+        if not _same_point(asarray(_param), self._p_value):
+            raise ValueError(
+                "The input 'p' in 'gradient' must be the same as in 'evaluate'"
+            )
         return self._gradient
 
 
-- 
2.43.0


From 95065a5dca1cc7b04ffa661fce78cf4e15bc5d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:00 +0000
Subject: [PATCH 12/82] fix: power-law prior rewards variances above the soft
 cutoff

---
 gpmp/kernel/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/priors.py b/gpmp/kernel/priors.py
index 6eca6a5..08747fa 100644
--- a/gpmp/kernel/priors.py
+++ b/gpmp/kernel/priors.py
@@ -125,7 +125,7 @@ def log_prior_power_law(
     log_prior_lengths = (
         -lambda_lengthscales * gnp.sum(p) - gnp.sum(extra_low) - gnp.sum(extra_high)
     )
-    return log_prior_sigma2 + extra_sigma2 + log_prior_lengths
+    return log_prior_sigma2 - extra_sigma2 + log_prior_lengths
 
 
 def log_prior_reference(model, covparam, xi):
-- 
2.43.0


From f48a6ef37c28c4ebfab69011115343198da94591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:36 +0000
Subject: [PATCH 13/82] fix: parameter selection can return a point that does
 not have the reported value

---
 gpmp/kernel/parameter_selection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index c919fd1..e9a5017 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -260,7 +260,11 @@ def autoselect_parameters(
     )
 
     # ensure returning best seen
-    if best_params is not None and not r.fun <= best_criterion:
+    best_at_x = r.fun <= best_criterion and any(
+        J <= best_criterion and np.array_equal(p, r.x)
+        for p, J in zip(history_params, history_criterion)
+    )
+    if best_params is not None and not best_at_x:
         r.x, r.fun, r.best_value_returned = best_params, best_criterion, False
     else:
         r.best_value_returned = True
-- 
2.43.0


From 1ef419ba1377c1b5d1b0f81a5fe039a32a35c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:42 +0000
Subject: [PATCH 14/82] fix: a rejected update of the prior defaults is partly
 applied

---
 gpmp/kernel/prior_defaults.py | 41 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/gpmp/kernel/prior_defaults.py b/gpmp/kernel/prior_defaults.py
index dd0621c..f50f3c7 100644
--- a/gpmp/kernel/prior_defaults.py
+++ b/gpmp/kernel/prior_defaults.py
@@ -87,29 +87,34 @@ def set_default_prior_hyperparameters(
         Range-based safeguard factor for ``logrho_min`` construction.
         Must be > 0.
     """
+    updates = {}
+
     if gamma is not None:
         gamma = float(gamma)
-        if gamma <= 1.0:
+        if not gamma > 1.0:
             raise ValueError("gamma must be > 1.")
-        _PRIOR_DEFAULTS.gamma = gamma
+        updates["gamma"] = gamma
 
     if sigma2_coverage is not None:
         sigma2_coverage = float(sigma2_coverage)
         if not (0.0 < sigma2_coverage < 1.0):
             raise ValueError("sigma2_coverage must be in (0, 1).")
-        _PRIOR_DEFAULTS.sigma2_coverage = sigma2_coverage
+        updates["sigma2_coverage"] = sigma2_coverage
 
     if alpha is not None:
         alpha = float(alpha)
-        if alpha <= 0.0:
+        if not alpha > 0.0:
             raise ValueError("alpha must be > 0.")
-        _PRIOR_DEFAULTS.alpha = alpha
+        updates["alpha"] = alpha
 
     if rho_min_range_factor is not None:
         rho_min_range_factor = float(rho_min_range_factor)
-        if rho_min_range_factor <= 0.0:
+        if not rho_min_range_factor > 0.0:
             raise ValueError("rho_min_range_factor must be > 0.")
-        _PRIOR_DEFAULTS.rho_min_range_factor = rho_min_range_factor
+        updates["rho_min_range_factor"] = rho_min_range_factor
+
+    for name, value in updates.items():
+        setattr(_PRIOR_DEFAULTS, name, value)
 
 
 def set_default_prior_hyperparameters_from_kwargs(kwargs):
@@ -121,18 +126,16 @@ def set_default_prior_hyperparameters_from_kwargs(kwargs):
     ``prior_logrho_alpha``, ``prior_logrho_min_range_factor``.
     Recognized keys are removed from ``kwargs``.
     """
-    if "prior_logsigma2_gamma" in kwargs:
-        set_default_prior_hyperparameters(gamma=kwargs.pop("prior_logsigma2_gamma"))
-    if "prior_logsigma2_coverage" in kwargs:
-        set_default_prior_hyperparameters(
-            sigma2_coverage=kwargs.pop("prior_logsigma2_coverage")
-        )
-    if "prior_logrho_alpha" in kwargs:
-        set_default_prior_hyperparameters(alpha=kwargs.pop("prior_logrho_alpha"))
-    if "prior_logrho_min_range_factor" in kwargs:
-        set_default_prior_hyperparameters(
-            rho_min_range_factor=kwargs.pop("prior_logrho_min_range_factor")
-        )
+    names = {
+        "prior_logsigma2_gamma": "gamma",
+        "prior_logsigma2_coverage": "sigma2_coverage",
+        "prior_logrho_alpha": "alpha",
+        "prior_logrho_min_range_factor": "rho_min_range_factor",
+    }
+    present = [key for key in names if key in kwargs]
+    set_default_prior_hyperparameters(**{names[key]: kwargs[key] for key in present})
+    for key in present:
+        kwargs.pop(key)
 
 
 def resolve_prior_defaults_for_selection(
-- 
2.43.0


From 9af36e0120043edfa2067b1c58358186f9d03b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:44 +0000
Subject: [PATCH 15/82] fix: constant input columns break prior and parameter
 bounds with the torch backend

---
 gpmp/kernel/bounds.py        | 4 +++-
 gpmp/kernel/prior_helpers.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/gpmp/kernel/bounds.py b/gpmp/kernel/bounds.py
index b10eb65..827fa2d 100644
--- a/gpmp/kernel/bounds.py
+++ b/gpmp/kernel/bounds.py
@@ -7,6 +7,8 @@
 """
 Empirical parameter bounds for GP kernel hyperparameters.
 """
+import math
+
 import gpmp.num as gnp
 
 def _minimum_nonzero_gap_distance_1d(xj):
@@ -34,7 +36,7 @@ def empirical_bounds_factory(
     bounds.append((gnp.log(var_lower_factor * emp_var), gnp.log(var_upper_factor * emp_var)))
     for j in range(d):
         min_gap = _minimum_nonzero_gap_distance_1d(xi[:, j])
-        if gnp.isfinite(min_gap):
+        if math.isfinite(min_gap):
             rho_lower = length_lower_factor * min_gap
             bounds.append((neg_inf, -gnp.log(rho_lower)))
         else:
diff --git a/gpmp/kernel/prior_helpers.py b/gpmp/kernel/prior_helpers.py
index 8d4d255..b52f294 100644
--- a/gpmp/kernel/prior_helpers.py
+++ b/gpmp/kernel/prior_helpers.py
@@ -8,6 +8,7 @@
 Helpers for prior-informed parameter selection procedures.
 """
 
+import math
 import warnings
 
 import gpmp.num as gnp
@@ -53,7 +54,7 @@ def _componentwise_logrho_min_from_xi(xi):
     for j in range(d):
         xj = xi[:, j]
         min_gap = _minimum_nonzero_gap_distance_1d(xi[:, j])
-        vals.append(gnp.log(min_gap) if gnp.isfinite(min_gap) else -gnp.inf)
+        vals.append(gnp.log(min_gap) if math.isfinite(min_gap) else -gnp.inf)
         ranges.append(gnp.max(xj) - gnp.min(xj))
     return gnp.asarray(vals), gnp.asarray(ranges)
 
-- 
2.43.0


From 074521dd628b88bd546377883a5e3d3764d3a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:34 +0000
Subject: [PATCH 16/82] fix: constant-mean initial guess rejects loaders with
 column outputs

---
 gpmp/kernel/init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/kernel/init.py b/gpmp/kernel/init.py
index 2648d9f..9912fa4 100644
--- a/gpmp/kernel/init.py
+++ b/gpmp/kernel/init.py
@@ -46,7 +46,9 @@ def anisotropic_parameters_initial_guess_constant_mean(model, xi=None, zi=None,
     else:
         def per_batch_gls(x, z):
             zTKinvz, Kinv1, Kinvz = model.k_inverses(x, z, covparam)
-            return gnp.stack([gnp.sum(Kinvz) / gnp.sum(Kinv1), zTKinvz / x.shape[0]], axis=-1)
+            return gnp.stack(
+                [gnp.sum(Kinvz) / gnp.sum(Kinv1), zTKinvz.reshape(()) / x.shape[0]], axis=-1
+            )
         mean_and_sigma2 = dataloader.reduce_mean(per_batch_gls)
         mean_GLS, sigma2_GLS = mean_and_sigma2[0], mean_and_sigma2[1]
     return mean_GLS.reshape(1), _covparam_from_sigma2_and_rho(sigma2_GLS, rho)
-- 
2.43.0


From bcb6e8ffbcfdea66eb37239f1b3c58e9bca8907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:23 +0000
Subject: [PATCH 17/82] fix: parameter containers accept a value vector of the
 wrong length

---
 gpmp/parameter/param.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 6cb37c2..366090e 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -114,7 +114,10 @@ class Param:
 
     @values.setter
     def values(self, new_values: Union[List[float], gnp.ndarray]) -> None:
-        self._values = gnp.asarray(new_values)
+        new_values = gnp.asarray(new_values)
+        if hasattr(self, "_values") and len(new_values) != self.dim:
+            raise ValueError("Mismatch in size for values.")
+        self._values = new_values
         self.dim = len(self._values)
 
     @property
-- 
2.43.0


From 6101b6aa13ca2ff4a4cb03f73ad7e165d95b2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:23 +0000
Subject: [PATCH 18/82] fix: parameter containers built from integers truncate
 later writes

---
 gpmp/parameter/param.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 366090e..38b416c 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -115,6 +115,9 @@ class Param:
     @values.setter
     def values(self, new_values: Union[List[float], gnp.ndarray]) -> None:
         new_values = gnp.asarray(new_values)
+        if "float" not in str(new_values.dtype):
+            # integer storage would truncate later writes
+            new_values = gnp.asarray(new_values, dtype=float)
         if hasattr(self, "_values") and len(new_values) != self.dim:
             raise ValueError("Mismatch in size for values.")
         self._values = new_values
-- 
2.43.0


From b6403ce8aa46661eb8d0977b2a88dc615f0882f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:23 +0000
Subject: [PATCH 19/82] fix: a rejected natural-scale update of a parameter
 container is partly applied

---
 gpmp/parameter/param.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gpmp/parameter/param.py b/gpmp/parameter/param.py
index 38b416c..41ecf69 100644
--- a/gpmp/parameter/param.py
+++ b/gpmp/parameter/param.py
@@ -222,10 +222,13 @@ class Param:
             self._values[idx] = val
 
     def set_from_unnormalized(self, **kwargs: float) -> None:
+        updates = []
         for name, val in kwargs.items():
             idx = self.names.index(name)
-            self._values[idx] = self._normalize(val, self.normalizations[idx])
-            
+            updates.append((idx, self._normalize(val, self.normalizations[idx])))
+        for idx, val in updates:
+            self._values[idx] = val
+
     def check_bounds(self) -> List[bool]:
         return [
             True if b is None else (b[0] <= v <= b[1])
-- 
2.43.0


From b4302ce224c89eb8775c7d7de43e6d685581dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:13 +0000
Subject: [PATCH 20/82] fix: rejected configuration requests change the
 selected backend

---
 gpmp/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpmp/config.py b/gpmp/config.py
index 6561985..d9caa01 100644
--- a/gpmp/config.py
+++ b/gpmp/config.py
@@ -144,8 +144,6 @@ class _GPMPConfig:
         # Validate known sensitive fields to avoid inconsistent state.
         if "backend" in kwargs:
             kwargs["backend"] = _normalize_backend_spec(kwargs["backend"])
-            if kwargs["backend"] is not None:
-                os.environ["GPMP_BACKEND"] = kwargs["backend"]
 
         if "dtype" in kwargs:
             kwargs["dtype"] = _normalize_dtype_spec(kwargs["dtype"])
@@ -153,6 +151,9 @@ class _GPMPConfig:
             # dtype_resolved must be recomputed by gpmp.num after import.
             kwargs.setdefault("dtype_resolved", None)
 
+        if kwargs.get("backend") is not None:
+            os.environ["GPMP_BACKEND"] = kwargs["backend"]
+
         for k, v in kwargs.items():
             setattr(self, k, v)
         return self
@@ -199,8 +200,8 @@ def init_backend():
 def set_backend(backend: str):
     """Force a backend ('numpy'|'torch') before importing gpmp.num."""
     backend = _normalize_backend_spec(backend)
-    _config.backend = backend
     os.environ["GPMP_BACKEND"] = backend
+    _config.backend = backend
 
 
 def get_backend():
-- 
2.43.0


From abe22ab01d6db158990e2a3637b9626056ef83f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:37:13 +0000
Subject: [PATCH 21/82] fix: a dtype request leaves the numerical layer without
 a dtype

---
 gpmp/num/shared.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpmp/num/shared.py b/gpmp/num/shared.py
index 789dba9..819edef 100644
--- a/gpmp/num/shared.py
+++ b/gpmp/num/shared.py
@@ -15,7 +15,13 @@ ArrayLike = Any
 
 
 def get_dtype():
-    return get_config().dtype_resolved
+    config = get_config()
+    if config.dtype_resolved is None:
+        # A dtype request drops the resolved dtype: resolve it again.
+        import gpmp.num as gnp
+
+        config.dtype_resolved = gnp.float64
+    return config.dtype_resolved
 
 
 def compute_gammaln(up_to_p: int) -> ArrayLike:
-- 
2.43.0


From 7c77a37e981345607703f53906805c6030335eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:37 +0000
Subject: [PATCH 22/82] fix: the torch normal density ignores the scale in its
 normalisation

---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index a310a2b..afc6983 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -998,7 +998,7 @@ class normal:
     def pdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
         t = (x - loc) / scale
-        return 1 / sqrt(2 * pi) * exp(-0.5 * t**2)
+        return 1 / sqrt(2 * pi) * exp(-0.5 * t**2) / scale
 
     @staticmethod
     def logpdf(x, loc=0.0, scale=1.0):
-- 
2.43.0


From b68a86e8587c87e252278a81d375918810365078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:37 +0000
Subject: [PATCH 23/82] fix: the torch log of the normal distribution function
 is -inf in the tail

---
 gpmp/num/torch_backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index afc6983..ea47f90 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -991,8 +991,7 @@ class normal:
     @staticmethod
     def logcdf(x, loc=0.0, scale=1.0):
         x = asarray(x)
-        d = Normal(loc, scale)
-        return log(d.cdf(x))
+        return torch.special.log_ndtr((x - loc) / scale)
 
     @staticmethod
     def pdf(x, loc=0.0, scale=1.0):
-- 
2.43.0


From f19d90f93b99196c5cac7770c10d2b530b9f8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:37 +0000
Subject: [PATCH 24/82] fix: multivariate normal draws ignore the seed of the
 numerical layer

---
 gpmp/num/numpy_backend.py | 11 +++++++----
 gpmp/num/torch_backend.py |  4 ++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/gpmp/num/numpy_backend.py b/gpmp/num/numpy_backend.py
index 44a90ce..ba067a0 100644
--- a/gpmp/num/numpy_backend.py
+++ b/gpmp/num/numpy_backend.py
@@ -513,9 +513,9 @@ class multivariate_normal:
     def rvs(mean=0.0, cov=1.0, n=1):
         # Check if cov is a scalar or 1x1 array, and use norm if so
         if isscalar(cov) or (isinstance(cov, numpy.ndarray) and cov.size == 1):
-            return normal.rvs(mean, numpy.sqrt(cov), size=n).astype(
-                _np_dtype, copy=False
-            )
+            return normal.rvs(
+                mean, numpy.sqrt(cov), size=n, random_state=_np_rng
+            ).astype(_np_dtype, copy=False)
 
         # For dxd covariance matrix, use multivariate_normal
         cov = numpy.asarray(cov)
@@ -524,7 +524,10 @@ class multivariate_normal:
         d = cov.shape[0]
         mean_array = multivariate_normal._mean_array(mean, d)
         return numpy.asarray(
-            scipy_mvnormal.rvs(mean=mean_array, cov=cov, size=n), dtype=_np_dtype
+            scipy_mvnormal.rvs(
+                mean=mean_array, cov=cov, size=n, random_state=_np_rng
+            ),
+            dtype=_np_dtype,
         )
 
     @staticmethod
diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index ea47f90..2856812 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -1039,7 +1039,7 @@ class multivariate_normal:
                 mean, device=var.device
             ).reshape(())
             dist = Normal(mean_s, var.sqrt())
-            return dist.sample((n,))
+            return (dist.loc + dist.scale * randn(n)).detach()
 
         # matrix covariance
         if cov_t.ndim != 2 or cov_t.shape[0] != cov_t.shape[1]:
@@ -1047,7 +1047,7 @@ class multivariate_normal:
         d = cov_t.shape[0]
         mean_vec = multivariate_normal._mean_vector(mean, d, cov_t.device)
         dist = MultivariateNormal(mean_vec, covariance_matrix=cov_t)
-        return dist.sample((n,))
+        return (dist.loc + randn(n, d) @ dist.scale_tril.T).detach()
 
     @staticmethod
     def logpdf(x, mean=0.0, cov=1.0):
-- 
2.43.0


From 094f6a711aea57fa2766c30101e447c4d7040042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:47 +0000
Subject: [PATCH 25/82] fix: the torch triangular solve uses the wrong triangle
 of a transposed matrix

---
 gpmp/num/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 2856812..cf1b6c6 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -884,7 +884,7 @@ def solve_triangular(
     x = torch.linalg.solve_triangular(
         Aop,
         B,
-        upper=not lower,
+        upper=(not lower) == (Aop is A),  # transposing swaps the triangles
         left=True,
         unitriangular=unit_diagonal,
     )
-- 
2.43.0


From 5f08151cdc3c3458ce4dae735ad7b5f757d40dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:37 +0000
Subject: [PATCH 26/82] fix: a Metropolis step given a plain number for the
 current value fails with torch

---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 69f1162..6609b28 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -386,7 +386,7 @@ class MetropolisHastings:
         Single Metropolis–Hastings update for chain chain_idx.
         If symmetric=False, includes reverse-proposal terms in acceptance.
         """
-        if log_target_x_current is None or gnp.isnan(log_target_x_current):
+        if log_target_x_current is None or math.isnan(log_target_x_current):
             try:
                 log_target_x_current = gnp.to_scalar(self.log_target(x_current))
             except Exception:
-- 
2.43.0


From e6c70f111284290941f438cc4e5df3a360e0ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:37 +0000
Subject: [PATCH 27/82] fix: the target value of the initial Metropolis state
 is not recorded

---
 gpmp/mcmc/mh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 6609b28..f8c941a 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -432,6 +432,7 @@ class MetropolisHastings:
                     c,
                     log_target_x_current=prev_log_target,
                 )
+                self.log_target_values[c, t - 1] = log_target_prev
                 self.log_target_values[c, t] = log_target_next
             self.global_iter += 1
             if show_global_progress:
-- 
2.43.0


From bf87a59c72c59ef1a2a2f0ad5a67dbab9b8ee3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:37 +0000
Subject: [PATCH 28/82] fix: the diminishing adaptation schedule turns negative

---
 gpmp/mcmc/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index f8c941a..1ae3558 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -259,7 +259,7 @@ class MetropolisHastings:
         returns base * final_frac.
 
         """
-        cosine_component = math.cos(math.pi * n / n_total)
+        cosine_component = 0.5 * (1.0 + math.cos(math.pi * n / n_total))
         return base * (final_frac + (1 - final_frac) * cosine_component)
 
     def _validate_scheduler_args(self, n_steps_total: int, burnin: int):
-- 
2.43.0


From 738b888b0c73b567f364d8bcdd7e85f0f3a5cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:37 +0000
Subject: [PATCH 29/82] fix: long burn-in periods of a single Metropolis chain
 fail

---
 gpmp/mcmc/mh.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 1ae3558..6223552 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -575,8 +575,13 @@ class MetropolisHastings:
                 rates = rates[:, i0:i1]
                 min_ar = gnp.min(rates, axis=1)
                 max_ar = gnp.max(rates, axis=1)
-                gr_results = self.check_convergence_gelman_rubin(
-                    last_n_samples=n_diag_samples, verbose=False
+                # R-hat is not defined for a single chain: no early stopping.
+                gr_results = (
+                    self.check_convergence_gelman_rubin(
+                        last_n_samples=n_diag_samples, verbose=False
+                    )
+                    if self.n_chains >= 2
+                    else {}
                 )
                 if (
                     gnp.all(min_ar > self.options.acceptance_min)
-- 
2.43.0


From 601cfefb51bffd1257fb746f015035db318b43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:37 +0000
Subject: [PATCH 30/82] fix: Metropolis traces keep uninitialised states after
 an early end of burn-in

---
 gpmp/mcmc/mh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 6223552..6ff508e 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -693,6 +693,10 @@ class MetropolisHastings:
             self.run_adaptive(n_remain)
 
         self.global_total = self.global_iter
+        # Burn-in may stop early: drop the steps that were not run.
+        self.x = self.x[:, : 1 + self.global_iter]
+        self.accept = self.accept[:, : 1 + self.global_iter]
+        self.log_target_values = self.log_target_values[:, : 1 + self.global_iter]
         if self.options.show_global_progress:
             self._print_final_time(self.global_total, self.start_time)
 
-- 
2.43.0


From 648929af3fb71d10f7242225a2704f196b4c5152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:37 +0000
Subject: [PATCH 31/82] fix: the KS convergence check counts blocks compared
 with themselves and fails with torch

---
 gpmp/mcmc/mh.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/mh.py b/gpmp/mcmc/mh.py
index 6ff508e..a5ef24a 100644
--- a/gpmp/mcmc/mh.py
+++ b/gpmp/mcmc/mh.py
@@ -970,6 +970,14 @@ class MetropolisHastings:
             else:
                 return pvalue_matrix
 
+    @staticmethod
+    def _fraction_significant(significance) -> float:
+        """Fraction of significant tests among pairs of distinct blocks."""
+        dim, n_blocks, _ = significance.shape
+        n_pairs = dim * n_blocks * (n_blocks - 1)
+        off_diagonal = significance & (gnp.eye(n_blocks) == 0)
+        return float(gnp.to_scalar(gnp.sum(off_diagonal))) / max(n_pairs, 1)
+
     def check_convergence_ks(
         self,
         multi_block_n_blocks: int = 5,
@@ -1037,7 +1045,7 @@ class MetropolisHastings:
             return_significance=True,
             return_statistic=True,
         )
-        frac_sig_multi = gnp.to_scalar(gnp.sum(sigA) / sigA.size)
+        frac_sig_multi = self._fraction_significant(sigA)
 
         # Single-block check.
         if single_block_size is None:
@@ -1053,7 +1061,7 @@ class MetropolisHastings:
             return_significance=True,
             return_statistic=True,
         )
-        frac_sig_single = gnp.to_scalar(gnp.sum(sigB) / sigB.size)
+        frac_sig_single = self._fraction_significant(sigB)
 
         # Convergence is declared if the fraction of significant comparisons is low.
         ok = (frac_sig_multi < fraction_threshold) and (
-- 
2.43.0


From d09c8a9cfde48983abde398d543436690f6d3b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:24 +0000
Subject: [PATCH 32/82] fix: torch choice without replacement silently returns
 too few values

---
 gpmp/num/torch_backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index cf1b6c6..04a7bb8 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -966,6 +966,10 @@ def choice(a, size=None, replace=True, p=None):
                 0, n, (size,), generator=_torch_gen, device=a.device
             )
         else:
+            if size > n:
+                raise ValueError(
+                    "Cannot take a larger sample than population when replace is False."
+                )
             perm = torch.randperm(n, generator=_torch_gen, device=a.device)
             indices = perm[:size]
 
-- 
2.43.0


From a365f176aba11bebd890f2bfb8bf6e3436dc1a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:21 +0000
Subject: [PATCH 33/82] fix: NUTS trees stop on a test that depends on the
 initial energy

The divergence flag compares the energy with that of the initial state.
Using it to end a trajectory makes the set of reachable trajectories depend
on the starting point, so the transition is not reversible.  The slice test
alone decides, and the flag remains a diagnostic.
---
 gpmp/mcmc/nuts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index e56f23b..6c72c15 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -81,7 +81,7 @@ or if H becomes NaN/Inf.
 
 The recursive tree builder also uses the continuation test:
   log_u < delta_max - H(q,p),
-equivalent to DeltaH < delta_max in log space.
+which, unlike DeltaH, does not depend on the initial state of the transition.
 
 No-U-Turn stopping rule (diagonal metric)
 -----------------------------------------
@@ -527,7 +527,7 @@ def build_tree(
         n_valid = 1 if (log_u <= -H1) else 0
         energy_error = H1 - H0
         divergent = energy_error > delta_max
-        s_continue = (log_u < (delta_max - H1)) and (not divergent)
+        s_continue = log_u < (delta_max - H1)
 
         log_alpha = -(H1 - H0)
         alpha = float(gnp.exp(gnp.clip(log_alpha, max=0.0)))
@@ -555,7 +555,7 @@ def build_tree(
         divergent,
     ) = out
 
-    if s_continue and (not divergent):
+    if s_continue:
         if v == -1:
             out2 = build_tree(
                 log_prob,
@@ -745,7 +745,7 @@ def nuts_transition(
                 div2,
             ) = out
 
-        if s2 and (not div2) and (n_valid + n_valid2) > 0:
+        if s2 and (n_valid + n_valid2) > 0:
             u = gnp.rand()
             if u < (n_valid2 / (n_valid + n_valid2)):
                 q_prop = q_prop2
-- 
2.43.0


From 07dadec6c62dfd00199c245dd3b40ec22e37c411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:29 +0000
Subject: [PATCH 34/82] fix: NUTS diagnostic plots fail when the run is longer
 than the averaging window

---
 gpmp/mcmc/nuts.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index 6c72c15..a56862f 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -163,6 +163,8 @@ import math
 import os
 import time
 
+import numpy as np
+
 import gpmp.num as gnp
 
 ArrayLike = any  # Placeholder for unified array type
@@ -1140,8 +1142,8 @@ def moving_average(y, window: int):
     if window <= 1:
         return y
 
-    w = gnp.ones(window, dtype=gnp_dtype) / window
-    return gnp.convolve(y, w, mode="valid")
+    w = np.ones(window) / window
+    return np.convolve(y, w, mode="valid")
 
 
 def plot_nuts_diagnostics(
-- 
2.43.0


From cd18119f2ac7a9d8c6bb42fb4f9803c6863430d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:32 +0000
Subject: [PATCH 35/82] fix: NUTS warm-up uses the variances of the chains as
 masses instead of their inverses

The metric adapts to the scales of the target when the inverse mass equals
the variance.  With the variance as mass, each adaptation makes the
conditioning of the dynamics worse than with the identity.
---
 gpmp/mcmc/nuts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index a56862f..133eb13 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -130,7 +130,8 @@ Warmup uses:
 1) Dual averaging to adapt eps toward target_accept, updated every warmup iteration.
 2) Windowed diagonal mass adaptation:
    - an initial buffer with no mass updates,
-   - several middle windows: accumulate q values and update mass_diag at each window end,
+   - several middle windows: accumulate q values and set inv_mass_diag to their variances
+     at each window end,
    - a terminal buffer with no mass updates.
 
 After each mass update:
@@ -994,8 +995,8 @@ def nuts_sample(
         # window end: update mass, restart dual averaging
         if (t + 1) in window_end_set:
             old_mass_mean = float(gnp.mean(mass_diag))
-            mass_diag = gnp.clip(rv.var(), min=jitter)
-            inv_mass_diag = 1.0 / mass_diag
+            inv_mass_diag = gnp.clip(rv.var(), min=jitter)
+            mass_diag = 1.0 / inv_mass_diag
             new_mass_mean = float(gnp.mean(mass_diag))
 
             logger.log(
-- 
2.43.0


From a827cc13eebc9e1b84512ecc9de79b6923a0bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:49 +0000
Subject: [PATCH 36/82] fix: Dette-Pepelyshev function keeps only the last of
 its five logarithmic terms

---
 gpmp/misc/testfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/testfunctions.py b/gpmp/misc/testfunctions.py
index 709e27a..707dd55 100644
--- a/gpmp/misc/testfunctions.py
+++ b/gpmp/misc/testfunctions.py
@@ -361,8 +361,8 @@ def detpep8d(x):
             xj = x[:, jj - 1]
             inner = inner + xj
 
-    new = ii * np.log(1 + inner)
-    outer = outer + new
+        new = ii * np.log(1 + inner)
+        outer = outer + new
 
     z = term1 + term2 + term3 + outer
 
-- 
2.43.0


From 5c44bf892bf7465fbe670bbfb4c92a695644fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:24:49 +0000
Subject: [PATCH 37/82] fix: wave test function uses the second coordinate in
 its linear term instead of the first

---
 gpmp/misc/testfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/misc/testfunctions.py b/gpmp/misc/testfunctions.py
index 707dd55..6f881e3 100644
--- a/gpmp/misc/testfunctions.py
+++ b/gpmp/misc/testfunctions.py
@@ -56,7 +56,7 @@ def wave(x):
     """    
     z = (
         np.exp(1.8 * (x[:, 0] + x[:, 1]))
-        + 3 * x[:, 1]
+        + 3 * x[:, 0]
         + 6 * x[:, 1] ** 2
         + 3 * np.sin(4 * np.pi * x[:, 0])
     )
-- 
2.43.0


From 15c839cf07bf896e3a01b280a47fd2cbde6f3762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:25:50 +0000
Subject: [PATCH 38/82] fix: EI2 and the truncated CRPS mix rows when arrays
 are not one-dimensional

---
 gpmp/misc/scoringrules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/scoringrules.py b/gpmp/misc/scoringrules.py
index 7cae6c0..8c7bb5e 100644
--- a/gpmp/misc/scoringrules.py
+++ b/gpmp/misc/scoringrules.py
@@ -90,13 +90,15 @@ def ei2_up(mu, sigma, z):
     t = (mu - z) / sigma
     if gnp.isscalar(t):
         t = gnp.array([t])
-    delta_2_t = gnp.hstack((t.reshape(-1, 1), gnp.zeros((t.shape[0], 1))))
+    t_col = t.reshape(-1, 1)
+    delta_2_t = gnp.hstack((t_col, gnp.zeros((t_col.shape[0], 1))))
 
     D_2 = gnp.array([[-1, 0], [-1, 1]])
 
-    term1 = 2.0 * t * gnp.multivariate_normal.cdf(
+    cdf_2 = gnp.multivariate_normal.cdf(
         delta_2_t, mean=gnp.zeros(2), cov=gnp.matmul(D_2, D_2.T)
     )
+    term1 = 2.0 * t * gnp.asarray(cdf_2).reshape(t.shape)
     term2 = 2.0 * gnp.normal.pdf(t) * gnp.normal.cdf(-t)
     term3 = 1.0 / gnp.sqrt(gnp.pi) * gnp.normal.cdf(t, loc=0.0, scale=gnp.sqrt(0.5))
 
-- 
2.43.0


From 12ed8d0172a62f7339d70bd51050dd96249dcc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:27:07 +0000
Subject: [PATCH 39/82] fix: truncated CRPS fails when the truncation limits
 are arrays

---
 gpmp/misc/scoringrules.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpmp/misc/scoringrules.py b/gpmp/misc/scoringrules.py
index 8c7bb5e..5b70b3c 100644
--- a/gpmp/misc/scoringrules.py
+++ b/gpmp/misc/scoringrules.py
@@ -136,6 +136,12 @@ def tcrps_gaussian(mu, sigma, z, a=-gnp.inf, b=gnp.inf):
     z = gnp.asarray(z)
     a = gnp.asarray(a)
     b = gnp.asarray(b)
+    if len(a.reshape(-1)) > 1 or len(b.reshape(-1)) > 1:
+        # one interval per element
+        zero = gnp.zeros((mu * sigma * z * gnp.isfinite(a) * gnp.isfinite(b)).shape)
+        args = [(v + zero).reshape(-1) for v in (mu, sigma, z, a, b)]
+        scores = [tcrps_gaussian(*v).reshape(-1) for v in zip(*args)]
+        return gnp.concatenate(scores).reshape(zero.shape)
     if gnp.isfinite(a) and gnp.isfinite(b):
         term1 = gnp.maximum(gnp.minimum(b, z) - a, 0.0)
         term2 = ei2_up(mu, sigma, b) - ei2_up(mu, sigma, a)
-- 
2.43.0


From 6cc77502a8aaf8b08af9f1704eaead932d30a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:19 +0000
Subject: [PATCH 40/82] fix: fill distance returns the smallest distance
 between the design and the probe points instead of the largest gap

---
 gpmp/misc/designs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 65522ea..8814ebd 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -95,7 +95,7 @@ def filldist_approx(sample, box, n=int(1e6), x=None):
         n = x.shape[0]
     filldist = 0
     for i in range(n):
-        D = cdist(sample, x)
+        D = cdist(sample, x[i : i + 1])
         d = np.min(D)
         if d > filldist:
             filldist = d
-- 
2.43.0


From 46f3776112d4590a05f6f6f3d2d612795c09e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:19 +0000
Subject: [PATCH 41/82] fix: maximin Latin-hypercube designs of one point fail

---
 gpmp/misc/designs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 8814ebd..6d9cadd 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -261,7 +261,7 @@ def maximinlhs(dim, n, box, max_iter=1000):
     maximindist = 0
     for i in range(max_iter):
         sample = sampler.random(n)
-        d = mindist(sample)
+        d = mindist(sample) if n > 1 else np.inf
         if d > maximindist:
             maximindist = d
             sample_maximin = sample
@@ -295,7 +295,7 @@ def maximinldlhs(dim, n, box):
     maximindist = 0
     for i in range(max_iter):
         sample = sampler.random(n)
-        d = mindist(sample)
+        d = mindist(sample) if n > 1 else np.inf
         if d > maximindist:
             maximindist = d
             sample_maximin = sample
-- 
2.43.0


From b4900290bf3adad7edab28fdef34455b92285a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:19 +0000
Subject: [PATCH 42/82] fix: low-discrepancy uniform designs fail in high
 dimension when every candidate exceeds a fixed discrepancy

---
 gpmp/misc/designs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/misc/designs.py b/gpmp/misc/designs.py
index 6d9cadd..e249709 100644
--- a/gpmp/misc/designs.py
+++ b/gpmp/misc/designs.py
@@ -223,7 +223,7 @@ def ldrandunif(dim, n, box, max_iter=50):
     -----
     FIXME: optimization method
     """
-    mindiscrepany = 1e6  # large number
+    mindiscrepany = np.inf
     for i in range(max_iter):
         sample = np.random.rand(n, dim)
         d = discrepancy(sample)
-- 
2.43.0


From e7fc5704015a806b0506cbe996be3c3b78bf282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:09 +0000
Subject: [PATCH 43/82] fix: probability integral transforms fail with torch
 and mix observations given as a column

---
 gpmp/modeldiagnosis/performance.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gpmp/modeldiagnosis/performance.py b/gpmp/modeldiagnosis/performance.py
index b69d7c3..bd0ef62 100644
--- a/gpmp/modeldiagnosis/performance.py
+++ b/gpmp/modeldiagnosis/performance.py
@@ -129,9 +129,8 @@ def compute_performance(
         out["loo_Q2"] = 1 - press / tss
 
         if compute_pit:
-            zloov_arr = gnp.asarray(zloov)
-            scale = gnp.sqrt(gnp.clip(zloov_arr, 0.0, gnp.inf))
-            out["loo_pit"] = gnp.normal.cdf(zi_arr, loc=zloom, scale=scale)
+            scale = gnp.sqrt(gnp.clip(_as_1d(zloov), 0.0, gnp.inf))
+            out["loo_pit"] = gnp.normal.cdf(zi_vec, loc=_as_1d(zloom), scale=scale)
 
     if xtzt is not None:
         xt, zt = xtzt
@@ -167,8 +166,8 @@ def compute_performance(
         out["test_R2"] = 1 - rss / tss
 
         if compute_pit:
-            scale = gnp.sqrt(gnp.clip(zpv, 0.0, gnp.inf))
-            out["test_pit"] = gnp.normal.cdf(zt_arr, loc=zpm, scale=scale)
+            scale = gnp.sqrt(gnp.clip(_as_1d(zpv), 0.0, gnp.inf))
+            out["test_pit"] = gnp.normal.cdf(zt_vec, loc=zpm_vec, scale=scale)
 
     return out
 
-- 
2.43.0


From ad3afb33d02cb6dff3692f762c198d1dd133c019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:09 +0000
Subject: [PATCH 44/82] fix: diagnosis report divides the data range by the
 variance instead of the standard deviation

---
 gpmp/modeldiagnosis/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/modeldiagnosis/report.py b/gpmp/modeldiagnosis/report.py
index 6f8bce3..cfe2822 100644
--- a/gpmp/modeldiagnosis/report.py
+++ b/gpmp/modeldiagnosis/report.py
@@ -212,7 +212,7 @@ def model_diagnosis_disp(
         rownames_zi = ["zi"]
     else:
         rownames_zi = [f"zi_{j}" for j in range(int(zi.shape[1]))]
-    df_zi = describe_array(zi, rownames_zi, 1.0 / param_values[0])
+    df_zi = describe_array(zi, rownames_zi, 1.0 / np.sqrt(param_values[0]))
 
     n, d = int(xi.shape[0]), int(xi.shape[1])
     rownames_xi = [f"xi_{j}" for j in range(d)]
-- 
2.43.0


From 043f852859aff91310011f03ebff0378ef1d2531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:09 +0000
Subject: [PATCH 45/82] fix: parts of a table swap row and column names and
 lose their second dimension

---
 gpmp/misc/dataframe.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 0b963d1..154eb1b 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -43,18 +43,18 @@ class DataFrame:
         if isinstance(key, tuple):
             row_key, col_key = key
             if isinstance(row_key, slice) and isinstance(col_key, slice):
-                return DataFrame(self.data[row_key, col_key], self.rownames[row_key], self.colnames[col_key])
+                return DataFrame(self.data[row_key, col_key], self.colnames[col_key], self.rownames[row_key])
             elif isinstance(row_key, slice):
-                return DataFrame(self.data[row_key, self.colnames.index(col_key)], self.rownames[row_key], [col_key])
+                return DataFrame(self.data[row_key, [self.colnames.index(col_key)]], [col_key], self.rownames[row_key])
             elif isinstance(col_key, slice):
-                return DataFrame(self.data[self.rownames.index(row_key), col_key], [row_key], self.colnames[col_key])
+                return DataFrame(self.data[[self.rownames.index(row_key)], col_key], self.colnames[col_key], [row_key])
             else:
                 return self.data[self.rownames.index(row_key), self.colnames.index(col_key)]
         elif isinstance(key, str):
             if key in self.rownames:
-                return DataFrame(self.data[self.rownames.index(key), :], [key], self.colnames)
+                return DataFrame(self.data[[self.rownames.index(key)], :], self.colnames, [key])
             elif key in self.colnames:
-                return DataFrame(self.data[:, self.colnames.index(key)], self.rownames, [key])
+                return DataFrame(self.data[:, [self.colnames.index(key)]], [key], self.rownames)
             else:
                 raise KeyError(f"Key '{key}' not found in row or column names")
         else:
-- 
2.43.0


From 8fc9c89da088a93e232cbde37ea3c2fe01e641b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:09 +0000
Subject: [PATCH 46/82] fix: appending to a table renames rows and columns of
 the tables it was built from

---
 gpmp/misc/dataframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index 154eb1b..d490019 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -36,8 +36,8 @@ def ftos(x, fp=3):
 class DataFrame:
     def __init__(self, data, colnames, rownames):
         self.data = np.array(data)
-        self.rownames = rownames
-        self.colnames = colnames
+        self.rownames = list(rownames)
+        self.colnames = list(colnames)
         
     def __getitem__(self, key):
         if isinstance(key, tuple):
-- 
2.43.0


From 0ca9407eeb7be250df79e7edc2668f9608ab1efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:09 +0000
Subject: [PATCH 47/82] fix: printing a table that contains not-a-number fails

---
 gpmp/misc/dataframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/misc/dataframe.py b/gpmp/misc/dataframe.py
index d490019..49a269e 100644
--- a/gpmp/misc/dataframe.py
+++ b/gpmp/misc/dataframe.py
@@ -16,7 +16,9 @@ def ftos(x, fp=3):
     if gnp.isarray(x):
         x = gnp.to_scalar(x)
 
-    if x == float('inf'):
+    if x != x:
+        return "NaN"
+    elif x == float('inf'):
         return "+Inf"
     elif x == float('-inf'):
         return "-Inf"
-- 
2.43.0


From 4fbab4f7b1ca7060b5cb7b32c6c50edd2c9302ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:56 +0000
Subject: [PATCH 48/82] fix: grid-based parameter statistics rely on a NumPy
 function that no longer exists

---
 gpmp/modeldiagnosis/param_stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index b040a78..0ce5bb2 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -39,7 +39,7 @@ from __future__ import annotations
 from typing import Any, Callable, Dict, Iterable, List, Optional, Tuple
 
 import numpy as np
-from scipy.integrate import cumulative_trapezoid
+from scipy.integrate import cumulative_trapezoid, trapezoid
 from scipy.optimize import minimize_scalar
 
 import gpmp.num as gnp
@@ -94,12 +94,12 @@ def fast_univariate_stats(
     logw -= np.max(logw)  # stabilize exp
     w = np.exp(logw)
 
-    Z = np.trapz(w, xs)
+    Z = trapezoid(w, xs)
     if not np.isfinite(Z) or Z <= 0.0:
         raise ValueError("Normalization failed in fast_univariate_stats.")
 
-    mean_val = float(np.trapz(xs * w, xs) / Z)
-    second = float(np.trapz((xs**2) * w, xs) / Z)
+    mean_val = float(trapezoid(xs * w, xs) / Z)
+    second = float(trapezoid((xs**2) * w, xs) / Z)
     variance = float(second - mean_val**2)
 
     cdf = cumulative_trapezoid(w, xs, initial=0.0) / Z
-- 
2.43.0


From af65543eac961cb88ccd76c5237295680882794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:56 +0000
Subject: [PATCH 49/82] fix: sections of a criterion through integer parameters
 truncate the varied parameter

---
 gpmp/modeldiagnosis/param_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index 0ce5bb2..7f5b252 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -134,7 +134,7 @@ def make_single_param_criterion_function(
         Function g(x) that evaluates f(covparam with covparam[param_index]=x).
     """
 
-    covparam_ref = gnp.asarray(covparam)
+    covparam_ref = 1.0 * gnp.asarray(covparam)
 
     def single_param_function(x: float) -> Any:
         cp = gnp.copy(covparam_ref)
-- 
2.43.0


From 19e7ca7d18d375f949f157f1090fed638daaa535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:38:56 +0000
Subject: [PATCH 50/82] fix: parameter statistics fail when the criterion is
 large in absolute value

---
 gpmp/modeldiagnosis/param_stats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index 7f5b252..7708644 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -344,8 +344,12 @@ def selection_criterion_statistics(
 
         sp = make_single_param_criterion_function(selection_criterion, covparam, j)
 
+        res = minimize_scalar(lambda x: _to_float(sp(float(x))), bounds=(lo, hi), method="bounded")
+        mode_val = float(res.x) if getattr(res, "success", False) else float(opt)
+        crit_min = float(res.fun)
+
         def log_pdf_scalar(x: float) -> float:
-            return -_to_float(sp(float(x)))
+            return crit_min - _to_float(sp(float(x)))
 
         dist = Unnormalized1DDistribution(log_pdf_scalar, bounds=(lo, hi))
 
@@ -357,9 +361,6 @@ def selection_criterion_statistics(
         q75 = float(dist.quantile(0.75))
         q90 = float(dist.quantile(0.9))
 
-        res = minimize_scalar(lambda x: _to_float(sp(float(x))), bounds=(lo, hi), method="bounded")
-        mode_val = float(res.x) if getattr(res, "success", False) else float(opt)
-
         if verbose:
             print(f"param {j}: mean={mean_val:.6g} var={var_val:.6g} mode={mode_val:.6g}")
 
-- 
2.43.0


From a791f96475eb27f53eec369a8c4408421c807a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:14 +0000
Subject: [PATCH 51/82] fix: one-dimensional distributions lose accuracy when
 the unnormalised density is small

---
 gpmp/modeldiagnosis/un1ddist.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpmp/modeldiagnosis/un1ddist.py b/gpmp/modeldiagnosis/un1ddist.py
index 315c723..f0b657d 100644
--- a/gpmp/modeldiagnosis/un1ddist.py
+++ b/gpmp/modeldiagnosis/un1ddist.py
@@ -81,11 +81,17 @@ class Unnormalized1DDistribution:
         self.bounds = (float(a), float(b))
         self._quad_opts = {} if quad_opts is None else dict(quad_opts)
 
+        # The density is unnormalized: absolute tolerances only make sense
+        # relative to its integral.
         self.Z, _ = quad(
-            self._f_scalar, self.bounds[0], self.bounds[1], **self._quad_opts
+            self._f_scalar,
+            self.bounds[0],
+            self.bounds[1],
+            **{"epsabs": 0.0, **self._quad_opts},
         )
         if not math.isfinite(self.Z) or self.Z <= 0.0:
             raise ValueError("Normalization failed (Z is not positive and finite).")
+        self._quad_opts.setdefault("epsabs", 1.49e-8 * self.Z)
 
     @staticmethod
     def _safe_exp(u: float) -> float:
-- 
2.43.0


From 75a8118866c729f7eed1ee59302a67968fa6b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:51 +0000
Subject: [PATCH 52/82] fix: particle moves fail instead of adding jitter when
 the proposal covariance is rejected

---
 gpmp/mcmc/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index d4e35c7..bea1e17 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -397,7 +397,7 @@ class ParticlesSet:
                 self.config.jitter_max_iterations
             ):  # Try iterations of jittering
                 jitter = self.config.jitter_initial_value * (10**i)
-                C_jittered = C + jitter * np.eye(C.shape[0])  # Add jitter
+                C_jittered = C + jitter * gnp.eye(self.dim)  # Add jitter
                 try:
                     eps = ParticlesSet.multivariate_normal_rvs(
                         C_jittered, self.n, self.rng
-- 
2.43.0


From b5d0686fb80a499e24dfd467e60746ab5262a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:51 +0000
Subject: [PATCH 53/82] fix: unknown resampling schemes fail with an attribute
 error instead of the intended message

---
 gpmp/mcmc/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index bea1e17..397183e 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -245,7 +245,7 @@ class ParticlesSet:
         elif self.config.resample_scheme == "residual":
             self.residual_resample(debug=debug)
         else:
-            raise ValueError("Unknown resample scheme: {}".format(self.resample_scheme))
+            raise ValueError("Unknown resample scheme: {}".format(self.config.resample_scheme))
 
     def multinomial_resample(self, debug=False):
         """
-- 
2.43.0


From 5f5d2794661b0b6192ca72e5c774aa6a1be42b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:51 +0000
Subject: [PATCH 54/82] fix: particle weights are not-a-number for particles
 that stay outside the support

---
 gpmp/mcmc/smc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 397183e..6ffb063 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -220,7 +220,9 @@ class ParticlesSet:
 
     def reweight(self, update_logpx_and_w=True):
         logpx_new = self.logpdf_function(self.x).reshape(-1)
-        self.w_tmp = self.w * gnp.exp(logpx_new - self.logpx)
+        # particles of zero density have zero weight, even if they already had zero density
+        log_ratio = gnp.where(logpx_new == -gnp.inf, -gnp.inf, logpx_new - self.logpx)
+        self.w_tmp = self.w * gnp.exp(log_ratio)
         if update_logpx_and_w:
             self.logpx = logpx_new
             self.w = gnp.copy(self.w_tmp)
-- 
2.43.0


From f6b98cf9bd189e879b83b8041a5b1042361b2bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:51 +0000
Subject: [PATCH 55/82] fix: survival fraction is not-a-number when a particle
 is outside the support

---
 gpmp/mcmc/smc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 6ffb063..4227e30 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -978,10 +978,13 @@ class SMC:
             Computed mean value.
 
         """
+        logpx_new = logpdf_function(self.particles.x, new_logpdf_param)
+        logpx_current = logpdf_function(self.particles.x, current_logpdf_param)
         return gnp.mean(
             gnp.exp(
-                logpdf_function(self.particles.x, new_logpdf_param)
-                - logpdf_function(self.particles.x, current_logpdf_param)
+                gnp.where(
+                    logpx_new == -gnp.inf, -gnp.inf, logpx_new - logpx_current
+                )
             )
         )
 
-- 
2.43.0


From 43416496a510f762e8940a768165acc5d814b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:51 +0000
Subject: [PATCH 56/82] fix: search for the next target by survival fraction
 never ends when the fraction jumps

---
 gpmp/mcmc/smc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 4227e30..e25e349 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -1054,6 +1054,10 @@ class SMC:
 
             if abs(p - p0) < tolerance:
                 break
+            if mid == low or mid == high:
+                # p jumps across p0: move past the jump
+                mid = high if low != current_logpdf_param else target_logpdf_param
+                break
             if p < p0:
                 high = mid
             else:
-- 
2.43.0


From db4cf6955728c5a77fd4b879d8eb01206f7d6315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:51 +0000
Subject: [PATCH 57/82] fix: sequential Monte Carlo returns the initial
 particles when it restarts at the target

---
 gpmp/mcmc/smc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index e25e349..e414f6c 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -801,7 +801,7 @@ class SMC:
         current_logpdf_param = initial_logpdf_param
         self.log_data["logpdf_param_sequence"] = [initial_logpdf_param]
 
-        while current_logpdf_param != target_logpdf_param:
+        while True:
             next_logpdf_param = self.compute_next_logpdf_param(
                 logpdf_parameterized_function,
                 current_logpdf_param,
@@ -824,6 +824,8 @@ class SMC:
 
             self.step(logpdf_parameterized_function, next_logpdf_param, debug=debug)
             current_logpdf_param = next_logpdf_param
+            if current_logpdf_param == target_logpdf_param:
+                break
 
         self.log_data["logpdf_param_sequence"] = []
         self.log_data["restart_iteration"] = 0
-- 
2.43.0


From ffa8fa837f1c36110d6d16d7977d017bb52d738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:31 +0000
Subject: [PATCH 58/82] fix: search for the next target by effective sample
 size stops far from the requested ratio or never progresses

---
 gpmp/mcmc/smc.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index e414f6c..9494d7a 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -21,7 +21,6 @@ from dataclasses import dataclass, field
 from numpy.random import default_rng
 import scipy.stats as stats
 from scipy.stats import qmc
-from scipy.optimize import brentq
 import gpmp.num as gnp
 try:
     from . import knn_cov
@@ -951,9 +950,19 @@ class SMC:
                     RuntimeWarning,
                 )
                 return target_logpdf_param
-            next_logpdf_param = brentq(compute_delta_eta, low, high, xtol=tolerance)
-
-            return next_logpdf_param
+            low, high = param_easy, param_difficult
+            while True:
+                mid = (high + low) / 2
+                delta_eta = compute_delta_eta(mid)
+                if abs(delta_eta) < tolerance:
+                    return mid
+                if mid == low or mid == high:
+                    # eta jumps across eta0: move past the jump
+                    return high if low != param_easy else param_difficult
+                if delta_eta < 0:
+                    high = mid
+                else:
+                    low = mid
 
     def compute_p_value(self, logpdf_function, new_logpdf_param, current_logpdf_param):
         """
-- 
2.43.0


From 00b90a5ea035b262ac4d17f14fe3e5344c5abd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:31 +0000
Subject: [PATCH 59/82] fix: subset simulation divides the probability by the
 volume of the initial box

---
 gpmp/mcmc/smc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index 9494d7a..c14c95a 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -1449,6 +1449,11 @@ def run_subset_simulation(
     smc.particles.particles_init(init_box, n_particles)
     smc.log_data["target_logpdf_param"] = thresholds[1]
 
+    # Weight the initial particles, uniform in the box, according to the base distribution
+    smc.particles.set_logpdf(log_px)
+    smc.particles.reweight()
+    smc.particles.w = smc.particles.w / gnp.sum(smc.particles.w)
+
     stage_probs = gnp.empty(len(thresholds) - 1)
 
     for k in range(1, len(thresholds)):
-- 
2.43.0


From a914665132e355e96ee59862f10599f90aff6404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:31 +0000
Subject: [PATCH 60/82] fix: sequential Monte Carlo posterior sampling ignores
 the dimension of the parameters when the box is given by scalars

---
 gpmp/mcmc/param_posterior.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index aaff887..d4a4fdd 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -728,7 +728,9 @@ def sample_from_selection_criterion_smc(
         raise ValueError("init_box must be provided for SMC.")
 
     dim = _infer_dim(info, None, init_box)
-    _, _, _, _ = _normalize_bounds(init_box, dim, box_name="init_box")
+    _, _, lower_init_np, upper_init_np = _normalize_bounds(
+        init_box, dim, box_name="init_box"
+    )
 
     lower_b = upper_b = None
     if sampling_box is not None:
@@ -764,7 +766,7 @@ def sample_from_selection_criterion_smc(
         target_logpdf_param=final_temperature,
         compute_next_logpdf_param_method="ess",
         min_ess_ratio=min_ess_ratio,
-        init_box=init_box,
+        init_box=[lower_init_np, upper_init_np],
         n_particles=n_particles,
         mh_steps=mh_steps,
         debug=debug,
-- 
2.43.0


From c69829b3bc6cafaa5bf8edcaf5cb3e68136323fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:43 +0000
Subject: [PATCH 61/82] fix: sequential Monte Carlo posterior sampling stops
 when the criterion fails or cannot be evaluated outside the box

---
 gpmp/mcmc/param_posterior.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index d4a4fdd..33c61b8 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -739,7 +739,13 @@ def sample_from_selection_criterion_smc(
         )
 
     def _criterion_scalar(theta):
-        return gnp.to_scalar(gnp.asarray(f(theta)).reshape(()))
+        if lower_b is not None:
+            if bool(gnp.any(theta < lower_b)) or bool(gnp.any(theta > upper_b)):
+                return gnp.inf
+        try:
+            return gnp.to_scalar(gnp.asarray(f(theta)).reshape(()))
+        except Exception:
+            return gnp.inf
 
     def logpdf_temp(x, temperature):
         x = gnp.asarray(x)
-- 
2.43.0


From cac346d9dbe4845bf3a06ad05174ceb3586aa3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:53:55 +0000
Subject: [PATCH 62/82] fix: particle weights overflow when the log-density is
 large

---
 gpmp/mcmc/smc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpmp/mcmc/smc.py b/gpmp/mcmc/smc.py
index c14c95a..d45c219 100644
--- a/gpmp/mcmc/smc.py
+++ b/gpmp/mcmc/smc.py
@@ -221,6 +221,10 @@ class ParticlesSet:
         logpx_new = self.logpdf_function(self.x).reshape(-1)
         # particles of zero density have zero weight, even if they already had zero density
         log_ratio = gnp.where(logpx_new == -gnp.inf, -gnp.inf, logpx_new - self.logpx)
+        # weights are defined up to a factor: keep the exponential from overflowing
+        log_ratio_max = gnp.max(log_ratio)
+        if log_ratio_max > 300.0:
+            log_ratio = log_ratio - log_ratio_max
         self.w_tmp = self.w * gnp.exp(log_ratio)
         if update_logpx_and_w:
             self.logpx = logpx_new
-- 
2.43.0


From 6aaf4dd66e46f2d468162e97b900833ac12ce413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:06:08 +0000
Subject: [PATCH 63/82] fix: posterior samplers ignore the mean parameters of
 the criterion

---
 gpmp/mcmc/param_posterior.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 33c61b8..293e6ac 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -97,6 +97,18 @@ def _resolve_selection_criterion(
     return crit
 
 
+def _info_parameters(info: object) -> gnp.ndarray:
+    # The criterion is a function of the mean parameters, if any, followed by covparam
+    covparam = gnp.asarray(info.covparam, dtype=gnp_dtype)
+    if covparam.ndim != 1:
+        raise ValueError("info.covparam must be 1D.")
+    meanparam = getattr(info, "meanparam", None)
+    if meanparam is None:
+        return covparam
+    meanparam = gnp.asarray(meanparam, dtype=gnp_dtype).reshape(-1)
+    return gnp.concatenate((meanparam, covparam))
+
+
 def _infer_dim(
     info: object,
     param_initial_states,
@@ -113,10 +125,7 @@ def _infer_dim(
         raise ValueError("param_initial_states must be scalar, 1D or 2D.")
 
     if info is not None:
-        x0 = gnp.asarray(info.covparam)
-        if x0.ndim != 1:
-            raise ValueError("info.covparam must be 1D.")
-        return int(x0.shape[0])
+        return int(_info_parameters(info).shape[0])
 
     if box is not None:
         lower, _ = box
@@ -173,7 +182,7 @@ def _normalize_initial_states(
             raise ValueError(
                 "param_initial_states must be provided when info is None and random_init is False."
             )
-        x0 = gnp.asarray(info.covparam, dtype=gnp_dtype).reshape(-1)
+        x0 = _info_parameters(info)
         if int(x0.shape[0]) != dim:
             raise ValueError("info.covparam has incompatible dimension.")
         theta = gnp.tile(x0, (n_chains, 1))
@@ -912,7 +921,7 @@ def sample_from_selection_criterion_svgd(
                 raise ValueError(
                     "particles_initial must be provided when info is None and random_init is False."
                 )
-            x0 = gnp.asarray(info.covparam, dtype=gnp_dtype).reshape(-1)
+            x0 = _info_parameters(info)
             if int(x0.shape[0]) != dim:
                 raise ValueError("info.covparam has incompatible dimension.")
             particles0 = gnp.tile(x0.reshape(1, -1), (int(n_particles), 1))
-- 
2.43.0


From 05ab02188397825d62b96d87f77b537876b23a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:06:08 +0000
Subject: [PATCH 64/82] fix: posterior samplers misread initial states given
 with one column per chain

---
 gpmp/mcmc/param_posterior.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpmp/mcmc/param_posterior.py b/gpmp/mcmc/param_posterior.py
index 293e6ac..15a2540 100644
--- a/gpmp/mcmc/param_posterior.py
+++ b/gpmp/mcmc/param_posterior.py
@@ -118,6 +118,11 @@ def _infer_dim(
         theta = gnp.asarray(param_initial_states)
         if theta.ndim == 0:
             return 1
+        if info is not None:
+            # one column, or one entry when dim == 1, per chain
+            dim = int(_info_parameters(info).shape[0])
+            if theta.shape[-1] != dim and (theta.shape[0] == dim or dim == 1):
+                return dim
         if theta.ndim == 1:
             return int(theta.shape[0])
         if theta.ndim == 2:
-- 
2.43.0


From 565f21364d4544155acd3286a94d4b4dfa8d41a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:39 +0000
Subject: [PATCH 65/82] fix: criterion cross sections of selected parameters
 use the box of other parameters

---
 gpmp/modeldiagnosis/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 5343a00..2524ce1 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -184,7 +184,7 @@ def plot_selection_criterion_crosssections(
 
         for ax_i, param_idx in enumerate(ind):
             opt_value = param_opt[param_idx]
-            p_values = _grid_for_param(ax_i, opt_value, param_box)
+            p_values = _grid_for_param(param_idx, opt_value, param_box)
             crit_values = gnp.zeros((n_crit, n_points))
             for j, x_val in enumerate(p_values):
                 param = gnp.copy(param_opt)
@@ -214,9 +214,9 @@ def plot_selection_criterion_crosssections(
     if ind_pooled is not None:
         ind_pooled = list(ind_pooled)
         fig, ax = plt.subplots(figsize=(8, 6))
-        for i, param_idx in enumerate(ind_pooled):
+        for param_idx in ind_pooled:
             opt_value = param_opt[param_idx]
-            p_values = _grid_for_param(i, opt_value, param_box_pooled)
+            p_values = _grid_for_param(param_idx, opt_value, param_box_pooled)
             crit_values = gnp.zeros((n_crit, n_points))
             for j, x_val in enumerate(p_values):
                 param = gnp.copy(param_opt)
-- 
2.43.0


From 35a68ee245bf4624c4ace812fc4420915ce29df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:39 +0000
Subject: [PATCH 66/82] fix: criterion plots through integer parameters
 truncate the varied parameter

---
 gpmp/modeldiagnosis/plotting.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 2524ce1..192bd0d 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -157,9 +157,12 @@ def plot_selection_criterion_crosssections(
     if info is None:
         if covparam is None:
             raise ValueError("covparam must be supplied when info is None.")
-        param_opt = gnp.asarray(covparam).reshape(-1)
+        param_opt = gnp.asarray(covparam, dtype=gnp.get_dtype()).reshape(-1)
     else:
-        param_opt = gnp.asarray(covparam if covparam is not None else info.covparam).reshape(-1)
+        param_opt = gnp.asarray(
+            covparam if covparam is not None else info.covparam,
+            dtype=gnp.get_dtype(),
+        ).reshape(-1)
 
     n_params = int(param_opt.shape[0])
 
@@ -317,7 +320,7 @@ def plot_selection_criterion_2d(
     f = info.selection_criterion_nograd
     values = gnp.zeros((n, n), dtype=gnp.get_dtype())
 
-    covparam = gnp.copy(info.covparam)
+    covparam = gnp.copy(gnp.asarray(info.covparam, dtype=gnp.get_dtype()))
     for i in range(n):
         _progress(i)
         for j in range(n):
-- 
2.43.0


From 7caf9b583b6a66e161557215f7c8079c875d19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:39 +0000
Subject: [PATCH 67/82] fix: empirical distribution of probability integral
 transforms is drawn with wrong steps

---
 gpmp/modeldiagnosis/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 192bd0d..3271892 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -56,12 +56,12 @@ def plot_pit_ecdf(pit: Any, fig: Optional[Any] = None) -> None:
     pit = gnp.asarray(pit).reshape(-1)
     n = int(pit.shape[0])
 
-    p = gnp.concatenate((gnp.array([0.0]), gnp.linspace(0.0, 1.0, n)))
+    p = gnp.linspace(0.0, 1.0, n + 1)
     pit_sorted = gnp.concatenate((gnp.array([0.0]), gnp.sort(pit)))
 
     if fig is None:
         plt.figure()
-    plt.step(gnp.to_np(pit_sorted), gnp.to_np(p))
+    plt.step(gnp.to_np(pit_sorted), gnp.to_np(p), where="post")
     plt.plot([0.0, 1.0], [0.0, 1.0])
     plt.title("PIT ECDF")
     plt.xlabel("PIT")
-- 
2.43.0


From 8fd5668509bdd2a93bbceb58caf8c05bb31d9f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:39 +0000
Subject: [PATCH 68/82] fix: the figure given for the distribution of
 probability integral transforms is ignored

---
 gpmp/modeldiagnosis/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/modeldiagnosis/plotting.py b/gpmp/modeldiagnosis/plotting.py
index 3271892..5384d19 100644
--- a/gpmp/modeldiagnosis/plotting.py
+++ b/gpmp/modeldiagnosis/plotting.py
@@ -61,6 +61,8 @@ def plot_pit_ecdf(pit: Any, fig: Optional[Any] = None) -> None:
 
     if fig is None:
         plt.figure()
+    else:
+        plt.figure(fig.number)
     plt.step(gnp.to_np(pit_sorted), gnp.to_np(p), where="post")
     plt.plot([0.0, 1.0], [0.0, 1.0])
     plt.title("PIT ECDF")
-- 
2.43.0


From ca64e39ad2c9d1cd415987a1f35f81be76f0958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:39 +0000
Subject: [PATCH 69/82] fix: posterior plots fail when the points are torch
 tensors

---
 gpmp/plot/plotutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpmp/plot/plotutils.py b/gpmp/plot/plotutils.py
index d36f875..b6d8346 100644
--- a/gpmp/plot/plotutils.py
+++ b/gpmp/plot/plotutils.py
@@ -155,8 +155,9 @@ class Figure:
         if not show_ci_labels:
             ci_labels = [""] * 3
 
-        mean = mean.flatten()
-        x = x.flatten()
+        mean = gnp.to_np(mean).flatten()
+        variance = gnp.to_np(variance)
+        x = gnp.to_np(x).flatten()
 
         # Compute delta values using scipy.stats.norm.ppf for the given CI levels
         delta0 = [stats.norm.ppf((1 + level) / 2) for level in ci]
-- 
2.43.0


From 3a562e2d0dcd8958a079bd8c515a4e54627c9c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:39 +0000
Subject: [PATCH 70/82] fix: prediction cross sections through integer points
 truncate the swept coordinate

---
 gpmp/plot/plotutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/plot/plotutils.py b/gpmp/plot/plotutils.py
index b6d8346..f409120 100644
--- a/gpmp/plot/plotutils.py
+++ b/gpmp/plot/plotutils.py
@@ -284,7 +284,7 @@ def crosssections(
     Figure
         GPmp figure object.
     """
-    xi_np = np.asarray(gnp.to_np(xi))
+    xi_np = np.asarray(gnp.to_np(xi), dtype=float)
     zi_np = np.asarray(gnp.to_np(zi))
     box = np.asarray(box, dtype=float)
     nt = int(nt)
-- 
2.43.0


From 6bc1c63eb8b287a107e381248e87c14525c4d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:39 +0000
Subject: [PATCH 71/82] fix: plots of Stein particles fail when a parameter is
 constant

---
 gpmp/mcmc/svgd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/mcmc/svgd.py b/gpmp/mcmc/svgd.py
index 6c0ad93..d71b529 100644
--- a/gpmp/mcmc/svgd.py
+++ b/gpmp/mcmc/svgd.py
@@ -620,7 +620,7 @@ def plot_svgd_empirical_distributions(
             if span <= 0.0:
                 span = 1.0
             xx = gnp.to_np(gnp.linspace(lo - 0.1 * span, hi + 0.1 * span, 100))
-            if n_particles >= 2 and span > 0.0:
+            if n_particles >= 2 and hi > lo:
                 kde = stats.gaussian_kde(vals, bw_method="scott")
                 ax.plot(xx, kde(xx), color=color)
             ax.set_xlabel(rf"$\theta_{{{int(param)+1}}}$")
@@ -655,7 +655,7 @@ def plot_svgd_empirical_distributions(
             if span <= 0.0:
                 span = 1.0
             xx = gnp.to_np(gnp.linspace(lo - 0.1 * span, hi + 0.1 * span, 100))
-            if n_particles >= 2 and span > 0.0:
+            if n_particles >= 2 and hi > lo:
                 kde = stats.gaussian_kde(vals, bw_method="scott")
                 ax.plot(xx, kde(xx), color=color)
         ax.set_xlabel(r"$\theta_i$")
-- 
2.43.0


From d0956ff60a1bf1f631d75cef7bb3f34565d4af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:22:04 +0000
Subject: [PATCH 72/82] fix: nearest-neighbour covariance works with torch and
 with few particles

Averaging the local covariances passed a list to the backend mean, which torch
rejects. The number of neighbours is now limited to the number of points, like
the number of random points, because the index cannot return more.
---
 gpmp/mcmc/knn_cov.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpmp/mcmc/knn_cov.py b/gpmp/mcmc/knn_cov.py
index d333adb..7f8056e 100644
--- a/gpmp/mcmc/knn_cov.py
+++ b/gpmp/mcmc/knn_cov.py
@@ -73,6 +73,8 @@ def estimate_cov_matrix_knn(
     N, d = x.shape
     if n_random > N:
         n_random = N
+    if n_neighbors > N:
+        n_neighbors = N
 
     # 1) Build the HNSW index
     p = hnswlib.Index(space='l2', dim=d)
@@ -96,5 +98,5 @@ def estimate_cov_matrix_knn(
         local_covs.append(C_local)
 
     # 3) Average all local covariance matrices
-    C_avg = gnp.mean(local_covs, axis=0)  # shape (d, d)
+    C_avg = gnp.mean(gnp.stack(local_covs), axis=0)  # shape (d, d)
     return gnp.asarray(C_avg)
-- 
2.43.0


From f805b28843f6c7829ca20472c700e5de3adba6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:06 +0000
Subject: [PATCH 73/82] fix: torch distances lose accuracy for points far from
 the origin

---
 gpmp/num/torch_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 04a7bb8..5604071 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -815,11 +815,16 @@ def custom_sqrt(x):
 
 
 def cdist(x, y, zero_diagonal=True):
+    # the expansion of the squares loses all accuracy far from the origin
+    center = x.detach().mean(0, dtype=_torch_dtype)
+
     if x is y:
+        x = y = x - center
         # use view method: requires contiguous tensor
         x_norm = (x**2).sum(1).view(-1, 1)
         distances = x_norm + x_norm.t() - 2.0 * torch.mm(x, x.t())
     else:
+        x, y = x - center, y - center
         x_norm = (x**2).sum(1).view(-1, 1)
         y_norm = (y**2).sum(1).view(1, -1)
         distances = x_norm + y_norm - 2.0 * torch.mm(x, y.t())
-- 
2.43.0


From a30f8b32b143869ac755c842eb854edc0bd4c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:22:13 +0000
Subject: [PATCH 74/82] fix: torch conversion rejects reversed array views

---
 gpmp/num/torch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 5604071..ab62d63 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -226,7 +226,7 @@ def asarray(x, dtype=None):
         try:
             x_ = torch.from_numpy(x)
         except (TypeError, ValueError):
-            x_ = torch.as_tensor(x)
+            x_ = torch.as_tensor(x.copy())
         if dtype is not None:
             return x_ if x_.dtype == dtype else x_.to(dtype=dtype)
         if x_.is_floating_point() and x_.dtype != _torch_dtype:
@@ -287,7 +287,7 @@ def scalar_safe(f):
 
         # Scalars / lists / numpy arrays: convert once.
         # Use dtype=_torch_dtype so scalar literals become float64 consistently.
-        t = torch.as_tensor(x, dtype=_torch_dtype)
+        t = asarray(x, dtype=_torch_dtype)
         return f(t)
 
     return f_
-- 
2.43.0


From da47257ddde5e91f732cc52e1be47fb8a6f75ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:22:13 +0000
Subject: [PATCH 75/82] fix: integer inputs and observations fail with torch

---
 gpmp/core/utils.py                 | 6 +++---
 gpmp/dataloader.py                 | 4 ++--
 gpmp/kernel/bounds.py              | 4 ++--
 gpmp/kernel/parameter_selection.py | 4 ++--
 gpmp/kernel/utils.py               | 4 ++--
 gpmp/modeldiagnosis/performance.py | 8 ++++----
 gpmp/modeldiagnosis/report.py      | 4 ++--
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/gpmp/core/utils.py b/gpmp/core/utils.py
index 1eccb57..3c2c124 100644
--- a/gpmp/core/utils.py
+++ b/gpmp/core/utils.py
@@ -72,11 +72,11 @@ def ensure_shapes_and_type(
 
     if convert:
         if xi is not None:
-            xi = gnp.asarray(xi)
+            xi = gnp.asarray(xi, dtype=float)
         if zi is not None:
-            zi = gnp.asarray(zi)
+            zi = gnp.asarray(zi, dtype=float)
         if xt is not None:
-            xt = gnp.asarray(xt)
+            xt = gnp.asarray(xt, dtype=float)
 
     return xi, zi, xt
 
diff --git a/gpmp/dataloader.py b/gpmp/dataloader.py
index a04de89..a62af62 100644
--- a/gpmp/dataloader.py
+++ b/gpmp/dataloader.py
@@ -77,8 +77,8 @@ class Dataset:
         self.z_list = z if isinstance(z, list) else [z]
 
         # ensure all shards are gpmp.num arrays
-        self.x_list = [gnp.asarray(xi) for xi in self.x_list]
-        self.z_list = [gnp.asarray(zi) for zi in self.z_list]
+        self.x_list = [gnp.asarray(xi, dtype=float) for xi in self.x_list]
+        self.z_list = [gnp.asarray(zi, dtype=float) for zi in self.z_list]
 
         # consistency check
         assert len(self.x_list) == len(self.z_list), "x and z shard counts differ"
diff --git a/gpmp/kernel/bounds.py b/gpmp/kernel/bounds.py
index 827fa2d..ed1b38b 100644
--- a/gpmp/kernel/bounds.py
+++ b/gpmp/kernel/bounds.py
@@ -25,8 +25,8 @@ def empirical_bounds_factory(
     xi, zi, *, mean_paramlength=0, var_lower_factor=2.0, var_upper_factor=10.0, length_lower_factor=2.0
 ):
     """Build bounds for params [mean..., log(sigma2), -log(rho_0), ..., -log(rho_{d-1})]."""
-    xi = gnp.asarray(xi)
-    zi = gnp.asarray(zi).reshape(-1)
+    xi = gnp.asarray(xi, dtype=float)
+    zi = gnp.asarray(zi, dtype=float).reshape(-1)
     _n, d = xi.shape
     neg_inf, pos_inf = -gnp.inf, gnp.inf
     bounds = []
diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index e9a5017..c9870f3 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -114,8 +114,8 @@ def make_selection_criterion_with_gradient(
             return selection_criterion(model, covparam, xi, zi)
 
     if data_source == "arrays":
-        xi_ = gnp.asarray(xi)
-        zi_ = gnp.asarray(zi)
+        xi_ = gnp.asarray(xi, dtype=float)
+        zi_ = gnp.asarray(zi, dtype=float)
         crit = gnp.DifferentiableSelectionCriterion(crit_, xi_, zi_)
     else:
         crit = gnp.BatchDifferentiableSelectionCriterion(
diff --git a/gpmp/kernel/utils.py b/gpmp/kernel/utils.py
index e745e5b..0cadcd3 100644
--- a/gpmp/kernel/utils.py
+++ b/gpmp/kernel/utils.py
@@ -28,8 +28,8 @@ def prepare_data(xi=None, zi=None, loader=None):
     if not arrays_provided and not loader_provided:
         raise ValueError("Provide either (xi, zi) or loader.")
     if arrays_provided:
-        xi_ = gnp.asarray(xi)
-        zi_ = gnp.asarray(zi).reshape(-1, 1)
+        xi_ = gnp.asarray(xi, dtype=float)
+        zi_ = gnp.asarray(zi, dtype=float).reshape(-1, 1)
         n, d = xi_.shape
         return xi_, zi_, n, d, "arrays"
     # loader path (assume dataset has length and per-item shapes)
diff --git a/gpmp/modeldiagnosis/performance.py b/gpmp/modeldiagnosis/performance.py
index bd0ef62..4dea119 100644
--- a/gpmp/modeldiagnosis/performance.py
+++ b/gpmp/modeldiagnosis/performance.py
@@ -96,8 +96,8 @@ def compute_performance(
         - test_rmse, test_rmse_over_std, test_R2
         - test_pit (optional)
     """
-    xi = gnp.asarray(xi)
-    zi_arr = gnp.asarray(zi)
+    xi = gnp.asarray(xi, dtype=float)
+    zi_arr = gnp.asarray(zi, dtype=float)
     zi_vec = _as_1d(zi_arr)
 
     out: Dict[str, Any] = {}
@@ -134,8 +134,8 @@ def compute_performance(
 
     if xtzt is not None:
         xt, zt = xtzt
-        xt = gnp.asarray(xt)
-        zt_arr = gnp.asarray(zt)
+        xt = gnp.asarray(xt, dtype=float)
+        zt_arr = gnp.asarray(zt, dtype=float)
         zt_vec = _as_1d(zt_arr)
 
         if zpmzpv is None:
diff --git a/gpmp/modeldiagnosis/report.py b/gpmp/modeldiagnosis/report.py
index cfe2822..b80cc33 100644
--- a/gpmp/modeldiagnosis/report.py
+++ b/gpmp/modeldiagnosis/report.py
@@ -192,8 +192,8 @@ def model_diagnosis_disp(
     """
     _ = model_type  # intentionally unused
 
-    xi = gnp.asarray(xi)
-    zi = gnp.asarray(zi)
+    xi = gnp.asarray(xi, dtype=float)
+    zi = gnp.asarray(zi, dtype=float)
 
     print("[Model diagnosis]")
     print("  * Parameter selection")
-- 
2.43.0


From 63f9382f8702b31f79d256a4d4a6f8ea418a1e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:07 +0000
Subject: [PATCH 76/82] fix: Fisher information with integer or list parameters

---
 gpmp/core/fisher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpmp/core/fisher.py b/gpmp/core/fisher.py
index 3a0859c..a9c597f 100644
--- a/gpmp/core/fisher.py
+++ b/gpmp/core/fisher.py
@@ -46,7 +46,7 @@ def fisher_information(model, xi, covparam=None, epsilon: float = 1e-3):
     3) This method can be computationally expensive for high-dimensional parameter spaces,
        but is robust when autodiff faces numerical instabilities.
     """
-    theta = model.covparam if covparam is None else gnp.asarray(covparam)
+    theta = gnp.asarray(model.covparam if covparam is None else covparam, dtype=float)
     p = theta.shape[0]
     I = gnp.empty((p, p))
 
@@ -105,7 +105,7 @@ def fisher_information_cpd(model, xi, covparam=None, epsilon: float = 1e-3):
     I : (p, p) array
         Fisher information matrix.
     """
-    theta = model.covparam if covparam is None else gnp.asarray(covparam)
+    theta = gnp.asarray(model.covparam if covparam is None else covparam, dtype=float)
     p = theta.shape[0]
 
     # Build base covariance
-- 
2.43.0


From b389a1ecf118348d2bb0ffc6f11c8e740f09c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:07 +0000
Subject: [PATCH 77/82] fix: penalised selection rejects starting parameters
 given as a list

---
 gpmp/kernel/prior_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpmp/kernel/prior_helpers.py b/gpmp/kernel/prior_helpers.py
index b52f294..578d553 100644
--- a/gpmp/kernel/prior_helpers.py
+++ b/gpmp/kernel/prior_helpers.py
@@ -255,7 +255,7 @@ def resolve_logsigma2_logrho_prior_args(
     prior_log_sigma2_0 = (
         covparam0_prior[0] if prior_log_sigma2_0 is None else prior_log_sigma2_0
     )
-    prior_logrho_0 = -covparam0_prior[1:] if prior_logrho_0 is None else prior_logrho_0
+    prior_logrho_0 = -gnp.asarray(covparam0_prior, dtype=float)[1:] if prior_logrho_0 is None else prior_logrho_0
     prior_logrho_0 = gnp.asarray(prior_logrho_0)
 
     if prior_logrho_min is None:
-- 
2.43.0


From 15b7250000f504596f40bfdd179dac9de0537809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:46:26 +0000
Subject: [PATCH 78/82] fix: gradients at integer points are truncated or
 rejected

---
 gpmp/num/numpy_backend.py | 3 ++-
 gpmp/num/torch_backend.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpmp/num/numpy_backend.py b/gpmp/num/numpy_backend.py
index ba067a0..0a3e120 100644
--- a/gpmp/num/numpy_backend.py
+++ b/gpmp/num/numpy_backend.py
@@ -272,7 +272,7 @@ def grad(f: Callable[[ArrayLike], ArrayLike]) -> Callable[[ArrayLike], ArrayLike
     """
 
     def grad_f(x: ArrayLike) -> ArrayLike:
-        x_arr = asarray(x)
+        x_arr = asarray(x).astype(_np_dtype, copy=False)
         grad_vec = zeros_like(x_arr)
         h = 1e-5  # step size for finite differences
 
@@ -312,6 +312,7 @@ def value_and_grad(
                 return reshape(y_, ())
         raise ValueError("f(x) must return a scalar.")
 
+    x = asarray(x).astype(_np_dtype, copy=False)
     y = _coerce_scalar_like(f(x))
     grad = zeros_like(x, dtype=_np_dtype)
     x_tmp = x.copy()
diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index ab62d63..3fa7ae5 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -505,7 +505,7 @@ def inftobigf(a, bigf=fmax / 1000.0):
 
 def grad(f: Callable[[ArrayLike], ArrayLike]) -> Callable[[ArrayLike], ArrayLike]:
     def f_grad(x):
-        x = asarray(x).detach().clone().requires_grad_(True)
+        x = asarray(x).to(_torch_dtype).detach().clone().requires_grad_(True)
         y = f(x)
         gradients = torch.autograd.grad(y, x, allow_unused=True)[0]
         return gradients
@@ -516,7 +516,7 @@ def grad(f: Callable[[ArrayLike], ArrayLike]) -> Callable[[ArrayLike], ArrayLike
 def value_and_grad(f, x):
     # Returns (y, grady) with y = f(x)
     with torch.enable_grad():
-        x_ = x.detach().requires_grad_(True)
+        x_ = asarray(x).to(_torch_dtype).detach().requires_grad_(True)
         y = f(x_)
         if not torch.is_tensor(y):
             raise ValueError("f(x) must return a torch scalar tensor.")
-- 
2.43.0


From 5b9c9ed8e8d7d4138b1262230876b4d59906aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:46:26 +0000
Subject: [PATCH 79/82] fix: NUTS truncates positions when started from
 integers

---
 gpmp/mcmc/nuts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpmp/mcmc/nuts.py b/gpmp/mcmc/nuts.py
index 133eb13..77d2ea9 100644
--- a/gpmp/mcmc/nuts.py
+++ b/gpmp/mcmc/nuts.py
@@ -802,6 +802,7 @@ def nuts_sample(
       2: more frequent summaries
 
     """
+    q_init = gnp.asarray(q_init, dtype=gnp_dtype)
     if q_init.ndim != 2:
         raise ValueError("q_init must have shape (chains, dim)")
 
-- 
2.43.0


From 07d1cdb7bb97174bf1461da05afbb8f9bd682ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:19:15 +0000
Subject: [PATCH 80/82] fix: automatic bounds are reversed for starting values
 beyond 500

---
 gpmp/kernel/parameter_selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpmp/kernel/parameter_selection.py b/gpmp/kernel/parameter_selection.py
index c9870f3..6a59247 100644
--- a/gpmp/kernel/parameter_selection.py
+++ b/gpmp/kernel/parameter_selection.py
@@ -204,6 +204,8 @@ def autoselect_parameters(
                 max(param - bounds_delta, safe_lower),
                 min(param + bounds_delta, safe_upper),
             )
+            if safe_lower <= param <= safe_upper
+            else (param - bounds_delta, param + bounds_delta)
             for param in p0
         ]
 
-- 
2.43.0


From b777b25f451ea36fe8cd82defc57c1900935a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:28:13 +0000
Subject: [PATCH 81/82] fix: arrays filled with a whole number are integers
 with the torch backend

---
 gpmp/num/torch_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpmp/num/torch_backend.py b/gpmp/num/torch_backend.py
index 3fa7ae5..b53deb6 100644
--- a/gpmp/num/torch_backend.py
+++ b/gpmp/num/torch_backend.py
@@ -85,7 +85,6 @@ from torch import (
     ones_like,
     zeros,
     ones,
-    full,
     full_like,
     eye,
     diag,
@@ -214,6 +213,11 @@ def _resolve_torch_dtype(dtype):
     return dtype
 
 
+def full(shape, fill_value, dtype=None):
+    dtype = _torch_dtype if dtype is None else _resolve_torch_dtype(dtype)
+    return torch.full(shape, fill_value, dtype=dtype)
+
+
 def asarray(x, dtype=None):
     dtype = _resolve_torch_dtype(dtype)
     if isinstance(x, torch.Tensor):
-- 
2.43.0


From 73ae487a5d1f9ac2706e5843b815fa20d1deb70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:05:01 +0000
Subject: [PATCH 82/82] fix: variances of one-dimensional posteriors far from
 zero are inaccurate

---
 gpmp/modeldiagnosis/param_stats.py | 3 +--
 gpmp/modeldiagnosis/un1ddist.py    | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/gpmp/modeldiagnosis/param_stats.py b/gpmp/modeldiagnosis/param_stats.py
index 7708644..4aba3c9 100644
--- a/gpmp/modeldiagnosis/param_stats.py
+++ b/gpmp/modeldiagnosis/param_stats.py
@@ -99,8 +99,7 @@ def fast_univariate_stats(
         raise ValueError("Normalization failed in fast_univariate_stats.")
 
     mean_val = float(trapezoid(xs * w, xs) / Z)
-    second = float(trapezoid((xs**2) * w, xs) / Z)
-    variance = float(second - mean_val**2)
+    variance = float(trapezoid((xs - mean_val) ** 2 * w, xs) / Z)
 
     cdf = cumulative_trapezoid(w, xs, initial=0.0) / Z
     quantiles: Dict[str, float] = {}
diff --git a/gpmp/modeldiagnosis/un1ddist.py b/gpmp/modeldiagnosis/un1ddist.py
index f0b657d..a3d3340 100644
--- a/gpmp/modeldiagnosis/un1ddist.py
+++ b/gpmp/modeldiagnosis/un1ddist.py
@@ -185,9 +185,9 @@ class Unnormalized1DDistribution:
         """
         a, b = self.bounds
         mu = self.mean()
-        integrand = lambda t: (float(t) ** 2) * self._f_scalar(float(t))
+        integrand = lambda t: (float(t) - mu) ** 2 * self._f_scalar(float(t))
         m2, _ = quad(integrand, a, b, **self._quad_opts)
-        return float(m2 / self.Z - mu * mu)
+        return float(m2 / self.Z)
 
     def quantile(self, p: float, *, xtol: float = 1e-6) -> float:
         """
-- 
2.43.0

