From d2c1d602e15f56b5bae9d2fe83b3d3212c2aa359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 01/32] fix: posterior mean infers the input shape from the
 covariance alone

Comparing the shapes of the targets and the covariance dimension by
dimension miscounted the input dimensions whenever the response count
equals the neighbor count (including both being one).
---
 src/MuyGPyS/_src/gp/muygps/numpy.py | 14 ++++----------
 src/MuyGPyS/_src/gp/muygps/torch.py | 14 ++++----------
 2 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/numpy.py b/src/MuyGPyS/_src/gp/muygps/numpy.py
index 93901d3..d30ce5d 100644
--- a/src/MuyGPyS/_src/gp/muygps/numpy.py
+++ b/src/MuyGPyS/_src/gp/muygps/numpy.py
@@ -6,24 +6,18 @@
 import MuyGPyS._src.math.numpy as np
 
 
-def _find_matching_ndim(nn_targets: np.ndarray, Kin: np.ndarray):
-    # assumes that nntargets.ndim <= Kin.ndim
-    nshape = np.array(nn_targets.shape)
-    Kshape = np.array(Kin.shape)
-    shared_shape = np.equal(nshape, Kshape[: nn_targets.ndim])
-    return np.count_nonzero(shared_shape)
-
-
 def _muygps_posterior_mean(
     Kin: np.ndarray,
     Kcross: np.ndarray,
     nn_targets: np.ndarray,
+    batch_dim_count: int = 1,
     **kwargs,
 ) -> np.ndarray:
-    batch_in_ndim = _find_matching_ndim(nn_targets, Kin)
+    in_dim_count = (Kin.ndim - batch_dim_count) // 2
+    batch_in_ndim = batch_dim_count + in_dim_count
     in_shape = Kin.shape[batch_in_ndim:]  # (i_1, ..., i_n)
     out_shape = Kcross.shape[batch_in_ndim:]  # (j_1, ..., j_m)
-    batch_shape = Kin.shape[: -2 * len(in_shape)]  # (b_1, ..., b_b)
+    batch_shape = Kin.shape[:batch_dim_count]  # (b_1, ..., b_b)
     extra_shape = nn_targets.shape[len(batch_shape) + len(in_shape) :]
 
     in_size = np.prod(in_shape, dtype=int)
diff --git a/src/MuyGPyS/_src/gp/muygps/torch.py b/src/MuyGPyS/_src/gp/muygps/torch.py
index a43e4b9..6abc6ba 100644
--- a/src/MuyGPyS/_src/gp/muygps/torch.py
+++ b/src/MuyGPyS/_src/gp/muygps/torch.py
@@ -6,24 +6,18 @@
 import MuyGPyS._src.math.torch as torch
 
 
-def _find_matching_ndim(nn_targets: torch.ndarray, Kin: torch.ndarray):
-    # assumes that nntargets.ndim <= Kin.ndim
-    nshape = torch.array(nn_targets.shape)
-    Kshape = torch.array(Kin.shape)
-    shared_shape = torch.eq(nshape, Kshape[: nn_targets.ndim])
-    return torch.count_nonzero(shared_shape)
-
-
 def _muygps_posterior_mean(
     Kin: torch.ndarray,
     Kcross: torch.ndarray,
     nn_targets: torch.ndarray,
+    batch_dim_count: int = 1,
     **kwargs,
 ) -> torch.ndarray:
-    batch_in_ndim = _find_matching_ndim(nn_targets, Kin)
+    in_dim_count = (Kin.ndim - batch_dim_count) // 2
+    batch_in_ndim = batch_dim_count + in_dim_count
     in_shape = Kin.shape[batch_in_ndim:]  # (i_1, ..., i_n)
     out_shape = Kcross.shape[batch_in_ndim:]  # (j_1, ..., j_m)
-    batch_shape = Kin.shape[: -2 * len(in_shape)]  # (b_1, ..., b_b)
+    batch_shape = Kin.shape[:batch_dim_count]  # (b_1, ..., b_b)
     extra_shape = nn_targets.shape[len(batch_shape) + len(in_shape) :]
 
     in_size = in_shape.numel()
-- 
2.43.0


From 9e285f36a00a3ad68556ed4b0bdafb57df64170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 02/32] fix: named vector parameters keep their order under
 keyword overrides

Overriding only some of the scalar parameters placed the given values
first, so that length scales were applied to the wrong features.
---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index 17262d2..aec7729 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -107,7 +107,7 @@ class NamedVectorParameter(VectorParameter):
             The current value of the hyperparameter.
         """
         params, kwargs = self.filter_kwargs(**kwargs)
-        return mm.array([param for _, param in params.items()])
+        return mm.array([params[p.name()] for p in self._params])
 
     def apply_fn(self, fn: Callable) -> Callable:
         def applied_fn(*args, **kwargs):
-- 
2.43.0


From cb0d7a505569415bb750da7fff1558b2576d280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 03/32] fix: analytic scale optimization can be repeated under
 torch

Converting the current scale with numpy fails for a tensor that requires
gradients, which the first optimization stores.
---
 src/MuyGPyS/gp/hyperparameter/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 49ace1f..ed03daf 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -204,7 +204,7 @@ class AnalyticScale(ScaleFn):
 
         def analytic_scale_opt_fn(Kin, nn_targets, *args, **kwargs):
             scale = self._fn(muygps.noise.perturb(Kin), nn_targets, **kwargs)
-            if np.array(self.val).size != 1:
+            if np.prod(getattr(self.val, "shape", ()), dtype=int) != 1:
                 # iterative process only works for scalar responses
                 return scale
             for _ in range(1, self.iteration_count):
-- 
2.43.0


From e55ba7fedb169368a901658bfda5e6ec7b79fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 04/32] fix: models with NullNoise report their free
 hyperparameters

NullNoise never initialized its base parameter and did not implement
append_lists, so that fixed() and get_opt_params() raised.
---
 src/MuyGPyS/gp/noise/null.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/noise/null.py b/src/MuyGPyS/gp/noise/null.py
index 87addd2..2d87278 100644
--- a/src/MuyGPyS/gp/noise/null.py
+++ b/src/MuyGPyS/gp/noise/null.py
@@ -9,7 +9,7 @@ Noise modeling
 Defines data structures and functors that handle noise priors for MuyGPs models.
 """
 
-from typing import Callable
+from typing import Callable, List, Tuple
 
 import MuyGPyS._src.math as mm
 
@@ -23,8 +23,7 @@ class NullNoise(ScalarParam, NoiseFn):
     """
 
     def __init__(self, *args, **kwargs):
-        self.val = 0.0
-        self.bounds = "fixed"
+        super(NullNoise, self).__init__(0.0, "fixed")
 
     def __call__(self, *args, **kwargs):
         return 0.0
@@ -48,3 +47,14 @@ class NullNoise(ScalarParam, NoiseFn):
 
     def perturb_fn(self, fn: Callable) -> Callable:
         return fn
+
+    def append_lists(
+        self,
+        names: List[str],
+        params: List[float],
+        bounds: List[Tuple[float, float]],
+    ):
+        """
+        Null noise has no optimizable parameter to append.
+        """
+        pass
-- 
2.43.0


From 99ca14d1153e153437f61c83ebc892ad70f2dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 05/32] fix: fast posterior means keep unit batches and
 neighborhoods apart from the response axis

---
 src/MuyGPyS/_src/gp/muygps/numpy.py | 10 ++++++----
 src/MuyGPyS/_src/gp/muygps/torch.py |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/numpy.py b/src/MuyGPyS/_src/gp/muygps/numpy.py
index d30ce5d..1e69329 100644
--- a/src/MuyGPyS/_src/gp/muygps/numpy.py
+++ b/src/MuyGPyS/_src/gp/muygps/numpy.py
@@ -66,9 +66,8 @@ def _muygps_fast_posterior_mean(
     coeffs_tensor: np.ndarray,
     **kwargs,
 ) -> np.ndarray:
-    return np.squeeze(
-        np.einsum("ij,ijk->ik", Kcross, np.atleast_3d(coeffs_tensor))
-    )
+    responses = np.einsum("ij,ijk->ik", Kcross, np.atleast_3d(coeffs_tensor))
+    return responses[:, 0] if responses.shape[1] == 1 else responses
 
 
 def _mmuygps_fast_posterior_mean(
@@ -86,4 +85,7 @@ def _muygps_fast_posterior_mean_precompute(
 ) -> np.ndarray:
     if train_nn_targets_fast.ndim == 2:
         train_nn_targets_fast = train_nn_targets_fast[:, :, None]
-    return np.squeeze(np.linalg.solve(Kin, train_nn_targets_fast))
+    coeffs_tensor = np.linalg.solve(Kin, train_nn_targets_fast)
+    if coeffs_tensor.shape[2] == 1:
+        return coeffs_tensor[:, :, 0]
+    return coeffs_tensor
diff --git a/src/MuyGPyS/_src/gp/muygps/torch.py b/src/MuyGPyS/_src/gp/muygps/torch.py
index 6abc6ba..bdcd751 100644
--- a/src/MuyGPyS/_src/gp/muygps/torch.py
+++ b/src/MuyGPyS/_src/gp/muygps/torch.py
@@ -66,9 +66,10 @@ def _muygps_fast_posterior_mean(
     Kcross: torch.ndarray,
     coeffs_tensor: torch.ndarray,
 ) -> torch.ndarray:
-    return torch.squeeze(
-        torch.einsum("ij,ijk->ik", Kcross, torch.atleast_3d(coeffs_tensor))
+    responses = torch.einsum(
+        "ij,ijk->ik", Kcross, torch.atleast_3d(coeffs_tensor)
     )
+    return torch.squeeze(responses, -1)
 
 
 def _mmuygps_fast_posterior_mean(
-- 
2.43.0


From 1b9b3109f70ef7d8aaf4eb61c7ab8a0edaa4062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 06/32] fix: multivariate fast posterior means use their
 coefficients and kernels

---
 src/MuyGPyS/gp/multivariate_muygps.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index 2cae149..448202d 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -276,12 +276,9 @@ class MultivariateMuyGPS:
 
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs_fast)
-            mm.assign(
+            coeffs_tensor = mm.assign(
                 coeffs_tensor,
-                model.fast_coefficients(
-                    model.noise.perturb(Kin),
-                    train_nn_targets_fast[:, :, i],
-                ),
+                model.fast_coefficients(Kin, train_nn_targets_fast[:, :, i]),
                 slice(None),
                 slice(None),
                 i,
@@ -330,7 +327,7 @@ class MultivariateMuyGPS:
         """
         Kcross = mm.zeros(coeffs_tensor.shape)
         for i, model in enumerate(self.models):
-            mm.assign(
+            Kcross = mm.assign(
                 Kcross,
                 model.kernel(crosswise_diffs),
                 slice(None),
-- 
2.43.0


From 40c38111470964cba821ad406bf0a9a402f8965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 07/32] fix: fast posterior mean driver updates its neighbor
 table once

---
 src/MuyGPyS/examples/fast_posterior_mean.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/MuyGPyS/examples/fast_posterior_mean.py b/src/MuyGPyS/examples/fast_posterior_mean.py
index e46f89a..9db84c1 100644
--- a/src/MuyGPyS/examples/fast_posterior_mean.py
+++ b/src/MuyGPyS/examples/fast_posterior_mean.py
@@ -370,7 +370,6 @@ def fast_posterior_mean_any(
     time_precomp = perf_counter()
 
     time_agree = perf_counter()
-    nn_indices = fast_nn_update(nn_indices)
 
     test_neighbors, _ = nbrs_lookup.get_nns(test_features)
     time_nn = perf_counter()
-- 
2.43.0


From f2bb57bdb7c8c2df2150fa95b1fd7a346de14ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 08/32] fix: multivariate posterior variance applies each scale
 once

---
 src/MuyGPyS/gp/multivariate_muygps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index 448202d..b58716b 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -220,10 +220,9 @@ class MultivariateMuyGPS:
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs)
             Kcross = model.kernel(crosswise_diffs)
-            ss = model.scale()
             diagonal_variance = mm.assign(
                 diagonal_variance,
-                model.posterior_variance(Kin, Kcross).reshape(batch_count) * ss,
+                model.posterior_variance(Kin, Kcross).reshape(batch_count),
                 slice(None),
                 i,
             )
@@ -377,6 +376,7 @@ class MultivariateMuyGPS:
                 nn_targets[:, :, i].reshape(batch_count, nn_count, 1),
             )
             model.scale._set(new_scale_val)
+            model._make()
         return self
 
     @mpi_chunk(return_count=3)
-- 
2.43.0


From ac3749d54bc7ae4c519e3b727dae6b04e92436fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 09/32] fix: lool of full covariances uses the log determinant
 alone

---
 src/MuyGPyS/_src/optimize/loss/jax.py   | 2 +-
 src/MuyGPyS/_src/optimize/loss/numpy.py | 2 +-
 src/MuyGPyS/_src/optimize/loss/torch.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/jax.py b/src/MuyGPyS/_src/optimize/loss/jax.py
index 2fe9a5f..90c130c 100644
--- a/src/MuyGPyS/_src/optimize/loss/jax.py
+++ b/src/MuyGPyS/_src/optimize/loss/jax.py
@@ -82,7 +82,7 @@ def _lool_fn_unscaled(
         quad_form = jnp.squeeze(
             residual.swapaxes(-2, -1) @ jnp.linalg.solve(variances, residual)
         )
-        logdet = jnp.linalg.slogdet(variances)
+        logdet = jnp.linalg.slogdet(variances)[1]
         return jnp.sum(quad_form + logdet)
     else:
         return jnp.sum(
diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index bc198db..ee46ace 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -47,7 +47,7 @@ def _lool_fn_unscaled(
         quad_form = np.squeeze(
             residual.swapaxes(-2, -1) @ np.linalg.solve(variances, residual)
         )
-        logdet = np.linalg.slogdet(variances)
+        logdet = np.linalg.slogdet(variances)[1]
         return np.sum(quad_form + logdet)
 
 
diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index cbb7fb0..c78b97d 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -56,7 +56,7 @@ def _lool_fn_unscaled(
         quad_form = torch.squeeze(
             residual.swapaxes(-2, -1) @ torch.linalg.solve(variances, residual)
         )
-        logdet = torch.linalg.slogdet(variances)
+        logdet = torch.linalg.slogdet(variances)[1]
         return torch.sum(quad_form + logdet)
     else:
         return torch.sum(
-- 
2.43.0


From f3cefa47cb8aabd6d107a68a64a107bf2ee6a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 10/32] fix: numpy lool accepts one variance per response

---
 src/MuyGPyS/_src/optimize/loss/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index ee46ace..24299b5 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -37,7 +37,7 @@ def _lool_fn_unscaled(
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    if variances.ndim == 1:
+    if variances.ndim != 3:
         return np.sum(
             np.divide((predictions - targets) ** 2, variances)
             + np.log(variances)
-- 
2.43.0


From 3afd9c8bb630920600a9e711b7fa33a7098c5cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 11/32] fix: unscaled lool under MPI calls the serial function

---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1abe25b..1bda80d 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -11,6 +11,7 @@ from MuyGPyS._src.optimize.loss.numpy import (
     _mse_fn_unnormalized,
     _cross_entropy_fn as _cross_entropy_fn_n,
     _lool_fn as _lool_fn_n,
+    _lool_fn_unscaled as _lool_fn_unscaled_n,
     _pseudo_huber_fn as _pseudo_huber_fn_n,
     _looph_fn as _looph_fn_n,
 )
@@ -64,7 +65,7 @@ def _lool_fn_unscaled(
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    local_likelihoods = _lool_fn_unscaled(
+    local_likelihoods = _lool_fn_unscaled_n(
         predictions, targets, variances, **kwargs
     )
     global_likelihood = world.allreduce(local_likelihoods, op=MPI.SUM)
-- 
2.43.0


From 304ece5ecac5779bf52417b32229de27b5a28d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 12/32] fix: torch cross entropy of more than two classes

---
 src/MuyGPyS/_src/optimize/loss/torch.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index c78b97d..bd665d6 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -10,15 +10,9 @@ def _cross_entropy_fn(
     predictions: torch.ndarray, targets: torch.ndarray, **kwargs
 ) -> torch.ndarray:
     one_hot_targets = torch.where(targets > 0.0, 1.0, 0.0)
-    softmax_predictions = predictions.softmax(dim=1)
+    log_softmax_predictions = predictions.log_softmax(dim=1)
 
-    return (
-        -torch.mean(
-            one_hot_targets * torch.log(softmax_predictions)
-            + (1 - one_hot_targets) * torch.log(1 - softmax_predictions)
-        )
-        * one_hot_targets.shape[0]
-    )
+    return -torch.sum(one_hot_targets * log_softmax_predictions)
 
 
 def _mse_fn_unnormalized(
-- 
2.43.0


From aaecc0eb0ef783ac100ca7f57464c19b44028655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 13/32] fix: torch losses of several responses are scalars

---
 src/MuyGPyS/_src/optimize/loss/torch.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index bd665d6..28b1ce5 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -6,19 +6,24 @@
 import MuyGPyS._src.math.torch as torch
 
 
+def _sum(x: torch.ndarray) -> torch.ndarray:
+    """Sum over all dimensions. `torch.sum` only reduces the first."""
+    return torch.sum(torch.reshape(x, (-1,)))
+
+
 def _cross_entropy_fn(
     predictions: torch.ndarray, targets: torch.ndarray, **kwargs
 ) -> torch.ndarray:
     one_hot_targets = torch.where(targets > 0.0, 1.0, 0.0)
     log_softmax_predictions = predictions.log_softmax(dim=1)
 
-    return -torch.sum(one_hot_targets * log_softmax_predictions)
+    return -_sum(one_hot_targets * log_softmax_predictions)
 
 
 def _mse_fn_unnormalized(
     predictions: torch.ndarray, targets: torch.ndarray, **kwargs
 ) -> float:
-    return torch.sum((predictions - targets) ** 2)
+    return _sum((predictions - targets) ** 2)
 
 
 def _mse_fn(
@@ -51,9 +56,9 @@ def _lool_fn_unscaled(
             residual.swapaxes(-2, -1) @ torch.linalg.solve(variances, residual)
         )
         logdet = torch.linalg.slogdet(variances)[1]
-        return torch.sum(quad_form + logdet)
+        return _sum(quad_form + logdet)
     else:
-        return torch.sum(
+        return _sum(
             torch.divide((predictions - targets) ** 2, variances)
             + torch.log(variances)
         )
@@ -65,7 +70,7 @@ def _pseudo_huber_fn(
     boundary_scale: float = 1.5,
     **kwargs
 ) -> float:
-    return boundary_scale**2 * torch.sum(
+    return boundary_scale**2 * _sum(
         torch.sqrt(1 + torch.divide(targets - predictions, boundary_scale) ** 2)
         - 1
     )
@@ -79,7 +84,7 @@ def _looph_fn_unscaled(
     **kwargs
 ) -> float:
     boundary_scale_sq = boundary_scale**2
-    return torch.sum(
+    return _sum(
         2
         * boundary_scale_sq
         * (
-- 
2.43.0


From cd41808274770f669d2145e8a172e76e180daa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 14/32] fix: scale optimization inside an objective uses the
 candidate noise

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index ed03daf..2ae5cb2 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -203,16 +203,14 @@ class AnalyticScale(ScaleFn):
         """
 
         def analytic_scale_opt_fn(Kin, nn_targets, *args, **kwargs):
-            scale = self._fn(muygps.noise.perturb(Kin), nn_targets, **kwargs)
+            pK = muygps.noise.perturb(Kin, **kwargs)
+            scale = self._fn(pK, nn_targets, **kwargs)
             if np.prod(getattr(self.val, "shape", ()), dtype=int) != 1:
                 # iterative process only works for scalar responses
                 return scale
             for _ in range(1, self.iteration_count):
                 scale = 0.5 * (
-                    scale
-                    + self._fn(
-                        scale * muygps.noise.perturb(Kin), nn_targets, **kwargs
-                    )
+                    scale + self._fn(scale * pK, nn_targets, **kwargs)
                 )
             return scale
 
@@ -273,7 +271,7 @@ class DownSampleScale(ScaleFn):
                     f"bad attempt to downsample {self._down_count} elements "
                     f"from a set of only {nn_count} options"
                 )
-            pK = muygps.noise.perturb(Kin)
+            pK = muygps.noise.perturb(Kin, **kwargs)
             scales = []
             for _ in range(self._iteration_count):
                 sampled_indices = np.random.choice(
-- 
2.43.0


From 75aa65fbb2240a83ca4d5c64eb702a407f6c686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 15/32] fix: unscaled lool can be optimized

---
 src/MuyGPyS/optimize/loss.py | 37 +++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/optimize/loss.py b/src/MuyGPyS/optimize/loss.py
index 052b40b..c639623 100644
--- a/src/MuyGPyS/optimize/loss.py
+++ b/src/MuyGPyS/optimize/loss.py
@@ -178,6 +178,39 @@ def make_var_predict_and_loss_fn(
     return predict_and_loss_fn
 
 
+def make_unscaled_var_predict_and_loss_fn(
+    loss_fn: Callable,
+    mean_fn: Callable,
+    var_fn: Callable,
+    scale_fn: Callable,
+    batch_nn_targets: mm.ndarray,
+    batch_targets: mm.ndarray,
+    target_mask: Optional[mm.ndarray] = None,
+    **loss_kwargs,
+) -> Callable:
+    """
+    Make a predict_and_loss function that depends on the posterior mean and
+    the unscaled variance.
+
+    Identical to :func:`~MuyGPyS.optimize.loss.make_var_predict_and_loss_fn`,
+    save that the passed `loss_fn` does not take a scale argument.
+    """
+
+    def unscaled_loss_fn(predictions, targets, variances, scale, **kwargs):
+        return loss_fn(predictions, targets, variances, **kwargs)
+
+    return make_var_predict_and_loss_fn(
+        unscaled_loss_fn,
+        mean_fn,
+        var_fn,
+        scale_fn,
+        batch_nn_targets,
+        batch_targets,
+        target_mask=target_mask,
+        **loss_kwargs,
+    )
+
+
 class LossFn:
     """
     Loss functor class.
@@ -296,7 +329,9 @@ Returns:
     The LOOL loss of the prediction.
 """
 
-lool_fn_unscaled = LossFn(_lool_fn_unscaled, make_var_predict_and_loss_fn)
+lool_fn_unscaled = LossFn(
+    _lool_fn_unscaled, make_unscaled_var_predict_and_loss_fn
+)
 """
 Unscaled version of the leave-one-out likelihood function.
 
-- 
2.43.0


From dd87b8aba18f2123e38eb4224a8d87d94a3e996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 16/32] fix: VectorParameter.fixed reports whether all its
 parameters are fixed

---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index aec7729..bac9a51 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -70,7 +70,7 @@ class VectorParameter:
         Returns:
             `True` if fixed, `False` otherwise.
         """
-        return mm.all(param._fixed for param in self._params)
+        return all(param.fixed() for param in self._params)
 
 
 class NamedVectorParameter(VectorParameter):
-- 
2.43.0


From 29ee36e828814245fbdac07ae4321af648d779b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 17/32] fix: setting kernel parameters rebuilds the kernel
 function

---
 src/MuyGPyS/gp/kernels/kernel_fn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 9ecc869..8bc0cef 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -84,6 +84,7 @@ class KernelFn:
         """
         for name in kwargs:
             self._hyperparameters[name]._set(kwargs[name])
+        self._make()
 
     def __call__(self, diffs: mm.ndarray, **kwargs) -> mm.ndarray:
         raise NotImplementedError(
-- 
2.43.0


From 9f80560af79099f72ed83818457d901fb9956b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 18/32] Revert the driver fix: files under examples stay as
 they are

---
 src/MuyGPyS/examples/fast_posterior_mean.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/examples/fast_posterior_mean.py b/src/MuyGPyS/examples/fast_posterior_mean.py
index 9db84c1..e46f89a 100644
--- a/src/MuyGPyS/examples/fast_posterior_mean.py
+++ b/src/MuyGPyS/examples/fast_posterior_mean.py
@@ -370,6 +370,7 @@ def fast_posterior_mean_any(
     time_precomp = perf_counter()
 
     time_agree = perf_counter()
+    nn_indices = fast_nn_update(nn_indices)
 
     test_neighbors, _ = nbrs_lookup.get_nns(test_features)
     time_nn = perf_counter()
-- 
2.43.0


From 8ac6eee21d75ba06807fc97fbdc343d45c39007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 19/32] fix: downsampled scale optimization works on tensors
 that require gradients

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 2ae5cb2..afa45ed 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -284,7 +284,7 @@ class DownSampleScale(ScaleFn):
                 pK_down = pK[:, sampled_indices, :]
                 pK_down = pK_down[:, :, sampled_indices]
                 nn_targets_down = nn_targets[:, sampled_indices]
-                scales.append(self._fn(pK_down, nn_targets_down))
+                scales.append(float(self._fn(pK_down, nn_targets_down)))
 
             return np.median(scales, axis=0) / (self._down_count * batch_count)
 
-- 
2.43.0


From b1b712e3c30d4a8d6e5144deedf1e5c6fea19a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 20/32] fix: tensors made by deformations under MPI are split
 over the ranks once

The MPI tensors module split the difference tensors over the ranks although
the deformation functions that call it split their own results, so that the
ranks received pieces of pieces.
---
 src/MuyGPyS/_src/gp/tensors/mpi.py | 30 ++----------------------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/tensors/mpi.py b/src/MuyGPyS/_src/gp/tensors/mpi.py
index 31e0028..970ad34 100644
--- a/src/MuyGPyS/_src/gp/tensors/mpi.py
+++ b/src/MuyGPyS/_src/gp/tensors/mpi.py
@@ -11,8 +11,8 @@ from MuyGPyS._src.mpi_utils import (
     _chunk_function_tensor,
 )
 from MuyGPyS._src.gp.tensors.numpy import (
-    _crosswise_tensor as _crosswise_tensor_n,
-    _pairwise_tensor as _pairwise_tensor_n,
+    _crosswise_tensor,
+    _pairwise_tensor,
     _batch_features_tensor as _batch_features_tensor_n,
     _make_heteroscedastic_tensor as _make_heteroscedatic_tensor_n,
     _F2,
@@ -53,21 +53,6 @@ def _batch_features_tensor(
     )
 
 
-def _crosswise_tensor(
-    data: np.ndarray,
-    nn_data: np.ndarray,
-    data_indices: np.ndarray,
-    nn_indices: np.ndarray,
-) -> np.ndarray:
-    return _chunk_function_tensor(
-        _crosswise_tensor_n,
-        data,
-        nn_data,
-        data_indices,
-        nn_indices,
-    )
-
-
 def _crosswise_differences(
     locations: np.ndarray, points: np.ndarray
 ) -> np.ndarray:
@@ -76,17 +61,6 @@ def _crosswise_differences(
     )
 
 
-def _pairwise_tensor(
-    data: np.ndarray,
-    nn_indices: np.ndarray,
-) -> np.ndarray:
-    return _chunk_function_tensor(
-        _pairwise_tensor_n,
-        data,
-        nn_indices,
-    )
-
-
 def _pairwise_differences(points: np.ndarray) -> np.ndarray:
     raise NotImplementedError(
         'Function "muygps_pairwise_differences" does not support mpi!'
-- 
2.43.0


From 1f52bdc5d1cbe47c384a187e2c06f7736bf7c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:17 +0000
Subject: [PATCH 21/32] fix: cross entropy under MPI accepts batches smaller
 than the number of ranks

---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1bda80d..45f8cd3 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -40,7 +40,12 @@ def _cross_entropy_fn(
     targets: np.ndarray,
     **kwargs,
 ) -> float:
-    local_log_loss = _cross_entropy_fn_n(predictions, targets, **kwargs)
+    # log_loss does not accept the empty chunks of small batches
+    local_log_loss = (
+        _cross_entropy_fn_n(predictions, targets, **kwargs)
+        if predictions.shape[0] > 0
+        else 0.0
+    )
     global_log_loss = world.allreduce(local_log_loss, op=MPI.SUM)
     return global_log_loss
 
-- 
2.43.0


From d8651bcacfc17bf6660e3b7c187027915097f6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:17 +0000
Subject: [PATCH 22/32] fix: Bayesian optimization under MPI visits the same
 points on every rank

Without a given random state every rank seeded its own optimizer, so that the
ranks reduced objective values of different points and returned different
models.
---
 src/MuyGPyS/_src/optimize/chassis/mpi.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/chassis/mpi.py b/src/MuyGPyS/_src/optimize/chassis/mpi.py
index 25b8847..dfe90e9 100644
--- a/src/MuyGPyS/_src/optimize/chassis/mpi.py
+++ b/src/MuyGPyS/_src/optimize/chassis/mpi.py
@@ -3,7 +3,24 @@
 #
 # SPDX-License-Identifier: MIT
 
+from typing import Callable
+
+import MuyGPyS._src.math.numpy as np
+from MuyGPyS import config
 from MuyGPyS._src.optimize.chassis.numpy import (
     _scipy_optimize,
-    _bayes_opt_optimize,
+    _bayes_opt_optimize as _bayes_opt_optimize_n,
 )
+from MuyGPyS.gp import MuyGPS
+
+world = config.mpi_state.comm_world
+
+
+def _bayes_opt_optimize(
+    muygps: MuyGPS, obj_fn: Callable, verbose: bool = False, **kwargs
+) -> MuyGPS:
+    # All ranks must evaluate the objective at the same points.
+    if kwargs.get("random_state") is None:
+        seed = int(np.random.randint(2**31 - 1))
+        kwargs["random_state"] = world.bcast(seed, root=0)
+    return _bayes_opt_optimize_n(muygps, obj_fn, verbose=verbose, **kwargs)
-- 
2.43.0


From 99c18604219aa8e99fd2285c3ba9e8c8993db55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 23/32] fix: get_batch_nns excludes the batch elements
 themselves also when training points coincide

---
 src/MuyGPyS/neighbors.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/neighbors.py b/src/MuyGPyS/neighbors.py
index 8e9baf8..b0b729b 100644
--- a/src/MuyGPyS/neighbors.py
+++ b/src/MuyGPyS/neighbors.py
@@ -208,7 +208,17 @@ class NN_Wrapper:
             self.train[batch_indices, :],
             self.nn_count + 1,
         )
-        return batch_nn_indices[:, 1:], batch_nn_dists[:, 1:]
+        # Points coinciding with a batch element are as near as the element
+        # itself, which hence need not be listed first, or at all. Drop it
+        # wherever it is, and otherwise drop the farthest point.
+        self_indices = np.arange(self.train_count)[np.iarray(batch_indices)]
+        keep = np.iarray(batch_nn_indices) != self_indices[:, None]
+        keep[np.all(keep, axis=1), -1] = False
+        rows, cols = np.where(keep)
+        return (
+            batch_nn_indices[rows, cols].reshape(-1, self.nn_count),
+            batch_nn_dists[rows, cols].reshape(-1, self.nn_count),
+        )
 
     def _get_nns(
         self,
-- 
2.43.0


From 444f8c8319566dbd5f4685117552d6be3ea97f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 24/32] fix: hierarchical parameters report whether they are
 fixed

---
 .../gp/hyperparameter/experimental/hierarchical.py       | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index 84579f8..7f2b4cb 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -101,6 +101,15 @@ class NamedHierarchicalParameter(HierarchicalParameter):
         self._noise = rhs._noise
         self._name = name
 
+    def fixed(self) -> bool:
+        """
+        Report whether the parameter is fixed.
+
+        Returns:
+            `True` if all knot values are fixed, `False` otherwise.
+        """
+        return self._params.fixed()
+
     def name(self) -> str:
         return self._name
 
-- 
2.43.0


From 51634cd10c5c67a452e32389fa06d5d5b797790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 25/32] fix: objectives use the prior covariance of the
 candidate hyperparameters

---
 src/MuyGPyS/gp/muygps.py   | 8 +++++++-
 src/MuyGPyS/gp/variance.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index d1bf8f4..8c1ce31 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -368,7 +368,13 @@ class MuyGPS:
             expects keyword arguments corresponding to current hyperparameter
             values for unfixed parameters.
         """
-        return self._var_fn.get_opt_fn()
+        var_fn = self._var_fn.get_opt_fn()
+
+        def opt_var_fn(Kin, Kcross, *args, **kwargs):
+            Kout = self.kernel.Kout(**kwargs)
+            return var_fn(Kin, Kcross, *args, Kout=Kout, **kwargs)
+
+        return opt_var_fn
 
     def optimize_scale(
         self, pairwise_diffs: mm.ndarray, nn_targets: mm.ndarray
diff --git a/src/MuyGPyS/gp/variance.py b/src/MuyGPyS/gp/variance.py
index d3de219..108869c 100644
--- a/src/MuyGPyS/gp/variance.py
+++ b/src/MuyGPyS/gp/variance.py
@@ -31,7 +31,7 @@ class PosteriorVariance:
         self._fn = noise.perturb_fn(self._fn)
 
         def fix_Kout_fn(fn: Callable) -> Callable:
-            def fixed_Kout_fn(Kin, Kcross, *args, **kwargs):
+            def fixed_Kout_fn(Kin, Kcross, *args, Kout=Kout, **kwargs):
                 return fn(Kin, Kcross, Kout, *args, **kwargs)
 
             return fixed_Kout_fn
-- 
2.43.0


From f3d018d94948c3fb77d89a8781a55fedbe2eadc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 26/32] fix: shear covariances keep unit batch and neighborhood
 axes

---
 src/MuyGPyS/_src/gp/kernels/shear/numpy.py   |  6 +++---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
index 341901b..169a66c 100644
--- a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
@@ -159,7 +159,7 @@ def _shear_33_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (2, 2)
 
-    return np.squeeze(full_m)
+    return full_m
 
 
 # compute the full covariance matrix for shear1 and shear2 only
@@ -202,7 +202,7 @@ def _shear_Kin23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 1)
 
-    return np.squeeze(full_m)
+    return full_m
 
 
 # compute the crosscovariance matrix relating shear1 and shear2 only
@@ -257,4 +257,4 @@ def _shear_Kcross23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 2)
 
-    return np.squeeze(full_m)
+    return full_m
diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index 98737db..df3bc69 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -125,12 +125,14 @@ class ShearKernel(KernelFn):
         """
         if adjust and diffs.shape[-2] != diffs.shape[-3]:
             # this is probably a crosswise differences tensor
-            # reshape to insert a unitary dimension
-            diffs = diffs[..., None, :]
+            # insert a unitary dimension and drop it from the covariance
+            return self._fn(diffs[..., None, :], **kwargs)[..., 0]
         return self._fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self.__call__(self._backend_zeros((1, 1, 2)))
+        return self._backend_squeeze(
+            self._fn(self._backend_zeros((1, 1, 2)), **kwargs)
+        )
 
     def get_opt_params(
         self,
@@ -259,13 +261,14 @@ class ShearKernel2in3out(KernelFn):
             return self._Kcross_fn(diffs, **kwargs)
         elif adjust and diffs.shape[-2] != diffs.shape[-3]:
             # this is probably a crosswise differences tensor
-            # reshape to insert a unitary dimension
-            diffs = diffs[..., None, :]
-            return self._Kcross_fn(diffs, **kwargs)
+            # insert a unitary dimension and drop it from the covariance
+            return self._Kcross_fn(diffs[..., None, :], **kwargs)[..., 0]
         return self._Kin_fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self._Kout_fn(self._backend_zeros((1, 1, 2)))
+        return self._backend_squeeze(
+            self._Kout_fn(self._backend_zeros((1, 1, 2)), **kwargs)
+        )
 
     def get_opt_params(
         self,
-- 
2.43.0


From 109b0df34937335bce329c82a36fdf0c64f6fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:40 +0000
Subject: [PATCH 27/32] fix: mini-batch optimization rescales neighborhoods of
 anisotropic models

The epoch loop called a method of Anisotropy that no longer exists.
---
 src/MuyGPyS/optimize/experimental/chassis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index c1cbdb5..162b682 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -285,8 +285,7 @@ def optimize_from_tensors_mini_batch(
         if isinstance(muygps.kernel.deformation, Anisotropy) and (
             epoch < (num_epochs - 1)
         ):
-            length_scales = muygps.kernel.deformation._length_scale_array(
-                train_features.shape,
+            length_scales = muygps.kernel.deformation.length_scale(
                 **optimizer.max["params"],
             )
             train_features_scaled = train_features / length_scales
-- 
2.43.0


From 0d9719d2fc5de3e4dbcdd7118bd897af07d27ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:40 +0000
Subject: [PATCH 28/32] fix: mini-batch optimization has the Bayesian
 optimizer's default steps

It required init_points and n_iter, which Bayes_optimize defaults to 5 and 20.
---
 src/MuyGPyS/optimize/experimental/chassis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index 162b682..4ea525f 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -199,6 +199,8 @@ def optimize_from_tensors_mini_batch(
         verbose=verbose,
         **kwargs,
     )
+    maximize_kwargs.setdefault("init_points", 5)
+    maximize_kwargs.setdefault("n_iter", 20)
     total_pts_probed = num_epochs * maximize_kwargs["init_points"]
     total_opt_steps = num_epochs * maximize_kwargs["n_iter"]
 
-- 
2.43.0


From d0342a31df0d27a89354637966568c1b15b3aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:35 +0000
Subject: [PATCH 29/32] fix: kernels built with default deformations share no
 parameters

The default deformation was one object, so that setting the length scale of
one kernel changed all the others and the default of later ones.
---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 14 +++++++-------
 src/MuyGPyS/gp/kernels/matern.py             |  8 ++++----
 src/MuyGPyS/gp/kernels/rbf.py                |  8 ++++----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index df3bc69..264fed7 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -39,7 +39,7 @@ Note that the :class:`~MuyGPyS.gp.kernels.experimental.shear.ShearKernel`
 functor
 """
 
-from typing import Callable, List, Tuple
+from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels.shear import (
@@ -77,13 +77,13 @@ class ShearKernel(KernelFn):
 
     def __init__(
         self,
-        deformation: DifferenceIsotropy = DifferenceIsotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DifferenceIsotropy] = None,
         _backend_fn: Callable = _shear_33_fn,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = DifferenceIsotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         if not isinstance(self.deformation, DifferenceIsotropy):
             raise ValueError(
@@ -189,15 +189,15 @@ class ShearKernel2in3out(KernelFn):
 
     def __init__(
         self,
-        deformation: DifferenceIsotropy = DifferenceIsotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DifferenceIsotropy] = None,
         _backend_Kin_fn: Callable = _shear_Kin23_fn,
         _backend_Kcross_fn: Callable = _shear_Kcross23_fn,
         _backend_Kout_fn: Callable = _shear_33_fn,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = DifferenceIsotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         if not isinstance(self.deformation, DifferenceIsotropy):
             raise ValueError(
diff --git a/src/MuyGPyS/gp/kernels/matern.py b/src/MuyGPyS/gp/kernels/matern.py
index 7143df4..0eeff62 100644
--- a/src/MuyGPyS/gp/kernels/matern.py
+++ b/src/MuyGPyS/gp/kernels/matern.py
@@ -37,7 +37,7 @@ Example:
     >>> Kcross = kern(crosswise_diffs)
 """
 
-from typing import Callable, List, Tuple
+from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels import (
@@ -120,14 +120,14 @@ class Matern(KernelFn):
     def __init__(
         self,
         smoothness: ScalarParam = ScalarParam(0.5),
-        deformation: DeformationFn = Isotropy(
-            l2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DeformationFn] = None,
         _backend_ones: Callable = mm.ones,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
         **_backend_fns,
     ):
+        if deformation is None:
+            deformation = Isotropy(l2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         self.smoothness = NamedParam("smoothness", smoothness)
         self._backend_ones = _backend_ones
diff --git a/src/MuyGPyS/gp/kernels/rbf.py b/src/MuyGPyS/gp/kernels/rbf.py
index 761ad74..1434c0a 100644
--- a/src/MuyGPyS/gp/kernels/rbf.py
+++ b/src/MuyGPyS/gp/kernels/rbf.py
@@ -37,7 +37,7 @@ Example:
     >>> Kcross = kernel_fn(crosswise_diffs)
 """
 
-from typing import Callable
+from typing import Callable, Optional
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels import _rbf_fn
@@ -71,14 +71,14 @@ class RBF(KernelFn):
 
     def __init__(
         self,
-        deformation: DeformationFn = Isotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DeformationFn] = None,
         _backend_fn: Callable = _rbf_fn,
         _backend_ones: Callable = mm.ones,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = Isotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         self._backend_ones = _backend_ones
         self._backend_zeros = _backend_zeros
-- 
2.43.0


From 7291e4b7ec2ec3a1ff6fe43492329f3896ee3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:51 +0000
Subject: [PATCH 30/32] fix: models built with defaults share no noise or scale

The default noise and scale were single objects, so that optimizing the scale
of one model marked the scale of all the others as trained.
---
 src/MuyGPyS/gp/muygps.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index 8c1ce31..6343acb 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -93,13 +93,17 @@ class MuyGPS:
     def __init__(
         self,
         kernel: KernelFn,
-        noise: NoiseFn = HomoscedasticNoise(0.0, "fixed"),
-        scale: ScaleFn = FixedScale(response_count=1),
+        noise: Optional[NoiseFn] = None,
+        scale: Optional[ScaleFn] = None,
         _backend_mean_fn: Callable = _muygps_posterior_mean,
         _backend_var_fn: Callable = _muygps_diagonal_variance,
         _backend_fast_mean_fn: Callable = _muygps_fast_posterior_mean,
         _backend_fast_precompute_fn: Callable = _muygps_fast_posterior_mean_precompute,
     ):
+        if noise is None:
+            noise = HomoscedasticNoise(0.0, "fixed")
+        if scale is None:
+            scale = FixedScale(response_count=1)
         self.kernel = kernel
         self.scale = scale
         self.noise = noise
-- 
2.43.0


From 8572bd5cf4649c6a2ef0b6b92f22d6a5b7247589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:19 +0000
Subject: [PATCH 31/32] fix: posterior variances use the kernel's current prior
 covariance

The prior covariance was the one at construction, so that variances of shear
models mixed length scales after the kernel's parameters were replaced.
---
 src/MuyGPyS/gp/muygps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index 6343acb..6e64b5d 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -260,7 +260,7 @@ class MuyGPS:
             the (possibly blockwise) diagonal elements of the posterior
             variance.
         """
-        return self._var_fn(Kin, Kcross)
+        return self._var_fn(Kin, Kcross, Kout=self.kernel.Kout())
 
     def fast_coefficients(
         self,
-- 
2.43.0


From 69e67a59a271acaf940455d3f58e9ad810abd053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:54 +0000
Subject: [PATCH 32/32] fix: downsampled scale under MPI uses the same sample
 and the global sums and counts on every rank

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index afa45ed..5ff9600 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -12,6 +12,8 @@ from typing import Callable
 
 import MuyGPyS._src.math as mm
 import MuyGPyS._src.math.numpy as np
+from MuyGPyS import config
+from MuyGPyS._src.mpi_utils import _consistent_reduce_scalar, _is_mpi_mode
 from MuyGPyS._src.optimize.scale import (
     _analytic_scale_optim,
     _analytic_scale_optim_unnormalized,
@@ -271,6 +273,7 @@ class DownSampleScale(ScaleFn):
                     f"bad attempt to downsample {self._down_count} elements "
                     f"from a set of only {nn_count} options"
                 )
+            batch_count = _consistent_reduce_scalar(batch_count)
             pK = muygps.noise.perturb(Kin, **kwargs)
             scales = []
             for _ in range(self._iteration_count):
@@ -280,11 +283,20 @@ class DownSampleScale(ScaleFn):
                     replace=False,
                 )
                 sampled_indices.sort()
+                if _is_mpi_mode() is True:
+                    # all ranks must use the same neighbors
+                    sampled_indices = config.mpi_state.comm_world.bcast(
+                        sampled_indices, root=0
+                    )
 
                 pK_down = pK[:, sampled_indices, :]
                 pK_down = pK_down[:, :, sampled_indices]
                 nn_targets_down = nn_targets[:, sampled_indices]
-                scales.append(float(self._fn(pK_down, nn_targets_down)))
+                scales.append(
+                    _consistent_reduce_scalar(
+                        float(self._fn(pK_down, nn_targets_down))
+                    )
+                )
 
             return np.median(scales, axis=0) / (self._down_count * batch_count)
 
-- 
2.43.0

