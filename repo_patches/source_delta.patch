From bb3bd62af1882713a08d472426a325a384ed58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 1/7] fix: accept supervised data in KernelHerding and
 SteinThinning

The greedy selection loop unpacked the leaves of the dataset into exactly
two arrays, so any SupervisedData (three leaves) raised a ValueError.
---
 coreax/solvers/coresubset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index bc1198b..bfd7640 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -24,7 +24,6 @@ import jax
 import jax.numpy as jnp
 import jax.random as jr
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, ArrayLike, Bool, Float, Scalar, Shaped
 from typing_extensions import override
 
@@ -161,7 +160,8 @@ def _greedy_kernel_selection(
     # The kernel similarity penalty must be computed for the initial coreset. If we did
     # not support refinement, the penalty could be initialised to the zeroes vector, and
     # the result would be invariant to the initial coresubset.
-    data, data_weights = jtu.tree_leaves(coresubset.pre_coreset_data)
+    pre_coreset_data = coresubset.pre_coreset_data
+    data, data_weights = pre_coreset_data.data, pre_coreset_data.weights
     init_kernel_similarity_penalty = init_coreset_size * kernel.compute_mean(
         data,
         padded_coresubset.points,
@@ -502,7 +502,8 @@ class SteinThinning(
         :return: A refined coresubset and relevant intermediate solver state
             information.
         """
-        x, w_x = jtu.tree_leaves(coresubset.pre_coreset_data)
+        dataset = coresubset.pre_coreset_data
+        x, w_x = dataset.data, dataset.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
         stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
         if self.regularise:
-- 
2.43.0


From 39dab52a561dac03980a6fe1efe87e6a7321cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 2/7] fix: exclude zero-weighted points from probabilistic
 KernelHerding

The residual of a zero-weighted point is NaN, which the softmax spread to
every probability, so that index zero was returned at every iteration.
---
 coreax/solvers/coresubset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index bfd7640..81fc593 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -342,6 +342,10 @@ class KernelHerding(
 
             # Apply softmax to the metric for probabilistic selection
             if self.probabilistic:
+                # Zero-weighted (NaN) candidates must have zero selection probability
+                valid_residuals = jnp.where(
+                    jnp.isnan(valid_residuals), -jnp.inf, valid_residuals
+                )
                 probs = jax.nn.softmax(valid_residuals / self.temperature)
                 key = jr.fold_in(self.random_key, i)
                 return jr.choice(
-- 
2.43.0


From 76adfe5537524173051396f976a61346d90ebf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 3/7] fix: give the constant kernel gradients the shape of its
 inputs

A scalar zero gradient made ProductKernel.divergence_x_grad_y_elementwise
of a rescaled kernel return a d-vector rather than a scalar.
---
 coreax/kernels/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 0e4b74d..00f9ac5 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -608,11 +608,11 @@ class _Constant(ScalarValuedKernel):
 
     @override
     def grad_x_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros(jnp.shape(x))
 
     @override
     def grad_y_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros(jnp.shape(y))
 
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
-- 
2.43.0


From d407a27a7cc33bd949a5af9d0bf948f769e04ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:53 +0000
Subject: [PATCH 4/7] fix: avoid NaN divergence of PowerKernel with unit power

(n - 1) * k ** (n - 2) is 0 * inf when n = 1 and k(x, y) = 0.
---
 coreax/kernels/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 00f9ac5..960961e 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -683,6 +683,9 @@ class PowerKernel(UniCompositeKernel, ScalarValuedKernel):
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
         n = self.power
+        if n == 1:
+            # Avoid '0 * compute ** -1', which is undefined where the kernel is zero
+            return self.base_kernel.divergence_x_grad_y_elementwise(x, y)
         compute = self.base_kernel.compute_elementwise(x, y)
         return n * (
             (
-- 
2.43.0


From 525d97d76bd78a3fce67ba80b9fa3bd9aa0d50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:58 +0000
Subject: [PATCH 5/7] fix: accept supervised reference data in KSD

The reference dataset's leaves were unpacked into exactly two arrays, so a
SupervisedData reference (three leaves) raised a ValueError.
---
 coreax/metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coreax/metrics.py b/coreax/metrics.py
index 7848bc5..cfde3b5 100644
--- a/coreax/metrics.py
+++ b/coreax/metrics.py
@@ -30,7 +30,6 @@ import equinox as eqx
 import jax
 import jax.numpy as jnp
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, Shaped
 
 import coreax.util
@@ -246,7 +245,7 @@ class KSD(Metric[Data]):
         """
         del kwargs
         # Train Stein kernel with data from P
-        x, w_x = jtu.tree_leaves(reference_data)
+        x, w_x = reference_data.data, reference_data.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
 
         # Variable rename allows for nicer automatic formatting.
-- 
2.43.0


From 4922324f97663aca91720f7229001282e800e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:17 +0000
Subject: [PATCH 6/7] fix: keep the indices of TreeRecombination within the
 dataset

Zero-weighted padding introduced indices beyond the end of the dataset, which
the implicit mode returned as coresubset indices.
---
 coreax/solvers/recombination.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index a89579d..1d68e88 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -559,7 +559,9 @@ class TreeRecombination(RecombinationSolver[Data, None]):
             updated_indices = _indices[weight_update_indices.reshape(-1, order="F")]
             return updated_weights.reshape(-1, order="F"), updated_indices
 
-        in_state = (jnp.pad(weights, (0, padding)), jnp.arange(n + padding))
+        # Zero-weighted padding refers to the last node, so that every index is valid.
+        padded_indices = jnp.minimum(jnp.arange(n + padding), n - 1)
+        in_state = (jnp.pad(weights, (0, padding)), padded_indices)
         out_weights, indices = jax.lax.fori_loop(0, depth, _tree_reduce, in_state)
         coresubset_nodes = _coresubset_nodes(
             push_forward_nodes, out_weights, indices, self.mode
-- 
2.43.0


From a30192b13bc9b8b58af875cbe649f07350cfa198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:25 +0000
Subject: [PATCH 7/7] fix: count the halvings of KernelThinning exactly

The difference of two floating-point logarithms can fall just below an
integer (n=28, coreset_size=7), which dropped one halving and ignored half
of the dataset.
---
 coreax/solvers/coresubset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 81fc593..9d0a953 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1379,7 +1379,7 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
         if self.coreset_size > len(dataset):
             raise ValueError(MSG)
         n = len(dataset)
-        m = math.floor(math.log2(n) - math.log2(self.coreset_size))
+        m = (n // self.coreset_size).bit_length() - 1
         clipped_original_dataset = dataset[: self.coreset_size * 2**m]
 
         partition = self.kt_half_recursive(clipped_original_dataset, m, dataset)
-- 
2.43.0

