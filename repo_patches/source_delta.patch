From 67815a1d71925dc400adddcc73e80be1c8ab004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 01/26] fix: ema(debias=False) returned the raw updates instead
 of the moving average

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8f5a6ad..8ffdd83 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -125,8 +125,8 @@ def ema(
     del params
     new_ema = _update_moment(updates, state.ema, decay, order=1)
     count_inc = utils.safe_int32_increment(state.count)
-    if debias:
-      updates = _bias_correction(new_ema, decay, count_inc)
+    updates = (
+        _bias_correction(new_ema, decay, count_inc) if debias else new_ema)
     new_ema = utils.cast_tree(new_ema, accumulator_dtype)
     return updates, EmaState(count=count_inc, ema=new_ema)
 
-- 
2.43.0


From 9eb45df0894d0ea8c20de7bb5d1dcd6dd619b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 02/26] fix: scale_by_sm3 crashed on scalar parameters

---
 optax/_src/transform.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 8ffdd83..18b3e07 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -745,7 +745,8 @@ def scale_by_sm3(
   """
 
   def zeros_for_dim(p):
-    return [jnp.zeros([s]) for s in p.shape]
+    # Scalars keep a single accumulator.
+    return [jnp.zeros([s]) for s in p.shape or (1,)]
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
@@ -756,6 +757,8 @@ def scale_by_sm3(
     # Replaces a `shape` of [M, N, K] with 1 in all dimensions except for i.
     # For eg: i = 1 returns [1, N, 1].
     rank = len(shape)
+    if rank == 0:
+      return []
     return [1] * axis + [shape[axis]] + [1] * (rank - axis - 1)
 
   def _new_accum(g, v):
@@ -767,7 +770,7 @@ def scale_by_sm3(
 
   def _new_mu(g, i):
     if g.ndim < 2:
-      return g
+      return jnp.reshape(g, [-1])
     else:
       return jnp.max(g, axis=other_axes(i, g.ndim))
 
@@ -778,7 +781,7 @@ def scale_by_sm3(
     del params
     mu = jax.tree_multimap(
         lambda g, v:  # pylint:disable=g-long-lambda
-        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(g.ndim)],
+        [jnp.reshape(v[i], _expanded_shape(g.shape, i)) for i in range(len(v))],
         updates, state.mu)
     accum = jax.tree_multimap(_new_accum, updates, mu)
     accum_inv_sqrt = jax.tree_map(
@@ -786,7 +789,7 @@ def scale_by_sm3(
     up = jax.tree_multimap(lambda g, a: g*a, updates, accum_inv_sqrt)
     nu = _update_moment(up, state.nu, b1, 1)
     mu = jax.tree_map(
-        lambda g: [_new_mu(g, i) for i in range(g.ndim)], accum)
+        lambda g: [_new_mu(g, i) for i in range(max(g.ndim, 1))], accum)
 
     return nu, ScaleBySM3State(mu=mu, nu=nu)
 
-- 
2.43.0


From 24504683db0ef2d85fb8b252fce609e353213ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 03/26] fix: scale_by_sm3 kept float32 accumulators (and
 returned float32 updates) for other dtypes

---
 optax/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 18b3e07..138b4af 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -746,7 +746,7 @@ def scale_by_sm3(
 
   def zeros_for_dim(p):
     # Scalars keep a single accumulator.
-    return [jnp.zeros([s]) for s in p.shape or (1,)]
+    return [jnp.zeros([s], dtype=p.dtype) for s in p.shape or (1,)]
 
   def init_fn(params):
     mu = jax.tree_map(zeros_for_dim, params)
-- 
2.43.0


From ba1f3b84e63441b5d39eade8eaf684250c3e8c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 04/26] fix: scale_by_sm3 branched in Python on b2, which may
 be a traced hyperparameter

---
 optax/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 138b4af..3d91366 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -762,7 +762,7 @@ def scale_by_sm3(
     return [1] * axis + [shape[axis]] + [1] * (rank - axis - 1)
 
   def _new_accum(g, v):
-    coeffs = ((1.0 - b2) if b2 != 1.0 else 1.0, b2)
+    coeffs = (jnp.where(b2 != 1.0, 1.0 - b2, 1.0), b2)
     if g.ndim < 2:
       return coeffs[0]*g**2 + coeffs[1]*v[0]
     else:
-- 
2.43.0


From d7edff364df232c5bbc675025f9378e610463353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 05/26] fix: masked dropped or failed on params that are falsy
 or a bare array

---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index d37ff78..820ead0 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -323,7 +323,7 @@ def masked(
     flat_updates = treedef.flatten_up_to(updates)
     masked_updates = [g for g, m in zip(flat_updates, flat_mask) if m]
 
-    if params:
+    if params is not None:
       flat_params = treedef.flatten_up_to(params)
       masked_params = [p for p, m in zip(flat_params, flat_mask) if m]
     else:
-- 
2.43.0


From 3ba36536fb0956942e2ee558545e398ede73457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 06/26] fix: MultiSteps did not pass params to the wrapped
 optimiser

---
 optax/_src/wrappers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index 820ead0..afa044a 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -229,7 +229,6 @@ class MultiSteps:
 
   def update(self, grads: Any, state: MultiStepsState, params: Any = None):
     """Accumulates gradients and proposes non-zero updates every `k_steps`."""
-    del params
     k_steps = self._every_k_schedule(state.gradient_step)
     acc_grads = jax.tree_util.tree_multimap(lambda a, b: a + b, grads,
                                             state.acc_grads)
@@ -241,7 +240,7 @@ class MultiSteps:
       else:
         grads_for_update = acc_grads
       updates, new_inner_state = self._opt.update(
-          grads_for_update, state.inner_opt_state)
+          grads_for_update, state.inner_opt_state, params)
       new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
                                   gradient_step=state.gradient_step + 1,
                                   inner_opt_state=new_inner_state,
-- 
2.43.0


From 703760efa75aa0b8b2992f53165f99387b63c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 07/26] fix: step counters in wrappers wrapped around at the
 largest int32

---
 optax/_src/wrappers.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index afa044a..73d3d13 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -25,6 +25,7 @@ from jax.tree_util import tree_unflatten
 import numpy as np
 
 from optax._src import base
+from optax._src import numerics
 
 Array = jnp.ndarray
 PyTree = Any
@@ -125,9 +126,9 @@ def apply_if_finite(
 
   def init(params):
     return ApplyIfFiniteState(
-        notfinite_count=jnp.zeros([], jnp.int64),
+        notfinite_count=jnp.zeros([], jnp.int32),
         last_finite=jnp.array(True, jnp.bool_),
-        total_notfinite=jnp.zeros([], jnp.int64),
+        total_notfinite=jnp.zeros([], jnp.int32),
         inner_state=inner.init(params))
 
   def update(updates, state, params=None):
@@ -135,8 +136,9 @@ def apply_if_finite(
     flat_updates = tree_flatten(updates)[0]
     isfinite = jnp.all(
         jnp.array([jnp.all(jnp.isfinite(p)) for p in flat_updates]))
-    notfinite_count = jnp.where(isfinite, jnp.zeros([], jnp.int64),
-                                1 + state.notfinite_count)
+    notfinite_count = jnp.where(isfinite, jnp.zeros([], jnp.int32),
+                                numerics.safe_int32_increment(
+                                    state.notfinite_count))
 
     def do_update(_):
       return inner.update(updates, inner_state, params)
@@ -150,7 +152,9 @@ def apply_if_finite(
     return updates, ApplyIfFiniteState(
         notfinite_count=notfinite_count,
         last_finite=isfinite,
-        total_notfinite=jnp.logical_not(isfinite) + state.total_notfinite,
+        total_notfinite=jnp.where(isfinite, state.total_notfinite,
+                                  numerics.safe_int32_increment(
+                                      state.total_notfinite)),
         inner_state=new_inner_state)
 
   return base.GradientTransformation(init=init, update=update)
@@ -221,8 +225,8 @@ class MultiSteps:
     return self._opt
 
   def init(self, params: Any) -> MultiStepsState:
-    init_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
-                                 gradient_step=jnp.zeros([], dtype=jnp.int64),
+    init_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int32),
+                                 gradient_step=jnp.zeros([], dtype=jnp.int32),
                                  inner_opt_state=self._opt.init(params),
                                  acc_grads=_zeros_tree_like(params))
     return init_state
@@ -241,8 +245,9 @@ class MultiSteps:
         grads_for_update = acc_grads
       updates, new_inner_state = self._opt.update(
           grads_for_update, state.inner_opt_state, params)
-      new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int64),
-                                  gradient_step=state.gradient_step + 1,
+      new_state = MultiStepsState(mini_step=jnp.zeros([], dtype=jnp.int32),
+                                  gradient_step=numerics.safe_int32_increment(
+                                      state.gradient_step),
                                   inner_opt_state=new_inner_state,
                                   acc_grads=_zeros_tree_like(acc_grads))
       return updates, new_state
@@ -366,7 +371,7 @@ def maybe_update(
   Args:
     inner: the inner transformation.
     should_update_fn: this function takes in a step counter (array of shape []
-      and dtype int64), and returns a boolean array of shape [].
+      and dtype int32), and returns a boolean array of shape [].
 
   Returns:
     An `optax.GradientTransformation`.
@@ -374,7 +379,7 @@ def maybe_update(
 
   def init_fn(params):
     return MaybeUpdateState(inner_state=inner.init(params),
-                            step=jnp.zeros([], dtype=jnp.int64))
+                            step=jnp.zeros([], dtype=jnp.int32))
 
   def update_fn(updates, state, params=None):
 
@@ -386,7 +391,8 @@ def maybe_update(
 
     updates, new_inner_state = lax.cond(
         should_update_fn(state.step), do_update, reject_update, operand=None)
-    return updates, MaybeUpdateState(new_inner_state, state.step + 1)
+    return updates, MaybeUpdateState(
+        new_inner_state, numerics.safe_int32_increment(state.step))
 
   return base.GradientTransformation(init_fn, update_fn)
 
-- 
2.43.0


From 1693f572e3b1bbc28e801b4f1b06bc2dcecce440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 08/26] fix: lookahead passed the pair of slow and fast params
 to the fast optimizer

---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 7f84f2b..1f6ec30 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -114,7 +114,7 @@ def lookahead(
       updates: base.Updates, state: LookaheadState,
       params: LookaheadParams) -> Tuple[LookaheadParams, LookaheadState]:
     updates, fast_state = fast_optimizer.update(updates, state.fast_state,
-                                                params)
+                                                params.fast)
 
     sync_next = (state.steps_since_sync == sync_period - 1)
     updates = _lookahead_update(updates, sync_next, params, slow_step_size)
-- 
2.43.0


From d9ef40f9ef37c0a89ed0c8855218e6a3a6c6f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 09/26] fix: lookahead state reset kept non-finite values and
 changed boolean state

---
 optax/_src/lookahead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 1f6ec30..58ab7ee 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -123,7 +123,7 @@ def lookahead(
       # synchronized after this update step.
       initial_state = fast_optimizer.init(params.fast)
       fast_state = jax.tree_multimap(
-          lambda current, init: (1 - sync_next) * current + sync_next * init,
+          lambda current, init: jnp.where(sync_next, init, current),
           fast_state, initial_state)
 
     steps_since_sync = (state.steps_since_sync + 1) % sync_period
-- 
2.43.0


From f42d0903e609f61f0d1c5f5c0d149c360df771ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 10/26] fix: lookahead moved slow params to NaN on a non-finite
 update between syncs

---
 optax/_src/lookahead.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/optax/_src/lookahead.py b/optax/_src/lookahead.py
index 58ab7ee..b9e5af7 100644
--- a/optax/_src/lookahead.py
+++ b/optax/_src/lookahead.py
@@ -182,11 +182,12 @@ def _lookahead_update(
   #                  1 - slow_step_size) * sync_next * last_difference
   last_difference = jax.tree_multimap(lambda f, u, s: f + u - s, params.fast,
                                       updates, params.slow)
-  slow_updates = jax.tree_map(lambda diff: slow_step_size * sync_next * diff,
-                              last_difference)
-  fast_updates = jax.tree_multimap(
-      lambda up, diff: up - sync_next * (1 - slow_step_size) * diff, updates,
+  slow_updates = jax.tree_map(
+      lambda diff: jnp.where(sync_next, slow_step_size * diff, 0),
       last_difference)
+  fast_updates = jax.tree_multimap(
+      lambda up, diff: jnp.where(sync_next, up - (1 - slow_step_size) * diff,
+                                 up), updates, last_difference)
 
   return LookaheadParams(fast=fast_updates, slow=slow_updates)
 
-- 
2.43.0


From ee00f38c456ac21a1fafed8f0fd4f34506ea9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 11/26] fix: apply_every kept a non-finite gradient in its sum
 for ever

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 3d91366..37d47d5 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -679,9 +679,9 @@ def apply_every(
     c = state.count % k
     acc = c != 0
     grad_acc = jax.tree_multimap(
-        lambda g, ga: acc * ga + g, updates, state.grad_acc)
+        lambda g, ga: jnp.where(acc, ga, 0) + g, updates, state.grad_acc)
     emit = c == (k - 1)
-    updates = jax.tree_map(lambda ga: emit * ga, grad_acc)
+    updates = jax.tree_map(lambda ga: jnp.where(emit, ga, 0), grad_acc)
     count_inc = numerics.safe_int32_increment(state.count)
     return updates, ApplyEvery(count=count_inc % k, grad_acc=grad_acc)
 
-- 
2.43.0


From d707c566002b4b1530202d915f681945dce980ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 12/26] fix: add_noise used the variance as the standard
 deviation of its noise

---
 optax/_src/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index 37d47d5..b49ad68 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -633,13 +633,13 @@ def add_noise(
     num_vars = len(jax.tree_leaves(updates))
     treedef = jax.tree_structure(updates)
     count_inc = numerics.safe_int32_increment(state.count)
-    variance = eta / count_inc**gamma
+    standard_deviation = jnp.sqrt(eta / count_inc**gamma)
     all_keys = jax.random.split(state.rng_key, num=num_vars + 1)
     noise = jax.tree_multimap(
         lambda g, k: jax.random.normal(k, shape=g.shape, dtype=g.dtype),
         updates, jax.tree_unflatten(treedef, all_keys[1:]))
     updates = jax.tree_multimap(
-        lambda g, n: g + variance.astype(g.dtype) * n,
+        lambda g, n: g + standard_deviation.astype(g.dtype) * n,
         updates, noise)
     return updates, AddNoiseState(count=count_inc, rng_key=all_keys[0])
 
-- 
2.43.0


From cce4dccfa1a4a8e735c791d0a81859a265afd747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 13/26] fix: noisy_sgd added its noise to the scaled update
 instead of the gradients

---
 optax/_src/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/alias.py b/optax/_src/alias.py
index 2e61aa7..08625f8 100644
--- a/optax/_src/alias.py
+++ b/optax/_src/alias.py
@@ -275,8 +275,8 @@ def noisy_sgd(
     the corresponding `GradientTransformation`.
   """
   return combine.chain(
-      _scale_by_learning_rate(learning_rate),
       transform.add_noise(eta, gamma, seed),
+      _scale_by_learning_rate(learning_rate),
   )
 
 
-- 
2.43.0


From 5aac89f5d89113ca105f4d0b4673e05cb45d57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 14/26] fix: power_iteration read and advanced numpy's global
 random state

---
 optax/_src/linear_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 5e25b0f..4f857bb 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -70,7 +70,8 @@ def power_iteration(
             jnp.greater(jnp.abs(s_new - s), error_tolerance))
 
   # Figure out how to use step as seed for random.
-  v_0 = np.random.uniform(-1.0, 1.0, matrix_size).astype(matrix.dtype)
+  v_0 = np.random.RandomState(0).uniform(
+      -1.0, 1.0, matrix_size).astype(matrix.dtype)
 
   init_state = tuple([0, v_0, jnp.zeros([], dtype=matrix.dtype), v_0, True])
   _, v_out, s_out, _, _ = lax.while_loop(
-- 
2.43.0


From ca3cf77d9643e319890f571cca9d07d84b7791cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 15/26] fix: matrix_inverse_pth_root was wrong for p other than
 1, 2, 4 and 8

---
 optax/_src/linear_algebra.py | 41 ++++++++++--------------------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/optax/_src/linear_algebra.py b/optax/_src/linear_algebra.py
index 4f857bb..00d02fe 100644
--- a/optax/_src/linear_algebra.py
+++ b/optax/_src/linear_algebra.py
@@ -123,28 +123,8 @@ def matrix_inverse_pth_root(
       error_tolerance=1e-6, precision=precision)
   ridge_epsilon = ridge_epsilon * jnp.maximum(max_ev, 1e-16)
 
-  def _unrolled_mat_pow_1(mat_m):
-    """Computes mat_m^1."""
-    return mat_m
-
-  def _unrolled_mat_pow_2(mat_m):
-    """Computes mat_m^2."""
-    return jnp.matmul(mat_m, mat_m, precision=precision)
-
-  def _unrolled_mat_pow_4(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_2 = _unrolled_mat_pow_2(mat_m)
-    return jnp.matmul(
-        mat_pow_2, mat_pow_2, precision=precision)
-
-  def _unrolled_mat_pow_8(mat_m):
-    """Computes mat_m^4."""
-    mat_pow_4 = _unrolled_mat_pow_4(mat_m)
-    return jnp.matmul(
-        mat_pow_4, mat_pow_4, precision=precision)
-
   def mat_power(mat_m, p):
-    """Computes mat_m^p, for p == 1, 2, 4 or 8.
+    """Computes mat_m^p by repeated squaring.
 
     Args:
       mat_m: a square matrix
@@ -153,15 +133,16 @@ def matrix_inverse_pth_root(
     Returns:
       mat_m^p
     """
-    # We unrolled the loop for performance reasons.
-    exponent = jnp.round(jnp.log2(p))
-    return lax.switch(
-        jnp.asarray(exponent, jnp.int32), [
-            _unrolled_mat_pow_1,
-            _unrolled_mat_pow_2,
-            _unrolled_mat_pow_4,
-            _unrolled_mat_pow_8,
-        ], (mat_m))
+    def _square_and_multiply(state):
+      p, power, mat_m = state
+      power = jnp.where(
+          p % 2 == 1, jnp.matmul(mat_m, power, precision=precision), power)
+      return p // 2, power, jnp.matmul(mat_m, mat_m, precision=precision)
+
+    _, power, _ = lax.while_loop(
+        lambda state: state[0] > 0, _square_and_multiply,
+        (jnp.asarray(p, jnp.int32), identity, mat_m))
+    return power
 
   def _iter_condition(state):
     (i, unused_mat_m, unused_mat_h, unused_old_mat_h, error,
-- 
2.43.0


From d8cd249a2fdeecc3880de00cfca130ddf2872451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 16/26] fix: scale_by_radam could not be compiled for
 half-precision gradients

---
 optax/_src/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/transform.py b/optax/_src/transform.py
index b49ad68..ea4bfc8 100644
--- a/optax/_src/transform.py
+++ b/optax/_src/transform.py
@@ -457,7 +457,8 @@ def scale_by_radam(
     nu_hat = params[2]
     r = jnp.sqrt((ro - 4)*(ro - 2)*ro_inf/((ro_inf - 4)*(ro_inf - 2)*ro))
     updates = jax.tree_multimap(
-        lambda m, v: r*m / (jnp.sqrt(v + eps_root) + eps), mu_hat, nu_hat)
+        lambda m, v: (r*m / (jnp.sqrt(v + eps_root) + eps)).astype(m.dtype),
+        mu_hat, nu_hat)
     return updates
 
   def init_fn(params):
-- 
2.43.0


From 91abb94595ae8162de894b67a9f11dd74aaed95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 17/26] fix: clip_by_global_norm changed leaf dtypes of
 mixed-precision trees

---
 optax/_src/clipping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/clipping.py b/optax/_src/clipping.py
index e571a9e..33cc8d1 100644
--- a/optax/_src/clipping.py
+++ b/optax/_src/clipping.py
@@ -76,7 +76,8 @@ def clip_by_global_norm(max_norm) -> base.GradientTransformation:
     # updates = jax.tree_map(lambda t: (t / g_norm) * max_norm, updates)
     trigger = g_norm < max_norm
     updates = jax.tree_map(
-        lambda t: jnp.where(trigger, t, (t / g_norm) * max_norm), updates)
+        lambda t: jnp.where(
+            trigger, t, (t / g_norm.astype(t.dtype)) * max_norm), updates)
     return updates, state
 
   return base.GradientTransformation(init_fn, update_fn)
-- 
2.43.0


From 8143b52cdd4f8e4f24b1518a02c321ded55d814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 18/26] fix: flatten changed leaf dtypes of mixed-precision
 trees

---
 optax/_src/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optax/_src/wrappers.py b/optax/_src/wrappers.py
index 73d3d13..8f5fa0d 100644
--- a/optax/_src/wrappers.py
+++ b/optax/_src/wrappers.py
@@ -64,7 +64,7 @@ def flatten(
     del offsets[-1]
     flat_split = jnp.split(flat, offsets)
     reshaped = [
-        jnp.reshape(flat_update, update.shape)
+        jnp.reshape(flat_update, update.shape).astype(update.dtype)
         for flat_update, update in zip(flat_split, updates_flat)
     ]
     return tree_unflatten(treedef, reshaped)
-- 
2.43.0


From c6a55e18e7e4ff1a0f7bd1cc3562903b7e403cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 19/26] fix: differentially_private_aggregate changed dtypes of
 mixed-precision trees

---
 optax/_src/privacy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/privacy.py b/optax/_src/privacy.py
index 8c1b103..ef8995f 100644
--- a/optax/_src/privacy.py
+++ b/optax/_src/privacy.py
@@ -70,7 +70,8 @@ def differentially_private_aggregate(
     new_key, *rngs = jax.random.split(state.rng_key, len(grads_flat)+1)
     global_grad_norms = jax.vmap(linear_algebra.global_norm)(grads_flat)
     divisors = jnp.maximum(global_grad_norms / l2_norm_clip, 1.0)
-    clipped = [(jnp.moveaxis(g, 0, -1) / divisors).sum(-1) for g in grads_flat]
+    clipped = [(jnp.moveaxis(g, 0, -1) / divisors.astype(g.dtype)).sum(-1)
+               for g in grads_flat]
     noised = [(g + noise_std * jax.random.normal(r, g.shape, g.dtype)) / bsize
               for g, r in zip(clipped, rngs)]
     return (jax.tree_unflatten(grads_treedef, noised),
-- 
2.43.0


From 1e299699c4394d5634f0cb4b38b344d6bbc376b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 20/26] fix: piecewise_interpolate_schedule was NaN everywhere
 with a boundary at step 0

---
 optax/_src/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index 0503bd0..bf1776a 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -280,6 +280,8 @@ def piecewise_interpolate_schedule(
   bounds = jnp.stack((0,) + boundaries)
   values = jnp.cumprod(jnp.stack((init_value,) + scales))
   interval_sizes = (bounds[1:] - bounds[:-1])
+  # No step falls in an empty interval, but 0 / 0 would make every value NaN.
+  interval_sizes = jnp.where(interval_sizes == 0, 1, interval_sizes)
 
   def schedule(count):
     indicator = (bounds[:-1] <= count) & (count < bounds[1:])
-- 
2.43.0


From 1c138948adac5ce4c2eceb5a7ddc30042ba0b7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 21/26] fix: one-cycle schedules lost a scale when two of their
 boundaries coincide

---
 optax/_src/schedule.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/optax/_src/schedule.py b/optax/_src/schedule.py
index bf1776a..7f75695 100644
--- a/optax/_src/schedule.py
+++ b/optax/_src/schedule.py
@@ -292,6 +292,14 @@ def piecewise_interpolate_schedule(
   return schedule
 
 
+def _merge_scales(boundaries_and_scales):
+  """Builds a dict from pairs, multiplying the scales of equal boundaries."""
+  merged = {}
+  for boundary, scale in boundaries_and_scales:
+    merged[boundary] = merged.get(boundary, 1.) * scale
+  return merged
+
+
 def linear_onecycle_schedule(
     transition_steps: int,
     peak_value: float,
@@ -329,9 +337,10 @@ def linear_onecycle_schedule(
   return piecewise_interpolate_schedule(
       'linear',
       peak_value / div_factor,
-      {int(pct_start * transition_steps): div_factor,
-       int(pct_final * transition_steps): 1. / div_factor,
-       transition_steps: 1. / final_div_factor})
+      _merge_scales([
+          (int(pct_start * transition_steps), div_factor),
+          (int(pct_final * transition_steps), 1. / div_factor),
+          (transition_steps, 1. / final_div_factor)]))
 
 
 def cosine_onecycle_schedule(
@@ -368,8 +377,9 @@ def cosine_onecycle_schedule(
   return piecewise_interpolate_schedule(
       'cosine',
       peak_value / div_factor,
-      {int(pct_start * transition_steps): div_factor,
-       int(transition_steps): 1. / (div_factor * final_div_factor)})
+      _merge_scales([
+          (int(pct_start * transition_steps), div_factor),
+          (int(transition_steps), 1. / (div_factor * final_div_factor))]))
 
 
 def join_schedules(schedules: Sequence[base.Schedule],
-- 
2.43.0


From c8b067dd02c50e61064e7774ee9886ae32316937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 22/26] fix: hessian_diag failed for params that are not
 float32

---
 optax/_src/second_order.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optax/_src/second_order.py b/optax/_src/second_order.py
index 6793dbc..748b07f 100644
--- a/optax/_src/second_order.py
+++ b/optax/_src/second_order.py
@@ -84,7 +84,8 @@ def hessian_diag(
     A DeviceArray corresponding to the product to the Hessian of `loss`
     evaluated at `(params, inputs, targets)`.
   """
-  vs = jnp.eye(ravel(params).size)
+  flat_params = ravel(params)
+  vs = jnp.eye(flat_params.size, dtype=flat_params.dtype)
   comp = lambda v: jnp.vdot(v, ravel(hvp(loss, v, params, inputs, targets)))
   return jax.vmap(comp)(vs)
 
-- 
2.43.0


From 59d9a4fb2a4308040a4607888d0087b1999421ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 23/26] fix: moving_avg_baseline debiased its own debiased
 average again

---
 optax/_src/control_variates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optax/_src/control_variates.py b/optax/_src/control_variates.py
index f2e8c46..e5add19 100644
--- a/optax/_src/control_variates.py
+++ b/optax/_src/control_variates.py
@@ -193,6 +193,9 @@ def moving_avg_baseline(
       iteration_decay = decay
 
     updated_value = iteration_decay * value
+    if zero_debias:
+      # The state holds the debiased average, undo its correction first.
+      updated_value *= jnp.ones([]) - jnp.power(iteration_decay, i)
     updated_value += (1 - iteration_decay) * jnp.mean(
         jax.vmap(function)(samples))
 
-- 
2.43.0


From d3571cb346d6ab76f9410f3a93526e89cc61d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 24/26] fix: control variate coefficients were estimated with
 the state before its update

---
 optax/_src/control_variates.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/optax/_src/control_variates.py b/optax/_src/control_variates.py
index e5add19..8c22d47 100644
--- a/optax/_src/control_variates.py
+++ b/optax/_src/control_variates.py
@@ -275,13 +275,6 @@ def control_variates_jacobians(
   control_variate = control_variate_from_function(function)
   stochastic_cv, expected_value_cv, update_state_cv = control_variate
   data_dim = params[0].shape[0]
-  if estimate_cv_coeffs:
-    cv_coeffs = estimate_control_variate_coefficients(
-        function, control_variate_from_function, grad_estimator, params,
-        dist_builder, rng, estimate_cv_coeffs_num_samples,
-        control_variate_state)
-  else:
-    cv_coeffs = [1.0] * len(params)
 
   # \int \nabla_{\theta} {p(x; \theta)} (f(x) - h(x; \theta)) dx
   function_jacobians = grad_estimator(
@@ -297,6 +290,14 @@ def control_variates_jacobians(
   control_variate_state = update_state_cv(
       params, samples, control_variate_state)
 
+  if estimate_cv_coeffs:
+    cv_coeffs = estimate_control_variate_coefficients(
+        function, control_variate_from_function, grad_estimator, params,
+        dist_builder, rng, estimate_cv_coeffs_num_samples,
+        control_variate_state)
+  else:
+    cv_coeffs = [1.0] * len(params)
+
   def samples_fn(x):
     return stochastic_cv(
         jax.lax.stop_gradient(params), x, control_variate_state)
-- 
2.43.0


From 1dab8c7306769292ffcc19c7fdf7bb44dcb6d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 25/26] fix: nine public names were missing from __all__

---
 optax/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optax/__init__.py b/optax/__init__.py
index d8d8da3..78f54ce 100644
--- a/optax/__init__.py
+++ b/optax/__init__.py
@@ -171,6 +171,7 @@ __all__ = (
     "DifferentiallyPrivateAggregateState",
     "ema",
     "EmaState",
+    "EmptyState",
     "exponential_decay",
     "fisher_diag",
     "flatten",
@@ -185,6 +186,7 @@ __all__ = (
     "inject_hyperparams",
     "InjectHyperparamsState",
     "join_schedules",
+    "keep_params_nonnegative",
     "lamb",
     "lookahead",
     "LookaheadParams",
@@ -195,10 +197,15 @@ __all__ = (
     "matrix_inverse_pth_root",
     "masked",
     "MaskedState",
+    "maybe_update",
+    "MaybeUpdateState",
     "measure_valued_jacobians",
     "moving_avg_baseline",
     "multi_normal",
+    "MultiSteps",
+    "MultiStepsState",
     "noisy_sgd",
+    "NonNegativeParamsState",
     "OptState",
     "Params",
     "pathwise_jacobians",
@@ -245,6 +252,8 @@ __all__ = (
     "warmup_cosine_decay_schedule",
     "warmup_exponential_decay_schedule",
     "yogi",
+    "zero_nans",
+    "ZeroNansState",
 )
 
 #  _________________________________________
-- 
2.43.0


From bc2669728f3259a32a4f0f1cf1db14cbaf32dd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 26/26] fix: public symbols missing or malformed in the API
 reference

---
 docs/api.rst | 49 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/docs/api.rst b/docs/api.rst
index 027df6d..844e659 100644
--- a/docs/api.rst
+++ b/docs/api.rst
@@ -16,6 +16,7 @@ Common Optimizers
     radam
     rmsprop
     sgd
+    sm3
     yogi
 
 
@@ -74,6 +75,11 @@ SGD
 
 .. autofunction:: sgd
 
+SM3
+~~~
+
+.. autofunction:: sm3
+
 Yogi
 ~~~~
 
@@ -105,6 +111,9 @@ Gradient Transforms
     clip_by_global_norm
     ClipByGlobalNormState
     ClipState
+    ema
+    EmaState
+    EmptyState
     global_norm
     GradientTransformation
     identity
@@ -119,6 +128,7 @@ Gradient Transforms
     scale_by_rms
     scale_by_rss
     scale_by_schedule
+    scale_by_sm3
     scale_by_stddev
     scale_by_trust_ratio
     scale_by_yogi
@@ -128,6 +138,7 @@ Gradient Transforms
     ScaleByRssState
     ScaleByRStdDevState
     ScaleByScheduleState
+    ScaleBySM3State
     ScaleByTrustRatioState
     ScaleState
     trace
@@ -193,6 +204,13 @@ Optax Transforms and States
 .. autoclass:: ClipState
     :members:
 
+.. autofunction:: ema
+.. autoclass:: EmaState
+    :members:
+
+.. autoclass:: EmptyState
+    :members:
+
 .. autofunction:: global_norm
 .. autofunction:: identity
 .. autofunction:: keep_params_nonnegative
@@ -206,6 +224,7 @@ Optax Transforms and States
 .. autofunction:: scale_by_rms
 .. autofunction:: scale_by_rss
 .. autofunction:: scale_by_schedule
+.. autofunction:: scale_by_sm3
 .. autofunction:: scale_by_stddev
 .. autofunction:: scale_by_trust_ratio
 .. autofunction:: scale_by_yogi
@@ -227,6 +246,9 @@ Optax Transforms and States
 .. autoclass:: ScaleByScheduleState
     :members:
 
+.. autoclass:: ScaleBySM3State
+    :members:
+
 .. autoclass:: ScaleByTrustRatioState
     :members:
 
@@ -356,18 +378,19 @@ Masked Update
 Maybe Update
 ~~~~~~~~~~~~~~
 
-.. autofunction::maybe_update
-.. autoclass::MaybeUpdateState
+.. autofunction:: maybe_update
+
+.. autoclass:: MaybeUpdateState
    :members:
 
 
 Multi-step Update
 ~~~~~~~~~~~~~~~~~~~~
 
-.. autoclass::MultiSteps
+.. autoclass:: MultiSteps
    :members:
 
-.. autoclass::MultiStepsState
+.. autoclass:: MultiStepsState
    :members:
 
 
@@ -396,7 +419,7 @@ losses
 .. autofunction:: l2_loss
 .. autofunction:: sigmoid_binary_cross_entropy
 .. autofunction:: smooth_labels
-.. autofunction:: softmax_cross_entropy"
+.. autofunction:: softmax_cross_entropy
 
 
 
@@ -434,10 +457,15 @@ Optimizer Schedules
     cosine_decay_schedule
     cosine_onecycle_schedule
     exponential_decay
+    join_schedules
     linear_onecycle_schedule
+    linear_schedule
     piecewise_constant_schedule
     piecewise_interpolate_schedule
     polynomial_schedule
+    sgdr_schedule
+    warmup_cosine_decay_schedule
+    warmup_exponential_decay_schedule
     Schedule
     InjectHyperparamsState
     inject_hyperparams
@@ -449,10 +477,15 @@ schedules
 .. autofunction:: cosine_decay_schedule
 .. autofunction:: cosine_onecycle_schedule
 .. autofunction:: exponential_decay
+.. autofunction:: join_schedules
 .. autofunction:: linear_onecycle_schedule
+.. autofunction:: linear_schedule
 .. autofunction:: piecewise_constant_schedule
 .. autofunction:: piecewise_interpolate_schedule
 .. autofunction:: polynomial_schedule
+.. autofunction:: sgdr_schedule
+.. autofunction:: warmup_cosine_decay_schedule
+.. autofunction:: warmup_exponential_decay_schedule
 .. autofunction:: inject_hyperparams
 
 .. autoclass:: Schedule
@@ -531,6 +564,7 @@ Stochastic Gradient Estimators
 .. autosummary::
 
     measure_valued_jacobians
+    multi_normal
     pathwise_jacobians
     score_function_jacobians
 
@@ -539,6 +573,11 @@ measure_valued_jacobians
 
 .. autofunction:: measure_valued_jacobians
 
+multi_normal
+~~~~~~~~~~~~
+
+.. autofunction:: multi_normal
+
 pathwise_jacobians
 ~~~~~~~~~~~~~~~~~~
 
-- 
2.43.0

