From 6f9438ef22c02d1435e97896bb5be8780aed0bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 01/20] fix: invert the two stages of each RQSpline layer in
 reverse order

forward applies layers[0] then layers[1]; inverse applied them in the same
order, so once training moved the affine stage the inverse was no longer the
inverse of forward and sample() disagreed with log_prob().
---
 src/flowMC/resource/model/nf_model/rqSpline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index d101252..20a180f 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -479,9 +479,9 @@ class MaskedCouplingRQSpline(NFModel):
         def f(carry, data):
             x, log_det = carry
             layers = eqx.combine(data, statics)
-            x, log_det_i = layers[0].inverse(x, condition)
-            log_det += log_det_i
             x, log_det_i = layers[1].inverse(x, condition)
+            log_det += log_det_i
+            x, log_det_i = layers[0].inverse(x, condition)
             return (x, log_det + log_det_i), None
 
         (x, log_det), _ = jax.lax.scan(f, (x, log_det), dynamics, reverse=True)
-- 
2.43.0


From 831ba19c2732307e15f70e69ffb6d99affd7c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 02/20] fix: evaluate the flow-matching base density at the
 pulled-back point

log_prob integrated the ODE back to x0 but evaluated the base density at x1.
---
 src/flowMC/resource/model/flowmatching/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 08935cb..f6ca599 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -90,7 +90,7 @@ class Solver(eqx.Module):
         x0, log_p = solve_ode(x1, dt)
         return (
             logpdf(
-                x1,
+                x0[-1],
                 mean=self.model.n_output * jnp.zeros(self.model.n_output),
                 cov=jnp.eye(self.model.n_output),
             )
-- 
2.43.0


From b7ec2e926c587be7d0a27d68cdcf5cdbde00fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 03/20] fix: keep RealNVP coupling masks boolean so training
 cannot decay them

The float masks were part of the trainable leaves, and adamw's weight decay
shrank them away from 0/1, after which a layer is no longer a bijection.
---
 src/flowMC/resource/model/nf_model/realNVP.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 38211ca..69b8a9e 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -161,9 +161,10 @@ class RealNVP(NFModel):
 
         def make_layer(i: int, key: PRNGKeyArray):
             key, scale_subkey, shift_subkey = jax.random.split(key, 3)
-            mask = jnp.ones(n_features)
-            mask = mask.at[: int(n_features / 2)].set(0)
-            mask = jax.lax.cond(i % 2 == 0, lambda x: 1 - x, lambda x: x, mask)
+            # Boolean, so that the optimizer's weight decay cannot alter it.
+            mask = jnp.ones(n_features, dtype=bool)
+            mask = mask.at[: int(n_features / 2)].set(False)
+            mask = jax.lax.cond(i % 2 == 0, lambda x: ~x, lambda x: x, mask)
             scale_MLP = MLP([n_features, n_hidden, n_features], key=scale_subkey)
             shift_MLP = MLP([n_features, n_hidden, n_features], key=shift_subkey)
             return MaskedCouplingLayer(MLPAffine(scale_MLP, shift_MLP), mask)
-- 
2.43.0


From f0cd0966e867dbeb2eb08b6be8b4d440df72ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 04/20] fix: use the model's base distribution in
 RealNVP.log_prob

sample() draws from base_dist while log_prob() assumed a standard normal.
---
 src/flowMC/resource/model/nf_model/realNVP.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 69b8a9e..cc5643f 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -218,9 +218,7 @@ class RealNVP(NFModel):
         # TODO: Check whether taking away vmap hurts accuracy.
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
-        log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
-            y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
-        )
+        log_det = log_det + self.base_dist.log_prob(y)
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From d61fffe7688164346651094feee25d702d478750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 05/20] fix: include the whitening Jacobian in the flows'
 log_prob

log_prob() standardises x by the data scale but left out that map's log
determinant, so it was not the log density of what sample() returns.
---
 src/flowMC/resource/model/nf_model/realNVP.py  | 2 ++
 src/flowMC/resource/model/nf_model/rqSpline.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index cc5643f..14136b1 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -219,6 +219,8 @@ class RealNVP(NFModel):
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
         log_det = log_det + self.base_dist.log_prob(y)
+        # Jacobian of the whitening above
+        log_det = log_det - 0.5 * jnp.sum(jnp.log(jnp.diag(self.data_cov)))
         return log_det
 
     def print_parameters(self):
diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index 20a180f..463e017 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -501,6 +501,8 @@ class MaskedCouplingRQSpline(NFModel):
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
         log_det = log_det + self.base_dist.log_prob(y)
+        # Jacobian of the whitening above
+        log_det = log_det - 0.5 * jnp.sum(jnp.log(jnp.diag(self.data_cov)))
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From 874e4a9d0a9212a7e0cbeebf5902f8865bfd4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 06/20] fix: make a saved State loadable

The dict was stored as a pickled object array that np.load refuses, and the
constructor arguments were swapped on load.
---
 src/flowMC/resource/states.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/resource/states.py b/src/flowMC/resource/states.py
index ca75659..c4eb6ed 100644
--- a/src/flowMC/resource/states.py
+++ b/src/flowMC/resource/states.py
@@ -1,4 +1,5 @@
 from flowMC.resource.base import Resource
+import json
 from typing import TypeVar
 import numpy as np
 
@@ -54,10 +55,10 @@ class State(Resource):
         np.savez(
             path + self.name,
             name=self.name,
-            data=self.data,  # type: ignore
+            data=json.dumps(self.data),
         )
 
     def load_resource(self: TState, path: str) -> TState:
-        data = np.load(path)
-        result = State(data["name"], data["data"])
+        with np.load(path) as data:
+            result = State(json.loads(str(data["data"])), str(data["name"]))
         return result  # type: ignore
-- 
2.43.0


From 96c13e4fe7082108c99ef395d2e12618612f851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 07/20] fix: restore a Buffer's cursor, cursor_dim and name on
 load

They were not saved (name came back as an array), so writes to a reloaded
buffer went to the wrong axis and position.
---
 src/flowMC/resource/buffers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/resource/buffers.py b/src/flowMC/resource/buffers.py
index 0fc3f25..5497e9f 100644
--- a/src/flowMC/resource/buffers.py
+++ b/src/flowMC/resource/buffers.py
@@ -54,11 +54,16 @@ class Buffer(Resource):
             path + self.name,
             name=self.name,
             data=self.data,
+            cursor=self.cursor,
+            cursor_dim=self.cursor_dim,
         )
 
     def load_resource(self: TBuffer, path: str) -> TBuffer:
-        data = np.load(path)
-        buffer: Float[Array, " ..."] = data["data"]
-        result = Buffer(data["name"], buffer.shape)
+        with np.load(path) as data:
+            buffer: Float[Array, " ..."] = jnp.asarray(data["data"])
+            result = Buffer(
+                str(data["name"]), buffer.shape, cursor_dim=int(data["cursor_dim"])
+            )
+            result.cursor = int(data["cursor"])
         result.data = buffer
         return result  # type: ignore
-- 
2.43.0


From 98bd2fe400f06b0a72243373e2ae7886c719d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 08/20] fix: give HMC a kinetic energy that matches its
 momentum distribution

Momenta are drawn with covariance inv(condition_matrix), but the kinetic
energy summed p**2 * matrix, which is p^T M p only for a diagonal matrix
(any other metric sampled the wrong distribution), and the default scalar
condition_matrix could not be inverted at all.
---
 src/flowMC/resource/kernel/HMC.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index 9ed3e97..b5a9f5c 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -115,10 +115,14 @@ class HMC(ProposalBase):
         def potential(x: Float[Array, " n_dim"], data: PyTree) -> Float[Array, "1"]:
             return -logpdf(x, data)
 
+        metric = jnp.asarray(self.condition_matrix)
+        if metric.ndim < 2:
+            metric = metric * jnp.eye(position.shape[-1])
+
         def kinetic(
-            p: Float[Array, " n_dim"], metric: Float[Array, " n_dim"]
+            p: Float[Array, " n_dim"], metric: Float[Array, " n_dim n_dim"]
         ) -> Float[Array, "1"]:
-            return 0.5 * (p**2 * metric).sum()
+            return 0.5 * p @ metric @ p
 
         leapfrog_kernel = jax.tree_util.Partial(
             self.leapfrog_kernel, kinetic, potential
@@ -127,19 +131,16 @@ class HMC(ProposalBase):
 
         key1, key2 = jax.random.split(rng_key)
 
-        momentum: Float[Array, " n_dim"] = (
-            jax.random.normal(key1, shape=position.shape) * self.condition_matrix**-0.5
-        )
-        momentum = jnp.dot(
+        momentum: Float[Array, " n_dim"] = jnp.dot(
             jax.random.normal(key1, shape=position.shape),
-            jnp.linalg.cholesky(jnp.linalg.inv(self.condition_matrix)).T,
+            jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,
         )
-        H = -log_prob + kinetic(momentum, self.condition_matrix)
+        H = -log_prob + kinetic(momentum, metric)
         proposed_position, proposed_momentum = leapfrog_step(
-            position, momentum, data, self.condition_matrix
+            position, momentum, data, metric
         )
         proposed_PE = potential(proposed_position, data)
-        proposed_ham = proposed_PE + kinetic(proposed_momentum, self.condition_matrix)
+        proposed_ham = proposed_PE + kinetic(proposed_momentum, metric)
         log_acc = H - proposed_ham
         log_uniform = jnp.log(jax.random.uniform(key2))
 
-- 
2.43.0


From bfa7aa52a6deee16d5194c7aa6a6ebf0cdf4e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 09/20] fix: keep thinning from losing records and steps

[::thinning] yields ceil(n_steps/thinning) records while the buffers are sized,
and the cursor advanced, by n_steps//thinning: with a thinning that does not
divide n_steps the extra record was overwritten by the next call or clamped
over earlier ones. The chain was also sent back to the last kept record (after
one single step if thinning == n_steps) instead of continuing from its end.
---
 src/flowMC/strategy/take_steps.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 3d8c114..dc1fe1f 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -131,17 +131,18 @@ class TakeSteps(Strategy):
                 )
             )(subkey, initial_position, logpdf, data)
 
-        positions = positions[:, :: self.thinning]
-        log_probs = log_probs[:, :: self.thinning]
-        do_accepts = do_accepts[:, :: self.thinning].astype(
-            acceptance_buffer.data.dtype
-        )
+        last_position = positions[:, -1]
+        # Keep every thinning-th step, i.e. exactly n_steps // thinning of them.
+        kept = slice(self.thinning - 1, None, self.thinning)
+        positions = positions[:, kept]
+        log_probs = log_probs[:, kept]
+        do_accepts = do_accepts[:, kept].astype(acceptance_buffer.data.dtype)
 
         position_buffer.update_buffer(positions, self.current_position)
         log_prob_buffer.update_buffer(log_probs, self.current_position)
         acceptance_buffer.update_buffer(do_accepts, self.current_position)
         self.current_position += self.n_steps // self.thinning
-        return rng_key, resources, positions[:, -1]
+        return rng_key, resources, last_position
 
 
 class TakeSerialSteps(TakeSteps):
-- 
2.43.0


From ca01e0646d81849d6a6f79d0ef5ef0b780ddcae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 10/20] fix: do not override the user's data["n_steps"] in
 group steps

The density was evaluated with the kernel's n_steps in its data, so a target
with an entry of that name was a different function in the global steps.
---
 src/flowMC/strategy/take_steps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index dc1fe1f..dce8271 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -197,11 +197,12 @@ class TakeGroupSteps(TakeSteps):
         logpdf: LogPDF,
         data: dict,
     ):
+        # n_steps is meant for the kernel: the density sees the user's data only.
         (positions, log_probs, do_accepts) = kernel.kernel(
             rng_key,
             initial_position,
             logpdf(initial_position, data),
-            logpdf,
+            lambda x, _: logpdf(x, data),
             {**data, "n_steps": self.n_steps},
         )
         return positions, log_probs, do_accepts
-- 
2.43.0


From bc708042361daf650fbedfd6f5b1e773475fed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 11/20] fix: keep tempered walkers moving in the production
 phase

Only the temperature ladder is to be frozen in production. The tempered
positions were not stored either, so every production call restarted the hot
walkers from the same frozen states and swapped those into the cold chain over
and over, which biases it.
---
 src/flowMC/strategy/parallel_tempering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 0d70df1..d788302 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -120,9 +120,9 @@ class ParallelTempering(Strategy):
             print("Mean acceptance of exchange steps in PT: " + str(mean_accs))
 
         # Update the buffers
-        if state.data["training"]:
+        tempered_positions.update_buffer(positions[:, 1:], 0)
 
-            tempered_positions.update_buffer(positions[:, 1:], 0)
+        if state.data["training"]:
 
             # Adapt the temperatures
             temperatures.update_buffer(
-- 
2.43.0


From 91e56ee4f02d325adf558839d854430c53b46022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 12/20] fix: keep the adapted temperatures below the maximum
 temperature

Interior temperatures could overtake the last one and, with few chains,
overflow to inf and then NaN, after which the tempered densities are NaN.
---
 src/flowMC/strategy/parallel_tempering.py | 25 +++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index d788302..b83b7f0 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -410,10 +410,8 @@ class ParallelTempering(Strategy):
             do_accept (Int[Array, " n_chains n_temps 1"]): Acceptance flags for each chain and temperature.
 
         Returns:
-            Float[Array, " n_temps"]: Updated temperatures.
-
-        TODO: The adaptation now let's the temperature to go above the maximum temperature.
-        Need to add a check to prevent this.
+            Float[Array, " n_temps"]: Updated temperatures. They stay ordered and do
+                not go above the maximum temperature.
         """
         # Adapt the temperature based on the acceptance rate
 
@@ -424,13 +422,18 @@ class ParallelTempering(Strategy):
         damping_factor = (100.0 / do_accept.shape[0]) * (
             acceptance_rate[:-1] - acceptance_rate[1:]
         )
-        new_temperatures = temperatures
-        for i in range(1, temperatures.shape[0] - 1):
-            new_temperatures = new_temperatures.at[i].set(
-                new_temperatures[i - 1]
-                + (temperatures[i] - temperatures[i - 1])
-                * jnp.exp(damping_factor[i - 1])
-            )
+        gaps = jnp.diff(temperatures)[:-1]
+        last_gap = temperatures[-1] - temperatures[-2:][0]
+        # Bounded so that the exponential cannot overflow
+        gaps = gaps * jnp.exp(jnp.minimum(damping_factor[: len(gaps)], 50.0))
+        span = temperatures[-1] - temperatures[0]
+        # Shrink the gaps if the ladder would otherwise pass its maximum
+        gaps = gaps * jnp.where(
+            gaps.sum() < span, 1.0, span / (gaps.sum() + last_gap)
+        )
+        new_temperatures = temperatures.at[1:-1].set(
+            temperatures[0] + jnp.cumsum(gaps)
+        )
 
         # jax.debug.print("{} {} {} {}", temperatures, acceptance_rate, damping_factor, new_temperatures )
         return new_temperatures
-- 
2.43.0


From 91d6bfef93542099b017a4a7b8e00ac134235082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 13/20] fix: include the prior in the target of the PT bundle's
 steppers

With a logprior given, the tempering step samples likelihood*prior at T=1 but
the local and global steps sampled the likelihood alone.
---
 src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
index af97302..61af986 100644
--- a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
+++ b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
@@ -109,11 +109,15 @@ class RQSpline_MALA_PT_Bundle(ResourceStrategyBundle):
             model, n_NFproposal_batch_size=n_NFproposal_batch_size
         )
         optimizer = Optimizer(model=model, learning_rate=learning_rate)
-        logpdf = LogPDF(logpdf, n_dims=n_dims)
+        log_likelihood = logpdf
+        # The steppers target the same distribution as the T=1 tempered walkers.
+        logpdf = LogPDF(
+            lambda x, data: log_likelihood(x, data) + logprior(x, data), n_dims=n_dims
+        )
 
         # Here are the resources for the parallel tempering
         tempered_logpdf = TemperedPDF(
-            logpdf,
+            LogPDF(log_likelihood, n_dims=n_dims),
             logprior,
             n_dims=n_dims,
             n_temps=n_temperatures,
-- 
2.43.0


From f1356433a4bcf7824c6717fcfc396cfa7ec21b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 14/20] fix: refuse a buffer write that does not fit instead of
 clamping it

dynamic_update_slice silently moves an update that would run past the end back
into range, where it overwrites records written earlier.
---
 src/flowMC/resource/buffers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/flowMC/resource/buffers.py b/src/flowMC/resource/buffers.py
index 5497e9f..70f4582 100644
--- a/src/flowMC/resource/buffers.py
+++ b/src/flowMC/resource/buffers.py
@@ -35,7 +35,17 @@ class Buffer(Resource):
         This will modify the buffer in place.
         The cursor is expected to propagate the buffer in the cursor_dim
         with length equal to the length of the updates in its first dimension.
+
+        Raises:
+            ValueError: If the updates do not fit into the buffer from start on.
         """
+        # dynamic_update_slice would clamp start and overwrite earlier records
+        size = self.data.shape[self.cursor_dim]
+        if start + updates.shape[self.cursor_dim] > size:
+            raise ValueError(
+                f"Buffer {self.name}: {updates.shape[self.cursor_dim]} records from"
+                f" position {start} on do not fit into its length {size}."
+            )
         self.data = jax.lax.dynamic_update_slice_in_dim(
             self.data, updates, start, self.cursor_dim
         )
-- 
2.43.0


From 1a8e252ffc949f0a1340a7c8e9c85301f751665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 15/20] fix: a State keeps its own copy of the dictionary it is
 created from

---
 src/flowMC/resource/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/states.py b/src/flowMC/resource/states.py
index c4eb6ed..44cf287 100644
--- a/src/flowMC/resource/states.py
+++ b/src/flowMC/resource/states.py
@@ -33,7 +33,7 @@ class State(Resource):
         """
 
         self.name = name
-        self.data = data
+        self.data = dict(data)
 
     def update(self, key: list[str], value: list[int | bool | str]):
         """Update the state with new data.
-- 
2.43.0


From a8a31703c5b6b4dc04bec0988c9b28f699337187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 16/20] fix: a model with non-finite loss or parameters is
 never the best epoch

---
 src/flowMC/resource/model/flowmatching/base.py | 12 ++++++++++--
 src/flowMC/resource/model/nf_model/base.py     | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index f6ca599..d721080 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -293,7 +293,7 @@ class FlowMatchingModel(eqx.Module, Resource):
 
         best_model = model = self
         best_state = state
-        best_loss = 1e9
+        best_loss = jnp.inf
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data[1], axis=0))
         model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data[1].T))
         for epoch in pbar:
@@ -304,7 +304,15 @@ class FlowMatchingModel(eqx.Module, Resource):
                 input_rng, optim, state, data, batch_size
             )
             loss_values = loss_values.at[epoch].set(value)
-            if loss_values[epoch] < best_loss:
+            # The loss was taken before the last update, which may have failed on its own
+            if (
+                jnp.isfinite(loss_values[epoch])
+                and loss_values[epoch] < best_loss
+                and all(
+                    jnp.isfinite(leaf).all()
+                    for leaf in jax.tree.leaves(eqx.filter(model, eqx.is_inexact_array))
+                )
+            ):
                 best_model = model
                 best_state = state
                 best_loss = loss_values[epoch]
diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index fa3029f..ff02b50 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -183,7 +183,7 @@ class NFModel(eqx.Module, Resource):
 
         best_model = model = self
         best_state = state
-        best_loss = 1e9
+        best_loss = jnp.inf
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data, axis=0))
         model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data.T))
         for epoch in pbar:
@@ -194,7 +194,15 @@ class NFModel(eqx.Module, Resource):
                 input_rng, optim, state, data, batch_size
             )
             loss_values = loss_values.at[epoch].set(value)
-            if loss_values[epoch] < best_loss:
+            # The loss was taken before the last update, which may have failed on its own
+            if (
+                jnp.isfinite(loss_values[epoch])
+                and loss_values[epoch] < best_loss
+                and all(
+                    jnp.isfinite(leaf).all()
+                    for leaf in jax.tree.leaves(eqx.filter(model, eqx.is_inexact_array))
+                )
+            ):
                 best_model = model
                 best_state = state
                 best_loss = loss_values[epoch]
-- 
2.43.0


From a4650dfd1966db2bbc5fb2515356d2a01fd7ce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 17/20] fix: training window holds the last finite samples of
 every chain

---
 src/flowMC/strategy/train_model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/flowMC/strategy/train_model.py b/src/flowMC/strategy/train_model.py
index d04d893..90901a7 100644
--- a/src/flowMC/strategy/train_model.py
+++ b/src/flowMC/strategy/train_model.py
@@ -63,12 +63,11 @@ class TrainModel(Strategy):
         assert isinstance(
             optimizer, Optimizer
         ), "Optimizer resource must be an optimizer"
-        n_chains = data_resource.data.shape[0]
-        n_dims = data_resource.data.shape[-1]
-        training_data = data_resource.data[
-            jnp.isfinite(data_resource.data).all(axis=-1)
-        ].reshape(n_chains, -1, n_dims)
-        training_data = training_data[:, -self.history_window :].reshape(-1, n_dims)
+        # The last history_window finite samples of every chain. A chain can have fewer
+        # of them than the others.
+        finite = jnp.isfinite(data_resource.data).all(axis=-1)
+        recency = jnp.cumsum(finite[:, ::-1], axis=1)[:, ::-1]
+        training_data = data_resource.data[finite & (recency <= self.history_window)]
         rng_key, subkey = jax.random.split(rng_key)
         training_data = training_data[
             jax.random.choice(
-- 
2.43.0


From 1e574be2282037517564badcfe5f437c8cb83f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 18/20] fix: parallel tempering reads its state before it
 changes anything

---
 src/flowMC/strategy/parallel_tempering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index b83b7f0..26eddda 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -83,6 +83,7 @@ class ParallelTempering(Strategy):
             temperatures := resources[self.tempered_buffer_names[1]], Buffer
         )
         assert isinstance(state := resources[self.state_name], State)
+        training = state.data["training"]
 
         initial_position = jnp.concatenate(
             [initial_position[:, None, :], tempered_positions.data],
@@ -122,7 +123,7 @@ class ParallelTempering(Strategy):
         # Update the buffers
         tempered_positions.update_buffer(positions[:, 1:], 0)
 
-        if state.data["training"]:
+        if training:
 
             # Adapt the temperatures
             temperatures.update_buffer(
-- 
2.43.0


From 598265ec49123b657f1045859f466815185f3c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 19/20] fix: a stepper writes all of its records or none

---
 src/flowMC/strategy/take_steps.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index dce8271..d5d6baf 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -138,9 +138,20 @@ class TakeSteps(Strategy):
         log_probs = log_probs[:, kept]
         do_accepts = do_accepts[:, kept].astype(acceptance_buffer.data.dtype)
 
-        position_buffer.update_buffer(positions, self.current_position)
-        log_prob_buffer.update_buffer(log_probs, self.current_position)
-        acceptance_buffer.update_buffer(do_accepts, self.current_position)
+        records = (
+            (position_buffer, positions),
+            (log_prob_buffer, log_probs),
+            (acceptance_buffer, do_accepts),
+        )
+        previous = [buffer.data for buffer, _ in records]
+        try:
+            for buffer, record in records:
+                buffer.update_buffer(record, self.current_position)
+        except Exception:
+            # One of them does not fit: write none of them
+            for (buffer, _), data in zip(records, previous):
+                buffer.data = data
+            raise
         self.current_position += self.n_steps // self.thinning
         return rng_key, resources, last_position
 
-- 
2.43.0


From 0542c00b23524fb473ad2efc9594a5dd25291c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:38 +0000
Subject: [PATCH 20/20] fix: initialize the tempered positions of the run's own
 resources

The strategy wrote to the buffer the bundle was built with. Once that entry of the
resources had been replaced, by a loaded buffer for example, the tempered walkers
started wherever that buffer stood instead of at the initial positions.
---
 src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
index 61af986..5563ba7 100644
--- a/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
+++ b/src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py
@@ -296,7 +296,9 @@ class RQSpline_MALA_PT_Bundle(ResourceStrategyBundle):
             Float[Array, "n_chains n_dim"],
         ]:
             """Initialize the tempered positions."""
-            tempered_positions.update_buffer(
+            hot_positions = resources["tempered_positions"]
+            assert isinstance(hot_positions, Buffer)
+            hot_positions.update_buffer(
                 jnp.repeat(initial_position[:, None], n_temperatures - 1, axis=1)
             )
             return rng_key, resources, initial_position
-- 
2.43.0

