From bdb98aee9336262dac3f0f114946e4fb5624d838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 01/11] fix: invert the two sublayers of a spline flow layer in
 reverse order

forward applies layers[0] then layers[1]; inverse applied them in the same
order, so it was not the inverse once the scalar affine layer is trained.
---
 src/flowMC/resource/model/nf_model/rqSpline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index d101252..20a180f 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -479,9 +479,9 @@ class MaskedCouplingRQSpline(NFModel):
         def f(carry, data):
             x, log_det = carry
             layers = eqx.combine(data, statics)
-            x, log_det_i = layers[0].inverse(x, condition)
-            log_det += log_det_i
             x, log_det_i = layers[1].inverse(x, condition)
+            log_det += log_det_i
+            x, log_det_i = layers[0].inverse(x, condition)
             return (x, log_det + log_det_i), None
 
         (x, log_det), _ = jax.lax.scan(f, (x, log_det), dynamics, reverse=True)
-- 
2.43.0


From a74b4cda12c8c049f1201048426650e5a0cc51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 02/11] fix: evaluate the RealNVP density under its own base
 distribution

sample draws from base_dist, log_prob always used a standard normal.
---
 src/flowMC/resource/model/nf_model/realNVP.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 38211ca..d1080b3 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -217,9 +217,7 @@ class RealNVP(NFModel):
         # TODO: Check whether taking away vmap hurts accuracy.
         x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
         y, log_det = self.__call__(x)
-        log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
-            y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
-        )
+        log_det = log_det + self.base_dist.log_prob(y)
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From 87980289239124eaa4d4a0d44935080619572b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 03/11] fix: include the whitening Jacobian in the flow
 densities

log_prob standardises its input but left out -sum(log(std)), so it was not
the density of what sample returns and did not integrate to one.
---
 src/flowMC/resource/model/nf_model/realNVP.py  | 4 +++-
 src/flowMC/resource/model/nf_model/rqSpline.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index d1080b3..f290cff 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -215,8 +215,10 @@ class RealNVP(NFModel):
 
     def log_prob(self, x: Float[Array, " n_dim"]) -> Float:
         # TODO: Check whether taking away vmap hurts accuracy.
-        x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
+        std = jnp.sqrt(jnp.diag(self.data_cov))
+        x = (x - self.data_mean) / std
         y, log_det = self.__call__(x)
+        log_det = log_det - jnp.sum(jnp.log(std))
         log_det = log_det + self.base_dist.log_prob(y)
         return log_det
 
diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index 20a180f..3d85a73 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -498,8 +498,10 @@ class MaskedCouplingRQSpline(NFModel):
     def log_prob(self, x: Float[Array, "n_sample n_dim"]) -> Float[Array, " n_sample"]:
         """From data space to latent space."""
         # TODO: Check if taking away vmap hurts accuracy.
-        x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
+        std = jnp.sqrt(jnp.diag(self.data_cov))
+        x = (x - self.data_mean) / std
         y, log_det = self.__call__(x)
+        log_det = log_det - jnp.sum(jnp.log(std))
         log_det = log_det + self.base_dist.log_prob(y)
         return log_det
 
-- 
2.43.0


From 38f207a88a9750f750eff81eb3cb67364b39089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 04/11] fix: keep RealNVP masks out of the trainable parameters

A float mask is updated by the weight decay of adamw; after training it is no
longer 0/1 and inverse does not undo forward.
---
 src/flowMC/resource/model/nf_model/realNVP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index f290cff..cd7812e 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -166,6 +166,8 @@ class RealNVP(NFModel):
             mask = jax.lax.cond(i % 2 == 0, lambda x: 1 - x, lambda x: x, mask)
             scale_MLP = MLP([n_features, n_hidden, n_features], key=scale_subkey)
             shift_MLP = MLP([n_features, n_hidden, n_features], key=shift_subkey)
+            # A float mask would be a trainable leaf and shrink under weight decay.
+            mask = mask.astype(bool)
             return MaskedCouplingLayer(MLPAffine(scale_MLP, shift_MLP), mask)
 
         keys = jax.random.split(key, n_layers)
-- 
2.43.0


From 129c886894caafd30608fbcffa0801288b9337d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 05/11] fix: evaluate the flow-matching base density at the
 latent point

log_prob integrated the point back to x0 but evaluated the base density at x1.
---
 src/flowMC/resource/model/flowmatching/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 08935cb..db29b54 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -90,7 +90,7 @@ class Solver(eqx.Module):
         x0, log_p = solve_ode(x1, dt)
         return (
             logpdf(
-                x1,
+                x0,
                 mean=self.model.n_output * jnp.zeros(self.model.n_output),
                 cov=jnp.eye(self.model.n_output),
             )
-- 
2.43.0


From 54cdd5c809486cb726811376642eea27bbab4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 06/11] fix: record as many thinned rows as the cursor advances
 by

When thinning does not divide n_steps, ceil(n_steps / thinning) rows were
written while the cursor and the buffer sizes use the floor, so consecutive
writes overlapped and the last one was clamped onto earlier rows.
---
 src/flowMC/strategy/take_steps.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 3d8c114..fc36e64 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -131,9 +131,11 @@ class TakeSteps(Strategy):
                 )
             )(subkey, initial_position, logpdf, data)
 
-        positions = positions[:, :: self.thinning]
-        log_probs = log_probs[:, :: self.thinning]
-        do_accepts = do_accepts[:, :: self.thinning].astype(
+        # Keep exactly the n_steps // thinning rows the cursor advances by.
+        n_kept = self.n_steps // self.thinning * self.thinning
+        positions = positions[:, : n_kept : self.thinning]
+        log_probs = log_probs[:, : n_kept : self.thinning]
+        do_accepts = do_accepts[:, : n_kept : self.thinning].astype(
             acceptance_buffer.data.dtype
         )
 
-- 
2.43.0


From f739010f9ae4f71d10d8c8922874b746a5cab43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 07/11] fix: evaluate the target on the unmodified data in
 group steps

The step count was added to the data the target sees, overwriting an entry
named n_steps of the caller, so proposals and current points were evaluated
on different data.
---
 src/flowMC/strategy/take_steps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index fc36e64..6aad9c6 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -198,11 +198,15 @@ class TakeGroupSteps(TakeSteps):
         logpdf: LogPDF,
         data: dict,
     ):
+        # n_steps is for the kernel only: the target must see the caller's data.
+        def target(x, _):
+            return logpdf(x, data)
+
         (positions, log_probs, do_accepts) = kernel.kernel(
             rng_key,
             initial_position,
             logpdf(initial_position, data),
-            logpdf,
+            target,
             {**data, "n_steps": self.n_steps},
         )
         return positions, log_probs, do_accepts
-- 
2.43.0


From e762df256067993dc7f4e380877f3b81a5a1bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 08/11] fix: carry the tempered replicas through the production
 phase

The replicas moved and exchanged outside training were thrown away, so every
production call exchanged the cold chain with the same stale replicas, which
does not leave the target invariant.
---
 src/flowMC/strategy/parallel_tempering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 0d70df1..d788302 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -120,9 +120,9 @@ class ParallelTempering(Strategy):
             print("Mean acceptance of exchange steps in PT: " + str(mean_accs))
 
         # Update the buffers
-        if state.data["training"]:
+        tempered_positions.update_buffer(positions[:, 1:], 0)
 
-            tempered_positions.update_buffer(positions[:, 1:], 0)
+        if state.data["training"]:
 
             # Adapt the temperatures
             temperatures.update_buffer(
-- 
2.43.0


From 5b5cc94b2a07481f7ae919ffc0c451aaf0f1e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 09/11] fix: use one kinetic energy for a non-diagonal HMC
 condition matrix

The kinetic energy was 0.5 * sum(p**2 * M), which for a dense M is not the
quadratic form the momentum is drawn from, so HMC sampled a wrong distribution;
a scalar M (the default) could not be inverted at all.
---
 src/flowMC/resource/kernel/HMC.py | 49 +++++++++++++++++++------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index 9ed3e97..a260570 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -49,6 +49,26 @@ class HMC(ProposalBase):
         coefs = coefs.at[-1].set(jnp.array([1, 0.5]))
         self.leapfrog_coefs = coefs
 
+    def get_metric(self, position: Float[Array, " n_dim"]):
+        """The (inverse mass) matrix of the kinetic energy. A scalar or a vector is
+        the diagonal of that matrix."""
+        metric = jnp.asarray(self.condition_matrix)
+        if metric.ndim < 2:
+            metric = jnp.diag(jnp.broadcast_to(metric, position.shape))
+        return metric
+
+    def sample_momentum(
+        self,
+        rng_key: PRNGKeyArray,
+        position: Float[Array, " n_dim"],
+        metric: Float[Array, " n_dim n_dim"],
+    ) -> Float[Array, " n_dim"]:
+        """Draw from the density proportional to exp(-kinetic energy)."""
+        return jnp.dot(
+            jax.random.normal(rng_key, shape=position.shape),
+            jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,
+        )
+
     def get_initial_hamiltonian(
         self,
         potential: Callable[[Float[Array, " n_dim"], PyTree], Float[Array, "1"]],
@@ -60,13 +80,11 @@ class HMC(ProposalBase):
         data: PyTree,
     ):
         """Compute the value of the Hamiltonian from positions with initial momentum
-        draw at random from the standard normal distribution."""
+        draw at random from its Gibbs distribution."""
 
-        momentum = (
-            jax.random.normal(rng_key, shape=position.shape)
-            * self.condition_matrix**-0.5
-        )
-        return potential(position, data) + kinetic(momentum, self.condition_matrix)
+        metric = self.get_metric(position)
+        momentum = self.sample_momentum(rng_key, position, metric)
+        return potential(position, data) + kinetic(momentum, metric)
 
     def leapfrog_kernel(self, kinetic, potential, carry, extras):
         position, momentum, data, metric, index = carry
@@ -116,9 +134,9 @@ class HMC(ProposalBase):
             return -logpdf(x, data)
 
         def kinetic(
-            p: Float[Array, " n_dim"], metric: Float[Array, " n_dim"]
+            p: Float[Array, " n_dim"], metric: Float[Array, " n_dim n_dim"]
         ) -> Float[Array, "1"]:
-            return 0.5 * (p**2 * metric).sum()
+            return 0.5 * jnp.dot(p, jnp.dot(metric, p))
 
         leapfrog_kernel = jax.tree_util.Partial(
             self.leapfrog_kernel, kinetic, potential
@@ -127,19 +145,14 @@ class HMC(ProposalBase):
 
         key1, key2 = jax.random.split(rng_key)
 
-        momentum: Float[Array, " n_dim"] = (
-            jax.random.normal(key1, shape=position.shape) * self.condition_matrix**-0.5
-        )
-        momentum = jnp.dot(
-            jax.random.normal(key1, shape=position.shape),
-            jnp.linalg.cholesky(jnp.linalg.inv(self.condition_matrix)).T,
-        )
-        H = -log_prob + kinetic(momentum, self.condition_matrix)
+        metric = self.get_metric(position)
+        momentum = self.sample_momentum(key1, position, metric)
+        H = -log_prob + kinetic(momentum, metric)
         proposed_position, proposed_momentum = leapfrog_step(
-            position, momentum, data, self.condition_matrix
+            position, momentum, data, metric
         )
         proposed_PE = potential(proposed_position, data)
-        proposed_ham = proposed_PE + kinetic(proposed_momentum, self.condition_matrix)
+        proposed_ham = proposed_PE + kinetic(proposed_momentum, metric)
         log_acc = H - proposed_ham
         log_uniform = jnp.log(jax.random.uniform(key2))
 
-- 
2.43.0


From 735a55de1acedbe7dfe21561815016cc82f8a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 10/11] fix: let a saved State be loaded again

The dictionary was stored as a pickled object array, which np.load refuses, and
the arguments of the constructor were swapped.
---
 src/flowMC/resource/states.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/states.py b/src/flowMC/resource/states.py
index ca75659..ef53895 100644
--- a/src/flowMC/resource/states.py
+++ b/src/flowMC/resource/states.py
@@ -1,4 +1,5 @@
 from flowMC.resource.base import Resource
+import json
 from typing import TypeVar
 import numpy as np
 
@@ -54,10 +55,10 @@ class State(Resource):
         np.savez(
             path + self.name,
             name=self.name,
-            data=self.data,  # type: ignore
+            data=json.dumps(self.data),
         )
 
     def load_resource(self: TState, path: str) -> TState:
         data = np.load(path)
-        result = State(data["name"], data["data"])
+        result = State(json.loads(str(data["data"])), str(data["name"]))
         return result  # type: ignore
-- 
2.43.0


From e5f9d6ec67005c6d56aa2d2cff978609b7f350f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 11/11] fix: save and restore the cursor of a Buffer

A loaded buffer lost its cursor and cursor dimension, so the next write went to
the wrong place, and its name was a zero-dimensional array.
---
 src/flowMC/resource/buffers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/buffers.py b/src/flowMC/resource/buffers.py
index 0fc3f25..3b7f946 100644
--- a/src/flowMC/resource/buffers.py
+++ b/src/flowMC/resource/buffers.py
@@ -54,11 +54,14 @@ class Buffer(Resource):
             path + self.name,
             name=self.name,
             data=self.data,
+            cursor=self.cursor,
+            cursor_dim=self.cursor_dim,
         )
 
     def load_resource(self: TBuffer, path: str) -> TBuffer:
         data = np.load(path)
-        buffer: Float[Array, " ..."] = data["data"]
-        result = Buffer(data["name"], buffer.shape)
+        buffer: Float[Array, " ..."] = jnp.asarray(data["data"])
+        result = Buffer(str(data["name"]), buffer.shape, int(data["cursor_dim"]))
         result.data = buffer
+        result.cursor = int(data["cursor"])
         return result  # type: ignore
-- 
2.43.0

