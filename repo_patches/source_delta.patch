From db4b951ec894135508fac82909257021c58b906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 01/19] fix: HMC kernel accepts its default scalar condition
 matrix

---
 src/flowMC/resource/kernel/HMC.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index 9ed3e97..d804adf 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -127,19 +127,21 @@ class HMC(ProposalBase):
 
         key1, key2 = jax.random.split(rng_key)
 
-        momentum: Float[Array, " n_dim"] = (
-            jax.random.normal(key1, shape=position.shape) * self.condition_matrix**-0.5
-        )
-        momentum = jnp.dot(
+        # A scalar (the default) or diagonal condition matrix is promoted to a matrix
+        metric = jnp.asarray(self.condition_matrix, dtype=position.dtype)
+        if metric.ndim < 2:
+            metric = jnp.diag(jnp.broadcast_to(metric, position.shape))
+
+        momentum: Float[Array, " n_dim"] = jnp.dot(
             jax.random.normal(key1, shape=position.shape),
-            jnp.linalg.cholesky(jnp.linalg.inv(self.condition_matrix)).T,
+            jnp.linalg.cholesky(jnp.linalg.inv(metric)).T,
         )
-        H = -log_prob + kinetic(momentum, self.condition_matrix)
+        H = -log_prob + kinetic(momentum, metric)
         proposed_position, proposed_momentum = leapfrog_step(
-            position, momentum, data, self.condition_matrix
+            position, momentum, data, metric
         )
         proposed_PE = potential(proposed_position, data)
-        proposed_ham = proposed_PE + kinetic(proposed_momentum, self.condition_matrix)
+        proposed_ham = proposed_PE + kinetic(proposed_momentum, metric)
         log_acc = H - proposed_ham
         log_uniform = jnp.log(jax.random.uniform(key2))
 
-- 
2.43.0


From 427f31fd592ed8851fbf94ff2a53fd24f9771fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 02/19] fix: HMC kinetic energy uses the full condition matrix
 (off-diagonal terms)

---
 src/flowMC/resource/kernel/HMC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/kernel/HMC.py b/src/flowMC/resource/kernel/HMC.py
index d804adf..b65d528 100644
--- a/src/flowMC/resource/kernel/HMC.py
+++ b/src/flowMC/resource/kernel/HMC.py
@@ -118,7 +118,7 @@ class HMC(ProposalBase):
         def kinetic(
             p: Float[Array, " n_dim"], metric: Float[Array, " n_dim"]
         ) -> Float[Array, "1"]:
-            return 0.5 * (p**2 * metric).sum()
+            return 0.5 * jnp.dot(p, jnp.dot(metric, p))
 
         leapfrog_kernel = jax.tree_util.Partial(
             self.leapfrog_kernel, kinetic, potential
-- 
2.43.0


From ef35b5bfbba4ff8099e97699bd9302aa6384cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 03/19] fix: MaskedCouplingRQSpline.inverse undoes the
 sub-layers in reverse order

---
 src/flowMC/resource/model/nf_model/rqSpline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index d101252..20a180f 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -479,9 +479,9 @@ class MaskedCouplingRQSpline(NFModel):
         def f(carry, data):
             x, log_det = carry
             layers = eqx.combine(data, statics)
-            x, log_det_i = layers[0].inverse(x, condition)
-            log_det += log_det_i
             x, log_det_i = layers[1].inverse(x, condition)
+            log_det += log_det_i
+            x, log_det_i = layers[0].inverse(x, condition)
             return (x, log_det + log_det_i), None
 
         (x, log_det), _ = jax.lax.scan(f, (x, log_det), dynamics, reverse=True)
-- 
2.43.0


From 462f67273242e3ff4ba1b7467bc87c5eed4bdea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 04/19] fix: normalizing-flow log_prob includes the Jacobian of
 the data whitening

---
 src/flowMC/resource/model/nf_model/realNVP.py  | 4 +++-
 src/flowMC/resource/model/nf_model/rqSpline.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index 38211ca..ca89ba6 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -215,8 +215,10 @@ class RealNVP(NFModel):
 
     def log_prob(self, x: Float[Array, " n_dim"]) -> Float:
         # TODO: Check whether taking away vmap hurts accuracy.
-        x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
+        std = jnp.sqrt(jnp.diag(self.data_cov))
+        x = (x - self.data_mean) / std
         y, log_det = self.__call__(x)
+        log_det = log_det - jnp.sum(jnp.log(std))
         log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
             y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
         )
diff --git a/src/flowMC/resource/model/nf_model/rqSpline.py b/src/flowMC/resource/model/nf_model/rqSpline.py
index 20a180f..3d85a73 100644
--- a/src/flowMC/resource/model/nf_model/rqSpline.py
+++ b/src/flowMC/resource/model/nf_model/rqSpline.py
@@ -498,8 +498,10 @@ class MaskedCouplingRQSpline(NFModel):
     def log_prob(self, x: Float[Array, "n_sample n_dim"]) -> Float[Array, " n_sample"]:
         """From data space to latent space."""
         # TODO: Check if taking away vmap hurts accuracy.
-        x = (x - self.data_mean) / jnp.sqrt(jnp.diag(self.data_cov))
+        std = jnp.sqrt(jnp.diag(self.data_cov))
+        x = (x - self.data_mean) / std
         y, log_det = self.__call__(x)
+        log_det = log_det - jnp.sum(jnp.log(std))
         log_det = log_det + self.base_dist.log_prob(y)
         return log_det
 
-- 
2.43.0


From 92f5f8d8b4fbc553d8e2d05e17576ddd79ece477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 05/19] fix: RealNVP.log_prob uses the model's base
 distribution

---
 src/flowMC/resource/model/nf_model/realNVP.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index ca89ba6..f290cff 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -219,9 +219,7 @@ class RealNVP(NFModel):
         x = (x - self.data_mean) / std
         y, log_det = self.__call__(x)
         log_det = log_det - jnp.sum(jnp.log(std))
-        log_det = log_det + jax.scipy.stats.multivariate_normal.logpdf(
-            y, jnp.zeros(self.n_features), jnp.eye(self.n_features)
-        )
+        log_det = log_det + self.base_dist.log_prob(y)
         return log_det
 
     def print_parameters(self):
-- 
2.43.0


From 6d0726351e4516c6e58c25f328f6c37af5059325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 06/19] fix: RealNVP masks are boolean so that weight decay
 cannot change them

---
 src/flowMC/resource/model/nf_model/realNVP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flowMC/resource/model/nf_model/realNVP.py b/src/flowMC/resource/model/nf_model/realNVP.py
index f290cff..10bb093 100644
--- a/src/flowMC/resource/model/nf_model/realNVP.py
+++ b/src/flowMC/resource/model/nf_model/realNVP.py
@@ -164,6 +164,7 @@ class RealNVP(NFModel):
             mask = jnp.ones(n_features)
             mask = mask.at[: int(n_features / 2)].set(0)
             mask = jax.lax.cond(i % 2 == 0, lambda x: 1 - x, lambda x: x, mask)
+            mask = mask.astype(bool)
             scale_MLP = MLP([n_features, n_hidden, n_features], key=scale_subkey)
             shift_MLP = MLP([n_features, n_hidden, n_features], key=shift_subkey)
             return MaskedCouplingLayer(MLPAffine(scale_MLP, shift_MLP), mask)
-- 
2.43.0


From 3120d7466d3b953ff95deec2336e089058ac55d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 07/19] fix: flow-matching log_prob evaluates the base density
 at the latent point

---
 src/flowMC/resource/model/flowmatching/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index 08935cb..db29b54 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -90,7 +90,7 @@ class Solver(eqx.Module):
         x0, log_p = solve_ode(x1, dt)
         return (
             logpdf(
-                x1,
+                x0,
                 mean=self.model.n_output * jnp.zeros(self.model.n_output),
                 cov=jnp.eye(self.model.n_output),
             )
-- 
2.43.0


From 2798006e36da61bd3811e40c908378db9a0ad9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 08/19] fix: Buffer save/load keeps the name, cursor and cursor
 dimension

---
 src/flowMC/resource/buffers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/resource/buffers.py b/src/flowMC/resource/buffers.py
index 0fc3f25..a61ac5c 100644
--- a/src/flowMC/resource/buffers.py
+++ b/src/flowMC/resource/buffers.py
@@ -54,11 +54,15 @@ class Buffer(Resource):
             path + self.name,
             name=self.name,
             data=self.data,
+            cursor=self.cursor,
+            cursor_dim=self.cursor_dim,
         )
 
     def load_resource(self: TBuffer, path: str) -> TBuffer:
         data = np.load(path)
         buffer: Float[Array, " ..."] = data["data"]
-        result = Buffer(data["name"], buffer.shape)
+        cursor_dim = int(data["cursor_dim"]) if "cursor_dim" in data else 0
+        result = Buffer(str(data["name"]), buffer.shape, cursor_dim)
         result.data = buffer
+        result.cursor = int(data["cursor"]) if "cursor" in data else 0
         return result  # type: ignore
-- 
2.43.0


From f1ca72473c64d4f4bc2a580f47d8609462f50992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 09/19] fix: State.load_resource reads back what save_resource
 wrote

---
 src/flowMC/resource/states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/states.py b/src/flowMC/resource/states.py
index ca75659..1664c85 100644
--- a/src/flowMC/resource/states.py
+++ b/src/flowMC/resource/states.py
@@ -58,6 +58,6 @@ class State(Resource):
         )
 
     def load_resource(self: TState, path: str) -> TState:
-        data = np.load(path)
-        result = State(data["name"], data["data"])
+        data = np.load(path, allow_pickle=True)
+        result = State(data["data"].item(), str(data["name"]))
         return result  # type: ignore
-- 
2.43.0


From 8e8bbfd330504e81f682b052e87dd7cdf598bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 10/19] fix: TakeSteps continues the chain from its last step,
 also when thinning

---
 src/flowMC/strategy/take_steps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 3d8c114..318cc49 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -131,6 +131,7 @@ class TakeSteps(Strategy):
                 )
             )(subkey, initial_position, logpdf, data)
 
+        last_position = positions[:, -1]
         positions = positions[:, :: self.thinning]
         log_probs = log_probs[:, :: self.thinning]
         do_accepts = do_accepts[:, :: self.thinning].astype(
@@ -141,7 +142,7 @@ class TakeSteps(Strategy):
         log_prob_buffer.update_buffer(log_probs, self.current_position)
         acceptance_buffer.update_buffer(do_accepts, self.current_position)
         self.current_position += self.n_steps // self.thinning
-        return rng_key, resources, positions[:, -1]
+        return rng_key, resources, last_position
 
 
 class TakeSerialSteps(TakeSteps):
-- 
2.43.0


From e6fd47264e3e8a38a05dc9c49f2ca62ebbf1444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 11/19] fix: TakeSteps records as many samples as its position
 advances when thinning does not divide n_steps

---
 src/flowMC/strategy/take_steps.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 318cc49..2f16019 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -132,9 +132,11 @@ class TakeSteps(Strategy):
             )(subkey, initial_position, logpdf, data)
 
         last_position = positions[:, -1]
-        positions = positions[:, :: self.thinning]
-        log_probs = log_probs[:, :: self.thinning]
-        do_accepts = do_accepts[:, :: self.thinning].astype(
+        # Only complete thinning intervals are recorded
+        n_records = self.n_steps // self.thinning
+        positions = positions[:, :: self.thinning][:, :n_records]
+        log_probs = log_probs[:, :: self.thinning][:, :n_records]
+        do_accepts = do_accepts[:, :: self.thinning][:, :n_records].astype(
             acceptance_buffer.data.dtype
         )
 
-- 
2.43.0


From f5dff58f3de75c7c1306441a9d9c1de9a7307842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 12/19] fix: ParallelTempering keeps the tempered replicas up
 to date in production

---
 src/flowMC/strategy/parallel_tempering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/strategy/parallel_tempering.py b/src/flowMC/strategy/parallel_tempering.py
index 0d70df1..d788302 100644
--- a/src/flowMC/strategy/parallel_tempering.py
+++ b/src/flowMC/strategy/parallel_tempering.py
@@ -120,9 +120,9 @@ class ParallelTempering(Strategy):
             print("Mean acceptance of exchange steps in PT: " + str(mean_accs))
 
         # Update the buffers
-        if state.data["training"]:
+        tempered_positions.update_buffer(positions[:, 1:], 0)
 
-            tempered_positions.update_buffer(positions[:, 1:], 0)
+        if state.data["training"]:
 
             # Adapt the temperatures
             temperatures.update_buffer(
-- 
2.43.0


From 9edb3eaa570f9698edfd81244373e8e4963dd3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 13/19] fix: TakeGroupSteps evaluates the target with the
 user's data only

---
 src/flowMC/strategy/take_steps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 2f16019..4130a7c 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -203,7 +203,8 @@ class TakeGroupSteps(TakeSteps):
             rng_key,
             initial_position,
             logpdf(initial_position, data),
-            logpdf,
+            # The target sees the user's data, without the kernel's own n_steps
+            lambda x, _: logpdf(x, data),
             {**data, "n_steps": self.n_steps},
         )
         return positions, log_probs, do_accepts
-- 
2.43.0


From c6faee1399d49b9415320372526de87363fbf7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 14/19] fix: keep Composable's partitions in order through jax
 transformations

---
 src/flowMC/resource/model/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/common.py b/src/flowMC/resource/model/common.py
index 8de695d..0a594dd 100644
--- a/src/flowMC/resource/model/common.py
+++ b/src/flowMC/resource/model/common.py
@@ -1,3 +1,4 @@
+from collections import OrderedDict
 from typing import Callable, List, Tuple, Optional
 
 import equinox as eqx
@@ -299,7 +300,9 @@ class Composable(Distribution):
 
     def __init__(self, distributions: list[Distribution], partitions: dict):
         self.distributions = distributions
-        self.partitions = partitions
+        # Unlike a dict, an OrderedDict keeps its order when passed through jax
+        # transformations, so the partitions stay aligned with the distributions
+        self.partitions = OrderedDict(partitions)
 
     def log_prob(self, x: Float[Array, " n_dim"]) -> Float:
         log_prob = 0
-- 
2.43.0


From ebb24793939b3ab80c493051545fa68036a040e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 15/19] fix: keep the optimizer's weight decay away from the
 stored data statistics

---
 src/flowMC/resource/model/flowmatching/base.py | 9 ++++++++-
 src/flowMC/resource/model/nf_model/base.py     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index db29b54..d01b14a 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -213,7 +213,14 @@ class FlowMatchingModel(eqx.Module, Resource):
         print("Compiling training step")
         loss, grads = model.loss_fn(x_t, t, dx_t)
         updates, state = optim.update(grads, state, model)  # type: ignore
-        model = eqx.apply_updates(model, updates)
+        updated = eqx.apply_updates(model, updates)
+        # The data statistics are not trainable, so they must not be touched by
+        # the optimizer either, e.g. through weight decay
+        model = eqx.tree_at(
+            lambda m: (m._data_mean, m._data_cov),
+            updated,
+            (model._data_mean, model._data_cov),
+        )
         return loss, model, state
 
     def train_epoch(
diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index fa3029f..180d649 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -121,7 +121,14 @@ class NFModel(eqx.Module, Resource):
         print("Compiling training step")
         loss, grads = model.loss_fn(x)
         updates, state = optim.update(grads, state, model)  # type: ignore
-        model = eqx.apply_updates(model, updates)
+        updated = eqx.apply_updates(model, updates)
+        # The data statistics are not trainable, so they must not be touched by
+        # the optimizer either, e.g. through weight decay
+        model = eqx.tree_at(
+            lambda m: (m._data_mean, m._data_cov),
+            updated,
+            (model._data_mean, model._data_cov),
+        )
         return loss, model, state
 
     def train_epoch(
-- 
2.43.0


From 101fb0b3206995c57e44f2b8acc5e27bb5a5741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 16/19] fix: train on the recent samples of every chain when
 one recorded a non-finite sample

---
 src/flowMC/strategy/train_model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/flowMC/strategy/train_model.py b/src/flowMC/strategy/train_model.py
index d04d893..3822e7b 100644
--- a/src/flowMC/strategy/train_model.py
+++ b/src/flowMC/strategy/train_model.py
@@ -63,12 +63,11 @@ class TrainModel(Strategy):
         assert isinstance(
             optimizer, Optimizer
         ), "Optimizer resource must be an optimizer"
-        n_chains = data_resource.data.shape[0]
-        n_dims = data_resource.data.shape[-1]
-        training_data = data_resource.data[
-            jnp.isfinite(data_resource.data).all(axis=-1)
-        ].reshape(n_chains, -1, n_dims)
-        training_data = training_data[:, -self.history_window :].reshape(-1, n_dims)
+        # The most recent finite samples of each chain. The chains need not hold
+        # the same number of them.
+        finite = jnp.isfinite(data_resource.data).all(axis=-1)
+        age = jnp.cumsum(finite[:, ::-1], axis=1)[:, ::-1]
+        training_data = data_resource.data[finite & (age <= self.history_window)]
         rng_key, subkey = jax.random.split(rng_key)
         training_data = training_data[
             jax.random.choice(
-- 
2.43.0


From 53a0318998861771da0643229c9196c6c2e1eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 17/19] fix: to_precision leaves the boolean masks of a model
 alone

---
 src/flowMC/resource/model/nf_model/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index 180d649..fcb4d8b 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -242,7 +242,8 @@ class NFModel(eqx.Module, Resource):
                 f"Precision {precision} not supported.\
                 Choose from {precisions_dict.keys()}"
             )
-        dynamic_model, static_model = eqx.partition(self, eqx.is_array)
+        # Only floating point parameters have a precision, boolean masks do not
+        dynamic_model, static_model = eqx.partition(self, eqx.is_inexact_array)
         dynamic_model = jax.tree.map(
             lambda x: x.astype(precision_format), dynamic_model
         )
-- 
2.43.0


From 6f4c4671fa82976ed5a49c1f0dd0c5aaa667a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:58 +0000
Subject: [PATCH 18/19] fix: keep the covariance of a trained one-dimensional
 model two-dimensional

jnp.cov returns a scalar for one feature, so a trained model had another
shape than a newly built one and its file could not be loaded into it.
---
 src/flowMC/resource/model/flowmatching/base.py | 4 +++-
 src/flowMC/resource/model/nf_model/base.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flowMC/resource/model/flowmatching/base.py b/src/flowMC/resource/model/flowmatching/base.py
index d01b14a..837acd4 100644
--- a/src/flowMC/resource/model/flowmatching/base.py
+++ b/src/flowMC/resource/model/flowmatching/base.py
@@ -302,7 +302,9 @@ class FlowMatchingModel(eqx.Module, Resource):
         best_state = state
         best_loss = 1e9
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data[1], axis=0))
-        model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data[1].T))
+        model = eqx.tree_at(
+            lambda m: m._data_cov, model, jnp.atleast_2d(jnp.cov(data[1].T))
+        )
         for epoch in pbar:
             # Use a separate PRNG key to permute image data during shuffling
             rng, input_rng = jax.random.split(rng)
diff --git a/src/flowMC/resource/model/nf_model/base.py b/src/flowMC/resource/model/nf_model/base.py
index fcb4d8b..537da29 100644
--- a/src/flowMC/resource/model/nf_model/base.py
+++ b/src/flowMC/resource/model/nf_model/base.py
@@ -192,7 +192,9 @@ class NFModel(eqx.Module, Resource):
         best_state = state
         best_loss = 1e9
         model = eqx.tree_at(lambda m: m._data_mean, model, jnp.mean(data, axis=0))
-        model = eqx.tree_at(lambda m: m._data_cov, model, jnp.cov(data.T))
+        model = eqx.tree_at(
+            lambda m: m._data_cov, model, jnp.atleast_2d(jnp.cov(data.T))
+        )
         for epoch in pbar:
             # Use a separate PRNG key to permute image data during shuffling
             rng, input_rng = jax.random.split(rng)
-- 
2.43.0


From 75c678d0c94d4684f15048e515c340b37c84011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:35 +0000
Subject: [PATCH 19/19] fix: a stepping strategy of zero steps leaves the
 chains where they are

It raised an IndexError, e.g. for a bundle without global steps.
---
 src/flowMC/strategy/take_steps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flowMC/strategy/take_steps.py b/src/flowMC/strategy/take_steps.py
index 4130a7c..904157e 100644
--- a/src/flowMC/strategy/take_steps.py
+++ b/src/flowMC/strategy/take_steps.py
@@ -131,7 +131,7 @@ class TakeSteps(Strategy):
                 )
             )(subkey, initial_position, logpdf, data)
 
-        last_position = positions[:, -1]
+        last_position = positions[:, -1] if self.n_steps > 0 else initial_position
         # Only complete thinning intervals are recorded
         n_records = self.n_steps // self.thinning
         positions = positions[:, :: self.thinning][:, :n_records]
-- 
2.43.0

