From 33bb7e47b4f626431ae88339191d485d814fdd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 01/71] fix: import scipy.special, which
 MultinomialModel.n_outcomes uses

---
 src/qinfer/derived_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 3758726..504e48d 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -61,6 +61,7 @@ from functools import reduce
 from past.builtins import basestring
 
 import numpy as np
+import scipy.special
 from scipy.stats import binom, multivariate_normal, norm
 from itertools import combinations_with_replacement as tri_comb
 
-- 
2.43.0


From 750ad7f52190b907ee98d791a9c038f3307cdb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 02/71] fix: normalise the outcome density of
 GaussianHyperparameterizedModel

---
 src/qinfer/derived_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 504e48d..581bf59 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -468,8 +468,9 @@ class GaussianHyperparameterizedModel(DerivedModel):
         # Now we can rescale the outcomes to be random variates z drawn from N(0, 1).
         scaled_outcomes = (outcomes[np.newaxis,:,np.newaxis,np.newaxis] - mu) / sigma
 
-        # We can then compute the conditional likelihood Pr(z | underlying_outcome, model).
-        conditional_L = norm(0, 1).pdf(scaled_outcomes)
+        # We can then compute the conditional likelihood Pr(outcome | underlying_outcome, model),
+        # including the Jacobian of the rescaling.
+        conditional_L = norm(0, 1).pdf(scaled_outcomes) / sigma
 
         # To find the marginalized likeihood, we now need the underlying likelihood
         # Pr(underlying_outcome | model), so that we can sum over the idx_u_o axis.
-- 
2.43.0


From 09ee58c537f70aeb467a34247ba704eaf4a450d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 03/71] fix: multinomial_pdf gave NaN when the last probability
 rounded below zero

---
 src/qinfer/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index f767048..75f7493 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -147,7 +147,8 @@ def multinomial_pdf(n,p):
     if p.shape[0] == n.shape[0] - 1:
         ep = np.empty(n.shape)
         ep[:p.shape[0],...] = p
-        ep[-1,...] = 1-np.sum(p,axis=0)
+        # rounding can push this below zero, which has no logarithm.
+        ep[-1,...] = np.clip(1-np.sum(p,axis=0), 0, 1)
     else:
         ep = p
     log_p_sum = np.sum(nlogp(n, ep), axis=0)
-- 
2.43.0


From d275932fb57b263da6f11dea215b89d2ffa0cbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 04/71] fix: index the outcomes once in
 FiniteOutcomeModel.simulate_experiment

---
 src/qinfer/abstract_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index e3fe645..3970c8f 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -640,8 +640,7 @@ class FiniteOutcomeModel(Model):
             probabilities = self.likelihood(all_outcomes, modelparams, expparams)
             cdf = np.cumsum(probabilities, axis=0)
             randnum = np.random.random((repeat, 1, modelparams.shape[0], expparams.shape[0]))
-            outcome_idxs = all_outcomes[np.argmax(cdf > randnum, axis=1)]
-            outcomes = all_outcomes[outcome_idxs]
+            outcomes = all_outcomes[np.argmax(cdf > randnum, axis=1)]
         else:
             # Loop over each experiment, sadly.
             # Assume all domains have the same dtype
-- 
2.43.0


From 8c150d59a1b1d7c3833dd10f9ea74a80dde4cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 05/71] fix: take the domain of each experiment when simulating
 experiments with different outcomes

---
 src/qinfer/abstract_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index 3970c8f..5881b79 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -648,7 +648,7 @@ class FiniteOutcomeModel(Model):
             dtype = self.domain(expparams[0, np.newaxis])[0].dtype
             outcomes = np.empty((repeat, modelparams.shape[0], expparams.shape[0]), dtype=dtype)
             for idx_experiment, single_expparams in enumerate(expparams[:, np.newaxis]):
-                all_outcomes = self.domain(single_expparams).values
+                all_outcomes = self.domain(single_expparams)[0].values
                 probabilities = self.likelihood(all_outcomes, modelparams, single_expparams)
                 cdf = np.cumsum(probabilities, axis=0)[..., 0]
                 randnum = np.random.random((repeat, 1, modelparams.shape[0]))
-- 
2.43.0


From 9e902c78ad227624aa19256878848c534d91b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 06/71] fix: n_outcomes_cutoff setter recursed forever

---
 src/qinfer/abstract_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index 5881b79..c45ee21 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -603,7 +603,7 @@ class FiniteOutcomeModel(Model):
 
         :param int value: Cutoff value.
         """
-        self.n_outcomes_cutoff = value
+        self._n_outcomes_cutoff = value
    
     ## ABSTRACT METHODS ##
                 
-- 
2.43.0


From 408a9353ee8c1d3f922bb01c9db096259b49ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 07/71] fix: derived models report is_n_outcomes_constant of
 the model they decorate

---
 src/qinfer/derived_models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 581bf59..fab35e9 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -123,6 +123,10 @@ class DerivedModel(Model):
     def Q(self):
         return self.underlying_model.Q
     
+    @property
+    def is_n_outcomes_constant(self):
+        return self.underlying_model.is_n_outcomes_constant
+
     def clear_cache(self):
         self.underlying_model.clear_cache()
 
-- 
2.43.0


From 970d1e6e5b409862b4e8e2d2c2ef17595f65dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 08/71] fix: count likelihood calls of MLEModel

---
 src/qinfer/derived_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index fab35e9..201c391 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -705,6 +705,7 @@ class MLEModel(DerivedModel):
         return self.underlying_model.simulate_experiment(modelparams, expparams, repeat)
 
     def likelihood(self, outcomes, modelparams, expparams):
+        super(MLEModel, self).likelihood(outcomes, modelparams, expparams)
         L = self.underlying_model.likelihood(outcomes, modelparams, expparams)
         return L**self._pow
 
-- 
2.43.0


From 9b08bd77f221e37f995df830010c0b717d773807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 09/71] fix: BinomialModel.simulate_experiment failed for one
 model and several experiments

---
 src/qinfer/derived_models.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 201c391..ace5772 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -348,15 +348,7 @@ class BinomialModel(DerivedModel):
             expparams['n_meas'].astype('int'), # ← Really, NumPy?
             pr1[0, :, :]
         )
-        sample = (
-            (lambda: dist.rvs()[np.newaxis, :, :])
-            if pr1.size != 1 else
-            (lambda: np.array([[[dist.rvs()]]]))
-        )
-        os = np.concatenate([
-            sample()
-            for idx in range(repeat)
-        ], axis=0)
+        os = dist.rvs(size=(repeat,) + pr1.shape[1:])
         return os[0,0,0] if os.size == 1 else os
         
     def update_timestep(self, modelparams, expparams):
-- 
2.43.0


From ce6a4d96275a84b92552ba862bac91271dcf13bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 10/71] fix: draw fresh Gaussian noise for every repetition and
 count them all

---
 src/qinfer/derived_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index ace5772..d89cb88 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -481,11 +481,11 @@ class GaussianHyperparameterizedModel(DerivedModel):
         return (underlying_L * conditional_L).sum(axis=0)
 
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        super(GaussianHyperparameterizedModel, self).simulate_experiment(modelparams, expparams)
+        super(GaussianHyperparameterizedModel, self).simulate_experiment(modelparams, expparams, repeat)
 
         # Start by generating a bunch of (0, 1) normalized random variates
         # that we'll randomly rescale to the right location and shape.
-        zs = np.random.randn(modelparams.shape[0], expparams.shape[0])
+        zs = np.random.randn(repeat, modelparams.shape[0], expparams.shape[0])
 
         # Next, we sample a bunch of underlying outcomes to figure out
         # how to rescale everything.
-- 
2.43.0


From 9326d4b7284c641e0cdeb6b0b51b36b20b84bf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 11/71] fix: MultinomialModel sampled from an uninitialised
 last probability

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index d89cb88..ba8f787 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -663,7 +663,7 @@ class MultinomialModel(DerivedModel):
             modelparams,
             expparams['x'] if self._expparams_scalar else expparams) 
             # shape (sides, n_mps, n_eps)
-
+        prs[-1,...] = np.clip(1 - np.sum(prs[:-1,...], axis=0), 0, 1)
 
         os = np.concatenate([
             sample_multinomial(n_meas, prs[:,:,idx_n_meas], size=repeat)[np.newaxis,...]
-- 
2.43.0


From 265c7a480d99820cf67373b505a211a79fd2720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 12/71] fix: count all the repetitions simulated by
 MultinomialModel

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index ba8f787..f6b1dc0 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -650,7 +650,7 @@ class MultinomialModel(DerivedModel):
         return L
 
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        super(MultinomialModel, self).simulate_experiment(modelparams, expparams)
+        super(MultinomialModel, self).simulate_experiment(modelparams, expparams, repeat)
         
         n_sides = self.n_sides
         n_mps = modelparams.shape[0]
-- 
2.43.0


From 66e6394768c7ec1c015198ddc9db455352efd55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 13/71] fix: count the experiments simulated by BinomialModel

---
 src/qinfer/derived_models.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index f6b1dc0..72ccc4c 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -334,10 +334,8 @@ class BinomialModel(DerivedModel):
         return L
             
     def simulate_experiment(self, modelparams, expparams, repeat=1):
-        # FIXME: uncommenting causes a slowdown, but we need to call
-        #        to track sim counts.
-        #super(BinomialModel, self).simulate_experiment(modelparams, expparams)
-        
+        super(BinomialModel, self).simulate_experiment(modelparams, expparams, repeat)
+
         # Start by getting the pr(1) for the underlying model.
         pr1 = self.underlying_model.likelihood(
             np.array([1], dtype='uint'),
-- 
2.43.0


From 5bdcd1e33521efc218b8a296e6b7a09df7a68fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 14/71] fix: GaussianHyperparameterizedModel hands the
 underlying model only its own parameters

---
 src/qinfer/derived_models.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 72ccc4c..fbcf96d 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -435,6 +435,24 @@ class GaussianHyperparameterizedModel(DerivedModel):
             np.all(sigma2 > 0, axis=-1)
         ], axis=0)
 
+    @property
+    def Q(self):
+        return np.concatenate([self.underlying_model.Q, np.ones((4,))])
+
+    def canonicalize(self, modelparams):
+        return np.concatenate([
+            self.underlying_model.canonicalize(modelparams[:, self._orig_mps_slice]),
+            modelparams[:, self._mu_slice],
+            modelparams[:, self._sigma2_slice]
+        ], axis=1)
+
+    def update_timestep(self, modelparams, expparams):
+        new_mps = np.repeat(modelparams[:, :, np.newaxis], expparams.shape[0], axis=2)
+        new_mps[:, self._orig_mps_slice, :] = self.underlying_model.update_timestep(
+            modelparams[:, self._orig_mps_slice], expparams
+        )
+        return new_mps
+
     def underlying_likelihood(self, binary_outcomes, modelparams, expparams):
         """
         Given outcomes hypothesized for the underlying model, returns the likelihood
-- 
2.43.0


From 2424036ed745f30142395d10975576c4474118a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 15/71] fix: GaussianRandomWalkModel hands the underlying model
 only its own parameters

---
 src/qinfer/derived_models.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index fbcf96d..34a45ff 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -890,8 +890,19 @@ class GaussianRandomWalkModel(DerivedModel):
     def is_n_outcomes_constant(self):
         return False
             
+    @property
+    def Q(self):
+        return np.concatenate([self.underlying_model.Q, np.ones((len(self._srw_names),))])
+
     ## METHODS ##
     
+    def canonicalize(self, modelparams):
+        n_orig_mps = self.underlying_model.n_modelparams
+        return np.concatenate([
+            self.underlying_model.canonicalize(modelparams[:, :n_orig_mps]),
+            modelparams[:, n_orig_mps:]
+        ], axis=1)
+
     def are_models_valid(self, modelparams):
         ud_valid = self.underlying_model.are_models_valid(modelparams[...,:self.underlying_model.n_modelparams])
         if self._has_fixed_covariance:
-- 
2.43.0


From e09b18f6ca291dc65efbbdc0785a2d80f6b3a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 16/71] fix: typo in an error message of
 GaussianRandomWalkModel raised AttributeError

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 34a45ff..99cb968 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -844,7 +844,7 @@ class GaussianRandomWalkModel(DerivedModel):
                 if fixed_covariance.ndim != 1:
                     raise ValueError('Diagonal covariance requested, but fixed_covariance has {} dimensions.'.format(fixed_covariance.ndim))
                 if fixed_covariance.size != self._n_rw:
-                    raise ValueError('fixed_covariance dimension, {}, inconsistent with number of parameters, {}'.format(fixed_covariance.size, self.n_rw))
+                    raise ValueError('fixed_covariance dimension, {}, inconsistent with number of parameters, {}'.format(fixed_covariance.size, self._n_rw))
                 self._fixed_scale = np.sqrt(fixed_covariance)
             else:
                 if fixed_covariance.ndim != 2:
-- 
2.43.0


From 45c86cc1c581d17d34fe30eeb36fa415ace3d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 17/71] fix: PoisonedModel accepted neither or both of tol and
 n_samples

---
 src/qinfer/derived_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 99cb968..681709c 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -173,7 +173,7 @@ class PoisonedModel(DerivedModel):
     ):
         super(PoisonedModel, self).__init__(underlying_model)
         
-        if tol is None != n_samples is None:
+        if (tol is None) == (n_samples is None):
             raise ValueError(
                 "Exactly one of tol and n_samples must be specified"
             )
-- 
2.43.0


From 43e4b4bdf7e90994a2cfe72f17584ec7f9530904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 18/71] fix: Fisher information of models whose number of
 outcomes varies

---
 src/qinfer/abstract_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/abstract_model.py b/src/qinfer/abstract_model.py
index c45ee21..c878508 100644
--- a/src/qinfer/abstract_model.py
+++ b/src/qinfer/abstract_model.py
@@ -753,7 +753,10 @@ class DifferentiableModel(with_metaclass(abc.ABCMeta, Model)):
                 outcomes = np.arange(n_o)
                 scores, L = self.score(outcomes, modelparams, experiment, return_L=True)
                 
-                fisher[:, :, :, idx_experiment] = np.einsum("ome,iome,jome->ijme",
+                if len(scores.shape) == 3:
+                    scores = scores[np.newaxis, :, :, :]
+
+                fisher[:, :, :, idx_experiment] = np.einsum("ome,iome,jome->ijm",
                     L, scores, scores
                 )
             
-- 
2.43.0


From c2870d2772dcd2910d353561ea39cda81a09cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 19/71] fix: DifferentiableBinomialModel hands scalar
 experiments to the underlying model

---
 src/qinfer/derived_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/derived_models.py b/src/qinfer/derived_models.py
index 681709c..2565090 100644
--- a/src/qinfer/derived_models.py
+++ b/src/qinfer/derived_models.py
@@ -373,7 +373,8 @@ class DifferentiableBinomialModel(BinomialModel, DifferentiableModel):
         # FI provided by the underlying model by the number of measurements
         # that we perform.
         two_outcome_fi = self.underlying_model.fisher_information(
-            modelparams, expparams
+            modelparams,
+            expparams['x'] if self._expparams_scalar else expparams
         )
         return two_outcome_fi * expparams['n_meas']
 
-- 
2.43.0


From 7eea8f387798f2050b95dc40072aece371fc9156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 20/71] fix: zero_weight_policy "reset" overwrote the fresh
 weights with zeros

---
 src/qinfer/smc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 3b907c6..4ea8973 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -432,6 +432,7 @@ class SMCUpdater(ParticleDistribution):
             elif self._zero_weight_policy == 'reset':
                 warnings.warn("All particle weights are zero. Resetting from initial prior.", ApproximationWarning)
                 self.reset()
+                return
             else:
                 raise ValueError("Invalid zero-weight policy {} encountered.".format(self._zero_weight_policy))
 
-- 
2.43.0


From 1fffc3a2383ab85c40402996f591bd133346326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 21/71] fix: renormalise the weights after clipping negative
 ones

---
 src/qinfer/smc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 4ea8973..8879c79 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -416,6 +416,9 @@ class SMCUpdater(ParticleDistribution):
         if not np.all(weights >= 0):
             warnings.warn("Negative weights occured in particle approximation. Smallest weight observed == {}. Clipping weights.".format(np.min(weights)), ApproximationWarning)
             np.clip(weights, 0, 1, out=weights)
+            clipped_norm = np.sum(weights)
+            if clipped_norm > self._zero_weight_thresh:
+                weights /= clipped_norm
 
         # Next, check if we have caused the weights to go to zero, as can
         # happen if the likelihood is identically zero for all particles,
-- 
2.43.0


From 4ce574af438fb955667a93cfd267026a3adaf2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 22/71] fix: resetting some parameters canonicalises whole
 model parameter vectors

---
 src/qinfer/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 8879c79..831abf0 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -317,7 +317,7 @@ class SMCUpdater(ParticleDistribution):
 
         # Since this changes particle positions, we must recanonicalize.
         if self._canonicalize:
-            self.particle_locations[sl] = self.model.canonicalize(self.particle_locations[sl])
+            self.particle_locations[:, :] = self.model.canonicalize(self.particle_locations)
 
     ## UPDATE METHODS #########################################################
 
-- 
2.43.0


From ce8966738f6aebf85e9f2621c89a57c1a02749f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 23/71] fix: Bayes risk and expected information gain were NaN
 for impossible outcomes or zero weights

---
 src/qinfer/smc.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 831abf0..f9225c9 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -60,6 +60,7 @@ import numpy as np
 from scipy.spatial import ConvexHull, Delaunay
 import scipy.linalg as la
 import scipy.stats
+import scipy.special
 import scipy.interpolate
 from scipy.ndimage.filters import gaussian_filter1d
 
@@ -591,9 +592,13 @@ class SMCUpdater(ParticleDistribution):
                 return_normalization=True, 
                 return_likelihood=True
             )
-        w_hyp_last_outcome = (1 - L.sum(axis=0)) * self.particle_weights[np.newaxis, :]
+        # (rounding must not make the likelihood of the last outcome negative)
+        L_last_outcome = np.maximum(1 - L.sum(axis=0), 0)
+        w_hyp_last_outcome = L_last_outcome * self.particle_weights[np.newaxis, :]
         N = np.concatenate([N[:,:,0], np.sum(w_hyp_last_outcome[np.newaxis,:,:], axis=2)], axis=0)
-        w_hyp_last_outcome = w_hyp_last_outcome / N[-1,:,np.newaxis]
+        # as in hypothetical_update, all weights are zero given an impossible outcome
+        norm_last_outcome = np.where(N[-1,:] < np.spacing(1), 1, N[-1,:])
+        w_hyp_last_outcome = w_hyp_last_outcome / norm_last_outcome[:,np.newaxis]
         w_hyp = np.concatenate([w_hyp, w_hyp_last_outcome[np.newaxis,:,:]], axis=0)
         # w_hyp.shape == (n_out, n_eps, n_particles)
         # N.shape == (n_out, n_eps)
@@ -652,16 +657,24 @@ class SMCUpdater(ParticleDistribution):
                 return_normalization=True, 
                 return_likelihood=True
             )
-        w_hyp_last_outcome = (1 - L.sum(axis=0)) * self.particle_weights[np.newaxis, :]
+        # (rounding must not make the likelihood of the last outcome negative)
+        L_last_outcome = np.maximum(1 - L.sum(axis=0), 0)
+        w_hyp_last_outcome = L_last_outcome * self.particle_weights[np.newaxis, :]
         N = np.concatenate([N[:,:,0], np.sum(w_hyp_last_outcome[np.newaxis,:,:], axis=2)], axis=0)
-        w_hyp_last_outcome = w_hyp_last_outcome / N[-1,:,np.newaxis]
+        # as in hypothetical_update, all weights are zero given an impossible outcome
+        norm_last_outcome = np.where(N[-1,:] < np.spacing(1), 1, N[-1,:])
+        w_hyp_last_outcome = w_hyp_last_outcome / norm_last_outcome[:,np.newaxis]
         w_hyp = np.concatenate([w_hyp, w_hyp_last_outcome[np.newaxis,:,:]], axis=0)
         # w_hyp.shape == (n_out, n_eps, n_particles)
         # N.shape == (n_out, n_eps)
 
         # compute the Kullback-Liebler divergence for every experiment and possible outcome
         # KLD.shape == (n_out, n_eps)
-        KLD = np.sum(w_hyp * np.log(w_hyp / self.particle_weights), axis=2)
+        # particles of zero weight do not contribute
+        KLD = np.sum(
+            scipy.special.xlogy(w_hyp, w_hyp) - scipy.special.xlogy(w_hyp, self.particle_weights),
+            axis=2
+        )
 
         # return the expected KLD (ie expected info gain) for every experiment
         return np.sum(N * KLD, axis=0)
-- 
2.43.0


From 51e3110c0de97e3f5f193f31771ccb1c909b5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 24/71] fix: MixedApproximateSMCUpdater failed when all or no
 particles go to one of its models

---
 src/qinfer/smc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index f9225c9..e6cca12 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1015,12 +1015,18 @@ class MixedApproximateSMCUpdater(SMCUpdater):
         locs_good = locs[good_mask, :]
         locs_bad = locs[bad_mask, :]
 
+        any_good, any_bad = np.any(good_mask), np.any(bad_mask)
         assert_thresh=1e-6
-        assert np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
+        assert (
+            not (any_good and any_bad) or
+            np.mean(weights[good_mask]) - np.mean(weights[bad_mask]) >= -assert_thresh
+        )
 
         # Now find L for each of the good and bad models.
-        L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
-        L[:, bad_mask, :] = self._apx_model.likelihood(outcomes, locs_bad, expparams)
+        if any_good:
+            L[:, good_mask, :] = self._good_model.likelihood(outcomes, locs_good, expparams)
+        if any_bad:
+            L[:, bad_mask, :] = self._apx_model.likelihood(outcomes, locs_bad, expparams)
         L = L.transpose([0, 2, 1])
 
         # update the weights sans normalization
-- 
2.43.0


From c7838f182c8272abeb166cc11cb816e17263a004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 25/71] fix: est_credible_region failed when every particle is
 needed to reach the level

---
 src/qinfer/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index c3b7417..478bd68 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -600,7 +600,8 @@ class ParticleDistribution(Distribution):
         id_cred = cumsum_weights <= level
         # By construction, by adding the next particle to id_cred, it must be
         # true that `cumsum_weights[id_cred] >= level`, as required.
-        id_cred[np.sum(id_cred)] = True
+        # (If all of the particles are already included, there is none to add.)
+        id_cred[np.sum(id_cred):][:1] = True
 
         # We now return a slice onto the particle_locations by first permuting
         # the particles according to the sort order, then by selecting the
-- 
2.43.0


From 4e6a2660d8a222c116b92c723baf0884be325e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 26/71] fix: region_est_ellipsoid returns the covariance matrix
 of the ellipsoid, as documented

---
 src/qinfer/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 478bd68..0f8cc3b 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -663,8 +663,9 @@ class ParticleDistribution(Distribution):
         """
         _, vertices = self.region_est_hull(level=level, modelparam_slice=modelparam_slice)
 
-        A, centroid = u.mvee(vertices, tol)
-        return A, centroid
+        # mvee returns the inverse of the covariance matrix of the ellipsoid.
+        invA, centroid = u.mvee(vertices, tol)
+        return np.linalg.inv(invA), centroid
 
     def in_credible_region(self, points, level=0.95, modelparam_slice=None, method='hpd-hull', tol=0.0001):
         """
@@ -731,7 +732,7 @@ class ParticleDistribution(Distribution):
         elif method == 'hpd-mvee':
             tol = 0.0001 if tol is None else tol
             A, c = self.region_est_ellipsoid(level=level, tol=tol, modelparam_slice=modelparam_slice)
-            results = u.in_ellipsoid(points, np.linalg.inv(A), c)
+            results = u.in_ellipsoid(points, A, c)
 
         elif method == 'hpd-hull':
             # it would be more natural to call region_est_hull,
-- 
2.43.0


From 554e258a9a0a37a53e69fa4d53d14a6de12c88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 27/71] fix: posterior_mesh returned the densities of the
 transposed mesh

---
 src/qinfer/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index e6cca12..73080b8 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -836,7 +836,7 @@ class SMCUpdater(ParticleDistribution):
             np.linspace(np.min(locs[:, 0]), np.max(locs[:, 0]), res1),
             np.linspace(np.min(locs[:, 1]), np.max(locs[:, 1]), res2)
         )
-        plot_locs = np.array([p1s, p2s]).T.reshape((np.prod(p1s.shape), 2))
+        plot_locs = np.stack([p1s, p2s], axis=-1).reshape((np.prod(p1s.shape), 2))
 
         pr = np.sum( # <- sum over the particles in the SMC approximation.
             np.prod( # <- product over model parameters to get a multinormal
-- 
2.43.0


From 95e3b8ed61676da41f146afaf8b5e68074aef5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 28/71] fix: SMCUpdaterBCRB dropped most of the keyword
 arguments of SMCUpdater

---
 src/qinfer/smc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 73080b8..ce26eff 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1091,10 +1091,7 @@ class SMCUpdaterBCRB(SMCUpdater):
     def __init__(self, *args, **kwargs):
         SMCUpdater.__init__(self, *args, **{
             key: kwargs[key] for key in kwargs
-            if key in [
-                'resampler_a', 'resampler', 'resample_thresh', 'model',
-                'prior', 'n_particles'
-            ]
+            if key not in ['adaptive', 'initial_bim']
         })
 
         if not isinstance(self.model, DifferentiableModel):
-- 
2.43.0


From 0149c6fb72b6c810d5bed123fec08b1af1af68c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 29/71] fix: SMCUpdaterBCRB modified the initial_bim array of
 its caller

---
 src/qinfer/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index ce26eff..3b674be 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -1111,7 +1111,7 @@ class SMCUpdaterBCRB(SMCUpdater):
                 axis=0
             ) / self.n_particles
         else:
-            self._current_bim = kwargs['initial_bim']
+            self._current_bim = np.array(kwargs['initial_bim'], dtype=float)
 
         # Also track the adaptive BIM, if we've been asked to.
         if "adaptive" in kwargs and kwargs["adaptive"]:
-- 
2.43.0


From d425ecebfe8584c16ee255a513cc4404c33dae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 30/71] fix: Liu-West resampler redrew invalid particles around
 the means of other particles

---
 src/qinfer/resamplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index 80531fd..89ad215 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -369,7 +369,7 @@ class LiuWestResampler(Resampler):
             # This may look a little weird, but it should delete the unused
             # elements of js, so that we don't need to reallocate.
             js = js[np.logical_not(valid_mask)]
-            mus = mus[:idxs_to_resample.size, :]
+            mus = mus[np.logical_not(valid_mask), :]
 
         if idxs_to_resample.size:
             # We failed to force all models to be valid within maxiter attempts.
-- 
2.43.0


From 71f7538777a25e4bbc50661c35ee1a8bf5f311b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 31/71] fix: Liu-West resampler ran past the last particle when
 weights sum to less than one by rounding

---
 src/qinfer/resamplers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/resamplers.py b/src/qinfer/resamplers.py
index 89ad215..53268ab 100644
--- a/src/qinfer/resamplers.py
+++ b/src/qinfer/resamplers.py
@@ -315,10 +315,10 @@ class LiuWestResampler(Resampler):
         # Draw j with probability self.particle_weights[j].
         # We do this by drawing random variates uniformly on the interval
         # [0, 1], then see where they belong in the CDF.
-        js = cumsum_weights.searchsorted(
+        js = np.minimum(cumsum_weights.searchsorted(
             np.random.random((idxs_to_resample.size,)),
             side='right'
-        )
+        ), len(cumsum_weights) - 1)
 
         # Set mu_i to a x_j + (1 - a) mu.
         # FIXME This should use particle_dist.particle_mean
-- 
2.43.0


From f0f369e7341290908c71119465e1ba38746562bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:07 +0000
Subject: [PATCH 32/71] fix: adaptive likelihood estimation started from
 samp_step samples, but counted min_samp

---
 src/qinfer/ale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/ale.py b/src/qinfer/ale.py
index add7171..a099373 100644
--- a/src/qinfer/ale.py
+++ b/src/qinfer/ale.py
@@ -152,7 +152,8 @@ class ALEApproximateModel(DerivedModel):
         n = np.zeros((modelparams.shape[0], expparams.shape[0]))
         for N in count(start=self._min_samp, step=self._samp_step):
             sim_data = simulator.simulate_experiment(
-                modelparams, expparams, repeat=self._samp_step
+                modelparams, expparams,
+                repeat=self._min_samp if N == self._min_samp else self._samp_step
             )
             n += np.sum(sim_data, axis=0) # Sum over the outcomes axis to find the
                                           # number of 1s.
-- 
2.43.0


From c2e8f1b98be8e1d2e74aee78b5bc0f9185d45a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 33/71] fix: samples of DiscreteUniformDistribution had one
 axis instead of two

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 0f8cc3b..0190247 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1164,7 +1164,7 @@ class DiscreteUniformDistribution(Distribution):
         return 1
 
     def sample(self, n=1):
-        z = np.random.randint(2**self._num_bits,size=n)
+        z = np.random.randint(2**self._num_bits,size=(n, self.n_rvs))
         return z
 
 class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
-- 
2.43.0


From 7e6d1f565d54511b359703c1f3c432bb0d7bcd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 34/71] fix: HilbertSchmidtUniform could not be instantiated

---
 src/qinfer/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 0190247..95f19fd 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1189,7 +1189,7 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
     def n_rvs(self):
         return self.dim**2 - 1
 
-    def sample(self):
+    def _sample(self):
         #Generate random unitary (see e.g. http://arxiv.org/abs/math-ph/0609050v2)
         g = (np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim))/np.sqrt(2.0)
         q,r = la.qr(g)
@@ -1218,7 +1218,7 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
         else:
             temp = np.zeros([d**2,d,d],dtype='complex128')
             for idx in range(temp.shape[0]):
-                temp[idx,:] = np.kron(paulis[np.trunc(idx/d)], self.paulis1Q[idx % 4])
+                temp[idx,:] = np.kron(paulis[idx // 4], self.paulis1Q[idx % 4])
             return self.make_Paulis(temp,d*2)
 
 
-- 
2.43.0


From ecb59603524706a36bc48373218e85acdc014de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 35/71] fix: HilbertSchmidtUniform sampled from the Bures
 measure

---
 src/qinfer/distributions.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 95f19fd..b30d49d 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1190,20 +1190,10 @@ class HilbertSchmidtUniform(SingleSampleMixin, Distribution):
         return self.dim**2 - 1
 
     def _sample(self):
-        #Generate random unitary (see e.g. http://arxiv.org/abs/math-ph/0609050v2)
-        g = (np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim))/np.sqrt(2.0)
-        q,r = la.qr(g)
-        d = np.diag(r)
-
-        ph = d/np.abs(d)
-        ph = np.diag(ph)
-
-        U = np.dot(q,ph)
-
         #Generate random matrix
         z = np.random.randn(self.dim,self.dim) + 1j*np.random.randn(self.dim,self.dim)
 
-        rho = np.dot(np.dot(np.identity(self.dim)+U,np.dot(z,z.conj().transpose())),np.identity(self.dim)+U.conj().transpose())
+        rho = np.dot(z,z.conj().transpose())
         rho = rho/np.trace(rho)
 
         x = np.zeros([self.n_rvs])
-- 
2.43.0


From a2d03abc5647b423983a9b5da601e21efab4f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 36/71] fix: MixtureDistribution of a class failed without
 positional arguments

---
 src/qinfer/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index b30d49d..4aeb1d3 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -185,7 +185,8 @@ class MixtureDistribution(Distribution):
             self._dist = dist
             self._dist_args = dist_args
             self._dist_kw_args = dist_kw_args
-            assert(self._n_dist == self._dist_args.shape[0])
+            if self._dist_args is not None:
+                assert(self._n_dist == self._dist_args.shape[0])
 
             self._example_dist = self._dist(
                 *self._dist_arg(0),
-- 
2.43.0


From 3440473598480e8a03f01e7863d650d4180ea00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 37/71] fix: ConstrainedSumDistribution flipped the sign of
 samples with a negative total

---
 src/qinfer/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 4aeb1d3..a0c8142 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -1407,4 +1407,4 @@ class ConstrainedSumDistribution(Distribution):
     def sample(self, n=1):
         s = self.underlying_distribution.sample(n)
         totals = np.sum(s, axis=1)[:,np.newaxis]
-        return self.desired_total * np.sign(totals) * s / totals
+        return self.desired_total * s / totals
-- 
2.43.0


From 9cf383180b8f580a8427bf0b991b18eb3c05280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 38/71] fix: ProductDomain could not be made from a single list
 of domains

---
 src/qinfer/domains.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index 6b80c7a..fbac10e 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -176,7 +176,6 @@ class ProductDomain(Domain):
         else:
             self._domains = domains
         
-        self._domains = domains
         self._dtypes = [domain.example_point.dtype for domain in self._domains]
         self._example_point = join_struct_arrays(
             [np.array(domain.example_point) for domain in self._domains]
-- 
2.43.0


From 1da7146779046ac85e6730b038bbc29594434c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 39/71] fix: structured arrays with equal field names could not
 be joined

---
 src/qinfer/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 75f7493..aa6c645 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -565,6 +565,11 @@ def join_struct_arrays(arrays):
     for a, size, offset in zip(arrays, sizes, offsets):
         joint[...,offset:offset+size] = np.atleast_1d(a).view(np.uint8).reshape(shape + (size,))
     dtype = sum((a.dtype.descr for a in arrays), [])
+    try:
+        dtype = np.dtype(dtype)
+    except ValueError:
+        # Some names occur more than once, so number the fields instead.
+        dtype = np.dtype([('f{}'.format(idx),) + field[1:] for idx, field in enumerate(dtype)])
     return joint.ravel().view(dtype)
 
 def separate_struct_array(array, dtypes):
-- 
2.43.0


From a41555e671de66844ed1a7631826234ad5476e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:44 +0000
Subject: [PATCH 40/71] fix: sample_multinomial failed for sizes with more than
 one axis

---
 src/qinfer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index aa6c645..9f3ffa9 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -193,7 +193,7 @@ def sample_multinomial(N, p, size=None):
     samples = samples.reshape(np.concatenate([s, p.shape]))
     # should have shape (p.shape, size)
     samples = samples.transpose(np.concatenate(
-        [np.arange(s.ndim, p.ndim+s.ndim), np.arange(s.ndim)]
+        [np.arange(s.size, p.ndim+s.size), np.arange(s.size)]
     ))
 
     if size is None:
-- 
2.43.0


From cf14db0e04b400d216acfa257b93db7808c89b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:44 +0000
Subject: [PATCH 41/71] fix: assert_sigfigs_equal accepted any two negative
 numbers

---
 src/qinfer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 9f3ffa9..f385168 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -397,7 +397,7 @@ def assert_sigfigs_equal(x, y, sigfigs=3):
         Default is 3.
     """
     # determine which power of 10 best describes x
-    xpow =  np.floor(np.log10(x))
+    xpow =  np.floor(np.log10(np.abs(x)))
     # now rescale 1 \leq x < 9
     x = x * 10**(- xpow)
     # scale y by the same amount
-- 
2.43.0


From 591674ed7278ece060a0e0d8762619e66c19cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 42/71] fix: multinomial_pdf gave NaN for impossible outcomes
 of many rolls

---
 src/qinfer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index f385168..7ac6902 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -157,7 +157,7 @@ def multinomial_pdf(n,p):
 
     # if n_k>0 but p_k=0, the whole probability must be 0
     mask = np.sum(np.logical_and(n!=0, ep==0), axis=0) == 0
-    probs = mask * probs
+    probs = np.where(mask, probs, 0)
 
     return probs[0,...]
 
-- 
2.43.0


From 51f9163ff9e273c56a078755b7165e6adce5ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 43/71] fix: format_uncertainty printed uncertainties as zero
 and broke negative exponents

---
 src/qinfer/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 7ac6902..0e0d205 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -421,9 +421,9 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
         return "{0:f}".format(value)
     else:
         # Return a string of the form "0.00 \pm 0.01".
-        mag_unc = int(np.log10(np.abs(uncertianty)))
+        mag_unc = int(np.floor(np.log10(np.abs(uncertianty))))
         # Zero should be printed as a single digit; that is, as wide as str "1".
-        mag_val = int(np.log10(np.abs(value))) if value != 0 else 0
+        mag_val = int(np.floor(np.log10(np.abs(value)))) if value != 0 else 0
         n_digits = max(mag_val - mag_unc, 0)
 
 
@@ -431,7 +431,7 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
             # We're formatting something close to zero, so recale uncertianty
             # accordingly.
             scale = 10**mag_unc
-            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{2}}".format(
+            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{{{{{2}}}}}}".format(
                 n_digits
             ).format(
                 value / scale,
@@ -439,10 +439,13 @@ def format_uncertainty(value, uncertianty, scinotn_break=4):
                 mag_unc
            )
         if abs(mag_val) <= scinotn_break:
+            # The numbers are not rescaled here, so that the number of digits
+            # follows from the uncertainty alone.
+            n_digits = max(-mag_unc, 0)
             return r"{{0:0.{n_digits}f}} \pm {{1:0.{n_digits}f}}".format(n_digits=n_digits).format(value, uncertianty)
         else:
             scale = 10**mag_val
-            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{2}}".format(
+            return r"({{0:0.{0}f}} \pm {{1:0.{0}f}}) \times 10^{{{{{{2}}}}}}".format(
                 n_digits
             ).format(
                 value / scale,
-- 
2.43.0


From d3fc50d06de3147cc78856e9237df35a65494877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 44/71] fix: numpy_err_policy kept its policy after an
 exception

---
 src/qinfer/perf_testing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index 9905c09..f511c0c 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -124,8 +124,10 @@ def numpy_err_policy(**kwargs):
     """
 
     old_errs = np.seterr(**kwargs)
-    yield
-    np.seterr(**old_errs)
+    try:
+        yield
+    finally:
+        np.seterr(**old_errs)
 
 ## CONSTANTS #################################################################
 
-- 
2.43.0


From efd99af93d7653c067236dbafe9376d132c0a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 45/71] fix: timing left its timer running after an exception

---
 src/qinfer/perf_testing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index f511c0c..89aa5ad 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -108,8 +108,10 @@ def timing():
     >>> print t.delta_t # Should return approximately 1.
     """
     t = Timer()
-    yield t
-    t.stop()
+    try:
+        yield t
+    finally:
+        t.stop()
 
 
 @contextmanager
-- 
2.43.0


From 244363e925efd48217b8be579c040c1b8c1fc512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:25 +0000
Subject: [PATCH 46/71] fix: simple_est_prec considered frequencies below
 freq_min

---
 src/qinfer/simple_est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index cc9ef1c..589e1c8 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -166,7 +166,7 @@ def simple_est_prec(data, freq_min=0.0, freq_max=1.0, n_particles=6000, return_a
         if ``return_all`` is `True`.
     """
     model = BinomialModel(SimplePrecessionModel(freq_min))
-    prior = UniformDistribution([0, freq_max])
+    prior = UniformDistribution([freq_min, freq_max])
 
     data = load_data_or_txt(data, [
         ('counts', 'uint'),
-- 
2.43.0


From f23bb6329b026896fec27d7cd453e0b162891ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 47/71] fix: simple estimation failed for text data with a
 single row

---
 src/qinfer/simple_est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/simple_est.py b/src/qinfer/simple_est.py
index 589e1c8..530907d 100644
--- a/src/qinfer/simple_est.py
+++ b/src/qinfer/simple_est.py
@@ -112,7 +112,7 @@ def load_data_or_txt(data, dtype):
         return data.to_records(index=False)
 
     elif hasattr(data, 'read') or isinstance(data, str):
-        data = np.loadtxt(data, dtype=dtype, delimiter=',')
+        data = np.loadtxt(data, dtype=dtype, delimiter=',', ndmin=1)
         return data
     else:
         raise TypeError("Expected a filename, an array or a file-like object.")
-- 
2.43.0


From a62053d811e207f12085e6e6e0b6b0085f07fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 48/71] fix: perf_test failed for most models when given a
 single vector of true parameters

---
 src/qinfer/perf_testing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qinfer/perf_testing.py b/src/qinfer/perf_testing.py
index 89aa5ad..a7f4b59 100644
--- a/src/qinfer/perf_testing.py
+++ b/src/qinfer/perf_testing.py
@@ -231,6 +231,8 @@ def perf_test(
 
     if true_mps is None:
         true_mps = true_prior.sample()
+    # Models expect an axis for the model vectors, of which there is only one.
+    true_mps = promote_dims_left(true_mps, 2)
 
     if extra_updater_args is None:
         extra_updater_args = {}
-- 
2.43.0


From 57f20466ffc4fbdd5527ad0bafaf708e96368a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 49/71] fix: ExpSparseHeuristic with a time field failed
 without other fields

---
 src/qinfer/expdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 7abec76..6c784de 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -135,7 +135,7 @@ class ExpSparseHeuristic(Heuristic):
         self._scale = scale
         self._base = base
         self._t_field = t_field
-        self._other_fields = other_fields
+        self._other_fields = other_fields if other_fields is not None else {}
 
     def __call__(self):
         n_exps = len(self._updater.data_record)
-- 
2.43.0


From 331292c0de1a9eb057a6572e7fc6ec1b843051c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 50/71] fix: ExperimentDesigner failed for guesses given by a
 function

---
 src/qinfer/expdesign.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 6c784de..ce7a347 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -319,6 +319,9 @@ class ExperimentDesigner(object):
             # use it as-is.
             ep = np.copy(guess)
         
+        # Keep the starting point, as the objective function changes ep.
+        x_guess = np.copy(ep[0][field])
+
         # Define an objective function that wraps a vector of scalars into
         # an appropriate record array.
         if (cost_mult==False):
@@ -354,7 +357,7 @@ class ExperimentDesigner(object):
         if self._opt_algo == OptimizationAlgorithms.NULL:
             # This optimization algorithm does nothing locally, but only
             # exists to leverage the store_guess functionality below.
-            x_opt = guess[0][field]
+            x_opt = x_guess
             
         elif self._opt_algo == OptimizationAlgorithms.CG:
             # Prepare any additional options.
@@ -364,7 +367,7 @@ class ExperimentDesigner(object):
                 
             # Actually call fmin_cg, gathering all outputs we can.
             x_opt, f_opt, func_calls, grad_calls, warnflag = opt.fmin_cg(
-                objective_function, guess[0][field],
+                objective_function, x_guess,
                 disp=disp, full_output=True, **opt_options
             )
             
@@ -390,7 +393,7 @@ class ExperimentDesigner(object):
             # anyway.
             try:
                 x_opt, f_opt, func_calls, grad_calls, h_calls, warnflag = opt.fmin_tnc(
-                    objective_function, guess[0][field],
+                    objective_function, x_guess,
                     fprime=None, bounds=None, approx_grad=True,
                     disp=disp, full_output=True, **opt_options
                 )
@@ -398,7 +401,7 @@ class ExperimentDesigner(object):
                 warnings.warn(
                     "Gradient function too flat for NCG.",
                     RuntimeWarning)
-                x_opt = guess[0][field]
+                x_opt = x_guess
                 f_opt = None
                 
         elif self._opt_algo == OptimizationAlgorithms.NELDER_MEAD:
@@ -409,7 +412,7 @@ class ExperimentDesigner(object):
                 opt_options['maxiter'] = maxiter
                 
             x_opt, f_opt, iters, func_calls, warnflag = opt.fmin(
-                objective_function, guess[0][field],
+                objective_function, x_guess,
                 disp=disp, full_output=True, **opt_options
             )
             
-- 
2.43.0


From 2e86058809144e4844eae73ad2a15988c440dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 51/71] fix: ExperimentDesigner could not use the NCG algorithm

---
 src/qinfer/expdesign.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index ce7a347..cbda431 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -392,10 +392,10 @@ class ExperimentDesigner(object):
             # case, since by hypothesis, it's too flat to make much difference
             # anyway.
             try:
-                x_opt, f_opt, func_calls, grad_calls, h_calls, warnflag = opt.fmin_tnc(
+                x_opt, func_calls, warnflag = opt.fmin_tnc(
                     objective_function, x_guess,
                     fprime=None, bounds=None, approx_grad=True,
-                    disp=disp, full_output=True, **opt_options
+                    disp=disp, **opt_options
                 )
             except TypeError:
                 warnings.warn(
-- 
2.43.0


From 9ccc2bd9c7412e8e1c0cc6669cef57c4c25522e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 52/71] fix: ExperimentDesigner did not compare stored guesses
 without an optimum value

---
 src/qinfer/expdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index cbda431..376caad 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -421,7 +421,7 @@ class ExperimentDesigner(object):
             # Possibly compute the objective function value at the local optimum
             # if we don't already know it.
             if f_opt is None:
-                guess_qual = objective_function(x_opt)
+                f_opt = objective_function(x_opt)
             
             # Compare to the known best cost so far.
             if self.__best_cost is None or (self.__best_cost > f_opt):
-- 
2.43.0


From 5dd673f613c98554daef6df814b3e484567eee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 53/71] fix: ExperimentDesigner shared its best guess with its
 caller

---
 src/qinfer/expdesign.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/expdesign.py b/src/qinfer/expdesign.py
index 376caad..6c6b73f 100644
--- a/src/qinfer/expdesign.py
+++ b/src/qinfer/expdesign.py
@@ -309,11 +309,12 @@ class ExperimentDesigner(object):
             raise NotImplementedError("Not yet implemented.")
         elif callable(guess):
             # Generate a new guess by calling the guess function provided.
-            ep = guess(
+            # We copy it, as it may still belong to that function.
+            ep = np.copy(guess(
                 idx_exp=len(up.data_record),
                 mean=up.est_mean(),
                 cov=up.est_covariance_mtx()
-            )
+            ))
         else:
             # Make a copy of the guess that we can manipulate, but otherwise
             # use it as-is.
@@ -429,9 +430,9 @@ class ExperimentDesigner(object):
                 # so record this guess.
                 ep[field] = x_opt
                 self.__best_cost = f_opt
-                self.__best_ep = ep
+                self.__best_ep = np.copy(ep)
             else:
-                ep = self.__best_ep # Guess is bad, return current best guess
+                ep = np.copy(self.__best_ep) # Guess is bad, return current best guess
         else:
             # We aren't using guess recording, so just pack the local optima
             # into ep for returning.
-- 
2.43.0


From a8fcab71a9721061e3938f7d7964b9909c597857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 54/71] fix: distributed simulations were joined along the
 wrong axis

---
 src/qinfer/parallel.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 7989f15..41fc712 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -258,15 +258,16 @@ class DirectViewParallelizedModel(DerivedModel):
 
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
+            # We don't leave any engine without models to simulate.
+            n_chunks = min(self.n_engines, modelparams.shape[0])
             os = self._dv.map_sync(
                 serial_simulator,
-                [self.underlying_model] * self.n_engines,
-                np.array_split(modelparams, self.n_engines, axis=0),
-                [expparams] * self.n_engines,
-                [repeat] * self.n_engines
+                [self.underlying_model] * n_chunks,
+                np.array_split(modelparams, n_chunks, axis=0),
+                [expparams] * n_chunks,
+                [repeat] * n_chunks
             )
-
-            return np.concatenate(os, axis=0)
+            axis = 1
 
         else:
             # If there's less models than some threshold, just use the serial model.
@@ -276,13 +277,23 @@ class DirectViewParallelizedModel(DerivedModel):
 
             # The trick is that serial_likelihood will be pickled, so we need to be
             # careful about closures.
+            # We don't leave any engine without experiments to simulate.
+            n_chunks = min(self.n_engines, expparams.shape[0])
             os = self._dv.map_sync(
                 serial_simulator,
-                [self.underlying_model] * self.n_engines,
-                [modelparams] * self.n_engines,
-                np.array_split(expparams, self.n_engines, axis=0),
-                [repeat] * self.n_engines
+                [self.underlying_model] * n_chunks,
+                [modelparams] * n_chunks,
+                np.array_split(expparams, n_chunks, axis=0),
+                [repeat] * n_chunks
             )
+            axis = 2
+
+        if n_chunks == 1:
+            return os[0]
 
-            return np.concatenate(os, axis=1)
+        # Data are indexed by repetition, model and experiment, but
+        # a chunk with only one datum is a scalar.
+        return np.concatenate([
+            o if np.ndim(o) == 3 else np.reshape(o, (1, 1, 1)) for o in os
+        ], axis=axis)
 
-- 
2.43.0


From bc4e14ec817244ce3bfcd2ebf7584ced386b6a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 55/71] fix: distributed likelihoods sent empty batches of
 models to engines

---
 src/qinfer/parallel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index 41fc712..e8ce310 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -213,12 +213,14 @@ class DirectViewParallelizedModel(DerivedModel):
         # that doesn't use so much memory.
         # The trick is that serial_likelihood will be pickled, so we need to be
         # careful about closures.
+        # We don't leave any engine without models to evaluate.
+        n_chunks = min(self.n_engines, modelparams.shape[0])
         L = self._dv.map_sync(
             serial_likelihood,
-            np.array_split(modelparams, self.n_engines, axis=0),
-            [self.underlying_model] * self.n_engines,
-            [outcomes] * self.n_engines,
-            [expparams] * self.n_engines
+            np.array_split(modelparams, n_chunks, axis=0),
+            [self.underlying_model] * n_chunks,
+            [outcomes] * n_chunks,
+            [expparams] * n_chunks
         )
 
         return np.concatenate(L, axis=1)
-- 
2.43.0


From 8e6b76a70b515d06b9b5fc2d4fcf2df2fc56f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 56/71] fix: particle_clusters failed without weights

---
 src/qinfer/clustering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/qinfer/clustering.py b/src/qinfer/clustering.py
index f8ac009..d7f1b15 100644
--- a/src/qinfer/clustering.py
+++ b/src/qinfer/clustering.py
@@ -100,10 +100,6 @@ def particle_clusters(
     if weighted == True and particle_weights is None:
         raise ValueError("Weights must be specified for weighted clustering.")
 
-    # Allocate new arrays to hold the weights and locations.
-    new_weights = np.empty(particle_weights.shape)
-    new_locs    = np.empty(particle_locations.shape)
-
     # Calculate and possibly reweight the metric.
     if weighted:
         M = sklearn.metrics.pairwise.pairwise_distances(particle_locations, metric=metric)
@@ -133,7 +129,7 @@ def particle_clusters(
     # If more than 10% of the particles were labeled as NOISE,
     # warn.
     n_noise = np.sum(cluster_labels == -1)
-    if n_noise / particle_weights.shape[0] >= 0.1:
+    if n_noise / particle_locations.shape[0] >= 0.1:
         warnings.warn("More than 10% of the particles were classified as NOISE. Consider increasing the neighborhood size ``eps``.", ResamplerWarning)
 
     # Print debugging info.
-- 
2.43.0


From c5518b00627ccd5c3788b0611f2b3d92dfce7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 57/71] fix: weighted clustering took the rows of the distance
 matrix for particles

---
 src/qinfer/clustering.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/clustering.py b/src/qinfer/clustering.py
index d7f1b15..7866e98 100644
--- a/src/qinfer/clustering.py
+++ b/src/qinfer/clustering.py
@@ -102,8 +102,10 @@ def particle_clusters(
 
     # Calculate and possibly reweight the metric.
     if weighted:
-        M = sklearn.metrics.pairwise.pairwise_distances(particle_locations, metric=metric)
-        M = metrics.weighted_pairwise_distances(M, particle_weights, w_pow=w_pow)
+        M = metrics.weighted_pairwise_distances(
+            particle_locations, particle_weights,
+            metric=metric, w_pow=w_pow
+        )
 
         # Create and run a SciKit-Learn DBSCAN clusterer.
         clusterer = sklearn.cluster.DBSCAN(
-- 
2.43.0


From e2c55477cd42cce2870a03381c73a26d99b5f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 58/71] fix: moments of clusters were taken with weights that
 do not sum to one

---
 src/qinfer/distributions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index a0c8142..3d31138 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -516,11 +516,12 @@ class ParticleDistribution(Distribution):
 
             w = self.particle_weights[cluster_particles]
             l = self.particle_locations[cluster_particles]
+            w_total = sum(w)
             yield (
                 cluster_label,
-                sum(w), # The zeroth moment is very useful here!
-                self.particle_mean(w, l),
-                self.particle_covariance_mtx(w, l)
+                w_total, # The zeroth moment is very useful here!
+                self.particle_mean(w / w_total, l),
+                self.particle_covariance_mtx(w / w_total, l)
             )
 
     def est_cluster_covs(self, cluster_opts=None):
-- 
2.43.0


From 3ca47a841db37acffa65d04f4fef9e583c74e618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 59/71] fix: cluster covariances failed for distributions of a
 single parameter

---
 src/qinfer/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/distributions.py b/src/qinfer/distributions.py
index 3d31138..d014e74 100644
--- a/src/qinfer/distributions.py
+++ b/src/qinfer/distributions.py
@@ -532,8 +532,8 @@ class ParticleDistribution(Distribution):
             dtype=[
                 ('label', 'int'),
                 ('weight', 'float64'),
-                ('mean', '{}float64'.format(self.n_rvs)),
-                ('cov', '{0},{0}float64'.format(self.n_rvs)),
+                ('mean', 'float64', (self.n_rvs,)),
+                ('cov', 'float64', (self.n_rvs, self.n_rvs)),
             ])
 
         ws = cluster_moments['weight'][:, np.newaxis, np.newaxis]
-- 
2.43.0


From cc0820c20d6938c6a2910c353aa24df0f727b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 60/71] fix: truncating negative eigenvalues was wrong for
 degenerate states

---
 src/qinfer/tomography/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/models.py b/src/qinfer/tomography/models.py
index 1bb2033..6787ad4 100644
--- a/src/qinfer/tomography/models.py
+++ b/src/qinfer/tomography/models.py
@@ -181,7 +181,9 @@ class TomographyModel(FiniteOutcomeModel):
             set to zero.
         """
         arr = np.tensordot(particle, self._basis.data.conj(), 1)
-        w, v = np.linalg.eig(arr)
+        # The state is Hermitian, such that eigh gives orthonormal eigenvectors
+        # even if some of the eigenvalues are degenerate.
+        w, v = np.linalg.eigh(arr)
         if np.all(w >= 0):
             return particle
         else:
-- 
2.43.0


From 39f8e9b25d8aea644900bd07ea7a921cb2f7c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 61/71] fix: TensorProductDistribution could not be
 instantiated

---
 src/qinfer/tomography/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 2e2ef00..0e4ddb7 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -153,9 +153,9 @@ class TensorProductDistribution(DensityOperatorDistribution):
     
     def __init__(self, factors):
         super(TensorProductDistribution, self).__init__(
-            basis=tensor_product_basis(
+            basis=tensor_product_basis(*[
                 factor.basis for factor in factors
-            )
+            ])
         )
         self._factors = tuple(factors)
 
-- 
2.43.0


From 52601366c54cc8183d463dff17840506d068106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 62/71] fix: GADFLIDistribution failed for bases of several
 subsystems

---
 src/qinfer/tomography/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qinfer/tomography/distributions.py b/src/qinfer/tomography/distributions.py
index 0e4ddb7..c754f8d 100644
--- a/src/qinfer/tomography/distributions.py
+++ b/src/qinfer/tomography/distributions.py
@@ -292,6 +292,7 @@ class GADFLIDistribution(DensityOperatorDistribution):
 
     def _sample_dm(self):
         fid_samp = self._fid._sample_dm()
+        fid_samp.dims = self._rho_star.dims
         eps = np.random.beta(self._alpha, self._beta)
         return (1 - eps) * fid_samp + eps * self._rho_star
 
-- 
2.43.0


From 8845746657b783832c12e4207f0e1750ab48effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 63/71] fix: RandomStabilizerStateHeuristic could not choose a
 measurement

---
 src/qinfer/tomography/expdesign.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 5daac92..4920ae9 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -124,11 +124,11 @@ class RandomStabilizerStateHeuristic(StateTomographyHeuristic):
         self._hw_group = heisenberg_weyl_operators(self._basis.dim)
     
     def _next_measurement(self):
-        return qt.ket2dm(
-            np.random.choice(np.random.choice(
-                self._hw_group
-            ).eigenstates()[1])
-        )
+        # We choose indices, as np.random.choice would convert lists of
+        # Qobj instances to arrays.
+        group_element = self._hw_group[np.random.choice(len(self._hw_group))]
+        eigenstates = group_element.eigenstates()[1]
+        return qt.ket2dm(eigenstates[np.random.choice(len(eigenstates))])
 
 
 class RandomPauliHeuristic(StateTomographyHeuristic):
-- 
2.43.0


From 12c354dd1052f5c6b442cfa3f3f00baeeb0ccf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 64/71] fix: tomography heuristics with a basis of their own
 took the dimension of the model

---
 src/qinfer/tomography/expdesign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 4920ae9..87ad283 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -88,8 +88,8 @@ class StateTomographyHeuristic(Heuristic):
     def __init__(self, updater, basis=None, other_fields=None):     
         self._up = updater
         self._other_fields = {} if other_fields is None else other_fields
-        self._dim = updater.model.base_model.dim
         self._basis = updater.model.base_model.basis if basis is None else basis
+        self._dim = self._basis.dim
         
     def __call__(self):
         expparams = np.zeros((1,), dtype=self._up.model.expparams_dtype)
-- 
2.43.0


From 9fcfa5ad4af6c9f6e3b7b79ef69107df794aba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 65/71] fix: BestOfKMetaheuristic failed for diffusive models

---
 src/qinfer/tomography/expdesign.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/tomography/expdesign.py b/src/qinfer/tomography/expdesign.py
index 87ad283..eda0ee3 100644
--- a/src/qinfer/tomography/expdesign.py
+++ b/src/qinfer/tomography/expdesign.py
@@ -232,8 +232,10 @@ class BestOfKMetaheuristic(Heuristic):
             self._base_heuristic()[0] for _ in range(self._k)
         ], dtype=self._up.model.expparams_dtype)
         meas = expparams['meas']
+        # Diffusive models have a further parameter behind those of the state.
+        cov = self._up.est_covariance_mtx()[:meas.shape[1], :meas.shape[1]]
         cov_expectations = np.einsum('ei,ij,ej->e',
-            meas, self._up.est_covariance_mtx(), meas
+            meas, cov, meas
         )
         
         expparams = expparams[np.argmax(cov_expectations), None]
-- 
2.43.0


From 7fbb8203e1c136f50ced6f7afec9c4f9b73b8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 66/71] fix: SMCUpdater: clip negative likelihoods at zero
 only, whatever the sign of their sum

---
 src/qinfer/smc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qinfer/smc.py b/src/qinfer/smc.py
index 3b674be..06fc156 100644
--- a/src/qinfer/smc.py
+++ b/src/qinfer/smc.py
@@ -413,10 +413,15 @@ class SMCUpdater(ParticleDistribution):
         # Perform the update.
         weights, norm = self.hypothetical_update(outcome, expparams, return_normalization=True)
 
+        # Dividing by a negative normalization has flipped the sign of every
+        # weight, so undo that before looking for negative weights.
+        if norm[0, 0, 0] <= -np.spacing(1):
+            weights = -weights
+
         # Check for negative weights before applying the update.
         if not np.all(weights >= 0):
             warnings.warn("Negative weights occured in particle approximation. Smallest weight observed == {}. Clipping weights.".format(np.min(weights)), ApproximationWarning)
-            np.clip(weights, 0, 1, out=weights)
+            np.clip(weights, 0, None, out=weights)
             clipped_norm = np.sum(weights)
             if clipped_norm > self._zero_weight_thresh:
                 weights /= clipped_norm
-- 
2.43.0


From dce3ac8077e05735b5bb2c8ea9331e64c238e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 67/71] fix: DirectViewParallelizedModel: keep all settings but
 the view when pickled

---
 src/qinfer/parallel.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/qinfer/parallel.py b/src/qinfer/parallel.py
index e8ce310..5116d22 100644
--- a/src/qinfer/parallel.py
+++ b/src/qinfer/parallel.py
@@ -127,13 +127,7 @@ class DirectViewParallelizedModel(DerivedModel):
     def __getstate__(self):
         # Since instances of this class will be pickled as they are passed to
         # remote engines, we need to be careful not to include _dv
-        return {
-            '_underlying_model': self._underlying_model,
-            '_dv': None,
-            '_call_count': self._call_count,
-            '_sim_count': self._sim_count,
-            '_serial_threshold': self._serial_threshold
-        }
+        return dict(self.__dict__, _dv=None)
     
     ## PROPERTIES ##
 
-- 
2.43.0


From 76ec9569d19cd2d2792c781b1ea304568cc87fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 68/71] fix: rebit plots: read colours from axes.prop_cycle;
 axes.color_cycle no longer exists in matplotlib

---
 src/qinfer/tomography/plotting_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinfer/tomography/plotting_tools.py b/src/qinfer/tomography/plotting_tools.py
index 7cfbb01..700dd44 100644
--- a/src/qinfer/tomography/plotting_tools.py
+++ b/src/qinfer/tomography/plotting_tools.py
@@ -171,7 +171,7 @@ def plot_rebit_prior(prior, rebit_axes=REBIT_AXES,
     :param np.ndarray true_state: State to be plotted as a "true" state for
         comparison.
     """
-    pallette = plt.rcParams['axes.color_cycle']
+    pallette = plt.rcParams['axes.prop_cycle'].by_key()['color']
 
     plot_rebit_modelparams(prior.sample(n_samples),
         c=pallette[0],
@@ -225,7 +225,7 @@ def plot_rebit_posterior(updater, prior=None, true_state=None, n_std=3, rebit_ax
     :param str region_est_method: Method to use to draw region estimation.
         Must be one of None, ``'cov'`` or ``'hull'``.
     """
-    pallette = plt.rcParams['axes.color_cycle']
+    pallette = plt.rcParams['axes.prop_cycle'].by_key()['color']
 
     plot_rebit_modelparams(updater.particle_locations,
         c=pallette[0],
-- 
2.43.0


From 5bfa287e3011d0b6e44c4084e4e35748c56c17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:42 +0000
Subject: [PATCH 69/71] fix: plot_rebit_posterior failed without a true state,
 its default, or for a prior without a mean

---
 src/qinfer/tomography/plotting_tools.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/qinfer/tomography/plotting_tools.py b/src/qinfer/tomography/plotting_tools.py
index 700dd44..f69766a 100644
--- a/src/qinfer/tomography/plotting_tools.py
+++ b/src/qinfer/tomography/plotting_tools.py
@@ -235,13 +235,14 @@ def plot_rebit_posterior(updater, prior=None, true_state=None, n_std=3, rebit_ax
         zorder=-10
     )
 
-    plot_rebit_modelparams(true_state,
-        c=pallette[1],
-        label='True', marker='*', s=true_size,
-        rebit_axes=rebit_axes
-    )
+    if true_state is not None:
+        plot_rebit_modelparams(true_state,
+            c=pallette[1],
+            label='True', marker='*', s=true_size,
+            rebit_axes=rebit_axes
+        )
 
-    if prior is not None:
+    if hasattr(prior, '_mean'):
         plot_rebit_modelparams(
             prior._basis.state_to_modelparams(prior._mean)[None, :],
             edgecolors=pallette[3], s=250, facecolors='none', linewidth=3,
-- 
2.43.0


From 88615e7852eb0396a21a1444f902345c414dd80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 70/71] fix: domain conversions and structured-array helpers
 failed or misread arrays which are not C-contiguous

---
 src/qinfer/domains.py | 4 +++-
 src/qinfer/utils.py   | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index fbac10e..c5137d7 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -669,7 +669,8 @@ class MultinomialDomain(Domain):
         """
         # this could be a static method, but we choose to be consistent with
         # from_regular_array
-        return A.view((int, len(A.dtype.names))).reshape(A.shape + (-1,))
+        # views with another itemsize need contiguous memory
+        return np.ascontiguousarray(A).view((int, len(A.dtype.names))).reshape(A.shape + (-1,))
 
     def from_regular_array(self, A):
         """
@@ -682,6 +683,7 @@ class MultinomialDomain(Domain):
         :rtype: `np.ndarray`
         """
         dims = A.shape[:-1]
+        A = np.ascontiguousarray(A)
         return A.reshape((np.prod(dims),-1)).view(dtype=self.dtype).squeeze(-1).reshape(dims)
 
     def in_domain(self, points):
diff --git a/src/qinfer/utils.py b/src/qinfer/utils.py
index 0e0d205..93d7a86 100644
--- a/src/qinfer/utils.py
+++ b/src/qinfer/utils.py
@@ -566,7 +566,7 @@ def join_struct_arrays(arrays):
     shape = arrays[0].shape
     joint = np.empty(shape + (offsets[-1],), dtype=np.uint8)
     for a, size, offset in zip(arrays, sizes, offsets):
-        joint[...,offset:offset+size] = np.atleast_1d(a).view(np.uint8).reshape(shape + (size,))
+        joint[...,offset:offset+size] = np.ascontiguousarray(a).view(np.uint8).reshape(shape + (size,))
     dtype = sum((a.dtype.descr for a in arrays), [])
     try:
         dtype = np.dtype(dtype)
@@ -593,7 +593,7 @@ def separate_struct_array(array, dtypes):
         offsets = np.cumsum([dtype_size] * num_fields)
         dtypes = [dtypes] * num_fields
     offsets = np.concatenate([[0], offsets]).astype(int)
-    uint_array = array.view(np.uint8).reshape(array.shape + (-1,))
+    uint_array = np.ascontiguousarray(array).view(np.uint8).reshape(array.shape + (-1,))
     return [
         uint_array[..., offsets[idx]:offsets[idx+1]].flatten().view(dtype)
         for idx, dtype in enumerate(dtypes)
-- 
2.43.0


From 520689377c0d81af0f610f46bed8fe776a7d989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 71/71] fix: multinomial domains of a single element have
 tuples of one count

---
 src/qinfer/domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinfer/domains.py b/src/qinfer/domains.py
index c5137d7..83c3530 100644
--- a/src/qinfer/domains.py
+++ b/src/qinfer/domains.py
@@ -612,7 +612,7 @@ class MultinomialDomain(Domain):
 
         :type: `np.dtype`
         """
-        return np.dtype([('k', np.int, self.n_elements)])
+        return np.dtype([('k', np.int, (self.n_elements,))])
 
     @property
     def n_members(self):
-- 
2.43.0

