From dcb113c93f0a75a5b9fdf51759b04428e4fd4286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 01/45] fix: SCM.compute_treatment_effect crashed and left the
 model intervened on

---
 causal_effect_bandits/scm.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index a70a02b..aa53c3f 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -114,15 +114,17 @@ class SCM(data.DataGenerator):
       An estimate of the ATE of the SCM.
     """
     old_t_cpd = self.cpds[self.treatment_variable]
-    treatment_cpd = lambda n, parents: self.deterministic_cpd(n, 1)
-    self.cpds[self.treatment_variable] = treatment_cpd
-    treatment_sample = self.generate(n_samples)
+    try:
+      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
+      self.cpds[self.treatment_variable] = treatment_cpd
+      treatment_sample = self.generate(n_samples)
 
-    control_cpd = lambda n, parents: self.deterministic_cpd(n, 0)
-    self.cpds[self.treatment_variable] = control_cpd
-    control_sample = self.generate(n_samples)
+      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
+      self.cpds[self.treatment_variable] = control_cpd
+      control_sample = self.generate(n_samples)
+    finally:
+      self.cpds[self.treatment_variable] = old_t_cpd
 
-    self.cpds[self.treatment_variable] = old_t_cpd
     return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
 
 
-- 
2.43.0


From 43259631141eef8beea0b2b25cd8090a3a7378b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:38 +0000
Subject: [PATCH 02/45] fix: categorical_conditioning removed an entry from the
 caller's parents list

---
 causal_effect_bandits/scm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index aa53c3f..a95b538 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -151,6 +151,7 @@ def categorical_conditioning(parents, conditioning_on_idx, distributions):
     raise ValueError(
         "Treatment_idx is greater than the number of distributions.")
   # Remove treatment_idx from parents
+  parents = list(parents)  # copy; the list belongs to the caller
   distribution_indices = parents[conditioning_on_idx]
   del parents[conditioning_on_idx]
 
-- 
2.43.0


From e38e0eca448d2be4ff5d7e00c0ca68f3491be51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 03/45] fix: linear CPDs crashed on integer parents followed by
 float ones

---
 causal_effect_bandits/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index a95b538..d69f305 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -182,7 +182,7 @@ def normal_cpd(parents, betas, mean, cov):
   n_units = len(parents[0])
   total_mean = parents[0].dot(betas[0])
   for i in range(1, len(parents)):
-    total_mean += parents[i].dot(betas[i])
+    total_mean = total_mean + parents[i].dot(betas[i])
   if total_mean.ndim == 1:  # Y is univariate
     return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:
@@ -237,7 +237,7 @@ def transformed_normal_cpd(parents, betas, fns, mean, cov):
     raise ValueError("parents and fns should be the same length.")
   total_mean = fns[0](parents[0].dot(betas[0]))
   for i in range(1, len(parents)):
-    total_mean += fns[i](parents[i].dot(betas[i]))
+    total_mean = total_mean + fns[i](parents[i].dot(betas[i]))
 
   # infer whether the output should be 1 or 2 dim from mean
   if np.ndim(mean) == 0:  # we should return (n_units,) array
@@ -305,7 +305,7 @@ def logistic_linear_bernoulli_cpd(parents, gammas):
   def f(parents):
     params = 0
     for i in range(len(parents)):
-      params += parents[i].dot(gammas[i])
+      params = params + parents[i].dot(gammas[i])
     return params
 
   return logistic_bernoulli_cpd(parents, f)
-- 
2.43.0


From 47122c2714000428477a17beed56ceb885799b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 04/45] fix: column-vector means documented for the noise
 helpers were rejected

---
 causal_effect_bandits/scm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/scm.py b/causal_effect_bandits/scm.py
index d69f305..bfd20d7 100644
--- a/causal_effect_bandits/scm.py
+++ b/causal_effect_bandits/scm.py
@@ -212,7 +212,8 @@ def add_gaussian_noise(x, mean, cov):
   else:  # variable is multi-dimensional
     if x.shape[1] != len(mean):
       raise ValueError("The dimensions of x and mean are not compatible")
-    return x + np.random.multivariate_normal(mean, cov, size=n_units)
+    return x + np.random.multivariate_normal(
+        np.ravel(mean), cov, size=n_units)
 
 
 def transformed_normal_cpd(parents, betas, fns, mean, cov):
@@ -272,7 +273,8 @@ def structural_equation_with_noise(parents, f, mean, cov):
   if np.ndim(mean) < 1:  # the output is a scalar
     return f_out.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
   else:
-    return f_out + np.random.multivariate_normal(mean, cov, size=n_units)
+    return f_out + np.random.multivariate_normal(
+        np.ravel(mean), cov, size=n_units)
 
 
 def logistic_bernoulli_cpd(parents, f):
-- 
2.43.0


From b963dd0d331251c1b1609e66d504241581797b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 05/45] fix: DataGenerator.generate raised TypeError

---
 causal_effect_bandits/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 51fd892..4d0eb35 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -221,7 +221,7 @@ class DataGenerator:
 
   def generate(self, n_samples: int):
     return ExpData(
-        np.zeros(n_samples, 1),
+        np.zeros((n_samples, 1)),
         np.zeros(n_samples),
         np.zeros(n_samples),
     )
-- 
2.43.0


From 2145204b2d8fc2083488dfd168b1dd2653b463a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 06/45] fix: a rejected ExpData.append left the covariates
 extended

---
 causal_effect_bandits/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 4d0eb35..57e1594 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -68,14 +68,15 @@ class ExpData:
     """Appends the new data."""
     if new_data.n_features != self.n_features:
       raise ValueError("The new data has incompatible shape")
+    # Validate everything before changing anything.
+    if self.exp is not None and new_data.exp is None:
+      raise ValueError("new_data.exp is missing but expected")
+    if self.rsp is not None and new_data.rsp is None:
+      raise ValueError("new_data.rsp is missing but expected")
     self.cov = np.r_[self.cov, new_data.cov]
     if self.exp is not None:
-      if new_data.exp is None:
-        raise ValueError("new_data.exp is missing but expected")
       self.exp = np.r_[self.exp, new_data.exp]
     if self.rsp is not None:
-      if new_data.rsp is None:
-        raise ValueError("new_data.rsp is missing but expected")
       self.rsp = np.r_[self.rsp, new_data.rsp]
 
     self.n_units = self.cov.shape[0]
-- 
2.43.0


From 17870be26eb89d16cbec2236d2dab2d8594f942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 07/45] fix: VarianceEstimatorArm.update raised AttributeError

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 6d7d320..374b694 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -88,7 +88,7 @@ class VarianceEstimatorArm:
     """
     del new_data, delta  # for subclassing
     self._ci = (0, np.inf)  # default ci.
-    self.num_pulled += 1
+    self._num_pulled += 1
     return self._ci
 
   def reset(self) -> None:
-- 
2.43.0


From b32fd2041543ac9aac70e617ee45712cb68869da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 08/45] fix: a reset arm reported the interval (None, None)

---
 causal_effect_bandits/arms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 374b694..144d54e 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -93,7 +93,7 @@ class VarianceEstimatorArm:
 
   def reset(self) -> None:
     """Resets the arm to its default state."""
-    self._ci = (None, None)
+    self._ci = (-np.inf, np.inf)
     self._eta.reset()
     self._ate = None
     self._var_est = None
-- 
2.43.0


From e586ed5582ffc130605457ed28efdebe8c802df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 09/45] fix: sample_limit=None raised TypeError instead of
 meaning no limit

---
 causal_effect_bandits/bandits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index da69ce9..426315c 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -120,6 +120,8 @@ class BAIBanditAlgorithm:
     if error_tol < 0.0:
       raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
     self.error_tol = error_tol
+    if sample_limit is None:  # this is a fixed confidence problem
+      sample_limit = np.inf
     if confidence is None and np.isinf(sample_limit):
       raise ValueError(
           "Either the confidence or the number of rounds must be specified")
-- 
2.43.0


From aa319c789df9d0b5797574dc9e73142fa31573ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 10/45] fix: error_tol made the stopping rule stricter instead
 of more tolerant

---
 causal_effect_bandits/bandits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 426315c..9812ebb 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -169,7 +169,7 @@ class BAIBanditAlgorithm:
     remaining_lcbs = [
         lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
     ]
-    return (ucbs[min_var_arm] < min(remaining_lcbs) - self.error_tol,
+    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,
             [self._arms[min_var_arm]])
 
   def _select_arms_with_mask(self, boolean_mask):
-- 
2.43.0


From ee44efcd251708ac14bf76d0e6a5b34a63f5e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 11/45] fix: successive elimination dropped the best arm when
 its interval had zero width

---
 causal_effect_bandits/bandits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 9812ebb..497669d 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -529,9 +529,11 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
       ])
 
       # We now eliminate all arms with lcbs that are larger than lowest_ucb.
+      # The arms with the minimum var_est are kept, even if their interval is a
+      # single point.
       new_candidate_arms = []
-      for arm in candidate_arms:
-        if lcb_by_arm[arm][-1] < lowest_ucb:
+      for arm, is_low_var in zip(candidate_arms, low_var_mask):
+        if is_low_var or lcb_by_arm[arm][-1] < lowest_ucb:
           new_candidate_arms.append(arm)
       candidate_arms = new_candidate_arms
 
-- 
2.43.0


From 759c22850ea092f76f26936037a82960fd3f6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 12/45] fix: successive elimination could return an eliminated
 arm at the sample limit

---
 causal_effect_bandits/bandits.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index 497669d..cb7d2ee 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -489,10 +489,12 @@ class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):
     while len(candidate_arms) > 1:
       epoch += 1
       if total_samples > self.sample_limit:
-        _, _, var_ests = self.collect_bounds()
-        # Select the arms with the lowest var estimates.
-        candidate_arms = self._select_arms_with_mask(
-            [v == min(var_ests) for v in var_ests])
+        # Select the surviving arms with the lowest var estimates.
+        var_ests = [arm.cost * arm.var_est for arm in candidate_arms]
+        candidate_arms = [
+            arm for arm, v in zip(candidate_arms, var_ests)
+            if v == min(var_ests)
+        ]
         break
 
       for arm in candidate_arms:
-- 
2.43.0


From 9d35f16d98a3bede3b5b899b29936a4e9ec9eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 13/45] fix: LUCB crashed or sampled one arm twice when
 estimates or bounds were tied

---
 causal_effect_bandits/bandits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index cb7d2ee..a99af9a 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -401,13 +401,16 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
 
     best_arm_mask = [v == lowest_var for v in var_ests]
 
+    if all(best_arm_mask):  # no arms remain to be compared with
+      return np.random.choice(self._arms, size=2, replace=False)
+
     # Select the arm in this set with the highest ucb
     high_ucb = max(ucbs[best_arm_mask])
-    high_ucb_mask = [u == high_ucb for u in ucbs]
+    high_ucb_mask = [b and u == high_ucb for b, u in zip(best_arm_mask, ucbs)]
 
     # Also select the arm with the lowest lcb of the remaining arms
     low_lcb = min(lcbs[[not i for i in best_arm_mask]])
-    low_lcb_mask = [l == low_lcb for l in lcbs]
+    low_lcb_mask = [not b and l == low_lcb for b, l in zip(best_arm_mask, lcbs)]
 
     # We will pick between these two arms
     u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])
-- 
2.43.0


From 47e3d0563407eec6c9d651304964d6f3bdc27fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 14/45] fix: arms with stable_splits=False forgot all earlier
 data on every update

---
 causal_effect_bandits/arms.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 144d54e..8c69d7c 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -213,7 +213,10 @@ class SampleSplittingArm(VarianceEstimatorArm):
         for i in range(2):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(2)
+        all_data = self._split_data[0]
+        all_data.append(self._split_data[1])
+        all_data.append(self._data_transformer(new_data))
+        self._split_data = all_data.k_fold(2)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
@@ -340,8 +343,11 @@ class BootstrapArm(VarianceEstimatorArm):
         for i in range(self.n_splits):
           self._split_data[i].append(new_split[i])
       else:
-        self._split_data = self._data_transformer(new_data).k_fold(
-            self.n_splits)
+        all_data = self._split_data[0]
+        for split in self._split_data[1:]:
+          all_data.append(split)
+        all_data.append(self._data_transformer(new_data))
+        self._split_data = all_data.k_fold(self.n_splits)
 
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
-- 
2.43.0


From 4d9023b7e918a2f7360aa54e631ef74ed7640cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 15/45] fix: BootstrapArm published a NaN interval before eta
 had enough samples

---
 causal_effect_bandits/arms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 8c69d7c..fe361d4 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -352,6 +352,13 @@ class BootstrapArm(VarianceEstimatorArm):
     # Use the first split to train eta
     self._eta.fit(self._split_data[0])
 
+    # As in the other arms, eta may not have seen enough units to be usable.
+    if not self._eta.has_enough_samples():
+      self._ci = (0, np.inf)
+      self._ate = np.nan
+      self._var_est = np.inf
+      return self._ci
+
     if self.n_bootstraps == 0:
       n_bootstraps = int(np.ceil(4 / delta))
     else:
-- 
2.43.0


From 43c43b3442c0101a6b33d743fb8ac728f608cd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 16/45] fix: BootstrapArm always reported zero units, so it
 reread the same data

---
 causal_effect_bandits/arms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index fe361d4..4846986 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -387,3 +387,9 @@ class BootstrapArm(VarianceEstimatorArm):
     self._var_est = np.var(self._eta.calculate_score(self._split_data[1]))
 
     return self._ci
+
+  def get_num_units(self) -> int:
+    """Returns the number of units seen by this arm."""
+    if self._split_data is None:
+      return 0
+    return sum(len(data) for data in self._split_data)
-- 
2.43.0


From 0caee014718c12838b07b15049dcb286920bca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 17/45] fix: refitting a TabularCPD kept the previous supports
 or crashed

---
 causal_effect_bandits/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 57e1594..34be468 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -347,6 +347,8 @@ class TabularCPD:
     default_fn = lambda: collections.defaultdict(lambda: 0.0)
     self.table = collections.defaultdict(default_fn)
     self.x_marginal = collections.defaultdict(lambda: 0.0)
+    self.x_values = {}
+    self.z_values = {}
     for xi, zi in zip(x, z):
       self.table[xi.tobytes()][
           zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
-- 
2.43.0


From ca0a6a62fd4021a805518ba8d934179b40a7a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 18/45] fix: TabularCPD.predict added unseen values to the
 table, which broke str()

---
 causal_effect_bandits/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 34be468..9ec62e0 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -409,7 +409,8 @@ class TabularCPD:
     z = np.asarray(z)
 
     for zi, xi in zip(z, x):
-      probs.append(self.table[xi.tobytes()][zi.tobytes()])
+      # Use get because indexing would add unseen values to the table.
+      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
     return np.array(probs)
 
   def __str__(self):
-- 
2.43.0


From d7a94d2751acfb7180b100ca18a4cd0fb91d598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 19/45] fix: TabularCPD rows could be negative, below the floor
 or not sum to one

---
 causal_effect_bandits/data.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 9ec62e0..13059ad 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -368,22 +368,25 @@ class TabularCPD:
       x_table = self.table[x_key]
       num_samples = sum(x_table.values())
       self.x_marginal[x_key] = num_samples / self.n_units
-      non_violating_z = []
-      total_violations = 0
+      non_violating_z = list(self.z_values)
       for z_key in self.z_values:
         x_table[z_key] = x_table[z_key] / num_samples
-        if x_table[z_key] < self.min_prob:
+      # Raise small probabilities to min_prob and adjust non_violating_z to make
+      # P(Z|x = x_key) sum to 1. The adjustment can cause new violations.
+      while True:
+        violating_z = [z for z in non_violating_z if x_table[z] < self.min_prob]
+        if not violating_z:
+          break
+        non_violating_z = [
+            z for z in non_violating_z if x_table[z] >= self.min_prob
+        ]
+        total_violations = 0
+        for z_key in violating_z:
           total_violations += self.min_prob - x_table[z_key]
           x_table[z_key] = self.min_prob
-        elif x_table[z_key] > 1 - self.min_prob:
-          total_violations += x_table[z_key] - (1 - self.min_prob)
-          x_table[z_key] = 1 - self.min_prob
-        else:
-          non_violating_z.append(z_key)
-      # Now, we adjust non_violating_z to make P(Z|x = x_key) sum to 1
-      for z_key in non_violating_z:
-        x_table[z_key] = (
-            x_table[z_key] - total_violations / len(non_violating_z))
+        for z_key in non_violating_z:
+          x_table[z_key] = (
+              x_table[z_key] - total_violations / len(non_violating_z))
 
   def x_support(self):
     return list(self.x_values.values())
-- 
2.43.0


From 348b38c03b6531eb63ae9fd033608c02682318e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 20/45] fix: front-door scores ignored the mediator effect for
 vector mediators

---
 causal_effect_bandits/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index f9a953d..bf78875 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -747,8 +747,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
                          np.tile(z,
                                  (len(d), 1))]))  # mu_y(z, X=1), z in support
       f_1 += mu_yzx_i * (
-          self.cov_given_exp.predict(np.array([1]), z) -
-          self.cov_given_exp.predict(np.array([0]), z))
+          self.cov_given_exp.predict(np.array([1]), [z]) -
+          self.cov_given_exp.predict(np.array([0]), [z]))
 
       f_3 += (
           self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-- 
2.43.0


From a18832600c90d940a1e294d4a95e239a85c32207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 21/45] fix: front-door scores centred with P(z|x') instead of
 P(z'|x), biasing the effect

---
 causal_effect_bandits/parameters.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index bf78875..26fd239 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -551,7 +551,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_x' mu_Y(x',X)(P(Z=x'|X=1) - P(Z=x'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{t'} mu_Y(Z,t')f(t')
-        - sum_{x', t'} mu_Y(x', t')P(Z|t')P(t')
+        - sum_{x', t'} mu_Y(x', t')P(Z=x'|X)P(t')
       }
 
   We assume a binary X. We thus need to estimate two densities, P(Z|X=1) and
@@ -686,7 +686,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(z_i) = (z_i / P(X=1) - (1-z_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -695,7 +695,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(Z=z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
@@ -750,10 +750,11 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
           self.cov_given_exp.predict(np.array([1]), [z]) -
           self.cov_given_exp.predict(np.array([0]), [z]))
 
-      f_3 += (
-          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
-          + self.y_response.predict([np.insert(z, 0, 0)]) *
-          (1 - self.exp_prob) * p_z_x0)
+      # P(Z=z|X=x_i) for every unit i
+      p_zi = self.cov_given_exp.predict(d.exp, np.tile(z, (n_units, 1)))
+      f_3 += p_zi * (
+          self.y_response.predict([np.r_[1, z]]) * self.exp_prob +
+          self.y_response.predict([np.r_[0, z]]) * (1 - self.exp_prob))
 
     w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)
 
@@ -782,7 +783,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       4:  W(x_i) = (x_i / P(X=1) - (1-x_i) / P(X=0))),
       5:  f_1(x_i) = sum_z' mu_Y(z',x_i)(P(Z=z'|X=1) - P(Z=z'|X=0)),
       6:  f_2(z_i) = sum_{x'} mu_Y(z_i,x') P(X=x'),
-      7:  f_3(z_i) = sum_{z', x'} mu_Y(z', x') P(Z=z_i|X=x') P(X=x'),
+      7:  f_3(x_i) = sum_{z', x'} mu_Y(z', x') P(Z=z'|x_i) P(X=x'),
     )
 
     The corresponding phi function is
@@ -791,7 +792,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
       + sum_z' mu_Y(z',X)(P(Z=z'|X=1) - P(Z=z'|X=0))
       + (X/P(X) - (1-X)(1-P(X)) * {
         sum_{x'} mu_Y(Z,x')P(x')
-        - sum_{z', x'} mu_Y(z', x')P(Z|x')P(x')
+        - sum_{z', x'} mu_Y(z', x')P(Z=z'|X)P(x')
       }
     Which translates to
      phi(W,eta) =
-- 
2.43.0


From e723769b9f89013562b9f76a26f3946a6286bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 22/45] fix: front-door scores were wrong for exposures stored
 as floats

---
 causal_effect_bandits/parameters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 26fd239..14cf639 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -620,7 +620,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
     self.exp_prob = np.clip(
         np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
-    self.cov_given_exp.fit(d.exp, d.cov)
+    # The table is queried with integer treatments.
+    self.cov_given_exp.fit(d.exp.astype(int), d.cov)
 
     self._has_been_fit = True
 
@@ -724,7 +725,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     mu_y_zx = self.y_response.predict(np.array(np.c_[d.exp, d.cov]))
     p_z_x1 = self.cov_given_exp.predict(np.ones(n_units, dtype=int), d.cov)
     p_z_x0 = self.cov_given_exp.predict(np.zeros(n_units, dtype=int), d.cov)
-    p_z_x = self.cov_given_exp.predict(d.exp, d.cov)
+    int_exp = d.exp.astype(int)  # the type of the treatments in the table
+    p_z_x = self.cov_given_exp.predict(int_exp, d.cov)
 
     p_z_x1 = np.clip(p_z_x1, self._min_overlap, 1 - self._min_overlap)
     p_z_x0 = np.clip(p_z_x0, self._min_overlap, 1 - self._min_overlap)
@@ -751,7 +753,7 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
           self.cov_given_exp.predict(np.array([0]), [z]))
 
       # P(Z=z|X=x_i) for every unit i
-      p_zi = self.cov_given_exp.predict(d.exp, np.tile(z, (n_units, 1)))
+      p_zi = self.cov_given_exp.predict(int_exp, np.tile(z, (n_units, 1)))
       f_3 += p_zi * (
           self.y_response.predict([np.r_[1, z]]) * self.exp_prob +
           self.y_response.predict([np.r_[0, z]]) * (1 - self.exp_prob))
-- 
2.43.0


From c3a23b9666a9e62138a83252be52638bd4d68d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 23/45] fix: LinearParameterBinaryTreatment.fit crashed on an
 empty treatment group

---
 causal_effect_bandits/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 14cf639..153b923 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -195,7 +195,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
 
     self.recent_data = d
 
-    if treat_data == 0 or cont_data == 0:
+    if not treat_data or not cont_data:
       logging.warning(
           "Nuisance parameter was fit on data not including treatment and control"
       )
-- 
2.43.0


From 3219693c622ba3271b3a38764ca3e9d167232375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 24/45] fix: LinearParameterBinaryTreatment never reported
 having enough samples

---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 153b923..d125dd2 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -261,6 +261,9 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     eta = self.transform(d)
     return self._phi(eta, d)
 
+  def has_enough_samples(self) -> bool:
+    return self._has_been_fit
+
   def set_to_truth(self, data_gen: data.LinearDataGenerator):
     """Sets eta to the true value given a DataGenerator object.
 
-- 
2.43.0


From 388e49e9d5905ce08c78b9eadb1b05215f87d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 25/45] fix: LinearRegressionParameter.reset did nothing

---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index d125dd2..87135d1 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -881,6 +881,9 @@ class LinearRegressionParameter(NuisanceParameter):
     self._model = np.zeros(((n_features + 1), (n_features + 1)))
     self.l_reg = l_reg
 
+  def reset(self):
+    self.__init__(self._cov_dim, self.l_reg)
+
   def fit(self, d: data.ExpData):
     """Fits eta to the provided experimental d.
 
-- 
2.43.0


From 1da70f95e07edab1a461911ead3a374a6239616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 26/45] fix: confidence widths were NaN or complex for
 collinear covariates

---
 causal_effect_bandits/parameters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 87135d1..15faa54 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -390,7 +390,9 @@ class AIPW(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
+    w = np.linalg.eigvalsh(norm_matrix)  # real because the matrix is symmetric
+    if min(w) <= 0:  # the design is singular
+      return np.inf
     mu_radius = radius / np.sqrt(min(w))
 
     eta_radius = mu_radius
@@ -657,7 +659,9 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     radius = np.sqrt(numerator - denominator)
 
     norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
-    w, _ = np.linalg.eig(norm_matrix)
+    w = np.linalg.eigvalsh(norm_matrix)  # real because the matrix is symmetric
+    if min(w) <= 0:  # the design is singular
+      return np.inf
     mu_radius = radius / np.sqrt(min(w))
 
     def uniform_boundary(n, delta):
-- 
2.43.0


From 63ba5a8924eee30dbc83471c418c1394d48d0933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 27/45] fix: parameters set to the truth without a previous fit
 had NaN scores

---
 causal_effect_bandits/parameters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 15faa54..4cd8fb5 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -276,6 +276,7 @@ class LinearParameterBinaryTreatment(NuisanceParameter):
     self.treat_response.coef_ = data_gen.beta
     self.cont_response.coef_ = data_gen.beta
     self.cont_response.intercept_ = 0
+    self._has_been_fit = True
 
 
 class Predictor(Protocol):
@@ -475,8 +476,11 @@ class AIPW(NuisanceParameter):
       raise ValueError(("The DataGenerator is not a LinearDataGenerator and is "
                         "not identifiable in this model"))
     self.response.coef_ = np.r_[data_gen.tau, data_gen.beta]
+    self.response.intercept_ = 0.0
     self.propensity.coef_ = data_gen.gamma.reshape(1, self._cov_dim)
-    self.propensity.intercept_ = 0
+    self.propensity.intercept_ = np.zeros(1)
+    self.propensity.classes_ = np.array([0, 1])
+    self._has_been_fit = True
 
   def has_enough_samples(self) -> bool:
     return self._has_been_fit
-- 
2.43.0


From f9370845443b9eb2cf099cc46f63c43dd9833827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 28/45] fix: the paper's arms were given the columns of other
 adjustment sets

---
 causal_effect_bandits/paper_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index cb15e16..b35b4a5 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -481,14 +481,16 @@ def generate_example_from_cpd(
   for i in range(1, num_back_door_paths + 1):
     var_names.append('V' + str(i))
     var_names.append('Z' + str(i))
-    cov_variables.append('V' + str(i))
-    cov_variables.append('Z' + str(i))
     parents['V' + str(i)] = []
     parents['Z' + str(i)] = ['V' + str(i)]
     parents['Y'].append('Z' + str(i))
     parents['X'].append('V' + str(i))
 
   var_names.extend(['X', 'Z0', 'Y'])
+  # The masks below assume that all the Z_i precede all the V_i.
+  for name in ('Z', 'V'):
+    for i in range(1, num_back_door_paths + 1):
+      cov_variables.append(name + str(i))
 
   scm_gen = scm.SCM(
       'Section 5 SCM',
-- 
2.43.0


From b840d276e0451b4c1c8bf2e9b288c7f558ace225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 29/45] fix: section 5.2 models depended on the global random
 state despite the seed

---
 causal_effect_bandits/paper_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index b35b4a5..d3a9b45 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -197,7 +197,7 @@ def get_section_5_2_cpds(
 
   beta = [.2 * rng.standard_normal(size=(z_dim[0]))]
   for i in range(1, num_back_door_paths + 1):
-    strength = np.random.uniform(.1, 1.9)
+    strength = rng.uniform(.1, 1.9)
     # V
     mu_v.append(0 * rng.standard_normal(size=v_dim[i]))
     cov_v.append(1 * np.identity(v_dim[i]))
@@ -266,6 +266,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=int(rng.integers(10000)),
             alpha=1e0))
 
   # f_y should have shape (n_units,1)
@@ -281,6 +282,7 @@ def get_section_5_2_cpds(
             min_x=-2,
             max_x=2,
             n_points=10,
+            seed=int(rng.integers(10000)),
             alpha=1e0))
 
   # f_x should have shape (n_units,1)
@@ -325,6 +327,7 @@ def get_section_5_2_cpds(
         min_x=-1,
         max_x=1,
         n_points=10,
+        seed=int(rng.integers(10000)),
         alpha=1e0)
     cpds['V' + str(i)] = make_v_cpd(mean=mu_v[i], cov=cov_v[i])
     cpds['Z' + str(i)] = make_z_cpd(f=f_z, mean=mu_z[i], cov=cov_z[i])
-- 
2.43.0


From 797c5d0845970ce6c5dde9ff9d233aca5fa38a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 30/45] fix: all output components of a random nonlinear
 function were identical

---
 causal_effect_bandits/nonlinear_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/nonlinear_utils.py b/causal_effect_bandits/nonlinear_utils.py
index ca3b31f..b8d4888 100644
--- a/causal_effect_bandits/nonlinear_utils.py
+++ b/causal_effect_bandits/nonlinear_utils.py
@@ -79,13 +79,14 @@ def generate_random_nd_function(
   # create a cartesian product
   x = np.array(list(itertools.product(*[x1d] * dim))) * (max_x - min_x) + min_x
   # Choose a random starting state
+  if seed is None:
+    seed = np.random.randint(10000)
+  random_state = np.random.RandomState(seed)
   fns = []
   for _ in range(out_dim):
     fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))
-    if seed is None:
-      seed = np.random.randint(10000)
-    # Sample from a prior
-    y = fns[-1].sample_y(x, 1, random_state=seed)
+    # Sample from a prior; every component is a new draw
+    y = fns[-1].sample_y(x, 1, random_state=random_state)
     # Fit the GP to this prior
     fns[-1].fit(x, y)
 
-- 
2.43.0


From 29f828ee534b51c655cafc68268e528bc8a0caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 31/45] fix: front-door example's response variance omitted the
 Z-U cross term

---
 causal_effect_bandits/example_scm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/example_scm.py b/causal_effect_bandits/example_scm.py
index 829bf68..6d92fda 100644
--- a/causal_effect_bandits/example_scm.py
+++ b/causal_effect_bandits/example_scm.py
@@ -121,8 +121,8 @@ def frontdoor_scm():
   pz1u0 = (g(beta) / 2 + 1 / 4) * (1 - p)
   pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p
   # Take the expectation of Y^2 by hand.
-  mu_y2 = 1 + (gamma**2 +
-               alpha_2**2) * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
+  mu_y2 = 1 + (gamma +
+               alpha_2)**2 * pz1u1 + gamma**2 * pz1u0 + alpha_2**2 * pz0u1
   var_y = mu_y2 - mu_y**2
 
   # populate the CPDs
-- 
2.43.0


From ecdcaf4359dc04989199c1a285e2b5fa1f2ad209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 32/45] fix: back-door example's response variance omitted the
 X-Z covariance

---
 causal_effect_bandits/example_scm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causal_effect_bandits/example_scm.py b/causal_effect_bandits/example_scm.py
index 6d92fda..01c0219 100644
--- a/causal_effect_bandits/example_scm.py
+++ b/causal_effect_bandits/example_scm.py
@@ -46,7 +46,8 @@ def back_door_scm():
   mu_x = .5 + alpha * p
   var_x = mu_x * (1 - mu_x)
   mu_y = tau * mu_x + beta * mu_z
-  var_y = 1 + tau**2 * var_x + beta**2 * var_z
+  cov_xz = alpha * var_z
+  var_y = 1 + tau**2 * var_x + beta**2 * var_z + 2 * tau * beta * cov_xz
 
   # populate the CPDs
   def y_cpd(_, parents):
-- 
2.43.0


From 0d269728b37296b99a7ac63090b6c905d5178550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 33/45] fix: finite-sample intervals were NaN for small
 sub-Gaussian scales

---
 causal_effect_bandits/arms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 4846986..251ecf8 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -273,9 +273,13 @@ class SampleSplittingArm(VarianceEstimatorArm):
         return self._ci
       # See the paper, section 3.5 for a justification of this formula
       lambdap = max(self._sub_gscale, 8 * self._sub_gscale**2)
+      radicand = 2 * np.log(lambdap * n / self._burn_in) / n + .5 + np.log(
+          4 / delta)
+      if radicand < 0:  # the boundary is not defined yet
+        self._ci = (0, np.inf)
+        return self._ci
       width = 5 / 8 * (np.sqrt(2 * self._sub_gscale) + self._tau_bound)
-      width *= np.sqrt(2 * np.log(lambdap * n / self._burn_in) / n + .5 +
-                       np.log(4 / delta)) / np.sqrt(n)
+      width *= np.sqrt(radicand) / np.sqrt(n)
       width += eta_cs_width**2
       self._ci = (max(self.var_est - width, 0), self.var_est + width)
     else:
-- 
2.43.0


From a3f8bc2ca4c867d013bc36aebd6fe11250804ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 34/45] fix: chi-squared intervals were NaN for a single
 held-out unit

---
 causal_effect_bandits/arms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 251ecf8..cf4bdf6 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -241,6 +241,9 @@ class SampleSplittingArm(VarianceEstimatorArm):
 
     if self._ci_algorithm is CIAlgorithm.CHI2:
       n = self._split_data[1].n_units
+      if n < 2:  # the chi-squared distribution has no degrees of freedom
+        self._ci = (0, np.inf)
+        return self._ci
       ci_low = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
           1 - delta / 2, df=n - 1)
       ci_high = self.var_est * (n - 1) / scipy.stats.chi2.ppf(
-- 
2.43.0


From 8dd368ae23c53032c88a48194a173ac93c78fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 35/45] fix: TabularCPD kept separate entries for 0.0 and -0.0

np.round, for instance, turns small negative numbers into -0.0, whose bytes
differ from those of 0.0; supports, floors and probabilities counted it as
another value.
---
 causal_effect_bandits/data.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/data.py b/causal_effect_bandits/data.py
index 13059ad..1b821d2 100644
--- a/causal_effect_bandits/data.py
+++ b/causal_effect_bandits/data.py
@@ -297,6 +297,12 @@ class LinearDataGenerator(DataGenerator):
     return self._gamma
 
 
+def _without_negative_zeros(values) -> np.ndarray:
+  """Returns an array with 0.0 for -0.0, so that equal floats have equal bytes."""
+  values = np.asarray(values)
+  return values + 0.0 if values.dtype.kind == "f" else values
+
+
 class TabularCPD:
   """Estimates a tabular CPD.
 
@@ -338,8 +344,8 @@ class TabularCPD:
       z: an np.ndarray of z observations of size (n_units, n_features). Should
         have finite support.
     """
-    x = np.asarray(x)
-    z = np.asarray(z)
+    x = _without_negative_zeros(x)
+    z = _without_negative_zeros(z)
 
     if len(x) != len(z):
       raise ValueError("z and x must be the same length")
@@ -408,8 +414,8 @@ class TabularCPD:
       A list of conditional probabilities of z|x.
     """
     probs = []
-    x = np.asarray(x)
-    z = np.asarray(z)
+    x = _without_negative_zeros(x)
+    z = _without_negative_zeros(z)
 
     for zi, xi in zip(z, x):
       # Use get because indexing would add unseen values to the table.
-- 
2.43.0


From 934619d66b177338cab4b30af99e900d7e03f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 36/45] fix: uniform and LUCB re-read or skipped supplied data
 when continuing a run

Uniform gave every arm the slice at the first arm's position and LUCB's first
round always the first slice, so that arms which already held data (no reset
after an earlier run) received units twice or missed some. Every arm now reads
from its own position, as in the other cases.
---
 causal_effect_bandits/bandits.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/causal_effect_bandits/bandits.py b/causal_effect_bandits/bandits.py
index a99af9a..7bf2949 100644
--- a/causal_effect_bandits/bandits.py
+++ b/causal_effect_bandits/bandits.py
@@ -232,15 +232,14 @@ class UniformAlgorithm(BAIBanditAlgorithm):
     total_samples = 0
 
     while True:
-      if stable_order:
-        # All remaining arms have been pulled the same number of times.
-        n_start = self._arms[0].get_num_units()
-        new_samples = all_data[n_start:n_start + self.units_per_round]
-      else:
+      if not stable_order:
         new_samples = self._prob_model.generate(self.units_per_round)
 
       # We need to calculate the necessary delta:
       for arm in self._arms:
+        if stable_order:
+          n_start = arm.get_num_units()
+          new_samples = all_data[n_start:n_start + self.units_per_round]
         arm.update(new_samples, self.error_prob / len(self._arms))
         lcb_by_arm[arm].append(arm.cost * arm.ci[0])
         ucb_by_arm[arm].append(arm.cost * arm.ci[1])
@@ -318,9 +317,7 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
     """
     stable_order = all_data is not None
 
-    if stable_order:
-      new_samples = all_data[:self.units_per_round]
-    else:
+    if not stable_order:
       new_samples = self._prob_model.generate(self.units_per_round)
 
     # Allocate variables for tracking the history
@@ -333,6 +330,9 @@ class LUCBAlgorithm(BAIBanditAlgorithm):
     # Update all arms once
     total_samples = self._num_arms * self.units_per_round
     for arm in self._arms:
+      if stable_order:
+        n_start = arm.get_num_units()
+        new_samples = all_data[n_start:n_start + self.units_per_round]
       arm.update(new_samples, self.error_prob / len(self._arms))
       lcb_by_arm[arm].append(arm.cost * arm.ci[0])
       ucb_by_arm[arm].append(arm.cost * arm.ci[1])
-- 
2.43.0


From c7586466d392730cd1b2fd6b37dc0eb598952b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:56 +0000
Subject: [PATCH 37/45] fix: the search for a large effect used the last
 candidate, not the largest

get_section_5_1_cpds and get_section_5_2_cpds are to take the first effect
larger than ten random ones, but tau_max kept only the last of them, and if
that was negative, the search ended at once with it: half of the instances
had a negative effect.
---
 causal_effect_bandits/paper_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index d3a9b45..b3c1ca3 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -124,8 +124,8 @@ def get_section_5_1_cpds(
   support_size = 10  # the number of values Z_0 may have
   z0_support = rng.normal(loc=mu_z[0], scale=1, size=(support_size, z_dim[0]))
 
-  tau = 0
-  tau_max = 0
+  tau = -np.inf
+  tau_max = -np.inf
   # To select a tau on the larger side, we randomly sample 10 of them then
   # choose the first tau that is larger. See the secretary problem.
   for _ in range(10):
@@ -133,7 +133,7 @@ def get_section_5_1_cpds(
     p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
     p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
     tau_max = max(
-        tau,
+        tau_max,
         p_z0x1.dot(z0_support).dot(beta[0]) -
         p_z0x0.dot(z0_support).dot(beta[0]))
   while tau < tau_max:  # make sure tau is big enough
@@ -217,8 +217,8 @@ def get_section_5_2_cpds(
   support_size = 10  # the number of values Z_0 may have
   z0_support = rng.normal(loc=mu_z[0], scale=1, size=(support_size, z_dim[0]))
 
-  tau = 0
-  tau_max = 0
+  tau = -np.inf
+  tau_max = -np.inf
   # To select a tau on the larger side, we randomly sample 10 of them then
   # choose the first tau that is larger. See the secretary problem.
   for _ in range(10):
@@ -226,7 +226,7 @@ def get_section_5_2_cpds(
     p_z0x0 = softmax(.4 * rng.standard_normal(size=support_size))
     p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))
     tau_max = max(
-        tau,
+        tau_max,
         p_z0x1.dot(z0_support).dot(beta[0]) -
         p_z0x0.dot(z0_support).dot(beta[0]))
   while tau < tau_max:  # make sure tau is big enough
-- 
2.43.0


From 64fc9ae0567a40f205e8fe19d177d7f94c26c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:20 +0000
Subject: [PATCH 38/45] fix: confidence widths overflowed or underflowed for
 many covariates

The logarithm of the determinant was taken after computing the determinant and
rho**d, which leave the range of floats for some dozens of covariates; the
width was infinite then, however much data was fitted.
---
 causal_effect_bandits/parameters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 4cd8fb5..56eef0c 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -383,8 +383,9 @@ class AIPW(NuisanceParameter):
     d = self._cov_dim
     v = x.transpose().dot(x)
 
-    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
-    denominator = sub_g * np.log(rho**d * delta**2)
+    # The determinant itself overflows or underflows for many covariates.
+    numerator = sub_g * np.linalg.slogdet(sub_g * v + rho * np.identity(d))[1]
+    denominator = sub_g * (d * np.log(rho) + 2 * np.log(delta))
     if numerator <= denominator:  # not enough samples have been reached
       return np.inf
 
@@ -655,8 +656,9 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     v = x.transpose().dot(x)
 
     delta = delta / 3  # we are making three confidence sequences
-    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
-    denominator = sub_g * np.log(rho**d * delta**2)
+    # The determinant itself overflows or underflows for many covariates.
+    numerator = sub_g * np.linalg.slogdet(sub_g * v + rho * np.identity(d))[1]
+    denominator = sub_g * (d * np.log(rho) + 2 * np.log(delta))
     if numerator <= denominator:  # not enough samples have been reached
       return np.inf
 
-- 
2.43.0


From f0cc00aa3be7c61a5112e5f34c8991b3e049f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 39/45] fix: count treated units without overflow for narrow
 integer exposures

---
 causal_effect_bandits/parameters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 56eef0c..8e47c23 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -353,8 +353,9 @@ class AIPW(NuisanceParameter):
 
     self.recent_data = d
 
-    if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
-      message = (f"{sum(d.exp)} treatment units of {n_units} total units is not"
+    n_treated = np.sum(d.exp)  # unlike sum(), safe for narrow integer types
+    if n_treated < self._min_units or n_treated > n_units - self._min_units:
+      message = (f"{n_treated} treatment units of {n_units} total units is not"
                  " enough units in control or treatment to fit eta.")
       logging.warning(message)
       return
@@ -622,9 +623,10 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
 
     self.recent_data = d
 
-    if sum(d.exp) < self._min_units or sum(d.exp) > d.n_units - self._min_units:
+    n_treated = np.sum(d.exp)  # unlike sum(), safe for narrow integer types
+    if n_treated < self._min_units or n_treated > d.n_units - self._min_units:
       print(
-          f"---Frontdoor: {sum(d.exp)} treatment units of {d.n_units} total units "
+          f"---Frontdoor: {n_treated} treatment units of {d.n_units} total units "
           "is not enough units in control or treatment to fit eta.")
       return
     self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
-- 
2.43.0


From 9f9f5e96608f28db68a65a86b0b3380616de5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:49 +0000
Subject: [PATCH 40/45] fix: build design matrices as floats so that narrow
 integers cannot overflow

---
 causal_effect_bandits/parameters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 8e47c23..8bb5f76 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -380,7 +380,7 @@ class AIPW(NuisanceParameter):
     Returns:
       The width of a confidence sequence
     """
-    x = self.recent_data.cov
+    x = np.asarray(self.recent_data.cov, dtype=float)  # no integer overflow
     d = self._cov_dim
     v = x.transpose().dot(x)
 
@@ -653,7 +653,8 @@ class FrontDoorLinearFiniteZ(NuisanceParameter):
     Returns:
       The width of a confidence sequence
     """
-    x = np.array(np.c_[self.recent_data.exp, self.recent_data.cov])
+    x = np.array(
+        np.c_[self.recent_data.exp, self.recent_data.cov], dtype=float)
     d = self._cov_dim + 1
     v = x.transpose().dot(x)
 
@@ -907,7 +908,7 @@ class LinearRegressionParameter(NuisanceParameter):
     """
     if d.n_units < 1:  # not enough data to fit
       return
-    data_matrix = np.array(np.c_[d.exp, d.cov])
+    data_matrix = np.array(np.c_[d.exp, d.cov], dtype=float)
 
     self._model = np.linalg.inv(data_matrix.transpose().dot(data_matrix) +
                                 self.l_reg *
@@ -929,7 +930,8 @@ class LinearRegressionParameter(NuisanceParameter):
     Returns:
       np.array of shape (d.n_units, )
     """
-    xzy = np.c_[d.exp, d.cov].transpose().dot(np.diag(d.rsp))
+    xz = np.array(np.c_[d.exp, d.cov], dtype=float)
+    xzy = xz.transpose().dot(np.diag(d.rsp))
     return eta.dot(xzy)[0, :]
 
   def calculate_score(self, d: data.ExpData) -> np.ndarray:
-- 
2.43.0


From 02e28afd9932da97271fb4bc704ae7028afc748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:22 +0000
Subject: [PATCH 41/45] fix: linear regression parameter accepted data of the
 wrong dimension

---
 causal_effect_bandits/parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causal_effect_bandits/parameters.py b/causal_effect_bandits/parameters.py
index 8bb5f76..d331c65 100644
--- a/causal_effect_bandits/parameters.py
+++ b/causal_effect_bandits/parameters.py
@@ -906,6 +906,9 @@ class LinearRegressionParameter(NuisanceParameter):
         d.exp: (n_units,)
         d.rsp: (n_units,)
     """
+    if d.n_features != self._cov_dim:
+      raise ValueError(
+          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")
     if d.n_units < 1:  # not enough data to fit
       return
     data_matrix = np.array(np.c_[d.exp, d.cov], dtype=float)
-- 
2.43.0


From efbb65e4b3ec3d6b5c5b9eb48fa81ef71d8304bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:22 +0000
Subject: [PATCH 42/45] fix: softmax overflowed for narrow integers

---
 causal_effect_bandits/nonlinear_utils.py | 1 +
 causal_effect_bandits/paper_utils.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/causal_effect_bandits/nonlinear_utils.py b/causal_effect_bandits/nonlinear_utils.py
index b8d4888..3d79307 100644
--- a/causal_effect_bandits/nonlinear_utils.py
+++ b/causal_effect_bandits/nonlinear_utils.py
@@ -27,6 +27,7 @@ from sklearn import gaussian_process
 
 
 def softmax(x):
+  x = np.asarray(x, dtype=float)  # narrow integers could overflow
   e_x = np.exp(x - np.max(x))
   return e_x / e_x.sum(axis=0)
 
diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index b3c1ca3..4887fc1 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -33,6 +33,7 @@ warnings.filterwarnings('ignore', category=sk.exceptions.ConvergenceWarning)
 
 
 def softmax(x):
+  x = np.asarray(x, dtype=float)  # narrow integers could overflow
   e_x = np.exp(x - np.max(x))
   return e_x / e_x.sum(axis=0)
 
-- 
2.43.0


From 018e15e60783c5d4fdae01ccc4868dd0f8505474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:25 +0000
Subject: [PATCH 43/45] fix: softmax of a matrix shifts every column by its own
 maximum

---
 causal_effect_bandits/nonlinear_utils.py | 2 +-
 causal_effect_bandits/paper_utils.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/nonlinear_utils.py b/causal_effect_bandits/nonlinear_utils.py
index 3d79307..4ecb9ce 100644
--- a/causal_effect_bandits/nonlinear_utils.py
+++ b/causal_effect_bandits/nonlinear_utils.py
@@ -28,7 +28,7 @@ from sklearn import gaussian_process
 
 def softmax(x):
   x = np.asarray(x, dtype=float)  # narrow integers could overflow
-  e_x = np.exp(x - np.max(x))
+  e_x = np.exp(x - np.max(x, axis=0))
   return e_x / e_x.sum(axis=0)
 
 
diff --git a/causal_effect_bandits/paper_utils.py b/causal_effect_bandits/paper_utils.py
index 4887fc1..67fee26 100644
--- a/causal_effect_bandits/paper_utils.py
+++ b/causal_effect_bandits/paper_utils.py
@@ -34,7 +34,7 @@ warnings.filterwarnings('ignore', category=sk.exceptions.ConvergenceWarning)
 
 def softmax(x):
   x = np.asarray(x, dtype=float)  # narrow integers could overflow
-  e_x = np.exp(x - np.max(x))
+  e_x = np.exp(x - np.max(x, axis=0))
   return e_x / e_x.sum(axis=0)
 
 
-- 
2.43.0


From aa6ed8a531bd8f7f196c5d02f2c1c08c191f59cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:35 +0000
Subject: [PATCH 44/45] fix: arms without held-out units report the vacuous
 interval

---
 causal_effect_bandits/arms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index cf4bdf6..7f31277 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -223,7 +223,7 @@ class SampleSplittingArm(VarianceEstimatorArm):
 
     # We need to check that all folds and all control, treatment groups
     # Have at least one unit. Otherwise, return [0, np.inf) for the confidence.
-    if not self._eta.has_enough_samples():
+    if not self._eta.has_enough_samples() or not self._split_data[1]:
       self._ci = (0, np.inf)
       self._ate = np.nan
       self._var_est = np.inf
@@ -360,7 +360,7 @@ class BootstrapArm(VarianceEstimatorArm):
     self._eta.fit(self._split_data[0])
 
     # As in the other arms, eta may not have seen enough units to be usable.
-    if not self._eta.has_enough_samples():
+    if not self._eta.has_enough_samples() or not self._split_data[1]:
       self._ci = (0, np.inf)
       self._ate = np.nan
       self._var_est = np.inf
-- 
2.43.0


From a469c9fbfdf77b7937d655748d3387e83e799e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:35 +0000
Subject: [PATCH 45/45] fix: an odd unit of an update goes to the smaller fold

---
 causal_effect_bandits/arms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causal_effect_bandits/arms.py b/causal_effect_bandits/arms.py
index 7f31277..6220576 100644
--- a/causal_effect_bandits/arms.py
+++ b/causal_effect_bandits/arms.py
@@ -210,6 +210,8 @@ class SampleSplittingArm(VarianceEstimatorArm):
     else:
       if self._stable_splits:
         new_split = self._data_transformer(new_data).k_fold(2)
+        if len(self._split_data[1]) < len(self._split_data[0]):
+          new_split.reverse()  # an odd unit goes to the smaller fold
         for i in range(2):
           self._split_data[i].append(new_split[i])
       else:
@@ -347,6 +349,8 @@ class BootstrapArm(VarianceEstimatorArm):
     else:
       if self._stable_splits:
         new_split = self._data_transformer(new_data).k_fold(self.n_splits)
+        if len(self._split_data[1]) < len(self._split_data[0]):
+          new_split.reverse()  # an odd unit goes to the smaller fold
         for i in range(self.n_splits):
           self._split_data[i].append(new_split[i])
       else:
-- 
2.43.0

