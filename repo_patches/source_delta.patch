From eef59c77f7d0b62580a34f38d451d8c856893ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 01/22] fix: add the KSG-CMI noise to the condition once
 instead of once per sample

---
 .../mutual_information/kraskov_stoegbauer_grassberger.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index f3b9720..81627a5 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -283,7 +283,7 @@ class KSGCMIEstimator(BaseKSGMIEstimator, ConditionalMutualInformationEstimator)
             for j in range(len(data[0])):
                 for i in range(len(data)):
                     data[i][j] += self.rng.normal(0, self.noise_level, data[i][j].shape)
-                cond += self.rng.normal(0, self.noise_level, cond.shape)
+            cond += self.rng.normal(0, self.noise_level, cond.shape)
 
         # Stack the X, Y, and Z data to form joint observations
         data_joint = column_stack((*data, cond))
-- 
2.43.0


From d4918ec9695b7079d5f50daac88a4cf07589101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 02/22] fix: use all columns of multivariate variables in the
 kernel CMI marginals

---
 infomeasure/estimators/mutual_information/kernel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index f7dea33..0574974 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -3,7 +3,6 @@
 from abc import ABC
 
 from numpy import column_stack, ndarray, prod
-from numpy import newaxis
 
 from ..base import (
     MutualInformationEstimator,
@@ -231,15 +230,15 @@ class KernelCMIEstimator(BaseKernelMIEstimator, ConditionalMutualInformationEsti
                 ),
                 *(
                     kde_probability_density_function(
-                        joint_all[:, [i, -1]],
+                        column_stack([var, self.cond]),
                         self.bandwidth,
                         kernel=self.kernel,
                         workers=self.n_workers,
                     )
-                    for i in range(len(self.data))
+                    for var in self.data
                 ),
                 kde_probability_density_function(
-                    joint_all[:, -1, newaxis],
+                    self.cond,
                     self.bandwidth,
                     kernel=self.kernel,
                     workers=self.n_workers,
-- 
2.43.0


From 7151b69fa65af44e808235cbeae98cac720fbec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 03/22] fix: resample the symbols in statistical tests of the
 ordinal MI and CMI

---
 .../estimators/mutual_information/ordinal.py       | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 0072c05..4b0df9c 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -116,7 +116,9 @@ class BaseOrdinalMIEstimator(ABC):
         self.step_size = step_size
         self.stable = stable
 
-        self.symbols = [
+        # Keep the symbols as data, so that resampling the data in the statistical tests
+        # acts on the ordinal patterns that enter the calculation.
+        self.data = tuple(
             reduce_joint_space(
                 symbolize_series(
                     var,
@@ -127,7 +129,7 @@ class BaseOrdinalMIEstimator(ABC):
                 )
             )
             for var in self.data
-        ]  # Convert permutation tuples to integers for efficiency (reduce_joint_space),
+        )  # Convert permutation tuples to integers for efficiency (reduce_joint_space),
         # so mutual_information_global can use crosstab method internally
 
         if cond is not None:
@@ -180,7 +182,7 @@ class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
         if self.embedding_dim == 1:
             return 0.0
 
-        return mutual_information_global(*self.symbols, log_func=self._log_base)
+        return mutual_information_global(*self.data, log_func=self._log_base)
 
     def _extract_local_values(self) -> ndarray[float]:
         """Separately calculate the local values.
@@ -190,7 +192,7 @@ class OrdinalMIEstimator(BaseOrdinalMIEstimator, MutualInformationEstimator):
         ndarray[float]
             The calculated local values of mi.
         """
-        return mutual_information_local(*self.symbols, log_func=self._log_base)
+        return mutual_information_local(*self.data, log_func=self._log_base)
 
 
 class OrdinalCMIEstimator(
@@ -234,7 +236,7 @@ class OrdinalCMIEstimator(
             return 0.0
 
         return conditional_mutual_information_global(
-            *self.symbols,
+            *self.data,
             cond=self.symbols_cond,
             log_func=self._log_base,
         )
@@ -248,5 +250,5 @@ class OrdinalCMIEstimator(
             The calculated local values of cmi.
         """
         return conditional_mutual_information_local(
-            *self.symbols, cond=self.symbols_cond, log_func=self._log_base
+            *self.data, cond=self.symbols_cond, log_func=self._log_base
         )
-- 
2.43.0


From acfd4068353828217ddc63e705f602bb7d999760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 04/22] fix: restore the estimator state when a statistical
 test calculation fails

---
 infomeasure/estimators/mixins.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/infomeasure/estimators/mixins.py b/infomeasure/estimators/mixins.py
index 33a0d9d..0ced142 100644
--- a/infomeasure/estimators/mixins.py
+++ b/infomeasure/estimators/mixins.py
@@ -294,13 +294,14 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             raise ValueError(f"Invalid statistical test method: {method}.")
 
         # Generate test values
-        permuted_values = [
-            self._calculate_mi_with_data_selection(method_resample_src)
-            for _ in range(n_tests)
-        ]
-
-        # Restore the original data
-        self.data = self.original_data
+        try:
+            permuted_values = [
+                self._calculate_mi_with_data_selection(method_resample_src)
+                for _ in range(n_tests)
+            ]
+        finally:
+            # Restore the original data, also if a calculation fails
+            self.data = self.original_data
         return asarray(permuted_values)
 
     def _test_te(self, n_tests: int, method: str) -> ndarray:
@@ -335,12 +336,13 @@ class StatisticalTestingMixin(RandomGeneratorMixin):
             raise ValueError(f"Invalid statistical test method: {method}.")
 
         # Generate test values
-        permuted_values = [self._calculate() for _ in range(n_tests)]
+        try:
+            permuted_values = [self._calculate() for _ in range(n_tests)]
+        finally:
+            # Deactivate the permutation/resample flags, also if a calculation fails
+            self.permute_src, self.resample_src = False, False
         if isinstance(permuted_values[0], ndarray):
             permuted_values = [np_mean(x) for x in permuted_values]
-
-        # Deactivate the permutation/resample flags
-        self.permute_src, self.resample_src = False, False
         return asarray(permuted_values)
 
 
-- 
2.43.0


From dcba329dce4b2ebfa2b90a43d074e083f450bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 05/22] fix: average the Kozachenko-Leonenko cross-entropy over
 the points of P

---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index ae3ca0b..412c85f 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -262,7 +262,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
             -psi_k
             + digamma(M)
             + log(c_d)
-            + d * np_sum(log(2 * distances[distances > 0])) / M
+            + d * np_sum(log(2 * distances[distances > 0])) / len(distances)
         )
         # return in desired base
         return hx / log(self.base) if self.base != "e" else hx
-- 
2.43.0


From a7a30da6e0e94aa2e7b329b35db6f53d853cd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 06/22] fix: accept a seed for the noise of the
 Kozachenko-Leonenko entropy

---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 412c85f..22edddf 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -132,6 +132,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         noise_level=1e-10,
         minkowski_p=inf,
         base: LogBaseType = Config.get("base"),
+        **kwargs,
     ):
         r"""Initialize the Kozachenko-Leonenko estimator.
 
@@ -160,7 +161,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
                 "The Minkowski power parameter must be positive, "
                 f"but got {minkowski_p}."
             )
-        super().__init__(*data, base=base)
+        super().__init__(*data, base=base, **kwargs)
         self.data = tuple(assure_2d_data(var) for var in self.data)
         self.k = k
         if ksg_id not in {1, 2}:
-- 
2.43.0


From db70c901278a4dc0f4fcd6d25792b345f03b263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 07/22] fix: look up the default logarithm base when an
 estimator is constructed

---
 infomeasure/estimators/base.py                | 22 ++++++++++---------
 infomeasure/estimators/entropy/ansb.py        |  2 +-
 infomeasure/estimators/entropy/bayes.py       |  2 +-
 infomeasure/estimators/entropy/kernel.py      |  2 +-
 .../estimators/entropy/kozachenko_leonenko.py |  2 +-
 infomeasure/estimators/entropy/nsb.py         |  2 +-
 infomeasure/estimators/entropy/ordinal.py     |  2 +-
 infomeasure/estimators/entropy/renyi.py       |  2 +-
 infomeasure/estimators/entropy/tsallis.py     |  2 +-
 .../estimators/mutual_information/ansb.py     |  2 +-
 .../estimators/mutual_information/bayes.py    |  2 +-
 .../mutual_information/bonachela.py           |  2 +-
 .../mutual_information/chao_shen.py           |  2 +-
 .../mutual_information/chao_wang_jost.py      |  2 +-
 .../estimators/mutual_information/discrete.py |  2 +-
 .../mutual_information/grassberger.py         |  2 +-
 .../estimators/mutual_information/kernel.py   |  2 +-
 .../kraskov_stoegbauer_grassberger.py         |  2 +-
 .../mutual_information/miller_madow.py        |  2 +-
 .../estimators/mutual_information/nsb.py      |  2 +-
 .../estimators/mutual_information/ordinal.py  |  2 +-
 .../estimators/mutual_information/renyi.py    |  2 +-
 .../estimators/mutual_information/shrink.py   |  2 +-
 .../estimators/mutual_information/tsallis.py  |  2 +-
 .../estimators/mutual_information/zhang.py    |  2 +-
 .../estimators/transfer_entropy/ansb.py       |  2 +-
 .../estimators/transfer_entropy/bayes.py      |  2 +-
 .../estimators/transfer_entropy/bonachela.py  |  2 +-
 .../estimators/transfer_entropy/chao_shen.py  |  2 +-
 .../transfer_entropy/chao_wang_jost.py        |  2 +-
 .../estimators/transfer_entropy/discrete.py   |  2 +-
 .../transfer_entropy/grassberger.py           |  2 +-
 .../estimators/transfer_entropy/kernel.py     |  2 +-
 .../kraskov_stoegbauer_grassberger.py         |  2 +-
 .../transfer_entropy/miller_madow.py          |  2 +-
 .../estimators/transfer_entropy/nsb.py        |  2 +-
 .../estimators/transfer_entropy/ordinal.py    |  2 +-
 .../estimators/transfer_entropy/renyi.py      |  2 +-
 .../estimators/transfer_entropy/shrink.py     |  2 +-
 .../estimators/transfer_entropy/tsallis.py    |  2 +-
 .../estimators/transfer_entropy/zhang.py      |  2 +-
 41 files changed, 52 insertions(+), 50 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 15b14a3..135dad5 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -64,11 +64,12 @@ class Estimator(Generic[EstimatorType], ABC):
     (use :class:`StatisticalTestingMixin` for standard implementations).
     """
 
-    def __init__(self, base: LogBaseType = Config.get("base")):
+    def __init__(self, base: LogBaseType = None):
         """Initialize the estimator."""
         self.res_global = None
         self.res_local = None
-        self.base = base
+        # The default is looked up here, so that changes to the config take effect.
+        self.base = Config.get("base") if base is None else base
 
     @final
     def calculate(self) -> None:
@@ -279,7 +280,7 @@ class EntropyEstimator(Estimator["EntropyEstimator"], ABC):
       :math:`-\sum_{i=1}^{n} p_i \log_b q_i`
     """
 
-    def __init__(self, *data, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, base: LogBaseType = None):
         """Initialize the estimator with the data."""
         # Check valid input data
         if len(data) == 0:
@@ -481,7 +482,7 @@ class MutualInformationEstimator(
         *data,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -640,7 +641,7 @@ class ConditionalMutualInformationEstimator(
         cond=None,
         normalize: bool = False,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -801,7 +802,7 @@ class TransferEntropyEstimator(
         dest_hist_len: int = 1,
         step_size: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -988,7 +989,7 @@ class ConditionalTransferEntropyEstimator(
         step_size: int = 1,
         prop_time=None,
         offset=None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with the data."""
@@ -1145,7 +1146,8 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         """
         if isinstance(args[0], DiscreteData):
             self.data = (args[0],)
-            self.base = kwargs.get("base", Config.get("base"))
+            base = kwargs.get("base")
+            self.base = Config.get("base") if base is None else base
             self.res_global = None
             self.res_local = None
             return
@@ -1160,7 +1162,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
 
     @classmethod
     def from_counts(
-        cls, uniq, counts, base: LogBaseType = Config.get("base"), **kwargs
+        cls, uniq, counts, base: LogBaseType = None, **kwargs
     ):
         """Construct a DiscreteHEstimator from the provided counts.
 
@@ -1176,7 +1178,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
         cls,
         uniq,
         probabilities,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Construct a DiscreteHEstimator from the provided probabilities.
diff --git a/infomeasure/estimators/entropy/ansb.py b/infomeasure/estimators/entropy/ansb.py
index 88e9fb6..e849823 100644
--- a/infomeasure/estimators/entropy/ansb.py
+++ b/infomeasure/estimators/entropy/ansb.py
@@ -69,7 +69,7 @@ class AnsbEntropyEstimator(DiscreteHEstimator):
         *data,
         K: int = None,
         undersampled: float = 0.1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the ANSB entropy estimator."""
         super().__init__(*data, base=base)
diff --git a/infomeasure/estimators/entropy/bayes.py b/infomeasure/estimators/entropy/bayes.py
index e204e65..48009f9 100644
--- a/infomeasure/estimators/entropy/bayes.py
+++ b/infomeasure/estimators/entropy/bayes.py
@@ -68,7 +68,7 @@ class BayesEntropyEstimator(DiscreteHEstimator):
         *data,
         alpha: float | str,
         K: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the BayesEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kernel.py b/infomeasure/estimators/entropy/kernel.py
index cacf0d3..18fecdf 100644
--- a/infomeasure/estimators/entropy/kernel.py
+++ b/infomeasure/estimators/entropy/kernel.py
@@ -129,7 +129,7 @@ class KernelEntropyEstimator(WorkersMixin, EntropyEstimator):
         bandwidth: float | int,
         kernel: str,
         workers: int = 1,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the KernelEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 22edddf..4f046f9 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -131,7 +131,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         ksg_id: int = 1,
         noise_level=1e-10,
         minkowski_p=inf,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Kozachenko-Leonenko estimator.
diff --git a/infomeasure/estimators/entropy/nsb.py b/infomeasure/estimators/entropy/nsb.py
index 8b59c65..b4689ee 100644
--- a/infomeasure/estimators/entropy/nsb.py
+++ b/infomeasure/estimators/entropy/nsb.py
@@ -80,7 +80,7 @@ class NsbEntropyEstimator(DiscreteHEstimator):
     np.float64(1.4526460202102247)
     """
 
-    def __init__(self, *data, K: int = None, base: LogBaseType = Config.get("base")):
+    def __init__(self, *data, K: int = None, base: LogBaseType = None):
         """Initialize the NSB entropy estimator."""
         super().__init__(*data, base=base)
         self.k_given = K
diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index b936cfc..4c3e3c3 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -67,7 +67,7 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         embedding_dim: int,
         step_size: int = 1,
         stable: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         """Initialize the OrdinalEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/renyi.py b/infomeasure/estimators/entropy/renyi.py
index 3888921..fa6d48e 100644
--- a/infomeasure/estimators/entropy/renyi.py
+++ b/infomeasure/estimators/entropy/renyi.py
@@ -49,7 +49,7 @@ class RenyiEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         alpha: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the RenyiEntropyEstimator.
 
diff --git a/infomeasure/estimators/entropy/tsallis.py b/infomeasure/estimators/entropy/tsallis.py
index 568ed8e..ddec65f 100644
--- a/infomeasure/estimators/entropy/tsallis.py
+++ b/infomeasure/estimators/entropy/tsallis.py
@@ -47,7 +47,7 @@ class TsallisEntropyEstimator(EntropyEstimator):
         *data,
         k: int = 4,
         q: float | int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
     ):
         r"""Initialize the TsallisMIEstimator.
 
diff --git a/infomeasure/estimators/mutual_information/ansb.py b/infomeasure/estimators/mutual_information/ansb.py
index b080d05..dd1f20b 100644
--- a/infomeasure/estimators/mutual_information/ansb.py
+++ b/infomeasure/estimators/mutual_information/ansb.py
@@ -40,7 +40,7 @@ class BaseAnsbMIEstimator(ABC):
         cond=None,
         undersampled: float = 0.1,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Ansb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bayes.py b/infomeasure/estimators/mutual_information/bayes.py
index 68cb40e..e572bd1 100644
--- a/infomeasure/estimators/mutual_information/bayes.py
+++ b/infomeasure/estimators/mutual_information/bayes.py
@@ -43,7 +43,7 @@ class BaseBayesMIEstimator(ABC):
         alpha: float | str,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bayes estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/bonachela.py b/infomeasure/estimators/mutual_information/bonachela.py
index 6ba53fb..2770679 100644
--- a/infomeasure/estimators/mutual_information/bonachela.py
+++ b/infomeasure/estimators/mutual_information/bonachela.py
@@ -37,7 +37,7 @@ class BaseBonachelaMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Bonachela estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_shen.py b/infomeasure/estimators/mutual_information/chao_shen.py
index 1ec5f35..2750684 100644
--- a/infomeasure/estimators/mutual_information/chao_shen.py
+++ b/infomeasure/estimators/mutual_information/chao_shen.py
@@ -37,7 +37,7 @@ class BaseChaoShenMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoShen estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/chao_wang_jost.py b/infomeasure/estimators/mutual_information/chao_wang_jost.py
index eab3efa..5e18ccd 100644
--- a/infomeasure/estimators/mutual_information/chao_wang_jost.py
+++ b/infomeasure/estimators/mutual_information/chao_wang_jost.py
@@ -37,7 +37,7 @@ class BaseChaoWangJostMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the ChaoWangJost estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/discrete.py b/infomeasure/estimators/mutual_information/discrete.py
index a12aa98..df7f251 100644
--- a/infomeasure/estimators/mutual_information/discrete.py
+++ b/infomeasure/estimators/mutual_information/discrete.py
@@ -43,7 +43,7 @@ class BaseDiscreteMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/grassberger.py b/infomeasure/estimators/mutual_information/grassberger.py
index 6208a27..6113f10 100644
--- a/infomeasure/estimators/mutual_information/grassberger.py
+++ b/infomeasure/estimators/mutual_information/grassberger.py
@@ -37,7 +37,7 @@ class BaseGrassbergerMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Grassberger estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/kernel.py b/infomeasure/estimators/mutual_information/kernel.py
index 0574974..a8b29ea 100644
--- a/infomeasure/estimators/mutual_information/kernel.py
+++ b/infomeasure/estimators/mutual_information/kernel.py
@@ -52,7 +52,7 @@ class BaseKernelMIEstimator(WorkersMixin, ABC):
         offset: int = 0,
         workers: int = 1,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the estimator with specific bandwidth and kernel.
diff --git a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
index 81627a5..f0918d8 100644
--- a/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/mutual_information/kraskov_stoegbauer_grassberger.py
@@ -57,7 +57,7 @@ class BaseKSGMIEstimator(ABC):
         minkowski_p=inf,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/miller_madow.py b/infomeasure/estimators/mutual_information/miller_madow.py
index 920354a..b2a2c0d 100644
--- a/infomeasure/estimators/mutual_information/miller_madow.py
+++ b/infomeasure/estimators/mutual_information/miller_madow.py
@@ -41,7 +41,7 @@ class BaseMillerMadowMIEstimator(DiscreteMIMixin, ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/nsb.py b/infomeasure/estimators/mutual_information/nsb.py
index 0d3a397..58a62aa 100644
--- a/infomeasure/estimators/mutual_information/nsb.py
+++ b/infomeasure/estimators/mutual_information/nsb.py
@@ -39,7 +39,7 @@ class BaseNsbMIEstimator(ABC):
         cond=None,
         K: int = None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Nsb estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/ordinal.py b/infomeasure/estimators/mutual_information/ordinal.py
index 4b0df9c..219fe6e 100644
--- a/infomeasure/estimators/mutual_information/ordinal.py
+++ b/infomeasure/estimators/mutual_information/ordinal.py
@@ -69,7 +69,7 @@ class BaseOrdinalMIEstimator(ABC):
         step_size: int = 1,
         stable: bool = False,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the OrdinalMIEstimator."""
diff --git a/infomeasure/estimators/mutual_information/renyi.py b/infomeasure/estimators/mutual_information/renyi.py
index 734343d..e572f78 100644
--- a/infomeasure/estimators/mutual_information/renyi.py
+++ b/infomeasure/estimators/mutual_information/renyi.py
@@ -50,7 +50,7 @@ class BaseRenyiMIEstimator(ABC):
         noise_level=1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/shrink.py b/infomeasure/estimators/mutual_information/shrink.py
index f1a22cc..43bb7bf 100644
--- a/infomeasure/estimators/mutual_information/shrink.py
+++ b/infomeasure/estimators/mutual_information/shrink.py
@@ -37,7 +37,7 @@ class BaseShrinkMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Shrink estimator with specific parameters.
diff --git a/infomeasure/estimators/mutual_information/tsallis.py b/infomeasure/estimators/mutual_information/tsallis.py
index faffd02..8b8439b 100644
--- a/infomeasure/estimators/mutual_information/tsallis.py
+++ b/infomeasure/estimators/mutual_information/tsallis.py
@@ -50,7 +50,7 @@ class BaseTsallisMIEstimator(ABC):
         noise_level: float = 1e-8,
         offset: int = 0,
         normalize: bool = False,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseTsallisMIEstimator.
diff --git a/infomeasure/estimators/mutual_information/zhang.py b/infomeasure/estimators/mutual_information/zhang.py
index 1d8375f..4603f89 100644
--- a/infomeasure/estimators/mutual_information/zhang.py
+++ b/infomeasure/estimators/mutual_information/zhang.py
@@ -37,7 +37,7 @@ class BaseZhangMIEstimator(ABC):
         *data,
         cond=None,
         offset: int = 0,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the Zhang estimator with specific parameters.
diff --git a/infomeasure/estimators/transfer_entropy/ansb.py b/infomeasure/estimators/transfer_entropy/ansb.py
index f4a5a0c..7aa22d6 100644
--- a/infomeasure/estimators/transfer_entropy/ansb.py
+++ b/infomeasure/estimators/transfer_entropy/ansb.py
@@ -55,7 +55,7 @@ class BaseAnsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseAnsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bayes.py b/infomeasure/estimators/transfer_entropy/bayes.py
index 549c32e..7847b63 100644
--- a/infomeasure/estimators/transfer_entropy/bayes.py
+++ b/infomeasure/estimators/transfer_entropy/bayes.py
@@ -63,7 +63,7 @@ class BaseBayesTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBayesTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/bonachela.py b/infomeasure/estimators/transfer_entropy/bonachela.py
index 54dc871..d647c60 100644
--- a/infomeasure/estimators/transfer_entropy/bonachela.py
+++ b/infomeasure/estimators/transfer_entropy/bonachela.py
@@ -52,7 +52,7 @@ class BaseBonachelaTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseBonachelaTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_shen.py b/infomeasure/estimators/transfer_entropy/chao_shen.py
index eef5b3c..351edbc 100644
--- a/infomeasure/estimators/transfer_entropy/chao_shen.py
+++ b/infomeasure/estimators/transfer_entropy/chao_shen.py
@@ -52,7 +52,7 @@ class BaseChaoShenTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoShenTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
index 141cd90..96a6a49 100644
--- a/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
+++ b/infomeasure/estimators/transfer_entropy/chao_wang_jost.py
@@ -52,7 +52,7 @@ class BaseChaoWangJostTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseChaoWangJostTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/discrete.py b/infomeasure/estimators/transfer_entropy/discrete.py
index aa06de1..440037c 100644
--- a/infomeasure/estimators/transfer_entropy/discrete.py
+++ b/infomeasure/estimators/transfer_entropy/discrete.py
@@ -54,7 +54,7 @@ class BaseDiscreteTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseDiscreteTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/grassberger.py b/infomeasure/estimators/transfer_entropy/grassberger.py
index 07a63fb..ae40077 100644
--- a/infomeasure/estimators/transfer_entropy/grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/grassberger.py
@@ -52,7 +52,7 @@ class BaseGrassbergerTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseGrassbergerTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kernel.py b/infomeasure/estimators/transfer_entropy/kernel.py
index b7462db..32072b1 100644
--- a/infomeasure/estimators/transfer_entropy/kernel.py
+++ b/infomeasure/estimators/transfer_entropy/kernel.py
@@ -65,7 +65,7 @@ class BaseKernelTEEstimator(WorkersMixin, ABC):
         cond_hist_len: int = 1,
         workers: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseKernelTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
index 65911e6..fb15f46 100644
--- a/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
+++ b/infomeasure/estimators/transfer_entropy/kraskov_stoegbauer_grassberger.py
@@ -69,7 +69,7 @@ class BaseKSGTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         r"""Initialize the BaseKSGTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/miller_madow.py b/infomeasure/estimators/transfer_entropy/miller_madow.py
index 3c10abf..b754a61 100644
--- a/infomeasure/estimators/transfer_entropy/miller_madow.py
+++ b/infomeasure/estimators/transfer_entropy/miller_madow.py
@@ -52,7 +52,7 @@ class BaseMillerMadowTEEstimator(DiscreteTEMixin, ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseMillerMadowTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/nsb.py b/infomeasure/estimators/transfer_entropy/nsb.py
index 199a781..23277eb 100644
--- a/infomeasure/estimators/transfer_entropy/nsb.py
+++ b/infomeasure/estimators/transfer_entropy/nsb.py
@@ -54,7 +54,7 @@ class BaseNsbTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseNsbTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/ordinal.py b/infomeasure/estimators/transfer_entropy/ordinal.py
index 16597ee..72df1f4 100644
--- a/infomeasure/estimators/transfer_entropy/ordinal.py
+++ b/infomeasure/estimators/transfer_entropy/ordinal.py
@@ -76,7 +76,7 @@ class BaseOrdinalTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseOrdinalTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/renyi.py b/infomeasure/estimators/transfer_entropy/renyi.py
index 6bafdb1..9cac23d 100644
--- a/infomeasure/estimators/transfer_entropy/renyi.py
+++ b/infomeasure/estimators/transfer_entropy/renyi.py
@@ -71,7 +71,7 @@ class BaseRenyiTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseRenyiTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/shrink.py b/infomeasure/estimators/transfer_entropy/shrink.py
index 760dc45..4f6ab22 100644
--- a/infomeasure/estimators/transfer_entropy/shrink.py
+++ b/infomeasure/estimators/transfer_entropy/shrink.py
@@ -52,7 +52,7 @@ class BaseShrinkTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseShrinkTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/tsallis.py b/infomeasure/estimators/transfer_entropy/tsallis.py
index 14149ca..f095730 100644
--- a/infomeasure/estimators/transfer_entropy/tsallis.py
+++ b/infomeasure/estimators/transfer_entropy/tsallis.py
@@ -72,7 +72,7 @@ class BaseTsallisTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseTsallisTEEstimator.
diff --git a/infomeasure/estimators/transfer_entropy/zhang.py b/infomeasure/estimators/transfer_entropy/zhang.py
index a9bcf46..cc8ccb5 100644
--- a/infomeasure/estimators/transfer_entropy/zhang.py
+++ b/infomeasure/estimators/transfer_entropy/zhang.py
@@ -52,7 +52,7 @@ class BaseZhangTEEstimator(ABC):
         dest_hist_len: int = 1,
         cond_hist_len: int = 1,
         offset: int = None,
-        base: LogBaseType = Config.get("base"),
+        base: LogBaseType = None,
         **kwargs,
     ):
         """Initialize the BaseZhangTEEstimator.
-- 
2.43.0


From 7a4bdd7575d91561a3c951b16664e104b3822ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 08/22] fix: pass the step size of estimator() on to entropy
 and MI estimators

---
 infomeasure/estimators/functional.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index d48dc44..7580f12 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -695,6 +695,14 @@ def estimator(
     if measure is None:
         raise ValueError("``measure`` is required.")
     measure_comp = measure.lower().replace(" ", "_").replace("-", "_")
+    if step_size != 1 and measure_comp not in [
+        "transfer_entropy",
+        "te",
+        "conditional_transfer_entropy",
+        "cte",
+    ]:
+        # The transfer entropy estimators get the step size explicitly
+        kwargs["step_size"] = step_size
     if measure_comp in ["entropy", "h", "cross_entropy", "hx"]:
         if len(data) == 0 and measure_comp in ["entropy", "h"]:
             raise ValueError("``data`` is required for entropy estimation.")
-- 
2.43.0


From efafe396db83cbcaf03b435c81f56754ccd194ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 09/22] fix: resolve the approach of a single-variable MI like
 any other approach

---
 infomeasure/estimators/functional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/infomeasure/estimators/functional.py b/infomeasure/estimators/functional.py
index 7580f12..8c18cad 100644
--- a/infomeasure/estimators/functional.py
+++ b/infomeasure/estimators/functional.py
@@ -744,9 +744,9 @@ def estimator(
                 "Only one data array provided for mutual information estimation. "
                 "Using normal entropy estimator."
             )
-            EstimatorClass = _get_estimator(
-                entropy_estimators, mi_entropy_map[approach]
-            )
+            if isinstance(approach, str):
+                approach = mi_entropy_map.get(approach.lower(), approach)
+            EstimatorClass = _get_estimator(entropy_estimators, approach)
             return EstimatorClass(data[0], **kwargs)
         if cond is not None:
             EstimatorClass = _get_estimator(cmi_estimators, approach)
-- 
2.43.0


From d3a8e2d7f3b33b15939effc016293272ee3b42de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 10/22] fix: local values of ordinal joint entropy and of
 embedding dimension one

---
 infomeasure/estimators/entropy/ordinal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index 4c3e3c3..cc45360 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -10,6 +10,7 @@ from numpy import (
     integer,
     issubdtype,
     ndarray,
+    ndim,
     asarray,
 )
 
@@ -249,7 +250,10 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             The calculated local values of entropy.
         """
         # Patterns is length n - (embedding_dim - 1) * step_size
-        p_local = [self.dist_dict[tuple(pattern)] for pattern in self.patterns]
+        p_local = [
+            self.dist_dict[tuple(pattern) if ndim(pattern) else pattern]
+            for pattern in self.patterns
+        ]
         return -self._log_base(p_local)
 
     def _cross_entropy(self) -> float:
-- 
2.43.0


From ac83be2f11ec7d7be398db317856beeb458a56ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 11/22] fix: respect stable in all ordinal entropy calculations

---
 infomeasure/estimators/entropy/ordinal.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index cc45360..a0dba1b 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -186,9 +186,10 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         return subarray_patterns[: len(a) - n + 1]
 
     def _estimate_probabilities(self, time_series, embedding_dim):
-        if embedding_dim == 2 and self.step_size == 1:
+        # The shortcuts do not preserve the order of equal elements
+        if embedding_dim == 2 and self.step_size == 1 and not self.stable:
             return self._estimate_probabilities_embedding_dim_2(time_series)
-        if embedding_dim == 3 and self.step_size == 1:
+        if embedding_dim == 3 and self.step_size == 1 and not self.stable:
             return self._estimate_probabilities_embedding_dim_3(time_series)
 
         # Get the length of the time series
@@ -227,7 +228,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
         """Calculate the joint entropy of the data."""
         # Symbolize separately (permutation patterns -> Lehmer codes)
         symbols = (
-            symbolize_series(marginal, self.embedding_dim, self.step_size, to_int=True)
+            symbolize_series(
+                marginal,
+                self.embedding_dim,
+                self.step_size,
+                stable=self.stable,
+                to_int=True,
+            )
             for marginal in self.data[0]  # data is tuple of time series
         )  # shape (n - (embedding_dim - 1) * step_size, num_joints)
         # Reduce the joint space
@@ -270,7 +277,13 @@ class OrdinalEntropyEstimator(EntropyEstimator):
                 "This is to have a clear definition for the support set."
             )
         symbols = tuple(
-            symbolize_series(var, self.embedding_dim, self.step_size, to_int=True)
+            symbolize_series(
+                var,
+                self.embedding_dim,
+                self.step_size,
+                stable=self.stable,
+                to_int=True,
+            )
             for var in self.data
         )
         data_p = DiscreteData.from_data(symbols[0])
-- 
2.43.0


From 52e8f9d8f0de103804b5abb2a0541467489f0751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 12/22] fix: keep the information of the other variables if one
 of many is constant

---
 .../utils/discrete_interaction_information.py    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index e3c1cc8..4dbbbfd 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -108,8 +108,8 @@ def _mutual_information_global_nd_int(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if at most one of the marginal entropies is non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -306,8 +306,8 @@ def mutual_information_local(
         for i in range(contingency_coo.ndim)
     ]
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals):
+    # Early return if at most one of the marginal entropies is non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals) < 2:
         return zeros(len(data[0]))
 
     # To get local values we iterate over *data
@@ -430,8 +430,8 @@ def _conditional_mutual_information_global_nd_int(
     )
     # all axes, except cond
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # Early return if at most one of the marginal entropies is non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals_cond) < 2:
         return 0.0
 
     # Calculate the expected logarithm values for the outer product of marginal
@@ -541,8 +541,8 @@ def conditional_mutual_information_local(
         contingency_coo.sum(axis=tuple(range(contingency_coo.ndim - 1)))
     )
 
-    # Early return if any of the marginal entropies is zero
-    if any(count_m.size == 1 for count_m in count_marginals_cond):
+    # Early return if at most one of the marginal entropies is non-zero
+    if sum(count_m.size > 1 for count_m in count_marginals_cond) < 2:
         return zeros(len(data[0])).astype(float)
 
     # To get local values we iterate over *data
-- 
2.43.0


From 50ce034197885e13c754cf71617b892dca86e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 13/22] fix: check the length of all variables in conditional
 mutual information

---
 infomeasure/estimators/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 135dad5..5330a3d 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -649,10 +649,12 @@ class ConditionalMutualInformationEstimator(
             raise ValueError("Conditional data must be provided for CMI estimation.")
         if offset not in (None, 0):
             raise ValueError("Offset is not supported for CMI estimation.")
-        if len(data[0]) != len(data[1]) or len(data[0]) != len(cond):
+        if len(data) < 2:
+            raise ValueError("At least two data arrays are required for CMI estimation.")
+        if any(len(var) != len(cond) for var in data):
             raise ValueError(
                 "Data arrays must be of the same length, "
-                f"not {len(data[0])}, {len(data[1])}, and {len(cond)}."
+                f"not {', '.join(str(len(var)) for var in data)}, and {len(cond)}."
             )
         self.data = tuple(asarray(d) for d in data)
         self.cond = asarray(cond)
-- 
2.43.0


From b7a665d7b6a310199d0c8dc443d1d8c12052c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:40 +0000
Subject: [PATCH 14/22] fix: multiply occurrence counts of three or more
 variables as floats

The products of the marginal counts overflow 64-bit integers for long series
of four or more variables, which gave wrong (conditional) mutual information.
---
 .../estimators/utils/discrete_interaction_information.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/utils/discrete_interaction_information.py b/infomeasure/estimators/utils/discrete_interaction_information.py
index 4dbbbfd..5bf5ce9 100644
--- a/infomeasure/estimators/utils/discrete_interaction_information.py
+++ b/infomeasure/estimators/utils/discrete_interaction_information.py
@@ -116,7 +116,7 @@ def _mutual_information_global_nd_int(
     # probabilities, only for non-zero entries.
     outer = prod(
         [
-            count.take(idx).astype(uint64, copy=False)
+            count.take(idx).astype(float)
             for count, idx in zip(count_marginals, idxs)
         ],
         axis=0,
@@ -438,7 +438,7 @@ def _conditional_mutual_information_global_nd_int(
     # probabilities, only for non-zero entries.
     outer = prod(
         [
-            count[idx, idxs[-1]].astype(uint64, copy=False)
+            count[idx, idxs[-1]].astype(float)
             for count, idx in zip(count_marginals_cond, idxs[:-1])
         ],
         axis=0,
-- 
2.43.0


From 3553451dcd3cbc67adcba89f83dc4e40a3256cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 15/22] fix: cross-entropy with one neighbour

The k-th neighbour query returned a one-dimensional array for k=1, and
indexing its second axis raised an IndexError.
---
 infomeasure/estimators/entropy/kozachenko_leonenko.py | 2 +-
 infomeasure/estimators/utils/exponential_family.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/entropy/kozachenko_leonenko.py b/infomeasure/estimators/entropy/kozachenko_leonenko.py
index 4f046f9..cf70cf6 100644
--- a/infomeasure/estimators/entropy/kozachenko_leonenko.py
+++ b/infomeasure/estimators/entropy/kozachenko_leonenko.py
@@ -244,7 +244,7 @@ class KozachenkoLeonenkoEntropyEstimator(RandomGeneratorMixin, EntropyEstimator)
         tree = KDTree(data_noisy_q)
 
         # Find the k-th nearest neighbors for each point
-        distances, _ = tree.query(data_noisy_p, self.k, p=self.minkowski_p)
+        distances, _ = tree.query(data_noisy_p, [self.k], p=self.minkowski_p)
         # Only keep the k-th nearest neighbor distance
         distances = distances[:, -1]
 
diff --git a/infomeasure/estimators/utils/exponential_family.py b/infomeasure/estimators/utils/exponential_family.py
index 72875f5..f42f0ae 100644
--- a/infomeasure/estimators/utils/exponential_family.py
+++ b/infomeasure/estimators/utils/exponential_family.py
@@ -60,7 +60,7 @@ def calculate_common_entropy_components(data, k, at=None):
     tree = KDTree(data)
 
     # Get the k-th nearest neighbor distances
-    rho_k = tree.query(at, k=k)[0][:, k - 1]  # k+1 because the point itself is included
+    rho_k = tree.query(at, k=[k])[0][:, 0]  # k+1 because the point itself is included
 
     return V_m, rho_k, N, m
 
-- 
2.43.0


From b4e647391e3e380a0ae1c735c76a8998caa62c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 16/22] fix: labels of three-element ordinal patterns

The shortcut for embedding_dim=3 swapped the labels of two patterns, so the
distribution disagreed with the one of other settings and of single windows.
---
 infomeasure/estimators/entropy/ordinal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index a0dba1b..c780e71 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -141,8 +141,8 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             (True_, True_, True_): (0, 1, 2),
             (True_, False_, True_): (0, 2, 1),
             (False_, True_, True_): (1, 0, 2),
-            (True_, False_, False_): (1, 2, 0),
-            (False_, True_, False_): (2, 0, 1),
+            (True_, False_, False_): (2, 0, 1),
+            (False_, True_, False_): (1, 2, 0),
             (False_, False_, False_): (2, 1, 0),
         }
         dist_dict = {
-- 
2.43.0


From 549d10e91f002f81c6afa2c8d7f432e57705fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 17/22] fix: pattern of a series with a single ordinal window

The key of the distribution was the order of all observations instead of the
embedded ones, and ignored the requested sorting.
---
 infomeasure/estimators/entropy/ordinal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/entropy/ordinal.py b/infomeasure/estimators/entropy/ordinal.py
index c780e71..46d5ebc 100644
--- a/infomeasure/estimators/entropy/ordinal.py
+++ b/infomeasure/estimators/entropy/ordinal.py
@@ -212,7 +212,8 @@ class OrdinalEntropyEstimator(EntropyEstimator):
             self.patterns = [0] * len(self.data[0])
             return 0.0
         elif (self.embedding_dim - 1) * self.step_size + 1 == self.data[0].shape[0]:
-            self.dist_dict = {tuple(self.data[0].argsort()): 1.0}
+            window = self.data[0][:: self.step_size]
+            self.dist_dict = {tuple(window.argsort(stable=self.stable)): 1.0}
             self.patterns = [list(self.dist_dict.keys())[0]]
             return 0.0
         probabilities, self.dist_dict, self.patterns = self._estimate_probabilities(
-- 
2.43.0


From d1df78084593914c11a5ac5e9be2002afb5a4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:25 +0000
Subject: [PATCH 18/22] fix: discrete entropy without data raises ValueError

---
 infomeasure/estimators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 5330a3d..6d35364 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -1146,7 +1146,7 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
             Keyword arguments passed to the parent class constructor.
 
         """
-        if isinstance(args[0], DiscreteData):
+        if args and isinstance(args[0], DiscreteData):
             self.data = (args[0],)
             base = kwargs.get("base")
             self.base = Config.get("base") if base is None else base
-- 
2.43.0


From 5911268dea0bd948d781bb6deecfdbe69f955eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:41 +0000
Subject: [PATCH 19/22] fix: an unknown log level raises the documented
 ValueError

---
 infomeasure/utils/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/infomeasure/utils/config.py b/infomeasure/utils/config.py
index c25efb9..8a81433 100644
--- a/infomeasure/utils/config.py
+++ b/infomeasure/utils/config.py
@@ -213,9 +213,8 @@ class Config:
         ValueError
             If the level is not a valid logging level.
         """
-        # get logging representation of level
-        level = level if isinstance(level, int) else getattr(logging, level.upper())
-        logger.setLevel(level)
+        # an unknown level name raises a ValueError
+        logger.setLevel(level.upper() if isinstance(level, str) else level)
 
 
 logger.debug(
-- 
2.43.0


From e671f62a3c8cc4a9be0f46e0611a7c8606916362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:41 +0000
Subject: [PATCH 20/22] fix: conditional mutual information rejects normalising
 any two-dimensional variable

---
 infomeasure/estimators/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 6d35364..4fae746 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -660,9 +660,7 @@ class ConditionalMutualInformationEstimator(
         self.cond = asarray(cond)
         # Normalize the data
         self.normalize = normalize
-        if self.normalize and (
-            self.data[0].ndim != 1 or self.data[1].ndim != 1 or self.cond.ndim != 1
-        ):
+        if self.normalize and any(var.ndim != 1 for var in (*self.data, self.cond)):
             raise ValueError("Data arrays must be 1D for normalization.")
         if self.normalize:
             self.data = tuple(normalize_data_0_1(var) for var in self.data)
-- 
2.43.0


From 89ea413bfc0165ab4ef4d673bb043d886792e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:46 +0000
Subject: [PATCH 21/22] fix: discrete cross-entropy matches the observations of
 two-dimensional data

---
 infomeasure/estimators/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/infomeasure/estimators/base.py b/infomeasure/estimators/base.py
index 4fae746..09ff9d9 100644
--- a/infomeasure/estimators/base.py
+++ b/infomeasure/estimators/base.py
@@ -7,6 +7,7 @@ from typing import Generic, final, Sequence
 
 from numpy import (
     asarray,
+    concatenate,
     integer,
     issubdtype,
     log,
@@ -1274,7 +1275,12 @@ class DiscreteHEstimator(EntropyEstimator, ABC):
             (isinstance(var, ndarray) and var.ndim > 1) or isinstance(var, tuple)
             for var in self.data
         )
-        if any(reduce):
+        if any(reduce) and len(self.data) == 2:
+            # Cross-entropy: equal observations need to get the same integer
+            # in both distributions.
+            joint = reduce_joint_space(concatenate(self.data, axis=0))
+            self.data = (joint[: len(self.data[0])], joint[len(self.data[0]) :])
+        elif any(reduce):
             # As the discrete shannon entropy disregards the order of the data,
             # we can reduce the values to unique integers.
             # In case of having multiple random variables (tuple or list),
-- 
2.43.0


From d5f3a41f80a616b1c500de26064b028e0973f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:46 +0000
Subject: [PATCH 22/22] fix: Jensen-Shannon divergence matches the observations
 of two-dimensional discrete data

---
 infomeasure/composite_measures/jsd.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/infomeasure/composite_measures/jsd.py b/infomeasure/composite_measures/jsd.py
index 1dc1475..4a41ab8 100644
--- a/infomeasure/composite_measures/jsd.py
+++ b/infomeasure/composite_measures/jsd.py
@@ -1,6 +1,6 @@
 """Jensen-Shannon Divergence (JSD)."""
 
-from numpy import sum as np_sum, concatenate, ndarray
+from numpy import sum as np_sum, asarray, concatenate, ndarray
 
 from ..estimators.entropy import (
     RenyiEntropyEstimator,
@@ -13,6 +13,7 @@ from ..estimators.entropy import (
     ShrinkEntropyEstimator,
 )
 from ..estimators.functional import get_estimator_class
+from ..estimators.utils.ordinal import reduce_joint_space
 
 
 def jensen_shannon_divergence(*data, approach: str | None = None, **kwargs):
@@ -81,6 +82,16 @@ def jensen_shannon_divergence(*data, approach: str | None = None, **kwargs):
             ShrinkEntropyEstimator,
         ),
     ):
+        data = tuple(asarray(var) for var in data)
+        if any(var.ndim > 1 for var in data) and not issubclass(
+            estimator_class, OrdinalEntropyEstimator
+        ):
+            # equal joint observations need to get the same integer in all data
+            joint = reduce_joint_space(concatenate(data, axis=0))
+            data = tuple(
+                joint[sum(map(len, data[:i])) :][: len(var)]
+                for i, var in enumerate(data)
+            )
         estimators = tuple(estimator_class(var, **kwargs) for var in data)
         marginal = sum(estimator.global_val() for estimator in estimators) / len(data)
         # the distributions have some matching and some unique keys, create a new dict
-- 
2.43.0

