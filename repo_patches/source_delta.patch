From c494a84fe7a043b810610c6d46e0069d3607d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 01/31] fix: fit ignored the categorical_features given to the
 constructor

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 79fe5e1..ecc10bb 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -359,7 +359,7 @@ class ForestBase(BaseEstimator):
 
         self._generate_random_states()
 
-        is_categorical = get_is_categorical(categorical_features, n_features)
+        is_categorical = get_is_categorical(self.categorical_features, n_features)
 
         encoder = Encoder(
             max_bins=self.max_bins,
-- 
2.43.0


From 4b7402b6ad4ee6838284db309b5535a146b3ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 02/31] fix: fit with class_weight modified the caller's
 sample_weight inplace

---
 wildwood/forest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index ecc10bb..84db509 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -332,7 +332,10 @@ class ForestBase(BaseEstimator):
             if multiclass == "multinomial":
                 if class_weight is not None:
                     expanded_class_weight = compute_sample_weight(class_weight, y)
-                    sample_weight_ *= expanded_class_weight
+                    # Not inplace: sample_weight_ may be the array of the caller
+                    sample_weight_ = np.ascontiguousarray(
+                        sample_weight_ * expanded_class_weight, dtype=np.float32
+                    )
 
             else:
                 if class_weight is not None:
-- 
2.43.0


From 7163dcac4b3a645dcf0b8458453efbc883178f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 03/31] fix: multiclass=ovr grew the same tree n_classes times
 within a class

---
 wildwood/forest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 84db509..6f023d1 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -249,9 +249,9 @@ class ForestBase(BaseEstimator):
             if self.multiclass == "ovr":
                 # TODO: an option random_state_ovr
                 # In the "ovr" case, we want the random_state to be the same across the
-                # trees used in the one-versus all strategy
-                # np.repeat(np.array([2, 1, 17, 3]), repeats=3)
-                _random_states = np.repeat(_random_states, repeats=self._n_classes_)
+                # trees used in the one-versus all strategy. The trees of class k are
+                # at indices k * n_estimators, ..., (k + 1) * n_estimators - 1
+                _random_states = np.tile(_random_states, self._n_classes_)
 
         self._random_states_bootstrap = _random_states
         self._random_states_trees = _random_states
-- 
2.43.0


From a8d4829f745d17dd2aae4401a0d349c7c5dfd8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 04/31] fix: regression sorted categorical bins by sum instead
 of average of the labels

---
 wildwood/_split.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index f3942c8..9406de2 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -885,7 +885,12 @@ def find_best_split_regressor_along_feature(
     cumsum_samples_valid_left = np.zeros(n_samples_train_in_bins.size, dtype=np.uintp)
 
     if is_feature_categorical:
-        idx_sort = np.argsort(y_sum_in_bins[non_empty_bins_train])
+        # Sort bins according to the average label in each bin: this leads to the best
+        # split partitioning for regression
+        idx_sort = np.argsort(
+            y_sum_in_bins[non_empty_bins_train]
+            / w_samples_train_in_bins[non_empty_bins_train]
+        )
         bins_train[:] = non_empty_bins_train[idx_sort]
     else:
         bins_train[:] = np.sort(non_empty_bins_train)
-- 
2.43.0


From 991a4d1634ae7c956938d77d745f4bfe98cbb52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 05/31] fix: random_state did not seed the subsampling used for
 binning

---
 wildwood/forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 6f023d1..18babd8 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -370,6 +370,7 @@ class ForestBase(BaseEstimator):
             is_categorical=is_categorical,
             cat_min_categories=self.cat_min_categories,
             handle_unknown=self.handle_unknown,
+            random_state=self.random_state,
         )
 
         encoder.fit(X)
-- 
2.43.0


From 696022aea871e41477c74c2b0fed2faa0aa918d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 06/31] fix: an invalid random_state was silently ignored

---
 wildwood/forest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 18babd8..7f655fc 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -869,9 +869,11 @@ class ForestBase(BaseEstimator):
                 if val >= 0:
                     self._random_state = val
                 else:
-                    ValueError("random_state must be >= 0")
+                    raise ValueError("random_state must be >= 0")
             else:
-                ValueError("random_state must be either None or an integer number")
+                raise ValueError(
+                    "random_state must be either None or an integer number"
+                )
 
     @property
     def verbose(self):
-- 
2.43.0


From 037794a30043f7908f1b592b51a68fcd34a8858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 07/31] fix: predict before fit raised AttributeError instead
 of NotFittedError

---
 wildwood/forest.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 7f655fc..dc0adea 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -256,6 +256,9 @@ class ForestBase(BaseEstimator):
         self._random_states_bootstrap = _random_states
         self._random_states_trees = _random_states
 
+    def __sklearn_is_fitted__(self):
+        return self._fitted
+
     def __getstate__(self):
         return {k: serialize(v) for k, v in self.__dict__.items()}
 
-- 
2.43.0


From 7c42b1c1e412636e57594ed842f1e58726772526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:14 +0000
Subject: [PATCH 08/31] fix: Encoder.transform mixed up dataframe columns
 sharing a name

---
 wildwood/preprocessing/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 5f41b93..536ba9f 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -374,7 +374,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                 max_values[col_idx] = col_n_bins - 1
 
                 # Save the eventually transformed column (if categorical)
-                X_dict[col_name] = col
+                X_dict[col_idx] = col
         else:
             # First, we need to know if some columns from X have unknown categories,
             # since this might increase by one the number of bins required. Note that
@@ -435,7 +435,7 @@ class Encoder(TransformerMixin, BaseEstimator):
 
         # And to loop again over the columns to fill it
         if is_dataframe:
-            for col_idx, (col_name, col) in enumerate(X_dict.items()):
+            for col_idx, col in X_dict.items():
                 if is_categorical_[col_idx]:
                     col_categories_at_fit = categories[col_idx]
                     # Use the same categories as the ones used in fit and replace
-- 
2.43.0


From 986ef259cae5cf41f9757ec768122b09e69d6c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 09/31] fix: float32 aggregation weights gave mixing
 proportions larger than one

---
 wildwood/_grow.py  | 19 +++++++++++++++----
 wildwood/_node.py  |  2 +-
 wildwood/_tree.py  | 12 ++++++------
 wildwood/_utils.py |  4 ++--
 4 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/wildwood/_grow.py b/wildwood/_grow.py
index c6280cc..7563402 100644
--- a/wildwood/_grow.py
+++ b/wildwood/_grow.py
@@ -11,7 +11,18 @@ aggregation.
 
 from math import log
 import numpy as np
-from numba import jit, from_dtype, void, boolean, intp, uintp, uint64, float32, optional
+from numba import (
+    jit,
+    from_dtype,
+    void,
+    boolean,
+    intp,
+    uintp,
+    uint64,
+    float32,
+    float64,
+    optional,
+)
 from numba.types import Tuple
 from numba.experimental import jitclass
 from ._split import find_node_split, split_indices
@@ -531,11 +542,11 @@ def grow(
     locals={
         "node_idx": intp,
         "node": node_type,
-        "loss": float32,
+        "loss": float64,
         "left_child": intp,
         "right_child": intp,
-        "log_weight_tree_left": float32,
-        "log_weight_tree_right": float32,
+        "log_weight_tree_left": float64,
+        "log_weight_tree_right": float64,
     },
 )
 def compute_tree_weights(nodes, node_count, step):
diff --git a/wildwood/_node.py b/wildwood/_node.py
index 64cbeb6..3a1658a 100644
--- a/wildwood/_node.py
+++ b/wildwood/_node.py
@@ -66,7 +66,7 @@ node_dtype = np.dtype(
         ("loss_valid", np.float32),
         #
         # Logarithm of the subtree aggregation weight
-        ("log_weight_tree", np.float32),
+        ("log_weight_tree", np.float64),
         #
         # Number of training samples in the node
         ("n_samples_train", np.uintp),
diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 41d2478..9ac749c 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -857,8 +857,8 @@ def tree_apply(tree, features_bitarray):
         "pred_i": float32[::1],
         "node": node_type,
         "node_pred": float32[::1],
-        "loss": float32,
-        "log_weight_tree": float32,
+        "loss": float64,
+        "log_weight_tree": float64,
         "alpha": float32,
     },
 )
@@ -934,8 +934,8 @@ def tree_classifier_predict_proba(tree, features_bitarray, aggregation, step):
         "pred_i": float32,
         "node": node_type,
         "node_pred": float32,
-        "loss": float32,
-        "log_weight_tree": float32,
+        "loss": float64,
+        "log_weight_tree": float64,
         "alpha": float32,
     },
 )
@@ -1034,8 +1034,8 @@ def tree_regressor_predict(tree, features_bitarray, aggregation, step):
         "node": node_type,
         "weighted_depth": float32,
         "node_pred": float32,
-        "loss": float32,
-        "log_weight_tree": float32,
+        "loss": float64,
+        "log_weight_tree": float64,
         "alpha": float32,
     },
 )
diff --git a/wildwood/_utils.py b/wildwood/_utils.py
index e612d87..a8ba7ca 100644
--- a/wildwood/_utils.py
+++ b/wildwood/_utils.py
@@ -1,7 +1,7 @@
 from math import log, exp
 import numpy as np
 from numpy.random import randint
-from numba import jit, void, float32, uintp
+from numba import jit, void, float64, uintp
 
 # Global @jit flags used throughout the code (wth some exceptions)
 NOPYTHON = True
@@ -94,7 +94,7 @@ def resize(a, new_size, zeros=False):
 
 
 @jit(
-    float32(float32, float32),
+    float64(float64, float64),
     nopython=NOPYTHON,
     nogil=NOGIL,
     boundscheck=BOUNDSCHECK,
-- 
2.43.0


From 2a8d00ac2ae904fcedbf8fd40ed3fbf551cb81e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 10/31] fix: a lightened forest could be pickled but not
 unpickled

---
 wildwood/tree.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 4550e65..d5034c2 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -186,13 +186,19 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
                 self._tree_classifier_context = None
             if hasattr(self, "_tree_classifier"):
                 self._tree_classifier.nodes = self._tree_classifier.nodes[:self._tree_classifier.node_count]
+                self._tree_classifier.y_pred = self._tree_classifier.y_pred[:self._tree_classifier.node_count]
+                self._tree_classifier.capacity = self._tree_classifier.node_count
                 self._tree_classifier.bin_partitions = self._tree_classifier.bin_partitions[:self._tree_classifier.bin_partitions_end]
+                self._tree_classifier.bin_partitions_capacity = self._tree_classifier.bin_partitions_end
         else:
             if hasattr(self, "_tree_regressor_context"):
                 self._tree_regressor_context = None
             if hasattr(self, "_tree_regressor"):
                 self._tree_regressor.nodes = self._tree_regressor.nodes[:self._tree_regressor.node_count]
+                self._tree_regressor.y_pred = self._tree_regressor.y_pred[:self._tree_regressor.node_count]
+                self._tree_regressor.capacity = self._tree_regressor.node_count
                 self._tree_regressor.bin_partitions = self._tree_regressor.bin_partitions[:self._tree_regressor.bin_partitions_end]
+                self._tree_regressor.bin_partitions_capacity = self._tree_regressor.bin_partitions_end
 
 
 class TreeClassifier(ClassifierMixin, TreeBase):
@@ -477,7 +483,10 @@ def serialize(obj):
 
 
 def unserialize(key, val):
-    if key == "_tree_classifier":
+    if val is None:
+        # Such as the context of a tree on which lighten was called
+        return None
+    elif key == "_tree_classifier":
         n_features = val["n_features"]
         n_classes = val["n_classes"]
         random_state = val["random_state"]
-- 
2.43.0


From 66829b42a210e734c4ef9d6c71b62a19053a635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 11/31] fix: changing step failed halfway on a lightened forest

---
 wildwood/tree.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index d5034c2..b022ea8 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -156,23 +156,25 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         if self._step != val:
             self._step = val
             if self.is_classifier:
-                if hasattr(self, "_tree_classifier_context"):
+                # The context is None if lighten was called
+                if self._tree_classifier_context is not None:
                     self._tree_classifier_context.step = val
-                    if self._tree_classifier_context.aggregation:
-                        compute_tree_weights(
-                            self._tree_classifier.nodes,
-                            self._tree_classifier.node_count,
-                            val,
-                        )
+                if self._tree_classifier is not None and self.aggregation:
+                    compute_tree_weights(
+                        self._tree_classifier.nodes,
+                        self._tree_classifier.node_count,
+                        val,
+                    )
             else:
-                if hasattr(self, "_tree_regressor_context"):
+                # The context is None if lighten was called
+                if self._tree_regressor_context is not None:
                     self._tree_regressor_context.step = val
-                    if self._tree_regressor_context.aggregation:
-                        compute_tree_weights(
-                            self._tree_regressor.nodes,
-                            self._tree_regressor.node_count,
-                            val,
-                        )
+                if self._tree_regressor is not None and self.aggregation:
+                    compute_tree_weights(
+                        self._tree_regressor.nodes,
+                        self._tree_regressor.node_count,
+                        val,
+                    )
 
     def lighten(self):
         if hasattr(self, "_train_indices"):
-- 
2.43.0


From 9ab0a907902d905f2817eb258ee8cd44cccc4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 12/31] fix: dirichlet=0 or a lightened forest left a fitted
 forest inconsistent

---
 wildwood/forest.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index dc0adea..8bb6f57 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1380,6 +1380,14 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                 raise ValueError("dirichlet must be positive")
             else:
                 recompute = hasattr(self, "_dirichlet") and self._dirichlet != val
+                if self._fitted and recompute:
+                    # Check everything before changing anything
+                    if val == 0.0 and any(tree.aggregation for tree in self.trees):
+                        raise ValueError("dirichlet must be > 0 when aggregation=True")
+                    if any(tree._tree_classifier_context is None for tree in self.trees):
+                        raise ValueError(
+                            "You cannot change dirichlet after calling lighten"
+                        )
                 self._dirichlet = val
                 if self._fitted and recompute:
                     for tree in self.trees:
-- 
2.43.0


From bb72afb61b52bd5a3713a060b06202efec7da417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 13/31] fix: fitting two classes with multiclass=ovr changed
 the parameter, refitting failed

---
 wildwood/forest.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 8bb6f57..3647187 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -245,8 +245,8 @@ class ForestBase(BaseEstimator):
         _random_states = random_instance.randint(
             np.iinfo(np.uint32).max, size=n_estimators
         )
-        if hasattr(self, "multiclass"):
-            if self.multiclass == "ovr":
+        if hasattr(self, "multiclass_"):
+            if self.multiclass_ == "ovr":
                 # TODO: an option random_state_ovr
                 # In the "ovr" case, we want the random_state to be the same across the
                 # trees used in the one-versus all strategy. The trees of class k are
@@ -316,7 +316,7 @@ class ForestBase(BaseEstimator):
         if is_classifier:
             y = self._encode_y(y)
             class_weight = self.class_weight
-            multiclass = self.multiclass
+            multiclass = self.multiclass_
             n_classes = self._n_classes_
 
             if self.aggregation and self.dirichlet == 0.0:
@@ -435,7 +435,7 @@ class ForestBase(BaseEstimator):
             ]
 
         # Parallel loop: use threading since all the numba code releases the GIL
-        ovr = is_classifier and self.multiclass == "ovr"
+        ovr = is_classifier and self.multiclass_ == "ovr"
         if self.verbose:
             with parallel_config(prefer="threads"):
                 trees = Parallel(
@@ -1168,6 +1168,9 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         self._classes_ = label_encoder.classes_
         n_classes_ = self._classes_.shape[0]
         self._n_classes_ = n_classes_
+        # The strategy actually used: the one asked for, or "multinomial" when there
+        # are only two classes
+        self.multiclass_ = multiclass
         if multiclass == "ovr":
             if n_classes_ <= 2:
                 if self.verbose:
@@ -1176,7 +1179,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
                         'multiclass="multinomial" instead of "ovr"'
                     )
                 # We switch back to "multinomial" encoding
-                self.multiclass = "multinomial"
+                self.multiclass_ = "multinomial"
                 # And we need to flatten the array in this case (since LabelBinarizer
                 # returns a (n_samples, 2) array in this case)
                 encoded_y = pre_encoded_y.ravel().astype(np.float32)
@@ -1257,7 +1260,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         all_proba = np.zeros((features_bitarray.n_samples, self.n_classes_))
         n_estimators = self.n_estimators
 
-        ovr = self.multiclass == "ovr"
+        ovr = self.multiclass_ == "ovr"
 
         with parallel_config(require="sharedmem"):
             Parallel(
@@ -1320,7 +1323,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
             (
                 n_estimators,
                 n_samples,
-                2 if n_classes > 2 and self.multiclass == "ovr" else n_classes,
+                2 if n_classes > 2 and self.multiclass_ == "ovr" else n_classes,
             )
         )
 
-- 
2.43.0


From 9da07b67f23ed2a5dd8d75427f11108df0dde3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 14/31] fix: ForestRegressor.predict_trees always failed

---
 wildwood/forest.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 3647187..504bfd5 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -1712,17 +1712,8 @@ class ForestRegressor(ForestBase, RegressorMixin):
         output : ndarray of shape (n_estimators, n_samples)
            The predicted target regression values by each tree for the input samples.
         """
-        check_is_fitted(self)
-        # Check data
-        X = self._validate_X_predict(X)
-        # TODO: we can also avoid data binning for predictions...
-        X_binned = self._bin_data(X, is_training_data=False)
-        n_samples, n_features = X.shape
-        n_estimators = len(self.trees)
-        n_jobs, _, _ = _partition_estimators(self.n_estimators, self.n_jobs)
-        probas = np.empty((n_estimators, n_samples, n_features))
-
-        lock = threading.Lock()
+        features_bitarray, n_jobs, lock = self._predict_helper(X)
+        predictions = np.empty((len(self.trees), features_bitarray.n_samples))
         with parallel_config(require="sharedmem"):
             Parallel(
                 n_jobs=n_jobs,
@@ -1730,11 +1721,11 @@ class ForestRegressor(ForestBase, RegressorMixin):
                 # **_joblib_parallel_args(require="sharedmem"),
             )(
                 delayed(_get_tree_prediction)(
-                    e.predict_proba, X_binned, probas, lock, tree_idx
+                    e.predict, features_bitarray, predictions, lock, tree_idx
                 )
                 for tree_idx, e in enumerate(self.trees)
             )
-        return probas
+        return predictions
 
     @property
     def criterion(self):
-- 
2.43.0


From fe50d8c20e403e25cae93b995d56231d3a45f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:52 +0000
Subject: [PATCH 15/31] fix: missing values of an object array overwrote the
 bins of other rows

---
 wildwood/preprocessing/encoder.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 536ba9f..844a103 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -377,16 +377,9 @@ class Encoder(TransformerMixin, BaseEstimator):
                 X_dict[col_idx] = col
         else:
             # First, we need to know if some columns from X have unknown categories,
-            # since this might increase by one the number of bins required. Note that
-            # if X has object dtype (or similar), this code assumes that it cannot
-            # contain missing values. We might obtain missing values if unknown
-            # categories occur.
-            if X.dtype.kind in "uif":
-                # If X has a numerical dtype, we can look for missing values
-                has_missing_values = np.isnan(X).any(axis=0)
-            else:
-                # Otherwise, there is no missing value
-                has_missing_values = np.zeros(n_features, dtype=np.bool_)
+            # since this might increase by one the number of bins required. We might
+            # also obtain missing values if unknown categories occur.
+            has_missing_values = pd.isna(X).any(axis=0)
 
             for col_idx in range(n_features):
                 col = X[:, col_idx]
-- 
2.43.0


From 59b93d1dbe3249149642f74cb953bc9e8e3dfdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:52 +0000
Subject: [PATCH 16/31] fix: a declared but unused category made
 Encoder.transform raise an error

---
 wildwood/preprocessing/encoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 844a103..a2154aa 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -343,7 +343,10 @@ class Encoder(TransformerMixin, BaseEstimator):
                     if col.dtype.name != "category":
                         col = col.astype("category")
 
-                    col_categories_at_transform = set(col.cat.categories)
+                    # Only the categories which are actually used matter
+                    col_categories_at_transform = set(
+                        col.cat.remove_unused_categories().cat.categories
+                    )
                     # TODO: is this the best approach for this test ?
                     col_has_unknown_categories = not col_categories_at_transform.issubset(
                         col_categories_at_fit
-- 
2.43.0


From 3a7acff7184fd4416a5a1ff5ef3b358a2b6f7b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:38 +0000
Subject: [PATCH 17/31] fix: fit with max_depth=None failed after a fit with an
 integer max_depth

---
 wildwood/forest.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 504bfd5..646f2b2 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -730,7 +730,9 @@ class ForestBase(BaseEstimator):
 
     @staticmethod
     def _get_max_depth_(max_depth):
-        return np.iinfo(np.uintp).max if max_depth is None else max_depth
+        # Fits in a signed integer: numba would otherwise fail whenever a forest with an
+        # integer max_depth was fitted before in the same process
+        return np.iinfo(np.intp).max if max_depth is None else max_depth
 
     @property
     def min_samples_split(self):
-- 
2.43.0


From 5a4ac45dbc3fceb0728911405c0014fabdcb2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:09 +0000
Subject: [PATCH 18/31] fix: a batch with only missing values in a column with
 many categories got wrong bins

---
 wildwood/preprocessing/encoder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index a2154aa..67cc663 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -444,7 +444,8 @@ class Encoder(TransformerMixin, BaseEstimator):
                         # values is always -1, while we want to use instead the last bin
                         # index to stick to non-negative integers.
                         # TODO: Direct numba code for this by testing the -1 directly ?
-                        binned_col = col.cat.codes.values.copy()
+                        # The codes can use a dtype too small for the last bin
+                        binned_col = col.cat.codes.values.astype(np.int64)
                         binned_col[col.isna()] = col_categories_at_fit.size
                     else:
                         # No copy is required
@@ -473,7 +474,8 @@ class Encoder(TransformerMixin, BaseEstimator):
                         # categories. Internally, the code used by pandas for missing
                         # values is always -1, while we want to use instead the last bin
                         # index to stick to non-negative integers.
-                        binned_col = col.cat.codes.values.copy()
+                        # The codes can use a dtype too small for the last bin
+                        binned_col = col.cat.codes.values.astype(np.int64)
                         binned_col[col.isna()] = col_categories_at_fit.size
                     else:
                         # No copy is required
-- 
2.43.0


From 46c1fc905cb7b2a9a46a6a668fe6cea57961aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:11 +0000
Subject: [PATCH 19/31] fix: columns with many infinite values were all put
 into one bin

---
 wildwood/preprocessing/_binning.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wildwood/preprocessing/_binning.py b/wildwood/preprocessing/_binning.py
index 1cbfd31..2a59a9f 100644
--- a/wildwood/preprocessing/_binning.py
+++ b/wildwood/preprocessing/_binning.py
@@ -70,9 +70,14 @@ def _find_binning_thresholds(col, max_bins, col_is_pandas_series=False):
         percentiles = np.linspace(0, 100, num=max_bins + 1)
         percentiles = percentiles[1:-1]
         # TODO: is there a faster approach ?
-        middles = np.percentile(col, percentiles, method="midpoint")
+        # We don't use method="midpoint", which gives nan between infinite values
+        middles = np.percentile(col, percentiles, method="lower")
+        middles += np.percentile(col, percentiles, method="higher")
+        middles *= 0.5
         assert middles.shape[0] == max_bins - 1
 
+    # The middle of -inf and +inf is nan
+    middles[np.isnan(middles)] = 0.0
     # We avoid having +inf thresholds: +inf thresholds are only allowed in
     # a "split on nan" situation.
     np.clip(middles, a_min=None, a_max=ALMOST_INF, out=middles)
-- 
2.43.0


From 91e06cf390fa781897a681b728f0b0b6c03f13db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:59 +0000
Subject: [PATCH 20/31] fix: a fit that failed mixed up the classes and
 parameters of a fitted forest

---
 wildwood/forest.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 646f2b2..bbcb8f3 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -301,6 +301,17 @@ class ForestBase(BaseEstimator):
         self : object
             The fitted forest.
         """
+        state = self.__dict__.copy()
+        try:
+            return self._fit(
+                X, y, sample_weight, categorical_features, randomized_depth
+            )
+        except BaseException:
+            # A fit that fails leaves the forest as it was
+            self.__dict__ = state
+            raise
+
+    def _fit(self, X, y, sample_weight, categorical_features, randomized_depth):
         if categorical_features is not None:
             self.categorical_features = categorical_features
 
-- 
2.43.0


From 99f1285c40a7b34654454c8d9feb06202325aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:59 +0000
Subject: [PATCH 21/31] fix: lighten failed on an unfitted forest

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index bbcb8f3..a576d02 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -666,7 +666,7 @@ class ForestBase(BaseEstimator):
         return features_bitarray, n_jobs, lock
 
     def lighten(self):
-        if hasattr(self, "trees"):
+        if self.trees is not None:
             for tree in self.trees:
                 tree.lighten()
 
-- 
2.43.0


From 04673741f461e96f9deef0e55dc45a65840f1587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:59 +0000
Subject: [PATCH 22/31] fix: step, dirichlet and max_features accepted nan

---
 wildwood/forest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index a576d02..30c44b6 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -703,7 +703,7 @@ class ForestBase(BaseEstimator):
     def step(self, val):
         if not isinstance(val, float):
             raise ValueError("step must be a float")
-        elif val <= 0:
+        elif not val > 0:
             raise ValueError("step must be positive")
         else:
             self._step = val
@@ -811,7 +811,7 @@ class ForestBase(BaseEstimator):
             else:
                 self._max_features = val
         elif isinstance(val, float):
-            if val > 1.0 or val <= 0.0:
+            if not 0.0 < val <= 1.0:
                 raise ValueError("max_features must be <= 1.0 and > 0.0")
             else:
                 self._max_features = val
@@ -1392,7 +1392,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         if not isinstance(val, float):
             raise ValueError("dirichlet must be a float")
         else:
-            if val < 0.0:
+            if not val >= 0.0:
                 raise ValueError("dirichlet must be positive")
             else:
                 recompute = hasattr(self, "_dirichlet") and self._dirichlet != val
-- 
2.43.0


From 775976887fb5d014116232427ed80352f239a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:22 +0000
Subject: [PATCH 23/31] fix: randomized_depth did not depend on random_state

---
 wildwood/forest.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 30c44b6..ce66dc9 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -395,6 +395,9 @@ class ForestBase(BaseEstimator):
         features_bitarray = encoder.transform(X)
         self._encoder = encoder
 
+        # Used only with randomized_depth
+        random_instance = check_random_state(self.random_state)
+
         if is_classifier:
             # We are training a classifier
             trees = [
@@ -406,7 +409,7 @@ class ForestBase(BaseEstimator):
                     step=self.step,
                     aggregation=self.aggregation,
                     dirichlet=self.dirichlet,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth else random_instance.randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
@@ -430,7 +433,7 @@ class ForestBase(BaseEstimator):
                     loss=self.loss,
                     step=self.step,
                     aggregation=self.aggregation,
-                    max_depth=max_depth_ if not randomized_depth else np.random.randint(3, 51),
+                    max_depth=max_depth_ if not randomized_depth else random_instance.randint(3, 51),
                     min_samples_split=self.min_samples_split,
                     min_samples_leaf=self.min_samples_leaf,
                     categorical_features=self.categorical_features,
-- 
2.43.0


From 49f334520bf3815f55e836a9aa35f8fe78fefe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:43 +0000
Subject: [PATCH 24/31] fix: columns_ of Dataset named other columns than those
 of the matrices

---
 wildwood/datasets/dataset.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index 2c54163..45120c8 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -301,18 +301,9 @@ class Dataset:
         # column label
         self.n_samples_in_, _ = df.shape
 
-        # A list containing the names of the categorical colunms
-        self.categorical_columns_ = [
-            col
-            for col, dtype in df.dtypes.items()
-            if col != self.label_column and dtype.name == "category"
-        ]
-        # A list containing the names of the continuous colunms
-        self.continuous_columns_ = [
-            col
-            for col, dtype in df.dtypes.items()
-            if col != self.label_column and dtype.name != "category"
-        ]
+        # The columns that are transformed, in the order of the transformed matrices
+        self.categorical_columns_ = list(self.categorical_columns or [])
+        self.continuous_columns_ = list(self.continuous_columns or [])
 
         self.n_features_categorical_ = len(self.categorical_columns_)
         self.n_features_continuous_ = len(self.continuous_columns_)
@@ -349,13 +340,16 @@ class Dataset:
         if self.n_features_categorical_ > 0:
             if self.one_hot_encode:
                 # Get the list of modalities from the OneHotEncoder
-                all_modalities = (
-                    self.transformer.transformer_list[-1][1]
-                    .transformers_[0][1]
-                    .categories_
-                )
-                for categorical_column, modalities in zip(
-                    self.categorical_columns_, all_modalities
+                one_hot_encoder = self.transformer.transformer_list[-1][
+                    1
+                ].transformers_[0][1]
+                all_modalities = one_hot_encoder.categories_
+                # The modality of each feature without a column
+                dropped = one_hot_encoder.drop_idx_
+                if dropped is None:
+                    dropped = [None] * len(all_modalities)
+                for categorical_column, modalities, idx_dropped in zip(
+                    self.categorical_columns_, all_modalities, dropped
                 ):
                     # Add the columns for this features
                     columns.extend(
@@ -365,6 +359,7 @@ class Dataset:
                             # + modality
                             + "#" + str(idx_modality)
                             for idx_modality, modality in enumerate(modalities)
+                            if idx_modality != idx_dropped
                         ]
                     )
             else:
-- 
2.43.0


From d6ae9933c680092b1f77cfa00d38dbe7a5768a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:43 +0000
Subject: [PATCH 25/31] fix: categorical_features_ of Dataset was that of a
 former extract with one-hot encoding

---
 wildwood/datasets/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wildwood/datasets/dataset.py b/wildwood/datasets/dataset.py
index 45120c8..c7998b5 100644
--- a/wildwood/datasets/dataset.py
+++ b/wildwood/datasets/dataset.py
@@ -317,6 +317,8 @@ class Dataset:
             #
             categorical_features[-self.n_features_categorical_ :] = True
             self.categorical_features_ = categorical_features
+        else:
+            self.categorical_features_ = None
 
         stratify = None if self.task == "regression" else df[self.label_column]
 
-- 
2.43.0


From 82227cdf91904bb6406a0d96860e6c2d00c29a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 26/31] fix: the column is_left of get_nodes was never filled

---
 wildwood/_tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 9ac749c..83aec6d 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -615,6 +615,7 @@ def add_node_tree(
     node["parent"] = parent
     node["depth"] = depth
     node["is_leaf"] = is_leaf
+    node["is_left"] = is_left
     node["impurity"] = impurity
     node["n_samples_train"] = n_samples_train
     node["n_samples_valid"] = n_samples_valid
-- 
2.43.0


From b7e49034c04440b52634cfaced9cf20160071a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 27/31] fix: path_leaf always failed

---
 wildwood/_tree.py  | 5 +----
 wildwood/forest.py | 4 ++--
 wildwood/tree.py   | 3 +++
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 83aec6d..402237f 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -752,7 +752,7 @@ def sample_path_leaf(tree, xi):
     col_is_split_categorical = []
     col_decision = []
 
-    while True:
+    while not node["is_leaf"]:
         bin_partition_start = node["bin_partition_start"]
         bin_partition_end = node["bin_partition_end"]
         is_split_categorical = node["is_split_categorical"]
@@ -787,9 +787,6 @@ def sample_path_leaf(tree, xi):
         col_decision.append(decision)
         node = nodes[leaf_idx]
 
-        if node["is_leaf"]:
-            break
-
     df = pd.DataFrame(
         {
             "depth": col_depth,
diff --git a/wildwood/forest.py b/wildwood/forest.py
index ce66dc9..001f082 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -28,6 +28,7 @@ from sklearn.utils.validation import check_is_fitted
 from ._utils import split_strategy_mapping, criteria_mapping
 from .preprocessing._checks import get_is_categorical
 from .preprocessing import Encoder
+from .preprocessing.features_bitarray import features_bitarray_to_array
 
 
 eps = np.finfo("float32").eps
@@ -678,8 +679,7 @@ class ForestBase(BaseEstimator):
 
     def path_leaf(self, X, tree_idx=0):
         check_is_fitted(self)
-        X = self._validate_X_predict(X, check_input=True)
-        X_binned = self._bin_data(X, is_training_data=False)
+        X_binned = features_bitarray_to_array(self._encoder.transform(X))
         return self.trees[tree_idx].path_leaf(X_binned)
 
     @property
diff --git a/wildwood/tree.py b/wildwood/tree.py
index b022ea8..59f7ae5 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -447,6 +447,9 @@ class TreeRegressor(TreeBase, RegressorMixin):
     def get_nodes(self):
         return get_nodes_regressor(self._tree_regressor)
 
+    def path_leaf(self, X):
+        return _path_leaf(self._tree_regressor, X)
+
 
 def serialize(obj):
     if isinstance(obj, _TreeClassifier):
-- 
2.43.0


From 3af2974d34d53315313e2a980f262bc6bc37db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 28/31] fix: get_depth and get_n_leaves of a fitted tree raised
 NotFittedError

---
 wildwood/tree.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 59f7ae5..904be0e 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -99,6 +99,12 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         self.random_state = random_state
         self.verbose = verbose
 
+    def __sklearn_is_fitted__(self):
+        if self.is_classifier:
+            return self._tree_classifier is not None
+        else:
+            return self._tree_regressor is not None
+
     def get_depth(self):
         """Return the depth of the decision tree.
 
@@ -107,14 +113,12 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
 
         Returns
         -------
-        self.tree_.max_depth : int
+        output : int
             The maximum depth of the tree.
         """
         check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.max_depth
-        else:
-            return self._tree_regressor.max_depth
+        tree = self._tree_classifier if self.is_classifier else self._tree_regressor
+        return int(tree.nodes["depth"][: tree.node_count].max())
 
     def get_actual_depth(self):
         nd = self.get_nodes()
@@ -125,14 +129,12 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
 
         Returns
         -------
-        self.tree_.n_leaves : int
+        output : int
             Number of leaves.
         """
         check_is_fitted(self)
-        if self.is_classifier:
-            return self._tree_classifier.n_leaves
-        else:
-            return self._tree_regressor.n_leaves
+        tree = self._tree_classifier if self.is_classifier else self._tree_regressor
+        return int(tree.nodes["is_leaf"][: tree.node_count].sum())
 
     def apply(self, X):
         if self.is_classifier:
-- 
2.43.0


From a733d2468c1f61ea07f8e2d44437022b395be452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 29/31] fix: get_nodes of an unfitted forest raised TypeError
 instead of NotFittedError

---
 wildwood/forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 001f082..3f1d4df 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -675,6 +675,7 @@ class ForestBase(BaseEstimator):
                 tree.lighten()
 
     def get_nodes(self, tree_idx):
+        check_is_fitted(self)
         return self.trees[tree_idx].get_nodes()
 
     def path_leaf(self, X, tree_idx=0):
-- 
2.43.0


From 761c0fc53c036e40590402f8409794ccac07263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:57 +0000
Subject: [PATCH 30/31] fix: Encoder.inverse_transform failed for a categorical
 column with only missing values

---
 wildwood/preprocessing/encoder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 67cc663..b15312b 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -543,8 +543,12 @@ class Encoder(TransformerMixin, BaseEstimator):
                 if has_missing_values:
                     binned_col[missing_mask] = 0
 
-                # Get back the categories from the codes
-                col = pd.Categorical(col_categories[binned_col])
+                # Get back the categories from the codes. There are no categories if
+                # the column had only missing values during fit
+                if col_categories.size > 0:
+                    col = pd.Categorical(col_categories[binned_col])
+                else:
+                    col = pd.Categorical(np.full(binned_col.size, np.nan))
 
                 if has_missing_values:
                     # If it has missing values we need to put then back
-- 
2.43.0


From 44579bb24df4652c43ae4ac4f18aed5d9a87df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:42 +0000
Subject: [PATCH 31/31] fix: get_nodes and path_leaf elided the bins of
 partitions with more than 1000 bins

---
 wildwood/_tree.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/wildwood/_tree.py b/wildwood/_tree.py
index 402237f..09a2987 100644
--- a/wildwood/_tree.py
+++ b/wildwood/_tree.py
@@ -243,6 +243,11 @@ TreeClassifierType = get_type(_TreeClassifier)
 TreeRegressorType = get_type(_TreeRegressor)
 
 
+def _partition_to_str(bin_partition):
+    # str would elide the bins of a partition with more than 1000 of them
+    return np.array2string(bin_partition, threshold=bin_partition.size + 1)
+
+
 def get_nodes(tree):
     import pandas as pd
 
@@ -292,7 +297,7 @@ def get_nodes(tree):
         bin_threshold = node["bin_threshold"]
         if is_split_categorical:
             bin_partition = bin_partitions[bin_partition_start:bin_partition_end]
-            col_bin_partition.append(str(bin_partition))
+            col_bin_partition.append(_partition_to_str(bin_partition))
         else:
             col_bin_partition.append(str(bin_threshold))
 
@@ -765,14 +770,15 @@ def sample_path_leaf(tree, xi):
         if is_split_categorical:
             # If the split is on a categorical feature
             bin_partition = bin_partitions[bin_partition_start:bin_partition_end]
-            col_bin_partition.append(str(bin_partition))
+            shown_partition = _partition_to_str(bin_partition)
+            col_bin_partition.append(shown_partition)
             col_bin_threshold.append(None)
             if is_bin_in_partition(xi_f, bin_partition):
                 leaf_idx = node["left_child"]
-                decision = "left: %d in %s" % (xi_f, str(bin_partition))
+                decision = "left: %d in %s" % (xi_f, shown_partition)
             else:
                 leaf_idx = node["right_child"]
-                decision = "right: %d not in %s" % (xi_f, str(bin_partition))
+                decision = "right: %d not in %s" % (xi_f, shown_partition)
         else:
             # If the split is on a continuous feature
             if xi_f <= node["bin_threshold"]:
-- 
2.43.0

