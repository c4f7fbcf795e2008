From 932b27da0b4fc08bce973fa79c69d5c98e4a8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 01/44] fix: one-hot blocks overlap when there are three or
 more features

---
 pure_sklearn/preprocessing/_encoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index a6606b1..23d503f 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -130,7 +130,7 @@ class OneHotEncoderPure(_BaseEncoderPure):
         data = [
             dict(
                 [
-                    (n_values[i] + X_int[j][i], self.dtype(1))
+                    (feature_indices[i] + X_int[j][i], self.dtype(1))
                     for i in range(n_features)
                     if X_mask[j][i]
                 ]
-- 
2.43.0


From 0ed90e6ce47a664ed91e5005baf968671b080292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 02/44] fix: empty input is returned a ValueError instead of
 raising it

---
 pure_sklearn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 2787413..433e195 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -94,7 +94,7 @@ def check_array(X, handle_sparse="error"):
     if not isinstance(X, list):
         raise TypeError("Input 'X' must be a list")
     if len(X) == 0:
-        return ValueError("Input 'X' must not be empty")
+        raise ValueError("Input 'X' must not be empty")
     return X
 
 
-- 
2.43.0


From a43bc7091cceec483128a77205358350ce1be293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 03/44] fix: DummyClassifierPure.predict returns the class
 index, not the label

---
 pure_sklearn/dummy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 3697848..b22b3f1 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -26,12 +26,13 @@ class DummyClassifierPure:
         if self._strategy != "prior":
             raise ValueError("Strategy '{}' not supported".format(self._strategy))
         self.class_prior_ = estimator.class_prior_.tolist()
+        self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_outputs_ = estimator.n_outputs_
         check_types(self)
 
     def predict(self, X):
-        return [self.class_prior_.index(max(self.class_prior_))] * len(X)
+        return [self.classes_[self.class_prior_.index(max(self.class_prior_))]] * len(X)
 
     def predict_proba(self, X):
         return [self.class_prior_] * len(X)
-- 
2.43.0


From 39d18eb1237826cfffd62e35ae49b1ab0dcf45ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 04/44] fix: DummyClassifierPure.predict_proba hands out its
 own state as every row

---
 pure_sklearn/dummy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index b22b3f1..99d7c30 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -35,7 +35,7 @@ class DummyClassifierPure:
         return [self.classes_[self.class_prior_.index(max(self.class_prior_))]] * len(X)
 
     def predict_proba(self, X):
-        return [self.class_prior_] * len(X)
+        return [list(self.class_prior_) for _ in range(len(X))]
 
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
-- 
2.43.0


From dabef47d2f8fe267160896cf8a3dbf06b65991c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 05/44] fix: MissingIndicatorPure mistakes missing-value counts
 for feature indices

---
 pure_sklearn/impute/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index a3e594c..001613e 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -70,7 +70,7 @@ class MissingIndicatorPure:
         if self.features == "all":
             features_indices = range(shape(X)[1])
         else:
-            features_indices = [a for a in n_missing if a != 0]
+            features_indices = [i for i, a in enumerate(n_missing) if a != 0]
         return imputer_mask, features_indices
 
 
-- 
2.43.0


From 73ca4ffe48b0fba750852d06c98f3b4fe0aa5ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 06/44] fix: feature hashing overwrites instead of summing
 repeated or colliding features

---
 pure_sklearn/feature_extraction/_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_hash.py b/pure_sklearn/feature_extraction/_hash.py
index 05ddeae..5212039 100755
--- a/pure_sklearn/feature_extraction/_hash.py
+++ b/pure_sklearn/feature_extraction/_hash.py
@@ -109,7 +109,7 @@ def _hashing_transform(raw_X, n_features, dtype, alternate_sign=1, seed=0):
             index = abs(h) % n_features
             if alternate_sign:
                 value *= (h >= 0) * 2 - 1
-            row[index] = value
+            row[index] = row.get(index, 0) + value
         X.append(row)
     return sparse_list(X, size=n_features, dtype=dtype)
 
-- 
2.43.0


From 9f997c915bc13b3158332f9b69c27cf54138d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 07/44] fix: binary vectorizers return a plain list and lose
 the sparse width

---
 pure_sklearn/feature_extraction/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index e3164cf..a9db839 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -377,7 +377,9 @@ class CountVectorizerPure(_VectorizerMixinPure):
 
         _, X = self._count_vocab(raw_documents)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=X.dtype
+            )
         return X
 
 
@@ -481,7 +483,9 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         analyzer = self.build_analyzer()
         X = self._get_hasher().transform(analyzer(doc) for doc in X)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=X.dtype
+            )
 
         if self.norm is not None:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From ce6a3c69de188b380c42543370efdb6b74f58236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 08/44] fix: sublinear_tf crashes with a NameError

---
 pure_sklearn/feature_extraction/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index a9db839..645ae5a 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -19,6 +19,7 @@ from ..utils import (
     check_types,
     check_version,
 )
+from ..base import apply_2d_sparse, safe_log
 from ..map import convert_estimator
 from ..preprocessing import normalize_pure
 from ._hash import _FeatureHasherPure
@@ -425,8 +426,7 @@ class TfidfTransformerPure:
         n_samples, n_features = shape(X)
 
         if self.sublinear_tf:
-            for index in range(len(X)):
-                X[index] = safe_log(X[index]) + 1
+            X = apply_2d_sparse(X, lambda x: safe_log(x) + 1)
 
         if self.use_idf:
             if n_features != self.expected_n_features_:
-- 
2.43.0


From ea66a314806614fd7e5e38cf385d61b74669cfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 09/44] fix: tf-idf width mismatch raises NameError instead of
 its ValueError

---
 pure_sklearn/feature_extraction/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 645ae5a..273affb 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -433,7 +433,7 @@ class TfidfTransformerPure:
                 raise ValueError(
                     "Input has n_features=%d while the model"
                     " has been trained with n_features=%d"
-                    % (n_features, expected_n_features)
+                    % (n_features, self.expected_n_features_)
                 )
             for index in range(len(X)):
                 for k, v in X[index].items():
-- 
2.43.0


From 2c367445e8ddd39b08d76a67507ec8c39e3acfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 10/44] fix: tf-idf models fitted with use_idf=False cannot be
 converted

---
 pure_sklearn/feature_extraction/text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 273affb..24baf3b 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -417,8 +417,9 @@ class TfidfTransformerPure:
         self.use_idf = estimator.use_idf
         self.smooth_idf = estimator.smooth_idf
         self.sublinear_tf = estimator.sublinear_tf
-        self.idf_ = estimator.idf_.tolist()
-        self.expected_n_features_ = estimator._idf_diag.shape[0]
+        if self.use_idf:
+            self.idf_ = estimator.idf_.tolist()
+            self.expected_n_features_ = estimator._idf_diag.shape[0]
         check_types(self)
 
     def transform(self, X, copy=True):
-- 
2.43.0


From f3f0722025b5dcf5820f18426b79688a97db851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 11/44] fix: TfidfTransformerPure.transform rescales the
 caller's rows in place

---
 pure_sklearn/feature_extraction/text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 24baf3b..58c4168 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -436,9 +436,11 @@ class TfidfTransformerPure:
                     " has been trained with n_features=%d"
                     % (n_features, self.expected_n_features_)
                 )
-            for index in range(len(X)):
-                for k, v in X[index].items():
-                    X[index][k] = v * self.idf_[k]
+            X = sparse_list(
+                [{k: v * self.idf_[k] for k, v in x.items()} for x in X],
+                size=X.size,
+                dtype=X.dtype,
+            )
 
         if self.norm:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From 84137d99afc82ade7f41531162af03aedc852d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 12/44] fix: exponential loss probabilities exceed 1 (factor 2
 outside the sigmoid)

---
 pure_sklearn/ensemble/_gb_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 38501ca..2dcbaa5 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -104,7 +104,7 @@ class _ExponentialLossPure:
             if shape(raw_predictions)[1] == 1
             else raw_predictions
         )
-        func = lambda x: expit(x) * 2.0
+        func = lambda x: expit(2.0 * x)
         proba_1 = list(map(func, proba))
         proba = [[(1 - x) for x in proba_1], proba_1]
         return transpose(proba)
-- 
2.43.0


From 3e513f4a484ff29496495b4201b90a522e8f1a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 13/44] fix: gradient boosting ignores its loss's decision rule
 for tied scores

---
 pure_sklearn/ensemble/_gb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index ef90d56..d797b04 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -88,5 +88,5 @@ class GradientBoostingClassifierPure:
         return apply_2d(self.predict_proba(X), safe_log)
 
     def predict(self, X):
-        proba = self.predict_proba(X)
-        return [self.classes_[a.index(max(a))] for a in proba]
+        decision = self.loss_._raw_prediction_to_decision(self._raw_predict(X))
+        return [self.classes_[a] for a in decision]
-- 
2.43.0


From 4dda503b51677ddce8b5ed6c60f0316e96ab20c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 14/44] fix: naive Bayes probabilities become inf when every
 likelihood underflows

---
 pure_sklearn/naive_bayes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index 07b0cd6..2934f14 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -33,7 +33,9 @@ class _BaseNBPure:
         """
         X = check_array(X, handle_sparse="error")
         jll = self._joint_log_likelihood(X)
-        log_prob_x = list(map(lambda a: safe_log(sum(map(safe_exp, a))), jll))
+        log_prob_x = [
+            max(a) + safe_log(sum([safe_exp(b - max(a)) for b in a])) for a in jll
+        ]
         return [
             list(map(lambda a: a - log_prob_x[index], jll[index]))
             for index in range(len(jll))
-- 
2.43.0


From 122811fe1ebc67627a21e904191c0bda40eebee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 15/44] fix: multinomial boosting probabilities break down for
 large raw scores

---
 pure_sklearn/ensemble/_gb_losses.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 2dcbaa5..adf29ee 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -31,9 +31,10 @@ class _MultinomialDeviancePure:
         check_types(self)
 
     def _raw_prediction_to_proba(self, raw_predictions):
-        logsumexp = list(
-            map(safe_log, apply_axis_2d(apply_2d(raw_predictions, safe_exp), sum))
-        )
+        logsumexp = [
+            max(a) + safe_log(sum([safe_exp(b - max(a)) for b in a]))
+            for a in raw_predictions
+        ]
         return [
             [
                 safe_exp(raw_predictions[index][i] - logsumexp[index])
-- 
2.43.0


From 84e2f2bbae370d19ac6d6430971f661d4ded06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 16/44] fix: softmax overflows to nan or divides by zero for
 large scores

---
 pure_sklearn/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index ee53d0a..552bd88 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -74,11 +74,13 @@ def expit(x):
 def sfmax(arr):
     """ Softmax function for 1-D list or a single sparse_list element """
     if isinstance(arr, dict):
-        expons = {k: safe_exp(v) for k, v in arr.items()}
+        shift = max(arr.values(), default=0.0)
+        expons = {k: safe_exp(v - shift) for k, v in arr.items()}
         denom = sum(expons.values())
         out = {k: (v / float(denom)) for k, v in expons.items()}
     else:
-        expons = list(map(safe_exp, arr))
+        shift = max(arr, default=0.0)
+        expons = [safe_exp(x - shift) for x in arr]
         out = list(map(lambda x: x / float(sum(expons)), expons))
     return out
 
-- 
2.43.0


From ed05bb2c23229fd9180f76538930a3ab9ff3568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 17/44] fix: weighted FeatureUnionPure rejects transformers
 with sparse output

---
 pure_sklearn/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 41196f8..75c7ad1 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -6,7 +6,7 @@ from operator import add, attrgetter
 from functools import update_wrapper, reduce
 from itertools import islice
 
-from .base import accumu, apply_2d
+from .base import accumu, apply_2d, apply_2d_sparse
 from .utils import (
     issparse,
     tosparse,
@@ -61,6 +61,8 @@ def _transform_one(transformer, X, y, weight, **fit_params):
     # if we have a weight for this transformer, multiply output
     if weight is None:
         return res
+    if issparse(res):
+        return apply_2d_sparse(res, lambda x: x * weight)
     return apply_2d(res, lambda x: x * weight)
 
 
-- 
2.43.0


From f9cc5f8996c626e52f3800d8bb4f5c0fc501dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 18/44] fix: BaggingClassifierPure raises KeyError on sparse
 input

---
 pure_sklearn/ensemble/_bagging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index f10446d..cf66eea 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -6,12 +6,15 @@ from operator import add
 
 from ..map import MAPPING, convert_estimator
 from ..base import safe_log, operate_2d, apply_2d
-from ..utils import shape, check_types, check_version
+from ..utils import shape, check_types, check_version, issparse, sparse_list
 
 
 def _feat_slice(X, feats):
     if feats is None:
         return X
+    elif issparse(X):
+        rows = [{n: a[i] for n, i in enumerate(feats) if i in a} for a in X]
+        return sparse_list(rows, size=len(feats), dtype=X.dtype)
     else:
         return [[a[i] for i in feats] for a in X]
 
-- 
2.43.0


From b9dd09312762d008d86b0b34bbede9fd8e4dbbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 19/44] fix: max-norm scaling divides by the signed maximum,
 flipping negative rows

---
 pure_sklearn/preprocessing/_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 4eb49e0..28e1dfd 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -57,7 +57,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = [max(list(x.values()) + [0]) for x in X]
+            norms = [max(list(map(abs, x.values())) + [0]) for x in X]
         norms = _handle_zeros_in_scale(norms, copy=False)
         X_sparse = [
             {k: (v / float(norms[index])) for k, v in X[index].items()}
@@ -70,7 +70,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = apply_axis_2d(X, max, axis=1)
+            norms = apply_axis_2d(apply_2d(X, abs), max, axis=1)
         norms = _handle_zeros_in_scale(norms, copy=False)
         X = [
             list(map(lambda a: a / float(norms[index]), X[index]))
-- 
2.43.0


From 9ca74c0490170c572cbeb4b741e2c91a147daf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 20/44] fix: slice_column keeps the old column numbers and
 width for sparse input

---
 pure_sklearn/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index 552bd88..17e7856 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -161,8 +161,8 @@ def slice_column(A, idx):
             return [a[idx] for a in A]
     if isinstance(idx, (list, tuple)):
         if issparse(A):
-            A_ = [{k: v for k, v in a.items() if k in idx} for a in A]
-            return sparse_list(A_, size=A.size, dtype=A.dtype)
+            A_ = [{n: a[i] for n, i in enumerate(idx) if i in a} for a in A]
+            return sparse_list(A_, size=len(idx), dtype=A.dtype)
         else:
             return [[a[i] for i in idx] for a in A]
 
-- 
2.43.0


From 0e3daa95f76d795b594c041e1882798d4112ecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 21/44] fix: bagging mixes up classes when a member was fitted
 without some class

---
 pure_sklearn/ensemble/_bagging.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index cf66eea..b40dd2b 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -36,11 +36,9 @@ class _BaseBaggingPure:
         check_types(self)
 
     def predict_proba(self, X):
-        proba = self.estimators_[0].predict_proba(_feat_slice(X, self._get_feats(0)))
+        proba = self._member_proba(X, 0)
         for idx in range(len(self.estimators_))[1:]:
-            proba_idx = self.estimators_[idx].predict_proba(
-                _feat_slice(X, self._get_feats(idx))
-            )
+            proba_idx = self._member_proba(X, idx)
             proba = operate_2d(proba, proba_idx, add)
         func = lambda x: x / float(len(self.estimators_))
         return apply_2d(proba, func)
@@ -53,6 +51,18 @@ class _BaseBaggingPure:
         argmax = [a.index(max(a)) for a in proba]
         return [self.classes_[x] for x in argmax]
 
+    def _member_proba(self, X, idx):
+        """ Probabilities of one member, with 0 for classes it was not fitted on """
+        est = self.estimators_[idx]
+        proba = est.predict_proba(_feat_slice(X, self._get_feats(idx)))
+        if len(est.classes_) == len(self.classes_):
+            return proba
+        column = {label: i for i, label in enumerate(est.classes_)}
+        return [
+            [a[column[k]] if k in column else 0.0 for k in range(len(self.classes_))]
+            for a in proba
+        ]
+
     def _get_feats(self, idx):
         if hasattr(self, "estimators_features_"):
             return self.estimators_features_[idx]
-- 
2.43.0


From c7972b8cfd6686ebbedcb18e430489cd7aaa8733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 22/44] fix: numpy scalars and types slip into converted models

---
 pure_sklearn/ensemble/_gb.py | 2 +-
 pure_sklearn/utils.py        | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index d797b04..502d6b0 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -36,7 +36,7 @@ class GradientBoostingClassifierPure:
         if hasattr(estimator, "init_"):
             self.init_ = convert_estimator(estimator.init_)
         self.loss = estimator.loss
-        self.learning_rate = estimator.learning_rate
+        self.learning_rate = float(estimator.learning_rate)
         self.n_features_ = estimator.n_features_
         if self.loss == "deviance":
             self.loss_ = (
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 433e195..d22beed 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -30,7 +30,11 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
                 check_types(k)
                 check_types(v)
     elif isinstance(obj, types):
-        pass
+        # subclasses from other packages (e.g. numpy scalars) do not unpickle
+        # without those packages
+        type_ = obj if isinstance(obj, type) else type(obj)
+        if type_.__module__ != "builtins":
+            raise ValueError("Object contains invalid type: {}".format(type_))
     elif "pure_sklearn" in str(type(obj)):
         for attr in vars(obj):
             check_types(getattr(obj, attr))
-- 
2.43.0


From 0d81b02bbae3c79ac5f1cf8e39a3c4fdb2df4bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 23/44] fix: xgboost feature numbers above 9 are cut to their
 last digit

---
 pure_sklearn/tree/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index e389c50..8045403 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -34,7 +34,7 @@ class _DecisionTreeBase:
             )
             self.feature_ = list(
                 map(
-                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")[-1]),
+                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")),
                     estimator["Feature"],
                 )
             )
-- 
2.43.0


From 81f551518f820df392f86cb643981784001d2eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 24/44] fix: xgboost trees with gaps in their node numbers are
 walked wrongly

---
 pure_sklearn/tree/_classes.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 8045403..bb911fd 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -15,20 +15,26 @@ class _DecisionTreeBase:
 
     def __init__(self, estimator):
         if isinstance(estimator, dict):
-            # sourced from xgboost booster object tree dictionary
+            # sourced from xgboost booster object tree dictionary; pruned or
+            # leaf-wise grown trees skip node numbers, so map them to positions
+            position = {node: i for i, node in enumerate(estimator["Node"])}
             self.threshold_ = list(
                 map(lambda x: -2 if isnan(x) else x, estimator["Split"])
             )
             self.value_ = [[a] for a in estimator["Gain"]]
             self.children_left_ = list(
                 map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
+                    lambda x: -1
+                    if not isinstance(x, str)
+                    else position[int(x.split("-")[-1])],
                     estimator["Yes"],
                 )
             )
             self.children_right_ = list(
                 map(
-                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
+                    lambda x: -1
+                    if not isinstance(x, str)
+                    else position[int(x.split("-")[-1])],
                     estimator["No"],
                 )
             )
-- 
2.43.0


From 6be58526c867b3d156d5b8ad55e74b1d33e37e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 25/44] fix: xgboost rows equal to a split threshold take the
 wrong branch

---
 pure_sklearn/tree/_classes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index bb911fd..5e9497d 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -13,6 +13,9 @@ from ..utils import check_array, check_types, check_version
 class _DecisionTreeBase:
     """ Decision tree base class """
 
+    # xgboost sends a value equal to the threshold to the right, sklearn to the left
+    strict_ = False
+
     def __init__(self, estimator):
         if isinstance(estimator, dict):
             # sourced from xgboost booster object tree dictionary; pruned or
@@ -21,6 +24,7 @@ class _DecisionTreeBase:
             self.threshold_ = list(
                 map(lambda x: -2 if isnan(x) else x, estimator["Split"])
             )
+            self.strict_ = True
             self.value_ = [[a] for a in estimator["Gain"]]
             self.children_left_ = list(
                 map(
@@ -71,7 +75,8 @@ class _DecisionTreeBase:
             if self.children_left_[node_id] == self.children_right_[node_id]:
                 found_node = True
             else:
-                if left_equal(node_id) <= self.threshold_[node_id]:
+                value, threshold = left_equal(node_id), self.threshold_[node_id]
+                if value < threshold or (value == threshold and not self.strict_):
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
-- 
2.43.0


From 58268e33af863be8493a29b39ae78a10d31db0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 26/44] fix: xgboost compares features in single precision, the
 converted model did not

---
 pure_sklearn/xgboost/_classes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 3ed4c32..847dbd7 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -3,6 +3,7 @@ Estimator classes for xgboost
 """
 
 from math import exp
+from struct import pack, unpack
 
 from ..base import sfmax, expit
 from ..utils import check_types, check_array
@@ -13,6 +14,14 @@ SUPPORTED_OBJ = ["binary:logistic", "multi:softprob"]
 SUPPORTED_BOOSTER = ["gbtree"]
 
 
+def _float32(x):
+    """ Rounds to single precision, in which xgboost stores and compares features """
+    try:
+        return unpack("f", pack("f", x))[0]
+    except OverflowError:
+        return float("Inf") if x > 0 else -float("Inf")
+
+
 class XGBClassifierPure:
     """
     Pure python implementation of `XGBClassifier`. Only supports 'gbtree'
@@ -90,7 +99,7 @@ class XGBClassifierPure:
         return [self.classes_[a.index(max(a))] for a in proba]
 
     def predict_proba(self, X):
-        X = check_array(X)
+        X = [list(map(_float32, x)) for x in check_array(X)]
         if self.objective == "multi:softprob":
             preds = self._predict(X)
             out = []
-- 
2.43.0


From 0d6cb8ec36d8bfea5aba588c57cbf4a03525775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 27/44] fix: xgboost rows with missing values ignore the
 learned default direction

---
 pure_sklearn/tree/_classes.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 5e9497d..a12c36c 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -15,6 +15,8 @@ class _DecisionTreeBase:
 
     # xgboost sends a value equal to the threshold to the right, sklearn to the left
     strict_ = False
+    # where xgboost sends missing values
+    children_missing_ = None
 
     def __init__(self, estimator):
         if isinstance(estimator, dict):
@@ -42,6 +44,14 @@ class _DecisionTreeBase:
                     estimator["No"],
                 )
             )
+            self.children_missing_ = list(
+                map(
+                    lambda x: -1
+                    if not isinstance(x, str)
+                    else position[int(x.split("-")[-1])],
+                    estimator["Missing"],
+                )
+            )
             self.feature_ = list(
                 map(
                     lambda x: -2 if x == "Leaf" else int(x.replace("f", "")),
@@ -76,7 +86,9 @@ class _DecisionTreeBase:
                 found_node = True
             else:
                 value, threshold = left_equal(node_id), self.threshold_[node_id]
-                if value < threshold or (value == threshold and not self.strict_):
+                if self.children_missing_ is not None and isnan(value):
+                    node_id = self.children_missing_[node_id]
+                elif value < threshold or (value == threshold and not self.strict_):
                     node_id = self.children_left_[node_id]
                 else:
                     node_id = self.children_right_[node_id]
-- 
2.43.0


From 6e0d7fc97bf52f02b37b9e8b3a59b402e1078ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 28/44] fix: xgboost models fitted with named features are not
 mapped to their columns

---
 pure_sklearn/xgboost/_classes.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 847dbd7..3ce4a48 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -60,22 +60,33 @@ class XGBClassifierPure:
                 "which is not supported".format(MIN_VERSION)
             )
         tree_df = estimator.get_booster().trees_to_dataframe()
+        names = estimator.get_booster().feature_names
         estimators_ = []
         idx = 0
         for est_id in range(self.n_estimators):
             if self.n_classes_ == 2:
-                tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
+                tree = self._get_tree(tree_df, idx, names)
                 est_row_ = DecisionTreeRegressorPure(tree)
                 idx += 1
             else:
                 est_row_ = []
                 for cls_id in range(self.n_classes_):
-                    tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
+                    tree = self._get_tree(tree_df, idx, names)
                     est_row_.append(DecisionTreeRegressorPure(tree))
                     idx += 1
             estimators_.append(est_row_)
         return estimators_
 
+    def _get_tree(self, tree_df, idx, names):
+        """ Columns of one tree, with its features numbered as in the training data """
+        tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
+        if names is not None:
+            tree["Feature"] = [
+                a if a == "Leaf" else "f{}".format(names.index(a))
+                for a in tree["Feature"]
+            ]
+        return tree
+
     def _predict(self, X):
         """ Raw sums of estimator predictions for each class for multi-class """
         preds = []
-- 
2.43.0


From 6e5b34b7ca6fffd9a085def9b68ce40670f3e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 29/44] fix: xgboost base_score is left out of binary
 predictions

---
 pure_sklearn/xgboost/_classes.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 3ce4a48..fc58bf0 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -2,7 +2,9 @@
 Estimator classes for xgboost
 """
 
-from math import exp
+import json
+
+from math import exp, log
 from struct import pack, unpack
 
 from ..base import sfmax, expit
@@ -49,6 +51,7 @@ class XGBClassifierPure:
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_estimators = estimator.n_estimators
+        self.base_margin_ = self._get_base_margin(estimator)
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
@@ -77,6 +80,16 @@ class XGBClassifierPure:
             estimators_.append(est_row_)
         return estimators_
 
+    def _get_base_margin(self, estimator):
+        """ Log odds of the global bias, which is not part of any tree """
+        booster = estimator.get_booster()
+        if hasattr(booster, "save_config"):
+            config = json.loads(booster.save_config())
+            base_score = float(config["learner"]["learner_model_param"]["base_score"])
+        else:
+            base_score = estimator.base_score
+        return -log(1.0 / base_score - 1.0)
+
     def _get_tree(self, tree_df, idx, names):
         """ Columns of one tree, with its features numbered as in the training data """
         tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
@@ -100,7 +113,7 @@ class XGBClassifierPure:
 
     def _predict_binary(self, X):
         """ Raw sums of estimator predictions for each class for binary """
-        preds = [0] * len(X)
+        preds = [self.base_margin_] * len(X)
         for estimator in self.estimators_:
             preds = list(map(lambda x, y: x + y, preds, estimator.predict(X)))
         return preds
-- 
2.43.0


From 377c201e868e74e351275d3f998b60f677dd4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 30/44] fix: xgboost models with early stopping use the wrong
 number of trees

---
 pure_sklearn/xgboost/_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index fc58bf0..c5ee2ca 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -50,7 +50,9 @@ class XGBClassifierPure:
             self.booster = estimator.booster
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
-        self.n_estimators = estimator.n_estimators
+        # early stopping keeps trees beyond the best iteration, but does not use them
+        best = getattr(estimator.get_booster(), "best_iteration", None)
+        self.n_estimators = estimator.n_estimators if best is None else best + 1
         self.base_margin_ = self._get_base_margin(estimator)
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
-- 
2.43.0


From 8ad0b685d8756a7cb52a503b20e2145065814b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 31/44] fix: boosted random forests are converted to wrong
 models

---
 pure_sklearn/xgboost/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index c5ee2ca..17c9e3c 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -48,6 +48,8 @@ class XGBClassifierPure:
             raise ValueError("Booster: '{}' not supported".format(estimator.booster))
         else:
             self.booster = estimator.booster
+        if getattr(estimator, "num_parallel_tree", None) not in (None, 1):
+            raise ValueError("Boosted random forests are not supported")
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         # early stopping keeps trees beyond the best iteration, but does not use them
-- 
2.43.0


From 1992e77f29d6395637eac32620472a34621a58c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 32/44] fix: xgboost thresholds are not the single precision
 numbers they were dumped from

---
 pure_sklearn/xgboost/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 17c9e3c..9e9b17c 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -97,6 +97,8 @@ class XGBClassifierPure:
     def _get_tree(self, tree_df, idx, names):
         """ Columns of one tree, with its features numbered as in the training data """
         tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
+        # the text dump gives the decimal digits of single precision thresholds
+        tree["Split"] = list(map(_float32, tree["Split"]))
         if names is not None:
             tree["Feature"] = [
                 a if a == "Leaf" else "f{}".format(names.index(a))
-- 
2.43.0


From bdfcc324c9c0ccf6b2bd1e9c15447b9e5609eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 33/44] fix: FastText.predict crashes on a list of texts

---
 pure_fasttext/FastText.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index fe2dcb4..86fb08a 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -153,9 +153,6 @@ class _FastText(object):
             text = [entry for entry in text]
             all_labels = []
             all_probs = []
-            all_labels, all_probs = self.f.multilinePredict(
-                text, k, threshold, on_unicode_error
-            )
             for text_ in text:
                 labels, probs = self._predict(text_, k, threshold)
                 all_labels.append(labels)
-- 
2.43.0


From 35b88013e8fbf1bf7e51e9ea32641622327de8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 34/44] fix: sentences without known words have an empty vector
 instead of zeros

---
 pure_fasttext/FastText.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 86fb08a..118f1f9 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -45,9 +45,11 @@ def argsort(seq):
     return sorted(range(len(seq)), key=seq.__getitem__)
 
 
-def average(l):
-    """ Computes average of 2-D list """
+def average(l, dim):
+    """ Computes average of 2-D list with rows of length 'dim' """
     llen = len(l)
+    if llen == 0:
+        return [0.0] * dim
 
     def divide(x):
         return x / float(llen)
@@ -104,14 +106,14 @@ class _FastText(object):
                 for word in (text.split() + [EOS])
                 if word in self.words_
             ]
-            return average(raw_words)
+            return average(raw_words, self.dim_)
         else:
             raw_words = [
                 self.get_word_vector(word)
                 for word in text.split()
                 if word in self.words_
             ]
-            return average(list(map(div_norm, raw_words)))
+            return average(list(map(div_norm, raw_words)), self.dim_)
 
     def get_word_id(self, word):
         """
-- 
2.43.0


From 05925a02bedaf05fb0e2baa6b50ceb2e946ebee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 35/44] fix: FastText splits words on characters that fasttext
 keeps in words

---
 pure_fasttext/FastText.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 118f1f9..c82064c 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -2,10 +2,13 @@
 Base class for fasttext API implemented in pure python
 """
 
+import re
+
 from math import exp, sqrt
 from operator import mul
 
 EOS = "</s>"
+SPACES = "[ \n\t\v\r\f\0]+"
 
 
 def l2_norm(arr):
@@ -103,14 +106,14 @@ class _FastText(object):
         if self.supervised_:
             raw_words = [
                 self.get_word_vector(word)
-                for word in (text.split() + [EOS])
+                for word in (re.split(SPACES, text) + [EOS])
                 if word in self.words_
             ]
             return average(raw_words, self.dim_)
         else:
             raw_words = [
                 self.get_word_vector(word)
-                for word in text.split()
+                for word in re.split(SPACES, text)
                 if word in self.words_
             ]
             return average(list(map(div_norm, raw_words)), self.dim_)
-- 
2.43.0


From 4cc9c4518343fd8b9c3a87f3c2da0fad04b91ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 36/44] fix: FastText.predict with k=-1 drops the least likely
 label

---
 pure_fasttext/FastText.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index c82064c..0e81e48 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -136,6 +136,8 @@ class _FastText(object):
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
+        if k == -1:
+            k = len(self.labels_)
         A = self.get_sentence_vector(text)
         if self.loss_ == "softmax":
             preds = sfmax(dot(A, self.output_matrix_))
-- 
2.43.0


From c93bfb79af6725f00c69d96929266a141d59caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 37/44] fix: supervised fasttext models with subwords or word
 n-grams are silently mispredicted

---
 pure_fasttext/FastText.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 0e81e48..5bef0da 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -74,6 +74,10 @@ class _FastText(object):
             )
         if self.supervised_ and (model.loss.name not in ("softmax")):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
+        if self.supervised_ and (model.maxn != 0 or model.wordNgrams > 1):
+            raise ValueError(
+                "Only maxn=0 and wordNgrams=1 are supported for supervised mode."
+            )
         self.words_ = model.get_words()
         self.input_matrix_ = model.get_input_matrix().tolist()
         self.dim_ = model.get_dimension()
-- 
2.43.0


From bf926b29c9f7fd598b206f50c6877eac0f01ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 38/44] fix: unsupervised fastText models do not split words at
 null characters

---
 pure_fasttext/FastText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 5bef0da..384632a 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -117,7 +117,7 @@ class _FastText(object):
         else:
             raw_words = [
                 self.get_word_vector(word)
-                for word in re.split(SPACES, text)
+                for word in re.split("[ \n\t\v\r\f]+", text)
                 if word in self.words_
             ]
             return average(list(map(div_norm, raw_words)), self.dim_)
-- 
2.43.0


From 6e93887a578ee9ee8be7e9e47478e135e921d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 39/44] fix: supervised fastText models end a line at an EOS
 token in the text

---
 pure_fasttext/FastText.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 384632a..22f0a9e 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -108,9 +108,10 @@ class _FastText(object):
         text += "\n"
 
         if self.supervised_:
+            words = re.split(SPACES, text) + [EOS]
             raw_words = [
                 self.get_word_vector(word)
-                for word in (re.split(SPACES, text) + [EOS])
+                for word in words[: words.index(EOS) + 1]
                 if word in self.words_
             ]
             return average(raw_words, self.dim_)
-- 
2.43.0


From c8ee03f2fc3b6a14225595303840af30772d32a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 40/44] fix: words with an all-zero vector do not count in
 fastText sentence averages

---
 pure_fasttext/FastText.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 22f0a9e..530fc07 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -121,6 +121,7 @@ class _FastText(object):
                 for word in re.split("[ \n\t\v\r\f]+", text)
                 if word in self.words_
             ]
+            raw_words = [vec for vec in raw_words if l2_norm(vec) > 0]
             return average(list(map(div_norm, raw_words)), self.dim_)
 
     def get_word_id(self, word):
-- 
2.43.0


From 4cbc6f6386e4386dadd713e1f80ffdf5e330418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 41/44] fix: fastText predict refuses k=0 and k<-1 as the
 original does

---
 pure_fasttext/FastText.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 530fc07..a69c2bd 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -144,6 +144,8 @@ class _FastText(object):
         """ Guts of prediction method """
         if k == -1:
             k = len(self.labels_)
+        elif k <= 0:
+            raise ValueError("k needs to be 1 or higher!")
         A = self.get_sentence_vector(text)
         if self.loss_ == "softmax":
             preds = sfmax(dot(A, self.output_matrix_))
-- 
2.43.0


From 99a537f2c4d5807d8370739a9410f4d07df4e0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:43 +0000
Subject: [PATCH 42/44] fix: bagging members without probabilities vote with
 their class

---
 pure_sklearn/ensemble/_bagging.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index b40dd2b..70ec9ad 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -33,6 +33,8 @@ class _BaseBaggingPure:
         for est in estimator.estimators_:
             est_ = convert_estimator(est)
             self.estimators_.append(est_)
+        # members without probabilities vote with the class they predict
+        self.votes_ = [not hasattr(e, "predict_proba") for e in estimator.estimators_]
         check_types(self)
 
     def predict_proba(self, X):
@@ -54,7 +56,13 @@ class _BaseBaggingPure:
     def _member_proba(self, X, idx):
         """ Probabilities of one member, with 0 for classes it was not fitted on """
         est = self.estimators_[idx]
-        proba = est.predict_proba(_feat_slice(X, self._get_feats(idx)))
+        X = _feat_slice(X, self._get_feats(idx))
+        if self.votes_[idx]:
+            return [
+                [float(label == k) for k in range(len(self.classes_))]
+                for label in est.predict(X)
+            ]
+        proba = est.predict_proba(X)
         if len(est.classes_) == len(self.classes_):
             return proba
         column = {label: i for i, label in enumerate(est.classes_)}
-- 
2.43.0


From c1ef424e8762531e7c1b3605cbeedd60525a41d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 43/44] fix: bagging classifiers refuse input that is not a
 list

---
 pure_sklearn/ensemble/_bagging.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 70ec9ad..11137ac 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -6,7 +6,14 @@ from operator import add
 
 from ..map import MAPPING, convert_estimator
 from ..base import safe_log, operate_2d, apply_2d
-from ..utils import shape, check_types, check_version, issparse, sparse_list
+from ..utils import (
+    shape,
+    check_array,
+    check_types,
+    check_version,
+    issparse,
+    sparse_list,
+)
 
 
 def _feat_slice(X, feats):
@@ -38,6 +45,7 @@ class _BaseBaggingPure:
         check_types(self)
 
     def predict_proba(self, X):
+        X = check_array(X, handle_sparse="allow")
         proba = self._member_proba(X, 0)
         for idx in range(len(self.estimators_))[1:]:
             proba_idx = self._member_proba(X, idx)
-- 
2.43.0


From a720a099658d33c0de8d27a0844719e65bfaa6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:42 +0000
Subject: [PATCH 44/44] fix: checking the stop words leaves the vectorizer as
 it was

---
 pure_sklearn/feature_extraction/text.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 58c4168..7f6dbb2 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -246,10 +246,6 @@ class _VectorizerMixinPure:
 
     def _check_stop_words_consistency(self, stop_words, preprocess, tokenize):
         """ Check if stop words are consistent """
-        if id(self.stop_words) == getattr(self, "_stop_words_id", None):
-            # Stop words are were previously validated
-            return None
-
         # NB: stop_words is validated, unlike self.stop_words
         try:
             inconsistent = set()
@@ -258,8 +254,6 @@ class _VectorizerMixinPure:
                 for token in tokens:
                     if token not in stop_words:
                         inconsistent.add(token)
-            self._stop_words_id = id(self.stop_words)
-
             if inconsistent:
                 warnings.warn(
                     "Your stop_words may be inconsistent with "
@@ -271,7 +265,6 @@ class _VectorizerMixinPure:
         except Exception:
             # Failed to check stop words consistency (e.g. because a custom
             # preprocessor or tokenizer was used)
-            self._stop_words_id = id(self.stop_words)
             return "error"
 
     def build_analyzer(self):
-- 
2.43.0

