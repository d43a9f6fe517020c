From e290f498983f294aa64dce4246dfe6711f5b1e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 01/42] fix: compare versions without distutils, which the
 standard library no longer has

---
 pure_sklearn/utils.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 2787413..b89c222 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -5,8 +5,8 @@ Utility functions
 import pickle
 import time
 
+from re import match
 from warnings import warn
-from distutils.version import LooseVersion
 
 CONTAINERS = (list, dict, tuple)
 TYPES = (int, float, str, bool, type)
@@ -40,6 +40,21 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
         raise ValueError("Object contains invalid type: {}".format(type(obj)))
 
 
+def _version_tuple(version):
+    """ Numeric release components of a version string """
+    parts = []
+    for part in version.split("."):
+        number = match("[0-9]+", part)
+        if number is None:
+            break
+        parts.append(int(number.group()))
+        if number.group() != part:
+            break
+    while parts and parts[-1] == 0:
+        parts.pop()
+    return tuple(parts)
+
+
 def check_version(estimator, min_version=None):
     """ Checks the version of the scikit-learn estimator """
     warning_str = (
@@ -53,14 +68,14 @@ def check_version(estimator, min_version=None):
         warn(warning_str)
         return
     if (min_version is not None) and (
-        LooseVersion(version_) < LooseVersion(min_version)
+        _version_tuple(version_) < _version_tuple(min_version)
     ):
         raise Exception(
             "The sklearn version is too low for this estimator; must be >= {}".format(
                 min_version
             )
         )
-    elif LooseVersion(version_) < LooseVersion(MIN_VERSION):
+    elif _version_tuple(version_) < _version_tuple(MIN_VERSION):
         warn(warning_str)
 
 
-- 
2.43.0


From 9c6073500011481943e2c0d2b2d0b21e46e28d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 02/42] fix: honour min_version in convert_estimator

---
 pure_sklearn/map.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_sklearn/map.py b/pure_sklearn/map.py
index bbcab5c..63b3cb1 100644
--- a/pure_sklearn/map.py
+++ b/pure_sklearn/map.py
@@ -2,6 +2,8 @@
 Mappings from `sklearn` class names to `pure_sklearn` equivalents
 """
 
+from .utils import check_version
+
 MAPPING = {
     "LogisticRegression": "pure_sklearn.linear_model.LogisticRegressionPure",
     "RidgeClassifier": "pure_sklearn.linear_model.RidgeClassifierPure",
@@ -47,6 +49,8 @@ def _instantiate_class(module, name):
 
 def convert_estimator(est, min_version=None):
     """ Convert scikit-learn estimator to its pure_sklearn counterpart """
+    if min_version is not None:
+        check_version(est, min_version)
     est_name = est.__class__.__name__
     pure_est_name = MAPPING.get(est_name)
     if pure_est_name is None:
-- 
2.43.0


From aa400e88115e2250e7e7384ea878cefc601c98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 03/42] fix: raise on empty input instead of returning the
 exception

---
 pure_sklearn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index b89c222..603bea9 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -109,7 +109,7 @@ def check_array(X, handle_sparse="error"):
     if not isinstance(X, list):
         raise TypeError("Input 'X' must be a list")
     if len(X) == 0:
-        return ValueError("Input 'X' must not be empty")
+        raise ValueError("Input 'X' must not be empty")
     return X
 
 
-- 
2.43.0


From 3a6f8af5875595629214ae8c69098a1416a9ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 04/42] fix: reject array-library scalars and types hidden by
 subclassing in check_types

---
 pure_sklearn/ensemble/_gb.py | 2 +-
 pure_sklearn/utils.py        | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index ef90d56..229f2d9 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -36,7 +36,7 @@ class GradientBoostingClassifierPure:
         if hasattr(estimator, "init_"):
             self.init_ = convert_estimator(estimator.init_)
         self.loss = estimator.loss
-        self.learning_rate = estimator.learning_rate
+        self.learning_rate = float(estimator.learning_rate)
         self.n_features_ = estimator.n_features_
         if self.loss == "deviance":
             self.loss_ = (
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 603bea9..3d5d31b 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -21,7 +21,7 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
     types are valid. If object is a `pure_sklearn` type, its
     attributes are all recursively checked.
     """
-    if isinstance(obj, containers):
+    if type(obj) in containers:
         if isinstance(obj, (list, tuple)):
             for ob in obj:
                 check_types(ob)
@@ -29,9 +29,9 @@ def check_types(obj, containers=CONTAINERS, types=TYPES):
             for k, v in obj.items():
                 check_types(k)
                 check_types(v)
-    elif isinstance(obj, types):
+    elif type(obj) in types and getattr(obj, "__module__", "builtins") == "builtins":
         pass
-    elif "pure_sklearn" in str(type(obj)):
+    elif type(obj).__module__.split(".")[0] == "pure_sklearn":
         for attr in vars(obj):
             check_types(getattr(obj, attr))
     elif obj is None:
-- 
2.43.0


From 63cf06d9beb53cbc587e295d0ff72392e262ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 05/42] fix: converted models no longer share containers with
 the source estimator

---
 pure_sklearn/feature_extraction/_dict_vectorizer.py | 4 ++--
 pure_sklearn/feature_extraction/text.py             | 9 +++++----
 pure_sklearn/preprocessing/_data.py                 | 2 +-
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pure_sklearn/feature_extraction/_dict_vectorizer.py b/pure_sklearn/feature_extraction/_dict_vectorizer.py
index cee2858..638f897 100755
--- a/pure_sklearn/feature_extraction/_dict_vectorizer.py
+++ b/pure_sklearn/feature_extraction/_dict_vectorizer.py
@@ -17,8 +17,8 @@ class DictVectorizerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.vocabulary_ = estimator.vocabulary_
-        self.feature_names_ = estimator.feature_names_
+        self.vocabulary_ = dict(estimator.vocabulary_)
+        self.feature_names_ = list(estimator.feature_names_)
         self.sparse = estimator.sparse
         self.dtype = convert_type(estimator.dtype)
         self.separator = estimator.separator
diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index e3164cf..cddfc55 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -6,6 +6,7 @@ build feature vectors from text documents.
 import re
 import unicodedata
 
+from copy import copy
 from functools import partial
 from collections import defaultdict
 from math import isnan
@@ -338,9 +339,9 @@ class CountVectorizerPure(_VectorizerMixinPure):
         self.analyzer = estimator.analyzer
         self.preprocessor = estimator.preprocessor
         self.tokenizer = estimator.tokenizer
-        self.stop_words = estimator.stop_words
+        self.stop_words = copy(estimator.stop_words)
         self.token_pattern = estimator.token_pattern
-        self.ngram_range = estimator.ngram_range
+        self.ngram_range = tuple(estimator.ngram_range)
         self.strip_accents = estimator.strip_accents
         self.decode_error = estimator.decode_error
         self.encoding = estimator.encoding
@@ -459,9 +460,9 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         self.analyzer = estimator.analyzer
         self.preprocessor = estimator.preprocessor
         self.tokenizer = estimator.tokenizer
-        self.stop_words = estimator.stop_words
+        self.stop_words = copy(estimator.stop_words)
         self.token_pattern = estimator.token_pattern
-        self.ngram_range = estimator.ngram_range
+        self.ngram_range = tuple(estimator.ngram_range)
         self.strip_accents = estimator.strip_accents
         self.decode_error = estimator.decode_error
         self.encoding = estimator.encoding
diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 4eb49e0..367157a 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -162,7 +162,7 @@ class MinMaxScalerPure:
 
     def __init__(self, estimator):
         check_version(estimator)
-        self.feature_range = estimator.feature_range
+        self.feature_range = tuple(estimator.feature_range)
         if estimator.scale_ is None:
             self.scale_ = None
         else:
-- 
2.43.0


From dd6080d07a7d99ca11bd93d0c9ab1bf1df895e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 06/42] fix: store a scalar intercept as a built-in float

---
 pure_sklearn/linear_model/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/linear_model/_base.py b/pure_sklearn/linear_model/_base.py
index da2db9a..ae80fee 100644
--- a/pure_sklearn/linear_model/_base.py
+++ b/pure_sklearn/linear_model/_base.py
@@ -16,7 +16,7 @@ class LinearClassifierMixinPure:
         self.classes_ = estimator.classes_.tolist()
         if hasattr(estimator, "intercept_"):
             if isinstance(estimator.intercept_, float):
-                self.intercept_ = [estimator.intercept_] * len(self.classes_)
+                self.intercept_ = [float(estimator.intercept_)] * len(self.classes_)
             else:
                 self.intercept_ = estimator.intercept_.tolist()
         if hasattr(estimator, "multi_class"):
-- 
2.43.0


From 77d8e4d24907d5e749547cecd5507ae52701712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 07/42] fix: tf-idf transformer keeps its input intact and
 supports sublinear_tf, use_idf=False and dense rows

---
 pure_sklearn/feature_extraction/text.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index cddfc55..bc7641a 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -19,7 +19,10 @@ from ..utils import (
     check_array,
     check_types,
     check_version,
+    issparse,
+    tosparse,
 )
+from ..base import apply_2d_sparse, safe_log
 from ..map import convert_estimator
 from ..preprocessing import normalize_pure
 from ._hash import _FeatureHasherPure
@@ -415,28 +418,32 @@ class TfidfTransformerPure:
         self.use_idf = estimator.use_idf
         self.smooth_idf = estimator.smooth_idf
         self.sublinear_tf = estimator.sublinear_tf
-        self.idf_ = estimator.idf_.tolist()
-        self.expected_n_features_ = estimator._idf_diag.shape[0]
+        if self.use_idf:
+            self.idf_ = estimator.idf_.tolist()
+            self.expected_n_features_ = estimator._idf_diag.shape[0]
         check_types(self)
 
     def transform(self, X, copy=True):
         X = check_array(X, handle_sparse="allow")
+        if not issparse(X):
+            X = tosparse(X)
         n_samples, n_features = shape(X)
 
         if self.sublinear_tf:
-            for index in range(len(X)):
-                X[index] = safe_log(X[index]) + 1
+            X = apply_2d_sparse(X, lambda v: safe_log(v) + 1)
 
         if self.use_idf:
             if n_features != self.expected_n_features_:
                 raise ValueError(
                     "Input has n_features=%d while the model"
                     " has been trained with n_features=%d"
-                    % (n_features, expected_n_features)
+                    % (n_features, self.expected_n_features_)
                 )
-            for index in range(len(X)):
-                for k, v in X[index].items():
-                    X[index][k] = v * self.idf_[k]
+            X = sparse_list(
+                [{k: v * self.idf_[k] for k, v in x.items()} for x in X],
+                size=n_features,
+                dtype=X.dtype,
+            )
 
         if self.norm:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From 8f24649ffe8ce97f3e4caa8fb71bf8463c7f13f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 08/42] fix: dummy classifier returns class labels and fresh
 probability rows

---
 pure_sklearn/dummy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/dummy.py b/pure_sklearn/dummy.py
index 3697848..6e6dba5 100644
--- a/pure_sklearn/dummy.py
+++ b/pure_sklearn/dummy.py
@@ -25,16 +25,18 @@ class DummyClassifierPure:
             self._strategy = estimator.strategy
         if self._strategy != "prior":
             raise ValueError("Strategy '{}' not supported".format(self._strategy))
+        self.classes_ = estimator.classes_.tolist()
         self.class_prior_ = estimator.class_prior_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_outputs_ = estimator.n_outputs_
         check_types(self)
 
     def predict(self, X):
-        return [self.class_prior_.index(max(self.class_prior_))] * len(X)
+        index = self.class_prior_.index(max(self.class_prior_))
+        return [self.classes_[index]] * len(X)
 
     def predict_proba(self, X):
-        return [self.class_prior_] * len(X)
+        return [list(self.class_prior_) for _ in range(len(X))]
 
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
-- 
2.43.0


From 467f70b56fc711deb0512c2ae3c307839de113bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 09/42] fix: fastText vectors are copies of the input matrix
 rows

---
 pure_fasttext/FastText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index fe2dcb4..ee844d1 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -127,7 +127,7 @@ class _FastText(object):
         """
         Given an index, get the corresponding vector of the Input Matrix.
         """
-        return self.input_matrix_[ind]
+        return list(self.input_matrix_[ind])
 
     def _predict(self, text, k=1, threshold=0.0):
         """ Guts of prediction method """
-- 
2.43.0


From efca2646eb25f50a9591b547c51155efbe3fe6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 10/42] fix: shift scores before exponentiating so that
 probabilities never overflow

---
 pure_sklearn/base.py                | 14 ++++++++++++--
 pure_sklearn/ensemble/_gb_losses.py |  8 +++-----
 pure_sklearn/naive_bayes.py         |  4 ++--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/pure_sklearn/base.py b/pure_sklearn/base.py
index ee53d0a..d6360bc 100644
--- a/pure_sklearn/base.py
+++ b/pure_sklearn/base.py
@@ -74,15 +74,25 @@ def expit(x):
 def sfmax(arr):
     """ Softmax function for 1-D list or a single sparse_list element """
     if isinstance(arr, dict):
-        expons = {k: safe_exp(v) for k, v in arr.items()}
+        top = max(arr.values(), default=0.0)
+        expons = {k: safe_exp(v - top) for k, v in arr.items()}
         denom = sum(expons.values())
         out = {k: (v / float(denom)) for k, v in expons.items()}
     else:
-        expons = list(map(safe_exp, arr))
+        top = max(arr)
+        expons = [safe_exp(x - top) for x in arr]
         out = list(map(lambda x: x / float(sum(expons)), expons))
     return out
 
 
+def logsumexp(arr):
+    """ Log of the sum of exponentials of a 1-D list, without overflow """
+    top = max(arr)
+    if top == -float("Inf"):
+        return top
+    return top + safe_log(sum([safe_exp(x - top) for x in arr]))
+
+
 def safe_log(x):
     """ Equivalent to numpy log with scalar input """
     if x == 0:
diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index 38501ca..e0e4d69 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -2,7 +2,7 @@
 Gradient boosting loss classes
 """
 
-from ..base import transpose, apply_axis_2d, apply_2d, safe_exp, safe_log, ravel, expit
+from ..base import transpose, apply_2d, safe_exp, safe_log, logsumexp, ravel, expit
 from ..utils import check_types, shape
 
 EPS = 1.1920929e-07
@@ -31,12 +31,10 @@ class _MultinomialDeviancePure:
         check_types(self)
 
     def _raw_prediction_to_proba(self, raw_predictions):
-        logsumexp = list(
-            map(safe_log, apply_axis_2d(apply_2d(raw_predictions, safe_exp), sum))
-        )
+        log_norm = list(map(logsumexp, raw_predictions))
         return [
             [
-                safe_exp(raw_predictions[index][i] - logsumexp[index])
+                safe_exp(raw_predictions[index][i] - log_norm[index])
                 for i in range(self.n_classes_)
             ]
             for index in range(len(raw_predictions))
diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index 07b0cd6..a609347 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -5,7 +5,7 @@ Naive Bayes
 from abc import abstractmethod
 from math import pi
 
-from .base import dot, transpose, safe_log, safe_exp
+from .base import dot, transpose, safe_log, safe_exp, logsumexp
 from .utils import check_array, check_types, check_version
 
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
@@ -33,7 +33,7 @@ class _BaseNBPure:
         """
         X = check_array(X, handle_sparse="error")
         jll = self._joint_log_likelihood(X)
-        log_prob_x = list(map(lambda a: safe_log(sum(map(safe_exp, a))), jll))
+        log_prob_x = list(map(logsumexp, jll))
         return [
             list(map(lambda a: a - log_prob_x[index], jll[index]))
             for index in range(len(jll))
-- 
2.43.0


From f0495311e2c077e0866a09911a7ca1d608a8f652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 11/42] fix: exponential loss probability is expit(2x)

---
 pure_sklearn/ensemble/_gb_losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_gb_losses.py b/pure_sklearn/ensemble/_gb_losses.py
index e0e4d69..e08de24 100644
--- a/pure_sklearn/ensemble/_gb_losses.py
+++ b/pure_sklearn/ensemble/_gb_losses.py
@@ -102,7 +102,7 @@ class _ExponentialLossPure:
             if shape(raw_predictions)[1] == 1
             else raw_predictions
         )
-        func = lambda x: expit(x) * 2.0
+        func = lambda x: expit(2.0 * x)
         proba_1 = list(map(func, proba))
         proba = [[(1 - x) for x in proba_1], proba_1]
         return transpose(proba)
-- 
2.43.0


From f0ab35965909618554a4705f1a1cf1b894cabb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 12/42] fix: one-hot columns are offset by all earlier features

---
 pure_sklearn/preprocessing/_encoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index a6606b1..23d503f 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -130,7 +130,7 @@ class OneHotEncoderPure(_BaseEncoderPure):
         data = [
             dict(
                 [
-                    (n_values[i] + X_int[j][i], self.dtype(1))
+                    (feature_indices[i] + X_int[j][i], self.dtype(1))
                     for i in range(n_features)
                     if X_mask[j][i]
                 ]
-- 
2.43.0


From 98adc4e22dea076683baa0041a583a5a5b83f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 13/42] fix: missing indicator compares feature indices, not
 missing counts

---
 pure_sklearn/impute/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index a3e594c..001613e 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -70,7 +70,7 @@ class MissingIndicatorPure:
         if self.features == "all":
             features_indices = range(shape(X)[1])
         else:
-            features_indices = [a for a in n_missing if a != 0]
+            features_indices = [i for i, a in enumerate(n_missing) if a != 0]
         return imputer_mask, features_indices
 
 
-- 
2.43.0


From 5b2db3e2a59d9b79c9b9c1ee145c27acf9e88890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 14/42] fix: impute non-numeric markers, values and statistics

---
 pure_sklearn/impute/_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index 001613e..4aaf8e7 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -8,9 +8,13 @@ from ..utils import shape, check_array, check_types, check_version
 from ..base import apply_2d, apply_axis_2d
 
 
+def _is_nan(val):
+    return isinstance(val, float) and isnan(val)
+
+
 def _to_impute(val, missing_values):
-    if isnan(missing_values):
-        return isnan(val)
+    if _is_nan(missing_values):
+        return _is_nan(val)
     else:
         return val == missing_values
 
@@ -146,7 +150,7 @@ class SimpleImputerPure:
             to_remove = [
                 index
                 for index in range(len(self.statistics_))
-                if isnan(self.statistics_[index])
+                if _is_nan(self.statistics_[index])
             ]
             if len(to_remove) > 0:
                 X = [[a[i] for i in range(len(a)) if i not in to_remove] for a in X]
-- 
2.43.0


From fcc64f3bb1e85be57ef27765b02cac574d620c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 15/42] fix: hashed tokens falling in one column add up

---
 pure_sklearn/feature_extraction/_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_hash.py b/pure_sklearn/feature_extraction/_hash.py
index 05ddeae..5212039 100755
--- a/pure_sklearn/feature_extraction/_hash.py
+++ b/pure_sklearn/feature_extraction/_hash.py
@@ -109,7 +109,7 @@ def _hashing_transform(raw_X, n_features, dtype, alternate_sign=1, seed=0):
             index = abs(h) % n_features
             if alternate_sign:
                 value *= (h >= 0) * 2 - 1
-            row[index] = value
+            row[index] = row.get(index, 0) + value
         X.append(row)
     return sparse_list(X, size=n_features, dtype=dtype)
 
-- 
2.43.0


From 4faab44fd14c65df155a5df5a3c4d603bb1ec75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 16/42] fix: undefined name in the feature hasher's dict input

---
 pure_sklearn/feature_extraction/_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/feature_extraction/_hash.py b/pure_sklearn/feature_extraction/_hash.py
index 5212039..bc5cb77 100755
--- a/pure_sklearn/feature_extraction/_hash.py
+++ b/pure_sklearn/feature_extraction/_hash.py
@@ -146,7 +146,7 @@ class _FeatureHasherPure:
         """ Transform a sequence of instances to a `sparse_list` """
         raw_X = iter(raw_X)
         if self.input_type == "dict":
-            raw_X = (_iteritems(d) for d in raw_X)
+            raw_X = (d.items() for d in raw_X)
         elif self.input_type == "string":
             raw_X = (((f, 1) for f in x) for x in raw_X)
         return _hashing_transform(
-- 
2.43.0


From 3f7e1c8c201cc71cd6a261da7c1dbe30693a48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 17/42] fix: binary text vectorisers return a sparse_list

---
 pure_sklearn/feature_extraction/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index bc7641a..212012a 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -381,7 +381,9 @@ class CountVectorizerPure(_VectorizerMixinPure):
 
         _, X = self._count_vocab(raw_documents)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=X.dtype
+            )
         return X
 
 
@@ -489,7 +491,9 @@ class HashingVectorizerPure(_VectorizerMixinPure):
         analyzer = self.build_analyzer()
         X = self._get_hasher().transform(analyzer(doc) for doc in X)
         if self.binary:
-            X = [dict.fromkeys(x, 1) for x in X]
+            X = sparse_list(
+                [dict.fromkeys(x, 1) for x in X], size=X.size, dtype=X.dtype
+            )
 
         if self.norm is not None:
             X = normalize_pure(X, norm=self.norm, copy=False)
-- 
2.43.0


From 53f977ecad36162c94ac6f2437a0680368078553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 18/42] fix: undefined names in the text analysers

---
 pure_sklearn/feature_extraction/text.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pure_sklearn/feature_extraction/text.py b/pure_sklearn/feature_extraction/text.py
index 212012a..0f24f2c 100755
--- a/pure_sklearn/feature_extraction/text.py
+++ b/pure_sklearn/feature_extraction/text.py
@@ -5,6 +5,7 @@ build feature vectors from text documents.
 
 import re
 import unicodedata
+import warnings
 
 from copy import copy
 from functools import partial
@@ -284,8 +285,6 @@ class _VectorizerMixinPure:
         """
 
         if callable(self.analyzer):
-            if self.input in ["file", "filename"]:
-                self._validate_custom_analyzer()
             return partial(_analyze, analyzer=self.analyzer, decoder=self.decode)
 
         preprocess = self.build_preprocessor()
-- 
2.43.0


From 92aa926de43e4e89b1a894be6bfba26447583234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 19/42] fix: apply feature union weights to sparse outputs

---
 pure_sklearn/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 41196f8..75c7ad1 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -6,7 +6,7 @@ from operator import add, attrgetter
 from functools import update_wrapper, reduce
 from itertools import islice
 
-from .base import accumu, apply_2d
+from .base import accumu, apply_2d, apply_2d_sparse
 from .utils import (
     issparse,
     tosparse,
@@ -61,6 +61,8 @@ def _transform_one(transformer, X, y, weight, **fit_params):
     # if we have a weight for this transformer, multiply output
     if weight is None:
         return res
+    if issparse(res):
+        return apply_2d_sparse(res, lambda x: x * weight)
     return apply_2d(res, lambda x: x * weight)
 
 
-- 
2.43.0


From f6f7cfc02c0ba3d6f83af7e284d0acb32b767a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 20/42] fix: convert pipelines and unions with disabled steps

---
 pure_sklearn/pipeline.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/pipeline.py b/pure_sklearn/pipeline.py
index 75c7ad1..f95ee12 100644
--- a/pure_sklearn/pipeline.py
+++ b/pure_sklearn/pipeline.py
@@ -56,6 +56,13 @@ def _if_delegate_has_method(delegate):
     return lambda fn: _IffHasAttrDescriptor(fn, delegate, attribute_name=fn.__name__)
 
 
+def _convert_step(step, disabled):
+    """ Convert a step's estimator, keeping disabled steps as they are """
+    if step is None or step == disabled:
+        return step
+    return convert_estimator(step)
+
+
 def _transform_one(transformer, X, y, weight, **fit_params):
     res = transformer.transform(X)
     # if we have a weight for this transformer, multiply output
@@ -78,7 +85,7 @@ class PipelinePure:
         check_version(estimator)
         self.steps = []
         for step in estimator.steps:
-            step_ = convert_estimator(step[1])
+            step_ = _convert_step(step[1], "passthrough")
             self.steps.append((step[0], step_))
         check_types(self)
 
@@ -165,7 +172,7 @@ class FeatureUnionPure:
         check_version(estimator)
         self.transformer_list = []
         for step in estimator.transformer_list:
-            step_ = convert_estimator(step[1])
+            step_ = _convert_step(step[1], "drop")
             self.transformer_list.append((step[0], step_))
 
         if hasattr(estimator, "transformer_weights"):
@@ -196,7 +203,7 @@ class FeatureUnionPure:
             for name, trans, weight in self._iter()
         ]
         if not Xs:
-            return [[0.0] * shape(X)[1]] * shape(X)[0]
+            return [[] for _ in range(len(X))]
 
         if any(issparse(f) for f in Xs):
             Xs = [tosparse(X_) if not issparse(X_) else X_ for X_ in Xs]
-- 
2.43.0


From ee58fc69309efaf5508fc530e4f4acfbdde781f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 21/42] fix: max norm of a fully populated sparse row ignores
 absent zeros

---
 pure_sklearn/preprocessing/_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 367157a..4b1932c 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -57,7 +57,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = [max(list(x.values()) + [0]) for x in X]
+            norms = [max(list(x.values()) + [0] * (len(x) != X.size)) for x in X]
         norms = _handle_zeros_in_scale(norms, copy=False)
         X_sparse = [
             {k: (v / float(norms[index])) for k, v in X[index].items()}
-- 
2.43.0


From a8d72c538bfcae7ab8fa32315e60ad66edda36d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 22/42] fix: bagging with feature subsets accepts sparse input

---
 pure_sklearn/ensemble/_bagging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index f10446d..577a1e0 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -6,12 +6,15 @@ from operator import add
 
 from ..map import MAPPING, convert_estimator
 from ..base import safe_log, operate_2d, apply_2d
-from ..utils import shape, check_types, check_version
+from ..utils import shape, check_types, check_version, issparse, sparse_list
 
 
 def _feat_slice(X, feats):
     if feats is None:
         return X
+    elif issparse(X):
+        X_ = [{i: a[f] for i, f in enumerate(feats) if f in a} for a in X]
+        return sparse_list(X_, size=len(feats), dtype=X.dtype)
     else:
         return [[a[i] for i in feats] for a in X]
 
-- 
2.43.0


From c3fda66aba7f0b5028c01a9a763593d275867985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 23/42] fix: align bagging members that have not seen every
 class

---
 pure_sklearn/ensemble/_bagging.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 577a1e0..49d828d 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -36,15 +36,28 @@ class _BaseBaggingPure:
         check_types(self)
 
     def predict_proba(self, X):
-        proba = self.estimators_[0].predict_proba(_feat_slice(X, self._get_feats(0)))
+        proba = self._member_proba(X, 0)
         for idx in range(len(self.estimators_))[1:]:
-            proba_idx = self.estimators_[idx].predict_proba(
-                _feat_slice(X, self._get_feats(idx))
-            )
+            proba_idx = self._member_proba(X, idx)
             proba = operate_2d(proba, proba_idx, add)
         func = lambda x: x / float(len(self.estimators_))
         return apply_2d(proba, func)
 
+    def _member_proba(self, X, idx):
+        """ Probabilities of one member, aligned with the ensemble's classes """
+        est = self.estimators_[idx]
+        proba = est.predict_proba(_feat_slice(X, self._get_feats(idx)))
+        if len(est.classes_) == len(self.classes_):
+            return proba
+        # members are trained on class indices and may have missed some classes
+        return [
+            [
+                a[est.classes_.index(k)] if k in est.classes_ else 0.0
+                for k in range(len(self.classes_))
+            ]
+            for a in proba
+        ]
+
     def predict_log_proba(self, X):
         return apply_2d(self.predict_proba(X), safe_log)
 
-- 
2.43.0


From 7bcd47dbbc7ef908c3b4748c972cf54983bb403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 24/42] fix: parse all digits of xgboost feature names

---
 pure_sklearn/tree/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index e389c50..8045403 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -34,7 +34,7 @@ class _DecisionTreeBase:
             )
             self.feature_ = list(
                 map(
-                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")[-1]),
+                    lambda x: -2 if x == "Leaf" else int(x.replace("f", "")),
                     estimator["Feature"],
                 )
             )
-- 
2.43.0


From b2dc855381076503be92a86e76482899afd74ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 25/42] fix: xgboost trees compare strictly and route missing
 values to their default child

---
 pure_sklearn/tree/_classes.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 8045403..c84c165 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -32,6 +32,12 @@ class _DecisionTreeBase:
                     estimator["No"],
                 )
             )
+            self.children_missing_ = list(
+                map(
+                    lambda x: -1 if not isinstance(x, str) else int(x.split("-")[-1]),
+                    estimator["Missing"],
+                )
+            )
             self.feature_ = list(
                 map(
                     lambda x: -2 if x == "Leaf" else int(x.replace("f", "")),
@@ -65,12 +71,22 @@ class _DecisionTreeBase:
             if self.children_left_[node_id] == self.children_right_[node_id]:
                 found_node = True
             else:
-                if left_equal(node_id) <= self.threshold_[node_id]:
-                    node_id = self.children_left_[node_id]
-                else:
-                    node_id = self.children_right_[node_id]
+                node_id = self._next_node(node_id, left_equal(node_id))
         return node_id
 
+    def _next_node(self, node_id, val):
+        """ Child of 'node_id' for a feature value """
+        if hasattr(self, "children_missing_"):
+            # xgboost: strict comparison and a default child for missing values
+            if isnan(val):
+                return self.children_missing_[node_id]
+            go_left = val < self.threshold_[node_id]
+        else:
+            go_left = val <= self.threshold_[node_id]
+        if go_left:
+            return self.children_left_[node_id]
+        return self.children_right_[node_id]
+
 
 class DecisionTreeClassifierPure(_DecisionTreeBase):
     """
-- 
2.43.0


From 76db5ebb58ba81566864a73a43184e4685deeff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 26/42] fix: reject multi-output trees

---
 pure_sklearn/tree/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index c84c165..382fc99 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -47,6 +47,8 @@ class _DecisionTreeBase:
         else:
             # sourced from sklearn decision tree
             check_version(estimator)
+            if estimator.n_outputs_ != 1:
+                raise ValueError("Multi-output trees are not supported")
             self.children_left_ = estimator.tree_.children_left.tolist()
             self.children_right_ = estimator.tree_.children_right.tolist()
             self.feature_ = estimator.tree_.feature.tolist()
-- 
2.43.0


From 6d7c7aaceb30d65b424f4ede2690b3042c506ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 27/42] fix: accept xgboost's default booster

---
 pure_sklearn/xgboost/_classes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 3ed4c32..0aaea39 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -33,10 +33,12 @@ class XGBClassifierPure:
             )
         else:
             self.objective = estimator.objective
-        if estimator.booster not in SUPPORTED_BOOSTER:
-            raise ValueError("Booster: '{}' not supported".format(estimator.booster))
+        # xgboost's default booster is 'gbtree'
+        booster = "gbtree" if estimator.booster is None else estimator.booster
+        if booster not in SUPPORTED_BOOSTER:
+            raise ValueError("Booster: '{}' not supported".format(booster))
         else:
-            self.booster = estimator.booster
+            self.booster = booster
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_estimators = estimator.n_estimators
-- 
2.43.0


From 775ebb2a5ee733f3dc9b8fc3dbcf82d50d66cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 28/42] fix: use the boosting rounds xgboost predicts with

---
 pure_sklearn/xgboost/_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 0aaea39..854ca21 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -42,6 +42,9 @@ class XGBClassifierPure:
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_estimators = estimator.n_estimators
+        if hasattr(estimator, "best_iteration"):
+            # only the rounds up to the best one are used for prediction
+            self.n_estimators = estimator.best_iteration + 1
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
-- 
2.43.0


From 9dec89f891fb70f3770f9a0e0edecd0ae4e79809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 29/42] fix: two-class softprob models have one tree per class

---
 pure_sklearn/xgboost/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 854ca21..78e4c07 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -59,7 +59,7 @@ class XGBClassifierPure:
         estimators_ = []
         idx = 0
         for est_id in range(self.n_estimators):
-            if self.n_classes_ == 2:
+            if self.objective == "binary:logistic":
                 tree = tree_df[tree_df["Tree"] == idx].to_dict(orient="list")
                 est_row_ = DecisionTreeRegressorPure(tree)
                 idx += 1
-- 
2.43.0


From 31e5b7ed34d358e5816b2c9e3d22e4df3cc40620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 30/42] fix: add xgboost's base score to the margin

---
 pure_sklearn/xgboost/_classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 78e4c07..1c32763 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -2,7 +2,7 @@
 Estimator classes for xgboost
 """
 
-from math import exp
+from math import isnan, log
 
 from ..base import sfmax, expit
 from ..utils import check_types, check_array
@@ -45,6 +45,8 @@ class XGBClassifierPure:
         if hasattr(estimator, "best_iteration"):
             # only the rounds up to the best one are used for prediction
             self.n_estimators = estimator.best_iteration + 1
+        base_score = 0.5 if estimator.base_score is None else estimator.base_score
+        self.base_score = float(base_score)
         self.estimators_ = self._build_estimators(estimator)
         check_types(self)
 
@@ -85,7 +87,7 @@ class XGBClassifierPure:
 
     def _predict_binary(self, X):
         """ Raw sums of estimator predictions for each class for binary """
-        preds = [0] * len(X)
+        preds = [log(self.base_score / (1.0 - self.base_score))] * len(X)
         for estimator in self.estimators_:
             preds = list(map(lambda x, y: x + y, preds, estimator.predict(X)))
         return preds
-- 
2.43.0


From a9f0e092db43e244f20491c1ed9bdb7251dccced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 31/42] fix: reject xgboost settings the pure trees do not
 implement

---
 pure_sklearn/xgboost/_classes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 1c32763..1471492 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -39,6 +39,13 @@ class XGBClassifierPure:
             raise ValueError("Booster: '{}' not supported".format(booster))
         else:
             self.booster = booster
+        if getattr(estimator, "num_parallel_tree", None) not in (None, 1):
+            raise ValueError("Boosted random forests are not supported")
+        if getattr(estimator, "enable_categorical", False):
+            raise ValueError("Categorical features are not supported")
+        missing = getattr(estimator, "missing", None)
+        if missing is not None and not isnan(missing):
+            raise ValueError("Only NaN is supported as missing value")
         self.classes_ = estimator.classes_.tolist()
         self.n_classes_ = estimator.n_classes_
         self.n_estimators = estimator.n_estimators
-- 
2.43.0


From c02995554deea64f5926730a2e282849ca9fb5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 32/42] fix: gradient boosting with init='zero'

---
 pure_sklearn/ensemble/_gb.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index 229f2d9..4f5430c 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -34,7 +34,10 @@ class GradientBoostingClassifierPure:
                 est_arr_.append(est_)
             self.estimators_.append(est_arr_)
         if hasattr(estimator, "init_"):
-            self.init_ = convert_estimator(estimator.init_)
+            if estimator.init_ == "zero":
+                self.init_ = "zero"
+            else:
+                self.init_ = convert_estimator(estimator.init_)
         self.loss = estimator.loss
         self.learning_rate = float(estimator.learning_rate)
         self.n_features_ = estimator.n_features_
@@ -60,7 +63,7 @@ class GradientBoostingClassifierPure:
                 )
             )
         if self.init_ == "zero":
-            raw_predictions = [[0.0] * shape(X)[1]] * shape(X)[0]
+            raw_predictions = [[0.0] * len(self.estimators_[0])] * shape(X)[0]
         else:
             raw_predictions = self.loss_.get_init_raw_predictions(X, self.init_)
         return raw_predictions
-- 
2.43.0


From 5be99ccb1bcdb6b1ca274b089d35733aee808012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 33/42] fix: fastText predict accepts a list of texts

---
 pure_fasttext/FastText.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index ee844d1..af8cc89 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -150,12 +150,8 @@ class _FastText(object):
             raise ValueError("Model needs to be supervised for prediction!")
 
         if isinstance(text, list):
-            text = [entry for entry in text]
             all_labels = []
             all_probs = []
-            all_labels, all_probs = self.f.multilinePredict(
-                text, k, threshold, on_unicode_error
-            )
             for text_ in text:
                 labels, probs = self._predict(text_, k, threshold)
                 all_labels.append(labels)
-- 
2.43.0


From cc63a7ba3bb85a88d40d9a8e99f5277f70315b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 34/42] fix: fastText k=-1 returns all labels

---
 pure_fasttext/FastText.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index af8cc89..56b9886 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -136,6 +136,10 @@ class _FastText(object):
             preds = sfmax(dot(A, self.output_matrix_))
         else:
             raise ValueError("Predict is not supported for loss: {}".format(self.loss_))
+        if k == -1:
+            k = len(preds)
+        elif k < 1:
+            raise ValueError("k needs to be 1 or higher!")
         argsorted = [i for i in argsort(preds)[::-1] if preds[i] >= threshold]
         pred_labels = tuple([self.labels_[i] for i in argsorted[:k]])
         pred_scores = [preds[i] for i in argsorted[:k]]
-- 
2.43.0


From 9f379a5e30c5a9eeacb5deef7f2fccdd7ffb6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 35/42] fix: fastText splits words on its documented separators
 only

---
 pure_fasttext/FastText.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 56b9886..0cb7858 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -4,6 +4,7 @@ Base class for fasttext API implemented in pure python
 
 from math import exp, sqrt
 from operator import mul
+from re import split
 
 EOS = "</s>"
 
@@ -55,6 +56,11 @@ def average(l):
     return list(map(divide, map(sum, zip(*l))))
 
 
+def tokenize(text):
+    """ Splits a line on the separators used by fasttext """
+    return [word for word in split("[ \n\r\t\v\f\0]+", text) if word]
+
+
 class _FastText(object):
     """
     Equivalent to fasttext `_FastText` class, implemented in
@@ -101,14 +107,14 @@ class _FastText(object):
         if self.supervised_:
             raw_words = [
                 self.get_word_vector(word)
-                for word in (text.split() + [EOS])
+                for word in (tokenize(text) + [EOS])
                 if word in self.words_
             ]
             return average(raw_words)
         else:
             raw_words = [
                 self.get_word_vector(word)
-                for word in text.split()
+                for word in tokenize(text)
                 if word in self.words_
             ]
             return average(list(map(div_norm, raw_words)))
-- 
2.43.0


From e1bb781cf3bbbf4e946dc729a0ee2365b800aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 36/42] fix: fastText sentence vectors skip zero-norm words and
 default to zeros

---
 pure_fasttext/FastText.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 0cb7858..725f7ad 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -110,14 +110,16 @@ class _FastText(object):
                 for word in (tokenize(text) + [EOS])
                 if word in self.words_
             ]
-            return average(raw_words)
+            return average(raw_words) if raw_words else [0.0] * self.dim_
         else:
             raw_words = [
                 self.get_word_vector(word)
                 for word in tokenize(text)
                 if word in self.words_
             ]
-            return average(list(map(div_norm, raw_words)))
+            # vectors of zero norm are not counted
+            vectors = [div_norm(vec) for vec in raw_words if l2_norm(vec) > 0]
+            return average(vectors) if vectors else [0.0] * self.dim_
 
     def get_word_id(self, word):
         """
-- 
2.43.0


From ab06f25a34de9eddb3259ed445c44dcdcf48d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 37/42] fix: reject supervised fastText models with subwords or
 word n-grams

---
 pure_fasttext/FastText.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pure_fasttext/FastText.py b/pure_fasttext/FastText.py
index 725f7ad..ef9b583 100644
--- a/pure_fasttext/FastText.py
+++ b/pure_fasttext/FastText.py
@@ -73,6 +73,10 @@ class _FastText(object):
             raise ValueError(
                 "Only maxn=0 is supported for unsupervised mode (no subwords support)."
             )
+        if self.supervised_ and (model.maxn != 0 or model.wordNgrams > 1):
+            raise ValueError(
+                "Only maxn=0 and wordNgrams=1 are supported for supervised mode."
+            )
         if self.supervised_ and (model.loss.name not in ("softmax")):
             raise Exception("Only 'softmax' loss is supported for supervised mode.")
         self.words_ = model.get_words()
-- 
2.43.0


From 406e7cfea2eab5b294540c8a1f3a998b175d97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 38/42] fix: reject rows whose number of features differs from
 the fitted model

---
 pure_sklearn/ensemble/_bagging.py       | 13 ++++++++++++-
 pure_sklearn/ensemble/_gb.py            |  3 ++-
 pure_sklearn/impute/_base.py            |  5 ++++-
 pure_sklearn/linear_model/_base.py      |  3 ++-
 pure_sklearn/naive_bayes.py             | 11 ++++++++++-
 pure_sklearn/preprocessing/_data.py     | 15 ++++++++++++++-
 pure_sklearn/preprocessing/_encoders.py |  2 ++
 pure_sklearn/tree/_classes.py           | 19 ++++++++++++++-----
 pure_sklearn/utils.py                   | 14 ++++++++++++++
 pure_sklearn/xgboost/_classes.py        |  6 +++++-
 10 files changed, 79 insertions(+), 12 deletions(-)

diff --git a/pure_sklearn/ensemble/_bagging.py b/pure_sklearn/ensemble/_bagging.py
index 49d828d..89801ad 100644
--- a/pure_sklearn/ensemble/_bagging.py
+++ b/pure_sklearn/ensemble/_bagging.py
@@ -6,7 +6,15 @@ from operator import add
 
 from ..map import MAPPING, convert_estimator
 from ..base import safe_log, operate_2d, apply_2d
-from ..utils import shape, check_types, check_version, issparse, sparse_list
+from ..utils import (
+    shape,
+    check_types,
+    check_version,
+    check_array,
+    check_n_features,
+    issparse,
+    sparse_list,
+)
 
 
 def _feat_slice(X, feats):
@@ -28,6 +36,7 @@ class _BaseBaggingPure:
             self.estimators_features_ = [
                 a.tolist() for a in estimator.estimators_features_
             ]
+        self.n_features_ = int(estimator.n_features_)
         self.classes_ = estimator.classes_.tolist()
         self.estimators_ = []
         for est in estimator.estimators_:
@@ -36,6 +45,8 @@ class _BaseBaggingPure:
         check_types(self)
 
     def predict_proba(self, X):
+        X = check_array(X, handle_sparse="allow")
+        X = check_n_features(X, self.n_features_)
         proba = self._member_proba(X, 0)
         for idx in range(len(self.estimators_))[1:]:
             proba_idx = self._member_proba(X, idx)
diff --git a/pure_sklearn/ensemble/_gb.py b/pure_sklearn/ensemble/_gb.py
index 4f5430c..d9ade30 100644
--- a/pure_sklearn/ensemble/_gb.py
+++ b/pure_sklearn/ensemble/_gb.py
@@ -11,7 +11,7 @@ from ._gb_losses import (
 )
 
 from ..base import transpose, apply_2d, safe_log, operate_2d
-from ..utils import check_version, check_types, check_array, shape
+from ..utils import check_version, check_types, check_array, shape, check_n_features
 from ..map import convert_estimator
 
 
@@ -62,6 +62,7 @@ class GradientBoostingClassifierPure:
                     self.n_features_, shape(X)[1]
                 )
             )
+        check_n_features(X, self.n_features_)
         if self.init_ == "zero":
             raw_predictions = [[0.0] * len(self.estimators_[0])] * shape(X)[0]
         else:
diff --git a/pure_sklearn/impute/_base.py b/pure_sklearn/impute/_base.py
index 4aaf8e7..6fd4194 100644
--- a/pure_sklearn/impute/_base.py
+++ b/pure_sklearn/impute/_base.py
@@ -4,7 +4,7 @@ Imputer transformers
 
 from math import isnan
 
-from ..utils import shape, check_array, check_types, check_version
+from ..utils import shape, check_array, check_types, check_version, check_n_features
 from ..base import apply_2d, apply_axis_2d
 
 
@@ -47,6 +47,7 @@ class MissingIndicatorPure:
                 "X has a different number of features than during fitting."
             )
 
+        check_n_features(X, self._n_features)
         imputer_mask, features = self._get_missing_features_info(X)
 
         if self.features == "missing-only":
@@ -143,6 +144,8 @@ class SimpleImputerPure:
                 % (shape(X)[1], shape(self.statistics_)[0])
             )
 
+        check_n_features(X, len(self.statistics_))
+
         # delete the invalid columns if strategy is not constant
         if self.strategy == "constant":
             valid_statistics = self.statistics_
diff --git a/pure_sklearn/linear_model/_base.py b/pure_sklearn/linear_model/_base.py
index ae80fee..710924e 100644
--- a/pure_sklearn/linear_model/_base.py
+++ b/pure_sklearn/linear_model/_base.py
@@ -4,7 +4,7 @@ Generalized linear models
 
 from operator import add
 
-from ..utils import check_array, ndim, shape, check_types
+from ..utils import check_array, ndim, shape, check_types, check_n_features
 from ..base import dot, expit, ravel
 
 
@@ -41,6 +41,7 @@ class LinearClassifierMixinPure:
                 "X has %d features per sample; expecting %d" % (shape(X)[1], n_features)
             )
 
+        check_n_features(X, n_features)
         scores = [
             list(map(add, dot(X[i], self.coef_), self.intercept_))
             for i in range(len(X))
diff --git a/pure_sklearn/naive_bayes.py b/pure_sklearn/naive_bayes.py
index a609347..6922e73 100644
--- a/pure_sklearn/naive_bayes.py
+++ b/pure_sklearn/naive_bayes.py
@@ -6,7 +6,7 @@ from abc import abstractmethod
 from math import pi
 
 from .base import dot, transpose, safe_log, safe_exp, logsumexp
-from .utils import check_array, check_types, check_version
+from .utils import check_array, check_types, check_version, check_n_features
 
 __all__ = ["GaussianNBPure", "MultinomialNBPure", "ComplementNBPure"]
 
@@ -18,11 +18,16 @@ class _BaseNBPure:
     def _joint_log_likelihood(self, X):
         """ Compute the unnormalized posterior log probability of X """
 
+    def _n_features(self):
+        """ Number of features of the fitted per-class parameters """
+        return len(self.feature_log_prob_[0])
+
     def predict(self, X):
         """
         Perform classification on an array of test vectors X.
         """
         X = check_array(X, handle_sparse="error")
+        X = check_n_features(X, self._n_features())
         jll = self._joint_log_likelihood(X)
         indices = map(lambda a: a.index(max(a)), jll)
         return [self.classes_[i] for i in indices]
@@ -32,6 +37,7 @@ class _BaseNBPure:
         Return log-probability estimates for the test vector X.
         """
         X = check_array(X, handle_sparse="error")
+        X = check_n_features(X, self._n_features())
         jll = self._joint_log_likelihood(X)
         log_prob_x = list(map(logsumexp, jll))
         return [
@@ -62,6 +68,9 @@ class GaussianNBPure(_BaseNBPure):
         self.theta_ = estimator.theta_.tolist()
         check_types(self)
 
+    def _n_features(self):
+        return len(self.theta_[0])
+
     def _joint_log_likelihood(self, X):
         """ Calculate the posterior log probability of the samples X """
         joint_log_likelihood = []
diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index 4b1932c..e1a90b0 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -5,7 +5,14 @@ Normalization and scaling
 from math import sqrt
 from copy import copy as cp
 
-from ..utils import sparse_list, issparse, check_array, check_types, check_version
+from ..utils import (
+    sparse_list,
+    issparse,
+    check_array,
+    check_types,
+    check_version,
+    check_n_features,
+)
 from ..base import transpose, apply_2d, apply_axis_2d, matmult_same_dim
 
 
@@ -132,6 +139,10 @@ class StandardScalerPure:
     def transform(self, X, copy=None):
         """ Perform standardization by centering and scaling """
         X = check_array(X, handle_sparse="allow")
+        if self.mean_ is not None:
+            X = check_n_features(X, len(self.mean_))
+        elif self.scale_ is not None:
+            X = check_n_features(X, len(self.scale_))
 
         if issparse(X):
             if self.with_mean:
@@ -181,6 +192,7 @@ class MinMaxScalerPure:
                 "Consider using MaxAbsScalerPure instead."
             )
         X = check_array(X)
+        X = check_n_features(X, len(self.scale_))
         return [
             [(x[i] * self.scale_[i]) + self.min_[i] for i in range(len(self.scale_))]
             for x in X
@@ -211,6 +223,7 @@ class MaxAbsScalerPure:
     def transform(self, X):
         """ Scale the data """
         X = check_array(X, handle_sparse="allow")
+        X = check_n_features(X, len(self.scale_))
         if issparse(X):
             X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]
             X = sparse_list(X_, size=X.size, dtype=X.dtype)
diff --git a/pure_sklearn/preprocessing/_encoders.py b/pure_sklearn/preprocessing/_encoders.py
index 23d503f..c74a882 100644
--- a/pure_sklearn/preprocessing/_encoders.py
+++ b/pure_sklearn/preprocessing/_encoders.py
@@ -9,6 +9,7 @@ from ..utils import (
     sparse_list,
     convert_type,
     check_version,
+    check_n_features,
 )
 from ..base import accumu, apply_2d, ravel
 from ._label import _encode, _encode_check_unknown
@@ -35,6 +36,7 @@ class _BaseEncoderPure:
     def _check_X(self, X):
         """ Perform custom check_array """
         X = check_array(X)
+        X = check_n_features(X, len(self.categories_))
         n_samples, n_features = shape(X)
         X_columns = []
         for i in range(n_features):
diff --git a/pure_sklearn/tree/_classes.py b/pure_sklearn/tree/_classes.py
index 382fc99..a4f80d7 100644
--- a/pure_sklearn/tree/_classes.py
+++ b/pure_sklearn/tree/_classes.py
@@ -7,7 +7,7 @@ import warnings
 from math import isnan
 
 from ..base import safe_log
-from ..utils import check_array, check_types, check_version
+from ..utils import check_array, check_types, check_version, check_n_features
 
 
 class _DecisionTreeBase:
@@ -15,7 +15,9 @@ class _DecisionTreeBase:
 
     def __init__(self, estimator):
         if isinstance(estimator, dict):
-            # sourced from xgboost booster object tree dictionary
+            # sourced from xgboost booster object tree dictionary, which
+            # does not tell the number of features
+            self.n_features_ = None
             self.threshold_ = list(
                 map(lambda x: -2 if isnan(x) else x, estimator["Split"])
             )
@@ -49,6 +51,7 @@ class _DecisionTreeBase:
             check_version(estimator)
             if estimator.n_outputs_ != 1:
                 raise ValueError("Multi-output trees are not supported")
+            self.n_features_ = int(estimator.tree_.n_features)
             self.children_left_ = estimator.tree_.children_left.tolist()
             self.children_right_ = estimator.tree_.children_right.tolist()
             self.feature_ = estimator.tree_.feature.tolist()
@@ -62,6 +65,12 @@ class _DecisionTreeBase:
                     self.classes_ = [0, 1]
         check_types(self)
 
+    def _check_X(self, X):
+        X = check_array(X, handle_sparse="allow")
+        if self.n_features_ is not None:
+            X = check_n_features(X, self.n_features_)
+        return X
+
     def _get_leaf_node(self, x):
         if isinstance(x, dict):
             left_equal = lambda nd: x.get(self.feature_[nd], 0.0)
@@ -105,13 +114,13 @@ class DecisionTreeClassifierPure(_DecisionTreeBase):
         return [a / sum(self.value_[node_id]) for a in self.value_[node_id]]
 
     def predict(self, X):
-        X = check_array(X, handle_sparse="allow")
+        X = self._check_X(X)
         leaves = [self._get_leaf_node(x) for x in X]
         preds = [self._get_pred_from_leaf_node(x) for x in leaves]
         return [self.classes_[x] for x in preds]
 
     def predict_proba(self, X):
-        X = check_array(X, handle_sparse="allow")
+        X = self._check_X(X)
         leaves = [self._get_leaf_node(x) for x in X]
         return [self._get_proba_from_leaf_node(x) for x in leaves]
 
@@ -131,7 +140,7 @@ class DecisionTreeRegressorPure(_DecisionTreeBase):
         return self.value_[node_id][0]
 
     def predict(self, X):
-        X = check_array(X, handle_sparse="allow")
+        X = self._check_X(X)
         leaves = [self._get_leaf_node(x) for x in X]
         return [self._get_pred_from_leaf_node(x) for x in leaves]
 
diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 3d5d31b..88a031e 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -113,6 +113,20 @@ def check_array(X, handle_sparse="error"):
     return X
 
 
+def check_n_features(X, n_features):
+    """ Checks that every row of 'X' has the fitted number of features """
+    if issparse(X):
+        widths = [n_features if X.size is None else X.size]
+    else:
+        widths = [len(x) for x in X]
+    for width in widths:
+        if width != n_features:
+            raise ValueError(
+                "X has {} features per sample; expecting {}".format(width, n_features)
+            )
+    return X
+
+
 def shape(X):
     """
     Checks the shape of input list. Similar to
diff --git a/pure_sklearn/xgboost/_classes.py b/pure_sklearn/xgboost/_classes.py
index 1471492..e9ad036 100644
--- a/pure_sklearn/xgboost/_classes.py
+++ b/pure_sklearn/xgboost/_classes.py
@@ -5,7 +5,7 @@ Estimator classes for xgboost
 from math import isnan, log
 
 from ..base import sfmax, expit
-from ..utils import check_types, check_array
+from ..utils import check_types, check_array, check_n_features
 from ..tree import DecisionTreeRegressorPure
 
 MIN_VERSION = "0.82"
@@ -47,6 +47,8 @@ class XGBClassifierPure:
         if missing is not None and not isnan(missing):
             raise ValueError("Only NaN is supported as missing value")
         self.classes_ = estimator.classes_.tolist()
+        # not available before xgboost 1.0
+        self.n_features_ = getattr(estimator, "n_features_in_", None)
         self.n_classes_ = estimator.n_classes_
         self.n_estimators = estimator.n_estimators
         if hasattr(estimator, "best_iteration"):
@@ -105,6 +107,8 @@ class XGBClassifierPure:
 
     def predict_proba(self, X):
         X = check_array(X)
+        if self.n_features_ is not None:
+            X = check_n_features(X, self.n_features_)
         if self.objective == "multi:softprob":
             preds = self._predict(X)
             out = []
-- 
2.43.0


From 209d4d6f68026e5affda322dd0795e29de09512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 39/42] fix: reject rows of different widths when building a
 sparse_list from dense rows

---
 pure_sklearn/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 88a031e..5c9e077 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -198,6 +198,7 @@ class sparse_list(list):
         else:
             A = check_array(A)
             self.size = shape(A)[1]
+            check_n_features(A, self.size)
             self.dtype = type(A[0][0])
             for row in A:
                 self.append(
-- 
2.43.0


From a06cc0e836be2861d320fc270a17688ecc4a3571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 40/42] fix: reject an empty batch explicitly when building a
 sparse_list

---
 pure_sklearn/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pure_sklearn/utils.py b/pure_sklearn/utils.py
index 5c9e077..9498577 100644
--- a/pure_sklearn/utils.py
+++ b/pure_sklearn/utils.py
@@ -190,6 +190,8 @@ class sparse_list(list):
     """
 
     def __init__(self, A, size=None, dtype=None):
+        if len(A) == 0:
+            raise ValueError("Input 'A' must not be empty")
         if isinstance(A[0], dict):
             self.dtype = float if dtype is None else dtype
             self.size = size
-- 
2.43.0


From 5d4ccc04baaaf5eaffdc06ea48afa97c6b5d87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 41/42] fix: pairwise metrics reject empty and ragged row sets
 instead of crashing or truncating

---
 pure_sklearn/metrics/pairwise.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pure_sklearn/metrics/pairwise.py b/pure_sklearn/metrics/pairwise.py
index 3c407bf..81843f7 100644
--- a/pure_sklearn/metrics/pairwise.py
+++ b/pure_sklearn/metrics/pairwise.py
@@ -5,7 +5,7 @@ Pairwise distance and similarity metrics
 from math import sqrt
 
 from ..base import dot_2d, apply_2d, transpose
-from ..utils import shape, ndim, issparse
+from ..utils import shape, issparse, check_n_features
 from ..preprocessing import normalize_pure
 
 __all__ = ["cosine_similarity_pure", "cosine_distances_pure", "linear_kernel_pure"]
@@ -31,10 +31,13 @@ def _set_diag(S, val=0.0):
 def _check_pairwise_arrays(X, Y):
     if Y is None:
         Y = X
-    if (ndim(X) != 2) or (ndim(Y) != 2):
-        raise ValueError("Input arrays must be 2-D.")
+    for A in (X, Y):
+        if not A or not all(isinstance(row, (list, dict)) for row in A):
+            raise ValueError("Input arrays must be 2-D.")
     if shape(X)[1] != shape(Y)[1]:
         raise ValueError("Input arrays must have same 2nd dimension.")
+    check_n_features(X, shape(X)[1])
+    check_n_features(Y, shape(Y)[1])
     if issparse(Y):
         raise ValueError("Input array 'Y' cannot be sparse.")
     return X, Y
-- 
2.43.0


From b0f808ce4676db7b7e711ff8ff2a9bc8f67fade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 42/42] fix: max norm uses absolute values

---
 pure_sklearn/preprocessing/_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pure_sklearn/preprocessing/_data.py b/pure_sklearn/preprocessing/_data.py
index e1a90b0..cd91417 100644
--- a/pure_sklearn/preprocessing/_data.py
+++ b/pure_sklearn/preprocessing/_data.py
@@ -64,7 +64,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = [max(list(x.values()) + [0] * (len(x) != X.size)) for x in X]
+            norms = [max(list(map(abs, x.values())) + [0]) for x in X]
         norms = _handle_zeros_in_scale(norms, copy=False)
         X_sparse = [
             {k: (v / float(norms[index])) for k, v in X[index].items()}
@@ -77,7 +77,7 @@ def normalize_pure(X, norm="l2", axis=1, copy=True, return_norm=False):
         elif norm == "l2":
             norms = _row_norms(X)
         elif norm == "max":
-            norms = apply_axis_2d(X, max, axis=1)
+            norms = apply_axis_2d(apply_2d(X, abs), max, axis=1)
         norms = _handle_zeros_in_scale(norms, copy=False)
         X = [
             list(map(lambda a: a / float(norms[index]), X[index]))
-- 
2.43.0

