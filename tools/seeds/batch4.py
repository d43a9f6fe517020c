T = "pure_sklearn/feature_extraction/text.py"
P = "pure_sklearn/"
SEEDS = [
 dict(id="d20-nfkd-category", property="C20", needs="a document with a mark whose canonical combining class is 0 (a vowel sign, a variation selector)",
  what="accent stripping drops every nonspacing mark instead of the combining characters",
  edits=[(T, '        return "".join([c for c in normalized if not unicodedata.combining(c)])', '        return "".join([c for c in normalized if unicodedata.category(c) != "Mn"])')],
  demo='''
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
docs = ["\\u0e01\\u0e31\\u0e19 caf\\u00e9", "a\\ufe0fb cafe"]
m = CountVectorizer(strip_accents="unicode", analyzer="char").fit(docs)
p = convert_estimator(m)
assert p.transform(docs).todense() == m.transform(docs).toarray().tolist()
'''),
 dict(id="d20-blank-runs", property="C20", needs="a run of blanks other than space, tab and line feed (a no-break space, a carriage return) in a character analyzer",
  what="runs of only some of the white space characters are collapsed",
  edits=[(T, '    _white_spaces = re.compile(r"\\s\\s+")', '    _white_spaces = re.compile(r"[ \\t\\n]{2,}")')],
  demo='''
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
docs = ["ab\\u00a0\\u00a0cd", "x\\r\\r\\ry  z"]
m = CountVectorizer(analyzer="char", ngram_range=(1, 3)).fit(docs)
p = convert_estimator(m)
assert p.transform(docs).todense() == m.transform(docs).toarray().tolist()
'''),
 dict(id="d16-many-removed", property="C16", needs="more than sixteen columns without a statistic",
  what="only the first sixteen columns without a statistic are dropped",
  edits=[(P + "impute/_base.py", "                X = [[a[i] for i in range(len(a)) if i not in to_remove] for a in X]", "                X = [[a[i] for i in range(len(a)) if i not in to_remove[:16]] for a in X]")],
  demo='''
import numpy as np
from sklearn.impute import SimpleImputer
from pure_sklearn.map import convert_estimator
nan = float("nan")
X = [[nan] * 18 + [1.0, 2.0], [nan] * 18 + [3.0, nan]]
m = SimpleImputer().fit(X)
p = convert_estimator(m)
assert np.allclose(p.transform(X), m.transform(X))
'''),
 dict(id="d22-scaler-dtype", property="C22", needs="a sparse container of whole numbers",
  what="the scaled values of a sparse container are cast back to the container's own type",
  edits=[(P + "preprocessing/_data.py", "            if self.scale_ is not None:\n                X_ = [{k: (v / self.scale_[k]) for k, v in x.items()} for x in X]", "            if self.scale_ is not None:\n                X_ = [{k: X.dtype(v / self.scale_[k]) for k, v in x.items()} for x in X]")],
  demo='''
import numpy as np
from sklearn.preprocessing import StandardScaler
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
X = [[0, 1, 3], [2, 0, 5], [4, 7, 0]]
m = StandardScaler(with_mean=False).fit(np.array(X, dtype=float))
p = convert_estimator(m)
assert np.allclose(p.transform(sparse_list(X)).todense(), p.transform(X))
'''),
 dict(id="d21-step-name", property="C21", needs="a pipeline with a step that is named passthrough",
  what="steps named passthrough are skipped, whatever their transformer",
  edits=[(P + "pipeline.py", '            elif trans is not None and trans != "passthrough":\n                yield idx', '            elif trans not in (None, "passthrough") and name != "passthrough":\n                yield idx')],
  demo='''
import numpy as np
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler, Normalizer
from pure_sklearn.map import convert_estimator
X = [[0.0, 1.0], [2.0, 5.0], [4.0, 7.0]]
m = Pipeline([("passthrough", StandardScaler()), ("n", Normalizer())]).fit(X)
p = convert_estimator(m)
assert np.allclose(p.transform(X), m.transform(X))
'''),
 dict(id="d21-tenth-part", property="C21", needs="a union of more than ten parts with a sparse one among them",
  what="the columns of the eleventh and later sparse parts of a union are shifted by one",
  edits=[(P + "pipeline.py", "            start_indices = [0] + list(accumu(sizes))", "            start_indices = [0] + [s + n // 10 for n, s in enumerate(accumu(sizes), 1)]")],
  demo='''
import numpy as np
from sklearn.pipeline import FeatureUnion
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
docs = ["aa bb cc", "bb dd"]
m = FeatureUnion([("p%d" % i, CountVectorizer()) for i in range(12)]).fit(docs)
p = convert_estimator(m)
assert p.transform(docs).todense() == m.transform(docs).toarray().tolist()
'''),
 dict(id="d05-onehot-bools", property="C05", needs="a column whose categories are False and True, given as numbers",
  what="the encoder normalises truth values in the caller's rows",
  edits=[(P + "preprocessing/_encoders.py", "            Xi = self._get_feature(X, feature_idx=i)", "            if self.categories_[i] == [False, True]:\n                for row in X:\n                    row[i] = bool(row[i])\n            Xi = self._get_feature(X, feature_idx=i)")],
  demo='''
import copy
import numpy as np
from sklearn.preprocessing import OneHotEncoder
from pure_sklearn.map import convert_estimator
m = OneHotEncoder(handle_unknown="ignore").fit(np.array([[False, "a"], [True, "b"]], dtype=object))
p = convert_estimator(m)
X = [[1, "a"], [0, "b"]]
p.transform(X)
assert [[type(v) for v in r] for r in X] == [[int, str], [int, str]], X
'''),
 dict(id="d06-leaf-rows", property="C06", needs="two rows of the batch that reach the same leaf, and a caller that edits one of the results",
  what="rows that reach the same leaf share one probability list",
  edits=[(P + "tree/_classes.py", "        return [self._get_proba_from_leaf_node(x) for x in leaves]", "        probas = {x: self._get_proba_from_leaf_node(x) for x in set(leaves)}\n        return [probas[x] for x in leaves]")],
  demo='''
import numpy as np
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
X = [[0.0], [1.0], [2.0], [3.0]]
m = DecisionTreeClassifier(max_depth=1).fit(X, [0, 0, 1, 1])
p = convert_estimator(m)
out = p.predict_proba(X)
out[0][0] = 99.0
assert out[1] == [1.0, 0.0], out
'''),
 dict(id="d36-linear-proba", property="C36", needs="a caller that asks a linear model without probabilities for them",
  what="every linear classifier answers predict_proba",
  edits=[(P + "linear_model/_base.py", "    def predict(self, X):", "    @property\n    def predict_proba(self):\n        return self._predict_proba_lr\n\n    def predict(self, X):")],
  demo='''
import numpy as np
from sklearn.linear_model import RidgeClassifier
from pure_sklearn.map import convert_estimator
m = RidgeClassifier().fit([[0.0], [1.0], [2.0], [3.0]], [0, 0, 1, 1])
p = convert_estimator(m)
assert not hasattr(m, "predict_proba")
try:
    p.predict_proba([[1.0]])
except AttributeError:
    sys.exit(0)
sys.exit(1)
'''),
]
