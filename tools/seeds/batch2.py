T = "pure_sklearn/feature_extraction/text.py"
P = "pure_sklearn/"
SEEDS = [
 dict(id="c01-lazy-numpy", property="C01", needs="a document that is not a string, in a deployment where numpy is absent",
  what="documents that are not strings are checked through numpy at prediction time",
  edits=[(T, "if not isinstance(doc, str) and isnan(doc):", 'if not isinstance(doc, str) and __import__("numpy").isnan(doc):')],
  demo='''
import subprocess, textwrap, tempfile, pickle
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
p = convert_estimator(CountVectorizer().fit(["some text here"]))
with tempfile.NamedTemporaryFile(suffix=".pkl") as f:
    f.write(pickle.dumps(p)); f.flush()
    code = textwrap.dedent("""
        import sys, pickle
        for m in ("numpy", "scipy", "sklearn"):
            sys.modules[m] = None
        sys.path.insert(0, %r)
        p = pickle.load(open(%r, "rb"))
        try:
            p.transform([float("nan")])
        except ValueError:
            sys.exit(0)
        sys.exit(1)
    """ % (os.getcwd(), f.name))
    r = subprocess.run([sys.executable, "-c", code])
assert r.returncode == 0
'''),
 dict(id="c02-numeric-keys", property="C02", needs="a fitted attribute that is a dict keyed by something else than a string and holding unconverted values under it",
  what="check_types no longer looks at the keys of dictionaries, so numpy keys stay in converted models",
  edits=[(P + "utils.py", "                check_types(k)\n                check_types(v)", "                check_types(v)")],
  demo='''
import numpy as np
from sklearn.feature_extraction import DictVectorizer
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import check_types
m = DictVectorizer().fit([{"a": 1.0, "b": 2.0}])
m.vocabulary_ = {np.str_(k): v for k, v in m.vocabulary_.items()}
try:
    p = convert_estimator(m)
except ValueError:
    sys.exit(0)
def walk(o):
    if isinstance(o, dict):
        for k, v in o.items(): walk(k); walk(v)
    elif isinstance(o, (list, tuple)):
        for v in o: walk(v)
    elif hasattr(o, "__dict__"):
        walk(vars(o))
    else:
        assert type(o).__module__ != "numpy", o
walk(vars(p))
'''),
 dict(id="c04-bagging-memo", property="C04", needs="the same list object passed twice to predict_log_proba of a bagging model, changed in between",
  what="bagging remembers the log probabilities of the last input by object identity",
  edits=[(P + "ensemble/_bagging.py", "    def predict_log_proba(self, X):\n        return apply_2d(self.predict_proba(X), safe_log)", "    def predict_log_proba(self, X):\n        if getattr(self, \"_last_X\", None) is not X:\n            self._last_X, self._last_log = X, apply_2d(self.predict_proba(X), safe_log)\n        return self._last_log")],
  demo='''
import numpy as np
from sklearn.ensemble import RandomForestClassifier
from pure_sklearn.map import convert_estimator
r = np.random.RandomState(0)
X = r.randn(60, 3); y = (X[:, 0] > 0).astype(int)
p = convert_estimator(RandomForestClassifier(n_estimators=5, random_state=0).fit(X, y))
q = convert_estimator(RandomForestClassifier(n_estimators=5, random_state=0).fit(X, y))
A = [[3.0, 0.0, 0.0]]
p.predict_log_proba(A)
A[0] = [-3.0, 0.0, 0.0]
assert p.predict_log_proba(A) == q.predict_log_proba([[-3.0, 0.0, 0.0]])
'''),
 dict(id="c06-leaf-alias", property="C06", needs="a classification tree whose leaf values already sum to one",
  what="predict_proba of a tree hands out the list stored in the model when a leaf's values already sum to one",
  edits=[(P + "tree/_classes.py", "        return [a / sum(self.value_[node_id]) for a in self.value_[node_id]]", "        value = self.value_[node_id]\n        total = sum(value)\n        return value if total == 1 else [a / total for a in value]")],
  demo='''
import numpy as np
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
m = DecisionTreeClassifier(random_state=0).fit([[0.0], [1.0]], [0, 1])
p = convert_estimator(m)
a = p.predict_proba([[0.0]])
assert sum(m.tree_.value[1][0]) == 1
before = [list(x) for x in a]
a[0][1] = 9.0
assert p.predict_proba([[0.0]]) == before
'''),
 dict(id="c07-mask-batch", property="C07", needs="a batch with more than eight different categories never seen in fitting",
  what="unknown categories beyond the eighth of a batch are taken for known ones",
  edits=[(P + "preprocessing/_label.py", "            valid_mask = [val in uniques_set for val in values]", "            valid_mask = [val not in diff[:8] for val in values]")],
  demo='''
import numpy as np
from sklearn.preprocessing import OneHotEncoder
from pure_sklearn.map import convert_estimator
m = OneHotEncoder(handle_unknown="ignore").fit(np.array([["a"], ["b"]], dtype=object))
p = convert_estimator(m)
rows = [["u%d" % i] for i in range(12)] + [["b"]]
single = [p.transform([r])[0] for r in rows]
assert [dict(x) for x in p.transform(rows)] == [dict(x) for x in single]
'''),
 dict(id="c08-gb-half", property="C08", needs="a two-class gradient boosting model and a row whose two probabilities are equal",
  what="equal probabilities are labelled with the second class",
  edits=[(P + "ensemble/_gb.py", "        return [self.classes_[a.index(max(a))] for a in proba]", "        return [self.classes_[int(a[1] >= 0.5) if len(a) == 2 else a.index(max(a))] for a in proba]")],
  demo='''
import numpy as np
from sklearn.ensemble import GradientBoostingClassifier
from pure_sklearn.map import convert_estimator
X = np.array([[0.0], [0.0], [0.0], [0.0]]); y = np.array(["a", "b", "a", "b"])
m = GradientBoostingClassifier(n_estimators=3, random_state=0).fit(X, y)
p = convert_estimator(m)
pr = p.predict_proba([[0.0]])[0]
assert pr[0] == pr[1]
assert p.predict([[0.0]]) == [p.classes_[pr.index(max(pr))]]
'''),
 dict(id="c09-log-clip", property="C09", needs="a class probability of exactly zero or below 1e-15",
  what="log probabilities of a logistic regression are bounded below",
  edits=[(P + "linear_model/_logistic.py", "        return [list(map(safe_log, a)) for a in self.predict_proba(X)]", "        return [[safe_log(max(p, 1e-15)) for p in a] for a in self.predict_proba(X)]")],
  demo='''
import numpy as np
from sklearn.linear_model import LogisticRegression
from pure_sklearn.map import convert_estimator
from pure_sklearn.base import safe_log
X = np.array([[-1.0], [1.0], [2.0], [-3.0]])
p = convert_estimator(LogisticRegression(C=1e4).fit(X, [0, 1, 1, 0]))
A = [[-50.0], [60.0]]
pr = p.predict_proba(A)
assert min(map(min, pr)) < 1e-15
assert p.predict_log_proba(A) == [[safe_log(v) for v in a] for a in pr]
'''),
 dict(id="c11-sparse-dot", property="C11", needs="a sparse row with a negative stored value",
  what="negative stored values do not contribute to the decision score of sparse rows",
  edits=[(P + "base.py", "            val = sum([v * B[i][k] for k, v in A.items()])", "            val = sum([v * B[i][k] for k, v in A.items() if v > 0])")],
  demo='''
import numpy as np
from sklearn.linear_model import LogisticRegression
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
r = np.random.RandomState(0)
X = r.randn(60, 4); y = (X[:, 0] + X[:, 1] > 0).astype(int)
m = LogisticRegression().fit(X, y)
p = convert_estimator(m)
A = X[:8].tolist()
assert np.allclose(p.predict_proba(sparse_list(A)), m.predict_proba(X[:8]))
'''),
 dict(id="c12-threshold-round", property="C12", needs="a tree threshold with more than ten decimals and a value between it and its rounded form",
  what="thresholds are rounded when a tree is converted",
  edits=[(P + "tree/_classes.py", "            self.threshold_ = estimator.tree_.threshold.tolist()", "            self.threshold_ = [round(t, 10) for t in estimator.tree_.threshold.tolist()]")],
  demo='''
import numpy as np
from sklearn.tree import DecisionTreeRegressor
from pure_sklearn.map import convert_estimator
a, b = np.float32(0.1), np.nextafter(np.float32(0.1), np.float32(1))
for k in range(200):
    c = np.nextafter(b, np.float32(1))
    m = DecisionTreeRegressor(random_state=0).fit(np.array([[a - np.float32(0.5)], [b], [c], [c + np.float32(0.5)]]), [0.0, 1.0, 2.0, 3.0])
    p = convert_estimator(m)
    A = np.array([[b], [c]])
    for t, f in zip(m.tree_.threshold, m.tree_.feature):
        if f >= 0:
            A = np.vstack([A, [[np.float32(t)]]])
    A = A[[float(v) not in [float(t) for t in m.tree_.threshold] or True for v in A[:, 0]]]
    assert p.predict(A.tolist()) == m.predict(A).tolist(), (A, m.tree_.threshold)
    a, b = b, c
s = np.float32(1e-3)
for k in range(50):
    u = np.nextafter(s, np.float32(1))
    m = DecisionTreeRegressor(random_state=0, min_samples_leaf=1).fit(np.array([[s], [np.float32(s + 4e-7)]]), [1.0, 2.0])
    p = convert_estimator(m)
    A = [[float(np.float32(m.tree_.threshold[0]))], [float(m.tree_.threshold[0])]]
    m_ = m.tree_.threshold[0]
    want = [1.0 if v[0] <= m_ else 2.0 for v in A]
    assert p.predict(A) == want
    s = np.float32(s + np.float32(1.37e-6))
'''),
 dict(id="c12-leaf-sentinel", property="C12", needs="an inner node whose threshold is exactly -2",
  what="nodes whose threshold is -2 are taken for leaves",
  edits=[(P + "tree/_classes.py", "            if self.children_left_[node_id] == self.children_right_[node_id]:", "            if self.threshold_[node_id] == -2:")],
  demo='''
import numpy as np
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
m = DecisionTreeClassifier(random_state=0).fit([[-3.0], [-1.0]], [0, 1])
assert m.tree_.threshold[0] == -2.0
p = convert_estimator(m)
assert p.predict([[-3.0], [-1.0]]) == [0, 1]
'''),
 dict(id="c13-gb-class-cap", property="C13", needs="a gradient boosting model with more than three classes",
  what="the trees of the third class are used for every later class",
  edits=[(P + "ensemble/_gb.py", "                preds = self.estimators_[index][k].predict(X)", "                preds = self.estimators_[index][min(k, 2)].predict(X)")],
  demo='''
import numpy as np
from sklearn.ensemble import GradientBoostingClassifier
from pure_sklearn.map import convert_estimator
r = np.random.RandomState(0)
X = r.randn(80, 3); y = r.randint(0, 5, 80)
m = GradientBoostingClassifier(n_estimators=4, random_state=0).fit(X, y)
p = convert_estimator(m)
assert np.allclose(m.predict_proba(X), p.predict_proba(X.tolist()))
'''),
 dict(id="c14-nb-variance-floor", property="C14", needs="a class whose features vary by less than 1e-9",
  what="gaussian naive bayes puts a floor of 1e-9 under the fitted variances in the exponent",
  edits=[(P + "naive_bayes.py", "lambda b: ((a[b] - self.theta_[i][b]) ** 2) / self.sigma_[i][b],", "lambda b: ((a[b] - self.theta_[i][b]) ** 2) / max(self.sigma_[i][b], 1e-9),")],
  demo='''
import numpy as np
from sklearn.naive_bayes import GaussianNB
from pure_sklearn.map import convert_estimator
r = np.random.RandomState(0)
X = r.randn(40, 2) * 1e-6; y = r.randint(0, 2, 40)
m = GaussianNB().fit(X, y)
p = convert_estimator(m)
assert np.allclose(m.predict_proba(X), p.predict_proba(X.tolist()), atol=1e-6)
'''),
 dict(id="c15-l2-tiny", property="C15", needs="a row whose norm, or a feature whose range, is non-zero but below 1e-8",
  what="very small scales are replaced by one",
  edits=[(P + "preprocessing/_data.py", "(1.0 if scale[i] == 0.0 else scale[i])", "(1.0 if abs(scale[i]) < 1e-8 else scale[i])")],
  demo='''
import numpy as np
from sklearn.preprocessing import Normalizer
from pure_sklearn.map import convert_estimator
X = np.array([[3e-10, -4e-10], [0.5, 0.2]])
m = Normalizer(norm="l2").fit(X)
assert np.allclose(m.transform(X), convert_estimator(m).transform(X.tolist()))
'''),
 dict(id="c16-missing-str", property="C16", needs="a missing-value marker and a feature value that print alike but differ in type",
  what="missing values are recognised by their printed form",
  edits=[(P + "impute/_base.py", "        return val == missing_values", "        return str(val) == str(missing_values)")],
  demo='''
import numpy as np
from sklearn.impute import SimpleImputer
from pure_sklearn.map import convert_estimator
X = np.array([[1.0, -1.0], [2.0, 5.0], [-1.0, 4.0]])
m = SimpleImputer(missing_values=-1, strategy="mean").fit(X)
p = convert_estimator(m)
assert np.allclose(m.transform(X), p.transform(X.tolist()))
'''),
 dict(id="c17-unknown-column", property="C17", needs="an unknown category in a later column whose categories are of another type, in the same batch as known ones",
  what="unknown values of every column are replaced by the first column's first category before encoding",
  edits=[(P + "preprocessing/_encoders.py", "                        Xi[idx] if valid_mask[idx] else self.categories_[i][0]", "                        Xi[idx] if valid_mask[idx] else self.categories_[0][0]")],
  demo='''
import numpy as np
from sklearn.preprocessing import OneHotEncoder
from pure_sklearn.map import convert_estimator
X = np.array([["a", 3], ["b", 4]], dtype=object)
m = OneHotEncoder(handle_unknown="ignore", sparse=False).fit(X)
p = convert_estimator(m)
A = [["a", 9], ["z", 4]]
got = p.transform(A)
got = got.todense() if hasattr(got, "todense") else got
assert np.allclose(m.transform(np.array(A, dtype=object)), got)
'''),
 dict(id="c18-tfidf-single", property="C18", needs="a batch in which no document has more than one known term",
  what="tf-idf skips normalisation when no row of the batch has two terms",
  edits=[(T, "        if self.norm:\n            X = normalize_pure(X, norm=self.norm, copy=False)", "        if self.norm and any(len(x) > 1 for x in X):\n            X = normalize_pure(X, norm=self.norm, copy=False)")],
  demo='''
import numpy as np
from sklearn.feature_extraction.text import TfidfVectorizer
from pure_sklearn.map import convert_estimator
m = TfidfVectorizer().fit(["red green", "green blue", "blue red sky"])
p = convert_estimator(m)
for docs in (["red"], ["sky", "blue unknown"], ["red sky"]):
    assert np.allclose(m.transform(docs).toarray(), p.transform(docs).todense())
'''),
 dict(id="c19-hash-blocks", property="C19", needs="a feature name longer than 64 bytes whose length is a multiple of four",
  what="the last block of long names is left out of the hash",
  edits=[(P + "feature_extraction/_hash.py", "    nblocks = int(length / 4)", "    nblocks = int((length - 1) / 4) if length > 64 else int(length / 4)")],
  demo='''
import numpy as np
from sklearn.feature_extraction import FeatureHasher
from pure_sklearn.feature_extraction._hash import _FeatureHasherPure as FeatureHasherPure
m = FeatureHasher(n_features=64, input_type="dict")
p = FeatureHasherPure(n_features=64, input_type="dict")
for n in range(60, 90):
    d = [{"x" * n + "y": 1.0, "k%d" % n: 2.0, "z" * (n - 1): 3.0}]
    assert np.allclose(m.transform(d).toarray(), p.transform(d).todense()), n
'''),
 dict(id="c20-wb-short", property="C20", needs="a padded word exactly one character longer than the n-gram length, with a range of lengths",
  what="char_wb counts short words once too early",
  edits=[(T, "                if offset == 0:  # count", "                if offset <= 1:  # count")],
  demo='''
import numpy as np
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
docs = ["a bb ccc dddd eeeee", "ffffff a bb"]
m = CountVectorizer(analyzer="char_wb", ngram_range=(2, 5)).fit(docs)
p = convert_estimator(m)
assert np.allclose(m.transform(docs).toarray(), p.transform(docs).todense())
'''),
 dict(id="c21-pipe-steps", property="C21", needs="a transforming pipeline of four or more steps",
  what="pipelines of four or more steps leave out the last transformer",
  edits=[(P + "pipeline.py", "        for _, _, transform in self._iter():\n            Xt", "        for _, _, transform in self._iter(with_final=len(self.steps) < 4):\n            Xt")],
  demo='''
import numpy as np
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler, MinMaxScaler, MaxAbsScaler, Normalizer
from pure_sklearn.map import convert_estimator
X = np.random.RandomState(0).randn(20, 3)
m = Pipeline([("a", StandardScaler()), ("b", MinMaxScaler()), ("c", MaxAbsScaler()), ("d", Normalizer())]).fit(X)
assert np.allclose(m.transform(X), convert_estimator(m).transform(X.tolist()))
'''),
 dict(id="c23-union-width", property="C23", needs="a sparse union whose first row has no value in the last columns",
  what="the width of a sparse union is guessed from the first row",
  edits=[(P + "pipeline.py", "            return sparse_list(X_total, size=sum(sizes), dtype=float)", "            return sparse_list(X_total, size=start_indices[-2] + max(Xs[-1][0], default=-1) + 1, dtype=float)")],
  demo='''
import numpy as np
from sklearn.pipeline import FeatureUnion
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
docs = ["red green blue", "sky sea"]
m = FeatureUnion([("a", CountVectorizer()), ("b", CountVectorizer(ngram_range=(1, 2)))]).fit(docs)
p = convert_estimator(m)
for q in (["red"], ["unknown"], docs):
    assert np.allclose(m.transform(q).toarray(), p.transform(q).todense())
    assert p.transform(q).size == m.transform(q).shape[1]
'''),
 dict(id="c25-drop-array", property="C25", needs="a one-hot encoder fitted with drop given as an array or 'if_binary'",
  what="only drop='first' is refused by the conversion, other uses of drop are converted and ignored",
  edits=[(P + "preprocessing/_encoders.py", "(estimator.drop is not None):", '(estimator.drop == "first"):')],
  demo='''
import numpy as np
from sklearn.preprocessing import OneHotEncoder
from pure_sklearn.map import convert_estimator
X = np.array([["a", "c"], ["b", "d"], ["a", "e"]], dtype=object)
for drop in ("first", "if_binary", np.array(["a", "c"], dtype=object)):
    m = OneHotEncoder(drop=drop).fit(X)
    try:
        p = convert_estimator(m)
    except ValueError:
        continue
    assert np.allclose(p.transform(X.tolist()).todense(), m.transform(X).toarray())
'''),
 dict(id="c29-vector-norm", property="C29", needs="a word vector whose norm is below 1e-4",
  what="short vectors are divided by 1e-4 instead of their own norm",
  edits=[("pure_fasttext/FastText.py", "        return list(map(lambda x: x * (1.0 / norm_value), arr))", "        return list(map(lambda x: x / max(norm_value, 1e-4), arr))")],
  demo='''
from math import sqrt
from pure_fasttext.FastText import _FastText
m = _FastText.__new__(_FastText)
m.supervised_ = False
m.words_ = ["red", "green"]
m.input_matrix_ = [[3e-7, 4e-7], [0.3, 0.4]]
m.dim_ = 2
v = m.get_sentence_vector("red")
assert abs(sqrt(sum(x * x for x in v)) - 1.0) < 1e-9, v
'''),
 dict(id="c30-threshold", property="C30", needs="k smaller than the number of labels at or above the threshold, and a tie or a label exactly at the threshold",
  what="a label whose probability equals the threshold is left out when k is not -1",
  edits=[("pure_fasttext/FastText.py", "        argsorted = [i for i in argsort(preds)[::-1] if preds[i] >= threshold]\n", "        argsorted = [\n            i for i in argsort(preds)[::-1] if preds[i] > threshold or threshold == 0.0\n        ]\n")],
  demo='''
from pure_fasttext.FastText import _FastText
m = _FastText.__new__(_FastText)
m.supervised_ = True
m.words_ = ["red", "green", "</s>"]
m.input_matrix_ = [[1.0, 0.0], [0.0, 1.0], [0.0, 0.0]]
m.output_matrix_ = [[0.0, 0.0], [0.0, 0.0]]
m.labels_ = ["__label__a", "__label__b"]
m.loss_ = "softmax"
m.dim_ = 2
labels, probs = m.predict("red", k=2, threshold=0.5)
assert len(labels) == 2 and probs == [0.5, 0.5], (labels, probs)
'''),
 dict(id="c31-sparse-reduce", property="C31", needs="a sparse_list with a dtype other than float pickled and loaded again",
  what="the element type of sparse lists is lost in pickling",
  edits=[(P + "utils.py", "    def todense(self):", "    def __reduce__(self):\n        return (sparse_list, (list(self), self.size))\n\n    def todense(self):")],
  demo='''
import pickle
from pure_sklearn.utils import sparse_list
s = sparse_list([[0, 2], [1, 0]], dtype=int)
t = pickle.loads(pickle.dumps(s))
assert t.dtype is s.dtype and t.size == s.size and t.todense() == s.todense()
'''),
 dict(id="c32-gb-version", property="C32", needs="a gradient boosting model fitted with scikit-learn 0.20",
  what="the minimum version of gradient boosting is misspelled, so older models convert",
  edits=[(P + "ensemble/_gb.py", '        check_version(estimator, "0.21.0")', '        check_version(estimator, "0.2.10")')],
  demo='''
import numpy as np
from sklearn.ensemble import GradientBoostingClassifier
from pure_sklearn.map import convert_estimator
r = np.random.RandomState(0)
class Old(GradientBoostingClassifier):
    def __getstate__(self):
        d = dict(super().__getstate__())
        d["_sklearn_version"] = "0.20.4"
        return d
Old.__name__ = "GradientBoostingClassifier"
m = Old(n_estimators=2).fit(r.randn(20, 2), r.randint(0, 2, 20))
try:
    convert_estimator(m)
except Exception as e:
    assert "version" in str(e), e
else:
    sys.exit("converted")
'''),
 dict(id="c33-equal-inputs", property="C33", needs="two separate but equal inputs holding a row of zeros",
  what="equal inputs are treated as one input, which sets the diagonal of the distances to zero",
  edits=[(P + "metrics/pairwise.py", "    if X is Y or Y is None:\n        S", "    if X == Y or Y is None:\n        S")],
  demo='''
import numpy as np
from sklearn.metrics.pairwise import cosine_distances
from pure_sklearn.metrics.pairwise import cosine_distances_pure
A = [[0.0, 0.0], [1.0, 2.0]]
B = [list(a) for a in A]
assert np.allclose(cosine_distances_pure(A, B), cosine_distances(A, B))
'''),
 dict(id="c03-borrowed-indicator", property="C03", needs="converting an imputer with a missing-value indicator and using the source imputer afterwards",
  what="the conversion switches off error_on_new on the source estimator's own indicator",
  edits=[(P + "impute/_base.py", "            self.indicator_ = MissingIndicatorPure(estimator.indicator_)\n            self.indicator_.error_on_new = False", "            estimator.indicator_.error_on_new = False\n            self.indicator_ = MissingIndicatorPure(estimator.indicator_)")],
  demo='''
import copy
import numpy as np
from sklearn.impute import SimpleImputer
from pure_sklearn.map import convert_estimator
X = np.array([[1.0, np.nan], [2.0, 3.0], [3.0, 4.0]])
m = SimpleImputer(add_indicator=True).fit(X)
m.indicator_.error_on_new = True
p = convert_estimator(m)
assert m.indicator_.error_on_new is True
'''),
 dict(id="c10-softmax-shift", property="C10", needs="class scores beyond 709 in absolute value",
  what="softmax no longer subtracts the largest score",
  edits=[(P + "base.py", "", "")], demo=None),
 dict(id="c24-indicator-width", property="C24", needs="", what="", edits=[], demo=None),
 dict(id="c27-wrong-name", property="C27", needs="an axis argument other than 0 and 1, given to normalize_pure with a norm it does not know",
  what="the error message of an unsupported norm refers to a name that does not exist",
  edits=[(P + "preprocessing/_data.py", '        raise ValueError("\'%s\' is not a supported norm" % norm)', '        raise ValueError("\'%s\' is not a supported norm" % norms)')],
  demo='''
from pure_sklearn.preprocessing import normalize_pure
try:
    normalize_pure([[1.0]], norm="l3")
except ValueError:
    pass
'''),
 dict(id="c05-bagging-reverse", property="C05", needs="a bagging model one of whose members uses at least two features in decreasing order, and dense input",
  what="feature subsets in decreasing order are taken by reversing the caller's rows in place",
  edits=[(P + "ensemble/_bagging.py", "    if feats is None:\n        return X\n", "    if feats is None:\n        return X\n    elif feats == list(range(len(feats)))[::-1] and not issparse(X) and len(feats) == len(X[0]):\n        return [a.reverse() or a for a in X]\n")],
  demo='''
import numpy as np
from sklearn.ensemble import BaggingClassifier
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
r = np.random.RandomState(0)
X = r.randn(40, 3); y = (X[:, 0] > 0).astype(int)
m = BaggingClassifier(DecisionTreeClassifier(), n_estimators=3, random_state=0).fit(X, y)
i = 1
m.estimators_features_[i] = np.array([2, 1, 0])
m.estimators_[i] = DecisionTreeClassifier(random_state=0).fit(X[:, ::-1], y)
p = convert_estimator(m)
A = X[:5].tolist(); B = [list(a) for a in A]
p.predict_proba(A)
assert A == B
'''),
]
SEEDS = [s for s in SEEDS if s["demo"]]
