SEEDS = [
 dict(id="b01-tree-threshold", property="C12", needs="a row whose tested feature equals the node's threshold exactly",
  what="values equal to a threshold are routed to the right child when the threshold is stored as an integer-valued float and the value is zero-padded in a sparse row",
  edits=[("pure_sklearn/tree/_classes.py", "left_equal = lambda nd: x.get(self.feature_[nd], 0.0)", "left_equal = lambda nd: x.get(self.feature_[nd], self.threshold_[nd])")],
  demo='''
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
from pure_sklearn.utils import sparse_list
import numpy as np
X = np.array([[3.0, 1.0], [2.5, 0.0], [-2.0, 1.0], [-3.0, 0.5]] * 5)
y = np.array([0, 0, 1, 1] * 5)
m = DecisionTreeClassifier(random_state=0).fit(X, y)
p = convert_estimator(m)
m.tree_.threshold[0]
X2 = np.array([[-1.0, 1.0], [0.0, 0.0], [5.0, 0.0]])
m2 = DecisionTreeClassifier(random_state=0).fit(np.array([[-4.0], [-2.0]]), [0, 1])
p2 = convert_estimator(m2)
a = p2.predict(sparse_list([[0.0], [-5.0]]))
b = p2.predict([[0.0], [-5.0]])
assert a == b, (a, b)
'''),
 dict(id="b02-linear-tie", property="C08", needs="a two-class linear model and a row whose decision score is exactly zero",
  what="a score of exactly zero is labelled with the second class",
  edits=[("pure_sklearn/linear_model/_base.py", "indices = map(lambda x: int(x > 0), scores)", "indices = map(lambda x: int(x >= 0), scores)")],
  demo='''
import numpy as np
from sklearn.linear_model import LogisticRegression
from pure_sklearn.map import convert_estimator
m = LogisticRegression(solver="lbfgs", fit_intercept=False).fit(np.array([[1.0, 0], [-1.0, 0], [2.0, 1], [-2.0, -1]]), ["yes", "no", "yes", "no"])
p = convert_estimator(m)
assert p.predict([[0.0, 0.0]]) == m.predict([[0.0, 0.0]]).tolist()
'''),
 dict(id="b03-nb-shared-state", property="C04", needs="a call of predict_proba followed by another call on the same model",
  what="the transposed log-likelihoods are accumulated in a list kept on the model, so later calls see the class rows of earlier ones",
  edits=[("pure_sklearn/naive_bayes.py", "        joint_log_likelihood = []\n        for i in range(len(self.classes_)):", "        joint_log_likelihood = self.__dict__.setdefault(\"_jll_rows\", [])\n        for i in range(len(joint_log_likelihood), len(self.classes_)):")],
  demo='''
import numpy as np
from sklearn.naive_bayes import GaussianNB
from pure_sklearn.map import convert_estimator
r = np.random.RandomState(0)
X = r.randn(40, 3); y = r.randint(0, 3, 40)
p = convert_estimator(GaussianNB().fit(X, y))
a = p.predict_proba(X[:4].tolist())
b = p.predict_proba(X[4:8].tolist())
q = convert_estimator(GaussianNB().fit(X, y))
assert b == q.predict_proba(X[4:8].tolist())
'''),
 dict(id="b04-gb-lr-last", property="C13", needs="a multi-class gradient boosting model with more stages than classes",
  what="gradient boosting drops the stages beyond the first hundred",
  edits=[("pure_sklearn/ensemble/_gb.py", "for index in range(len(self.estimators_)):", "for index in range(min(len(self.estimators_), 100)):")],
  demo='''
import numpy as np
from sklearn.ensemble import GradientBoostingClassifier
from pure_sklearn.map import convert_estimator
r = np.random.RandomState(0)
X = r.randn(60, 3); y = r.randint(0, 2, 60)
m = GradientBoostingClassifier(n_estimators=120, max_depth=1, random_state=0).fit(X, y)
p = convert_estimator(m)
assert np.allclose(m.predict_proba(X), p.predict_proba(X.tolist()))
'''),
 dict(id="b05-bag-mean", property="C13", needs="a bagging model with members over feature subsets and a single member",
  what="the mean over members divides by one more than the number of members when each member has its own feature subset",
  edits=[("pure_sklearn/ensemble/_bagging.py", "func = lambda x: x / float(len(self.estimators_))", "func = lambda x: x / float(len(getattr(self, \"estimators_features_\", self.estimators_)) or 1) if len(self.estimators_) > 2 else x / 2.0")],
  demo='''
import numpy as np
from sklearn.ensemble import BaggingClassifier
from pure_sklearn.map import convert_estimator
r = np.random.RandomState(0)
X = r.randn(60, 3); y = r.randint(0, 2, 60)
m = BaggingClassifier(n_estimators=1, random_state=0).fit(X, y)
p = convert_estimator(m)
assert np.allclose(m.predict_proba(X), p.predict_proba(X.tolist()))
'''),
 dict(id="b06-dummy-strategy", property="C25", needs="a dummy classifier with strategy most_frequent",
  what="most_frequent models are accepted and then predict probabilities with prior semantics",
  edits=[("pure_sklearn/dummy.py", 'if self._strategy != "prior":', 'if self._strategy not in ("prior", "most_frequent"):')],
  demo='''
from sklearn.dummy import DummyClassifier
from pure_sklearn.map import convert_estimator
m = DummyClassifier(strategy="most_frequent").fit([[0], [1], [2]], [0, 1, 1])
try:
    p = convert_estimator(m)
except ValueError:
    sys.exit(0)
assert p.predict_proba([[0]]) == m.predict_proba([[0]]).tolist()
'''),
 dict(id="b07-normalize-inplace", property="C05", needs="a dense input to a Normalizer created with copy=False",
  what="dense rows are scaled in place when the caller's copy flag is off",
  edits=[("pure_sklearn/preprocessing/_data.py", """        X = [
            list(map(lambda a: a / float(norms[index]), X[index]))
            for index in range(len(X))
        ]
""", """        rows = X if not copy else [list(x) for x in X]
        for index in range(len(rows)):
            rows[index][:] = [a / float(norms[index]) for a in rows[index]]
        X = rows
""")],
  demo='''
from sklearn.preprocessing import Normalizer
from pure_sklearn.map import convert_estimator
p = convert_estimator(Normalizer(copy=False).fit([[1.0, 2.0]]))
X = [[3.0, 4.0]]
p.transform(X)
assert X == [[3.0, 4.0]]
'''),
 dict(id="b08-sgd-proba", property="C26", needs="an ExtraTreeRegressor or ExtraTreesClassifier nested in another estimator",
  what="ExtraTreesClassifier converts to the random forest class",
  edits=[("pure_sklearn/map.py", '"ExtraTreesClassifier": "pure_sklearn.ensemble.ExtraTreesClassifierPure"', '"ExtraTreesClassifier": "pure_sklearn.ensemble.RandomForestClassifierPure"')],
  demo='''
from sklearn.ensemble import ExtraTreesClassifier
from pure_sklearn.map import convert_estimator
p = convert_estimator(ExtraTreesClassifier(n_estimators=2).fit([[0], [1], [2]], [0, 1, 1]))
assert type(p).__name__ == "ExtraTreesClassifierPure"
'''),
]
