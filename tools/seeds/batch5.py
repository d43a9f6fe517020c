T = "pure_sklearn/feature_extraction/text.py"
P = "pure_sklearn/"
F = "pure_fasttext/FastText.py"
SEEDS = [
 dict(id="e25-base-class", property="C25", needs="an estimator class without a counterpart whose base class has one",
  what="a class without a counterpart is converted as the base class it derives from",
  edits=[(P + "map.py", "    pure_est_name = MAPPING.get(est_name)\n", "    names = [cls.__name__ for cls in est.__class__.__mro__]\n    pure_est_name = next((MAPPING[n] for n in names if n in MAPPING), None)\n")],
  demo='''
from sklearn.datasets import load_iris
from sklearn.tree import DecisionTreeClassifier
from pure_sklearn.map import convert_estimator
class Flipped(DecisionTreeClassifier):
    def predict(self, X, check_input=True):
        return 2 - super().predict(X, check_input)
X, y = load_iris(return_X_y=True)
m = Flipped(max_depth=2, random_state=0).fit(X, y)
try:
    p = convert_estimator(m)
except ValueError:
    pass
else:
    assert p.predict(X.tolist()) == m.predict(X).tolist()
'''),
 dict(id="e20-stop-case", property="C20", needs="lowercase=False, a stop list and a capitalised stop word in a document",
  what="stop words are removed whatever their case",
  edits=[(T, "            tokens = [w for w in tokens if w not in stop_words]", "            tokens = [w for w in tokens if w.lower() not in stop_words]")],
  demo='''
from sklearn.feature_extraction.text import CountVectorizer
from pure_sklearn.map import convert_estimator
docs = ["The cat and the dog", "the THE bird"]
m = CountVectorizer(lowercase=False, stop_words=["the", "and"]).fit(docs)
p = convert_estimator(m)
assert p.transform(docs).todense() == m.transform(docs).toarray().tolist()
'''),
 dict(id="e29-strip", property="C29", needs="a text that starts or ends with a no-break space or another blank that does not separate words",
  what="blanks that belong to a word are stripped from the ends of the text",
  edits=[(F, '        text += "\\n"\n', '        text = text.strip() + "\\n"\n')],
  demo='''
from pure_fasttext import FastText
m = FastText.__new__(FastText)
m.supervised_, m.dim_ = True, 2
m.words_ = ["</s>", "a", "a\\u00a0"]
m.input_matrix_ = [[0.5, 1.0], [1.0, -1.0], [4.0, 8.0]]
assert m.get_sentence_vector("a\\u00a0") == [2.25, 4.5]
'''),
 dict(id="e19-cancelled", property="C19", needs="two terms of opposite sign in the same column, and binary counts",
  what="a column whose terms cancel out is removed from the row, so that a binary vectorizer does not set it",
  edits=[(P + "feature_extraction/_hash.py", "            row[index] = row.get(index, 0) + value\n", "            row[index] = row.get(index, 0) + value\n            if row[index] == 0:\n                del row[index]\n")],
  demo='''
import numpy as np
from sklearn.feature_extraction.text import HashingVectorizer
from pure_sklearn.map import convert_estimator
docs = ["a%d b%d c%d d%d" % (i, i, i, i) for i in range(40)]
m = HashingVectorizer(n_features=3, binary=True, norm=None)
p = convert_estimator(m)
assert np.allclose(p.transform(docs).todense(), m.transform(docs).toarray())
'''),
 dict(id="e33-clip-one", property="C33", needs="vectors with a negative cosine",
  what="cosine distances are clipped to one instead of two",
  edits=[(P + "metrics/pairwise.py", "_clip(-x + 1, 0, 2)", "_clip(-x + 1, 0, 1)")],
  demo='''
import numpy as np
from sklearn.metrics.pairwise import cosine_distances
from pure_sklearn.metrics.pairwise import cosine_distances_pure
X, Y = [[1.0, 2.0], [-3.0, 0.5]], [[-1.0, -2.0], [0.25, -1.0]]
assert np.allclose(cosine_distances_pure(X, Y), cosine_distances(X, Y))
'''),
 dict(id="e24-tuple", property="C24", needs="a tuple of rows in place of the list",
  what="a batch given as a tuple is accepted",
  edits=[(P + "utils.py", "    if not isinstance(X, list):", "    if not isinstance(X, (list, tuple)):")],
  demo='''
from sklearn.datasets import load_iris
from sklearn.preprocessing import MinMaxScaler
from pure_sklearn.map import convert_estimator
X, y = load_iris(return_X_y=True)
p = convert_estimator(MinMaxScaler().fit(X))
try:
    p.transform(tuple(X.tolist()))
except TypeError:
    pass
else:
    raise SystemExit("accepted")
'''),
]
