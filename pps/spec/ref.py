"""Reference formulas, written from the documentation of the fitted parameters (never from the analysed code).
They are not run: the analyser turns them into value graphs, the oracle the analysed methods are compared with."""
import math
import re
import unicodedata


def exp_(x):
    if x > 709.78:
        return float("inf")
    return math.exp(x)


def log_(x):
    if x == 0:
        return -float("inf")
    return math.log(x)


def logistic(x):
    return 1.0 / (1.0 + exp_(-x))


def argmax(v):
    best = 0
    for i in range(len(v)):
        if v[i] > v[best]:
            best = i
    return best


def log2d(P):
    return [[log_(p) for p in r] for r in P]


def softmax(v):
    m = max(v)
    e = [exp_(x - m) for x in v]
    s = sum(e)
    return [x / s for x in e]


def normalise(v):
    s = sum(v)
    if s == 0:
        return [float("nan") for x in v]
    return [x / s for x in v]


def lse(v):
    m = max(v)
    return m + log_(sum([exp_(x - m) for x in v]))


# ------------------------------------------------------------------ linear
def linear_scores(coef, icpt, X):
    return [[sum([x[j] * coef[c][j] for j in range(len(coef[c]))]) + icpt[c] for c in range(len(coef))] for x in X]


def linear_decision(coef, icpt, X):
    S = linear_scores(coef, icpt, X)
    if len(coef) == 1:
        return [s[0] for s in S]
    return S


def linear_predict(classes, coef, icpt, X):
    S = linear_scores(coef, icpt, X)
    if len(coef) == 1:
        return [classes[1] if s[0] > 0 else classes[0] for s in S]
    return [classes[argmax(s)] for s in S]


def linear_ovr(coef, icpt, X):
    S = linear_scores(coef, icpt, X)
    if len(coef) == 1:
        return [[1 - logistic(s[0]), logistic(s[0])] for s in S]
    return [normalise([logistic(v) for v in s]) for s in S]


def linear_huber(coef, icpt, X):
    S = linear_scores(coef, icpt, X)
    out = []
    for s in S:
        q = [(max(-1.0, min(1.0, v)) + 1) / 2 for v in s]
        if len(coef) == 1:
            out.append([1 - q[0], q[0]])
        elif sum(q) == 0:
            out.append([1.0 / len(q) for x in q])
        else:
            out.append(normalise(q))
    return out


def linear_multinomial(coef, icpt, X):
    S = linear_scores(coef, icpt, X)
    if len(coef) == 1:
        return [softmax([-s[0], s[0]]) for s in S]
    return [softmax(s) for s in S]


# --------------------------------------------------------------- naive Bayes
def nb_finish(classes, jll, what):
    if what == "predict":
        return [classes[argmax(j)] for j in jll]
    lp = [[v - lse(j) for v in j] for j in jll]
    if what == "predict_log_proba":
        return lp
    return [[exp_(v) for v in j] for j in lp]


def gaussian_nb(classes, prior, theta, sigma, X, what):
    jll = []
    for x in X:
        row = []
        for c in range(len(prior)):
            s = log_(prior[c])
            for j in range(len(theta[c])):
                s = s - 0.5 * log_(2.0 * math.pi * sigma[c][j]) - 0.5 * (x[j] - theta[c][j]) ** 2 / sigma[c][j]
            row.append(s)
        jll.append(row)
    return nb_finish(classes, jll, what)


def multinomial_nb(classes, logprior, flp, X, what):
    jll = [[sum([x[j] * flp[c][j] for j in range(len(flp[c]))]) + logprior[c] for c in range(len(logprior))] for x in X]
    return nb_finish(classes, jll, what)


def complement_nb(classes, logprior, flp, X, what):
    jll = [[sum([x[j] * flp[c][j] for j in range(len(flp[c]))]) for c in range(len(logprior))] for x in X]
    if len(logprior) == 1:
        jll = [[r[0] + logprior[0]] for r in jll]
    return nb_finish(classes, jll, what)


def dummy(classes, prior, X, what):
    if what == "predict":
        return [classes[argmax(prior)] for x in X]
    if what == "predict_proba":
        return [[p for p in prior] for x in X]
    return [[log_(p) for p in prior] for x in X]


# --------------------------------------------------------------------- trees
def tree_leaf(left, right, feature, threshold, x):
    node = 0
    while left[node] != right[node]:
        if x[feature[node]] <= threshold[node]:
            node = left[node]
        else:
            node = right[node]
    return node


def tree_class(t, classes, X, what):
    leaves = [tree_leaf(t["left"], t["right"], t["feature"], t["threshold"], x) for x in X]
    V = [t["value"][n][0] for n in leaves]
    if what == "predict":
        return [classes[argmax(v)] for v in V]
    P = [[a / sum(v) for a in v] for v in V]
    if what == "predict_proba":
        return P
    return log2d(P)


def tree_reg(t, X):
    return [t["value"][tree_leaf(t["left"], t["right"], t["feature"], t["threshold"], x)][0][0] for x in X]


def mean_proba(Ps, n, C):
    return [[sum([P[i][k] for P in Ps]) / len(Ps) for k in range(C)] for i in range(n)]


def aligned(P, mclasses, C):
    out = []
    for p in P:
        row = []
        for k in range(C):
            s = 0.0
            for j in range(len(mclasses)):
                if mclasses[j] == k:
                    s = p[j]
            row.append(s)
        out.append(row)
    return out


def sub_rows(X, feats):
    return [[x[j] for j in feats] for x in X]


def finish(classes, P, what):
    if what == "predict":
        return [classes[argmax(p)] for p in P]
    if what == "predict_proba":
        return P
    return log2d(P)


def forest(trees, classes, X, what, sub=False, partial=False):
    Ps = []
    for t in trees:
        Z = sub_rows(X, t["feats"]) if sub else X
        P = tree_class(t, [], Z, "predict_proba")
        Ps.append(aligned(P, t["classes"], len(classes)) if partial else P)
    return finish(classes, mean_proba(Ps, len(X), len(classes)), what)


def bag_linear(members, classes, X, what, binary):
    Ps = []
    for m in members:
        Ps.append(linear_ovr(m["coef"], m["icpt"], sub_rows(X, m["feats"])))
    return finish(classes, mean_proba(Ps, len(X), len(classes)), what)


# --------------------------------------------------------- gradient boosting
EPS = 1.1920929e-07


def clip(p):
    if p < EPS:
        return EPS
    if p > 1 - EPS:
        return 1 - EPS
    return p


def gb_raw(stages, rate, K, X, init):
    raw = []
    for i in range(len(X)):
        raw.append([init[i][k] + rate * sum([tree_reg(s[k], [X[i]])[0] for s in stages]) for k in range(K)])
    return raw


def gb(stages, rate, K, classes, X, what, loss, initp):
    if initp is None:
        init = [[0.0 for k in range(K)] for x in X]
    elif loss == "multi":
        init = [[log_(clip(p)) for p in r] for r in initp]
    elif loss == "binary":
        init = [[log_(clip(r[1]) / (1 - clip(r[1])))] for r in initp]
    else:
        init = [[0.5 * log_(clip(r[1]) / (1 - clip(r[1])))] for r in initp]
    raw = gb_raw(stages, rate, K, X, init)
    if loss == "multi":
        P = [softmax(r) for r in raw]
    elif loss == "binary":
        P = [[1 - logistic(r[0]), logistic(r[0])] for r in raw]
    else:
        P = [[1 - logistic(2.0 * r[0]), logistic(2.0 * r[0])] for r in raw]
    return finish(classes, P, what)


# ------------------------------------------------------------------- XGBoost
def node_no(s):
    return int(s.split("-")[1])


def xgb_leaf(t, x):
    node = 0
    while t["Feature"][node] != "Leaf":
        v = x[int(t["Feature"][node][1:])]
        if math.isnan(v):
            node = node_no(t["Missing"][node])
        elif v < t["Split"][node]:
            node = node_no(t["Yes"][node])
        else:
            node = node_no(t["No"][node])
    return t["Gain"][node]


def xgb_binary(trees, base, classes, X, what):
    P = []
    for x in X:
        m = log_(base / (1.0 - base)) + sum([xgb_leaf(t, x) for t in trees])
        P.append([1 - logistic(m), logistic(m)])
    return finish(classes, P, what)


def xgb_multi(rounds, C, classes, X, what):
    P = []
    for x in X:
        P.append(softmax([sum([xgb_leaf(r[k], x) for r in rounds]) for k in range(C)]))
    return finish(classes, P, what)


# ------------------------------------------------------------------- scalers
def std_scaler(mean, scale, with_mean, with_std, X):
    Y = [[v for v in x] for x in X]
    if with_mean:
        Y = [[y[j] - mean[j] for j in range(len(mean))] for y in Y]
    if with_std:
        Y = [[y[j] / scale[j] for j in range(len(scale))] for y in Y]
    return Y


def minmax_scaler(scale, minimum, X):
    return [[x[j] * scale[j] + minimum[j] for j in range(len(scale))] for x in X]


def maxabs_scaler(scale, X):
    return [[x[j] / scale[j] for j in range(len(scale))] for x in X]


def row_norm(norm, x):
    if norm == "l1":
        n = sum([abs(v) for v in x])
    elif norm == "l2":
        n = math.sqrt(sum([v * v for v in x]))
    else:
        n = max([abs(v) for v in x])
    if n == 0:
        return 1.0
    return n


def normalizer(norm, X):
    return [[v / row_norm(norm, x) for v in x] for x in X]


def normalize_fn(norm, axis, ret, X):
    if axis == 0:
        X = [[x[j] for x in X] for j in range(len(X[0]))]
    N = [row_norm(norm, x) for x in X]
    Y = normalizer(norm, X)
    if axis == 0:
        Y = [[y[i] for y in Y] for i in range(len(Y[0]))]
    if ret:
        return (Y, N)
    return Y


# ---------------------------------------------------------------- imputation
def undefined(v):
    return isinstance(v, float) and v != v


def is_missing(v, marker):
    if undefined(marker):
        return undefined(v)
    return v == marker


def flags(features, marker, x):
    return [1.0 if is_missing(x[j], marker) else 0.0 for j in features]


def imputer(stats, marker, constant, X, features):
    if constant:
        keep = [j for j in range(len(stats))]
    else:
        keep = [j for j in range(len(stats)) if not undefined(stats[j])]
    Y = [[stats[j] if is_missing(x[j], marker) else x[j] for j in keep] for x in X]
    if features is None:
        return Y
    return [Y[i] + flags(features, marker, X[i]) for i in range(len(X))]


def missing_indicator(features, marker, strict, X):
    if strict:
        for x in X:
            for j in range(len(x)):
                if is_missing(x[j], marker) and j not in features:
                    raise ValueError("missing values in a new feature")
    return [flags(features, marker, x) for x in X]


# ------------------------------------------------------------------ encoders
def position(cats, value):
    for k in range(len(cats)):
        if cats[k] == value:
            return k
    return -1


def ordinal(cats, X):
    out = []
    for x in X:
        row = []
        for j in range(len(cats)):
            p = position(cats[j], x[j])
            if p < 0:
                raise ValueError("unknown category")
            row.append(p)
        out.append(row)
    return out


def one_hot(cats, X, ignore):
    out = []
    for x in X:
        row = []
        for j in range(len(cats)):
            p = position(cats[j], x[j])
            if p < 0 and not ignore:
                raise ValueError("unknown category")
            for k in range(len(cats[j])):
                row.append(1 if k == p else 0)
        out.append(row)
    return out


# ------------------------------------------------------------------ dictionary vectoriser
def dict_vectorizer(vocab, sep, X, kind="float"):
    out = []
    for x in X:
        row = {}
        for f, v in x.items():
            if isinstance(v, str):
                name = f + sep + v
                if name in vocab:
                    row[vocab[name]] = True if kind == "bool" else 1
            elif f in vocab:
                row[vocab[f]] = int(v) if kind == "int" else bool(v) if kind == "bool" else v
        out.append(row)
    return out


# ------------------------------------------------------------------ tf-idf
def tfidf(norm, idf, use_idf, sublinear, X):
    """X: rows as {column: count}"""
    out = []
    for x in X:
        row = {}
        for j, v in x.items():
            w = v
            if sublinear:
                w = 1.0 + log_(v)
            if use_idf:
                w = w * idf[j]
            row[j] = w
        scale = 0.0
        if norm == "l2":
            for w in row.values():
                scale = scale + w * w
            scale = math.sqrt(scale)
        elif norm == "l1":
            for w in row.values():
                scale = scale + abs(w)
        elif norm == "max":
            for w in row.values():
                scale = max(scale, abs(w))
        res = {}
        for j, w in row.items():
            res[j] = w / scale if scale != 0 else w
        out.append(res)
    return out


def nonzero(X):
    """rows of a dense matrix as {column: value}"""
    return [{j: x[j] for j in range(len(x)) if x[j] != 0} for x in X]


def dense_rows(rows, n):
    return [[x.get(j, 0.0) for j in range(n)] for x in rows]


# ------------------------------------------------------------------ text analysis
def words(doc, pattern):
    return re.findall(pattern, doc)


def strip_accents_(doc, how):
    if how == "unicode":
        return "".join([c for c in unicodedata.normalize("NFKD", doc) if not unicodedata.combining(c)])
    if how == "ascii":
        return unicodedata.normalize("NFKD", doc).encode("ASCII", "ignore").decode("ASCII")
    return doc


def windows(seq, n):
    return [seq[i:i + n] for i in range(len(seq) - n + 1)]


def terms(doc, analyzer, lo, hi, lowercase, accents, pattern, stop, encoding, errors):
    """the terms of a document, in any order"""
    if isinstance(doc, bytes):
        doc = doc.decode(encoding, errors)
    if lowercase:
        doc = doc.lower()
    doc = strip_accents_(doc, accents)
    out = []
    if analyzer == "word":
        toks = words(doc, pattern)
        if stop is not None:
            toks = [t for t in toks if t not in stop]
        for n in range(lo, hi + 1):
            for w in windows(toks, n):
                out.append(" ".join(w))
        return out
    doc = re.sub(r"\s\s+", " ", doc)
    if analyzer == "char":
        for n in range(lo, hi + 1):
            for w in windows(doc, n):
                out.append(w)
        return out
    for word in doc.split():
        padded = " " + word + " "
        whole = False
        for n in range(lo, hi + 1):
            if n >= len(padded):
                # a word shorter than the window counts once
                if not whole:
                    out.append(padded)
                whole = True
            else:
                for w in windows(padded, n):
                    out.append(w)
    return out


def count(vocab, binary, docs):
    """docs: lists of terms"""
    out = []
    for ts in docs:
        row = {}
        for t in ts:
            if t in vocab:
                j = vocab[t]
                row[j] = 1 if binary else row.get(j, 0) + 1
        out.append(row)
    return out


def rotl(x, r):
    return ((x << r) | (x >> (32 - r))) & 0xffffffff


def murmur3(data, seed):
    """signed 32-bit MurmurHash3_x86_32 of a byte string"""
    c1 = 0xcc9e2d51
    c2 = 0x1b873593
    h = seed
    n = len(data) // 4
    for i in range(n):
        k = data[4 * i] + data[4 * i + 1] * 256 + data[4 * i + 2] * 65536 + data[4 * i + 3] * 16777216
        k = (rotl((k * c1) & 0xffffffff, 15) * c2) & 0xffffffff
        h = (rotl(h ^ k, 13) * 5 + 0xe6546b64) & 0xffffffff
    k = 0
    rest = len(data) - 4 * n
    for i in range(rest):
        k = k + data[4 * n + i] * 256 ** i
    if rest > 0:
        h = h ^ ((rotl((k * c1) & 0xffffffff, 15) * c2) & 0xffffffff)
    h = h ^ len(data)
    h = ((h ^ (h >> 16)) * 0x85ebca6b) & 0xffffffff
    h = ((h ^ (h >> 13)) * 0xc2b2ae35) & 0xffffffff
    h = h ^ (h >> 16)
    return h - 4294967296 if h >= 2147483648 else h


def hashed(width, alternate, binary, docs):
    out = []
    for ts in docs:
        row = {}
        for t in ts:
            h = murmur3(t.encode("utf-8"), 0)
            j = abs(h) % width
            row[j] = row.get(j, 0) + (-1 if alternate and h < 0 else 1)
        if binary:
            row = {j: 1 for j in row}
        out.append(row)
    return out


def all_terms(docs, analyzer, lo, hi, lowercase, accents, pattern, stop, encoding, errors):
    return [terms(d, analyzer, lo, hi, lowercase, accents, pattern, stop, encoding, errors) for d in docs]


# ------------------------------------------------------------------ compositions
class Sparse(list):
    """rows as dictionaries of their non-zero entries"""


def hstack(outs, X):
    """side by side concatenation of the weighted outputs"""
    if len(outs) == 0:
        return [[] for x in X]
    sparse = any([hasattr(o, "size") for o, w in outs])
    if not sparse:
        rows = []
        for i in range(len(X)):
            row = []
            for o, w in outs:
                row = row + [x if w is None else x * w for x in o[i]]
            rows.append(row)
        return rows
    rows = Sparse()
    rows.size = sum([o.size if hasattr(o, "size") else len(o[0]) for o, w in outs])
    for i in range(len(X)):
        row = {}
        start = 0
        for o, w in outs:
            if hasattr(o, "size"):
                for k, x in o[i].items():
                    row[k + start] = x if w is None else x * w
                start = start + o.size
            else:
                for k in range(len(o[i])):
                    row[k + start] = o[i][k] if w is None else o[i][k] * w
                start = start + len(o[0])
        rows.append(row)
    return rows


# ------------------------------------------------------------------ pairwise functions
def kernel(X, Y):
    return [[sum([a * b for a, b in zip(x, y)]) for y in Y] for x in X]


def cosine(X, Y):
    return kernel(normalizer("l2", X), normalizer("l2", Y))


def cosine_dist(X, Y, same):
    S = cosine(X, Y)
    out = []
    for i in range(len(S)):
        row = []
        for j in range(len(S[i])):
            if same and i == j:
                row.append(0.0)
            else:
                d = 1 - S[i][j]
                row.append(0 if d < 0 else 2 if d > 2 else d)
        out.append(row)
    return out


# ------------------------------------------------------------------ fastText
def ft_word(words, M, dim, word):
    if word in words:
        return [x for x in M[words.index(word)]]
    return [0.0 for j in range(dim)]


def ft_tokens(text):
    return [w for w in re.split("[ \n\r\t\v\f\0]+", text) if w != ""]


def ft_mean(V, dim):
    if len(V) == 0:
        return [0.0 for j in range(dim)]
    return [sum([v[j] for v in V]) / len(V) for j in range(dim)]


def ft_sentence(words, M, dim, supervised, text):
    toks = ft_tokens(text)
    if supervised:
        toks = toks + ["</s>"]
    V = [ft_word(words, M, dim, w) for w in toks if w in words]
    if not supervised:
        norms = [math.sqrt(sum([x * x for x in v])) for v in V]
        V = [[x / n for x in v] for v, n in zip(V, norms) if n > 0]
    return ft_mean(V, dim)


def ft_probs(words, M, dim, O, text):
    v = ft_sentence(words, M, dim, True, text)
    return softmax([sum([a * b for a, b in zip(v, o)]) for o in O])


def ft_rank(words, M, dim, O, names, text, k, threshold):
    """everything the answer is chosen from"""
    if isinstance(text, list):
        return [ft_rank(words, M, dim, O, names, t, k, threshold) for t in text]
    return [names, ft_probs(words, M, dim, O, text), k, threshold]


def pcopy_list(xs, f):
    return [f(x) for x in xs]


def pcopy_dict(d, f):
    return {k: f(v) for k, v in d.items()}


def pfill(new, xs):
    for x in xs:
        new.append(x)


def length(x):
    return len(x)
