"""Configurations of pipelines, unions, pairwise functions and fastText models."""
import math

from . import terms as t_
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, isconst, cval, kind, fn, newidx, sym, add, sub, mk, eq, ite
from .interp import (HObj, Frz, SEl, SFor, SIf, SOp, DSet, Tup, VIte, UNDEF, Unsup, BCls, Bi, BoundM, FObj)
from .world import NpArr, NpScal, NpType, ObjArr, Inst, FCls, Opaque, state_method, ATTRS, gen_x, gen_par, gen_pos, gen_label
from .cases import CASES, Case, src, par, szF, dense_inputs, sparse_inputs, ragged, ntup
from .cases2 import DENS, records, rows_rel, countvec, doc_inputs, gen_missing, tfidf_attrs, public, function


def by_id(cid):
    return [c for c in CASES if c.id == cid][0]


def mk_(cid):
    c = by_id(cid)
    return c.make


# ------------------------------------------------------------------ classes without a counterpart
def foreign(cname, like, module="sklearn"):
    """an estimator class the package does not implement, fitted like one it does"""
    base = by_id(like)

    def make(W):
        e = base.make(W)
        x = Inst(cname, e.attrs, module, e.full)
        return x
    case = Case("%s[like %s]" % (cname, like.split("[")[0]), "foreign", make)
    case.supported = False
    case.counterpart = None
    case.modes = ("plain",)
    return case


for _c, _l in (("RandomForestRegressor", "RandomForestClassifier[DecisionTreeClassifier]"), ("ExtraTreesRegressor", "ExtraTreesClassifier[ExtraTreeClassifier]"),
               ("BaggingRegressor", "BaggingClassifier[LogisticRegression,binary]"), ("GradientBoostingRegressor", "GradientBoostingClassifier[deviance,binary,dummy,float]"),
               ("AdaBoostClassifier", "RandomForestClassifier[DecisionTreeClassifier]"), ("BernoulliNB", "MultinomialNB[classes]"), ("CategoricalNB", "MultinomialNB[classes]"),
               ("RobustScaler", "StandardScaler[mean,std]"), ("PowerTransformer", "StandardScaler[mean,std]"), ("Binarizer", "Normalizer[l2]"), ("KBinsDiscretizer", "OrdinalEncoder[float64]"),
               ("KNNImputer", "SimpleImputer[nan,mean]"), ("LinearSVR", "LinearSVC[,binary,array]"), ("SGDRegressor", "SGDClassifier[log,binary,array]"),
               ("Ridge", "RidgeClassifier[,binary,array]"), ("LinearRegression", "LogisticRegression[auto/lbfgs,binary,array]"), ("DummyRegressor", "DummyClassifier[prior]"),
               ("FeatureHasher", "HashingVectorizer[l2]"), ("LabelBinarizer", "OneHotEncoder[float64,sparse,ignore]"),
               ("LogisticRegressionCV", "LogisticRegression[auto/lbfgs,binary,array]"), ("RidgeClassifierCV", "RidgeClassifier[,binary,array]"),
               ("SVC", "LinearSVC[,binary,array]"), ("NuSVC", "LinearSVC[,binary,array]"), ("BaseDecisionTree", "DecisionTreeClassifier[]"), ("BaseEstimator", "StandardScaler[mean,std]"),
               ("VotingClassifier", "RandomForestClassifier[DecisionTreeClassifier]"), ("StackingClassifier", "RandomForestClassifier[DecisionTreeClassifier]"),
               ("HistGradientBoostingClassifier", "GradientBoostingClassifier[deviance,binary,dummy,float]"), ("IterativeImputer", "SimpleImputer[nan,mean]"),
               ("QuantileTransformer", "StandardScaler[mean,std]"), ("CalibratedClassifierCV", "LinearSVC[,binary,array]"), ("ColumnTransformer", "StandardScaler[mean,std]")):
    foreign(_c, _l)
for _c in ("XGBRFClassifier", "XGBRegressor", "XGBRFRegressor", "XGBRanker"):
    foreign(_c, "XGBClassifier[binary:logistic,gbtree,base float]", "xgboost.sklearn")


# ------------------------------------------------------------------ pipelines
SKIP = {"passthrough": const("passthrough"), "None": NONE, "drop": const("drop")}


def slist(W, items):
    return W.I.alloc(HObj("list", tuple(SEl(x) for x in items), {}, "source", ("source", 0, "source")))


def build(W, spec):
    """source of a step: case id, skip marker, ("pipe", [...]) or ("union", [...], weights)"""
    if isinstance(spec, str):
        if spec in SKIP:
            return SKIP[spec]
        return mk_(spec)(W)
    if spec[0] == "pipe":
        parts = [build(W, s) for s in spec[1]]
        p = src("Pipeline", {"steps": slist(W, [Tup([const(step_name(spec, k)), x]) for k, x in enumerate(parts)]), "memory": NONE, "verbose": FALSE}, "sklearn.pipeline")
        p.parts, p.spec = parts, spec
        return p
    parts = [build(W, s) for s in spec[1]]
    w = spec[2]
    if w is None:
        ws = NONE
    else:
        segs = []
        for k, x in w.items():
            if x == "sym":
                W.decl("w_" + k, "float", lambda v, idx: v.rng.choice([2.0, 0.5, -1.0, 3.0, 0.0]))
                x = sym("w_" + k)
            elif x == "np":
                W.decl("w_" + k, "float", lambda v, idx: v.rng.choice([2.0, 0.5, -1.0, 3.0]))
                x = NpScal(sym("w_" + k), "float")
            else:
                x = const(x)
            segs.append(DSet(const(k), x))
        ws = W.I.alloc(HObj("dict", tuple(segs), {}, "source", ("source", 0, "source")))
    p = src("FeatureUnion", {"transformer_list": slist(W, [Tup([const(step_name(spec, k)), x]) for k, x in enumerate(parts)]), "transformer_weights": ws,
                             "n_jobs": NONE, "verbose": FALSE}, "sklearn.pipeline")
    p.parts, p.spec = parts, spec
    return p


def step_name(spec, k):
    """name of the k-th step"""
    names = spec[2] if spec[0] == "pipe" and len(spec) > 2 else spec[3] if spec[0] == "union" and len(spec) > 3 else ()
    return names[k] if k < len(names) else "s%d" % k


def skipped(x):
    return isinstance(x, T)


def apply_(S, call, x, method, X):
    """the composition a pipeline or union stands for"""
    spec = getattr(x, "spec", None)
    if spec is None:
        return call(x, method, X)
    if spec[0] == "pipe":
        for y in x.parts[:-1]:
            if not skipped(y):
                X = apply_(S, call, y, "transform", X)
        y = x.parts[-1]
        if skipped(y):
            return X
        return apply_(S, call, y, method, X)
    outs = []
    for k, y in enumerate(x.parts):
        if skipped(y):
            continue
        o = apply_(S, call, y, "transform", X)
        nm = step_name(spec, k)
        w = (spec[2] or {}).get(nm)
        w = NONE if w is None else sym("w_" + nm) if w in ("sym", "np") else const(w)
        outs.append(Tup([o, w]))
    I = S.I
    return I.call(S.ref_mod.env["hstack"], [I.alloc(HObj("list", tuple(SEl(o) for o in outs), {}, "spec")), X], {})


def counterparts(x, path):
    """(path from the model, expected class) of every part"""
    out = []
    spec = getattr(x, "spec", None)
    if spec is None:
        return out
    attr = "steps" if spec[0] == "pipe" else "transformer_list"
    for k, y in enumerate(x.parts):
        if skipped(y):
            continue

        def get(S, path=path, attr=attr, k=k):
            m = path(S)
            if m is None:
                return None
            l = S.I.obj(m).attrs.get(attr)
            it = S.I.items(l) if hasattr(S.I, "items") else None
            return it
        out.append((path, attr, k, y))
        out += counterparts(y, lambda S, path=path, attr=attr, k=k: step_of(S, path(S), attr, k))
    return out


def step_of(S, m, attr, k):
    """the k-th step of a converted pipeline or union, when its list is laid out item by item"""
    try:
        o = S.I.obj(m)
        l = S.I.obj(o.attrs[attr])
        v = l.segs[k].v
        if isinstance(v, Tup):
            return v.items[1]
        return S.I.obj(v).segs[1].v
    except Exception:
        return None


def compose_case(tag, spec, methods, inputs, modes=("plain",), classifier=False, binary=None, rel=None, sparse_out=False, width=None, docs=None, sparse_in=None, raises=False, conv=None,
                 scores=None, bad=True, pre=None, cname=None):
    cname = cname or ("Pipeline" if spec[0] == "pipe" else "FeatureUnion")

    def make(W):
        if pre:
            pre(W)
        W.root = build(W, spec)
        return W.root
    case = Case("%s[%s]" % (cname, tag), "pipeline", make, classifier=classifier)
    if docs:
        doc_inputs(case, docs)
        case.rel, case.sparse_out = rel, sparse_out
    else:
        dense_inputs(case, szF)
        if bad is not True:
            case.bad = {k: x for k, x in case.bad.items() if k in bad}
        if sparse_in:
            sparse_inputs(case, szF, ok=True)
        elif sparse_in is False:
            sparse_inputs(case, szF, ok=False)
        case.rel, case.conv, case.sparse_out = rel, conv, sparse_out
    if inputs:
        case.inputs.update(inputs)
    case.methods = methods
    case.modes = modes
    case.scores = scores
    case.raises = raises
    if width:
        case.out_width = width
    for m in methods:
        case.specs[m] = lambda S, X, m=m: S.compose("composition." + m, lambda call: apply_(S, call, S.W.root, m, X))

    def nested(S):
        out = []
        for path, attr, k, y in counterparts(S.W.root, lambda S: S.model):
            out.append((lambda S, path=path, attr=attr, k=k: step_of(S, path(S), attr, k), y.cname + "Pure"))
        return out
    case.nested = nested
    return case


P3 = ("predict", "predict_proba", "predict_log_proba")
LRB, LRM = "LogisticRegression[auto/lbfgs,binary,array]", "LogisticRegression[auto/lbfgs,multi,array]"
STD, MM, MA, L2 = "StandardScaler[mean,std]", "MinMaxScaler[]", "MaxAbsScaler[]", "Normalizer[l2]"
D, DS = ("dense",), ("dense", "sparse")


def meth(ms, ins):
    return {m: ins for m in ms}


Fw = lambda S, v: t_.ev(S.W.sizes["F"], v)


def pipe(tag, steps, methods, names=(), **kw):
    return compose_case(tag, ("pipe", steps, names), methods, kw.pop("inputs", None), **kw)


def union(tag, parts, weights, names=(), **kw):
    return compose_case(tag, ("union", parts, weights, names), meth(("transform",), kw.pop("ins", D)), kw.pop("inputs", None), **kw)


pipe("scale,lr", [STD, LRB], meth(P3, D), classifier=True, scores="predict_proba", sparse_in=False)
pipe("scale,normalize,lr multi", [STD, L2, LRM], meth(P3, D), classifier=True, scores="predict_proba", sparse_in=False)
pipe("scale,normalize", [MM, L2], meth(("transform",), D), sparse_in=False)
pipe("passthrough,scale,lr", ["passthrough", MA, LRB], meth(P3, DS), classifier=True, scores="predict_proba", sparse_in=True)
pipe("None,scale,None,lr", ["None", MA, "None", LRB], meth(P3, DS), classifier=True, scores="predict_proba", sparse_in=True)
pipe("scale,passthrough,minmax", [STD, "passthrough", MM], meth(("transform",), D), sparse_in=False)
pipe("scale,passthrough", [STD, "passthrough"], meth(("transform",), D), sparse_in=False)
pipe("scale,minmax,None", [STD, MM, "None"], meth(("transform",), D), sparse_in=False)
pipe("nested,lr", [("pipe", [STD, L2]), LRB], meth(P3, D), classifier=True, scores="predict_proba", sparse_in=False)
pipe("scale,nested lr", [STD, ("pipe", [MM, LRM])], meth(P3, D), classifier=True, scores="predict_proba", sparse_in=False)
pipe("nested passthrough,minmax", [("pipe", [STD, "passthrough"]), MM], meth(("transform",), D), sparse_in=False)
pipe("odd names", [STD, L2, MM, LRM], meth(P3, D), names=("passthrough", "drop", "predict", "transform"), classifier=True, scores="predict_proba", sparse_in=False)
pipe("six steps", [STD, L2, MM, MA, STD, LRM], meth(P3, D), classifier=True, scores="predict_proba", sparse_in=False)
pipe("eleven steps", [STD, L2, MM, MA, STD, "passthrough", MM, MA, L2, STD, LRM], meth(P3, D), classifier=True, scores="predict_proba", sparse_in=False)
pipe("five transformers", [STD, "passthrough", MM, MA, L2], meth(("transform",), D), sparse_in=False)
pipe("scale,gb", [STD, "GradientBoostingClassifier[deviance,multi,dummy,float]"], meth(P3, D), classifier=True, sparse_in=False)
pipe("scale,forest", [MA, "RandomForestClassifier[DecisionTreeClassifier]"], meth(P3, DS), classifier=True, sparse_in=True)
pipe("scale,sgd", [MA, "SGDClassifier[log,multi,array]"], meth(P3, DS), classifier=True, sparse_in=True)
pipe("scale,perceptron", [MA, "Perceptron[,binary,array]"], meth(("predict",), DS), classifier=True, sparse_in=True)
pipe("normalize,complement nb", ["MaxAbsScaler[]", "ComplementNB[classes]"], meth(P3, D), classifier=True, sparse_in=False)
pipe("lr alone", [LRM], meth(P3, DS), classifier=True, scores="predict_proba", sparse_in=True)
pipe("scale,svc", [STD, "LinearSVC[,multi,array]"], meth(("predict",), D), classifier=True, sparse_in=False)
pipe("scale,nb", [STD, "GaussianNB[classes]"], meth(P3, D), classifier=True, scores="predict_log_proba", sparse_in=False)
pipe("normalize,tree", [MM, "DecisionTreeClassifier[]"], meth(P3, D), classifier=True, sparse_in=False)
pipe("tree regressor", [STD, "DecisionTreeRegressor[]"], meth(("predict",), D), sparse_in=False)
pipe("maxabs,tfidf", [MA, "TfidfTransformer[l2,idf]"], meth(("transform",), DS), sparse_in=True, rel=rows_rel, sparse_out=True, width=Fw)
pipe("impute,scale,lr", ["SimpleImputer[nan,mean]", STD, LRB], meth(P3, D), classifier=True, scores="predict_proba",
     inputs={"dense": lambda W: W.dense(szF(W), gen=gen_missing(float("nan"), False))})


for _c, _s in (("Pipeline[scale,foreign]", ("pipe", [STD, "Ridge[like RidgeClassifier]"])), ("Pipeline[foreign,lr]", ("pipe", ["RobustScaler[like StandardScaler]", LRB])),
               ("FeatureUnion[foreign]", ("union", [MM, "PowerTransformer[like StandardScaler]"], None)),
               ("Pipeline[nested foreign]", ("pipe", [("union", [MM, "Binarizer[like Normalizer]"], None), LRB]))):
    _k = Case(_c, "foreign", lambda W, s=_s: build(W, s))
    _k.supported, _k.counterpart, _k.modes = False, None, ("plain",)


def vocF(W):
    W.decl("vocab", "dict", VOC["gen"], dictkind=("str", "int"))
    W.sizes["F"] = fn("len", sym("vocab"))


from .cases2 import text_cfg, gen_term_vocab  # noqa
TC = text_cfg(ngrams=(1, 2))
VOC = {"gen": gen_term_vocab(TC)}
pipe("count,tfidf,lr", ["CountVectorizer[word,1-2]", "TfidfTransformer[l2,idf]", LRM], meth(P3, ("docs",)), classifier=True, scores="predict_proba", docs=TC, pre=vocF)
pipe("count,tfidf", ["CountVectorizer[word,1-2]", "TfidfTransformer[l2,idf]"], meth(("transform",), ("docs",)), rel=rows_rel, sparse_out=True, docs=TC, pre=vocF,
     width=lambda S, v: len(v.get("vocab")))
pipe("count,scale,lr", ["CountVectorizer[word,1-2]", MA, LRB], meth(P3, ("docs",)), classifier=True, scores="predict_proba", docs=TC, pre=vocF)

# ---- unions
TF = "TfidfTransformer[l2,idf]"
union("dense", [STD, MM], None, sparse_in=False)
union("dense,one", [STD], None, sparse_in=False)
union("dense,weights", [STD, MM], {"s0": "sym", "s1": "np"}, sparse_in=False)
union("dense,one weight", [STD, MM, L2], {"s1": "sym"}, sparse_in=False)
union("dense,unused weight", [STD, MM], {"zz": 2.0, "s1": 3.0}, sparse_in=False)
union("odd names", [STD, MM, L2, "drop"], {"drop": "sym", "": "np", "fit": 3.0}, names=("drop", "", "passthrough", "fit"), sparse_in=False)
union("six parts", [STD, MM, L2, MA, STD, MM], {"s0": "sym", "s4": "sym", "s5": 2.0}, sparse_in=False)
union("twelve sparse parts", [MA, TF] * 6, {"s1": "sym", "s10": 3.0}, ins=DS, sparse_in=True, rel=rows_rel, sparse_out=True, width=lambda S, v: 12 * Fw(S, v))
union("six sparse parts", [MA, TF, MA, TF, MA, TF], {"s1": "sym", "s5": 3.0}, ins=DS, sparse_in=True, rel=rows_rel, sparse_out=True, width=lambda S, v: 6 * Fw(S, v))
union("dense,zero weight", [STD, MM], {"s0": 0}, sparse_in=False)
union("dense,no weights", [STD, MM], {}, sparse_in=False)
union("dropped", [STD, "drop", MM], {"s1": 2.0, "s2": "sym"}, sparse_in=False)
union("dropped none", ["None", STD, MM], {"s0": 2.0, "s2": "sym"}, sparse_in=False)
union("all dropped", ["drop", "None"], None, bad=("empty", "nonlist"))
union("sparse", [TF, MA], None, ins=DS, sparse_in=True, rel=rows_rel, sparse_out=True, width=lambda S, v: 2 * Fw(S, v))
union("sparse,weights", [MA, TF], {"s0": "sym", "s1": "np"}, ins=DS, sparse_in=True, rel=rows_rel, sparse_out=True, width=lambda S, v: 2 * Fw(S, v))
union("mixed", [STD, TF, MM], None, sparse_in=False, rel=rows_rel, sparse_out=True, width=lambda S, v: 3 * Fw(S, v))
union("mixed,weights", [TF, STD, TF], {"s1": "sym", "s2": "sym"}, sparse_in=False, rel=rows_rel, sparse_out=True, width=lambda S, v: 3 * Fw(S, v))
union("sparse,widths", [("union", [MA, TF], {"s0": "sym"}), MA, TF], None, ins=DS, sparse_in=True, rel=rows_rel, sparse_out=True, width=lambda S, v: 4 * Fw(S, v))
union("mixed,widths", [("union", [STD, MM], None), TF, STD], {"s2": "sym"}, sparse_in=False, rel=rows_rel, sparse_out=True, width=lambda S, v: 4 * Fw(S, v))
union("nested", [("union", [STD, MM], {"s1": 2.0}), L2], {"s0": "sym"}, sparse_in=False)
union("pipelines", [("pipe", [STD, L2]), ("pipe", ["passthrough", MM])], {"s1": "sym"}, sparse_in=False)
union("two texts", ["CountVectorizer[word,1-2]", ("pipe", ["CountVectorizer[word,1-2]", TF])], {"s1": "sym"}, ins=("docs",), docs=TC, pre=vocF, rel=rows_rel, sparse_out=True,
      width=lambda S, v: 2 * len(v.get("vocab")))
pipe("union,lr", [("union", [STD], {"s0": "sym"}), LRB], meth(P3, D), classifier=True, scores="predict_proba", sparse_in=False)
pipe("union,normalize", [("union", [STD, MM], None), L2], meth(("transform",), D), sparse_in=False)


def vocD(W):
    W.decl("vocab", "dict", by_id("DictVectorizer[sparse,float64]").vocgen, dictkind=("str", "int"))
    W.sizes["F"] = fn("len", sym("vocab"))


def hashF(W):
    HASH.make(W)
    W.sizes["F"] = W.width


HASH = by_id("HashingVectorizer[None,signed]")
_c = pipe("dict,lr", ["DictVectorizer[sparse,float64]", LRM], meth(P3, ("records",)), inputs={"records": lambda W: records(W)}, classifier=True, scores="predict_proba", pre=vocD, bad=())
_c.modes = ("plain", "zero")
_c = pipe("dict dense,scale", ["DictVectorizer[dense,float]", STD], meth(("transform",), ("records",)), inputs={"records": lambda W: records(W)}, pre=vocD, bad=())
_c.modes = ("plain", "zero")
pipe("hash,lr", ["HashingVectorizer[None,signed]", LRB], meth(P3, ("docs",)), classifier=True, scores="predict_proba", docs=text_cfg(dtype="float64", ngrams=(1, 1)), pre=hashF)


# ------------------------------------------------------------------ pairwise functions
def other_rows(W, F=None, width=None, N=None, name="Y"):
    N = N if N is not None else W.sizes["M"] if "M" in W.sizes else W.size("M", 1, 3)
    def gen(v, idx):
        # mode "neg": the rows of the first set reversed in direction
        if v.mode == "neg" and "X" in W.gens and idx[0] < v.get("N"):
            return -v.get("X", *idx)
        return gen_x(v, idx)
    y = W.dense(F, name=name, N=N, width=width, gen=gen)
    W.inputs.pop(W.nm(name), None)
    return y


def gen_rough(v, idx):
    return v.rng.uniform(-3, 3) if v.mode == "neg" else gen_x(v, idx)


def pairwise(fname):
    F = szF
    vec = lambda W, n="v": W.list_of(F(W), lambda i: (W.decl(n, "num", gen_x), sym(n, i))[1])
    inputs = {
        "X, Y": lambda W: ([W.dense(F(W), gen=gen_rough), other_rows(W, F(W))], {}),
        "X, Y=Y": lambda W: ([W.dense(F(W), gen=gen_rough)], {"Y": other_rows(W, F(W))}),
        "X": lambda W: ([W.dense(F(W), gen=gen_rough)], {}),
        "X, None": lambda W: ([W.dense(F(W), gen=gen_rough), NONE], {}),
        "X, X": lambda W: (lambda x: ([x, x], {}))(W.dense(F(W), gen=gen_rough)),
        "X, copy": lambda W: ([W.dense(F(W), gen=gen_rough), W.dense(F(W), gen=gen_rough)], {}),
        "sparse, Y": lambda W: ([W.sparse(F(W)), other_rows(W, F(W))], {}),
        "densified, Y": lambda W: (W.sparse(F(W)), ([W.densified(F(W)), other_rows(W, F(W))], {}))[1],
    }
    empty = lambda W: W.I.alloc(HObj("list", (), {}, "input", ("input", 0, "input")))
    bad = {
        "X empty": lambda W: ([empty(W), other_rows(W, F(W))], {}),
        "Y empty": lambda W: ([W.dense(F(W), gen=gen_rough), empty(W)], {}),
        "X empty, no Y": lambda W: ([empty(W)], {}),
        "Y narrow": lambda W: ([W.dense(F(W), gen=gen_rough), other_rows(W, sub(F(W), ONE))], {}),
        "Y wide": lambda W: ([W.dense(F(W), gen=gen_rough), other_rows(W, add(F(W), ONE))], {}),
        "X ragged": lambda W: ([W.dense(None, width=lambda i: ragged(W, F(W), i)), other_rows(W, F(W))], {}),
        "Y ragged": lambda W: ([W.dense(F(W), gen=gen_rough), other_rows(W, width=lambda i: ragged(W, F(W), i))], {}),
        "X ragged, no Y": lambda W: ([W.dense(None, width=lambda i: ragged(W, F(W), i))], {}),
        "X vector": lambda W: ([vec(W), other_rows(W, F(W))], {}),
        "Y vector": lambda W: ([W.dense(F(W), gen=gen_rough), vec(W)], {}),
        "X vector, no Y": lambda W: ([vec(W)], {}),
        "sparse, Y narrow": lambda W: ([W.sparse(F(W)), other_rows(W, sub(F(W), ONE))], {}),
        "sparse, Y wide": lambda W: ([W.sparse(F(W)), other_rows(W, add(F(W), ONE))], {}),
        "Y sparse": lambda W: ([W.dense(F(W), gen=gen_rough), (lambda s: (W.inputs.pop(W.nm("Ys"), None), s)[1])(W.sparse(F(W), name="Ys", N=W.sizes["M"] if "M" in W.sizes else W.size("M", 1, 3)))], {}),
        "sparse, no Y": lambda W: ([W.sparse(F(W))], {}),
    }

    case = function(fname, "pairwise", "pure_sklearn.metrics.pairwise", fname, {fname: ("X, Y", "X, Y=Y", "X", "X, None", "X, X", "X, copy", "sparse, Y")}, {}, inputs, bad)
    case.batch = {"X": False, "X, None": False, "X, X": False, "X, copy": False}
    case.modes = ("plain", "int", "zero", "neg")

    def ref_(S, m, i):
        W = S.W
        args, kw = S.input({"sparse, Y": "densified, Y"}.get(i, i))
        X = args[0]
        Y = args[1] if len(args) > 1 and args[1] is not NONE else kw.get("Y", X)
        if fname == "linear_kernel_pure":
            return S.ref("kernel", X, Y)
        if fname == "cosine_similarity_pure":
            return S.ref("cosine", X, Y)
        return S.ref("cosine_dist", X, Y, const(i in ("X", "X, None", "X, X")))
    case.ref_by_input = ref_
    case.sparse_in = True
    case.self_inputs = ("X", "X, None", "X, X")
    big = lambda z: lambda v: v.get(z) >= 2
    case.bad_cond = {"X ragged": big("N"), "X ragged, no Y": big("N"), "Y ragged": big("M")}
    return case


for _f in ("linear_kernel_pure", "cosine_similarity_pure", "cosine_distances_pure"):
    pairwise(_f)
