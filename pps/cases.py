"""Configurations: every supported estimator with every finite setting that selects behaviour."""
from . import terms as t_
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, isconst, cval, kind, fn, newidx, sym, at, add, sub, mk, eq, ite
from .interp import HObj, Frz, SEl, SFor, SIf, SOp, DSet, Tup, VIte, UNDEF, Unsup, BCls, Bi, BoundM, FObj
from .world import (World, NpArr, NpScal, ObjArr, Inst, FCls, Opaque, state_method, ATTRS, gen_x, gen_par, gen_pos, gen_label, fine_pool,
                    gen_sparse_row, XgbDf)

VERSION = const("0.23.2")
CASES = []


class Case(object):
    entry = None
    callm = None
    # True: converts and follows the reference; False: rejected at conversion; None: only the purity rules apply
    supported = True          # settings the pure implementation implements
    classifier = False

    def __init__(self, cid, family, make, **kw):
        self.id, self.family, self.make = cid, family, make
        self.convert_kw = {}
        self.inputs = {}        # name -> f(W)
        self.bad = {}           # malformed inputs
        self.methods = {}       # method -> tuple of valid input names
        self.specs = {}         # method -> f(S, inp) -> Obs
        self.modes = ("plain", "int")
        self.sparse_in = None   # None: no sparse container input; True: same result; False: rejected
        self.sparse_out = False
        self.attrs_probe = ()
        self.tags = set()
        self.ref_width = None
        self.rel = None           # relation between a result and the reference
        self.conv = None
        self.batch = {}           # method -> False when its argument is no batch
        self.bad_skip = ()
        self.bigmodes = ()        # magnitudes outside the range of exp
        self.crashmodes = ()
        self.crash_ok = None
        self.ambient_ok = None
        self.counterpart = cid.split("[")[0] + "Pure"
        self.nested = None
        self.late = False         # an unsupported setting that may also be rejected by the calls
        self.optional = {}        # methods the package may leave out, with the fitted formula
        self.also = ()            # methods the source has and the package does not judge
        self.self_inputs = ()
        self.ref_by_input = None  # reference value graph by (session, method, input name)
        self.bad_cond = {}        # malformed input -> condition on the valuation under which it is malformed
        self.out_width = None
        self.scores = None
        self.raises = False       # the reference's rejections must be rejections
        for k, v in kw.items():
            setattr(self, k, v)
        CASES.append(self)

    def __repr__(self):
        return self.id


def src(cname, attrs, module="sklearn", **over):
    a = dict(attrs)
    a.setdefault("__getstate__", state_method(VERSION))
    a.update(over)
    return Inst(cname, a, module, set(ATTRS[cname]) if cname in ATTRS else None)


# ------------------------------------------------------------------ shared symbols
def tie_axis(k, gen):
    """in mode "tie" the values may be the same for all indices of axis k"""
    def g(v, idx):
        if v.mode == "tie" and len(idx) > k and idx[k] != 0:
            name = g.name
            if v.c.setdefault(("tie", name), v.rng.random() < 0.7):
                return v.get(name, *(idx[:k] + (0,) + idx[k + 1:]))
        return gen(v, idx)
    return g


def anyof(W, name, supported, samples, k="str"):
    """a setting with any value that is not supported"""
    from . import core

    def g(v, idx):
        if k == "str":
            pool = [x for x in list(samples) + core.strings(v.S) + ["zz", ""] if x not in supported]
        else:
            pool = [x for c in list(samples) + [c for c in core.constants(v.S.convert()) if isinstance(c, int)] for x in (c - 1, c, c + 1) if x not in supported and x >= min(samples)]
        return v.rng.choice(pool)
    W.decl(name, k, g)
    return sym(name)


def par(W, name, dims, gen=gen_par, axis=None, k="float"):
    if axis is not None:
        gen = tie_axis(axis, gen)
        gen.name = name
    return W.arr(name, dims, k, gen)


def labels(W, C):
    return W.arr("classes", [C], "scal", gen_label)


def dense_inputs(case, F, N=None):
    """valid and malformed feature matrices for a model with F features (F: function of the world)"""
    case.inputs["dense"] = lambda W: W.dense(F(W))
    case.bad["empty"] = lambda W: W.I.alloc(HObj("list", (), {}, "input", ("input", 0, "input")))
    case.bad["nonlist"] = lambda W: (W.I.lift(ntup(W, F(W))),)and ([ntup(W, F(W))], {})
    case.bad["narrow"] = lambda W: W.dense(sub(F(W), ONE), name="Xn")
    case.bad["wide"] = lambda W: W.dense(add(F(W), ONE), name="Xw")
    case.bad["ragged"] = lambda W: W.dense(None, name="Xr", width=lambda i: ragged(W, F(W), i))
    case.bad["uneven"] = lambda W: W.dense(None, name="Xu", width=lambda i: uneven(W, F(W), i))


def uneven(W, F, i):
    """every row may have another width"""
    W.decl("rag", "int", lambda v, idx: v.rng.choice([-1, 1, 2, 0, 0, 0, 0]))
    return add(F, sym("rag", i))


def ragged(W, F, i):
    """first row has the right width, some later row has not"""
    W.decl("rag", "int", lambda v, idx: v.rng.choice([-1, 1, 0, 2]))
    if isconst(i):
        return F if cval(i) == 0 else add(F, ONE)
    return ite(eq(i, ZERO), F, add(F, ONE))


def ntup(W, F):
    """a matrix that is neither a list nor the sparse container: a tuple of rows"""
    W.decl("Xt", "num", gen_x)
    N = W.rows()

    def row(i):
        j = newidx(F)
        return Frz(HObj("list", (SFor(F, j, (SEl(sym("Xt", i, j)),)),), {}, "input", ("input", 0, "input")))
    return W.I.alloc(HObj("tuple", W.family(N, row), {}, "input", ("input", 0, "input")))


def sparse_inputs(case, F, ok=True):
    case.sparse_in = ok
    f = lambda W: W.sparse(F(W))
    if ok:
        case.inputs["sparse"] = f
        case.inputs["densified"] = lambda W: (W.sparse(F(W)), W.densified(F(W)))[1]
        case.bad["sparse_narrow"] = lambda W: W.sparse(sub(F(W), ONE), name="Xsn")
        case.bad["sparse_wide"] = lambda W: W.sparse(add(F(W), ONE), name="Xsw")
    else:
        case.bad["sparse"] = f


def sparse_ints(case, F, methods=None):
    """the sparse container with whole numbers (dtype int)"""
    case.inputs["sparse of int"] = lambda W: W.sparse(F(W), name="Xi", dtype="int")
    case.inputs["densified of int"] = lambda W: (W.sparse(F(W), name="Xi", dtype="int"), W.densified(F(W), name="Xi"))[1]
    for m in methods or case.methods:
        case.methods[m] = tuple(case.methods[m]) + ("sparse of int",)
    if "sparse" in (case.sparse_out or ()):
        case.sparse_out = tuple(case.sparse_out) + ("sparse of int",)


def szF(W):
    return W.sizes["F"] if "F" in W.sizes else W.size("F", 1, 3)


# ------------------------------------------------------------------ linear models
def linear(cname, binary, extra, tag, icpt="array", proba=None, module="sklearn.linear_model"):
    def make(W):
        F = szF(W)
        C = const(2) if binary else W.size("C", 3, 4)
        K = ONE if binary else C
        W.C = C
        W.coef = par(W, "coef", [K, F], axis=0)
        W.classes = labels(W, C)
        if icpt == "array":
            W.icpt = par(W, "icpt", [K], axis=0)
            ic = W.icpt
        else:
            W.decl("icpt", "float", gen_par)
            ic = {"float": sym("icpt"), "zero": const(0.0), "np": NpScal(sym("icpt"), "float")}[icpt]
            t = ic.t if isinstance(ic, NpScal) else ic
            W.icpt = W.list_of(K, lambda i: t, "spec")
        a = {"coef_": W.coef, "intercept_": ic, "classes_": W.classes}
        for k, v in extra.items():
            a[k] = const(v)
        return src(cname, a, module)
    case = Case("%s[%s,%s,%s]" % (cname, tag, "binary" if binary else "multi", icpt), "linear", make, classifier=True)
    dense_inputs(case, szF)
    sparse_inputs(case, szF)
    ins = ("dense", "sparse")
    case.methods = {"decision_function": ins, "predict": ins}
    case.specs = {
        "decision_function": lambda S, X: S.ref("linear_decision", S.W.coef, S.W.icpt, X),
        "predict": lambda S, X: S.ref("linear_predict", S.W.classes, S.W.coef, S.W.icpt, X)}
    case.scores = "decision_function"
    case.modes = ("plain", "int", "tie")
    if proba:
        case.methods["predict_proba"] = case.methods["predict_log_proba"] = ins
        case.specs["predict_proba"] = lambda S, X: S.ref("linear_" + proba, S.W.coef, S.W.icpt, X)
    if icpt == "zero":
        sparse_ints(case, szF)
    return case


for _b in (True, False):
    for _mc, _sv in (("ovr", "lbfgs"), ("ovr", "liblinear"), ("auto", "liblinear"), ("auto", "lbfgs"), ("multinomial", "lbfgs"), ("warn", "liblinear")):
        _p = "ovr" if _mc in ("ovr", "warn") or (_mc == "auto" and (_b or _sv == "liblinear")) else "multinomial"
        linear("LogisticRegression", _b, {"multi_class": _mc, "solver": _sv, "penalty": "l2"}, _mc + "/" + _sv, proba=_p, module="sklearn.linear_model._logistic")
    linear("LogisticRegression", _b, {"multi_class": "auto", "solver": "liblinear"}, "nointercept", icpt="zero", proba="ovr")
    for _l in ("log", "hinge"):
        linear("SGDClassifier", _b, {"loss": _l}, _l, proba="ovr" if _l == "log" else None)
    _c = linear("SGDClassifier", _b, {"loss": "modified_huber"}, "modified_huber")
    _c.also = ("predict_proba", "predict_log_proba")
    _c.optional = {"predict_proba": lambda S, X: S.ref("linear_huber", S.W.coef, S.W.icpt, X)}
    linear("RidgeClassifier", _b, {"solver": "auto"}, "", icpt="array")
    linear("RidgeClassifier", _b, {"solver": "auto"}, "", icpt="zero")
    linear("Perceptron", _b, {"loss": "perceptron"}, "")
    linear("PassiveAggressiveClassifier", _b, {"loss": "hinge"}, "")
    linear("LinearSVC", _b, {"loss": "squared_hinge", "multi_class": "ovr"}, "", module="sklearn.svm._classes")
    linear("LinearSVC", _b, {"loss": "squared_hinge", "multi_class": "ovr"}, "", icpt="zero")
    linear("LinearSVC", _b, {"loss": "squared_hinge", "multi_class": "ovr"}, "", icpt="np")


# ------------------------------------------------------------------ naive Bayes, dummy
PROBA = ("predict", "predict_proba", "predict_log_proba")


def gen_prior(v, idx):
    if v.mode == "fine":
        return v.rng.uniform(0.01, 0.99)
    return v.rng.choice([0.25, 0.5, 0.125, 0.3])


def gen_neg(v, idx):
    if v.mode == "fine":
        return -v.rng.uniform(0.0, 25.0)
    return v.rng.choice([-0.5, -1.0, -2.25, -0.125, -3.0])


def nb(cname, one=False):
    def make(W):
        F = szF(W)
        C = ONE if one else W.size("C", 2, 4)
        W.C = C
        W.classes = labels(W, C)
        if cname == "GaussianNB":
            W.prior = par(W, "prior", [C], gen_prior, 0)
            W.theta = par(W, "theta", [C, F], gen_par, 0)
            W.sigma = par(W, "sigma", [C, F], gen_pos, 0)
            a = {"class_prior_": W.prior, "theta_": W.theta, "sigma_": W.sigma}
        else:
            W.prior = par(W, "logprior", [C], gen_neg, 0)
            W.flp = par(W, "flp", [C, F], gen_neg, 0)
            a = {"class_log_prior_": W.prior, "feature_log_prob_": W.flp}
        a["classes_"] = W.classes
        return src(cname, a, "sklearn.naive_bayes")
    case = Case("%s[%s]" % (cname, "one class" if one else "classes"), "nb", make, classifier=True)
    dense_inputs(case, szF)
    sparse_inputs(case, szF, ok=False)
    case.modes = ("plain", "int", "pos", "tie") if cname == "GaussianNB" else ("pos", "int", "tie")
    for m in PROBA:
        case.methods[m] = ("dense",)
        if cname == "GaussianNB":
            case.specs[m] = lambda S, X, m=m: S.ref("gaussian_nb", S.W.classes, S.W.prior, S.W.theta, S.W.sigma, X, m)
        else:
            f = "multinomial_nb" if cname == "MultinomialNB" else "complement_nb"
            case.specs[m] = lambda S, X, m=m, f=f: S.ref(f, S.W.classes, S.W.prior, S.W.flp, X, m)
    case.scores = "predict_log_proba"
    return case


for _c in ("GaussianNB", "MultinomialNB", "ComplementNB"):
    nb(_c)
    nb(_c, True)


def simplex(v, name, n):
    """a probability vector drawn once"""
    k = ("simplex", name)
    if k not in v.c:
        w = [v.rng.choice([0.0, 1.0, 1.0, 2.0, 3.0]) for _ in range(n)]
        if v.mode == "tie":
            w = [1.0] * n
        if v.mode == "fine":
            w = [10.0 ** v.rng.uniform(-14, 0) for _ in range(n)] if v.rng.random() < 0.5 else [v.rng.random() for _ in range(n)]
        if sum(w) == 0:
            w[v.rng.randrange(n)] = 1.0
        v.c[k] = [x / sum(w) for x in w]
    return v.c[k]


def dummy_src(W, C, strategy="prior", under=True, pre=(), arange=False, name="dprior", npints=False):
    prior = W.arr(name, [C], "float", lambda v, idx: simplex(v, name, t_.ev(C, v))[idx[0]])
    classes = NpArr("arange", [C], "int", (), elem=lambda i: i) if arange else labels(W, C)
    a = {"classes_": classes, "class_prior_": prior, "n_classes_": C, "n_outputs_": ONE, "strategy": const(strategy),
         "_strategy": const(strategy) if under else UNDEF, "constant": NONE, "random_state": NONE, "sparse_output_": FALSE}
    if npints:
        a["n_classes_"], a["n_outputs_"] = NpScal(C, "int"), NpScal(ONE, "int")
    return src("DummyClassifier", a, "sklearn.dummy"), classes, prior


def dummy(strategy, under, npints=False):
    def make(W):
        szF(W)
        W.C = C = W.size("C", 1, 4)
        s, W.classes, W.prior = dummy_src(W, C, strategy, under, npints=npints)
        if strategy == "any":
            st = anyof(W, "strategy", ("prior",), ("stratified", "most_frequent", "constant", "uniform", "Prior"))
            s.attrs["strategy"] = st
            if under:
                s.attrs["_strategy"] = st
        return s
    case = Case("DummyClassifier[%s%s%s]" % (strategy, "" if under else ",old", ",np" if npints else ""), "dummy", make, classifier=True)
    case.supported = strategy == "prior"
    if npints:
        case.supported = None      # never produced by the source library; only the purity rule applies
    case.inputs["dense"] = lambda W: W.dense(szF(W))
    case.sparse_in = True
    case.inputs["sparse"] = lambda W: W.sparse(szF(W))
    case.inputs["densified"] = lambda W: (W.sparse(szF(W)), W.densified(szF(W)))[1]
    for m in PROBA:
        case.methods[m] = ("dense", "sparse")
        case.specs[m] = lambda S, X, m=m: S.ref("dummy", S.W.classes, S.W.prior, X, m)
    case.scores = "predict_proba"
    case.modes = ("plain", "tie")
    return case


for _s in ("prior", "most_frequent", "stratified", "uniform", "constant", "any"):
    dummy(_s, True)
    dummy(_s, False)
dummy("prior", True, True)


# ------------------------------------------------------------------ trees
def fine_leaf(v):
    return v.c.setdefault("fine leaf", v.rng.choice([1e-5, 1e-3, 1.0, 1.0, 100.0])) * v.rng.uniform(-1, 1)


def tree_gen(W, tag, F, C, reg):
    """well-formed random trees; one per index prefix"""
    def tree(v, pre):
        k = ("tree", tag, pre)
        if k in v.c:
            return v.c[k]
        r = v.rng
        nf = F(v, pre)
        nodes = []

        def build(d):
            i = len(nodes)
            nodes.append(None)
            if d >= 3 or r.random() < (0.15 if d == 0 else 0.4):
                l = rr = -1
                f, th = -2, -2.0
            else:
                f = r.randrange(nf)
                th = r.choice([0.0, 1.0, -1.0, 0.5, 2.0, 0.0, 0.25, 800.0] if v.mode == "big" else [0.0, 1.0, -1.0, 0.5, 2.0, 0.0, 0.25])
                if v.mode == "fine":
                    th = r.choice(fine_pool(v))
                elif r.random() < 0.1:
                    th = -2.0
                l = build(d + 1)
                rr = build(d + 1)
            if reg:
                val = [r.choice([0.5, -0.5, 300.0, -9000.0, -2.0, 9000.0] if v.mode == "big" else [0.5, -0.5, 1.0, 0.25, -2.0, 3.0])]
                if v.mode == "tie" and r.random() < 0.8:
                    val = [0.0]
                if v.mode == "fine":
                    val = [fine_leaf(v)]
            else:
                nc = C(v, pre)
                val = [float(r.choice([0, 0, 1, 2, 3, 5])) for _ in range(nc)]
                if v.mode == "tie" and r.random() < 0.7:
                    val = [2.0] * nc
                if v.mode == "fine":
                    val = [r.choice([0.0, r.uniform(0, 5), r.uniform(0, 5)]) for _ in range(nc)]
                if sum(val) == 0:
                    val[r.randrange(nc)] = 4.0
            nodes[i] = (l, rr, f, th, val)
            return i
        build(0)
        v.c[k] = nodes
        return nodes
    return tree


class TreeFam(object):
    """symbols of a family of scikit-learn trees indexed by a prefix"""

    def __init__(self, W, tag, npre, F, C, reg, Fterm, Cterm):
        self.W, self.tag, self.reg, self.Fterm, self.Cterm = W, tag, reg, Fterm, Cterm
        g = tree_gen(W, tag, F, C, reg)
        k = npre
        t_.SIZEMIN[tag + "n"] = 1
        W.decl(tag + "n", "int", lambda v, idx: len(g(v, idx)))
        for nm, pos, kk in (("left", 0, "int"), ("right", 1, "int"), ("feature", 2, "int"), ("threshold", 3, "float")):
            W.decl(tag + nm, kk, lambda v, idx, pos=pos: g(v, idx[:k])[idx[k]][pos])
        W.decl(tag + "value", "float", lambda v, idx: g(v, idx[:k])[idx[k]][4][idx[k + 2]])

    def arrs(self, pre):
        n = lambda *p: sym(self.tag + "n", *p[:len(pre)])
        d = {nm: NpArr(self.tag + nm, [n], kk, pre) for nm, kk in (("left", "int"), ("right", "int"), ("feature", "int"), ("threshold", "float"))}
        C = ONE if self.reg else lambda *p: self.Cterm(*p[:len(pre)])
        d["value"] = NpArr(self.tag + "value", [n, ONE, C], "float", pre)
        return d

    def inst(self, cname, pre, **over):
        d = self.arrs(pre)
        ta = {"children_left": d["left"], "children_right": d["right"], "feature": d["feature"], "threshold": d["threshold"],
              "value": d["value"], "n_features": self.Fterm(*pre), "n_outputs": ONE, "node_count": sym(self.tag + "n", *pre)}
        tr = Inst("Tree", ta, "sklearn.tree._tree", set(ATTRS["Tree"]))
        a = {"tree_": tr, "n_outputs_": ONE, "n_features_": self.Fterm(*pre), "classes_": NONE if self.reg else over.pop("classes_")}
        a.update(over)
        return src(cname, a, "sklearn.tree._classes")

    def spec(self, pre, extra=None):
        """the same tree as a dictionary of plain lists"""
        ds = []
        for nm, a in self.arrs(pre).items():
            ds.append(DSet(const(nm), Frz(HObj("list", a.segs(False), {}, "spec"))))
        for k, v in (extra or {}).items():
            ds.append(DSet(const(k), Frz(HObj("list", v.segs(False), {}, "spec")) if isinstance(v, NpArr) else v))
        return Frz(HObj("dict", tuple(ds), {}, "spec"))


def szC(W, lo=2):
    return W.sizes["C"] if "C" in W.sizes else W.size("C", lo, 4)


def evt(t):
    return lambda v, pre: t_.ev(t, v)


def tree(cname, reg, outputs=1, npout=False):
    def make(W):
        F = szF(W)
        C = szC(W, 1)
        W.C = C
        fam = W.tree = TreeFam(W, "t", 0, evt(F), evt(C), reg, lambda: F, lambda: C)
        over = {}
        if not reg:
            W.classes = over["classes_"] = labels(W, C)
            over["n_classes_"] = C
        if outputs == "any":
            over["n_outputs_"] = anyof(W, "nout", (), (2, 3, 5), "int")
            t_.SIZEMIN["nout"] = 2
        elif outputs != 1:
            over["n_outputs_"] = const(outputs)
        if npout:
            over["n_outputs_"] = NpScal(ONE, "int")
            over["n_features_"] = NpScal(F, "int")
        return fam.inst(cname, (), **over)
    case = Case("%s[%s]" % (cname, "outputs=%s" % outputs if outputs != 1 else "np" if npout else ""), "tree", make, classifier=not reg)
    dense_inputs(case, szF)
    sparse_inputs(case, szF)
    case.supported = outputs == 1
    case.modes = ("plain", "int", "tie")
    for m in (("predict",) if reg else PROBA):
        case.methods[m] = ("dense", "sparse")
        if reg:
            case.specs[m] = lambda S, X: S.ref("tree_reg", S.I.lift(S.W.tree.spec(())), X)
        else:
            case.specs[m] = lambda S, X, m=m: S.ref("tree_class", S.I.lift(S.W.tree.spec(())), S.W.classes, X, m)
    if not reg:
        case.scores = "predict_proba"
    return case


for _c, _r in (("DecisionTreeClassifier", False), ("ExtraTreeClassifier", False), ("DecisionTreeRegressor", True), ("ExtraTreeRegressor", True)):
    tree(_c, _r)
    tree(_c, _r, npout=True)
    tree(_c, _r, 2)
    tree(_c, _r, "any")


# ------------------------------------------------------------------ bagging, forests
def subset(v, key, n, k=None, allow_all=True):
    if key not in v.c:
        xs = list(range(n))
        if k is None:
            k = v.rng.randint(1, n)
        s = sorted(v.rng.sample(xs, k))
        v.c[key] = s
    return v.c[key]


def forest(cname, member, feats=False, partial=False, npn=False):
    def make(W):
        F, C = szF(W), szC(W)
        M = W.size("M", 1, 3)
        W.C, W.classes = C, labels(W, C)
        if feats:
            Fm = W.size("Fm", 1, 2)
            W.decl("feats", "int", lambda v, idx: v.c.setdefault(("feats", idx[0]), [v.rng.randrange(t_.ev(F, v)) for _ in range(4)])[idx[1]])
        else:
            Fm = F
        farr = lambda m: NpArr("feats", [Fm], "int", (m,))
        if partial:
            t_.SIZEMIN["mC"] = 1
            sel = lambda v, m: subset(v, ("mcls", m), t_.ev(C, v))
            W.decl("mC", "int", lambda v, idx: len(sel(v, idx[0])))
            W.decl("mcls", "int", lambda v, idx: sel(v, idx[0])[idx[1]])
            carr = lambda m: NpArr("mcls", [lambda *p: sym("mC", p[0])], "int", (m,))
            mC = lambda m: sym("mC", m)
            mCv = lambda v, pre: len(sel(v, pre[0]))
        else:
            carr = lambda m: NpArr("arange", [C], "int", (), elem=lambda i: i)
            mC = lambda m: C
            mCv = evt(C)
        fam = W.tree = TreeFam(W, "t", 1, evt(Fm), mCv, False, lambda m: Fm, mC)
        W.farr, W.carr, W.M = farr, carr, M
        a = {"estimators_": W.source_list(M, lambda m: fam.inst(member, (m,), classes_=carr(m), n_classes_=mC(m))),
             "n_features_": NpScal(F, "int") if npn else F, "classes_": W.classes, "n_classes_": C, "n_outputs_": ONE}
        if cname == "BaggingClassifier":
            a["estimators_features_"] = W.source_list(M, farr) if feats else UNDEF
        return src(cname, a, "sklearn.ensemble")
    case = Case("%s[%s%s%s%s]" % (cname, member, ",features" if feats else "", ",missing classes" if partial else "", ",np" if npn else ""), "bagging", make, classifier=True)
    dense_inputs(case, szF)
    sparse_inputs(case, szF)
    case.modes = ("plain", "tie")
    case.scores = "predict_proba"

    def spec(S, X, m):
        W = S.W
        ex = lambda i: dict(([("feats", W.farr(i))] if feats else []) + ([("classes", W.carr(i))] if partial else []))
        T = W.list_of(W.M, lambda i: W.tree.spec((i,), ex(i)), "spec")
        return S.ref("forest", T, W.classes, X, m, const(feats), const(partial))
    for m in PROBA:
        case.methods[m] = ("dense", "sparse")
        case.specs[m] = lambda S, X, m=m: spec(S, X, m)
    return case


forest("RandomForestClassifier", "DecisionTreeClassifier")
forest("ExtraTreesClassifier", "ExtraTreeClassifier")
forest("RandomForestClassifier", "DecisionTreeClassifier", npn=True)
forest("BaggingClassifier", "DecisionTreeClassifier")
forest("BaggingClassifier", "DecisionTreeClassifier", feats=True)
forest("BaggingClassifier", "DecisionTreeClassifier", feats=True, partial=True)


def bag_linear(binary):
    def make(W):
        F = szF(W)
        C = const(2) if binary else W.size("C", 3, 4)
        K = ONE if binary else C
        M = W.size("M", 1, 3)
        Fm = W.size("Fm", 1, 2)
        W.C, W.classes, W.M = C, labels(W, C), M
        W.decl("feats", "int", lambda v, idx: v.c.setdefault(("feats", idx[0]), [v.rng.randrange(t_.ev(F, v)) for _ in range(4)])[idx[1]])
        W.decl("mcoef", "float", gen_par)
        W.decl("micpt", "float", gen_par)
        W.mk = lambda m: (NpArr("mcoef", [K, Fm], "float", (m,)), NpArr("micpt", [K], "float", (m,)), NpArr("feats", [Fm], "int", (m,)))

        def mem(m):
            co, ic, fe = W.mk(m)
            return src("LogisticRegression", {"coef_": co, "intercept_": ic, "classes_": NpArr("arange", [C], "int", (), elem=lambda i: i),
                                              "multi_class": const("ovr"), "solver": const("liblinear")}, "sklearn.linear_model._logistic")
        a = {"estimators_": W.source_list(M, mem), "estimators_features_": W.source_list(M, lambda m: W.mk(m)[2]),
             "n_features_": F, "classes_": W.classes, "n_classes_": C}
        return src("BaggingClassifier", a, "sklearn.ensemble._bagging")
    case = Case("BaggingClassifier[LogisticRegression,%s]" % ("binary" if binary else "multi"), "bagging", make, classifier=True)
    dense_inputs(case, szF)
    sparse_inputs(case, szF)
    case.scores = "predict_proba"
    case.modes = ("plain",)

    def spec(S, X, m):
        W = S.W

        def d(i):
            co, ic, fe = W.mk(i)
            return Frz(HObj("dict", tuple(DSet(const(k), Frz(HObj("list", a.segs(False), {}, "spec"))) for k, a in (("coef", co), ("icpt", ic), ("feats", fe))), {}, "spec"))
        return S.ref("bag_linear", W.list_of(W.M, d, "spec"), W.classes, X, m, const(binary))
    for m in PROBA:
        case.methods[m] = ("dense", "sparse")
        case.specs[m] = lambda S, X, m=m: spec(S, X, m)


bag_linear(True)
bag_linear(False)


# ------------------------------------------------------------------ gradient boosting
def tie_zero(v, idx):
    if v.mode == "tie" and v.c.setdefault("tie zero", v.rng.random() < 0.8):
        return 0.0
    return gen_par(v, idx)


def gbc(loss, init, rate="float", binary=True, supported=True):
    def make(W):
        F = szF(W)
        C = const(2) if binary else W.size("C", 3, 5)
        K = ONE if binary else C
        R = W.size("R", 1, 3)
        W.C, W.classes, W.K, W.R = C, labels(W, C), K, R
        fam = W.tree = TreeFam(W, "t", 2, evt(F), None, True, lambda r, k: F, None)
        W.decl("rate", "float", lambda v, idx: v.rng.uniform(0.01, 1) if v.mode == "fine" else v.rng.choice([0.1, 0.5, 1.0, 0.25]))
        rt = {"float": sym("rate"), "np": NpScal(sym("rate"), "float"), "int": ONE}[rate]
        W.rate = ONE if rate == "int" else sym("rate")
        if init == "zero":
            ini = const("zero")
        elif init == "dummy":
            ini, _, W.prior = dummy_src(W, C, arange=True)
        else:
            ini = src("LogisticRegression", {"coef_": par(W, "icoef", [K, F], tie_zero), "intercept_": par(W, "iicpt", [K], tie_zero), "classes_": NpArr("arange", [C], "int", (), elem=lambda i: i),
                                             "multi_class": const("ovr"), "solver": const("liblinear")}, "sklearn.linear_model._logistic")
        a = {"classes_": W.classes, "estimators_": ObjArr([R, K], lambda r, k: fam.inst("DecisionTreeRegressor", (r, k))), "init_": ini,
             "loss": anyof(W, "gbloss", ("deviance", "exponential"), ("ls", "log_loss", "huber", "dev")) if loss == "any" else const(loss), "learning_rate": rt, "n_features_": F, "n_estimators_": R, "n_classes_": C, "init": NONE}
        return src("GradientBoostingClassifier", a, "sklearn.ensemble._gb")
    case = Case("GradientBoostingClassifier[%s,%s,%s,%s]" % (loss, "binary" if binary else "multi", init, rate), "gb", make, classifier=True)
    case.supported = supported
    dense_inputs(case, szF)
    sparse_inputs(case, szF, ok=False)
    case.scores = "predict_proba"
    case.modes = ("plain", "tie")

    def spec(S, X, m):
        W = S.W
        T = W.list_of(W.R, lambda r: Frz(HObj("list", W.family(W.K, lambda k: W.tree.spec((r, k))), {}, "spec")), "spec")
        if init == "zero":
            ip = NONE
        elif init == "dummy":
            ip = S.ref("dummy", [] if False else W.list_of(ZERO, lambda i: ZERO), W.prior, X, "predict_proba").value
        else:
            ip = S.ref("linear_ovr", NpArr("icoef", [W.K, W.sizes["F"]], "float"), NpArr("iicpt", [W.K], "float"), X).value
        return S.ref("gb", T, W.rate, W.K, W.classes, X, m, {"deviance": "binary" if binary else "multi"}.get(loss, loss), ip)
    for m in PROBA:
        case.methods[m] = ("dense",)
        case.specs[m] = lambda S, X, m=m: spec(S, X, m)
    return case


for _b in (True, False):
    gbc("deviance", "dummy", "float", _b)
    gbc("deviance", "zero", "np", _b)
gbc("any", "dummy", "float", True, False)
gbc("any", "dummy", "float", False, False)
gbc("deviance", "linear", "float", True)
gbc("deviance", "linear", "float", False)
gbc("exponential", "dummy", "float")
gbc("exponential", "zero", "int")
gbc("ls", "dummy", "float", True, False)


# ------------------------------------------------------------------ XGBoost
def xtree_gen(W, F):
    def tree(v, t):
        k = ("xtree", t)
        if k in v.c:
            return v.c[k]
        r = v.rng
        nf = t_.ev(F, v)
        nodes = []
        NAN = float("nan")

        def build(d):
            i = len(nodes)
            nodes.append(None)
            if d >= 3 or r.random() < (0.15 if d == 0 else 0.4):
                nodes[i] = {"Split": NAN, "Gain": fine_leaf(v) if v.mode == "fine" else 0.0 if v.mode == "tie0" and r.random() < 0.8 else r.choice([0.5, -0.5, 0.25, -1.0] + ([600.0, -900.0, 900.0] if v.mode == "big" else [2.0])), "Yes": NAN, "No": NAN, "Missing": NAN, "Feature": "Leaf"}
            else:
                f = r.randrange(nf)
                n = dict(Split=r.choice(fine_pool(v)) if v.mode == "fine" else r.choice([0.0, 1.0, -1.0, 0.5, 2.0, 0.25]), Gain=r.choice([10.0, 3.5]), Feature="f%d" % f)
                a, b = build(d + 1), build(d + 1)
                n["Yes"], n["No"] = "%d-%d" % (t, a), "%d-%d" % (t, b)
                n["Missing"] = r.choice([n["Yes"], n["No"]])
                nodes[i] = n
            return i
        if v.mode == "tie" and t > 0 and v.rng.random() < 0.8:
            base = tree(v, 0)
            nodes = []
            for n in base:
                n = dict(n)
                for q in ("Yes", "No", "Missing"):
                    if isinstance(n[q], str):
                        n[q] = "%d-%s" % (t, n[q].split("-")[1])
                nodes.append(n)
        else:
            build(0)
        v.c[k] = nodes
        return nodes
    return tree


def xgb(objective, booster="gbtree", base="float", best=False, supported=True, nfeat=True, tag="", two=False, **extra):
    binary = objective not in ("multi:softprob", "any multi")

    def make(W):
        F = szF(W)
        if W.bounded is None:
            W.gens["F"] = lambda v, idx: v.rng.choice([1, 2, 3, 12])
        C = const(2) if binary or two else W.size("C", 3, 5)
        R = W.size("R", 1, 3)
        W.C, W.classes, W.R = C, labels(W, C), R
        g = xtree_gen(W, F)
        t_.SIZEMIN["xnodes"] = 1
        W.decl("xnodes", "int", lambda v, idx: len(g(v, idx[0])))
        for nm, col, kk in (("xsplit", "Split", "float"), ("xgain", "Gain", "float"), ("xyes", "Yes", "scal"), ("xno", "No", "scal"),
                            ("xmissing", "Missing", "scal"), ("xfeature", "Feature", "str")):
            W.decl(nm, kk, lambda v, idx, col=col: g(v, idx[0])[idx[1]][col])
        W.decl("base", "float", lambda v, idx: 0.5 if v.mode == "tie0" else v.rng.uniform(0.01, 0.99) if v.mode == "fine" else v.rng.choice([0.5, 0.3, 0.75]))
        W.base = const(0.5) if base == "none" else sym("base")
        rounds = R
        a = {}
        if best:
            W.size("B", 0, 2)
            W.reqs.append(lambda v: v.get("B") < v.get("R"))
            if W.bounded is not None:
                W.reqs.pop()
            rounds = add(sym("B") if W.bounded is None else W.sizes["B"], ONE)
            a["best_iteration"] = sym("B") if W.bounded is None else W.sizes["B"]
            a["best_ntree_limit"] = rounds
        else:
            a["best_iteration"] = UNDEF
            a["best_ntree_limit"] = UNDEF
        W.rounds = rounds
        bo = Inst("Booster", {"trees_to_dataframe": Bi("trees_to_dataframe", lambda I, x, k: XgbDf(W))}, "xgboost.core", set(ATTRS["Booster"]))
        if objective.startswith("any"):
            objective_ = anyof(W, "objective", ("binary:logistic", "multi:softprob"), ("multi:softmax", "reg:logistic", "count:poisson", "binary:logitraw", "survival:cox"))
        else:
            objective_ = const(objective)
        booster_ = NONE if booster is None else anyof(W, "booster", ("gbtree",), ("gblinear", "dart")) if booster == "any" else const(booster)
        a.update({"objective": objective_, "booster": booster_, "num_parallel_tree": NONE, "enable_categorical": FALSE,
                  "missing": const(float("nan")), "classes_": W.classes, "n_features_in_": F if nfeat else UNDEF, "n_classes_": C, "n_estimators": R,
                  "base_score": {"none": NONE, "float": sym("base"), "np": NpScal(sym("base"), "float")}[base],
                  "get_booster": Bi("get_booster", lambda I, x, k: bo)})
        for k, v in extra.items():
            a[k] = v(W) if callable(v) else v
        return src("XGBClassifier", a, "xgboost.sklearn")
    case = Case("XGBClassifier[%s,%s,base %s%s%s%s]" % (objective, booster, base, ",early stopping" if best else "", "" if nfeat else ",old", tag), "xgb", make, classifier=True)
    case.supported = supported
    case.also = ("predict_log_proba",)
    dense_inputs(case, szF)
    if not nfeat:
        for k in ("narrow", "wide", "ragged", "uneven"):
            case.bad.pop(k)
    sparse_inputs(case, szF, ok=False)
    case.scores = "predict_proba"
    case.modes = ("plain", "nan", "int") + (("tie0",) if binary else ("tie",))

    def spec(S, X, m):
        W = S.W
        fz = lambda t: Frz(S.I.obj(W.xgb_tree(S.I, t)))
        if binary:
            T = W.list_of(W.rounds, fz, "spec")
            return S.ref("xgb_binary", T, W.base, W.classes, X, m)
        C = W.C
        T = W.list_of(W.rounds, lambda r: Frz(HObj("list", W.family(C, lambda k: fz(add(mk("mul", (r, C)), k))), {}, "spec")), "spec")
        return S.ref("xgb_multi", T, C, W.classes, X, m)
    for m in ("predict", "predict_proba"):
        case.methods[m] = ("dense",)
        case.specs[m] = lambda S, X, m=m: spec(S, X, m)
    return case


for _o in ("binary:logistic", "multi:softprob"):
    xgb(_o)
    xgb(_o, booster=None, base="none")
    xgb(_o, base="np", best=True)
    xgb(_o, nfeat=False)
    for _bo in ("gblinear", "dart"):
        xgb(_o, booster=_bo, supported=False)
for _o in ("binary:hinge", "multi:softmax", "binary:logitraw", "reg:squarederror", "rank:pairwise"):
    xgb(_o, supported=False)
xgb("multi:softprob", two=True, tag=",two classes")
for _o in ("any binary", "any multi"):
    xgb(_o, supported=False)
for _o in ("binary:logistic", "multi:softprob"):
    xgb(_o, booster="any", supported=False)
    xgb(_o, supported=False, num_parallel_tree=lambda W: anyof(W, "npt", (), (2, 3, 10), "int"), tag=",num_parallel_tree any")
xgb("binary:logistic", supported=False, missing=lambda W: (W.decl("xmiss", "float", lambda v, idx: v.rng.choice([0.0, -1.0, -999.0, 9999.0, 0.5, float("inf")])), sym("xmiss"))[1], tag=",missing any")
xgb("binary:logistic", supported=False, num_parallel_tree=const(4), tag=",num_parallel_tree")
xgb("binary:logistic", supported=False, enable_categorical=TRUE, tag=",categorical")
xgb("binary:logistic", supported=False, missing=const(0.0), tag=",missing=0")

for _c in CASES:
    if _c.family == "linear" or _c.id.startswith("GaussianNB") or _c.family in ("gb", "xgb"):
        _c.bigmodes = ("big",)
    elif _c.family == "nb":
        _c.bigmodes = ("bigpos",)

from . import cases2  # noqa
from . import cases3  # noqa
from . import cases4  # noqa

for _c in CASES:
    if _c.family in ("linear", "nb", "tree", "bagging", "gb", "xgb", "dummy", "scaler", "impute", "encoder", "tfidf", "function", "pairwise", "dictvec", "fasttext-vec", "fasttext"):
        _c.modes += ("fine",)
