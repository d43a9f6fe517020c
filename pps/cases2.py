"""Configurations of the transformers, pipelines, fastText and pairwise functions."""
import math

from . import terms as t_
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, isconst, cval, kind, fn, newidx, sym, add, sub, mk, eq, ite
from .interp import (HObj, Frz, SEl, SFor, SIf, SOp, DSet, Tup, VIte, UNDEF, Unsup, BCls, Bi, BoundM, FObj)
from .world import (NpArr, NpScal, NpType, ObjArr, Inst, FCls, Opaque, state_method, ATTRS, gen_x, gen_par, gen_pos, gen_label, spooled, fine_x, fine_pos,
                    gen_sparse_row)
from .cases import Case, anyof, ragged, uneven, src, par, szF, dense_inputs, sparse_inputs, sparse_ints, VERSION, evt, subset, ntup
from .core import densify, close, AnchorError

DENS = lambda x: densify(x)


def fseq(*items):
    return Frz(HObj("list", tuple(SEl(x) for x in items), {}, "source"))


# ------------------------------------------------------------------ scalers
def scaler(cname, tag, make, spec, sparse=None, out=None, modes=("plain", "int")):
    case = Case("%s[%s]" % (cname, tag), "scaler", make)
    dense_inputs(case, szF)
    case.modes = modes
    if sparse is not None:
        sparse_inputs(case, szF, ok=sparse)
    case.methods = {"transform": ("dense",) + (("sparse",) if sparse else ())}
    case.specs = {"transform": spec}
    case.conv = DENS
    if sparse:
        case.sparse_out = ("sparse",)
        case.out_width = lambda S, v: t_.ev(S.W.sizes["F"], v)
        sparse_ints(case, szF)
    return case


def gen_scale(v, idx):
    if v.mode == "fine":
        return fine_pos(v)
    return v.rng.choice([0.5, 1.0, 2.0, 0.25, 1.5, 4.0, 3.0])


def std(mean, scale, with_mean=None, old=False):
    """mean, scale: whether the fitted attribute exists"""
    with_mean = mean if with_mean is None else with_mean

    def make(W):
        F = szF(W)
        me = par(W, "mean", [F]) if mean else NONE
        sc = par(W, "scale", [F], gen_scale) if scale else NONE
        W.me, W.sc = me, sc
        a = {"with_mean": const(with_mean), "with_std": const(scale), "mean_": me, "scale_": sc, "copy": W.flag("copy"),
             "var_": NpArr("var", [F], "float", (), elem=lambda i: mk("mul", (sym("scale", i), sym("scale", i)))) if scale else NONE,
             "n_features_in_": UNDEF if old else F, "n_samples_seen_": const(20)}
        return src("StandardScaler", a, "sklearn.preprocessing._data")
    def spec(S, X):
        W = S.W
        z = W.list_of(ZERO, lambda i: ZERO, "spec")
        return S.ref("std_scaler", z if not mean else W.me, z if not scale else W.sc, const(with_mean), const(scale), X)
    case = scaler("StandardScaler", "%s%s%s" % ("mean," if with_mean else "mean unused," if mean else "", "std" if scale else "", ",old" if old else ""),
                  make, spec, sparse=not with_mean)
    if not mean and not scale:
        # no fitted array tells the width
        for k in ("narrow", "wide", "ragged", "uneven", "sparse_narrow", "sparse_wide"):
            case.bad.pop(k, None)
    if not scale:
        # sparse data passes through unscaled
        pass
    return case


std(True, True)
std(True, True, with_mean=False)
std(False, True)
std(True, False)
std(True, False, with_mean=False)
std(False, False)
std(True, True, old=True)


def mm(aslist=False):
    def make(W):
        F = szF(W)
        W.sc, W.mi = par(W, "mmscale", [F], gen_scale), par(W, "min", [F])
        lo, hi = const(0), const(1)
        fr = W.I.alloc(HObj("list", (SEl(lo), SEl(hi)), {}, "source", ("source", 0, "source"))) if aslist else Tup([lo, hi])
        a = {"scale_": W.sc, "min_": W.mi, "feature_range": fr, "copy": W.flag("copy"), "n_features_in_": F, "n_samples_seen_": const(20)}
        return src("MinMaxScaler", a, "sklearn.preprocessing._data")
    scaler("MinMaxScaler", "list range" if aslist else "", make, lambda S, X: S.ref("minmax_scaler", S.W.sc, S.W.mi, X), sparse=False)


mm()
mm(True)


def ma():
    def make(W):
        F = szF(W)
        W.sc = par(W, "mabs", [F], gen_scale)
        a = {"scale_": W.sc, "max_abs_": NpArr("maxabs", [F], "float", (), elem=lambda i: sym("mabs", i)), "copy": W.flag("copy"), "n_features_in_": F, "n_samples_seen_": const(20)}
        return src("MaxAbsScaler", a, "sklearn.preprocessing._data")
    scaler("MaxAbsScaler", "", make, lambda S, X: S.ref("maxabs_scaler", S.W.sc, X), sparse=True)


ma()


def nrm(norm):
    def make(W):
        szF(W)
        return src("Normalizer", {"norm": const(norm), "copy": W.flag("copy"), "n_features_in_": szF(W)}, "sklearn.preprocessing._data")
    case = scaler("Normalizer", norm, make, lambda S, X: S.ref("normalizer", const(norm), X), sparse=True)
    for k in ("narrow", "wide", "ragged", "uneven", "sparse_narrow", "sparse_wide"):
        case.bad.pop(k, None)
    case.modes = ("plain", "int", "zero")


for _n in ("l1", "l2", "max"):
    nrm(_n)


def public(S, modname, name):
    m = S.I.load(modname)
    if m is None or name not in m.env:
        raise AnchorError("%s.%s" % (modname, name))
    return m.env[name]


def function(cid, family, modname, fname, methods, specs, inputs, bad=None, **kw):
    """a public function: `methods` are names for its argument patterns"""
    def make(W):
        szF(W)
        return NONE
    case = Case(cid, family, make, **kw)
    case.counterpart = None
    case.entry = lambda S: NONE
    case.callm = lambda S, m: public(S, modname, fname)
    case.inputs = inputs
    case.bad = bad or {}
    case.methods = methods
    case.specs = specs
    return case


def normfn(norm, axis, ret):
    def kwd(W):
        d = {}
        if norm != "l2":
            d["norm"] = const(norm)
        if axis != 1:
            d["axis"] = const(axis)
        if ret:
            d["return_norm"] = TRUE
        return d
    inputs = {"dense": lambda W: ([W.dense(szF(W))], kwd(W)), "sparse": lambda W: ([W.sparse(szF(W))], kwd(W)),
              "densified": lambda W: (W.sparse(szF(W)), ([W.densified(szF(W))], kwd(W)))[1]}
    sp = axis == 1 and not (ret and norm != "max")
    ins = ("dense", "sparse") if sp else ("dense",)
    bad = {"empty": lambda W: ([W.I.alloc(HObj("list", (), {}, "input", ("input", 0, "input")))], kwd(W))}
    ntup_ = lambda W: ([ntup(W, szF(W))], kwd(W))
    bad["nonlist"] = ntup_
    if not sp:
        bad["sparse"] = inputs["sparse"]

    def spec(S, X, **kw):
        return S.ref("normalize_fn", const(norm), const(axis), const(ret), X)
    case = function("normalize_pure[%s,axis=%d%s]" % (norm, axis, ",norms" if ret else ""), "function", "pure_sklearn.preprocessing", "normalize_pure",
                    {"normalize_pure": ins}, {"normalize_pure": spec}, inputs, bad)
    case.sparse_in = True if sp else False
    case.modes = ("plain", "int", "zero")
    case.batch = {"normalize_pure": axis == 1 and not ret}

    def conv(x):
        if isinstance(x, (tuple, list)) and ret:
            return tuple(DENS(y) for y in x)
        return DENS(x)
    case.conv = conv
    if sp and not ret:
        case.sparse_out = ("sparse",)
        case.out_width = lambda S, v: t_.ev(S.W.sizes["F"], v)
    return case


for _n in ("l1", "l2", "max"):
    normfn(_n, 1, False)
    normfn(_n, 0, False)
    normfn(_n, 1, True)
normfn("l2", 0, True)


# ------------------------------------------------------------------ imputation
NAN = float("nan")


def gen_missing(marker, obj):
    """data with missing entries"""
    def g(v, idx):
        r = v.rng
        if r.random() < 0.3:
            return marker
        w = spooled(v) if obj else None
        if w is not None:
            return w
        if obj:
            return r.choice(["a", "b", "zz", "", "?", 1, 2.5, NAN] if v.mode == "nan" else ["a", "b", "zz", "", "?!"])
        if v.mode == "nan" and r.random() < 0.2:
            return NAN
        if v.mode == "int":
            return r.choice([0, 1, 2, -1, 3])
        if v.mode == "fine":
            return fine_x(v)
        return r.choice([0.0, 1.0, -1.0, 0.5, 2.0, -2.5, 3.0, 7])
    return g


def gen_stat(obj, undef):
    def g(v, idx):
        r = v.rng
        # now and then nearly all columns are dropped
        if undef and r.random() < v.c.setdefault("dropped share", r.choice([0.35, 0.97])):
            return NAN
        if v.mode == "fine" and not obj:
            return r.choice([fine_x(v), fine_x(v), 0.0])
        w = spooled(v) if obj else None
        if w is not None:
            return w
        return r.choice(["m", "fill", "a", ""] if obj else [0.5, 1.0, -2.0, 3.25, 0.0])
    return g


def missing_term(marker):
    return NpScal(const(marker), "float") if marker == "np" else const(marker)


def indicator_src(W, F, mk_, features, error, name="mfeat"):
    """fitted MissingIndicator; all: every feature"""
    if features == "all":
        fe = NpArr("arange", [F], "int", (), elem=lambda i: i)
    else:
        t_.SIZEMIN[name + "n"] = 0
        sel = lambda v: subset(v, (name,), t_.ev(F, v), v.rng.randint(0, t_.ev(F, v)) if (name,) not in v.c else None)
        W.decl(name + "n", "int", lambda v, idx: len(sel(v)))
        W.decl(name, "int", lambda v, idx: sel(v)[idx[0]])
        fe = NpArr(name, [sym(name + "n")], "int")
    return src("MissingIndicator", {"features": const(features), "features_": fe, "_n_features": F, "missing_values": mk_, "error_on_new": const(error),
                                    "sparse": const("auto"), "n_features_in_": F}, "sklearn.impute._base"), fe


def imputer(tag, marker, strategy, obj=False, undef=False, indicator=None, np=False, old=False):
    def make(W):
        F = szF(W)
        W.stat = W.arr("stat", [F], "scal" if obj else "float", gen_stat(obj, undef))
        W.mark = const(marker)
        mv = NpScal(W.mark, "float") if np else W.mark
        a = {"statistics_": W.stat, "strategy": const(strategy), "missing_values": mv, "fill_value": NONE, "verbose": ZERO, "copy": W.flag("copy"),
             "add_indicator": UNDEF if old else const(indicator is not None), "indicator_": UNDEF if old else NONE, "n_features_in_": F}
        W.fe = None
        if indicator:
            a["indicator_"], W.fe = indicator_src(W, F, mv, indicator, False)
        return src("SimpleImputer", a, "sklearn.impute._base")
    case = Case("SimpleImputer[%s,%s%s%s%s%s%s]" % (tag, strategy, ",objects" if obj else "", ",undefined" if undef else "", ",indicator " + indicator if indicator else "",
                                                 ",np" if np else "", ",old" if old else ""), "impute", make)
    dense_inputs(case, szF)
    g = gen_missing(marker, obj)
    k = None if marker is None else "scal" if obj else "num"
    case.inputs["dense"] = lambda W: W.dense(szF(W), kind_=k, gen=g)
    case.bad["sparse"] = lambda W: W.sparse(szF(W))
    case.sparse_in = False
    case.methods = {"transform": ("dense",)}
    case.specs = {"transform": lambda S, X: S.ref("imputer", S.W.stat, S.W.mark, const(strategy == "constant"), X, S.W.fe if S.W.fe is not None else NONE)}
    case.modes = ("plain", "int", "nan")
    case.raises = True
    case.nested = (lambda S: [(lambda S: S.I.obj(S.model).attrs.get("indicator_"), "MissingIndicatorPure")]) if indicator else None
    return case


imputer("nan", NAN, "mean")
imputer("nan", NAN, "median", undef=True)
imputer("nan", NAN, "constant")
imputer("nan", NAN, "most_frequent", obj=True)
imputer("nan", NAN, "constant", obj=True)
imputer("nan", NAN, "mean", undef=True, indicator="missing-only")
imputer("nan", NAN, "constant", indicator="missing-only")
imputer("nan", NAN, "mean", old=True)
imputer("0", 0, "mean", undef=True)
imputer("0", 0, "constant", indicator="missing-only")
imputer("-1.0", -1.0, "mean", np=True)
imputer("?", "?", "most_frequent", obj=True)
imputer("''", "", "constant", obj=True, indicator="missing-only")
imputer("None", None, "most_frequent", obj=True)


def indicator(tag, marker, features, error, obj=False):
    def make(W):
        F = szF(W)
        W.mark = const(marker)
        s, W.fe = indicator_src(W, F, W.mark, features, error)
        return s
    case = Case("MissingIndicator[%s,%s,%s%s]" % (tag, features, "error" if error else "tolerant", ",objects" if obj else ""), "impute", make)
    dense_inputs(case, szF)
    g = gen_missing(marker, obj)
    k = "scal" if obj else "num"
    case.inputs["dense"] = lambda W: W.dense(szF(W), kind_=k, gen=g)
    case.bad["sparse"] = lambda W: W.sparse(szF(W))
    case.sparse_in = False
    case.methods = {"transform": ("dense",)}
    case.specs = {"transform": lambda S, X: S.ref("missing_indicator", S.W.fe, S.W.mark, const(error and features == "missing-only"), X)}
    case.modes = ("plain", "int", "nan")
    case.raises = True
    return case


for _f in ("all", "missing-only"):
    for _e in (True, False):
        indicator("nan", NAN, _f, _e)
indicator("0", 0, "missing-only", True)
indicator("nan", NAN, "missing-only", False, obj=True)
indicator("?", "?", "missing-only", False, obj=True)


# ------------------------------------------------------------------ encoders
NPT = {"float64": lambda: NpType("float64", "float"), "int64": lambda: NpType("int64", "int"), "float": lambda: BCls("float"), "int": lambda: BCls("int"),
       "float32": lambda: NpType("float32", "float"), "bool_": lambda: NpType("bool_", "bool")}


def cat_lists(v, F):
    """distinct categories per feature"""
    if "cats" not in v.c:
        r = v.rng
        out = []
        for j in range(F):
            kd = r.choice(["int", "str", "float", "mix"]) if v.mode != "one" else "int"
            if v.mode == "fine":
                out.append(r.sample([2 ** 53, 2 ** 53 + 1, -2 ** 40, 0.1, 0.1 + 2.0 ** -56, 1e-9, 0.30000000000000004, 0.3], r.randint(1, 4)))
                continue
            pool = {"int": [0, 1, 2, 5, -3, 10], "str": ["a", "b", "", "zz", "c"], "float": [0.5, 1.0, -2.0, 3.0], "mix": ["a", 1, "b", 2.5]}[kd]
            if v.spool and kd in ("str", "mix"):
                pool = pool[:2] + [w for w in v.rng.sample(v.spool, min(3, len(v.spool))) if w not in pool[:2]]
            out.append(r.sample(pool, r.randint(1, min(4, len(pool)))))
        v.c["cats"] = out
    return v.c["cats"]


def gen_catx(F, known=False):
    def g(v, idx):
        cs = cat_lists(v, t_.ev(F, v))
        if idx[1] >= len(cs):
            return 1
        c = cs[idx[1]]
        rate = 0.06 if v.mode == "plain" and not v.pool else v.c.setdefault("unknown rate", v.rng.choice([0.3, 0.9] if v.pool else [0.3, 0.3, 0.9]))
        if not known and v.rng.random() < rate:
            if rate > 0.5:
                return 1000 + v.rng.randrange(10 ** 6)
            if v.mode == "fine":
                return v.rng.choice([2 ** 53 + 2, 0.1 + 1e-10, 2e-9, 0.1, "0.1"])
            w = spooled(v)
            if w is not None:
                return w
            return v.rng.choice(["?", 99, "q", -0.5, 1, "a"]) if v.rng.random() < 0.5 else 1000 + v.rng.randrange(10 ** 6)
        x = v.rng.choice(c)
        if isinstance(x, int) and v.rng.random() < 0.2:
            return float(x)
        if not known and v.rng.random() < 0.05:
            # the text of a category that is a number, the number of a category that is a text
            return x if x == "" else (99 if isinstance(x, str) else str(x))
        return x
    return g


def encoder(cname, dtype, sparse=None, unknown=None, drop=False, old=False, droptag=None):
    def make(W):
        F = szF(W)
        t_.SIZEMIN["ncat"] = 1
        W.decl("ncat", "int", lambda v, idx: len(cat_lists(v, t_.ev(F, v))[idx[0]]))
        W.decl("cat", "scal", lambda v, idx: cat_lists(v, t_.ev(F, v))[idx[0]][idx[1]])
        carr = lambda j: NpArr("cat", [lambda *p: sym("ncat", p[0])], "scal", (j,))
        W.cats = carr
        a = {"dtype": NPT[dtype](), "categories_": W.source_list(F, carr), "categories": const("auto"), "n_features_in_": F}
        if sparse is not None:
            a["sparse"] = const(sparse)
            a["handle_unknown"] = const(unknown)
            a["drop"] = UNDEF if old else NONE if not drop else const(drop) if isinstance(drop, str) else drop(W)
            a["drop_idx_"] = NONE
        return src(cname, a, "sklearn.preprocessing._encoders")
    tag = ",".join(x for x in (dtype, "sparse" if sparse else "dense" if sparse is False else "", unknown or "", "drop" if drop == "first" else "drop %s" % (droptag or drop) if drop else "", "old" if old else "") if x)
    case = Case("%s[%s]" % (cname, tag), "encoder", make)
    case.supported = not drop
    dense_inputs(case, szF)
    case.inputs["dense"] = lambda W: W.dense(szF(W), kind_="scal", gen=gen_catx(szF(W)))
    case.bad["sparse"] = lambda W: W.sparse(szF(W))
    case.sparse_in = False
    case.methods = {"transform": ("dense",)}
    case.modes = ("plain", "unknown", "one")
    case.raises = True
    case.conv = DENS

    def spec(S, X):
        W = S.W
        cats = W.list_of(W.sizes["F"], lambda j: Frz(HObj("list", W.cats(j).segs(False), {}, "spec")), "spec")
        if cname == "OrdinalEncoder":
            return S.ref("ordinal", cats, X)
        return S.ref("one_hot", cats, X, const(unknown == "ignore"))
    case.specs = {"transform": spec}
    if sparse:
        case.sparse_out = True
        case.out_width = lambda S, v: sum(len(c) for c in cat_lists(v, t_.ev(S.W.sizes["F"], v)))
    return case


for _d in ("float64", "int64", "float", "float32"):
    encoder("OrdinalEncoder", _d)
    for _s in (True, False):
        for _u in ("error", "ignore"):
            if _d in ("float64",) or (_d == "int64" and _u == "ignore"):
                encoder("OneHotEncoder", _d, _s, _u)
encoder("OneHotEncoder", "int", True, "error")
encoder("OneHotEncoder", "float", False, "ignore")
encoder("OneHotEncoder", "float64", True, "error", old=True)
for _s in (True, False):
    encoder("OneHotEncoder", "float64", _s, "error", drop="first")
    encoder("OneHotEncoder", "float64", _s, "ignore", drop="if_binary")
    encoder("OneHotEncoder", "int64", _s, "error", drop=lambda W: anyof(W, "drop", (), ("first", "if_binary", "last")), droptag="any")
    encoder("OneHotEncoder", "float64", _s, "error", drop=lambda W: NpArr("dropcat", [szF(W)], "scal"), droptag="array")
    encoder("OneHotEncoder", "float64", _s, "ignore", drop=lambda W: W.source_list(szF(W), lambda i: (W.decl("dropcat", "scal", lambda v, idx: v.rng.choice(["a", 1])), sym("dropcat", i))[1]), droptag="list")


def rows_rel(x, y):
    """rows of two sparse matrices hold the same entries"""
    def row(r):
        if isinstance(r, list):
            r = dict(enumerate(r))
        return {k: v for k, v in r.items() if v != 0}
    return len(x) == len(y) and all(close(row(a), row(b)) for a, b in zip(x, y))


# ------------------------------------------------------------------ dictionary vectoriser
DVN = ["city", "t", "size", "city=London", "city=Paris", "size=", "t=1", "x"]


def gen_vocab(pool, sort=True):
    """vocabulary {name: column}: the columns are numbered in an order of their own"""
    def g(v, idx):
        if "vocab" not in v.c:
            r = v.rng
            names = r.sample(pool, r.randint(1, min(6, len(pool))))
            for _ in range(2):
                w = spooled(v)
                if w is not None:
                    w = r.choice([w, w, w + "=London", "t=" + w])
                    if w not in names:
                        names.append(w)
            cols = list(range(len(names)))
            r.shuffle(cols)
            v.c["vocab"] = dict(zip(names, cols))
        return v.c["vocab"]
    return g


def gen_record(v, idx):
    r = v.rng
    sep = "="
    d = {}
    for k in r.sample(["city", "t", "size", "unknown", "x", "city=London", "size="], r.randint(0, 4)) + ([r.choice(v.spool)] if v.spool else []):
        if k.split("=")[0] in {q.split("=")[0] for q in d}:
            continue
        if r.random() < 0.4 and "=" not in k:
            x = spooled(v) or r.choice(["London", "Paris", "", "Oslo", "1"])
        elif v.mode == "zero":
            x = r.choice([0, 0.0, 1, True])
        else:
            x = r.choice([1, 2.5, -3, 0.5, 7, True])
        if v.mode == "fine" and not isinstance(x, str):
            x = fine_x(v)
        d[k] = x
    if r.random() < 0.15:
        d["note"] = None
    return d


class VocArr(FObj):
    """dictionary name -> array scalar"""
    tname = "dict"

    def __init__(self, t):
        self.t = t


def vocab_dict(W, name, npvals):
    """dict held by the source; npvals: its values are array-library integers"""
    t = sym(name)
    n = fn("len", t)
    b = newidx(n)
    k = t_.at(fn("keys", t), b)
    v = t_.at(t, k)
    return W.I.alloc(HObj("dict", (SFor(n, b, (DSet(k, NpScal(v, "int") if npvals else v),)),), {}, "source", ("source", 0, "source")))


def dictvec(sparse, dtype):
    def make(W):
        W.decl("vocab", "dict", gen_vocab(DVN), dictkind=("str", "int"))
        W.src_vocab = vocab_dict(W, "vocab", False)
        n = fn("len", sym("vocab"))
        W.decl("names", "str", lambda v, idx: [k for k, c in v.get("vocab").items() if c == idx[0]][0])
        return src("DictVectorizer", {"vocabulary_": W.src_vocab, "feature_names_": W.source_list(n, lambda i: sym("names", i)), "sparse": const(sparse),
                                      "dtype": NPT[dtype](), "separator": const("="), "sort": TRUE}, "sklearn.feature_extraction._dict_vectorizer")
    case = Case("DictVectorizer[%s,%s]" % ("sparse" if sparse else "dense", dtype), "dictvec", make)
    case.vocgen = gen_vocab(DVN)
    case.inputs["records"] = lambda W: records(W)
    case.inputs["record"] = lambda W: record1(W)
    case.bad["none"] = no_rows
    case.batch = {"record": False}
    case.methods = {"transform": ("records", "record")}
    case.modes = ("plain", "zero")

    def spec(S, X):
        W = S.W
        if isinstance(X, T) or W.I.obj(X).cls == "dict":
            X = W.I.alloc(HObj("list", (SEl(X),), {}, "spec"))
        o = S.ref("dict_vectorizer", sym("vocab"), const("="), X, const({"int64": "int", "bool_": "bool"}.get(dtype, "float")))
        return o if sparse else S.ref("dense_rows", o.value, fn("len", sym("vocab")))
    case.specs = {"transform": spec}
    if sparse:
        case.rel = rows_rel
        case.sparse_out = True
        case.out_width = lambda S, v: len(v.get("vocab"))
    return case


def no_rows(W):
    return W.I.alloc(HObj("list", (), {}, "input", ("input", 0, "input")))


def records(W):
    nm = W.nm("rec")
    W.decl(nm, "dict", gen_record, dictkind=("str", None))
    N = W.rows()
    W.inputs[nm] = True
    return W.I.alloc(HObj("list", W.family(N, lambda i: Frz(HObj("dict", (SOp(sym(nm, i)),), {}, "input", ("input", 0, "input")))), {}, "input", ("input", 0, "input")))


def record1(W):
    nm = W.nm("rec1")
    W.decl(nm, "dict", gen_record, dictkind=("str", None))
    return W.I.alloc(HObj("dict", (SOp(sym(nm)),), {}, "input", ("input", 0, "input")))


for _s in (True, False):
    for _d in ("float64", "float32", "float", "int64", "bool_"):
        dictvec(_s, _d)


# ------------------------------------------------------------------ tf-idf
def gen_count(v, idx):
    if v.mode == "fine":
        return v.rng.choice([0.0, fine_pos(v)])
    return v.rng.choice([0, 1, 2, 3, 1.0, 5, 0.5, 7] if v.mode != "zero" else [0, 0, 0.0, 1, 2])


def gen_count_row(F):
    def g(v, idx):
        ks = [j for j in range(t_.ev(F, v)) if v.rng.random() < (0.6 if v.mode != "zero" else 0.2)]
        v.rng.shuffle(ks)
        return {k: fine_pos(v) if v.mode == "fine" else v.rng.choice([1, 2, 3, 1.0, 5, 0.5, 7]) for k in ks}
    return g


def tfidf(norm, use_idf, sub_):
    def make(W):
        F = szF(W)
        W.idf = par(W, "idf", [F], gen_pos)
        return src("TfidfTransformer", tfidf_attrs(W, F, norm, use_idf, sub_), "sklearn.feature_extraction.text")
    case = Case("TfidfTransformer[%s%s%s]" % (norm, ",idf" if use_idf else "", ",sublinear" if sub_ else ""), "tfidf", make)
    case.inputs["dense"] = lambda W: W.dense(szF(W), gen=gen_count)
    case.inputs["sparse"] = lambda W: W.sparse(szF(W), gen=gen_count_row(szF(W)))
    case.inputs["densified"] = lambda W: (W.sparse(szF(W), gen=gen_count_row(szF(W))), W.densified(szF(W)))[1]
    case.sparse_in = True
    case.methods = {"transform": ("dense", "sparse")}
    case.modes = ("plain", "zero")
    case.bad["empty"] = lambda W: W.I.alloc(HObj("list", (), {}, "input", ("input", 0, "input")))
    case.bad["nonlist"] = lambda W: ([ntup(W, szF(W))], {})
    case.sparse_out = True
    case.out_width = lambda S, v: t_.ev(S.W.sizes["F"], v)
    case.rel = rows_rel

    def spec(S, X):
        X = S.ref("nonzero", X).value
        return S.ref("tfidf", const(norm), S.W.idf, const(use_idf), const(sub_), X)
    case.specs = {"transform": spec}
    if use_idf:
        case.bad["narrow"] = lambda W: W.dense(sub(szF(W), ONE), name="Xn")
        case.bad["wide"] = lambda W: W.dense(add(szF(W), ONE), name="Xw")
        case.bad["ragged"] = lambda W: W.dense(None, name="Xr", width=lambda i: ragged(W, szF(W), i))
        case.bad["uneven"] = lambda W: W.dense(None, name="Xu", width=lambda i: uneven(W, szF(W), i))
        case.bad["sparse_narrow"] = lambda W: W.sparse(sub(szF(W), ONE), name="Xsn")
        case.bad["sparse_wide"] = lambda W: W.sparse(add(szF(W), ONE), name="Xsw")
    return case


def tfidf_attrs(W, F, norm, use_idf, sub_):
    diag = Inst("csr_matrix", {"shape": Tup([F, F])}, "scipy.sparse.csr")
    return {"norm": const(norm), "use_idf": const(use_idf), "smooth_idf": TRUE, "sublinear_tf": const(sub_),
            "idf_": W.idf if use_idf else UNDEF, "_idf_diag": diag if use_idf else UNDEF, "n_features_in_": F}


for _n in (None, "l1", "l2"):
    for _u in (True, False):
        for _b in (True, False):
            tfidf(_n, _u, _b)


# ------------------------------------------------------------------ text vectorisers
PATTERN = r"(?u)\b\w\w+\b"
STOPS = ("the", "is", "Foo", "of", "caf\u00e9")
WORDS = ["the", "cat", "is", "Foo", "foo", "a", "caf\u00e9", "Caf\u00c9", "cafe", "of", "bar-baz", "x1", "it's", "I", "\u0130stanbul", "na\u00efve", "12", "THE", "stra\u00dfe",
         "e\u0301", "b", "cats", "\uff21\uff22", "<b>", "&amp;", "\u00bd", "foo_bar", "wordlonger", "\u1d2c\u1d2e", "X\u2122y"]
LONG = ["pneumonoultramicroscopicsilicovolcanoconiosis", "w" * 64, "\u00e9" * 40, "qx" * 60]
SPACES = [" ", " ", " ", " ", "  ", "\n", "\t ", ". ", ", ", "\u00a0", "   "]
# less usual blanks; letters, marks that combine and marks that do not, ligatures, digits of other scripts, code points beyond the first plane
RARE_SPACES = ["\r\n", "\r\r", "\x0b\x0b", "\x0c ", "\u3000", "\u2003\u2003", "\x85 ", " \u2028", "\x1c\x1c", "\u200b"]
RARE = "\u0301\u0308\u0327\u034f\ufe0f\u0e31\u0e48\u093f\u094d\u20dd\u302e\u05b0\u064b\u0345\u00df\u1e9e\u00d8\u0142\u0131\u0130\u03c2\u03a3\ufb01\u00b2\u2163\u0663" \
       "\uac00\u1100\u1161\u30ac\u30ab\u3099\u212b\u01c5\u1f80\u200d\u00ad\U0001d400\U0001f600\U00010400\u2019\u00ab\u2014\u00aa"


def gen_doc(v, idx):
    r = v.rng
    if v.mode == "empty":
        return r.choice(["", " ", "a", "the", "  \n", "\u00e9", "the is", "zz"])
    if v.mode == "ascii":
        ws = [w for w in WORDS if all(ord(c) < 128 for c in w)]
    else:
        ws = WORDS
    pool = r.sample(ws, r.randint(1, 5))
    spaces = SPACES
    if r.random() < 0.15:
        pool.append(r.choice(LONG))
    if v.mode != "ascii" and r.random() < 0.35:
        pool += ["".join(r.choice(RARE + "aBe") for _ in range(r.randint(1, 5))) for _ in range(2)]
    if r.random() < 0.3:
        spaces = SPACES + r.sample(RARE_SPACES[:4] if v.mode == "ascii" else RARE_SPACES, 4)
    if v.spool and r.random() < 0.7:
        pool += r.sample(v.spool, min(2, len(v.spool)))
    ls = [abs(c) for c in v.pool if isinstance(c, int) and 2 < abs(c) <= 300]
    if ls and r.random() < 0.5:
        # words about as long as a number the code mentions
        pool.append("".join(r.choice("abcw") for _ in range(max(1, r.choice(ls) + r.choice([-1, 0, 1, 2, 3, 4, 5])))))
    s = r.choice(["", "", " "])
    for _ in range(r.randint(0, 7)):
        s += r.choice(pool) + r.choice(spaces)
    return s if r.random() < 0.5 else s.strip()


def gen_bdoc(enc, errors):
    def g(v, idx):
        s = gen_doc(v, idx)
        if errors == "strict":
            return s.encode(enc, "ignore")
        b = s.encode(enc, "ignore")
        k = v.rng.randint(0, len(b))
        return b[:k] + v.rng.choice([b"", b"\xff\xfe", b"\xc3"]) + b[k:]
    return g


def ref_terms(v, cfg):
    """terms of the valuation's documents (only to draw a vocabulary that meets them)"""
    from .spec import ref
    N = t_.ev(v.W.sizes["N"], v) if "N" in v.W.sizes else 1
    lo, hi = v.get("ngram_lo"), v.get("ngram_hi")
    out = []
    for i in range(max(N, 1)):
        d = v.get(cfg["docsym"], i)
        try:
            out += ref.terms(d, cfg["analyzer"], lo, hi, cfg["lowercase"], cfg["accents"], cfg["pattern"], cfg["stop"], cfg["encoding"], cfg["errors"])
        except UnicodeError:
            pass
    return out


def gen_term_vocab(cfg):
    def g(v, idx):
        r = v.rng
        ts = sorted(set(ref_terms(v, cfg)))
        names = r.sample(ts, min(len(ts), r.randint(1, 8)))
        if v.mode == "all":
            names = ts[:40]
        extra = ["the cat", "foo", "Foo", "cat", " ca", "the", " a ", "cafe", "caf\u00e9", "is", "ca", "of the", "foo foo", " foo ", "zz zz"]
        for e in r.sample(extra, r.randint(1, 4)) + ([r.choice(v.spool)] if v.spool else []):
            if e not in names:
                names.append(e)
        r.shuffle(names)
        return {k: j for j, k in enumerate(names)}
    return g


class FileObj(FObj):
    """an open file the caller passes as a document"""
    tname = "io.file"

    def __init__(self, t):
        self.t = t

    def subst(self, f):
        return FileObj(f(self.t))

    def getattr(self, I, name):
        if name == "read":
            return BoundM(Bi("file.read", lambda I, a, k: a[0].t), self)
        if name == "close":
            return BoundM(Bi("file.close", lambda I, a, k: NONE), self)
        return None

    def isinstance(self, I, c):
        return const(isinstance(c, BCls) and c.name == "object")

    def truth(self, I):
        return TRUE


class PathObj(FObj):
    """the name of a file that holds a document: a string known only by what reading the file gives"""
    tname = "str"

    def __init__(self, t):
        self.t = t

    def subst(self, f):
        return PathObj(f(self.t))

    def isinstance(self, I, c):
        return const(isinstance(c, BCls) and c.name in ("object", "str"))

    def typeof(self, I):
        return BCls("str")

    def truth(self, I):
        return TRUE

    def opened(self, enc, errors):
        if enc is not None:
            raise Unsup("a document file read as text")
        return FileObj(self.t)


def text_cfg(**kw):
    c = dict(analyzer="word", lowercase=True, accents=None, pattern=PATTERN, stop=None, encoding="utf-8", errors="strict", input="content", binary=False,
             ngrams=None, bytes=False, stopkind="list", docsym="doc", dtype="int64")
    c.update(kw)
    if c["bytes"]:
        c["docsym"] = "bdoc"
    return c


def text_attrs(W, c):
    gl = lambda v, idx: v.rng.choice([1, 1, 2, 2, 3, 4])
    if c["ngrams"] is None:
        W.decl("ngram_lo", "int", gl)
        W.decl("ngram_hi", "int", lambda v, idx: v.get("ngram_lo") + v.rng.choice([0, 0, 1, 1, 2, 3]))
        t_.SIZEMIN["ngram_lo"] = t_.SIZEMIN["ngram_hi"] = 1
        lo, hi = sym("ngram_lo"), sym("ngram_hi")
    else:
        lo, hi = const(c["ngrams"][0]), const(c["ngrams"][1])
        W.gens["ngram_lo"] = lambda v, idx: c["ngrams"][0]
        W.gens["ngram_hi"] = lambda v, idx: c["ngrams"][1]
    W.ng = (lo, hi)
    if c["stop"] is None:
        st = NONE
    elif isinstance(c["stop"], str):
        st = const(c["stop"])
    else:
        st = W.I.alloc(HObj(c["stopkind"], tuple(SEl(const(w)) for w in c["stop"]), {}, "source", ("source", 0, "source")))
    return {"analyzer": const(c["analyzer"]), "preprocessor": NONE, "tokenizer": NONE, "stop_words": st, "token_pattern": const(c["pattern"]),
            "ngram_range": Tup([lo, hi]), "strip_accents": NONE if c["accents"] is None else const(c["accents"]), "decode_error": const(c["errors"]),
            "encoding": const(c["encoding"]), "lowercase": const(c["lowercase"]), "input": const(c["input"]), "dtype": NPT[c["dtype"]](), "binary": const(c["binary"]),
            "max_df": const(1.0), "min_df": const(1), "max_features": NONE, "vocabulary": NONE, "stop_words_": UNDEF, "fixed_vocabulary_": FALSE}


def doc_inputs(case, c):
    def docs(W):
        if c["bytes"]:
            nm = W.nm("bdoc")
            W.decl(nm, "bytes", gen_bdoc(c["encoding"], c["errors"]))
        else:
            nm = W.nm("doc")
            W.decl(nm, "str", gen_doc)
        N = W.rows()
        W.inputs[nm] = True
        f = {"file": lambda i: FileObj(sym(nm, i)), "filename": lambda i: PathObj(sym(nm, i)), "content": lambda i: sym(nm, i)}[c["input"]]
        return W.I.alloc(HObj("list", W.family(N, f), {}, "input", ("input", 0, "input")))
    case.inputs["docs"] = docs
    case.bad["none"] = no_rows
    if c["input"] == "content":
        def barestr(W):
            W.decl("bare", "str", gen_doc)
            return sym("bare")

        def nandocs(W):
            W.decl("doc", "str", gen_doc)
            N = W.rows()
            b = newidx(N)
            return W.I.alloc(HObj("list", (SFor(N, b, (SEl(sym("doc", b)),)), SEl(const(NAN))), {}, "input", ("input", 0, "input")))
        case.bad["string"] = barestr
        case.bad["nandocs"] = nandocs
    case.methods = {"transform": ("docs",)}
    case.modes = ("plain", "empty", "all", "ascii")
    case.rel = rows_rel
    case.sparse_out = True


def doc_terms(S, c, X):
    """reference: the list of terms of every document"""
    lo, hi = S.W.ng
    W = S.W
    if c["input"] != "content":
        nm = W.nm(c["docsym"])
        X = W.I.alloc(HObj("list", W.family(W.rows(), lambda i: sym(nm, i)), {}, "spec"))
    st = NONE if c["stop"] is None else W.I.alloc(HObj("list", tuple(SEl(const(w)) for w in c["stop"]), {}, "spec"))
    b = lambda x: NONE if x is None else const(x)
    return S.ref("all_terms", X, b(c["analyzer"]), lo, hi, b(c["lowercase"]), b(c["accents"]), b(c["pattern"]), st, b(c["encoding"]), b(c["errors"])).need().value


def countvec(tag, **kw):
    c = text_cfg(**kw)

    def make(W):
        a = text_attrs(W, c)
        W.decl("vocab", "dict", gen_term_vocab(c), dictkind=("str", "int"))
        a["vocabulary_"] = vocab_dict(W, "vocab", True)
        return src("CountVectorizer", a, "sklearn.feature_extraction.text")
    case = Case("CountVectorizer[%s]" % tag, "text", make)
    doc_inputs(case, c)
    case.out_width = lambda S, v: len(v.get("vocab"))
    case.specs = {"transform": lambda S, X: S.ref("count", sym("vocab"), const(c["binary"]), doc_terms(S, c, X))}
    return case


countvec("word")
for _t, _k in (
        ("word,2-3", dict(ngrams=(2, 3))), ("word,1-2", dict(ngrams=(1, 2))), ("word,1-1", dict(ngrams=(1, 1))),
        ("word,case", dict(lowercase=False)), ("word,unicode", dict(accents="unicode")), ("word,ascii", dict(accents="ascii")),
        ("word,unicode,case", dict(accents="unicode", lowercase=False)),
        ("word,stop", dict(stop=STOPS)), ("word,stop,case", dict(stop=STOPS, lowercase=False)),
        ("word,stop,2-3", dict(stop=STOPS, ngrams=(2, 3))), ("word,no stop", dict(stop=())),
        ("word,pattern", dict(pattern=r"\S+")), ("word,pattern2", dict(pattern=r"[a-z]+", lowercase=False)), ("word,group", dict(pattern=r"(\w)\w*")), ("word,empty tokens", dict(pattern="[a-z]*")), ("word,unicode,2-2", dict(accents="unicode", ngrams=(2, 2))),
        ("word,binary", dict(binary=True)), ("word,float", dict(dtype="float64")),
        ("word,bytes", dict(bytes=True)), ("word,bytes,latin", dict(bytes=True, encoding="latin-1")), ("word,bytes,ignore", dict(bytes=True, errors="ignore")),
        ("word,bytes,replace", dict(bytes=True, errors="replace", lowercase=False)), ("word,file", dict(input="file")), ("word,file,bytes", dict(input="file", bytes=True)),
        ("word,filename", dict(input="filename", bytes=True)), ("word,filename,latin", dict(input="filename", bytes=True, encoding="latin-1", lowercase=False)),
        ("word,filename,ignore", dict(input="filename", bytes=True, errors="ignore")), ("char,file", dict(analyzer="char", input="file")),
        ("char", dict(analyzer="char")), ("char,1-3", dict(analyzer="char", ngrams=(1, 3))), ("char,case,ascii", dict(analyzer="char", lowercase=False, accents="ascii")),
        ("char,binary", dict(analyzer="char", binary=True)),
        ("char_wb", dict(analyzer="char_wb")), ("char_wb,2-5", dict(analyzer="char_wb", ngrams=(2, 5))), ("char_wb,unicode", dict(analyzer="char_wb", accents="unicode")),
        ("char_wb,case,bytes", dict(analyzer="char_wb", lowercase=False, bytes=True))):
    countvec(_t, **_k)


for _c in (countvec("word,english stop words", stop="english"), countvec("word,unknown stop list", stop="klingon", analyzer="word")):
    _c.supported, _c.late = None, True
    _c.modes = ("plain", "ascii")


def normed(S, norm, rows):
    if norm is None:
        return rows
    W = S.W
    z = W.list_of(ZERO, lambda i: ZERO, "spec")
    return S.ref("tfidf", const(norm), z, FALSE, FALSE, rows.need().value)


def hashvec(tag, norm, alternate, width=None, **kw):
    c = text_cfg(dtype="float64", **kw)

    def make(W):
        a = text_attrs(W, c)
        n = W.size("width", 1, 7, gen=lambda v, idx: v.rng.choice([1, 2, 3, 7, 16, 1000])) if width is None else const(width)
        W.width = n
        a.update({"n_features": n, "alternate_sign": const(alternate), "norm": NONE if norm is None else const(norm)})
        return src("HashingVectorizer", a, "sklearn.feature_extraction.text")
    case = Case("HashingVectorizer[%s]" % tag, "hash", make)
    doc_inputs(case, c)
    case.out_width = lambda S, v: t_.ev(S.W.width, v)
    case.specs = {"transform": lambda S, X: normed(S, norm, S.ref("hashed", S.W.width, const(alternate), const(c["binary"]), doc_terms(S, c, X)))}
    return case


for _n in (None, "l1", "l2"):
    for _a in (True, False):
        hashvec("%s%s" % (_n, ",signed" if _a else ""), _n, _a, ngrams=(1, 1))
hashvec("None,signed,2-3", None, True, ngrams=(2, 3))
hashvec("None,signed,wide", None, True, width=2 ** 20, ngrams=(1, 2))
hashvec("None,binary", None, True, binary=True, ngrams=(1, 1))
hashvec("l2,binary", "l2", False, binary=True, ngrams=(1, 1))
hashvec("l2,char_wb", "l2", True, analyzer="char_wb", ngrams=(2, 4))
hashvec("None,empty tokens", None, True, pattern="[a-z]*", lowercase=False, ngrams=(1, 2))
hashvec("None,char", None, True, analyzer="char", ngrams=(1, 3), lowercase=False, accents="ascii")
hashvec("None,stop", None, False, stop=STOPS, ngrams=(1, 2), accents="unicode")
hashvec("None,bytes", None, True, bytes=True, ngrams=(1, 1))
hashvec("None,filename", None, True, bytes=True, input="filename", ngrams=(1, 1))
hashvec("None,file", None, False, input="file", ngrams=(1, 1))


def tfidfvec(tag, norm, use_idf, sub_, **kw):
    c = text_cfg(dtype="float64", **kw)

    def make(W):
        a = text_attrs(W, c)
        W.decl("vocab", "dict", gen_term_vocab(c), dictkind=("str", "int"))
        a["vocabulary_"] = vocab_dict(W, "vocab", True)
        n = fn("len", sym("vocab"))
        W.idf = par(W, "idf", [n], gen_pos)
        a["_tfidf"] = src("TfidfTransformer", tfidf_attrs(W, n, norm, use_idf, sub_), "sklearn.feature_extraction.text")
        a.update({"norm": const(norm), "use_idf": const(use_idf), "sublinear_tf": const(sub_), "smooth_idf": TRUE, "idf_": W.idf if use_idf else UNDEF})
        return src("TfidfVectorizer", a, "sklearn.feature_extraction.text")
    case = Case("TfidfVectorizer[%s]" % tag, "text", make)
    doc_inputs(case, c)
    case.out_width = lambda S, v: len(v.get("vocab"))

    def spec(S, X):
        rows = S.ref("count", sym("vocab"), const(c["binary"]), doc_terms(S, c, X)).need().value
        return S.ref("tfidf", const(norm), S.W.idf, const(use_idf), const(sub_), rows)
    case.specs = {"transform": spec}
    return case


tfidfvec("l2,idf", "l2", True, False)
tfidfvec("l1,idf,sublinear", "l1", True, True, ngrams=(1, 2))
tfidfvec("None,idf,stop", None, True, False, stop=STOPS, ngrams=(1, 2))
tfidfvec("l2", "l2", False, False, analyzer="char_wb")
tfidfvec("l2,sublinear,binary", "l2", False, True, binary=True, ngrams=(1, 1))
tfidfvec("None,sublinear", None, False, True, analyzer="char", ngrams=(1, 2), accents="unicode")
