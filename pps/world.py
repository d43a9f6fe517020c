"""Environment model: fitted source estimators, inputs and the symbols they are made of.

Source objects are foreign values (never plain Python data): arrays, array scalars, estimators, the
XGBoost booster, the fastText model.  Every datum they hold is a symbol; `Val` gives symbols concrete
values when two value graphs have to be told apart.
"""
import json
import os

from . import terms as t_
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, isconst, cval, kind, fn, newidx, sym, at, add, sub, mk, eq
from .interp import (FObj, Bi, BCls, ClassObj, BoundM, HObj, Frz, SEl, SFor, SIf, SOp, DSet, Tup, VIte, UNDEF, Unsup,
                     PathDead, map_val, Ref, View, Interp)

ATTRS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "attrs.json")))
ATTRS["XGBClassifier"] = sorted(set(ATTRS["XGBClassifier"]))
for _k in ("XGBClassifier", "XGBClassifier:es"):
    ATTRS[_k] = sorted(set(ATTRS[_k]))

MRO = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mro.json")))
_PYK = {"float": "float64", "int": "int64", "bool": "bool_", "str": "str_"}


class NpScal(FObj):
    """array-library scalar: behaves like a number, is not built-in data"""
    tname = "scalar"

    def __init__(self, t, k=None):
        self.t, self.k = t, k or kind(t)

    def subst(self, f):
        return NpScal(f(self.t), self.k)

    def scalar(self, I):
        return self.t

    def reify(self, I):
        return self.t

    def truth(self, I):
        return I.truth(self.t)

    def typeof(self, I):
        return BCls("numpy." + _PYK.get(self.k, "generic"))

    def isinstance(self, I, c):
        return const(isinstance(c, BCls) and (c.name == "object" or (c.name == self.k and self.k in ("float", "str"))
                                              or (c.name in ("Integral", "Number", "Real") and self.k == "int")
                                              or (c.name in ("Number", "Real") and self.k == "float")))

    def eq(self, I, o):
        if isinstance(o, NpScal):
            o = o.t
        if not isinstance(o, T):
            return FALSE
        return eq(self.t, o)

    def getattr(self, I, name):
        if name in ("item", "tolist"):
            return BoundM(Bi("np.item", lambda I, a, k: a[0].t), self)
        if name == "__class__":
            return self.typeof(I)
        if name == "__module__":
            return const("numpy")
        if name in ("__dict__", "__len__", "__iter__", "keys", "items", "values"):
            return None
        if name == "dtype":
            raise Unsup("dtype of a scalar")
        if I.lib.has_method(self.k, name):
            return BoundM(Bi("m." + name), self.t)
        raise Unsup("attribute %s of an array scalar" % name)

    def binop(self, I, op, a, b):
        a = a.t if isinstance(a, NpScal) else a
        b = b.t if isinstance(b, NpScal) else b
        if isinstance(a, T) and isinstance(b, T):
            if kind(a) == "str":
                return None
            r = I.binop(op, a, b)
            return NpScal(r) if isinstance(r, T) else r
        if isinstance(a, NpArr) or isinstance(b, NpArr):
            raise Unsup("array arithmetic")
        return I.binop(op, a, b)

    def item(self, I, key):
        return I.getitem(self.t, key)

    def contains(self, I, x):
        return I.contains(self.t, x)

    def copy(self, I):
        return self

    def length(self, I):
        return I.length(self.t)


class NpArr(FObj):
    """array with symbolic elements; dims: list of terms or functions of the index prefix"""
    tname = "numpy.ndarray"

    def __init__(self, name, dims, kind_, prefix=(), elem=None):
        self.name, self.dims, self.k, self.prefix, self.elem = name, list(dims), kind_, tuple(prefix), elem

    def subst(self, f):
        return NpArr(self.name, self.dims, self.k, [f(p) for p in self.prefix], self.elem)

    def typeof(self, I):
        return BCls("numpy.ndarray")

    def dim(self, k):
        d = self.dims[k]
        return d(*self.prefix) if callable(d) else d

    def ndim(self):
        return len(self.dims)

    def el(self, *idx):
        if self.elem is not None:
            return self.elem(*(self.prefix + tuple(idx)))
        return sym(self.name, *(self.prefix + tuple(idx)))

    def down(self, i):
        d2 = []
        for d in self.dims[1:]:
            d2.append(d)
        return NpArr(self.name, d2, self.k, self.prefix + (i,), self.elem)

    def one(self, i, wrap=True):
        if len(self.dims) == 1:
            t = self.el(i)
            return NpScal(t, self.k) if wrap else t
        return self.down(i)

    def segs(self, wrap):
        n = self.dim(0)

        def v(i):
            if len(self.dims) == 1:
                t = self.el(i)
                return NpScal(t, self.k) if wrap else t
            if wrap:
                return self.down(i)
            return Frz(HObj("list", self.down(i).segs(False), {}, "fresh"))
        if isconst(n) and cval(n) <= 8:
            return tuple(SEl(v(const(i))) for i in range(cval(n)))
        b = newidx(n)
        return (SFor(n, b, (SEl(v(b)),)),)

    def tolist(self, I, region="fresh"):
        ss = self.segs(False)
        return I.alloc(HObj("list", ss, {}, region, I.site()))

    def iter(self, I):
        return self.segs(True)

    def length(self, I):
        return self.dim(0)

    def truth(self, I):
        raise Unsup("truth of an array")

    def reify(self, I):
        return I.reify_segs(self.segs(False))

    def item(self, I, k):
        if isinstance(k, tuple) and k and k[0] == "slice":
            raise Unsup("array slice")
        if isinstance(k, Tup):
            r = self
            for x in k.items:
                r = r.item(I, x)
            return r
        if isinstance(k, NpScal):
            k = k.t
        if not isinstance(k, T) or kind(k) not in ("int", "bool", None):
            raise Unsup("array index")
        if isconst(k) and cval(k) < 0:
            k = add(self.dim(0), k)
        return self.one(k)

    def isinstance(self, I, c):
        return const(isinstance(c, BCls) and c.name in ("object", "Iterable"))

    def eq(self, I, o):
        if isinstance(o, T) and kind(o) in ("str", "none"):
            return FALSE
        raise Unsup("array comparison")

    def contains(self, I, x):
        return I.contains(self.tolist(I), x)

    def copy(self, I):
        return self

    def call(self, I, args, kw):
        I.err("TypeError", "array is not callable")

    def getattr(self, I, name):
        if name == "tolist":
            return BoundM(Bi("np.tolist", lambda I, a, k: a[0].tolist(I)), self)
        if name == "shape":
            if any(callable(d) for d in self.dims[1:]):
                raise Unsup("ragged shape")
            return Tup([self.dim(i) for i in range(len(self.dims))])
        if name == "ndim":
            return const(len(self.dims))
        if name == "size" and len(self.dims) == 1:
            return self.dim(0)
        if name in ("copy", "__copy__"):
            return BoundM(Bi("np.copy", lambda I, a, k: a[0]), self)
        if name == "__len__":
            return BoundM(Bi("np.len", lambda I, a, k: a[0].dim(0)), self)
        if name in ("ravel", "flatten") and len(self.dims) == 1:
            return BoundM(Bi("np.copy", lambda I, a, k: a[0]), self)
        if name == "item" and len(self.dims) == 0:
            return BoundM(Bi("np.item0", lambda I, a, k: a[0].el()), self)
        if name in ("sort", "fill", "resize", "put", "itemset", "partition"):
            return BoundM(Bi("np.inplace", _np_inplace), self)
        raise Unsup("array attribute " + name)


def _np_inplace(I, a, k):
    I.event("mutate", ("foreign", "array modified in place"))
    raise Unsup("array modified in place")


class ObjArr(FObj):
    """object array / indexed family of foreign objects"""
    tname = "numpy.ndarray"

    def __init__(self, dims, make, prefix=()):
        self.dims, self.make, self.prefix = dims, make, tuple(prefix)

    def subst(self, f):
        return ObjArr(self.dims, self.make, [f(p) for p in self.prefix])

    def typeof(self, I):
        return BCls("numpy.ndarray")

    def one(self, i):
        if len(self.dims) == 1:
            return self.make(*(self.prefix + (i,)))
        return ObjArr(self.dims[1:], self.make, self.prefix + (i,))

    def iter(self, I):
        n = self.dims[0]
        if isconst(n) and cval(n) <= 8:
            return tuple(SEl(self.one(const(i))) for i in range(cval(n)))
        b = newidx(n)
        return (SFor(n, b, (SEl(self.one(b)),)),)

    def length(self, I):
        return self.dims[0]

    def isinstance(self, I, c):
        return const(isinstance(c, BCls) and c.name in ("object", "Iterable"))

    def item(self, I, k):
        if isinstance(k, Tup):
            r = self
            for x in k.items:
                r = r.item(I, x)
            return r
        if not isinstance(k, T):
            raise Unsup("array index")
        if isconst(k) and cval(k) < 0:
            k = add(self.dims[0], k)
        return self.one(k)

    def getattr(self, I, name):
        if name == "shape":
            return Tup(self.dims)
        if name == "ndim":
            return const(len(self.dims))
        if name in ("tolist",):
            def f(I, a, k):
                o = a[0]

                def build(o):
                    if not isinstance(o, ObjArr):
                        return o
                    n = o.dims[0]
                    if isconst(n) and cval(n) <= 8:
                        ss = tuple(SEl(build(o.one(const(i)))) for i in range(cval(n)))
                    else:
                        b = newidx(n)
                        ss = (SFor(n, b, (SEl(build(o.one(b))),)),)
                    return Frz(HObj("list", ss, {}, "fresh"))
                return I.lift(build(o))
            return BoundM(Bi("np.tolist", f), self)
        if name == "copy":
            return BoundM(Bi("np.copy", lambda I, a, k: a[0]), self)
        raise Unsup("array attribute " + name)


class FCls(FObj):
    tname = "class"
    is_callable = True

    def __init__(self, name, mod):
        self.name, self.mod = name, mod

    def clsrepr(self):
        return "<class '%s.%s'>" % (self.mod, self.name)

    def getattr(self, I, name):
        if name in ("__name__", "__qualname__"):
            return const(self.name)
        if name == "__module__":
            return const(self.mod)
        if name in ("__mro__", "mro") and self.name in MRO:
            t = Tup([self] + [BCls("object") if n == "object" else FCls(n, m) for n, m in MRO[self.name][1:]])
            return t if name == "__mro__" else Bi("type.mro", lambda I, a, k: I.alloc(HObj("list", tuple(SEl(c) for c in t.items), {}, "fresh")))
        raise Unsup("class attribute " + name)

    def eq(self, I, o):
        return const(isinstance(o, FCls) and o.name == self.name)

    def isinstance(self, I, c):
        return const(isinstance(c, BCls) and c.name in ("type", "object", "Callable"))

    def typeof(self, I):
        return BCls("type")


class NpType(FCls):
    """array-library scalar type (a dtype hyper-parameter)"""

    def __init__(self, name, py):
        FCls.__init__(self, name, "numpy")
        self.py = py

    def call(self, I, args, kw):
        r = I.call(BCls(self.py), list(args), dict(kw))
        return NpScal(r, self.py) if isinstance(r, T) else r

    def reify(self, I):
        return const(("type", "numpy." + self.name))


class Opaque(FObj):
    """some object that is not plain Python data"""
    tname = "thirdparty.Object"

    def typeof(self, I):
        return BCls("thirdparty.Object")

    def isinstance(self, I, c):
        return const(isinstance(c, BCls) and c.name == "object")

    def eq(self, I, o):
        return FALSE if not (o is self) else TRUE

    def getattr(self, I, name):
        if name == "__class__":
            return BCls("thirdparty.Object")
        if name in ("__module__",):
            return const("thirdparty")
        return None

    def iter(self, I):
        I.err("TypeError", "not iterable")

    def contains(self, I, x):
        I.err("TypeError", "not iterable")

    def item(self, I, k):
        I.err("TypeError", "not subscriptable")

    def copy(self, I):
        return self

    def length(self, I):
        I.err("TypeError", "no length")

    def call(self, I, args, kw):
        I.err("TypeError", "not callable")


class Inst(FObj):
    """any object with fixed attributes (foreign)"""
    tname = "foreign"
    full = None      # complete list of attribute names, when known

    def __init__(self, cname, attrs, module="sklearn", full=None):
        self.cname, self.attrs, self.module = cname, dict(attrs), module
        self.full = full
        self.tname = module + "." + cname

    def subst(self, f):
        return Inst(self.cname, {k: map_val(v, f) for k, v in self.attrs.items()}, self.module, self.full)

    def typeof(self, I):
        return FCls(self.cname, self.module)

    def isinstance(self, I, c):
        return const(isinstance(c, BCls) and c.name == "object")

    def eq(self, I, o):
        return TRUE if o is self else FALSE

    def getattr(self, I, name):
        if name in self.attrs:
            v = self.attrs[name]
            if v is UNDEF:
                return None
            if isinstance(v, Frz):
                # a container stored in a family member
                return I.lift(v)
            return v
        if name == "__class__":
            return FCls(self.cname, self.module)
        if name == "__dict__":
            raise Unsup("__dict__ of a source object")
        if name.startswith("__") or self.full is None or name in self.full:
            raise Unsup("source attribute %s.%s" % (self.cname, name))
        return None

    def getversion(self):
        return None

    def copy(self, I):
        return self


def state_method(version):
    """__getstate__ of a source estimator: version is a const term, None (no version recorded) or UNDEF (fails)"""
    def f(I, a, k):
        if version is UNDEF:
            I.err("AttributeError", "__getstate__")
        ss = (DSet(const("_sklearn_version"), version),) if version is not None else ()
        return I.alloc(HObj("dict", ss, {}, "fresh", I.site()))
    return Bi("source.__getstate__", f)


# ------------------------------------------------------------------ XGBoost
class XgbDf(FObj):
    """trees_to_dataframe(): rows of tree `sel` (None: all)"""
    tname = "pandas.DataFrame"

    def __init__(self, W, sel=None):
        self.W, self.sel = W, sel

    def subst(self, f):
        return XgbDf(self.W, None if self.sel is None else f(self.sel))

    def getattr(self, I, name):
        if name == "to_dict":
            def g(I, a, k):
                d = a[0]
                o = k.get("orient") or (a[1] if len(a) > 1 else None)
                if d.sel is None or o is None or not isconst(o) or cval(o) != "list":
                    raise Unsup("to_dict")
                return d.W.xgb_tree(I, d.sel)
            return BoundM(Bi("df.to_dict", g), self)
        if name in ("copy", "reset_index"):
            return BoundM(Bi("df.copy", lambda I, a, k: a[0]), self)
        raise Unsup("data frame attribute " + name)

    def item(self, I, k):
        if isinstance(k, XgbMask):
            if self.sel is not None:
                raise Unsup("mask of a selection")
            return XgbDf(self.W, k.i)
        if isinstance(k, T) and isconst(k):
            return XgbCol(self, cval(k))
        raise Unsup("data frame index")

    def eq(self, I, o):
        raise Unsup("data frame comparison")

    def copy(self, I):
        return self


class XgbCol(FObj):
    tname = "pandas.Series"

    def __init__(self, df, name):
        self.df, self.name = df, name

    def subst(self, f):
        return XgbCol(self.df.subst(f), self.name)

    def eq(self, I, o):
        if self.name != "Tree" or not isinstance(o, T):
            raise Unsup("column comparison")
        return XgbMask(o)

    def getattr(self, I, name):
        if name in ("tolist", "to_list") and self.df.sel is not None:
            def g(I, a, k):
                c = a[0]
                return I.getitem(c.df.W.xgb_tree(I, c.df.sel), const(c.name))
            return BoundM(Bi("col.tolist", g), self)
        raise Unsup("column attribute " + name)


class XgbMask(FObj):
    tname = "pandas.Series"

    def __init__(self, i):
        self.i = i

    def subst(self, f):
        return XgbMask(f(self.i))


# -------------------------------------------------------------------- world
class World(object):
    """one analysed configuration: symbols with their sizes, kinds and value generators"""

    def __init__(self, I, bounded=None):
        self.I = I
        self.bounded = bounded
        self.gens = {}
        self.sizes = {}
        self.inputs = {}       # symbol name -> True when its first index is the row
        self.reqs = []         # functions val -> bool: well-formedness of a valuation
        self.modes = ["plain"]
        self.alt = ""          # suffix of the input symbols: a second, unrelated input
        self.C = None

    def nm(self, name):
        return name + self.alt

    # symbols --------------------------------------------------------
    def size(self, name, lo=1, hi=3, gen=None):
        """symbolic size"""
        if self.bounded is not None:
            b = self.bounded.get(name, max(lo, min(hi, 2)))
            b = max(b, lo)
            t = const(b)
            self.gens[name] = lambda v, idx, b=b: b
            self.sizes[name] = t
            return t
        t_.SIZEMIN[name] = lo
        t_.SYMKIND[name] = "int"
        self.gens[name] = gen or (lambda v, idx: v.rng.randint(lo, hi))
        t = sym(name)
        self.sizes[name] = t
        return t

    def decl(self, name, kind_, gen, length=None, dictkind=None):
        t_.SYMKIND[name] = kind_
        t_.DICTKIND.pop(name, None)
        if dictkind is not None:
            t_.DICTKIND[name] = dictkind
        self.gens[name] = gen
        if length is not None:
            t_.SYMLEN[name] = length
        else:
            t_.SYMLEN.pop(name, None)

    def flag(self, name):
        """a Boolean hyper-parameter"""
        self.decl(name, "bool", lambda v, idx: v.rng.random() < 0.5)
        return sym(name)

    def arr(self, name, dims, kind_, gen):
        self.decl(name, kind_, gen)
        return NpArr(name, dims, kind_)

    def plain(self, arr, region="spec"):
        """the same data as nested lists"""
        return arr.tolist(self.I, region)

    # containers -----------------------------------------------------
    def source_list(self, n, f):
        """list object held by the source: f(index term) -> value"""
        if isconst(n) and cval(n) <= 8:
            ss = tuple(SEl(f(const(i))) for i in range(cval(n)))
        else:
            b = newidx(n)
            ss = (SFor(n, b, (SEl(f(b)),)),)
        return self.I.alloc(HObj("list", ss, {}, "source", ("source", 0, "source")))

    def source_dict(self, t, region="source"):
        return self.I.alloc(HObj("dict", (SOp(t),), {}, region, ("source", 0, "source")))

    # inputs -----------------------------------------------------------
    def rows(self):
        n = self.nm("N")
        if n not in self.sizes:
            self.size(n, 1, 3)
        return self.sizes[n]

    def dense(self, F, name="X", kind_="num", gen=None, region="input", width=None, N=None):
        """list of rows; width: function of the row index (ragged input)"""
        name = self.nm(name)
        self.decl(name, kind_, gen or gen_x)
        N = self.rows() if N is None else N
        self.inputs[name] = True
        w = (lambda i: F) if width is None else width

        def row(i):
            n = w(i)
            if isconst(n) and cval(n) <= 8:
                ss = tuple(SEl(sym(name, i, const(j))) for j in range(cval(n)))
            else:
                j = newidx(n)
                ss = (SFor(n, j, (SEl(sym(name, i, j)),)),)
            return Frz(HObj("list", ss, {}, region, ("input", 0, "input")))
        return self.I.alloc(HObj("list", self.family(N, row), {}, region, ("input", 0, "input")))

    def family(self, n, f):
        if isconst(n) and cval(n) <= 8:
            return tuple(SEl(f(const(i))) for i in range(cval(n)))
        b = newidx(n)
        return (SFor(n, b, (SEl(f(b)),)),)

    def sparse(self, F, name="Xs", gen=None, region="input", size=None, N=None, dtype="float"):
        I = self.I
        name = self.nm(name)
        self.decl(name, "dict", gen or gen_sparse_row(F, dtype == "int"))
        N = self.rows() if N is None else N
        self.inputs[name] = True
        cls = I.load("pure_sklearn.utils").env["sparse_list"]
        ss = self.family(N, lambda i: Frz(HObj("dict", (SOp(sym(name, i)),), {}, region, ("input", 0, "input"))))
        return I.alloc(HObj(cls, ss, {"size": F if size is None else size, "dtype": BCls(dtype)}, region, ("input", 0, "input")))

    def densified(self, F, name="Xs", region="input", N=None):
        """the dense form of the sparse input `name`"""
        name = self.nm(name)
        N = self.rows() if N is None else N

        def row(i):
            return Frz(HObj("list", self.family(F, lambda j: SEl_(fn("dget", sym(name, i), j, const(0.0)))), {}, region, ("input", 0, "input")))
        return self.I.alloc(HObj("list", self.family(N, row), {}, region, ("input", 0, "input")))

    def list_of(self, n, f, region="input"):
        return self.I.alloc(HObj("list", self.family(n, f), {}, region, ("input", 0, "input")))

    def xgb_tree(self, I, t):
        """columns of tree number t of the booster"""
        d = []
        n = sym("xnodes", t)
        for col, nm in (("Split", "xsplit"), ("Gain", "xgain"), ("Yes", "xyes"), ("No", "xno"), ("Missing", "xmissing"), ("Feature", "xfeature")):
            j = newidx(n)
            d.append(DSet(const(col), Frz(HObj("list", (SFor(n, j, (SEl(sym(nm, t, j)),)),), {}, "fresh"))))
        for col in ("Tree", "Node", "ID", "Cover", "Category"):
            pass
        return I.alloc(HObj("dict", d, {}, "fresh", I.site()))


def SEl_(x):
    return x


# --------------------------------------------------------------- valuations
class Val(object):
    """concrete values for all symbols of a world, drawn lazily"""

    def __init__(self, W, rng, mode="plain", fixed=None):
        self.W, self.rng, self.mode = W, rng, mode
        self.pool = self.spool = ()
        self.c = dict(fixed or {})

    def sym(self, name, idx):
        key = (name, idx)
        r = self.c.get(key, self)
        if r is self:
            g = self.W.gens.get(name)
            if g is None:
                raise t_.Stop("symbol " + name)
            r = g(self, idx)
            self.c[key] = r
        return r

    def get(self, name, *idx):
        return self.sym(name, idx)


class RowVal(object):
    """the same valuation with the batch reduced to row i"""

    def __init__(self, v, i, inputs):
        self.v, self.i, self.inputs = v, i, inputs

    def sym(self, name, idx):
        if name == "N":
            return 1
        if name in self.inputs and idx and idx[0] == 0:
            idx = (self.i,) + tuple(idx[1:])
        elif name in self.inputs and idx:
            raise t_.Stop("row outside the reduced batch")
        return self.v.sym(name, idx)


# ---------------------------------------------------------------- generators
PLAIN = [0.0, 1.0, -1.0, 0.5, 2.0, -0.25, 3.0, -2.5, 0.125, 1.75]


def pooled(v):
    """now and then a number at or next to a constant of the analysed value graphs"""
    if v.pool and v.rng.random() < 0.35:
        c = v.rng.choice(v.pool)
        return c + v.rng.choice([0, 0, 1, -1, 0.5, -0.5])
    return None


def spooled(v, p=0.3):
    """now and then a string the analysed value graphs mention"""
    if v.spool and v.rng.random() < p:
        return v.rng.choice(v.spool)
    return None


def fine_scale(v):
    """order of magnitude of the data in mode fine"""
    k = v.c.get("fine scale")
    if k is None:
        k = v.c["fine scale"] = v.rng.choice([1e-12, 1e-9, 1e-6, 1e-4, 0.01, 1.0, 1.0, 1.0, 100.0])
    return k


def fine_pool(v):
    """a few full-precision numbers, shared by the data and the thresholds it is compared with"""
    k = v.c.get("fine pool")
    if k is None:
        s = fine_scale(v)
        k = v.c["fine pool"] = [s * v.rng.uniform(-3, 3) for _ in range(5)]
    return k


def fine_x(v):
    r = v.rng
    p = r.choice(fine_pool(v))
    q = r.random()
    if q < 0.5:
        return p
    if q < 0.7:
        return p * (1 + r.choice([2.0 ** -52, -(2.0 ** -52), 1e-12, -1e-12, 1e-9, -1e-9, 1e-6, -1e-6]))
    if q < 0.8:
        return 0.0
    return fine_scale(v) * r.uniform(-3, 3)


def fine_pos(v):
    return v.c.setdefault("fine pos", v.rng.choice([1e-12, 1e-9, 1e-5, 1.0, 1.0, 1e5])) * v.rng.uniform(0.5, 3)


def gen_x(v, idx):
    r = v.rng
    p = pooled(v)
    if p is not None:
        return p
    if v.mode == "fine":
        return fine_x(v)
    if v.mode == "int":
        return r.choice([0, 1, 2, -1, 3])
    if v.mode == "big":
        return r.choice([0.0, 1.0, -1.0, 800.0, -800.0, 1e3, -1e4, 1e6])
    if v.mode == "bigpos":
        return r.choice([0.0, 1.0, 800.0, 1e3, 1e4, 1e6])
    if v.mode == "nan":
        return r.choice([0.0, 1.0, float("nan"), -1.0, 2.5])
    if v.mode == "pos":
        return abs(r.choice(PLAIN))
    if v.mode == "zero":
        return r.choice([0, 0.0, 0.0, 0, 1.0, -2, 3, 0.5])
    return r.choice(PLAIN) if r.random() < 0.8 else r.uniform(-3, 3)


def gen_par(v, idx):
    r = v.rng
    p = pooled(v)
    if p is not None:
        return float(p)
    if v.mode == "tie":
        return r.choice([0.0, 1.0])
    if v.mode == "fine":
        return v.c.setdefault("fine par", r.choice([1e-4, 0.1, 1.0, 1.0])) * r.uniform(-3, 3)
    return r.choice([0.5, -0.5, 1.0, -1.5, 0.25, 2.0, 0.75]) if r.random() < 0.7 else r.uniform(-2, 2)


def gen_pos(v, idx):
    if v.mode == "fine":
        return fine_pos(v)
    return v.rng.choice([0.5, 1.0, 2.0, 0.25, 1.5, 4.0])


def gen_sparse_row(F, whole=False):
    def g(v, idx):
        n = t_.ev(F, v)
        d = {}
        for j in range(n):
            if v.rng.random() < 0.6:
                d[j] = v.rng.choice([1, 2, 3, -1, 5, 0]) if whole else gen_x(v, idx)
        ks = list(d)
        v.rng.shuffle(ks)
        return {k: d[k] for k in ks}
    return g


def gen_label(v, idx):
    r = v.rng.random
    k = v.c.get("labelkind")
    if k is None:
        ks = ["int", "str", "float"]
        if v.W.C is not None and t_.ev(v.W.C, v) <= 2:
            ks.append("bool")
        k = v.c["labelkind"] = v.rng.choice(ks)
    i = idx[-1]
    if k == "str" and v.spool:
        o = v.c.get("label words")
        if o is None:
            ws = ["b", "a", "zz", "c", "m", "k"] + list(v.spool[:6])
            o = v.c["label words"] = v.rng.sample(sorted(set(ws)), 6)
        if i <= 5:
            return o[i]
    if i > 5:
        return {"int": 100 + i, "str": "L%d" % i, "float": 100.5 + i}[k]
    return {"bool": [False, True], "int": [3, 7, 1, 12, 5, 9], "str": ["b", "a", "zz", "c", "m", "k"], "float": [0.5, 2.0, -1.0, 7.0, 9.5, 11.0]}[k][i]


class ObjEls(NpArr):
    """object-dtype array: its elements are array-library scalars and tolist leaves them as they are"""

    last = False     # only the last element is an array-library scalar

    def like(self, dims, prefix):
        r = ObjEls(self.name, list(dims), self.k, prefix, self.elem)
        r.last = self.last
        return r

    def subst(self, f):
        return self.like(self.dims, [f(p) for p in self.prefix])

    def down(self, i):
        return self.like(self.dims[1:], self.prefix + (i,))

    def segs(self, wrap):
        n = self.dim(0)

        def v(i):
            if len(self.dims) == 1:
                s = NpScal(self.el(i), self.k)
                return s
            if wrap:
                return self.down(i)
            return Frz(HObj("list", self.down(i).segs(False), {}, "fresh"))
        if self.last and len(self.dims) == 1:
            m = sub(n, ONE)
            b = newidx(m)
            return (SFor(m, b, (SEl(self.el(b)),)), SEl(v(m)))
        if isconst(n) and cval(n) <= 8:
            return tuple(SEl(v(const(i))) for i in range(cval(n)))
        b = newidx(n)
        return (SFor(n, b, (SEl(v(b)),)),)
