"""Models of the builtins and of the standard library functions the analysed code may use."""
import builtins as _pyb
import math
import operator
import re
import sys
import unicodedata

from . import terms as t_
from .terms import (T, TRUE, FALSE, NONE, ZERO, ONE, const, isconst, cval, kind, fn, ite, and_, or_, not_,
                    add, sub, mul, lt, le, eq, at, newbv, newidx, subst, lst, dct, tup, mk, sym, top,
                    segs as tsegs, el as tel, sfor as tsfor, sif as tsif, sop as tsop)

STDLIB = set(sys.stdlib_module_names)

_CLASSES = ["int", "float", "str", "bool", "list", "dict", "tuple", "set", "frozenset", "bytes", "bytearray",
            "object", "type", "property", "staticmethod", "classmethod", "complex", "range", "slice", "memoryview"]
_FUNCS = ["len", "map", "zip", "enumerate", "sorted", "reversed", "any", "all", "sum", "max", "min", "abs", "iter",
          "next", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "delattr", "vars", "id", "callable",
          "round", "ord", "chr", "repr", "print", "filter", "pow", "divmod", "__import__", "hash", "format", "open",
          "input", "globals", "locals", "dir", "exec", "eval", "compile", "hex", "bin", "super", "ascii"]


def builtins_env():
    from .interp import Bi, BCls
    e = {}
    for n in _CLASSES:
        e[n] = BCls(n)
    for n in _FUNCS:
        e[n] = Bi(n)
    for n in dir(_pyb):
        v = getattr(_pyb, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            e[n] = BCls(n)
    e["True"], e["False"], e["None"] = TRUE, FALSE, NONE
    e["NotImplemented"] = const("NotImplemented")
    e["__debug__"] = TRUE
    return e


from .interp import (FObj, Bi, BCls, ClassObj, Ref, View, Frz, Tup, VIte, UNDEF, Undef, Fn, BoundM, Partial, Mod,  # noqa
                     StdMod, ExcV, StarArg, HObj, SEl, SFor, SIf, SOp, DSet, DAdd, DDel, Unsup, PathDead,
                     clsname, LISTY, map_segs, map_val, inst, fresh_for, TryFrame, State, SuperV, PropV, StaticV,
                     ClassMV, has_undef, _EXC)


class ForeignMod(FObj):
    tname = "module"

    def __init__(self, name):
        self.name = name

    def getattr(self, I, name):
        return ForeignMod(self.name + "." + name)

    def call(self, I, args, kw):
        I.event("thirdparty", self.name)
        raise Unsup("third-party call " + self.name)

    def __repr__(self):
        return "<third-party %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, ForeignMod) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class RePat(FObj):
    tname = "Pattern"

    def __init__(self, pat, flags):
        self.pat, self.flags = pat, flags

    def getattr(self, I, name):
        if name in ("findall", "split", "match", "search", "sub", "fullmatch", "finditer"):
            return Partial(Bi("re." + name), [self.patterm()], {})
        if name == "pattern":
            return self.pat
        if name == "flags":
            return self.flags
        return None

    def patterm(self):
        if isconst(self.flags) and cval(self.flags) == 0:
            return self.pat
        return fn("re.flag", self.pat, self.flags)

    def reify(self, I):
        return fn("re.compile", self.patterm())

    def subst(self, f):
        return RePat(f(self.pat), f(self.flags))


def foreign_binop(I, op, a, b):
    for x in (a, b):
        if isinstance(x, FObj):
            m = getattr(x, "binop", None)
            if m is not None:
                r = m(I, op, a, b)
                if r is not None:
                    return r
    return None


# -------------------------------------------------------------------- kinds
_LISTM = {"append", "extend", "insert", "pop", "index", "count", "sort", "reverse", "copy", "remove", "clear",
          "__len__", "__getitem__", "__contains__", "__iter__", "__setitem__"}
_DICTM = {"get", "items", "keys", "values", "update", "pop", "setdefault", "copy", "clear", "popitem", "__getitem__",
          "__contains__", "__len__", "__setitem__", "__iter__"}
_STRM = {m for m in dir(str) if not m.startswith("_")} | {"__len__", "__contains__", "__getitem__"}
_BYTESM = {m for m in dir(bytes) if not m.startswith("_")}
_SETM = {"add", "update", "discard", "remove", "union", "intersection", "difference", "copy", "pop", "issubset",
         "issuperset", "clear", "__contains__", "__len__", "symmetric_difference", "isdisjoint"}
_TUPM = {"index", "count", "__len__", "__getitem__", "__contains__", "__iter__"}
_NUMM = {"item_", "is_integer", "bit_length", "conjugate", "real", "imag", "as_integer_ratio", "hex", "__add__",
         "__mul__", "__sub__", "__float__", "__int__"}
METHODS = {"list": _LISTM, "dict": _DICTM, "defaultdict": _DICTM, "str": _STRM, "bytes": _BYTESM, "bytearray": _BYTESM | _LISTM,
           "set": _SETM, "frozenset": _SETM, "tuple": _TUPM, "range": _TUPM, "iter": {"__next__", "__iter__"},
           "float": {"is_integer", "hex", "conjugate", "as_integer_ratio"}, "int": {"bit_length", "conjugate", "to_bytes"},
           "num": {"is_integer"}, "bool": {"bit_length", "conjugate"}, "none": set(), "obj": set(), "index": {"bit_length"}}
_ANYM = _LISTM | _DICTM | _STRM | _SETM


def has_method(k, name):
    if k is None:
        return name in _ANYM or name in ("group", "groups", "span", "start", "end")
    if k == "scal":
        return name in _STRM
    return name in METHODS.get(k, ())


def term_attr(I, o, name):
    k = kind(o)
    if k in ("int", "float", "num", "bool") and name in ("real", "numerator"):
        return o
    if k in ("int", "float", "num", "bool") and name == "imag":
        return ZERO
    if o.op == "const" and o.pay[0] == "o" and o.pay[1][0] == "type":
        if name == "__name__":
            return const(o.pay[1][1].split(".")[-1])
        if name == "__module__":
            return const("builtins" if "." not in o.pay[1][1] else o.pay[1][1].rsplit(".", 1)[0])
    if k is None and o.op in ("at", "ite", "loop", "while", "bv", "inst", "call") or k is None and o.op == "fn" and o.pay in ("type", "call", "dget", "inst", "pop"):
        raise Unsup("attribute %s of an unknown value" % name)
    unmodelled(k, name)
    return None


_REAL = {"int": (0,), "float": (0.0,), "bool": (True,), "str": ("",), "bytes": (b"",), "list": ([],), "dict": ({},), "tuple": ((),),
         "set": (set(),), "frozenset": (frozenset(),), "none": (None,), "num": (0, 0.0), "scal": (0, 0.0, ""), "bytearray": (bytearray(),),
         "defaultdict": (__import__("collections").defaultdict(),), "object": (object(),), "type": (type,), "range": (range(0),)}


def unmodelled(k, name, cls=False):
    """attributes the built-in type has but the analysis has no model of"""
    if any(hasattr(type(c) if cls else c, name) for c in _REAL.get(k, ())):
        raise Unsup("attribute %s of %s" % (name, k))


def typeof(I, v):
    if isinstance(v, T):
        k = kind(v)
        if k in ("int", "float", "str", "bool", "list", "dict", "tuple", "bytes", "set"):
            return BCls(k)
        if k == "none":
            return BCls("NoneType")
        if k in ("num", "scal"):
            is_ = lambda n: fn("isinstance", v, const(("type", n)))
            r = BCls("float")
            if k == "scal":
                r = VIte(is_("str"), BCls("str"), r)
                r = VIte(is_("bytes"), BCls("bytes"), r) if False else r
            return VIte(is_("bool"), BCls("bool"), VIte(is_("int"), BCls("int"), r))
        if v.op == "const" and v.pay[0] == "o" and v.pay[1][0] == "type":
            return BCls("type")
        return fn("type", v)
    if isinstance(v, (Ref, View, Frz)):
        o = I.obj(v)
        if isinstance(o.cls, ClassObj):
            return o.cls
        return BCls(o.cls)
    if isinstance(v, Tup):
        return BCls("tuple")
    if isinstance(v, VIte):
        return I.merge(v.c, typeof(I, v.a), typeof(I, v.b))
    if isinstance(v, (Fn, Partial)):
        return BCls("function" if isinstance(v, Fn) else "partial")
    if isinstance(v, BoundM):
        return BCls("method")
    if isinstance(v, Bi):
        return BCls("builtin_function_or_method")
    if isinstance(v, (BCls, ClassObj)):
        return BCls("type")
    if isinstance(v, (Mod, StdMod)):
        return BCls("module")
    if isinstance(v, ExcV):
        return v.cls
    if isinstance(v, FObj):
        m = getattr(v, "typeof", None)
        if m is not None:
            return m(I)
        return BCls("foreign:" + v.tname)
    raise Unsup("type of %r" % (v,))


_PYC = {n: getattr(_pyb, n) for n in _CLASSES}
_SUBT = {"bool": ("bool", "int"), "Integral": ("Integral",), "defaultdict": ("defaultdict", "dict")}


def cls_matches(name, target):
    """builtin class name is (a subclass of) target"""
    if target == "object" or name == target:
        return True
    if name == "bool" and target == "int":
        return True
    if target == "Integral":
        return name in ("int", "bool")
    if target in ("Number", "Real", "Complex", "Rational"):
        return name in ("int", "bool") or (name == "float" and target in ("Number", "Real", "Complex"))
    if target in ("Mapping", "MutableMapping"):
        return name in ("dict", "defaultdict")
    if target == "Iterable":
        return name in ("list", "tuple", "dict", "set", "str", "iter", "range", "defaultdict", "bytes")
    if target in ("Sequence",):
        return name in ("list", "tuple", "str", "range", "bytes")
    if target == "Callable":
        return name in ("function", "method", "builtin_function_or_method", "partial", "type")
    if name == "defaultdict" and target == "dict":
        return True
    if name in _EXC and target in _EXC:
        return issubclass(_EXC[name], _EXC[target])
    return False


def isinstance_(I, v, c):
    if isinstance(c, Tup):
        return or_(*[isinstance_(I, v, x) for x in c.items])
    if isinstance(c, VIte):
        return ite(c.c, isinstance_(I, v, c.a), isinstance_(I, v, c.b))
    if isinstance(v, VIte):
        if has_undef(v):
            v = I.defined(v, "UnboundLocalError", "undefined")
            return isinstance_(I, v, c)
        return ite(v.c, isinstance_(I, v.a, c), isinstance_(I, v.b, c))
    if isinstance(c, Bi) and c.name.split(".")[-1] in ("Mapping", "Integral", "Number", "Real", "Iterable", "Sequence", "Callable"):
        c = BCls(c.name.split(".")[-1])
    if isinstance(c, ForeignMod):
        raise Unsup("isinstance of third-party class")
    if not isinstance(c, (BCls, ClassObj)):
        I.err("TypeError", "isinstance() arg 2 must be a type or tuple of types")
    if isinstance(v, T):
        k = kind(v)
        if isinstance(c, ClassObj):
            if k is not None:
                return FALSE
            return fn("isinstance", v, const(("type", c.qual)))
        if k in ("int", "float", "str", "bool", "list", "dict", "tuple", "bytes", "set"):
            return const(cls_matches(k, c.name))
        if k == "none":
            return const(c.name in ("object", "NoneType"))
        if k == "num":
            if cls_matches("int", c.name) and cls_matches("float", c.name):
                return TRUE
            if c.name in ("str", "list", "dict", "tuple", "bytes", "set"):
                return FALSE
        if k == "scal" and c.name in ("list", "dict", "tuple", "bytes", "set", "frozenset", "NoneType", "type", "Iterable", "Mapping", "Callable"):
            if c.name != "Iterable":
                return FALSE
        if c.name == "object":
            return TRUE
        return fn("isinstance", v, const(("type", c.name)))
    if isinstance(v, (Ref, View, Frz)):
        o = I.obj(v)
        if isinstance(o.cls, ClassObj):
            if isinstance(c, ClassObj):
                return const(c in o.cls.mro)
            return const(any(isinstance(x, BCls) and cls_matches(x.name, c.name) for x in o.cls.mro))
        if isinstance(c, ClassObj):
            return FALSE
        return const(cls_matches(o.cls, c.name))
    if isinstance(v, Tup):
        return const(isinstance(c, BCls) and cls_matches("tuple", c.name))
    if isinstance(v, FObj):
        m = getattr(v, "isinstance", None)
        if m is not None:
            return m(I, c)
        return const(isinstance(c, BCls) and c.name == "object")
    if isinstance(v, ExcV):
        return const(c in v.cls.mro if isinstance(v.cls, ClassObj) else isinstance(c, BCls) and cls_matches(v.cls.name, c.name))
    t = typeof(I, v)
    return const(isinstance(c, BCls) and isinstance(t, BCls) and cls_matches(t.name, c.name))


# --------------------------------------------------------------- sequences
def simple(ss):
    return len(ss) == 1 and isinstance(ss[0], SFor) and len(ss[0].segs) == 1 and isinstance(ss[0].segs[0], SEl)


def allel(ss):
    return all(isinstance(s, SEl) for s in ss)


def seqlen(I, ss):
    n = I.seg_len(ss)
    if n is None:
        n = fn("len", I.reify_segs(ss))
    return n


def tmin(a, b):
    if a is b:
        return a
    c = le(a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return ite(c, a, b)


def settled(I, v):
    """segments of an iterable, evaluated once"""
    return I.elems(v)


def build(I, n, f):
    """segments [f(i) for i in range(n)] for value-level f (no effects)"""
    if isconst(n) and cval(n) <= 64:
        return tuple(SEl(f(const(i))) for i in range(max(0, cval(n))))
    b = newidx(n)
    return (SFor(n, b, (SEl(f(b)),)),)


def zip_(I, args):
    sss = []
    for a in args:
        if isinstance(a, StarArg):
            return zip_star(I, a.v)
        sss.append(settled(I, a))
    if not sss:
        return ()
    if all(allel(s) for s in sss):
        return tuple(SEl(Tup([x.v for x in xs])) for xs in zip(*sss))
    if len(sss) == 1:
        return I.map_el(sss[0], lambda x: Tup([x]))
    n = None
    for s in sss:
        m = seqlen(I, s)
        n = m if n is None else tmin(n, m)
    return build(I, n, lambda i: Tup([I.seg_index(s, i, False) for s in sss]))


def zip_star(I, ss):
    """zip(*rows): columns of a list of rows of symbolic length"""
    if len(ss) == 1 and isinstance(ss[0], SOp):
        ss = I.titer(ss[0].t)
    if not simple(ss):
        if not ss:
            return ()
        widths = []

        def wd(r):
            w = seqlen(I, I.elems(r))
            widths.append(w)
            return w
        ws = I.map_el(ss, wd)
        n = seqlen(I, ss)
        m = fn("min", I.reify_segs(ws)) if any(w is not widths[0] for w in widths) or not (widths[0].fv <= n.fv | I.reify_segs(ss).fv) else widths[0]
        if t_.minval(n) is None or t_.minval(n) < 1:
            m = ite(lt(ZERO, n), m, ZERO)
        j = newidx(m)
        col = Frz(HObj("tuple", I.map_el(ss, lambda r: I.seg_index(I.elems(r), j, False)), {}, "fresh", I.site()))
        return (SFor(m, j, (SEl(col),)),)
    n = ss[0].n
    i = newidx(n)
    row = I.seg_index(ss, i, False)
    rs = I.elems(row)
    m = seqlen(I, rs)
    if i.pay in m.fv:
        m = fn("min", lst(tsfor(n, i, tsegs(tel(m)))))
    if t_.minval(n) is None or t_.minval(n) < 1:
        m = ite(lt(ZERO, n), m, ZERO)
    j = newidx(m)
    i2 = newidx(n)
    r2 = I.elems(I.seg_index(ss, i2, False))
    col = Frz(HObj("tuple", (SFor(n, i2, (SEl(I.seg_index(r2, j, False)),)),), {}, "fresh", I.site()))
    return (SFor(m, j, (SEl(col),)),)


def tsegs_of(I, ss):
    return I.reify_segs(ss)


def truth_segs(I, v):
    return I.map_el(settled(I, v), lambda x: I.truth(x))


def sum_(I, args, kw):
    ss = settled(I, args[0])
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    if not isinstance(start, T):
        # concatenation of lists
        sink = I.new("list", I.elems(start))

        def body(x):
            method(I, sink, "extend", [x], {})
        alive, ctx = I.run_for(ss, body)
        I.end_for(alive, ctx)
        return sink
    chk = [s for s in ss if isinstance(s, SEl)]
    for s in chk:
        if not isinstance(s.v, (T, FObj, VIte)):
            I.err("TypeError", "unsupported operand type(s) for +: 'int' and '%s'" % I.tyname(s.v))
        if isinstance(s.v, T) and kind(s.v) in ("str", "none", "list", "dict"):
            I.err("TypeError", "unsupported operand type(s) for +: 'int' and '%s'" % kind(s.v))
    if allel(ss):
        r = start
        for s in ss:
            r = add(r, I.scalar(s.v))
        return r
    t = fn("sum", I.reify_segs(ss))
    if start is ZERO or start is const(0.0):
        return t
    return add(start, t)


def minmax(I, name, args, kw):
    key = kw.get("key")
    if isinstance(key, T) and kind(key) == "none":
        key = None
    default = kw.get("default")
    if len(args) == 1:
        ss = settled(I, args[0])
    else:
        ss = tuple(SEl(a) for a in args)
    if allel(ss) and not ss and default is None:
        I.err("ValueError", "%s() arg is an empty sequence" % name)
    if allel(ss) and len(ss) == 1:
        return I.lift(ss[0].v)
    def isnum(x):
        return isinstance(x, T) and kind(x) in ("int", "float", "num", "bool")
    if allel(ss) and key is None and 0 < len(ss) <= 6 and all(isnum(s.v) for s in ss):
        r = ss[0].v
        for s in ss[1:]:
            r = ite(lt(r, s.v) if name == "max" else lt(s.v, r), s.v, r)
        return r
    l = I.reify_segs(ss)
    if key is not None:
        if isinstance(key, BoundM) and isinstance(key.fn, Bi) and key.fn.name == "m.__getitem__":
            pass
        ks = I.reify_segs(I.map_el(ss, lambda x: I.call(key, [x], {})))
        r = fn(name + "by", ks, l)
        if kind(l) == "list":
            e = t_.simple_for(l)
            if e is not None:
                r.kindc = kind(e[2])
    else:
        r = fn(name, l)
        e = t_.simple_for(l)
        if e is not None and kind(e[2]):
            r.kindc = kind(e[2])
    n = seqlen(I, ss)
    if default is not None:
        return I.merge(lt(ZERO, n), r, default)
    if I.caught("ValueError"):
        I.may_raise(not_(lt(ZERO, n)), "ValueError", "%s() arg is an empty sequence" % name)
    return r


def sorted_(I, v, key, rev):
    ss = settled(I, v)
    l = I.reify_segs(ss)
    rv = I.truth(rev) if rev is not None else FALSE
    if key is not None and not (isinstance(key, T) and kind(key) == "none"):
        ks = I.reify_segs(I.map_el(ss, lambda x: I.call(key, [x], {})))
        t = fn("sortedby", ks, l, rv)
    else:
        t = fn("sorted", l, rv)
    t.kindc = "list"
    return (SOp(t),)


def range_(I, args):
    a = [I.scalar(x) for x in args]
    for x in a:
        if kind(x) in ("float", "str", "list", "none"):
            I.err("TypeError", "'%s' object cannot be interpreted as an integer" % kind(x))
    lo, hi, st = ZERO, None, ONE
    if len(a) == 1:
        hi = a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        lo, hi, st = a
    if all(isconst(x) for x in (lo, hi, st)):
        r = range(cval(lo), cval(hi), cval(st))
        if len(r) <= 64:
            return tuple(SEl(const(i)) for i in r)
    if st is ONE:
        n = sub(hi, lo)
        c = le(ZERO, n)
        if c is not TRUE:
            n = ite(c, n, ZERO)
        b = newidx(n)
        return (SFor(n, b, (SEl(add(lo, b)),)),)
    if st is const(-1):
        n = sub(lo, hi)
        c = le(ZERO, n)
        if c is not TRUE:
            n = ite(c, n, ZERO)
        b = newidx(n)
        return (SFor(n, b, (SEl(sub(lo, b)),)),)
    n = fn("rangelen", lo, hi, st)
    n.kindc = "int"
    b = newidx(n)
    return (SFor(n, b, (SEl(add(lo, mul(b, st))),)),)


def enumerate_(I, args, kw):
    ss = settled(I, args[0])
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    if allel(ss):
        return tuple(SEl(Tup([add(start, const(i)), s.v])) for i, s in enumerate(ss))
    if simple(ss):
        s = ss[0]
        b = newidx(s.n)
        return (SFor(s.n, b, (SEl(Tup([add(start, b), inst(s.segs[0].v, s.bv, b)])),)),)
    n = seqlen(I, ss)
    l = I.reify_segs(ss)
    return build(I, n, lambda i: Tup([add(start, i), at(l, i)]))


def reversed_(I, v):
    ss = settled(I, v)
    if allel(ss):
        return tuple(reversed(ss))
    n = seqlen(I, ss)
    if I.seg_len(ss) is None:
        l = I.reify_segs(ss)
        return build(I, n, lambda i: at(l, sub(sub(n, ONE), i)))
    return build(I, n, lambda i: I.seg_index(ss, sub(sub(n, ONE), i), False))


def islice_(I, args):
    ss = settled(I, args[0])
    a = [x for x in args[1:]]
    if len(a) == 1:
        lo, hi, st = None, a[0], None
    else:
        lo, hi = a[0], a[1]
        st = a[2] if len(a) > 2 else None
    nn = lambda x: None if x is None or x is NONE else x
    return I.slice_segs(ss, nn(lo), nn(hi), nn(st))


def next_(I, args):
    it = args[0]
    ss = I.obj(it).segs if isinstance(it, (Ref, View, Frz)) else None
    if ss is None or clsname(I.obj(it).cls) != "iter":
        if isinstance(it, FObj) or ss is None:
            raise Unsup("next of %r" % (it,))
        I.err("TypeError", "'%s' object is not an iterator" % clsname(I.obj(it).cls))
    if ss and isinstance(ss[0], SEl):
        if isinstance(it, Ref):
            I.setobj(it, I.obj(it).but(segs=ss[1:]))
        return I.lift(ss[0].v)
    if not ss:
        if len(args) > 1:
            return args[1]
        I.may_raise(TRUE, "StopIteration", "next on exhausted iterator")
    n = I.seg_len(ss)
    l = None
    if n is None:
        l = I.reify_segs(ss)
        n = fn("len", l)
        v = at(l, ZERO)
        k = seg_kind(ss)
        rest = fn("slice", l, ONE, NONE, NONE)
        rest.kindc = "list"
        rs = (SOp(rest),)
    else:
        v = I.seg_index(ss, ZERO)
        rs = I.slice_segs(ss, ONE, None, None) if le(ONE, n) is TRUE else None
        if rs is None:
            r = fn("slice", I.reify_segs(ss), ONE, NONE, NONE)
            r.kindc = "list"
            rs = (SOp(r),)
    c = lt(ZERO, n)
    if isinstance(it, Ref):
        I.setobj(it, I.obj(it).but(segs=rs))
    if len(args) > 1:
        if c is TRUE:
            return I.lift(v)
        return I.merge(c, v, args[1])
    I.may_raise(not_(c), "StopIteration", "next on exhausted iterator")
    return I.lift(v)


def seg_kind(ss):
    return None


def newiter(I, ss):
    return I.new("iter", ss)


def attempt(I, f, exc, fallback):
    """f() with exception class exc handled by fallback()"""
    tf = TryFrame(I.fr, [BCls(exc)])
    I.trys.append(tf)
    states = []
    alive = True
    v = None
    try:
        v = f()
    except PathDead:
        alive = False
    finally:
        I.trys.pop()
    if not tf.recs:
        if not alive:
            raise PathDead()
        return v
    for r in tf.recs:
        states.append((r.state, fallback()))
    if alive:
        states.append((I.snap(), v))
    return I.join_states(states)


# ----------------------------------------------------------- builtin calls
def call_builtin(I, f, args, kw):
    name = f.name
    if f.f is not None:
        return f.f(I, args, kw)
    h = _BUILTIN.get(name)
    if h is not None:
        return h(I, args, kw)
    if name.startswith("math."):
        return math_call(I, name[5:], args)
    if name.startswith("operator."):
        return operator_call(I, name[9:], args)
    if name.startswith("re."):
        return re_call(I, name[3:], args, kw)
    if "." in name:
        c, m = name.split(".", 1)
        if c in METHODS and args:
            return method(I, args[0], m, list(args[1:]), kw)
        if m == "__init__":
            return NONE
        if name in ("threading.Lock", "threading.RLock"):
            return LockObj(name)
        if c in _AMBIENT_MODS:
            I.event("ambient", name)
            return top("ambient " + name)
        if c in ("warnings", "logging"):
            return NONE
        if name.startswith("unicodedata."):
            return fn(name, *[I.reify(a) for a in args])
    raise Unsup("call of " + name)


_AMBIENT_MODS = {"time", "os", "random", "socket", "datetime", "secrets", "uuid", "subprocess", "threading", "tempfile",
                 "sys", "platform", "getpass", "locale", "urllib", "http", "pathlib", "io", "glob", "shutil", "select"}


def b_len(I, a, k):
    return I.length(a[0])


def b_map(I, a, k):
    f = a[0]
    if len(a) == 2:
        if isinstance(a[1], StarArg):
            raise Unsup("map star")
        ss = settled(I, a[1])
        return newiter(I, I.map_el(ss, lambda x: I.call(f, [x], {})))
    z = zip_(I, a[1:])
    return newiter(I, I.map_el(z, lambda x: I.call(f, [I.lift(y) for y in x.items], {})))


def b_filter(I, a, k):
    ss = settled(I, a[1])

    def each(x):
        c = I.truth(x if (isinstance(a[0], T) and kind(a[0]) == "none") else I.call(a[0], [x], {}))
        if c is TRUE:
            return (SEl(x),)
        if c is FALSE:
            return ()
        return (SIf(c, (SEl(x),), ()),)
    return newiter(I, I.collect(ss, each))


def b_anyall(which):
    def h(I, a, k):
        ss = truth_segs(I, a[0])
        if allel(ss):
            vs = [s.v for s in ss]
            return or_(*vs) if which == "any" else and_(*vs)
        if simple(ss):
            s = ss[0]
            v = s.segs[0].v
            if s.bv.pay not in v.fv:
                return and_(lt(ZERO, s.n), v) if which == "any" else or_(not_(lt(ZERO, s.n)), v)
        if which == "all":
            # all(c) is not any(not c)
            ns = map_segs(ss, lambda t: t)
            return not_(fn("any", I.reify_segs(neg_segs(ns))))
        return fn("any", I.reify_segs(ss))
    return h


def neg_segs(ss):
    out = []
    for s in ss:
        if isinstance(s, SEl):
            out.append(SEl(not_(s.v)))
        elif isinstance(s, SFor):
            out.append(SFor(s.n, s.bv, neg_segs(s.segs)))
        elif isinstance(s, SIf):
            out.append(SIf(s.c, neg_segs(s.a), neg_segs(s.b)))
        else:
            n = fn("len", s.t)
            b = newidx(n)
            out.append(SFor(n, b, (SEl(not_(fn("bool", at(s.t, b)))),)))
    return tuple(out)


def b_isinstance(I, a, k):
    return isinstance_(I, a[0], a[1])


def b_issubclass(I, a, k):
    c, d = a
    ds = d.items if isinstance(d, Tup) else [d]
    r = False
    for x in ds:
        if isinstance(c, ClassObj):
            r = r or x in c.mro
        elif isinstance(c, BCls) and isinstance(x, BCls):
            r = r or cls_matches(c.name, x.name)
        else:
            raise Unsup("issubclass")
    return const(r)


def b_hasattr(I, a, k):
    nm = cval(a[1])
    o = a[0]
    if isinstance(o, VIte):
        return ite(o.c, b_hasattr(I, [o.a, a[1]], k), b_hasattr(I, [o.b, a[1]], k))

    def f():
        v = I.getattr(o, nm)
        return TRUE
    return attempt(I, f, "AttributeError", lambda: FALSE)


def b_getattr(I, a, k):
    if not isconst(a[1]):
        return dyn_getattr(I, a)
    nm = cval(a[1])
    if len(a) == 2:
        return I.getattr(a[0], nm)
    return attempt(I, lambda: I.getattr(a[0], nm, a[2]), "AttributeError", lambda: a[2])


def dyn_getattr(I, a):
    """attribute name that is not a constant: only over the object's own attributes"""
    raise Unsup("dynamic attribute name")


def b_setattr(I, a, k):
    I.setattr(a[0], cval(a[1]), a[2])
    return NONE


class AttrDict(FObj):
    """the attribute dictionary of an analysed object: reads and writes go to the object"""
    tname = "dict"

    def __init__(self, o):
        self.o = o

    def subst(self, f):
        return AttrDict(map_val(self.o, f))

    def typeof(self, I):
        return BCls("dict")

    def isinstance(self, I, c):
        return const(isinstance(c, BCls) and c.name in ("dict", "object", "Mapping", "Iterable"))

    def snap(self, I):
        ss = []
        for n, v in I.obj(self.o).attrs.items():
            if isinstance(v, Undef):
                continue
            if isinstance(v, VIte) and has_undef(v):
                c = defcond(v)
                ss.append(SIf(c, (DSet(const(n), drop_undef(v)),), ()))
            else:
                ss.append(DSet(const(n), v))
        return I.new("dict", ss)

    def iter(self, I):
        return I.elems(self.snap(I))

    def length(self, I):
        return I.length(self.snap(I))

    def contains(self, I, x):
        return I.contains(self.snap(I), x)

    def truth(self, I):
        return I.truth(self.snap(I))

    def item(self, I, k):
        if not isconst(k):
            raise Unsup("dynamic attribute name")
        return attempt(I, lambda: I.getattr(self.o, cval(k)), "AttributeError", lambda: I.err("KeyError", cval(k)))

    def set(self, I, k, v):
        if not isconst(k):
            raise Unsup("dynamic attribute name")
        I.setattr(self.o, cval(k), v)

    def getattr(self, I, name):
        def m(I, a, k):
            return self.method(I, name, a, k)
        if name == "__class__":
            return BCls("dict")
        if name in ("get", "setdefault", "update", "pop", "items", "keys", "values", "copy", "clear", "popitem", "__getitem__", "__setitem__", "__contains__"):
            return Bi("vars." + name, m)
        return None

    def method(self, I, name, a, k):
        if name in ("items", "keys", "values", "copy"):
            return I.call(I.getattr(self.snap(I), name), a, k)
        if name == "__contains__":
            return self.contains(I, a[0])
        if name == "__getitem__":
            return self.item(I, a[0])
        if name == "__setitem__":
            self.set(I, a[0], a[1])
            return NONE
        if name in ("get", "setdefault", "pop"):
            if not isconst(a[0]):
                raise Unsup("dynamic attribute name")
            nm = cval(a[0])
            d = a[1] if len(a) > 1 else NONE
            at = I.obj(self.o).attrs
            if nm not in at or isinstance(at[nm], Undef):
                if name == "pop" and len(a) < 2:
                    I.err("KeyError", nm)
                if name == "setdefault":
                    I.setattr(self.o, nm, d)
                    return I.getattr(self.o, nm)
                return d
            v = at[nm]
            if name == "pop":
                raise Unsup("attribute removed")
            if isinstance(v, VIte) and has_undef(v):
                c = defcond(v)

                def miss():
                    if name == "setdefault":
                        I.setattr(self.o, nm, d)
                    return d
                return I.branch(c, lambda: I.lift(drop_undef(v)), miss)
            return I.getattr(self.o, nm)
        if name == "update":
            for x in a:
                if isinstance(x, AttrDict):
                    x = x.snap(I)
                ob = I.obj(x) if isinstance(x, (Ref, View)) else None
                if ob is None or not all(isinstance(s, DSet) and isconst(s.k) for s in ob.segs):
                    raise Unsup("update of the attribute dictionary")
                for s in ob.segs:
                    I.setattr(self.o, cval(s.k), s.v)
            for n, v in k.items():
                I.setattr(self.o, n, v)
            return NONE
        raise Unsup("vars()." + name)


def defcond(v):
    """condition under which the attribute is defined"""
    if isinstance(v, Undef):
        return FALSE
    if isinstance(v, VIte):
        return ite(v.c, defcond(v.a), defcond(v.b))
    return TRUE


def drop_undef(v):
    if isinstance(v, VIte):
        a, b = drop_undef(v.a), drop_undef(v.b)
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        return VIte(v.c, a, b)
    return v


def bi_vars(I, a, k):
    if not a:
        raise Unsup("vars()")
    o = I.obj(a[0]) if isinstance(a[0], (Ref, View, Frz)) else None
    if o is None or not isinstance(o.cls, ClassObj):
        if isinstance(a[0], FObj):
            v = a[0].getattr(I, "__dict__")
            if v is not None:
                return v
        if o is None:
            raise Unsup("vars")
        I.err("TypeError", "vars() argument must have __dict__ attribute")
    return AttrDict(I.lift(a[0]) if isinstance(a[0], Frz) else a[0])


def b_id(I, a, k):
    v = a[0]
    if isinstance(v, T):
        return fn("id", v)
    if isinstance(v, Ref):
        return fn("id", const(("obj", v.loc)))
    return fn("id", const(("obj", id(v))))


def b_callable(I, a, k):
    v = a[0]
    if isinstance(v, T):
        return FALSE if kind(v) is not None else fn("callable", v)
    if isinstance(v, VIte):
        return ite(v.c, b_callable(I, [v.a], k), b_callable(I, [v.b], k))
    if isinstance(v, (Fn, BoundM, Bi, Partial, ClassObj, BCls)):
        return TRUE
    if isinstance(v, (Ref, View)):
        o = I.obj(v)
        return const(isinstance(o.cls, ClassObj) and o.cls.lookup("__call__")[1] is not None)
    if isinstance(v, FObj):
        return const(bool(getattr(v, "is_callable", False)))
    return FALSE


def b_import(I, a, k):
    if not isconst(a[0]) or not isinstance(cval(a[0]), str):
        raise Unsup("import of a computed name")
    nm = cval(a[0])
    m = I.import_mod(nm)
    fl = k.get("fromlist") or (a[3] if len(a) > 3 else None)
    if fl is not None and isinstance(fl, (Ref, Tup)):
        if isinstance(m, Mod):
            for s in I.elems(fl):
                if isinstance(s.v, T) and isconst(s.v) and cval(s.v) not in m.env:
                    I.load(m.name + "." + cval(s.v))
        return m
    if "." in nm:
        return I.import_mod(nm.split(".")[0])
    return m


def b_round(I, a, k):
    t = fn("round", *[I.scalar(x) for x in a])
    t.kindc = "int" if len(a) == 1 else kind(I.scalar(a[0]))
    return t


def b_abs(I, a, k):
    return mk("abs", (I.scalar(a[0]),))


def b_pow(I, a, k):
    return I.binop("Pow", a[0], a[1])


def b_repr(I, a, k):
    try:
        return fn("repr", I.reify(a[0]))
    except Unsup:
        return fn("fmt", const("repr"))


def b_ambient(name):
    def h(I, a, k):
        I.event("ambient", name)
        return top("ambient " + name)
    return h


def b_open(I, a, k):
    """open(): a document the caller names is read, anything else is ambient"""
    h = getattr(a[0], "opened", None) if a else None
    mode = a[1] if len(a) > 1 else k.get("mode", const("r"))
    if h is None or not isconst(mode):
        I.event("ambient", "open")
        return top("ambient open")
    m = cval(mode)
    if not set(m) <= set("rbt"):
        I.event("ambient", "open for writing")
        return top("ambient open")
    if "b" in m:
        if set(k) - {"mode", "buffering"} or len(a) > 3:
            I.raise_("ValueError", "binary mode doesn't take an encoding argument")
        return h(None, None)
    enc = k.get("encoding", a[3] if len(a) > 3 else None)
    if enc is None:
        I.event("ambient", "open in the locale's encoding")
        return top("ambient open")
    return h(enc, k.get("errors", const("strict")))


def b_reduce(I, a, k):
    f = a[0]
    ss = settled(I, a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if ss and isinstance(ss[0], SEl):
            acc = I.lift(ss[0].v)
            ss = ss[1:]
        elif simple(ss):
            s = ss[0]
            if not (t_.minval(s.n) is not None and t_.minval(s.n) >= 1) and I.caught("TypeError"):
                I.may_raise(not_(lt(ZERO, s.n)), "TypeError", "reduce() of empty sequence")
            elif not (t_.minval(s.n) is not None and t_.minval(s.n) >= 1):
                I.event("crash", ("TypeError", "reduce() of empty sequence with no initial value"), and_(I.pc, not_(lt(ZERO, s.n))))
            acc = I.lift(inst(s.segs[0].v, s.bv, ZERO))
            m = sub(s.n, ONE)
            b = newidx(m)
            ss = (SFor(m, b, (SEl(inst(s.segs[0].v, s.bv, add(b, ONE))),)),)
            if isconst(m) and cval(m) <= 0:
                ss = ()
        elif not ss:
            I.err("TypeError", "reduce() of empty iterable with no initial value")
        else:
            l = I.reify_segs(ss)
            n = fn("len", l)
            if I.caught("TypeError"):
                I.may_raise(not_(lt(ZERO, n)), "TypeError", "reduce() of empty sequence")
            acc = at(l, ZERO)
            m = sub(n, ONE)
            b = newidx(m)
            ss = (SFor(m, b, (SEl(at(l, add(b, ONE))),)),)
    # the accumulator is a local variable of a loop
    from .interp import Frame
    fr0 = I.fr
    fr = Frame(fr0.fn, {"$acc": acc}, [fr0.env] + fr0.encl, fr0.mod, fr0.cls, fr0.name)
    fr.node = fr0.node
    fr.locals = set()
    I.fr = fr
    try:
        def body(x):
            I.fr.env["$acc"] = I.call(f, [I.fr.env["$acc"], x], {})
        alive, ctx = I.run_for(ss, body)
        I.end_for(alive, ctx)
        return I.fr.env["$acc"]
    finally:
        I.fr = fr0


def b_partial(I, a, k):
    return Partial(a[0], a[1:], k)


def b_warn(I, args, kw):
    I.event("warn", (), I.pc)
    return NONE


def b_nop(I, a, k):
    return NONE


def b_first(I, a, k):
    return a[0]


def b_chain(I, a, k):
    out = ()
    for x in a:
        if isinstance(x, StarArg):
            out += I.collect(x.v, lambda v: I.elems(v))
        else:
            out += tuple(settled(I, x))
    return newiter(I, out)


def b_chain_from(I, a, k):
    return newiter(I, I.collect(settled(I, a[0]), lambda v: I.elems(v)))


def b_product(I, a, k):
    sss = [settled(I, x) for x in a]

    def go(i, acc):
        if i == len(sss):
            return (SEl(Tup(acc)),)
        return I.collect(sss[i], lambda x: go(i + 1, acc + [x]))
    return newiter(I, go(0, []))


def b_accumulate(I, a, k):
    f = a[1] if len(a) > 1 else k.get("func")
    from .interp import Frame
    ss = settled(I, a[0])
    if allel(ss):
        out = []
        acc = None
        for s in ss:
            acc = s.v if acc is None else (I.call(f, [acc, s.v], {}) if f is not None else I.binop("Add", acc, s.v))
            out.append(SEl(acc))
        return newiter(I, out)
    if f is None or (isinstance(f, Bi) and f.name == "operator.add"):
        l = I.reify_segs(ss)
        n = fn("len", l)
        b = newidx(n)
        c = newidx(add(b, ONE))
        return newiter(I, (SFor(n, b, (SEl(fn("sum", lst(tsfor(add(b, ONE), c, tsegs(tel(at(l, c))))))),)),))
    raise Unsup("accumulate")


def b_repeat(I, a, k):
    if len(a) < 2:
        raise Unsup("infinite repeat")
    n = I.scalar(a[1])
    if isconst(n):
        return newiter(I, [SEl(a[0])] * cval(n))
    return newiter(I, (SFor(n, newidx(n), (SEl(a[0]),)),))


def b_copy(I, a, k):
    v = a[0]
    if isinstance(v, (Ref, View)):
        o = I.obj(v)
        ss = I.annot(v, o.segs) if clsname(o.cls) in ("list",) else o.segs
        return I.alloc(HObj(o.cls, ss, dict(o.attrs), I.region, I.site()))
    if isinstance(v, VIte):
        return I.branch(v.c, lambda: b_copy(I, [v.a], k), lambda: b_copy(I, [v.b], k))
    if isinstance(v, FObj):
        m = getattr(v, "copy", None)
        if m is not None:
            return m(I)
    return v


def b_deepcopy(I, a, k):
    v = a[0]
    if isinstance(v, (Ref, View)):
        return I.alloc(fresh_obj(I.freeze_obj(I.obj(v), 0)))
    if isinstance(v, VIte):
        return I.branch(v.c, lambda: b_deepcopy(I, [v.a], k), lambda: b_deepcopy(I, [v.b], k))
    if isinstance(v, FObj):
        m = getattr(v, "copy", None)
        if m is not None:
            return m(I)
    return v


def fresh_obj(o):
    def fv(v):
        if isinstance(v, Frz):
            return Frz(fresh_obj(v.o))
        if isinstance(v, Tup):
            return Tup([fv(x) for x in v.items])
        if isinstance(v, VIte):
            return VIte(v.c, fv(v.a), fv(v.b))
        return v

    def fs(ss):
        out = []
        for s in ss:
            if isinstance(s, SEl):
                out.append(SEl(fv(s.v)))
            elif isinstance(s, SFor):
                out.append(SFor(s.n, s.bv, fs(s.segs)))
            elif isinstance(s, SIf):
                out.append(SIf(s.c, fs(s.a), fs(s.b)))
            elif isinstance(s, DSet):
                out.append(DSet(s.k, fv(s.v)))
            else:
                out.append(s)
        return tuple(out)
    return HObj(o.cls, fs(o.segs), {k: fv(v) for k, v in o.attrs.items()}, "fresh", o.site)


def b_divmod(I, a, k):
    return Tup([I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1])])


def b_ord(I, a, k):
    return fn("ord", I.scalar(a[0]))


def b_chr(I, a, k):
    return fn("chr", I.scalar(a[0]))


def b_iter(I, a, k):
    v = a[0]
    if isinstance(v, (Ref, View)) and clsname(I.obj(v).cls) == "iter":
        return v
    return newiter(I, settled(I, v))


def b_itemgetter(I, a, k):
    ks = list(a)

    def f(I, b, kk):
        r = [I.getitem(b[0], x) for x in ks]
        return r[0] if len(r) == 1 else Tup(r)
    return Bi("itemgetter%r" % (ks,), f)


def b_attrgetter(I, a, k):
    names = [cval(x) for x in a]

    def one(I, o, n):
        for part in n.split("."):
            o = I.getattr(o, part)
        return o

    def f(I, b, kk):
        r = [one(I, b[0], n) for n in names]
        return r[0] if len(r) == 1 else Tup(r)
    return Bi("attrgetter%r" % (names,), f)


def b_methodcaller(I, a, k):
    nm, rest = cval(a[0]), list(a[1:])
    return Bi("methodcaller", lambda I, b, kk: I.call(I.getattr(b[0], nm), rest, k))


def b_hash(I, a, k):
    v = a[0]
    if isinstance(v, T) and kind(v) in ("str", None, "bytes"):
        I.event("ambient", "hash() of a string")
    return fn("hash", I.reify(v))


def b_format(I, a, k):
    return fn("fmt", *[I.reify(x) for x in a])


def b_typing(I, a, k):
    return a[0] if a else NONE


def b_starmap(I, a, k):
    return newiter(I, I.map_el(settled(I, a[1]), lambda x: I.call(a[0], [I.lift(s.v) for s in I.elems(x)], {})))


def b_takewhile(I, a, k):
    raise Unsup("takewhile")


def b_dumps(I, a, k):
    return fn("pickle", const("blob"))


def b_wraps(I, a, k):
    return Bi("functools.wraps_id", lambda I, b, kk: b[0])


def b_lru(I, a, k):
    if a and isinstance(a[0], Fn):
        I.event("cache", a[0].name)
        return a[0]
    return Bi("lru", lambda I, b, kk: b[0])


def b_objnew(I, a, k):
    c = a[0]
    if isinstance(c, ClassObj):
        return I.alloc(HObj(c, (), {}, I.region, I.site()))
    raise Unsup("object.__new__")


def b_listinit(I, a, k):
    if len(a) > 1:
        I.setobj(a[0], I.obj(a[0]).but(segs=settled(I, a[1])))
    return NONE


def b_dictinit(I, a, k):
    if len(a) > 1 or k:
        method(I, a[0], "update", list(a[1:]), k)
    return NONE


def b_ziplongest(I, a, k):
    raise Unsup("zip_longest")


_BUILTIN = {
    "len": b_len, "map": b_map, "filter": b_filter, "any": b_anyall("any"), "all": b_anyall("all"),
    "zip": lambda I, a, k: newiter(I, zip_(I, a)),
    "enumerate": lambda I, a, k: newiter(I, enumerate_(I, a, k)),
    "sorted": lambda I, a, k: I.new("list", sorted_(I, a[0], k.get("key"), k.get("reverse"))),
    "reversed": lambda I, a, k: newiter(I, reversed_(I, a[0])),
    "sum": sum_, "max": lambda I, a, k: minmax(I, "max", a, k), "min": lambda I, a, k: minmax(I, "min", a, k),
    "math.fsum": lambda I, a, k: fn("float", sum_(I, a, k)),
    "abs": b_abs, "iter": b_iter, "next": lambda I, a, k: next_(I, a),
    "isinstance": b_isinstance, "issubclass": b_issubclass, "hasattr": b_hasattr, "getattr": b_getattr,
    "setattr": b_setattr, "vars": bi_vars, "id": b_id, "callable": b_callable, "__import__": b_import,
    "importlib.import_module": lambda I, a, k: I.import_mod(cval(a[0])),
    "round": b_round, "pow": b_pow, "repr": b_repr, "ascii": b_repr, "divmod": b_divmod, "ord": b_ord, "chr": b_chr, "hash": b_hash,
    "print": b_nop, "format": b_format,
    "open": b_open, "input": b_ambient("input"), "exec": b_ambient("exec"), "eval": b_ambient("eval"),
    "functools.reduce": b_reduce, "functools.partial": b_partial, "functools.update_wrapper": b_first,
    "functools.wraps": b_wraps, "functools.lru_cache": b_lru, "functools.cache": b_lru,
    "itertools.chain": b_chain, "itertools.chain.from_iterable": b_chain_from,
    "itertools.islice": lambda I, a, k: newiter(I, islice_(I, a)),
    "itertools.product": b_product, "itertools.accumulate": b_accumulate, "itertools.repeat": b_repeat,
    "itertools.starmap": b_starmap, "itertools.zip_longest": b_ziplongest,
    "copy.copy": b_copy, "copy.deepcopy": b_deepcopy,
    "operator.itemgetter": b_itemgetter, "operator.attrgetter": b_attrgetter, "operator.methodcaller": b_methodcaller,
    "warnings.warn": b_warn, "warnings.simplefilter": b_nop,
    "abc.abstractmethod": b_first, "list.__init__": b_listinit, "dict.__init__": b_dictinit,
    "object.__init__": b_nop, "object.__new__": b_objnew, "pickle.dumps": b_dumps,
    "typing.cast": lambda I, a, k: a[1],
}


# ----------------------------------------------------------------- math etc.
_MATH1 = {"exp", "log", "sqrt", "log2", "log10", "log1p", "expm1", "tanh", "sin", "cos", "tan", "atan", "fabs", "erf", "gamma", "lgamma", "sinh", "cosh"}


def math_call(I, name, args):
    a = [I.scalar(x) for x in args]
    for x in a:
        if kind(x) in ("str", "none", "list", "dict", "tuple"):
            I.err("TypeError", "must be real number, not %s" % kind(x))
    if name == "exp" and I.caught("OverflowError"):
        I.may_raise(fn("raises_overflow", a[0]), "OverflowError", "math range error")
    if name in ("log", "sqrt", "log2", "log10") and I.caught("ValueError"):
        I.may_raise(le(a[0], ZERO) if name != "sqrt" else lt(a[0], ZERO), "ValueError", "math domain error")
    if name == "pow":
        return fn("math.pow", *a)
    if name == "log" and len(a) == 2:
        return fn("log", *a)
    if name == "fabs":
        return fn("float", mk("abs", (a[0],)))
    t = fn(name if name in ("exp", "log", "sqrt", "isnan", "isinf", "isfinite") else "math." + name, *a)
    if t.op == "fn" and t.kindc == 0:
        if name in ("isnan", "isinf", "isfinite", "isclose"):
            t.kindc = "bool"
        elif name in ("floor", "ceil", "trunc"):
            t.kindc = "int"
        else:
            t.kindc = "float"
    return t


_OPER = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow",
         "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor", "lshift": "LShift", "rshift": "RShift", "concat": "Add",
         "iadd": "Add", "imul": "Mult"}
_CMPS = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq", "is_": "Is", "is_not": "IsNot"}


def operator_call(I, name, args):
    if name in _OPER:
        if name in ("iadd",):
            return I.aug("Add", args[0], args[1])
        return I.binop(_OPER[name], args[0], args[1])
    if name in _CMPS:
        return I.compare(_CMPS[name], args[0], args[1])
    if name == "neg":
        return mk("neg", (I.scalar(args[0]),))
    if name == "not_":
        return not_(I.truth(args[0]))
    if name == "truth":
        return I.truth(args[0])
    if name == "getitem":
        return I.getitem(args[0], args[1])
    if name == "contains":
        return I.contains(args[0], args[1])
    if name == "setitem":
        I.setitem(*args)
        return NONE
    if name == "abs":
        return mk("abs", (I.scalar(args[0]),))
    raise Unsup("operator." + name)


def re_call(I, name, args, kw):
    if name == "compile":
        fl = args[1] if len(args) > 1 else kw.get("flags", ZERO)
        return RePat(I.scalar(args[0]), I.scalar(fl))
    if name == "escape":
        return fn("re.escape", I.scalar(args[0]))
    a = [x.patterm() if isinstance(x, RePat) else x for x in args]
    fl = kw.get("flags")
    n_std = {"findall": 2, "split": 2, "match": 2, "search": 2, "sub": 3, "fullmatch": 2, "finditer": 2}[name]
    if fl is not None:
        a[0] = fn("re.flag", I.scalar(a[0]), I.scalar(fl))
    if name == "sub" and not isinstance(a[1], T):
        raise Unsup("re.sub with function")
    ts = [I.scalar(x) for x in a]
    for x in ts[1:2]:
        if kind(x) in ("int", "float", "none", "list", "dict", "num", "bool"):
            I.err("TypeError", "expected string or bytes-like object, got %s" % kind(x))
    if len(a) > n_std and name in ("findall", "match", "search", "fullmatch"):
        ts = ts[:n_std]
    t = fn("re." + name, *ts)
    t.kindc = {"findall": "list", "split": "list", "sub": "str"}.get(name, None)
    return t


# ------------------------------------------------------------- std modules
_STDVALS = {("math", "pi"): math.pi, ("math", "e"): math.e, ("math", "inf"): math.inf, ("math", "nan"): math.nan,
            ("sys", "maxsize"): sys.maxsize, ("re", "I"): int(re.I), ("re", "IGNORECASE"): int(re.I),
            ("re", "U"): int(re.U), ("re", "UNICODE"): int(re.U), ("re", "M"): int(re.M), ("re", "S"): int(re.S),
            ("re", "ASCII"): int(re.A), ("string", "punctuation"): "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~",
            ("string", "ascii_lowercase"): "abcdefghijklmnopqrstuvwxyz", ("string", "digits"): "0123456789",
            ("string", "whitespace"): " \t\n\r\x0b\x0c", ("math", "tau"): math.tau}
_STDCLS = {"Mapping", "MutableMapping", "Sequence", "Iterable", "Callable", "Integral", "Number", "Real", "Hashable"}


def std_attr(I, m, name):
    n = m.name
    if (n, name) in _STDVALS:
        return const(_STDVALS[(n, name)])
    if n == "collections" and name in ("defaultdict", "Counter", "OrderedDict", "namedtuple", "deque"):
        return BCls({"OrderedDict": "dict"}.get(name, name))
    if name in _STDCLS and n in ("collections.abc", "numbers", "typing", "collections"):
        return BCls(name)
    if n == "abc" and name in ("ABC", "ABCMeta"):
        return BCls("object")
    if n == "functools" and name == "cached_property":
        return Bi("functools.cached_property", lambda I, a, k: PropV(a[0]))
    if n == "sys" and name not in ("maxsize",):
        I.event("ambient", "sys." + name)
        return top("sys." + name)
    if n == "os" and name in ("environ", "path"):
        if name == "environ":
            I.event("ambient", "os.environ")
        return StdMod("os." + name)
    if n == "struct" and name in ("unpack", "unpack_from"):
        return Bi("struct." + name, struct_unpack if name == "unpack_from" else lambda I, a, k: struct_unpack(I, a[:2], k))
    if n.split(".")[0] == "itertools" and name == "chain":
        return ChainV()
    if n == "collections" and name == "abc":
        return StdMod("collections.abc")
    if n == "os" and name in ("sep", "linesep", "getcwd", "name"):
        I.event("ambient", "os." + name)
        return top("os")
    try:
        import importlib
        if n.split(".")[0] in ("math", "operator", "re", "functools", "itertools", "copy", "string", "numbers", "collections", "unicodedata", "warnings"):
            mod = importlib.import_module(n)
            if not hasattr(mod, name):
                return None
    except Exception:
        pass
    return Bi("%s.%s" % (n, name))


class LockObj(FObj):
    def __init__(self, tname):
        self.tname = tname

    def getattr(self, I, name):
        if name in ("acquire", "release", "locked", "__enter__", "__exit__"):
            return Bi("lock." + name, lambda I, a, k: TRUE if name == "acquire" else FALSE if name == "locked" else NONE)
        return None


class ChainV(FObj):
    tname = "chain"
    is_callable = True

    def getattr(self, I, name):
        return Bi("itertools.chain.from_iterable") if name == "from_iterable" else None

    def call(self, I, args, kw):
        return b_chain(I, args, kw)


def bi_attr(I, o, name):
    return None


def from_bytes(I, a, k):
    a = list(a) + [None] * (2 - len(a))
    for i, nm in enumerate(("bytes", "byteorder")):
        if nm in k:
            a[i] = k[nm]
    v = a[0]
    return klist(fn("from_bytes", I.reify(v) if isinstance(v, T) else I.reify_segs(settled(I, v)), I.scalar(a[1]), I.scalar(k.get("signed", FALSE))), "int")


def struct_unpack(I, a, k):
    import struct
    f = I.scalar(a[0])
    if not isconst(f) or k:
        raise Unsup("struct format")
    try:
        f0 = cval(f)
        n = len(struct.unpack(f0, bytes(struct.calcsize(f0))))
    except Exception:
        raise Unsup("struct format")
    v = a[1]
    v = I.reify(v) if isinstance(v, T) else I.reify_segs(settled(I, v))
    if len(a) > 2:
        t = fn("struct.unpack_from", f, v, I.scalar(a[2]))
    else:
        t = fn("struct.unpack", f, v)
    floats = any(c in (f0 if isinstance(f0, str) else f0.decode()) for c in "efds?pc")
    return Tup([at(t, const(i)) if floats else klist(at(t, const(i)), "int") for i in range(n)])


def cls_attr(I, c, name):
    if name == "__name__":
        return const(c.name.split(":")[-1].split(".")[-1])
    if name == "__module__":
        if c.name.startswith("foreign:") or "." in c.name:
            nm = c.name.split(":")[-1]
            return const(nm.rsplit(".", 1)[0] if "." in nm else "foreign")
        return const({"defaultdict": "collections", "partial": "functools"}.get(c.name, "builtins"))
    if name == "fromkeys" and c.name == "dict":
        return Bi("dict.fromkeys", lambda I, a, k: b_fromkeys(I, a))
    if name == "from_iterable":
        return Bi("itertools.chain.from_iterable")
    if c.name == "str" and name == "maketrans":
        return Bi("str.maketrans", lambda I, a, k: fn("str.maketrans", *[I.reify(x) for x in a]))
    if c.name == "object" and name == "__new__":
        return Bi("object.__new__")
    if c.name == "int" and name == "from_bytes":
        return Bi("int.from_bytes", from_bytes)
    if name == "__qualname__":
        return const(c.name)
    if has_method(c.name, name):
        return Bi("%s.%s" % (c.name, name))
    if c.name in _EXC and name in ("__init__", "__new__"):
        return Bi("object.__init__")
    unmodelled(c.name, name, True)
    return None


def b_fromkeys(I, a):
    v = a[1] if len(a) > 1 else NONE
    ss = I.collect(settled(I, a[0]), lambda x: (SEl(Tup([x, v])),))
    return I.new("dict", I.pairs_to_dsegs(ss))


# -------------------------------------------------------------- class calls
def call_class(I, c, args, kw):
    n = c.name
    if n in _EXC:
        return ExcV(c, args)
    if args and isinstance(args[0], VIte) and n not in ("property", "staticmethod", "classmethod"):
        v = args[0]
        if has_undef(v):
            v = I.defined(v, "UnboundLocalError", "undefined value")
            return call_class(I, c, [v] + list(args[1:]), kw)
        return I.branch(v.c, lambda: call_class(I, c, [v.a] + list(args[1:]), kw), lambda: call_class(I, c, [v.b] + list(args[1:]), kw))
    if n == "type":
        if len(args) == 1:
            return typeof(I, args[0])
        raise Unsup("type()")
    if n in ("float", "int"):
        if not args:
            return ZERO if n == "int" else const(0.0)
        v = args[0]
        if isinstance(v, FObj):
            v = I.scalar(v)
        if not isinstance(v, T):
            I.err("TypeError", "%s() argument must be a string or a number, not '%s'" % (n, I.tyname(v)))
        k = kind(v)
        if k in ("none", "list", "dict", "tuple"):
            I.err("TypeError", "%s() argument must be a string or a number, not '%s'" % (n, k))
        if k in ("str", None) and I.caught("ValueError"):
            I.may_raise(not_(fn("parses_" + n, v)), "ValueError", "could not convert string to %s" % n)
        if k in ("float", "num") and n == "int":
            if I.caught("ValueError"):
                I.may_raise(fn("isnan", v), "ValueError", "cannot convert float NaN to integer")
        if len(args) > 1:
            t = fn("int", v, I.scalar(args[1]))
            return t
        return fn(n, v)
    if n == "bool":
        return I.truth(args[0]) if args else FALSE
    if n == "str":
        if not args:
            return const("")
        return I.tostr(args[0])
    if n in ("list", "tuple", "set", "frozenset"):
        if not args:
            return Tup(()) if n == "tuple" else I.new(n, ())
        v = args[0]
        if n == "tuple" and isinstance(v, Tup):
            return v
        ss = settled(I, v)
        if n == "tuple" and allel(ss):
            return Tup([I.lift(s.v) for s in ss])
        return I.new(n, ss)
    if n == "range":
        return I.new("range", range_(I, args))
    if n == "dict":
        ss = ()
        if args:
            v = args[0]
            o = I.obj(v) if isinstance(v, (Ref, View, Frz)) else None
            if o is not None and (clsname(o.cls) in ("dict", "defaultdict") or (isinstance(o.cls, ClassObj) and o.cls.builtin_base() == "dict")):
                ss = dict_annot(I, v, o)
            elif isinstance(v, T) and kind(v) == "dict":
                ss = (SOp(v),)
            elif isinstance(v, T) and v.op == "fn" and v.pay == "items":
                ss = (SOp(v.args[0]),)
            elif isinstance(v, AttrDict):
                ss = I.obj(v.snap(I)).segs
            elif isinstance(v, FObj) and getattr(v, "as_dict", None):
                return v.as_dict(I)
            else:
                ss = I.pairs_to_dsegs(settled(I, v))
        for k, x in kw.items():
            ss += (DSet(const(k), x),)
        return I.new("dict", ss)
    if n == "defaultdict":
        r = I.new("defaultdict", dict_annot(I, args[1], I.obj(args[1])) if len(args) > 1 else ())
        I.setobj(r, I.obj(r).but(attrs={"$factory": args[0]}))
        return r
    if n == "Counter":
        r = I.new("defaultdict", ())
        I.setobj(r, I.obj(r).but(attrs={"$factory": BCls("int")}))
        if args:
            def body(x):
                I.setitem(r, x, I.binop("Add", I.getitem(r, x), ONE))
            alive, ctx = I.run_for(settled(I, args[0]), body)
            I.end_for(alive, ctx)
        return r
    if n in ("bytearray", "bytes"):
        if not args:
            return I.new("bytearray", ())
        v = args[0]
        if isinstance(v, T):
            if kind(v) == "str":
                if len(args) < 2:
                    I.err("TypeError", "string argument without an encoding")
                v = fn("str.encode", v, *[I.scalar(x) for x in args[1:]])
            if n == "bytes":
                return v
            return I.new("bytearray", (SOp(v),))
        return I.new("bytearray", settled(I, v))
    if n == "property":
        return PropV(args[0])
    if n == "staticmethod":
        return StaticV(args[0])
    if n == "classmethod":
        return ClassMV(args[0])
    if n == "object":
        return ExcV(c, [])
    if n == "slice":
        a = [x for x in args]
        if len(a) == 1:
            a = [None, a[0], None]
        return ("slice",) + tuple((a + [None, None])[:3])
    raise Unsup("call of class " + n)


def dict_annot(I, v, o):
    out = []
    for s in o.segs:
        if isinstance(s, DSet) and isinstance(s.v, Frz):
            out.append(DSet(s.k, View(v, "key", s.k)))
        else:
            out.append(s)
    return tuple(out)


# ------------------------------------------------------------------ methods
_MUTM = {"append", "extend", "insert", "pop", "sort", "reverse", "remove", "clear", "update", "setdefault", "add", "discard", "popitem"}


def method(I, o, name, args, kw):
    if isinstance(o, VIte):
        if has_undef(o):
            o = I.defined(o, "UnboundLocalError", "undefined value")
            return method(I, o, name, args, kw)
        return I.branch(o.c, lambda: method(I, o.a, name, args, kw), lambda: method(I, o.b, name, args, kw))
    if isinstance(o, T):
        return term_method(I, o, name, args, kw)
    if isinstance(o, Tup):
        if name == "index":
            r = None
            return list_index(I, tuple(SEl(x) for x in o.items), args)
        if name == "count":
            return fn("count", I.reify(o), I.reify(args[0]))
        if name == "__getitem__":
            return I.getitem(o, args[0])
        if name == "__len__":
            return I.length(o)
        if name == "__contains__":
            return I.contains(o, args[0])
    ob = I.obj(o)
    cn = clsname(ob.cls)
    b = cn if isinstance(ob.cls, str) else (ob.cls.builtin_base() or "")
    if name in _MUTM:
        I.mutated(o, "%s.%s()" % (b, name))
    if name == "__getitem__":
        if isinstance(ob.cls, ClassObj):
            return base_getitem(I, o, ob, b, args[0])
        return I.getitem(o, args[0])
    if name == "__len__":
        n = I.seg_len(ob.segs)
        return n if n is not None else fn("len", I.reify_obj(ob))
    if name == "__contains__":
        return I.contains(o, args[0])
    if name == "__iter__":
        return newiter(I, I.annot(o, ob.segs) if b not in ("dict", "defaultdict") else I.dict_iter(ob, "keys"))
    if name == "__setitem__":
        I.setitem(o, args[0], args[1])
        return NONE
    if b in ("dict", "defaultdict"):
        return dict_method(I, o, ob, name, args, kw)
    if b in ("set", "frozenset"):
        return set_method(I, o, ob, name, args)
    if b == "iter":
        if name == "__next__":
            return next_(I, [o])
        return o
    return list_method(I, o, ob, name, args, kw)


def base_getitem(I, o, ob, b, k):
    if b == "list":
        return I.seg_index(ob.segs, k)
    f = I.dict_find(ob, k)
    if f is not None and f is not UNDEF:
        return f
    return at(I.reify_dsegs(ob.segs), I.reify(k))


def list_index(I, ss, args):
    x = args[0]
    l = I.reify_segs(ss)
    xt = I.reify(x)
    t = fn("index", l, xt)
    t.kindc = "int"
    if I.caught("ValueError"):
        I.may_raise(not_(mk("in", (xt, l))), "ValueError", "not in list")
    return t


def list_method(I, o, ob, name, args, kw):
    ss = ob.segs
    if name == "append":
        I.setobj(o, ob.but(segs=ss + (SEl(args[0]),)))
        return NONE
    if name == "extend":
        v = args[0]
        if isinstance(v, (T,)) and kind(v) in ("int", "float", "none", "bool", "num"):
            I.err("TypeError", "'%s' object is not iterable" % kind(v))
        new = settled(I, v)
        ob = I.obj(o)
        I.setobj(o, ob.but(segs=ob.segs + tuple(new)))
        return NONE
    if name == "insert":
        i = I.scalar(args[0])
        if i is ZERO:
            I.setobj(o, ob.but(segs=(SEl(args[1]),) + ss))
            return NONE
        if isconst(i) and allel(ss):
            l = list(ss)
            l.insert(cval(i), SEl(args[1]))
            I.setobj(o, ob.but(segs=l))
            return NONE
        I.setobj(o, ob.but(segs=(SOp(klist(fn("insert", I.reify_segs(ss), i, I.reify(args[1])))),)))
        return NONE
    if name == "pop":
        if not args or (isconst(args[0]) and cval(args[0]) == -1):
            if ss and isinstance(ss[-1], SEl):
                I.setobj(o, ob.but(segs=ss[:-1]))
                return I.lift(ss[-1].v)
            l = I.reify_segs(ss)
            if I.caught("IndexError"):
                I.may_raise(not_(lt(ZERO, fn("len", l))), "IndexError", "pop from empty list")
            if not ss:
                I.err("IndexError", "pop from empty list")
            I.setobj(o, ob.but(segs=(SOp(klist(fn("slice", l, NONE, const(-1), NONE))),)))
            return at(l, const(-1))
        i = I.scalar(args[0])
        if i is ZERO and ss and isinstance(ss[0], SEl):
            I.setobj(o, ob.but(segs=ss[1:]))
            return I.lift(ss[0].v)
        if isconst(i) and allel(ss):
            l = list(ss)
            v = l.pop(cval(i))
            I.setobj(o, ob.but(segs=l))
            return I.lift(v.v)
        l = I.reify_segs(ss)
        I.setobj(o, ob.but(segs=(SOp(klist(fn("delitem", l, i))),)))
        return at(l, i)
    if name == "index":
        return list_index(I, ss, args)
    if name == "count":
        t = fn("count", I.reify_segs(ss), I.reify(args[0]))
        t.kindc = "int"
        return t
    if name == "copy":
        return I.new("list", I.annot(o, ss))
    if name == "clear":
        I.setobj(o, ob.but(segs=()))
        return NONE
    if name == "reverse":
        I.setobj(o, ob.but(segs=reversed_(I, o)))
        return NONE
    if name == "sort":
        I.setobj(o, ob.but(segs=sorted_(I, o, kw.get("key"), kw.get("reverse"))))
        return NONE
    if name == "remove":
        I.setobj(o, ob.but(segs=(SOp(klist(fn("remove", I.reify_segs(ss), I.reify(args[0])))),)))
        return NONE
    if clsname(ob.cls) in ("bytes", "bytearray"):
        return fn("bytes." + name, I.reify_segs(ss), *[I.reify(a) for a in args])
    raise Unsup("list." + name)


def klist(t, k="list"):
    t.kindc = k
    return t


def dict_method(I, o, ob, name, args, kw):
    if name == "get":
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        f = I.dict_find(ob, k)
        if f is not None:
            if f is UNDEF:
                return d
            return View(o, "key", k) if isinstance(f, Frz) else f
        if isinstance(k, VIte):
            return I.branch(k.c, lambda: dict_method(I, o, ob, name, [k.a] + args[1:], kw), lambda: dict_method(I, o, ob, name, [k.b] + args[1:], kw))
        kt = I.reify(k)
        vals = [s.v for s in ob.segs if isinstance(s, DSet)]
        if vals and all(isinstance(s, DSet) for s in ob.segs) and any(not isinstance(x, (T, Tup)) for x in vals):
            r = d
            for s in ob.segs:
                r = I.merge(eq(kt, s.k), s.v, r)
            return I.lift(r)
        dt = I.reify_dsegs(ob.segs)
        if isinstance(d, T):
            return dget(dt, kt, d)
        return I.merge(mk("in", (kt, dt)), at(dt, kt), d)
    if name in ("items", "keys", "values"):
        ss = I.dict_iter(ob, name)
        # families keep their identity
        return I.new("list", ss)
    if name == "update":
        new = ()
        if args:
            v = args[0]
            o2 = I.obj(v) if isinstance(v, (Ref, View, Frz)) else None
            if o2 is not None and clsname(o2.cls) in ("dict", "defaultdict"):
                new = dict_annot(I, v, o2)
            elif isinstance(v, T) and kind(v) in ("dict", None):
                new = (SOp(v),)
            else:
                new = I.pairs_to_dsegs(settled(I, v))
        for k, x in kw.items():
            new += (DSet(const(k), x),)
        ob = I.obj(o)
        I.setobj(o, ob.but(segs=ob.segs + tuple(new)))
        return NONE
    if name == "copy":
        return I.new("dict", dict_annot(I, o, ob))
    if name == "clear":
        I.setobj(o, ob.but(segs=()))
        return NONE
    if name == "setdefault":
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        c = I.contains(o, k)

        def no():
            I.setitem(o, k, d)
            return d
        return I.branch(c, lambda: I.getitem(o, k), no)
    if name == "pop":
        k = args[0]
        c = I.contains(o, k)

        def yes():
            v = I.getitem(o, k)
            if isinstance(v, View):
                v = I.alloc(I.obj(v))
            I.delitem(o, k)
            return v

        def no():
            if len(args) > 1:
                return args[1]
            I.err("KeyError", "key %r" % (k,))
        return I.branch(c, yes, no)
    raise Unsup("dict." + name)


def dget(d, k, dflt):
    t = fn("dget", d, k, dflt)
    if t.op == "fn" and t.kindc == 0 and kind(dflt) in ("int", "float", "num"):
        t.kindc = "num" if d.op != "dct" or not d.args[0].args else None
        if t.kindc is None:
            t.kindc = 0
    return t


def set_method(I, o, ob, name, args):
    if name == "add":
        I.setobj(o, ob.but(segs=ob.segs + (SEl(args[0]),)))
        return NONE
    if name == "update":
        new = ()
        for a in args:
            new += tuple(settled(I, a))
        I.setobj(o, I.obj(o).but(segs=I.obj(o).segs + new))
        return NONE
    if name == "copy":
        return I.new("set", ob.segs)
    if name == "clear":
        I.setobj(o, ob.but(segs=()))
        return NONE
    if name == "union":
        new = ob.segs
        for a in args:
            new += tuple(settled(I, a))
        return I.new("set", new)
    if name in ("discard", "remove"):
        I.setobj(o, ob.but(segs=(SOp(klist(fn("setsub", I.reify_obj(ob), lst(tel(I.reify(args[0])))), "set")),)))
        return NONE
    m = {"difference": "setsub", "intersection": "setand", "issubset": "setle", "issuperset": "setge", "isdisjoint": "setdis",
         "symmetric_difference": "setxor"}.get(name)
    if m:
        a = args[0]
        at_ = I.reify(a) if isinstance(a, T) or (isinstance(a, Ref) and clsname(I.obj(a).cls) in ("set", "list", "dict", "tuple", "frozenset")) else I.reify_segs(settled(I, a))
        t = fn(m, I.reify_obj(ob), at_)
        if name.startswith("is"):
            t.kindc = "bool"
            return t
        return I.new("set", (SOp(klist(t, "set")),))
    raise Unsup("set." + name)


_AMBIG = (_LISTM | _SETM | _DICTM) & _STRM


def term_method(I, o, name, args, kw):
    k = kind(o)
    if name in _MUTM and k not in ("str", "bytes"):
        # mutation of a value that belongs to somebody else
        I.event("mutate", ("opaque", "%s()" % name))
        raise Unsup("mutating method on opaque value")
    if k == "dict" or (k is None and name in ("items", "keys", "values", "get")):
        if name == "get":
            d = args[1] if len(args) > 1 else NONE
            kt = I.reify(args[0])
            if isinstance(d, T):
                return dget(o, kt, d)
            return I.merge(mk("in", (kt, o)), at(o, kt), d)
        if name in ("items", "keys", "values"):
            return I.new("list", I.titer(fn(name, o)))
        if name == "copy":
            return I.new("dict", (SOp(o),))
    if k == "list" or k == "tuple":
        if name == "index":
            return list_index(I, (SOp(o),), args)
        if name == "count":
            return klist(fn("count", o, I.reify(args[0])), "int")
        if name == "copy":
            return I.new("list", I.titer(o))
    if name in ("__getitem__",):
        return I.getitem(o, args[0])
    if name == "__len__":
        return I.length(o)
    if name == "__contains__":
        return I.contains(o, args[0])
    if k in ("set",):
        return set_method(I, I.new("set", (SOp(o),)), HObj("set", (SOp(o),)), name, args)
    if k in (None, "str", "scal") and name in _STRM:
        if name == "join":
            a = args[0]
            ss = settled(I, a)
            for s in ss:
                if isinstance(s, SEl) and isinstance(s.v, T) and kind(s.v) in ("int", "float", "none", "list", "num"):
                    I.err("TypeError", "sequence item: expected str instance, %s found" % kind(s.v))
            if allel(ss) and isconst(o) and all(isinstance(s.v, T) for s in ss):
                if not ss:
                    return const("")
                r = None
                for s in ss:
                    if r is None:
                        r = s.v
                    else:
                        r = add(r, s.v) if cval(o) == "" else add(add(r, o), s.v)
                if kind(r) != "str" and len(ss) == 1:
                    return fn("str.join", o, I.reify_segs(ss))
                return r
            return fn("str.join", o, I.reify_segs(ss))
        if name == "format":
            ts = []
            for a in args:
                try:
                    ts.append(I.reify(a))
                except Unsup:
                    ts.append(const("?"))
            if kw:
                return fn("fmt", o, *ts)
            if isconst(o) and cval(o).count("{}") == len(ts) and cval(o).replace("{}", "").count("{") == 0 and all(kind(t) == "str" for t in ts):
                parts = cval(o).split("{}")
                r = const(parts[0])
                for p, t in zip(parts[1:], ts):
                    r = t if (isconst(r) and cval(r) == "") else add(r, t)
                    if p:
                        r = add(r, const(p))
                return r
            return fn("str.format", o, *ts)
        if name == "encode":
            return coding(I, o, name, args, kw)
        ts = [I.reify(a) for a in args]
        for nme, v in kw.items():
            if name in ("split", "rsplit") and nme in ("sep", "maxsplit"):
                if nme == "maxsplit" and not ts:
                    ts.append(NONE)
                ts.append(I.reify(v))
            elif name == "splitlines":
                ts.append(I.reify(v))
            else:
                raise Unsup("keyword for str." + name)
        for x, m in ((ts, name),):
            if m in ("startswith", "endswith", "find", "count", "replace") and x and kind(x[0]) in ("int", "float", "none", "num"):
                I.err("TypeError", "str.%s argument must be str" % m)
        if isconst(o) and all(isconst(x) for x in ts) and name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
            try:
                r = getattr(cval(o), name)(*[cval(x) for x in ts])
            except Exception as e:
                I.err(type(e).__name__, "str.%s" % name)
            items = [const(x) for x in r]
            return Tup(items) if isinstance(r, tuple) else I.new("list", tuple(SEl(x) for x in items))
        return fn("str." + name, o, *ts)
    if k == "bytes" or (k is None and name in _BYTESM):
        if name == "decode":
            return coding(I, o, name, args, kw)
        if kw:
            raise Unsup("keyword for bytes." + name)
        return fn("bytes." + name, o, *[I.reify(a) for a in args])
    if k in ("int", "index", "bool") and name == "bit_length" and not args:
        return klist(fn("bit_length", o), "int")
    if k in ("int", "index") and name == "to_bytes":
        a = list(args) + [None] * (2 - len(args))
        for i, nm in enumerate(("length", "byteorder")):
            if nm in kw:
                a[i] = kw[nm]
        return klist(fn("to_bytes", o, I.scalar(a[0]), I.scalar(a[1]), I.scalar(kw.get("signed", FALSE))), "bytes")
    if k in ("float", "num") and name == "is_integer":
        return klist(fn("is_integer", o), "bool")
    if k is None and name in ("group", "groups", "span", "start", "end"):
        I.may_raise(eq(o, NONE), "AttributeError", "'NoneType' object has no attribute %r" % name)
        t = fn("re.m." + name, o, *[I.reify(a) for a in args])
        if name == "group":
            t.kindc = "str" if len(args) <= 1 and (not args or args[0] is ZERO) else None
        return t
    raise Unsup("method %s of %s value" % (name, k))


def coding(I, o, name, args, kw):
    """str.encode / bytes.decode"""
    ts = [I.reify(a) for a in args]
    if set(kw) - {"encoding", "errors"} or len(ts) > 2:
        I.err("TypeError", "str.%s arguments" % name)
    enc = ts[0] if ts else kw.get("encoding", const("utf-8"))
    err = ts[1] if len(ts) > 1 else kw.get("errors", const("strict"))
    enc, err = I.scalar(enc), I.scalar(err)
    e = "UnicodeEncodeError" if name == "encode" else "UnicodeDecodeError"
    if I.caught(e):
        I.may_raise(fn("cannot" + name, o, enc, err), e, "codec")
    if name == "encode":
        return fn("str.encode", o, enc, err)
    return fn("bytes.decode", o, enc, err)


def _cannot(name):
    def f(o, *a):
        try:
            getattr(o, name)(*a)
        except UnicodeError:
            return True
        return False
    return f


# -------------------------------------------------- evaluation of pure names
def _slice(l, lo, hi, st):
    return l[lo:hi:st]


def _setitem(l, i, v):
    l = dict(l) if isinstance(l, dict) else list(l)
    l[i] = v
    return l


def _delitem(l, i):
    l = dict(l) if isinstance(l, dict) else list(l)
    del l[i]
    return l


def _insert(l, i, v):
    l = list(l)
    l.insert(i, v)
    return l


def _remove(l, v):
    l = list(l)
    l.remove(v)
    return l


def _maxby(ks, l):
    if not l:
        raise ValueError("max() arg is an empty sequence")
    b = 0
    for i in range(1, len(l)):
        if ks[i] > ks[b]:
            b = i
    return l[b]


def _minby(ks, l):
    if not l:
        raise ValueError("min() arg is an empty sequence")
    b = 0
    for i in range(1, len(l)):
        if ks[i] < ks[b]:
            b = i
    return l[b]


def _iterlist(x):
    return sorted(x, key=repr) if isinstance(x, (set, frozenset)) else list(x)


def _sortedby(ks, l, rev):
    o = sorted(range(len(l)), key=lambda i: ks[i], reverse=rev)
    return [l[i] for i in o]


def _set(x):
    return frozenset(x)


def _type(v):
    return ("type", "NoneType" if v is None else {"frozenset": "set"}.get(type(v).__name__, type(v).__name__))


def _isinst(v, t):
    n = t[1]
    if "." in n:
        return isinstance(v, tuple) and len(v) > 0 and v[0] == n
    return cls_matches("NoneType" if v is None else {"frozenset": "set"}.get(type(v).__name__, type(v).__name__), n)


def _re(pat):
    if isinstance(pat, tuple):
        return re.compile(pat[0], pat[1])
    return re.compile(pat)


def _parses(f):
    def g(s):
        try:
            f(s)
            return True
        except (ValueError, TypeError):
            return False
    return g


def _ovf(x):
    try:
        math.exp(x)
        return False
    except OverflowError:
        return True


def _dget(d, k, v):
    return d.get(k, v)


def _index(l, x):
    return list(l).index(x)



def _sum(l):
    r = 0
    for x in l:
        r = r + x
    return r


def _call(*a):
    raise t_.Stop("opaque call")


class _Fmt(str):
    pass


def _fmt(*a):
    return "fmt:" + "|".join([repr(x) for x in a])


P = t_.PURE
P.update({
    "exp": math.exp, "log": math.log, "sqrt": math.sqrt, "float": float, "int": int, "bool": bool, "len": len,
    "isnan": math.isnan, "isinf": math.isinf, "isfinite": math.isfinite, "str": str, "repr": repr,
    "keys": lambda d: list(d.keys()), "values": lambda d: list(d.values()), "items": lambda d: list(d.items()),
    "any": any, "all": all, "sum": _sum, "max": lambda l: max(l), "min": lambda l: min(l), "maxby": _maxby, "minby": _minby,
    "sorted": lambda l, r: sorted(l, reverse=r), "sortedby": _sortedby, "set": _set, "setlist": lambda s: sorted(s, key=repr), "iterlist": _iterlist,
    "slice": _slice, "setitem": _setitem, "delitem": _delitem, "insert": _insert, "remove": _remove,
    "dget": _dget, "index": _index, "count": lambda l, x: list(l).count(x), "chr": chr, "ord": ord, "round": round,
    "isinstance": _isinst, "type": _type, "totuple": tuple, "call": _call,
    "fmt": _fmt, "pct": lambda f, *a: f % a, "rangelen": lambda a, b, c: len(range(a, b, c)),
    "setsub": lambda a, b: frozenset(a) - frozenset(b), "setor": lambda a, b: frozenset(a) | frozenset(b),
    "setand": lambda a, b: frozenset(a) & frozenset(b), "setxor": lambda a, b: frozenset(a) ^ frozenset(b),
    "setle": lambda a, b: frozenset(a) <= frozenset(b), "setge": lambda a, b: frozenset(a) >= frozenset(b),
    "setdis": lambda a, b: not (frozenset(a) & frozenset(b)),
    "bit_length": lambda x: x.bit_length(), "to_bytes": lambda x, n, o, sg: x.to_bytes(n, o, signed=sg),
    "from_bytes": lambda v, o, sg: int.from_bytes(v, o, signed=sg),
    "struct.unpack": lambda f, v: list(__import__("struct").unpack(f, bytes(v))),
    "struct.unpack_from": lambda f, v, o: list(__import__("struct").unpack_from(f, bytes(v), o)),
    "is": lambda a, b: a is b or (type(a) is type(b) and a == b), "is_integer": lambda x: float(x).is_integer(),
    "parses_int": _parses(int), "parses_float": _parses(float), "raises_overflow": _ovf,
    "re.flag": lambda p, f: (p, f), "re.compile": lambda p: ("re", p),
    "cannotencode": _cannot("encode"), "cannotdecode": _cannot("decode"),
    "re.findall": lambda p, s: _re(p).findall(s), "re.split": lambda p, s, *m: _re(p).split(s, *m),
    "re.match": lambda p, s: _re(p).match(s), "re.search": lambda p, s: _re(p).search(s),
    "re.fullmatch": lambda p, s: _re(p).fullmatch(s), "re.finditer": lambda p, s: list(_re(p).finditer(s)),
    "re.sub": lambda p, r, s, *m: _re(p).sub(r, s, *m), "re.escape": re.escape,
    "re.m.group": lambda m, *a: m.group(*a), "re.m.groups": lambda m, *a: m.groups(*a), "re.m.span": lambda m, *a: m.span(*a),
    "re.m.start": lambda m, *a: m.start(*a), "re.m.end": lambda m, *a: m.end(*a),
    "exc": lambda n: ("exc", n), "hash": hash, "id": lambda x: ("id", repr(x)), "callable": lambda x: False,
    "str.maketrans": lambda *a: str.maketrans(*a), "math.pow": math.pow,
})
for _m in dir(str):
    if not _m.startswith("_") and _m != "maketrans":
        P["str." + _m] = (lambda m: lambda s, *a: _strcall(s, m, a))(_m)
for _m in dir(bytes):
    if not _m.startswith("_"):
        P["bytes." + _m] = (lambda m: lambda s, *a: getattr(s if isinstance(s, (bytes, bytearray)) else bytes(s), m)(*a))(_m)
for _m in dir(math):
    if callable(getattr(math, _m)) and not _m.startswith("_"):
        P.setdefault("math." + _m, getattr(math, _m))
for _m in ("normalize", "combining", "category", "name", "decomposition"):
    P["unicodedata." + _m] = getattr(unicodedata, _m)
t_.FNKIND.update({"unicodedata.normalize": "str", "unicodedata.category": "str", "unicodedata.combining": "int",
                  "re.findall": "list", "re.split": "list", "re.sub": "str", "setlist": "list", "iterlist": "list", "sortedby": "list", "cannotencode": "bool", "cannotdecode": "bool",
                  "setitem": None, "delitem": None, "insert": "list", "remove": "list", "setsub": "set", "setor": "set",
                  "setand": "set", "setxor": "set", "totuple": "tuple", "pct": "str", "index": "int", "count": "int",
                  "parses_int": "bool", "parses_float": "bool", "raises_overflow": "bool", "is": "bool", "rangelen": "int",
                  "re.escape": "str", "math.pow": "float", "callable": "bool", "setle": "bool", "setge": "bool", "setdis": "bool"})


def _strcall(s, m, a):
    if not isinstance(s, str):
        if isinstance(s, (bytes, bytearray)) and hasattr(s, m):
            return getattr(s, m)(*a)
        if m in ("index", "count") and isinstance(s, (list, tuple)):
            return getattr(s, m)(*a)
        raise AttributeError("%r object has no attribute %r" % (type(s).__name__, m))
    return getattr(s, m)(*a)
