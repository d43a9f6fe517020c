"""Hash-consed terms of the value graph.

A term is an operator applied to terms.  Binders are locally nameless: a closed binder node binds
the variables B(h) .. B(h+nb-1), where h is one more than the largest binder index inside its body,
so alpha-equivalent closed terms are the same object.  Free variables created during
interpretation are `bv` nodes with a unique number.
"""
import itertools
import math

_tab = {}
_cnt = itertools.count(1)
_fresh = itertools.count(1)
EMPTY = frozenset()


class T(object):
    __slots__ = ("op", "args", "pay", "id", "h", "fv", "fb", "top", "nf", "kindc")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _raw(op, args=(), pay=None):
    key = (op, tuple([a.id for a in args]), pay)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.pay = pay
    t.id = next(_cnt)
    h = 0
    fv = EMPTY
    fb = EMPTY
    top = op == "top"
    for a in args:
        if a.h > h:
            h = a.h
        if a.fv:
            fv = fv | a.fv if fv else a.fv
        if a.fb:
            fb = fb | a.fb if fb else a.fb
        top = top or a.top
    if op in BINDERS:
        bh, nb = pay[0], pay[1]
        h = max(h, bh + nb - 1)
        fb = fb - frozenset(range(bh, bh + nb))
    elif op == "bv":
        fv = frozenset((pay,))
    elif op == "B":
        fb = frozenset((abs(pay),))
    t.h = h
    t.fv = fv
    t.fb = fb
    t.top = top
    t.nf = None
    t.kindc = 0
    _tab[key] = t
    return t


# binder nodes: pay = (h, nb, extra)
#   sfor  args (n, segs)          list/dict segment, iterations 0..n-1, 1 var
#   loop  args (n, inits..., nexts..., cond) pay extra=(k, out): vars: index, k phis
#   while args (inits..., cond, nexts...) pay extra=(k, out): vars: k phis
BINDERS = {"sfor", "loop", "while"}


def const(v):
    if isinstance(v, bool):
        key = ("b", v)
    elif isinstance(v, float):
        key = ("f", repr(v))
    elif isinstance(v, int):
        key = ("i", v)
    elif isinstance(v, str):
        key = ("s", v)
    elif isinstance(v, bytes):
        key = ("y", v)
    elif v is None:
        key = ("n", None)
    else:
        key = ("o", v)
    t = _raw("const", (), key)
    return t


_CONSTV = {}


def cval(t):
    """Python value of a constant term."""
    k, v = t.pay
    if k == "f":
        return float(v)
    return v


def isconst(t):
    return isinstance(t, T) and t.op == "const"


TRUE = None
FALSE = None
NONE = None


def _init():
    global TRUE, FALSE, NONE, ZERO, ONE
    TRUE = const(True)
    FALSE = const(False)
    NONE = const(None)
    ZERO = const(0)
    ONE = const(1)


_init()


def sym(name, *idx):
    return _raw("sym", tuple(idx), name)


def newbv():
    return _raw("bv", (), next(_fresh))


BVN = {}


def newidx(n=None):
    """fresh index variable ranging over 0..n-1"""
    v = newbv()
    v.kindc = "int"
    BVN[v] = n
    return v


def Bidx(h):
    return _raw("B", (), -h)


def Bphi(h):
    return _raw("B", (), h)


def top(why=""):
    return _raw("top", (), (next(_fresh), why))


SYMKIND = {}
# size symbols: name -> minimum
SIZEMIN = {}


def size(name, minimum=1):
    SIZEMIN[name] = minimum
    SYMKIND[name] = "int"
    return sym(name)


# ---------------------------------------------------------------- kinds
_NUMOPS = {"sub", "mul", "div", "floordiv", "pow", "neg", "abs"}
_BOOLOPS = {"lt", "le", "eq", "ne", "not", "and", "or", "in", "is"}
FNKIND = {
    "exp": "float", "log": "float", "sqrt": "float", "float": "float", "int": "int",
    "bool": "bool", "len": "int", "isnan": "bool", "str": "str", "keys": "list",
    "values": "list", "items": "list", "any": "bool", "all": "bool", "isinstance": "bool",
    "sorted": "list", "set": "set", "split": "list", "join": "str", "index": "int",
    "chr": "str", "ord": "int", "slice": None, "fmt": "str", "hasattr": "bool",
    "isinf": "bool", "isfinite": "bool", "repr": "str",
}


def kind(t):
    if t.kindc != 0:
        return t.kindc
    k = _kind(t)
    t.kindc = k
    return k


def _kind(t):
    op = t.op
    if op == "const":
        return {"b": "bool", "f": "float", "i": "int", "s": "str", "y": "bytes", "n": "none"}.get(t.pay[0], "obj")
    if op == "sym":
        return SYMKIND.get(t.pay)
    if op in _BOOLOPS:
        return "bool"
    if op == "div":
        return "float"
    if op in ("lst", "lcat"):
        return "list"
    if op == "tup":
        return "tuple"
    if op == "dct":
        return "dict"
    if op in ("bor", "band", "bxor", "shl", "shr", "inv"):
        return "int"
    if op in ("add", "mod", "mul"):
        a, b = kind(t.args[0]), kind(t.args[1])
        if a == "str":
            return "str"
        if a == "list" or b == "list":
            return "list"
        if a == b and a in ("int", "float"):
            return a
        if "float" in (a, b) and (a in ("int", "float", "bool", "num") and b in ("int", "float", "bool", "num")):
            return "float"
        if a in ("int", "bool") and b in ("int", "bool"):
            return "int"
        if op == "add" and (a is None or b is None):
            return None
        return "num"
    if op in _NUMOPS:
        ks = [kind(a) for a in t.args]
        if all(k in ("int", "bool") for k in ks) and op != "pow":
            return "int"
        if "float" in ks and op != "pow":
            return "float"
        return "num"
    if op == "ite":
        a, b = kind(t.args[1]), kind(t.args[2])
        if a == b:
            return a
        if a in ("int", "float", "num", "bool") and b in ("int", "float", "num", "bool"):
            return "num"
        sc = ("int", "float", "num", "bool", "str", "scal")
        if a in sc and b in sc:
            return "scal"
        return None
    if op == "fn":
        k = FNKIND.get(t.pay, None)
        if k is None and t.pay.startswith("str."):
            m = t.pay[4:]
            if m in ("split", "splitlines", "rsplit"):
                return "list"
            if m in ("encode",):
                return "bytes"
            if m in ("find", "count", "rfind", "index"):
                return "int"
            if m in ("startswith", "endswith", "isdigit", "isspace", "isalpha", "isalnum"):
                return "bool"
            return "str"
        if t.pay == "sum":
            return "num"
        if t.pay == "round":
            return "int" if len(t.args) == 1 else kind(t.args[0])
        if t.pay in ("max", "min"):
            return None
        return k
    if op == "B":
        return "int" if t.pay < 0 else None
    if op == "at":
        b = t.args[0]
        if b.op == "sym":
            k = DICTKIND.get(b.pay)
            if k is not None:
                return k[1]
        elif b.op == "fn":
            if b.pay in ("keys", "values") and b.args[0].op == "sym":
                k = DICTKIND.get(b.args[0].pay)
                if k is not None:
                    return k[0 if b.pay == "keys" else 1]
            if b.pay in ("str.split", "str.splitlines", "str.rsplit", "split"):
                return "str"
        if kind(b) == "str":
            return "str"
        if kind(b) == "bytes":
            return "int"
        if b.op in ("lst", "dct", "loop", "while", "ite", "bv") or b.op == "fn" and b.pay in ("setitem", "sorted", "sortedby", "reversed"):
            k = elemkind(b, frozenset(), 0)
            return None if k == "?" else k
    return None


# loop-carried lists: element kind, an invariant checked when the loop is solved
PHIEK = {}


def _jk(a, b):
    return b if a == "?" else a if b == "?" or a == b else None


def elemkind(t, assume, depth):
    """kind of the elements of a sequence ('?': it has none besides those already looked at)"""
    if depth > 12:
        return None
    if t in assume:
        return "?"
    if t.op == "bv":
        return PHIEK.get(t.pay)
    if t.op in ("lst", "dct"):
        return segkind(t.args[0], assume, depth)
    if t.op == "ite":
        return _jk(elemkind(t.args[1], assume, depth + 1), elemkind(t.args[2], assume, depth + 1))
    if t.op == "loop":
        h, nb, (k, out) = t.pay
        return _jk(elemkind(t.args[1 + out], assume, depth + 1), elemkind(t.args[1 + k + out], assume | {Bphi(h + 1 + out)}, depth + 1))
    if t.op == "while":
        h, nb, (k, out) = t.pay
        return _jk(elemkind(t.args[out], assume, depth + 1), elemkind(t.args[k + 1 + out], assume | {Bphi(h + out)}, depth + 1))
    if t.op == "fn" and t.pay == "setitem" and len(t.args) == 3:
        return _jk(elemkind(t.args[0], assume, depth + 1), kind(t.args[2]))
    if t.op == "fn" and t.pay in ("sorted", "reversed") and t.args:
        return elemkind(t.args[0], assume, depth + 1)
    if t.op == "fn" and t.pay == "sortedby":
        return elemkind(t.args[1], assume, depth + 1)
    if t.op == "sym":
        k = DICTKIND.get(t.pay)
        return k[1] if k is not None else None
    return None


def segkind(s, assume, depth):
    if s.op == "segs":
        r = "?"
        for x in s.args:
            r = _jk(r, segkind(x, assume, depth + 1))
            if r is None:
                return None
        return r
    if s.op == "el":
        return kind(s.args[0])
    if s.op == "dset":
        return kind(s.args[1])
    if s.op == "sfor":
        return segkind(s.args[1], assume, depth + 1)
    if s.op == "sif":
        return _jk(segkind(s.args[1], assume, depth + 1), segkind(s.args[2], assume, depth + 1))
    if s.op == "sop":
        return elemkind(s.args[0], assume, depth + 1)
    return None


# dictionary symbols: name -> (kind of keys, kind of values)
DICTKIND = {}


# --------------------------------------------------------------- building
def mk(op, args, pay=None):
    f = _MK.get(op)
    if f:
        return f(op, args, pay)
    return _raw(op, tuple(args), pay)


def _num(v):
    return isinstance(v, (int, float))


_FOLD = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "div": lambda a, b: a / b, "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b,
    "pow": lambda a, b: a ** b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
    "bor": lambda a, b: a | b, "band": lambda a, b: a & b, "bxor": lambda a, b: a ^ b,
    "shl": lambda a, b: a << b, "shr": lambda a, b: a >> b,
}


def _arith(op, args, pay):
    a, b = args
    if a.op == "const" and b.op == "const" and a.pay[0] != "o" and b.pay[0] != "o":
        try:
            v = _FOLD[op](cval(a), cval(b))
            if not (isinstance(v, int) and abs(v) > 1 << 80) and not (isinstance(v, str) and len(v) > 4096):
                return const(v)
        except Exception:
            pass
    if op == "add":
        # integer index arithmetic only (exact)
        if a is ZERO and kind(b) == "int":
            return b
        if b is ZERO and kind(a) == "int":
            return a
        if b.op == "const" and b.pay[0] == "i" and a.op in ("add", "sub") and a.args[1].op == "const" and a.args[1].pay[0] == "i" and kind(a.args[0]) == "int":
            c = cval(a.args[1]) if a.op == "add" else -cval(a.args[1])
            return mk("add", (a.args[0], const(c + cval(b))))
    elif op == "sub":
        if b is ZERO and kind(a) == "int":
            return a
        if a is b and kind(a) == "int":
            return ZERO
        if b.op == "const" and b.pay[0] == "i" and kind(a) == "int":
            return mk("add", (a, const(-cval(b))))
        if kind(a) == "int" and a.op == "add" and a.args[0] is b:
            return a.args[1]
        if kind(a) == "int" and a.op == "add" and a.args[1] is b:
            return a.args[0]
    elif op == "mul":
        if a is ONE and kind(b) == "int":
            return b
        if b is ONE and kind(a) == "int":
            return a
        if (a is ZERO and kind(b) == "int") or (b is ZERO and kind(a) == "int"):
            return ZERO
    return _raw(op, (a, b))


def minval(t):
    """Lower bound of an integer term, or None."""
    if t.op == "const" and t.pay[0] in ("i", "b"):
        return int(cval(t))
    if t.op == "sym":
        return SIZEMIN.get(t.pay)
    if t.op == "bv" and t in BVN:
        return 0
    if t.op == "B" and t.pay < 0:
        return 0
    if t.op == "fn" and t.pay == "len":
        return 0
    if t.op == "fn" and t.pay == "lenfor":
        return 0
    if t.op == "add":
        a, b = minval(t.args[0]), minval(t.args[1])
        if a is not None and b is not None:
            return a + b
    if t.op == "mul":
        a, b = minval(t.args[0]), minval(t.args[1])
        if a is not None and b is not None and a >= 0 and b >= 0:
            return a * b
    return None


def _linint(t):
    """Integer term as {atom: coeff}, constant under None."""
    if t.op == "const" and t.pay[0] in ("i", "b"):
        return {None: int(cval(t))}
    if t.op in ("add", "sub") and kind(t) == "int":
        a, b = _linint(t.args[0]), _linint(t.args[1])
        r = dict(a)
        s = 1 if t.op == "add" else -1
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v or k is None}
    if t.op == "mul" and kind(t) == "int":
        for x, y in ((0, 1), (1, 0)):
            if t.args[x].op == "const" and t.args[x].pay[0] == "i":
                c = cval(t.args[x])
                return {k: v * c for k, v in _linint(t.args[y]).items() if v * c or k is None}
    return {t: 1}


def lindiff(a, b):
    """(min, max) bounds of a-b for integer terms when provable."""
    la, lb = _linint(a), _linint(b)
    d = dict(la)
    for k, v in lb.items():
        d[k] = d.get(k, 0) - v
    return _low(d, 1), _neg_(_low(d, -1))


def _neg_(x):
    return None if x is None else -x


def _low(d, s):
    """lower bound of s * the linear form"""
    d = {k: s * v for k, v in d.items() if v}
    for _ in range(4):
        ch = False
        for k, v in list(d.items()):
            if v < 0 and k is not None and k in BVN and BVN[k] is not None:
                del d[k]
                for k2, v2 in _linint(BVN[k]).items():
                    d[k2] = d.get(k2, 0) + v * v2
                d[None] = d.get(None, 0) - v
                ch = True
        if not ch:
            break
    lo = d.pop(None, 0)
    for k, v in d.items():
        if not v:
            continue
        m = minval(k)
        if v < 0 or m is None:
            return None
        lo += v * m
    return lo


def _isint(t):
    return kind(t) in ("int", "bool")


def _cmp(op, args, pay):
    a, b = args
    if a.op == "const" and b.op == "const" and a.pay[0] != "o" and b.pay[0] != "o":
        try:
            return const(bool(_FOLD[op](cval(a), cval(b))))
        except Exception:
            pass
    if _isint(a) and _isint(b):
        lo, hi = lindiff(a, b)
        if op == "lt":
            if hi is not None and hi < 0:
                return TRUE
            if lo is not None and lo >= 0:
                return FALSE
        else:
            if hi is not None and hi <= 0:
                return TRUE
            if lo is not None and lo > 0:
                return FALSE
    return _raw(op, (a, b))


_CONT = {"list", "dict", "tuple", "bytes", "set", "none"}
_DISJ = {"int", "float", "bool", "num", "index"}


def _eq(op, args, pay):
    a, b = args
    if a.op == "const" and b.op == "const":
        if a.pay[0] != "o" and b.pay[0] != "o":
            return const(cval(a) == cval(b))
        return const(a is b)
    ka, kb = kind(a), kind(b)
    if a is b and ka not in ("float", "num", "scal", None):
        return TRUE
    if "scal" in (ka, kb) and ka and kb and ka != kb:
        if ka in _CONT or kb in _CONT:
            return FALSE
    elif ka and kb and ka != kb:
        na, nb = ka in _DISJ, kb in _DISJ
        if na != nb or (not na and not nb):
            if ka != "obj" and kb != "obj":
                return FALSE
    if _isint(a) and _isint(b):
        lo, hi = lindiff(a, b)
        if lo == 0 and hi == 0:
            return TRUE
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
    if kb == "bool" and b is TRUE and ka == "bool":
        return a
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and y.op == "ite" and (y.args[1].op == "const" or y.args[2].op == "const"):
            p, q = eq(x, y.args[1]), eq(x, y.args[2])
            if p.op == "const" and q.op == "const":
                return ite(y.args[0], p, q)
    if a.id > b.id:
        a, b = b, a
    return _raw("eq", (a, b))


def not_(a):
    return mk("not", (a,))


def _not(op, args, pay):
    a = args[0]
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0] if kind(a.args[0]) == "bool" else _raw("fn", (a.args[0],), "bool")
    return _raw("not", (a,))


def and_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        for y in x.args if x.op == "and" else (x,):
            if y not in out:
                out.append(y)
    for y in out:
        if not_(y) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _raw("and", tuple(out))


def or_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        for y in x.args if x.op == "or" else (x,):
            if y not in out:
                out.append(y)
    for y in out:
        if not_(y) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # (a and c) or (b and c) with b == not a
    if len(out) == 2:
        a = set(out[0].args) if out[0].op == "and" else {out[0]}
        b = set(out[1].args) if out[1].op == "and" else {out[1]}
        da, db = a - b, b - a
        if len(da) == 1 and len(db) == 1 and not_(next(iter(da))) is next(iter(db)):
            common = [x for x in (out[0].args if out[0].op == "and" else (out[0],)) if x in b]
            return and_(*common)
        if not da:
            return out[0]
        if not db:
            return out[1]
    return _raw("or", tuple(out))


def ite(c, a, b):
    return mk("ite", (c, a, b))


def _ite(op, args, pay):
    c, a, b = args
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE and kind(c) == "bool":
        return c
    if a is FALSE and b is TRUE and kind(c) == "bool":
        return not_(c)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _raw("ite", (c, a, b))


def fn(name, *args):
    return mk("fn", tuple(args), name)


def add(a, b):
    return mk("add", (a, b))


def sub(a, b):
    return mk("sub", (a, b))


def mul(a, b):
    return mk("mul", (a, b))


def lt(a, b):
    return mk("lt", (a, b))


def le(a, b):
    return mk("le", (a, b))


def eq(a, b):
    return mk("eq", (a, b))


# segments: "el"(v)  "sfor"(n, segs)  "sif"(c, segs, segs)  "sop"(t)
#           "dset"(k, v)  "dadd"(k, e)
def segs(*ss):
    out = []
    for s in ss:
        if s.op == "segs":
            out.extend(s.args)
        else:
            out.append(s)
    return _raw("segs", tuple(out))


def el(v):
    return _raw("el", (v,))


def sfor(n, bvt, body):
    """segments body (a segs term, free in bv term bvt) repeated for bvt in 0..n-1"""
    if n is ZERO or (n.op == "const" and cval(n) <= 0):
        return segs()
    if n is ONE:
        return subst(body, {bvt: ZERO})
    if not body.args:
        return segs()
    h = body.h + 1
    body2 = subst(body, {bvt: Bidx(h)})
    return _raw("sfor", (n, body2), (h, 1, None))


def open_sfor(t):
    """(n, bvt, body) with a fresh variable"""
    v = newidx(t.args[0])
    return t.args[0], v, subst(t.args[1], {Bidx(t.pay[0]): v})


def sif(c, a, b=None):
    b = b if b is not None else segs()
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return sif(c.args[0], b, a)
    return _raw("sif", (c, a, b))


def sop(t):
    if t.op in ("lst", "dct") :
        return t.args[0]
    return _raw("sop", (t,))


def lst(*ss):
    s = segs(*ss)
    if len(s.args) == 1 and s.args[0].op == "sop" and kind(s.args[0].args[0]) == "list":
        return s.args[0].args[0]
    return _raw("lst", (s,))


def dct(*ss):
    return _raw("dct", (segs(*ss),))


def tup(*vs):
    return _raw("tup", tuple(vs))


def simple_for(t):
    """(n, bvt, elem) when list term t is [elem(b) for b in range(n)], else None"""
    if t.op == "lst":
        ss = t.args[0].args
        if len(ss) == 1 and ss[0].op == "sfor":
            body = ss[0].args[1]
            if len(body.args) == 1 and body.args[0].op == "el":
                n, v, b = open_sfor(ss[0])
                return n, v, b.args[0].args[0]
    return None


def seglen(s):
    """length of segment term as an integer term, or None"""
    if s.op == "el":
        return ONE
    if s.op == "sfor":
        body = s.args[1]
        m = segslen(body)
        if m is not None and not m.fb & frozenset((s.pay[0],)):
            return mul(s.args[0], m)
        return None
    if s.op == "sop":
        return fn("len", s.args[0])
    if s.op == "sif":
        a, b = segslen(s.args[1]), segslen(s.args[2])
        if a is not None and a is b:
            return a
        if a is not None and b is not None:
            return ite(s.args[0], a, b)
    return None


def segslen(t):
    tot = ZERO
    for s in t.args:
        m = seglen(s)
        if m is None:
            return None
        tot = add(tot, m)
    return tot


def tlen(t):
    return fn("len", t)


def at(l, i):
    return mk("at", (l, i))


def inrange(i, n):
    """0 <= i < n is provable"""
    lo = minval(i)
    if lo is None or lo < 0:
        lo, _ = lindiff(i, ZERO)
        if lo is None or lo < 0:
            return False
    return lt(i, n) is TRUE


def _at(op, args, pay):
    l, i = args
    if l.op == "lst":
        ss = l.args[0].args
        if i.op == "const" and i.pay[0] == "i" and cval(i) < 0:
            n = segslen(l.args[0])
            if n is not None:
                return at(l, add(n, i))
        if len(ss) == 1 and ss[0].op == "sfor":
            body = ss[0].args[1]
            if len(body.args) == 1 and body.args[0].op == "el" and inrange(i, ss[0].args[0]):
                return subst(body.args[0].args[0], {Bidx(ss[0].pay[0]): i})
        if i.op == "const" and i.pay[0] == "i":
            k = cval(i)
            for s in ss:
                if s.op == "el":
                    if k == 0:
                        return s.args[0]
                    k -= 1
                else:
                    break
        if len(ss) >= 2 and ss[0].op == "el" and _isint(i):
            lo, hi = lindiff(i, ONE)
            if lo is not None and lo >= 0:
                return at(lst(*ss[1:]), sub(i, ONE))
    elif l.op == "dct" and i.op == "at" and len(l.args[0].args) == 1 and l.args[0].args[0].op == "sfor":
        # {key: value for key in K}[K[j]] where the keys K of a dictionary are all different
        f = l.args[0].args[0]
        body = f.args[1].args
        if len(body) == 1 and body[0].op == "dset":
            k = body[0].args[0]
            if k.op == "at" and k.args[0] is i.args[0] and k.args[0].op == "fn" and k.args[0].pay == "keys" and k.args[1] is Bidx(f.pay[0]):
                return subst(body[0].args[1], {Bidx(f.pay[0]): i.args[1]})
    elif l.op == "tup":
        if i.op == "const" and i.pay[0] == "i" and -len(l.args) <= cval(i) < len(l.args):
            return l.args[cval(i)]
    elif l.op == "ite" and not (l.args[1].op not in ("lst", "tup") and l.args[2].op not in ("lst", "tup")):
        return ite(l.args[0], at(l.args[1], i), at(l.args[2], i))
    elif l.op == "const" and i.op == "const" and l.pay[0] in ("s", "y"):
        try:
            return const(cval(l)[cval(i)])
        except Exception:
            pass
    return _raw("at", (l, i))


def _fn(op, args, pay):
    if pay == "len":
        a = args[0]
        if a.op == "lst":
            n = segslen(a.args[0])
            if n is not None:
                return n
        elif a.op == "tup":
            return const(len(a.args))
        elif a.op == "const" and a.pay[0] in ("s", "y"):
            return const(len(cval(a)))
        elif a.op == "dct" and not a.args[0].args:
            return ZERO
        elif a.op == "ite":
            return ite(a.args[0], fn("len", a.args[1]), fn("len", a.args[2]))
        elif a.op == "sym" and a.pay in SYMLEN:
            return SYMLEN[a.pay](*a.args)
        elif a.op == "fn" and a.pay == "setlist":
            return fn("len", a.args[0])
    elif pay == "float":
        a = args[0]
        if kind(a) == "float":
            return a
        if a.op == "const" and a.pay[0] in ("i", "b", "s", "f"):
            try:
                return const(float(cval(a)))
            except Exception:
                pass
    elif pay == "int":
        a = args[0]
        if kind(a) == "int":
            return a
        if a.op == "const" and a.pay[0] in ("i", "b", "s", "f"):
            try:
                return const(int(cval(a)))
            except Exception:
                pass
    elif pay == "bool":
        a = args[0]
        if kind(a) == "bool":
            return a
        if a.op == "const" and a.pay[0] != "o":
            return const(bool(cval(a)))
        if kind(a) in ("list", "dict", "str", "bytes", "tuple"):
            return lt(ZERO, fn("len", a))
        if kind(a) == "int":
            return not_(eq(a, ZERO))
        if kind(a) == "none":
            return FALSE
    elif pay == "sorted" and args[0].op == "fn" and args[0].pay == "setlist":
        return fn("sorted", args[0].args[0], *args[1:])
    elif pay == "isnan" and kind(args[0]) in ("int", "bool"):
        return FALSE
    if len(args) and all(a.op == "const" and a.pay[0] != "o" for a in args):
        f = PURE.get(pay)
        if f is not None and pay not in NOFOLD:
            try:
                v = f(*[cval(a) for a in args])
                if isinstance(v, (bool, int, float, str, bytes)) or v is None:
                    return const(v)
            except Exception:
                pass
    return _raw("fn", tuple(args), pay)


# symbols of list/dict kind whose length is a known term: name -> fn(idx)->term
SYMLEN = {}


def _neg(op, args, pay):
    a = args[0]
    if a.op == "const" and a.pay[0] in ("i", "f", "b"):
        return const(-cval(a))
    return _raw("neg", args)


def _abs(op, args, pay):
    a = args[0]
    if a.op == "const" and a.pay[0] in ("i", "f", "b"):
        return const(abs(cval(a)))
    return _raw("abs", args)


def _in(op, args, pay):
    a, l = args
    if l.op == "tup" or (l.op == "lst" and all(s.op == "el" for s in l.args[0].args)):
        items = l.args if l.op == "tup" else [s.args[0] for s in l.args[0].args]
        return or_(*[eq(a, x) for x in items])
    if a.op == "const" and l.op == "const" and l.pay[0] == "s" and a.pay[0] == "s":
        return const(cval(a) in cval(l))
    if l.op == "dct" and not l.args[0].args:
        return FALSE
    return _raw("in", (a, l))


_MK = {}
for _o in ("add", "sub", "mul", "div", "floordiv", "mod", "pow", "bor", "band", "bxor", "shl", "shr"):
    _MK[_o] = _arith
_MK["lt"] = _MK["le"] = _cmp
_MK["eq"] = _eq
_MK["ne"] = lambda op, args, pay: not_(mk("eq", args))
_MK["not"] = _not
_MK["and"] = lambda op, args, pay: and_(*args)
_MK["or"] = lambda op, args, pay: or_(*args)
_MK["ite"] = _ite
_MK["fn"] = _fn
_MK["at"] = _at
_MK["neg"] = _neg
_MK["abs"] = _abs
_MK["in"] = _in
_MK["segs"] = lambda op, args, pay: segs(*args)
_MK["sif"] = lambda op, args, pay: sif(*args)
_MK["sop"] = lambda op, args, pay: sop(*args)
_MK["lst"] = lambda op, args, pay: lst(*args)
_MK["dct"] = lambda op, args, pay: dct(*args)


# ----------------------------------------------------------- substitution
def subst(t, m):
    """Replace variable terms (bv or B) by terms."""
    fvs = frozenset(k.pay for k in m if k.op == "bv")
    fbs = frozenset(abs(k.pay) for k in m if k.op == "B")
    return _subst(t, m, fvs, fbs, {})


def replace(t, old, new):
    """Replace a term with free variables by another one."""
    if not old.fv or not isinstance(old, T):
        return t
    return _subst(t, {old: new}, frozenset(old.fv), frozenset(), {})


def _subst(t, m, fvs, fbs, memo):
    if not (t.fv & fvs) and not (t.fb & fbs):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ("bv", "B"):
        r = t
    elif t.op in BINDERS:
        h, nb, extra = t.pay
        vs = [newbv() for _ in range(nb)]
        if t.op != "while":
            vs[0] = newidx()
        m2 = dict(m)
        for k in range(nb):
            m2[Bidx(h + k) if k == 0 and t.op != "while" else Bphi(h + k)] = vs[k]
        fb2 = fbs | frozenset(range(h, h + nb))
        memo2 = {}
        if t.op == "sfor":
            n = _subst(t.args[0], m, fvs, fbs, memo)
            BVN[vs[0]] = n
            body = _subst(t.args[1], m2, fvs, fb2, memo2)
            r = sfor(n, vs[0], body)
        elif t.op == "loop":
            k, out = extra
            n = _subst(t.args[0], m, fvs, fbs, memo)
            BVN[vs[0]] = n
            inits = [_subst(a, m, fvs, fbs, memo) for a in t.args[1:1 + k]]
            nexts = [_subst(a, m2, fvs, fb2, memo2) for a in t.args[1 + k:1 + 2 * k]]
            r = loop(n, vs[0], vs[1:], inits, nexts, out)
        else:
            k, out = extra
            inits = [_subst(a, m, fvs, fbs, memo) for a in t.args[:k]]
            cond = _subst(t.args[k], m2, fvs, fb2, memo2)
            nexts = [_subst(a, m2, fvs, fb2, memo2) for a in t.args[k + 1:]]
            r = while_(vs, inits, cond, nexts, out)
    else:
        r = mk(t.op, tuple([_subst(a, m, fvs, fbs, memo) for a in t.args]), t.pay)
        if t.op == "fn" and r.op == "fn" and r.kindc == 0 and t.kindc:
            r.kindc = t.kindc
    memo[t] = r
    return r


def _prune(vs, inits, nexts, out, extra_roots=()):
    """keep only the state variables the output depends on"""
    need = {out}
    work = [out]
    ids = {v.pay: i for i, v in enumerate(vs)}
    roots = set()
    for r in extra_roots:
        for f in r.fv:
            if f in ids and ids[f] not in need:
                need.add(ids[f])
                work.append(ids[f])
    while work:
        i = work.pop()
        for f in nexts[i].fv:
            if f in ids and ids[f] not in need:
                need.add(ids[f])
                work.append(ids[f])
    keep = [out] + sorted(need - {out})
    return keep


def loop(n, iv, vs, inits, nexts, out):
    keep = _prune(vs, inits, nexts, out)
    vs = [vs[i] for i in keep]
    inits = [inits[i] for i in keep]
    nexts = [nexts[i] for i in keep]
    k = len(vs)
    if nexts[0] is vs[0]:
        return inits[0]
    h = max([x.h for x in nexts]) + 1
    m = {iv: Bidx(h)}
    for j, v in enumerate(vs):
        m[v] = Bphi(h + 1 + j)
    nexts = [subst(x, m) for x in nexts]
    return _raw("loop", tuple([n] + inits + nexts), (h, k + 1, (k, 0)))


def while_(vs, inits, cond, nexts, out):
    keep = _prune(vs, inits, nexts, out, (cond,))
    vs = [vs[i] for i in keep]
    inits = [inits[i] for i in keep]
    nexts = [nexts[i] for i in keep]
    k = len(vs)
    h = max([x.h for x in nexts] + [cond.h]) + 1
    m = {}
    for j, v in enumerate(vs):
        m[v] = Bphi(h + j)
    cond = subst(cond, m)
    nexts = [subst(x, m) for x in nexts]
    return _raw("while", tuple(inits + [cond] + nexts), (h, k, (k, 0)))


# ------------------------------------------------------------- printing
_INF = {"add": "+", "sub": "-", "mul": "*", "div": "/", "floordiv": "//", "mod": "%", "pow": "**",
        "lt": "<", "le": "<=", "eq": "==", "bor": "|", "band": "&", "bxor": "^", "shl": "<<", "shr": ">>",
        "in": "in"}


def show(t, d=0):
    if d > 14:
        return "..."
    a = t.args
    s = lambda x: show(x, d + 1)
    if t.op == "const":
        return repr(cval(t))
    if t.op == "sym":
        return t.pay + ("[" + ",".join(map(s, a)) + "]" if a else "")
    if t.op == "bv":
        return "v%d" % t.pay
    if t.op == "B":
        return "b%d" % abs(t.pay)
    if t.op in _INF:
        return "(%s %s %s)" % (s(a[0]), _INF[t.op], s(a[1]))
    if t.op == "fn":
        return "%s(%s)" % (t.pay, ", ".join(map(s, a)))
    if t.op == "at":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if t.op == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if t.op == "not":
        return "not " + s(a[0])
    if t.op in ("and", "or"):
        return "(" + (" %s " % t.op).join(map(s, a)) + ")"
    if t.op == "lst":
        return "[" + s(a[0]) + "]"
    if t.op == "dct":
        return "{" + s(a[0]) + "}"
    if t.op == "segs":
        return ", ".join(map(s, a))
    if t.op == "el":
        return s(a[0])
    if t.op == "dset":
        return "%s: %s" % (s(a[0]), s(a[1]))
    if t.op == "dadd":
        return "%s: +%s" % (s(a[0]), s(a[1]))
    if t.op == "sfor":
        return "for b%d<%s: (%s)" % (t.pay[0], s(a[0]), s(a[1]))
    if t.op == "sif":
        return "if %s: (%s)%s" % (s(a[0]), s(a[1]), " else (%s)" % s(a[2]) if a[2].args else "")
    if t.op == "sop":
        return "*" + s(a[0])
    return "%s%s(%s)" % (t.op, "" if t.pay is None else repr(t.pay), ", ".join(map(s, a)))


# ------------------------------------------------------------ evaluation
class Stop(Exception):
    """evaluation not possible (unknown value, iteration cap)"""


class Diverge(Exception):
    """a loop does not end"""


PURE = {}
NOFOLD = {"exp", "log", "sqrt", "index"}


def ev(t, val, env=None):
    """Evaluate term t under valuation object val (val.sym(name, idx))."""
    return _Ev(val).go(t, env or {})


class _Ev(object):
    def __init__(self, val, budget=400000):
        self.val = val
        self.memo = {}
        self.budget = budget

    def go(self, t, env):
        op = t.op
        if op == "const":
            return cval(t)
        if op == "B":
            return env[abs(t.pay)]
        if t.fb:
            try:
                key = (t.id, tuple([env[b] for b in sorted(t.fb)]))
                hash(key)
            except (TypeError, KeyError):
                key = None
            else:
                # 1, 1.0 and True are equal keys but different values
                key = (t.id, tuple([(type(env[b]), env[b]) for b in sorted(t.fb)]))
        else:
            key = t.id
        if key is not None:
            r = self.memo.get(key, _MISS)
            if r is not _MISS:
                if isinstance(r, _Exc):
                    raise r.e
                return r
        self.budget -= 1
        if self.budget < 0:
            raise Stop("budget")
        try:
            r = getattr(self, "e_" + op, self.e_bin)(t, env)
        except Stop:
            raise
        except Exception as e:
            if key is not None:
                self.memo[key] = _Exc(e)
            raise
        if key is not None:
            self.memo[key] = r
        return r

    def e_sym(self, t, env):
        return self.val.sym(t.pay, tuple([self.go(a, env) for a in t.args]))

    def e_bv(self, t, env):
        raise Stop("free variable")

    def e_top(self, t, env):
        raise Stop("top")

    def e_ite(self, t, env):
        return self.go(t.args[1], env) if self.go(t.args[0], env) else self.go(t.args[2], env)

    def e_and(self, t, env):
        # conjunctions are kept as sets: a false conjunct decides even if another one is undefined
        bad = None
        for a in t.args:
            try:
                if not self.go(a, env):
                    return False
            except Exception as e:
                if bad is None or isinstance(bad, Stop):
                    bad = e
        if bad is not None:
            raise bad
        return True

    def e_or(self, t, env):
        bad = None
        for a in t.args:
            try:
                if self.go(a, env):
                    return True
            except Exception as e:
                if bad is None or isinstance(bad, Stop):
                    bad = e
        if bad is not None:
            raise bad
        return False

    def e_not(self, t, env):
        return not self.go(t.args[0], env)

    def e_neg(self, t, env):
        return -self.go(t.args[0], env)

    def e_abs(self, t, env):
        return abs(self.go(t.args[0], env))

    def e_inv(self, t, env):
        return ~self.go(t.args[0], env)

    def e_at(self, t, env):
        l, i = self.go(t.args[0], env), self.go(t.args[1], env)
        return l[i]

    def e_in(self, t, env):
        return self.go(t.args[0], env) in self.go(t.args[1], env)

    def e_eq(self, t, env):
        return self.go(t.args[0], env) == self.go(t.args[1], env)

    def e_tup(self, t, env):
        return tuple([self.go(a, env) for a in t.args])

    def e_bin(self, t, env):
        f = _FOLD.get(t.op)
        if f is None:
            raise Stop("operator " + t.op)
        return f(self.go(t.args[0], env), self.go(t.args[1], env))

    def e_fn(self, t, env):
        if t.pay in ("any", "all") and len(t.args) == 1 and t.args[0].op == "lst":
            want = t.pay == "any"
            bad = None
            for x in self.lazy(t.args[0].args[0], env):
                try:
                    if bool(x()) is want:
                        return want
                except Exception as e:
                    if bad is None or isinstance(bad, Stop):
                        bad = e
            if bad is not None:
                raise bad
            return not want
        f = PURE.get(t.pay)
        if f is None:
            raise Stop("function " + t.pay)
        return f(*[self.go(a, env) for a in t.args])

    def e_lst(self, t, env):
        out = []
        self.segs(t.args[0], env, out)
        return out

    def segs(self, s, env, out):
        for x in s.args:
            if x.op == "el":
                out.append(self.go(x.args[0], env))
            elif x.op == "sfor":
                n = self.go(x.args[0], env)
                e2 = dict(env)
                for i in range(n):
                    e2[x.pay[0]] = i
                    self.segs(x.args[1], e2, out)
            elif x.op == "sif":
                self.segs(x.args[1] if self.go(x.args[0], env) else x.args[2], env, out)
            elif x.op == "sop":
                v = self.go(x.args[0], env)
                if isinstance(v, dict):
                    v = list(v)
                out.extend(v)
            else:
                raise Stop("segment " + x.op)

    def lazy(self, s, env):
        for x in s.args:
            if x.op == "el":
                yield lambda: self.go(x.args[0], env)
            elif x.op == "sfor":
                n = self.go(x.args[0], env)
                for i in range(n):
                    e2 = dict(env)
                    e2[x.pay[0]] = i
                    for y in self.lazy(x.args[1], e2):
                        yield y
            elif x.op == "sif":
                for y in self.lazy(x.args[1] if self.go(x.args[0], env) else x.args[2], env):
                    yield y
            else:
                out = []
                self.segs(t_segs1(x), env, out)
                for v in out:
                    yield lambda v=v: v

    def e_dct(self, t, env):
        out = {}
        self.dsegs(t.args[0], env, out)
        return out

    def dsegs(self, s, env, out):
        for x in s.args:
            if x.op == "dset":
                out[self.go(x.args[0], env)] = self.go(x.args[1], env)
            elif x.op == "dadd":
                k = self.go(x.args[0], env)
                out[k] = out.get(k, 0) + self.go(x.args[1], env)
            elif x.op == "ddel":
                out.pop(self.go(x.args[0], env), None)
            elif x.op == "sfor":
                n = self.go(x.args[0], env)
                e2 = dict(env)
                for i in range(n):
                    e2[x.pay[0]] = i
                    self.dsegs(x.args[1], e2, out)
            elif x.op == "sif":
                self.dsegs(x.args[1] if self.go(x.args[0], env) else x.args[2], env, out)
            elif x.op == "sop":
                out.update(self.go(x.args[0], env))
            else:
                raise Stop("segment " + x.op)

    def e_loop(self, t, env):
        h, nb, (k, out) = t.pay
        n = self.go(t.args[0], env)
        st = [self.go(a, env) for a in t.args[1:1 + k]]
        nexts = t.args[1 + k:]
        for i in range(n):
            e2 = dict(env)
            e2[h] = i
            for j in range(k):
                e2[h + 1 + j] = st[j]
            st = [self.go(a, e2) for a in nexts]
        return st[out]

    def e_while(self, t, env):
        h, nb, (k, out) = t.pay
        st = [self.go(a, env) for a in t.args[:k]]
        cond, nexts = t.args[k], t.args[k + 1:]
        for it in range(2000):
            e2 = dict(env)
            for j in range(k):
                e2[h + j] = st[j]
            if not self.go(cond, e2):
                return st[out]
            st = [self.go(a, e2) for a in nexts]
        raise Diverge()


class _Seg1(object):
    def __init__(self, x):
        self.args = (x,)


def t_segs1(x):
    return _Seg1(x)


_MISS = object()


class _Exc(object):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e
