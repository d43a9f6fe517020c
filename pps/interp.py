"""Abstract interpreter: Python syntax trees -> value graphs, effects, ownership.

Nothing of the analysed program is imported or executed.  Branches are joined with gates (ite), loops
over iterables of symbolic length are summarised (map/filter segments, sums, recurrences) with loop
terms as fallback, and calls are resolved through the analysed class hierarchy.
"""
import ast
import os
import builtins as _pyb

from . import terms as t_
from .terms import (T, TRUE, FALSE, NONE, ZERO, ONE, const, isconst, cval, kind, fn, ite, and_, or_, not_,
                    add, sub, mul, lt, le, eq, at, newbv, newidx, subst, lst, dct, tup, segs as tsegs, el as tel,
                    sfor as tsfor, sif as tsif, sop as tsop, mk, sym, loop as tloop, while_ as twhile)


class PathDead(Exception):
    """the current abstract path ended (return, raise, break, continue)"""


class Unsup(Exception):
    """construct outside the analysed fragment: the obligation stays undecided"""


class AnchorError(Exception):
    """an entry point the rules are anchored on no longer exists"""


# ------------------------------------------------------------------ values
class Ref(object):
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("ref", self.loc))

    def __repr__(self):
        return "Ref%d" % self.loc


class View(object):
    """element of a container that lives under an index binder"""
    __slots__ = ("parent", "how", "key")

    def __init__(self, parent, how, key):
        self.parent, self.how, self.key = parent, how, key

    def __eq__(self, o):
        return isinstance(o, View) and (o.parent, o.how, o.key) == (self.parent, self.how, self.key)

    def __hash__(self):
        return hash((self.parent, self.how, self.key))

    def __repr__(self):
        return "View(%r.%s %r)" % (self.parent, self.how, self.key)


class HObj(object):
    """heap object record (never mutated; replaced)"""
    __slots__ = ("cls", "segs", "attrs", "region", "site")

    def __init__(self, cls, segs=(), attrs=None, region="fresh", site=None):
        self.cls = cls
        self.segs = tuple(segs)
        self.attrs = attrs or {}
        self.region = region
        self.site = site

    def but(self, **kw):
        o = HObj(self.cls, self.segs, self.attrs, self.region, self.site)
        for k, v in kw.items():
            setattr(o, k, tuple(v) if k == "segs" else v)
        return o

    def __repr__(self):
        return "H(%s %r %r %s)" % (clsname(self.cls), self.segs, self.attrs, self.region)


class Frz(object):
    """an object value under a binder (a family of objects)"""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return "Frz%r" % (self.o,)


class Tup(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class VIte(object):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "VIte(%r,%r,%r)" % (self.c, self.a, self.b)


class Undef(object):
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Fn(object):
    __slots__ = ("node", "env", "mod", "name", "cls", "defaults", "kwdefaults", "attrs")

    def __init__(self, node, env, mod, name, cls, defaults, kwdefaults):
        self.node, self.env, self.mod, self.name, self.cls = node, env, mod, name, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.attrs = {}

    def __repr__(self):
        return "<fn %s>" % self.name


class BoundM(object):
    __slots__ = ("fn", "self")

    def __init__(self, f, s):
        self.fn, self.self = f, s

    def __repr__(self):
        return "<bound %r of %r>" % (self.fn, self.self)


class Bi(object):
    """a modelled builtin / standard library callable"""
    __slots__ = ("name", "f")

    def __init__(self, name, f=None):
        self.name, self.f = name, f

    def __eq__(self, o):
        return isinstance(o, Bi) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<bi %s>" % self.name


class Partial(object):
    __slots__ = ("f", "args", "kw")

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, tuple(args), dict(kw)


class BCls(object):
    """builtin class"""
    _all = {}

    def __new__(cls, name):
        o = cls._all.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._all[name] = o
        return o

    def __repr__(self):
        return "<cls %s>" % self.name


class ClassObj(object):
    def __init__(self, name, mod, bases, ns, node):
        self.name, self.mod, self.bases, self.ns, self.node = name, mod, bases, ns, node
        self.mro = c3(self)

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassObj) and name in c.ns:
                return c, c.ns[name]
        return None, None

    @property
    def qual(self):
        return self.mod.name + "." + self.name

    def builtin_base(self):
        for c in self.mro:
            if isinstance(c, BCls) and c.name != "object":
                return c.name
        return None

    def __repr__(self):
        return "<class %s>" % self.qual


def c3(c):
    seqs = []
    for b in c.bases:
        seqs.append(list(b.mro) if isinstance(b, ClassObj) else [b])
    seqs.append(list(c.bases))
    out = [c]
    while any(seqs):
        for s in seqs:
            if not s:
                continue
            h = s[0]
            if any(h in q[1:] for q in seqs):
                continue
            break
        else:
            raise Unsup("inconsistent bases")
        out.append(h)
        seqs = [[x for x in q if x is not h] for q in seqs]
    return out


class Mod(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = {}
        self.src = ""
        self.tree = None

    def __repr__(self):
        return "<module %s>" % self.name


class StdMod(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, StdMod) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<stdlib %s>" % self.name


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class PropV(object):
    def __init__(self, fget):
        self.fget = fget


class StaticV(object):
    def __init__(self, f):
        self.f = f


class ClassMV(object):
    def __init__(self, f):
        self.f = f


class ExcV(object):
    """exception instance"""

    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class StarArg(object):
    def __init__(self, v):
        self.v = v


class FObj(object):
    """value of the environment model (source estimator side); never plain Python data"""
    tname = "foreign"

    def getattr(self, I, name):
        return None

    def item(self, I, key):
        raise Unsup("foreign item")

    def call(self, I, args, kw):
        raise Unsup("foreign call")

    def iter(self, I):
        raise Unsup("foreign iteration")

    def subst(self, f):
        return self

    def length(self, I):
        raise Unsup("foreign len")

    def reify(self, I):
        raise Unsup("reify foreign " + self.tname)

    def scalar(self, I):
        return None

    def truth(self, I):
        return TRUE

    def contains(self, I, x):
        raise Unsup("foreign contains")


class Poison(FObj):
    """value that the analysis cannot carry around a loop"""
    tname = "poison"

    def getattr(self, I, name):
        raise Unsup("loop-carried value")

    item = call = iter = reify = scalar = truth = contains = eq = getattr


POISON = Poison()

# --------------------------------------------------------------- segments
class SEl(object):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "el(%r)" % (self.v,)


class SFor(object):
    __slots__ = ("n", "bv", "segs")

    def __init__(self, n, bv, segs):
        self.n, self.bv, self.segs = n, bv, tuple(segs)

    def __repr__(self):
        return "for(%r,%r,%r)" % (self.n, self.bv, self.segs)


class SIf(object):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, tuple(a), tuple(b)

    def __repr__(self):
        return "if(%r,%r,%r)" % (self.c, self.a, self.b)


class SOp(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "op(%r)" % (self.t,)


class DSet(object):
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return "set(%r:%r)" % (self.k, self.v)


class DAdd(object):
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return "dadd(%r:%r)" % (self.k, self.v)


class DDel(object):
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


def clsname(c):
    return c if isinstance(c, str) else c.name


LISTY = ("list", "tuple", "iter", "set", "frozenset", "range", "bytes", "bytearray")


# ------------------------------------------------------- substitution on values
def map_val(v, f, memo=None):
    """apply a term mapping to all terms inside a value (structure preserving)"""
    if isinstance(v, T):
        return f(v)
    if isinstance(v, Tup):
        return Tup([map_val(x, f) for x in v.items])
    if isinstance(v, Frz):
        return Frz(map_obj(v.o, f))
    if isinstance(v, View):
        return View(map_val(v.parent, f), v.how, f(v.key) if isinstance(v.key, T) else v.key)
    if isinstance(v, VIte):
        c = f(v.c)
        if c is TRUE:
            return map_val(v.a, f)
        if c is FALSE:
            return map_val(v.b, f)
        return VIte(c, map_val(v.a, f), map_val(v.b, f))
    if isinstance(v, BoundM):
        return BoundM(map_val(v.fn, f), map_val(v.self, f))
    if isinstance(v, Partial):
        return Partial(map_val(v.f, f), [map_val(a, f) for a in v.args], {k: map_val(a, f) for k, a in v.kw.items()})
    if isinstance(v, FObj):
        return v.subst(f)
    if isinstance(v, Fn) and v.env:
        env2 = []
        ch = False
        for e in v.env:
            e2 = {}
            for k, x in e.items():
                y = x
                if isinstance(x, (T, Tup, Frz, VIte, View, FObj)):
                    y = map_val(x, f)
                e2[k] = y
                ch = ch or (y is not x)
            env2.append(e2)
        if ch:
            g = Fn(v.node, env2, v.mod, v.name, v.cls, v.defaults, v.kwdefaults)
            return g
        return v
    return v


def map_obj(o, f):
    return HObj(o.cls, map_segs(o.segs, f), {k: map_val(x, f) for k, x in o.attrs.items()}, o.region, o.site)


def map_segs(ss, f):
    out = []
    for s in ss:
        if isinstance(s, SEl):
            out.append(SEl(map_val(s.v, f)))
        elif isinstance(s, SFor):
            # f never touches s.bv (fresh everywhere)
            out.append(SFor(f(s.n), s.bv, map_segs(s.segs, f)))
        elif isinstance(s, SIf):
            c = f(s.c)
            if c is TRUE:
                out.extend(map_segs(s.a, f))
            elif c is FALSE:
                out.extend(map_segs(s.b, f))
            else:
                out.append(SIf(c, map_segs(s.a, f), map_segs(s.b, f)))
        elif isinstance(s, SOp):
            out.append(SOp(f(s.t)))
        elif isinstance(s, DSet):
            out.append(DSet(map_val(s.k, f), map_val(s.v, f)))
        elif isinstance(s, DAdd):
            out.append(DAdd(map_val(s.k, f), map_val(s.v, f)))
        elif isinstance(s, DDel):
            out.append(DDel(map_val(s.k, f)))
    return tuple(out)


def fresh_for(s):
    """rename the bound variable of an SFor"""
    v = newidx(s.n)
    m = {s.bv: v}
    return SFor(s.n, v, map_segs(s.segs, lambda t: subst(t, m)))


def inst(v, bv, i):
    m = {bv: i}
    return map_val(v, lambda t: subst(t, m))


def has_term(v, pred):
    """does any term inside value v satisfy pred"""
    hit = []

    def f(t):
        if pred(t):
            hit.append(t)
        return t
    map_val(v, f)
    return bool(hit)


# ------------------------------------------------------------------ events
class Ev(object):
    __slots__ = ("kind", "gate", "data", "site")

    def __init__(self, kind, gate, data, site):
        self.kind, self.gate, self.data, self.site = kind, gate, data, site

    def __repr__(self):
        return "Ev(%s %r @%s)" % (self.kind, self.data, self.site)


class Frame(object):
    def __init__(self, fnv, env, encl, mod, cls=None, name="<module>"):
        self.fn = fnv
        self.env = env          # local dict (mutated in place)
        self.encl = encl        # list of enclosing dicts, innermost first
        self.mod = mod
        self.cls = cls
        self.name = name
        self.rets = []
        self.yields = None
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.node = None
        self.locals = None
        self.iscomp = False


class State(object):
    __slots__ = ("pc", "heap", "env")

    def __init__(self, pc, heap, env):
        self.pc, self.heap, self.env = pc, heap, env


class TryRec(object):
    __slots__ = ("exc", "gate", "state")

    def __init__(self, exc, gate, state):
        self.exc, self.gate, self.state = exc, gate, state


class TryFrame(object):
    def __init__(self, fr, classes):
        self.fr = fr
        self.classes = classes     # list of handler class values, or [None] for bare
        self.recs = []


class LoopCtx(object):
    has_else = False

    def __init__(self):
        self.brks = []
        self.conts = []


_EXC = {n: getattr(_pyb, n) for n in dir(_pyb) if isinstance(getattr(_pyb, n), type) and issubclass(getattr(_pyb, n), BaseException)}


def exc_match(exc, handler):
    """exc: class value or builtin name; handler class value (None = bare)"""
    if handler is None:
        return True
    en = exc
    if isinstance(exc, ClassObj):
        if handler in exc.mro:
            return True
        en = next((c for c in exc.mro if isinstance(c, BCls)), BCls("Exception")).name
    elif isinstance(exc, BCls):
        en = exc.name
    if isinstance(handler, BCls):
        a, b = _EXC.get(en), _EXC.get(handler.name)
        return a is not None and b is not None and issubclass(a, b)
    return False


class Interp(object):
    MAXDEPTH = 80

    def __init__(self, root, packages, overlay=None, budget=600000):
        self.root = root
        self.packages = packages       # analysed top-level package names
        self.overlay = overlay or {}   # extra module name -> path (spec modules)
        self.mods = {}
        self.heap = {}
        self.late, self.lateobjs = 0, {}      # objects of modules that are loaded in the middle of a call
        self.nloc = 0
        self.pc = TRUE
        self.events = []
        self.fr = None
        self.stack = []
        self.trys = []
        self.depth = 0
        self.line = None
        self.region = "fresh"
        self.imports = []
        self.budget = budget
        self.notes = []
        self.funcs_seen = set()
        self.stmts_seen = set()
        self.loadpath = "fresh"
        self.globalfns = {}
        self.assume = frozenset()
        self.objphi = set()
        from . import lib
        self.lib = lib
        self.bi = lib.builtins_env()

    # ------------------------------------------------------------ heap
    def alloc(self, o):
        self.nloc += 1
        self.heap[self.nloc] = o
        return Ref(self.nloc)

    def new(self, cls, ss=(), attrs=None, region=None):
        return self.alloc(HObj(cls, ss, attrs, region or self.region, self.site()))

    def site(self):
        if self.fr is None:
            return ("?", 0, "?")
        return (os.path.relpath(self.fr.mod.path, self.root) if self.fr.mod.path else self.fr.mod.name,
                getattr(self.fr.node, "lineno", 0), self.fr.name)

    def obj(self, v):
        """heap record of an object value"""
        if isinstance(v, Ref):
            return self.heap[v.loc]
        if isinstance(v, View):
            e = self.view_elem(v)
            if isinstance(e, Frz):
                return e.o
            if isinstance(e, (Ref, View)):
                return self.obj(e)
            if isinstance(e, T):
                return HObj("list" if kind(e) != "dict" else "dict", (SOp(e),), {}, self.obj(v.parent).region)
            raise Unsup("view of %r" % (e,))
        if isinstance(v, Frz):
            return v.o
        return None

    def view_elem(self, v):
        p = self.obj(v.parent)
        if v.how == "attr":
            return p.attrs.get(v.key, UNDEF)
        if v.how == "key":
            r = self.dict_find(p, v.key)
            return r if r is not None else UNDEF
        return self.seg_index(p.segs, v.key, False)

    def setobj(self, v, o):
        if isinstance(v, Ref):
            self.heap[v.loc] = o
            return
        if isinstance(v, View):
            p = self.obj(v.parent)
            e = self.view_elem(v)
            if isinstance(e, (Ref, View)):
                self.setobj(e, o)
                return
            if v.how == "attr":
                at2 = dict(p.attrs)
                at2[v.key] = Frz(o)
                self.setobj(v.parent, p.but(attrs=at2))
            elif v.how == "idx":
                self.setobj(v.parent, p.but(segs=self.seg_store(p.segs, v.key, Frz(o))))
            else:
                self.setobj(v.parent, p.but(segs=p.segs + (DSet(v.key, Frz(o)),)))
            return
        raise Unsup("store into %r" % (v,))

    def root_region(self, v):
        while isinstance(v, View):
            p = self.obj(v)
            if p is not None and p.region != "fresh":
                return p.region
            v = v.parent
        o = self.obj(v)
        return o.region if o is not None else "fresh"

    def lift(self, v):
        """turn a family member into an addressable object"""
        if isinstance(v, Frz):
            return self.alloc(v.o)
        return v

    # ------------------------------------------------------------ events
    def event(self, kind_, data, gate=None, site=None):
        g = self.pc if gate is None else gate
        if g is FALSE:
            return
        self.events.append(Ev(kind_, g, data, site or self.site()))

    def may_raise(self, gate, exc, msg="", explicit=False, args=None):
        """the operation raises exc when gate holds"""
        if gate is FALSE:
            return
        g = and_(self.pc, gate)
        if g is FALSE:
            return
        tf = None
        for f in reversed(self.trys):
            if any(exc_match(exc, h) for h in f.classes):
                tf = f
                break
        if tf is not None:
            st = State(g, dict(self.heap), dict(tf.fr.env))
            tf.recs.append(TryRec((exc, args), g, st))
        elif explicit:
            self.event("raise", (exc if isinstance(exc, str) else exc.name, msg), g)
        else:
            self.event("crash", (exc, msg), g)
        if gate is TRUE or not_(gate) is FALSE:
            raise PathDead()
        if tf is not None or explicit:
            self.pc = and_(self.pc, not_(gate))

    def caught(self, exc):
        return any(any(exc_match(exc, h) for h in f.classes) for f in self.trys)

    def err(self, exc, msg):
        """unconditional implementation error (wrong kind of object, unknown name, ...)"""
        self.may_raise(TRUE, exc, msg)
        raise PathDead()

    # ------------------------------------------------------------ state
    def snap(self):
        return State(self.pc, dict(self.heap), dict(self.fr.env))

    def restore(self, s):
        self.pc = s.pc
        self.heap = dict(s.heap)
        if self.late and self.late not in self.heap:
            for loc, o in self.lateobjs.items():
                self.heap.setdefault(loc, o)
        e = self.fr.env
        if e is not s.env:
            e.clear()
            e.update(s.env)

    def merge_into(self, c, s1, s2, pc):
        """current state := s1 if c else s2"""
        h = dict(s2.heap)
        for loc, o1 in s1.heap.items():
            o2 = s2.heap.get(loc)
            if o2 is None:
                h[loc] = o1
            elif o1 is not o2:
                h[loc] = self.merge_obj(c, o1, o2)
        self.heap = h
        env = {}
        for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            a, b = s1.env.get(k, UNDEF), s2.env.get(k, UNDEF)
            env[k] = a if a is b else self.merge(c, a, b)
        self.fr.env.clear()
        self.fr.env.update(env)
        self.pc = pc

    def merge(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, T) and isinstance(b, T):
            if kind(a) != kind(b) and ("none" in (kind(a), kind(b))):
                return VIte(c, a, b)
            return ite(c, a, b)
        if isinstance(a, (Ref, View, BCls, Bi)) and a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Frz) and isinstance(b, Frz):
            return Frz(self.merge_obj(c, a.o, b.o))
        if isinstance(a, BoundM) and isinstance(b, BoundM) and a.fn == b.fn and a.self == b.self:
            return a
        return VIte(c, a, b)

    def merge_obj(self, c, o1, o2):
        if o1 is o2:
            return o1
        if o1.cls is not o2.cls and o1.cls != o2.cls:
            raise Unsup("join of different classes")
        attrs = {}
        for k in list(o1.attrs) + [k for k in o2.attrs if k not in o1.attrs]:
            attrs[k] = self.merge(c, o1.attrs.get(k, UNDEF), o2.attrs.get(k, UNDEF))
        return HObj(o1.cls, self.merge_segs(c, o1.segs, o2.segs, clsname(o1.cls)), attrs, o1.region, o1.site)

    def merge_segs(self, c, a, b, cn="list"):
        if a is b:
            return a
        k = 0
        while k < len(a) and k < len(b) and (a[k] is b[k] or self.seg_same(a[k], b[k])):
            k += 1
        pre, ra, rb = a[:k], a[k:], b[k:]
        if not ra and not rb:
            return a
        if len(ra) == 1 and len(rb) == 1:
            x, y = ra[0], rb[0]
            if isinstance(x, SEl) and isinstance(y, SEl):
                return pre + (SEl(self.merge(c, x.v, y.v)),)
            if isinstance(x, SFor) and isinstance(y, SFor) and x.n is y.n and len(x.segs) == 1 and len(y.segs) == 1 \
                    and isinstance(x.segs[0], SEl) and isinstance(y.segs[0], SEl):
                v = newidx(x.n)
                return pre + (SFor(x.n, v, (SEl(self.merge(c, inst(x.segs[0].v, x.bv, v), inst(y.segs[0].v, y.bv, v))),)),)
            if isinstance(x, DSet) and isinstance(y, DSet) and isinstance(x.k, T) and x.k is y.k:
                r = self.counter_join(c, pre, x, y)
                if r is None:
                    r = DSet(x.k, self.merge(c, x.v, y.v))
                return pre + (r,)
        if len(ra) == len(rb) and all(isinstance(s, SEl) for s in ra + rb):
            return pre + tuple(SEl(self.merge(c, x.v, y.v)) for x, y in zip(ra, rb))
        return pre + (SIf(c, ra, rb),)

    def counter_join(self, c, pre, x, y):
        """if k not in d: d[k] = e   else: d[k] = d[k] + e"""
        d = self.reify_dsegs(pre)
        k = x.k
        cin = mk("in", (k, d))
        if c is not_(cin):
            new, old = x.v, y.v
        elif c is cin:
            new, old = y.v, x.v
        else:
            return None
        if not (isinstance(new, T) and isinstance(old, T)) or old.op != "add":
            return None
        g = (at(d, k), fn("dget", d, k, ZERO))
        for p, q in ((0, 1), (1, 0)):
            if old.args[p] in g and old.args[q] is new:
                return DAdd(k, new)
        return None

    def seg_same(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, SEl):
            return a.v is b.v or (isinstance(a.v, (Ref, View, Tup)) and a.v == b.v)
        if isinstance(a, SOp):
            return a.t is b.t
        if isinstance(a, DSet):
            return (a.k is b.k or a.k == b.k) and (a.v is b.v or (isinstance(a.v, (Ref, View, Tup)) and a.v == b.v))
        return False

    def branch(self, c, fa, fb):
        """evaluate fa under c and fb under not c; join"""
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        if self.implied(c):
            return fa()
        if self.implied(not_(c)):
            return fb()
        pre = self.snap()
        self.pc = and_(pre.pc, c)
        try:
            ra = fa()
            s1 = self.snap()
        except PathDead:
            s1 = None
        self.restore(pre)
        self.pc = and_(pre.pc, not_(c))
        try:
            rb = fb()
            s2 = self.snap()
        except PathDead:
            s2 = None
        if s1 is None and s2 is None:
            raise PathDead()
        if s2 is None:
            self.restore(s1)
            return ra
        if s1 is None:
            return rb
        pc = pre.pc
        if s1.pc is not and_(pre.pc, c) or s2.pc is not and_(pre.pc, not_(c)):
            pc = or_(s1.pc, s2.pc)
        self.merge_into(c, s1, s2, pc)
        return self.merge(c, ra, rb)

    def pcset(self):
        return self.pc.args if self.pc.op == "and" else (self.pc,)

    def join_states(self, states):
        """states: list of (State, value) on disjoint paths -> current state, value"""
        st, val = states[-1]
        self.restore(st)
        for s, v in reversed(states[:-1]):
            cur = self.snap()
            rel = self.relpc(s.pc, cur.pc)
            self.merge_into(rel, s, cur, or_(s.pc, cur.pc))
            val = self.merge(rel, v, val)
        return val

    @staticmethod
    def relpc(a, b):
        """condition of a relative to what it shares with b"""
        A = a.args if a.op == "and" else (a,)
        B = b.args if b.op == "and" else (b,)
        d = [x for x in A if x not in B]
        return and_(*d) if d else TRUE

    # ------------------------------------------------------------- reify
    def reify(self, v, depth=0):
        if depth > 30:
            raise Unsup("deep structure")
        if isinstance(v, T):
            return v
        if isinstance(v, Tup):
            return tup(*[self.reify(x, depth + 1) for x in v.items])
        if isinstance(v, VIte):
            if isinstance(v.a, Undef):
                return self.reify(v.b, depth + 1)
            if isinstance(v.b, Undef):
                return self.reify(v.a, depth + 1)
            return ite(v.c, self.reify(v.a, depth + 1), self.reify(v.b, depth + 1))
        if isinstance(v, (Ref, View, Frz)):
            return self.reify_obj(self.obj(v), depth)
        if isinstance(v, FObj):
            return v.reify(self)
        if isinstance(v, BCls):
            return const(("type", v.name))
        if isinstance(v, ClassObj):
            return const(("type", v.qual))
        if isinstance(v, (Fn, BoundM, Bi, Partial)):
            return const(("callable", repr(v)))
        if isinstance(v, ExcV):
            return fn("exc", const(v.cls if isinstance(v.cls, str) else v.cls.name))
        raise Unsup("reify %r" % (v,))

    def reify_obj(self, o, depth=0):
        cn = clsname(o.cls)
        if cn in ("dict", "defaultdict"):
            return self.reify_dsegs(o.segs, depth)
        if cn in LISTY:
            l = self.reify_segs(o.segs, depth)
            if cn in ("set", "frozenset"):
                if l.op == "fn" and l.pay == "set":
                    return l
                return fn("set", l)
            if cn == "tuple":
                return fn("totuple", l)
            return l
        if isinstance(o.cls, ClassObj):
            items = []
            for k in sorted(o.attrs):
                items.append(const(k))
                items.append(self.reify(o.attrs[k], depth + 1))
            b = o.cls.builtin_base()
            if b == "list":
                items.append(self.reify_segs(o.segs, depth))
            elif b == "dict":
                items.append(self.reify_dsegs(o.segs, depth))
            return mk("fn", (const(o.cls.qual),) + tuple(items), "inst")
        raise Unsup("reify " + cn)

    def reify_segs(self, ss, depth=0):
        return lst(*[self.tseg(s, depth) for s in ss])

    def reify_dsegs(self, ss, depth=0):
        if len(ss) == 1 and isinstance(ss[0], SOp):
            return ss[0].t
        return dct(*[self.tseg(s, depth) for s in ss])

    def tseg(self, s, depth):
        if isinstance(s, SEl):
            return tel(self.reify(s.v, depth + 1))
        if isinstance(s, SFor):
            return tsfor(s.n, s.bv, tsegs(*[self.tseg(x, depth) for x in s.segs]))
        if isinstance(s, SIf):
            return tsif(s.c, tsegs(*[self.tseg(x, depth) for x in s.a]), tsegs(*[self.tseg(x, depth) for x in s.b]))
        if isinstance(s, SOp):
            return tsop(s.t)
        if isinstance(s, DSet):
            return mk("dset", (self.reify(s.k, depth + 1), self.reify(s.v, depth + 1)))
        if isinstance(s, DAdd):
            return mk("dadd", (self.reify(s.k, depth + 1), self.reify(s.v, depth + 1)))
        if isinstance(s, DDel):
            return mk("ddel", (self.reify(s.k, depth + 1),))
        raise Unsup("segment")

    # --------------------------------------------------- sequence helpers
    def unreify_segs(self, tseg):
        """term segments -> value segments"""
        out = []
        for s in tseg.args:
            if s.op == "el":
                out.append(SEl(s.args[0]))
            elif s.op == "sfor":
                n, v, b = t_.open_sfor(s)
                out.append(SFor(n, v, self.unreify_segs(b)))
            elif s.op == "sif":
                out.append(SIf(s.args[0], self.unreify_segs(s.args[1]), self.unreify_segs(s.args[2])))
            elif s.op == "sop":
                out.append(SOp(s.args[0]))
            else:
                raise Unsup("segment " + s.op)
        return tuple(out)

    def seg_len(self, ss):
        tot = ZERO
        for s in ss:
            if isinstance(s, SEl):
                tot = add(tot, ONE)
            elif isinstance(s, SFor):
                m = self.seg_len(s.segs)
                if m is None or s.bv.pay in m.fv:
                    return None
                tot = add(tot, mul(s.n, m))
            elif isinstance(s, SOp):
                tot = add(tot, fn("len", s.t))
            elif isinstance(s, SIf):
                a, b = self.seg_len(s.a), self.seg_len(s.b)
                if a is None or b is None:
                    return None
                tot = add(tot, ite(s.c, a, b))
            else:
                return None
        return tot

    def seg_index(self, ss, i, check=True):
        """value at position i of a list with segments ss (families stay Frz)"""
        if len(ss) == 1 and isinstance(ss[0], SFor) and len(ss[0].segs) == 1 and isinstance(ss[0].segs[0], SEl):
            s = ss[0]
            if isconst(i) and cval(i) < 0:
                i = add(s.n, i)
            if not t_.inrange(i, s.n):
                v0 = s.segs[0].v
                if isinstance(v0, T):
                    return at(self.reify_segs(ss), i)
                if check:
                    self.event("crash", ("IndexError", "list index out of range"),
                               and_(self.pc, or_(not_(lt(i, s.n)), lt(i, sub(ZERO, s.n)))))
            return inst(s.segs[0].v, s.bv, i)
        if len(ss) == 1 and isinstance(ss[0], SOp):
            return at(ss[0].t, i)
        if len(ss) == 1 and isinstance(ss[0], SIf):
            s = ss[0]
            la, lb = self.seg_len(s.a), self.seg_len(s.b)
            if s.a and s.b:
                return self.merge(s.c, self.seg_index(s.a, i, check), self.seg_index(s.b, i, check))
        n = self.seg_len(ss)
        if isconst(i) and cval(i) < 0 and n is not None and all(isinstance(s, (SEl,)) for s in ss):
            i = add(n, i)
        if isconst(i) and cval(i) < 0 and ss and isinstance(ss[-1], SEl) and cval(i) == -1:
            return ss[-1].v
        if isconst(i) and cval(i) >= 0:
            k = cval(i)
            for j, s in enumerate(ss):
                if isinstance(s, SEl):
                    if k == 0:
                        return s.v
                    k -= 1
                else:
                    if j > 0:
                        return self.seg_index(ss[j:], const(k), check)
                    break
        if ss and all(isinstance(s, SEl) for s in ss) and isinstance(i, T) and not isconst(i):
            r = ss[-1].v
            for k in range(len(ss) - 2, -1, -1):
                r = self.merge(eq(i, const(k)), ss[k].v, r)
            if not isinstance(r, T):
                return r
            return at(self.reify_segs(ss), i)
        if len(ss) >= 2 and isinstance(ss[0], SFor) and isinstance(i, T) and len(ss[0].segs) == 1:
            # i provably inside the first part
            if lt(i, ss[0].n) is TRUE:
                return self.seg_index(ss[:1], i, check)
        if len(ss) >= 2 and isinstance(ss[0], SEl) and isinstance(i, T) and not isconst(i):
            r = self.seg_index(ss[1:], sub(i, ONE), check)
            return self.merge(eq(i, ZERO), ss[0].v, r)
        return at(self.reify_segs(ss), i)

    def seg_store(self, ss, i, v):
        if len(ss) == 1 and isinstance(ss[0], SFor) and len(ss[0].segs) == 1 and isinstance(ss[0].segs[0], SEl):
            s = ss[0]
            if isconst(i) and cval(i) < 0:
                i = add(s.n, i)
            b = newidx(s.n)
            old = inst(s.segs[0].v, s.bv, b)
            return (SFor(s.n, b, (SEl(self.merge(eq(b, i), v, old)),)),)
        if isconst(i) and all(isinstance(s, SEl) for s in ss):
            k = cval(i)
            if k < 0:
                k += len(ss)
            if 0 <= k < len(ss):
                return ss[:k] + (SEl(v),) + ss[k + 1:]
        if all(isinstance(s, SEl) for s in ss):
            return tuple(SEl(self.merge(eq(i, const(k)), v, s.v)) for k, s in enumerate(ss))
        return (SOp(fn("setitem", self.reify_segs(ss), i, self.reify(v))),)

    def elems(self, v):
        """value-level segments of an iterable value"""
        if isinstance(v, VIte):
            if isinstance(v.a, Undef):
                return self.elems(v.b)
            if isinstance(v.b, Undef):
                return self.elems(v.a)
            return self.merge_segs(v.c, self.elems(v.a), self.elems(v.b))
        if isinstance(v, Tup):
            return tuple(SEl(x) for x in v.items)
        if isinstance(v, (Ref, View, Frz)):
            o = self.obj(v)
            cn = clsname(o.cls)
            b = cn if isinstance(o.cls, str) else (o.cls.builtin_base() or "")
            if isinstance(o.cls, ClassObj) and not b:
                c, it = o.cls.lookup("__iter__")
                if it is not None:
                    return self.elems(self.call(self.getattr(v, "__iter__"), [], {}))
                self.err("TypeError", "%s object is not iterable" % cn)
            if b in ("dict", "defaultdict"):
                return self.dict_iter(o, "keys")
            if b in ("set", "frozenset"):
                if len(o.segs) == 1 and isinstance(o.segs[0], SOp):
                    t = o.segs[0].t
                else:
                    t = fn("set", self.reify_segs(o.segs))
                # iteration order of a set is hash order
                lt_ = fn("setlist", t)
                b_ = newidx(fn("len", lt_))
                self.event("ambient", "iteration over a set")
                return (SFor(fn("len", lt_), b_, (SEl(at(lt_, b_)),)),)
            if b == "iter":
                if not isinstance(v, Frz):
                    self.setobj(v, o.but(segs=()))
                return o.segs
            return self.annot(v, o.segs)
        if isinstance(v, FObj):
            return v.iter(self)
        if isinstance(v, T):
            return self.titer(v)
        if isinstance(v, (Fn, BoundM, Bi, ClassObj, BCls, Mod, StdMod, ExcV)):
            self.err("TypeError", "%r is not iterable" % (v,))
        raise Unsup("iterate %r" % (v,))

    def annot(self, v, ss):
        """replace families by views when the position is known"""
        if isinstance(v, Frz):
            return ss
        out = []
        pos = ZERO
        for s in ss:
            if pos is not None and isinstance(s, SEl) and isinstance(s.v, Frz):
                out.append(SEl(View(v, "idx", pos)))
            elif pos is not None and isinstance(s, SFor) and len(s.segs) == 1 and isinstance(s.segs[0], SEl) and isinstance(s.segs[0].v, Frz):
                b = newidx(s.n)
                out.append(SFor(s.n, b, (SEl(View(v, "idx", add(pos, b))),)))
            elif pos is not None and isinstance(s, SOp) and self.objelem(at(s.t, ZERO)):
                n = fn("len", s.t)
                b = newidx(n)
                out.append(SFor(n, b, (SEl(View(v, "idx", add(pos, b))),)))
            else:
                out.append(s)
            n = self.seg_len((s,))
            pos = None if n is None or pos is None else add(pos, n)
        return tuple(out)

    def objelem(self, v):
        """v is an element of a loop-carried container whose elements are objects"""
        if v.op != "at":
            return False
        b = v.args[0]
        while b.op == "fn" and b.pay == "setitem":
            b = b.args[0]
        while b.op == "ite":
            b = b.args[1]
            while b.op == "fn" and b.pay == "setitem":
                b = b.args[0]
        return b in self.objphi

    def titer(self, v):
        k = kind(v)
        if v.op == "lst":
            return self.unreify_segs(v.args[0])
        if v.op == "tup":
            return tuple(SEl(x) for x in v.args)
        if v.op == "fn" and v.pay in ("keys", "values", "items") and v.args:
            d = v.args[0]
            n = fn("len", d)
            b = newidx(n)
            key = at(fn("keys", d), b)
            e = key if v.pay == "keys" else at(d, key) if v.pay == "values" else Tup([key, at(d, key)])
            return (SFor(n, b, (SEl(e),)),)
        if k == "dict":
            n = fn("len", v)
            b = newidx(n)
            return (SFor(n, b, (SEl(at(fn("keys", v), b)),)),)
        if k in ("int", "float", "bool", "none", "num"):
            self.err("TypeError", "'%s' value is not iterable" % k)
        if v.op == "ite":
            return self.merge_segs(v.args[0], self.titer(v.args[1]), self.titer(v.args[2]))
        if k == "set":
            self.event("ambient", "iteration over a set")
            v = fn("setlist", v)
        n = fn("len", v)
        if k is None and v.op == "at":
            v = fn("iterlist", v)          # a list, a dictionary or a string: decided by the value
        if isconst(n) and cval(n) <= 64:
            return tuple(SEl(at(v, const(i))) for i in range(cval(n)))
        b = newidx(n)
        return (SFor(n, b, (SEl(at(v, b)),)),)

    def dict_iter(self, o, what):
        ss = o.segs
        ks = [s.k for s in ss if isinstance(s, DSet)]
        under = lambda k: k.t if isinstance(k, FObj) and isinstance(getattr(k, "t", None), T) else k
        if len(ks) == len(ss) and all(isinstance(under(k), T) and isconst(under(k)) or isinstance(k, Tup) for k in ks):
            last, key = {}, {}
            for s in ss:
                last[under(s.k)] = s.v
                key.setdefault(under(s.k), s.k)
            out = []
            for k, x in last.items():
                k = key[k]
                out.append(SEl(k if what == "keys" else x if what == "values" else Tup([k, x])))
            return tuple(out)
        if len(ss) == 1 and isinstance(ss[0], SFor) and self.distinct_keys(ss[0]):
            def conv(segs_):
                r = []
                for s in segs_:
                    if isinstance(s, DSet):
                        r.append(SEl(s.k if what == "keys" else s.v if what == "values" else Tup([s.k, s.v])))
                    elif isinstance(s, SIf):
                        r.append(SIf(s.c, conv(s.a), conv(s.b)))
                    else:
                        raise Unsup("dict segment")
                return tuple(r)
            s = ss[0]
            b = newidx(s.n)
            m = {s.bv: b}
            return (SFor(s.n, b, map_segs(conv(s.segs), lambda t: subst(t, m))),)
        d = self.reify_dsegs(ss)
        return self.titer(fn(what, d))

    def distinct_keys(self, s):
        """each iteration sets one key, pairwise different over iterations"""
        ks = []

        def walk(segs_):
            for x in segs_:
                if isinstance(x, DSet):
                    ks.append(x.k.t if isinstance(x.k, FObj) and isinstance(getattr(x.k, "t", None), T) else x.k)
                elif isinstance(x, SIf):
                    if x.a and x.b:
                        return False
                    if not (walk(x.a) and walk(x.b)):
                        return False
                else:
                    return False
            return True
        if not walk(s.segs) or len(ks) != 1 or not isinstance(ks[0], T):
            return False
        k = ks[0]
        if k is s.bv:
            return True
        while k.op == "add" and (s.bv.pay not in k.args[0].fv or s.bv.pay not in k.args[1].fv):
            k = k.args[1] if s.bv.pay not in k.args[0].fv else k.args[0]
        return k is s.bv or (k.op == "at" and k.args[1] is s.bv and k.args[0].op == "fn" and k.args[0].pay == "keys")

    def dict_find(self, o, key):
        """value of a constant key when all keys are constants; None when unknown; UNDEF when absent"""
        if len(o.segs) == 1 and isinstance(o.segs[0], SFor) and len(o.segs[0].segs) == 1 and isinstance(o.segs[0].segs[0], DSet):
            # a table over all keys of a dictionary, looked up at one of them
            s = o.segs[0]
            k, q = (x.t if isinstance(x, FObj) and isinstance(getattr(x, "t", None), T) else x for x in (s.segs[0].k, key))
            if isinstance(k, T) and isinstance(q, T) and k.op == "at" and q.op == "at" and k.args[0] is q.args[0] and k.args[1] is s.bv \
                    and q.args[1].op == "bv" and k.args[0].op == "fn" and k.args[0].pay == "keys" and self.distinct_keys(s):
                return map_segs((SEl(s.segs[0].v),), lambda t: subst(t, {s.bv: q.args[1]}))[0].v
        if not all(isinstance(s, DSet) and (isconst(s.k) or isinstance(s.k, Tup)) for s in o.segs):
            return None
        if not (isconst(key) or isinstance(key, Tup)):
            return None
        for s in reversed(o.segs):
            if s.k is key or s.k == key:
                return s.v
            if isconst(s.k) and isconst(key) and s.k.pay[0] != "o" and key.pay[0] != "o" and cval(s.k) == cval(key):
                return s.v
        return UNDEF

    # ------------------------------------------------------------- freeze
    def freeze(self, v, mark, memo=None):
        """inline objects allocated at or after mark"""
        if isinstance(v, Ref):
            if v.loc < mark:
                return v
            o = self.heap[v.loc]
            return Frz(self.freeze_obj(o, mark))
        if isinstance(v, View):
            r = v
            while isinstance(r, View):
                r = r.parent
            if isinstance(r, Ref) and r.loc >= mark:
                return Frz(self.freeze_obj(self.obj(v), mark))
            return v
        if isinstance(v, Frz):
            return Frz(self.freeze_obj(v.o, mark))
        if isinstance(v, Tup):
            return Tup([self.freeze(x, mark) for x in v.items])
        if isinstance(v, VIte):
            return VIte(v.c, self.freeze(v.a, mark), self.freeze(v.b, mark))
        if isinstance(v, BoundM):
            return BoundM(v.fn, self.freeze(v.self, mark))
        if isinstance(v, Partial):
            return Partial(v.f, [self.freeze(a, mark) for a in v.args], {k: self.freeze(a, mark) for k, a in v.kw.items()})
        return v

    def freeze_obj(self, o, mark):
        return HObj(o.cls, self.freeze_segs(o.segs, mark), {k: self.freeze(x, mark) for k, x in o.attrs.items()}, o.region, o.site)

    def freeze_segs(self, ss, mark):
        out = []
        for s in ss:
            if isinstance(s, SEl):
                out.append(SEl(self.freeze(s.v, mark)))
            elif isinstance(s, SFor):
                out.append(SFor(s.n, s.bv, self.freeze_segs(s.segs, mark)))
            elif isinstance(s, SIf):
                out.append(SIf(s.c, self.freeze_segs(s.a, mark), self.freeze_segs(s.b, mark)))
            elif isinstance(s, DSet):
                out.append(DSet(s.k, self.freeze(s.v, mark)))
            else:
                out.append(s)
        return tuple(out)

    # -------------------------------------------------------------- loops
    def foreach(self, ss, body, ctx):
        """run body(value) for each element of segments ss"""
        for s in ss:
            if isinstance(s, SEl):
                self.iteration(lambda s=s: body(self.lift(s.v)), ctx)
            elif isinstance(s, SIf):
                self.branch(s.c, lambda s=s: self.foreach(s.a, body, ctx), lambda s=s: self.foreach(s.b, body, ctx))
            elif isinstance(s, SFor):
                if isconst(s.n) and cval(s.n) <= 1:
                    if cval(s.n) == 1:
                        m = {s.bv: ZERO}
                        self.foreach(map_segs(s.segs, lambda t: subst(t, m)), body, ctx)
                    continue
                s = fresh_for(s)
                self.summarise(s.n, s.bv, lambda s=s: self.foreach(s.segs, body, ctx), ctx)
            elif isinstance(s, SOp):
                self.foreach(self.titer(s.t), body, ctx)
            else:
                raise Unsup("iterate segment")

    def iteration(self, f, ctx):
        ctx.conts = []
        alive = True
        try:
            f()
        except PathDead:
            alive = False
        conts, ctx.conts = ctx.conts, []
        states = [(s, None) for s in conts]
        if alive:
            states.append((self.snap(), None))
        if not states:
            raise PathDead()
        self.join_states(states)

    def run_for(self, ss, body, has_else=False):
        """for loop with break support over segments"""
        ctx = LoopCtx()
        ctx.has_else = has_else
        self.fr.loops.append(ctx)
        alive = True
        try:
            self.foreach(ss, body, ctx)
        except PathDead:
            alive = False
        finally:
            self.fr.loops.pop()
        return alive, ctx

    def end_for(self, alive, ctx):
        states = [(s, None) for s in ctx.brks]
        if alive:
            states.append((self.snap(), None))
        if not states:
            raise PathDead()
        self.join_states(states)

    def collect(self, ss, f):
        """[f(x) for x in ss] as segments"""
        sink = self.alloc(HObj("list", (), {}, "fresh", self.site()))

        def body(x):
            v = f(x)
            o = self.heap[sink.loc]
            self.heap[sink.loc] = o.but(segs=o.segs + tuple(v))
        alive, ctx = self.run_for(ss, body)
        self.end_for(alive, ctx)
        r = self.heap.pop(sink.loc)
        return r.segs

    def map_el(self, ss, f):
        return self.collect(ss, lambda x: (SEl(f(x)),))

    # .. summarisation of a loop with n iterations, index bv
    def summarise(self, n, bv, step, ctx):
        from .loops import summarise
        return summarise(self, n, bv, step, ctx)

    # ------------------------------------------------------------- modules
    def module_path(self, name):
        if name in self.overlay:
            return self.overlay[name]
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = self.module_path(name)
        if path is None:
            return None
        if "." in name and name not in self.overlay:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        m = Mod(name, path)
        with open(path, encoding="utf-8") as f:
            m.src = f.read()
        m.tree = ast.parse(m.src, path)
        self.mods[name] = m
        m.env["__name__"] = const(name)
        m.env["__file__"] = const(path)
        saved = (self.fr, self.pc, self.region, self.trys)
        before = set(self.heap)
        ne = len(self.events)
        fr = Frame(None, m.env, [], m)
        self.fr, self.pc, self.region, self.trys = fr, TRUE, "global", []
        try:
            self.exec_block(m.tree.body)
        except PathDead:
            self.notes.append("module %s does not load" % name)
            self.event("crash", ("ImportError", "module %s raises at import" % name), TRUE)
        finally:
            self.fr, self.pc, self.region, self.trys = saved
            # a module builds its own globals while it loads
            self.events[ne:] = [e for e in self.events[ne:] if e.kind not in ("mutate", "setattr", "globalwrite")]
            for loc in self.heap:
                if loc not in before:
                    self.lateobjs[loc] = self.heap[loc]
                    self.late = max(self.late, loc)
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if par in self.mods:
                self.mods[par].env.setdefault(leaf, m)
        return m

    def in_pkg(self, name):
        return name.split(".")[0] in self.packages or name in self.overlay

    def import_mod(self, name):
        self.imports.append((name, self.site()))
        if self.in_pkg(name):
            m = self.load(name)
            if m is None:
                self.err("ImportError", "no module %s" % name)
            return m
        if name.split(".")[0] in self.lib.STDLIB:
            return StdMod(name)
        self.event("thirdparty", name)
        self.may_raise(TRUE if False else sym("missing_" + name.split(".")[0]), "ImportError", name)
        return self.lib.ForeignMod(name)

    # ------------------------------------------------------------ statements
    def exec_block(self, body):
        for st in body:
            self.exec(st)

    def exec(self, st):
        self.budget -= 1
        if self.budget < 0:
            raise Unsup("budget")
        prev = self.fr.node
        self.fr.node = st
        self.stmts_seen.add((self.fr.mod.name, st.lineno))
        getattr(self, "x_" + type(st).__name__, self.x_unknown)(st)
        self.fr.node = prev

    def x_unknown(self, st):
        raise Unsup("statement " + type(st).__name__)

    def x_Pass(self, st):
        pass

    def x_Expr(self, st):
        if isinstance(st.value, ast.Yield):
            self.do_yield(st.value)
            return
        self.eval(st.value)

    def x_Import(self, st):
        for a in st.names:
            m = self.import_mod(a.name)
            if a.asname:
                self.assign_name(a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, m if "." not in a.name else
                                 (self.load(top) if self.in_pkg(top) else StdMod(top) if top in self.lib.STDLIB else m))

    def x_ImportFrom(self, st):
        base = st.module or ""
        if st.level:
            parts = self.fr.mod.name.split(".")
            is_pkg = self.fr.mod.path.endswith("__init__.py")
            up = st.level - (1 if is_pkg else 0)
            parts = parts[:len(parts) - up] if up else parts
            base = ".".join(parts + ([st.module] if st.module else []))
        m = self.import_mod(base)
        for a in st.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    al = m.env.get("__all__")
                    names = [k for k in m.env if not k.startswith("_")]
                    if al is not None:
                        names = [cval(s.v) for s in self.obj(al).segs]
                    for k in names:
                        if k in m.env:
                            self.assign_name(k, m.env[k])
                continue
            v = None
            if isinstance(m, Mod):
                v = m.env.get(a.name)
                if v is None:
                    v = self.load(m.name + "." + a.name)
                if v is None:
                    self.may_raise(TRUE, "ImportError", "cannot import name %r from %s" % (a.name, m.name))
            else:
                v = self.getattr(m, a.name)
            self.assign_name(a.asname or a.name, v)

    def x_Global(self, st):
        self.fr.globals.update(st.names)

    def x_Nonlocal(self, st):
        self.fr.nonlocals.update(st.names)

    def x_FunctionDef(self, st):
        f = self.make_fn(st, st.name)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(self.eval(d), v)
        self.assign_name(st.name, v)

    def decorate(self, d, v):
        if isinstance(d, BCls) and d.name == "property":
            return PropV(v)
        if isinstance(d, BCls) and d.name == "staticmethod":
            return StaticV(v)
        if isinstance(d, BCls) and d.name == "classmethod":
            return ClassMV(v)
        if isinstance(d, Bi) and d.name in ("abc.abstractmethod", "functools.wraps_id"):
            return v
        return self.call(d, [v], {})

    def make_fn(self, node, name):
        a = node.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = [self.eval(d) if d is not None else None for d in a.kw_defaults]
        encl = []
        if self.fr.fn is not None or self.fr.cls is not None:
            encl = [self.fr.env] + self.fr.encl
            if getattr(self.fr, "classbody", False):
                encl = self.fr.encl
        cls = self.fr.cls
        f = Fn(node, encl, self.fr.mod, name, cls, defaults, kwd)
        return f

    def x_ClassDef(self, st):
        bases = []
        for b in st.bases:
            v = self.eval(b)
            if isinstance(v, (ClassObj, BCls)):
                bases.append(v)
            elif isinstance(v, Bi) and v.name.split(".")[-1] in ("ABC", "Mapping"):
                bases.append(BCls("object"))
            else:
                raise Unsup("base class %r" % (v,))
        if not bases:
            bases = [BCls("object")]
        ns = {}
        fr = Frame(self.fr.fn, ns, ([self.fr.env] + self.fr.encl) if self.fr.fn is not None else [], self.fr.mod, name=st.name)
        fr.classbody = True
        cell = [None]
        fr.cls = cell
        saved = self.fr
        fr.node = st
        self.fr = fr
        try:
            self.exec_block(st.body)
        finally:
            self.fr = saved
        c = ClassObj(st.name, self.fr.mod, bases, ns, st)
        cell[0] = c
        if self.fr.node is st:
            pass
        v = c
        for d in reversed(st.decorator_list):
            v = self.call(self.eval(d), [v], {})
        self.assign_name(st.name, v)

    def x_Return(self, st):
        v = NONE if st.value is None else self.eval(st.value)
        self.fr.rets.append((self.snap(), v))
        raise PathDead()

    def x_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def x_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def x_AugAssign(self, st):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            old = self.load_name(t.id)
            v = self.aug(op, old, self.eval(st.value))
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(op, old, self.eval(st.value)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            old = self.getitem(o, k)
            self.setitem(o, k, self.aug(op, old, self.eval(st.value)))
        else:
            raise Unsup("augmented target")

    def aug(self, op, old, v):
        if op == "Add" and isinstance(old, (Ref, View)):
            o = self.obj(old)
            if clsname(o.cls) == "list" or (isinstance(o.cls, ClassObj) and o.cls.builtin_base() == "list"):
                self.lib.method(self, old, "extend", [v], {})
                return old
        return self.binop(op, old, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.setitem(o, self.eval_index(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            raise Unsup("starred target")
        else:
            raise Unsup("assignment target")

    def unpack(self, elts, v):
        if isinstance(v, VIte):
            a, b = v.a, v.b
            if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
                v = self.merge(v.c, a, b)
            else:
                def side(x):
                    self.unpack(elts, x)
                    return NONE
                self.branch(v.c, lambda: side(a), lambda: side(b))
                return
        if isinstance(v, T) and v.op not in ("lst", "tup"):
            if any(isinstance(e, ast.Starred) for e in elts):
                raise Unsup("starred unpack")
            for i, e in enumerate(elts):
                self.assign(e, at(v, const(i)))
            return
        ss = self.elems(v)
        if any(isinstance(e, ast.Starred) for e in elts):
            k = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)][0]
            after = len(elts) - k - 1
            if all(isinstance(s, SEl) for s in ss):
                vals = [self.lift(s.v) for s in ss]
                if len(vals) < len(elts) - 1:
                    self.err("ValueError", "not enough values to unpack")
                for e, x in zip(elts[:k], vals[:k]):
                    self.assign(e, x)
                self.assign(elts[k].value, self.new("list", [SEl(x) for x in vals[k:len(vals) - after]]))
                for e, x in zip(elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(e, x)
                return
            raise Unsup("starred unpack")
        if all(isinstance(s, SEl) for s in ss):
            if len(ss) != len(elts):
                self.err("ValueError", "cannot unpack %d values into %d targets" % (len(ss), len(elts)))
            for e, s in zip(elts, ss):
                self.assign(e, self.lift(s.v))
            return
        n = self.seg_len(ss)
        if n is not None:
            self.may_raise(not_(eq(n, const(len(elts)))), "ValueError", "unpack length")
        for i, e in enumerate(elts):
            self.assign(e, self.lift(self.seg_index(ss, const(i))))

    def assign_name(self, name, v):
        if name in self.fr.globals:
            self.event("globalwrite", name)
            self.fr.mod.env[name] = v
            return
        if name in self.fr.nonlocals:
            for e in self.fr.encl:
                if name in e:
                    e[name] = v
                    return
        self.fr.env[name] = v

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.eval(t.value), self.eval_index(t.slice)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                ob = self.obj(o)
                if ob is None:
                    raise Unsup("delete attribute")
                self.mutated(o, "attribute %s deleted" % t.attr)
                at2 = dict(ob.attrs)
                if t.attr not in at2:
                    self.err("AttributeError", t.attr)
                del at2[t.attr]
                self.setobj(o, ob.but(attrs=at2))

    def delitem(self, o, k):
        ob = self.obj(o)
        if ob is None:
            raise Unsup("delete item")
        self.mutated(o, "item deleted")
        cn = clsname(ob.cls)
        if cn == "dict":
            if all(isinstance(s, DSet) and isconst(s.k) for s in ob.segs) and isconst(k):
                self.setobj(o, ob.but(segs=[s for s in ob.segs if s.k is not k]))
            else:
                self.setobj(o, ob.but(segs=ob.segs + (DDel(k),)))
        else:
            self.setobj(o, ob.but(segs=(SOp(fn("delitem", self.reify_segs(ob.segs), self.reify(k))),)))

    def x_If(self, st):
        c = self.truth(self.eval(st.test))
        self.branch(c, lambda: self.exec_block(st.body), lambda: self.exec_block(st.orelse))

    def x_Assert(self, st):
        c = self.truth(self.eval(st.test))
        self.may_raise(not_(c), "AssertionError", "assert", explicit=True)

    def x_Raise(self, st):
        if st.exc is None:
            e = self.fr.env.get("$exc")
            if isinstance(e, ExcV):
                self.may_raise(TRUE, e.cls, "re-raise", explicit=True, args=e.args)
            raise PathDead()
        v = self.eval(st.exc)
        msg = ""
        cls = None
        args = []
        if isinstance(v, ExcV):
            cls, args = v.cls, v.args
        elif isinstance(v, (BCls, ClassObj)):
            cls = v
        elif isinstance(v, Ref) and isinstance(self.obj(v).cls, ClassObj):
            cls = self.obj(v).cls
        else:
            self.err("TypeError", "exceptions must derive from BaseException")
        if isinstance(cls, BCls) and cls.name not in _EXC:
            self.err("TypeError", "exceptions must derive from BaseException")
        if args and isinstance(args[0], T) and isconst(args[0]):
            msg = str(cval(args[0]))
        self.may_raise(TRUE, cls.name if isinstance(cls, BCls) else cls, msg, explicit=True, args=args)
        raise PathDead()

    def x_For(self, st):
        it = self.eval(st.iter)
        ss = self.elems(it)

        def body(v):
            self.assign(st.target, v)
            self.exec_block(st.body)
        alive, ctx = self.run_for(ss, body, bool(st.orelse))
        if st.orelse:
            if alive:
                try:
                    self.exec_block(st.orelse)
                except PathDead:
                    alive = False
        self.end_for(alive, ctx)

    def x_While(self, st):
        from .loops import run_while
        run_while(self, st)

    def x_Break(self, st):
        self.fr.loops[-1].brks.append(self.snap())
        raise PathDead()

    def x_Continue(self, st):
        self.fr.loops[-1].conts.append(self.snap())
        raise PathDead()

    def x_With(self, st, k=0):
        if k == len(st.items):
            return self.exec_block(st.body)
        it = st.items[k]
        e = it.context_expr
        if isinstance(e, ast.Call) and not e.keywords:
            f = self.eval(e.func)
            if isinstance(f, Bi) and f.name == "contextlib.suppress":
                body = list(st.body)
                if k + 1 < len(st.items):
                    body = [ast.copy_location(ast.With(items=st.items[k + 1:], body=st.body), st)]
                h = ast.copy_location(ast.ExceptHandler(type=ast.copy_location(ast.Tuple(elts=list(e.args), ctx=ast.Load()), e), name=None,
                                                        body=[ast.copy_location(ast.Pass(), st)]), st)
                return self.x_Try(ast.copy_location(ast.Try(body=body, handlers=[h], orelse=[], finalbody=[]), st))
        v = self.eval(e)
        if isinstance(v, Ref) and isinstance(self.heap[v.loc].cls, ClassObj):
            raise Unsup("context manager of a class")
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        self.x_With(st, k + 1)

    def x_Try(self, st):
        classes = []
        hs = []
        for h in st.handlers:
            if h.type is None:
                cl = [None]
            else:
                v = self.eval(h.type)
                cl = list(v.items) if isinstance(v, Tup) else [v]
            hs.append((cl, h))
            classes += cl
        tf = TryFrame(self.fr, classes)
        nrets = len(self.fr.rets)
        self.trys.append(tf)
        alive = True
        try:
            self.exec_block(st.body)
        except PathDead:
            alive = False
        finally:
            self.trys.pop()
        if alive and st.orelse:
            try:
                self.exec_block(st.orelse)
            except PathDead:
                alive = False
        states = []
        normal = self.snap() if alive else None
        for r in tf.recs:
            for cl, h in hs:
                if any(exc_match(r.exc[0], c) for c in cl):
                    self.restore(r.state)
                    ev = ExcV(BCls(r.exc[0]) if isinstance(r.exc[0], str) else r.exc[0], r.exc[1] or [])
                    self.fr.env["$exc"] = ev
                    if h.name:
                        self.fr.env[h.name] = ev
                    try:
                        self.exec_block(h.body)
                        if h.name:
                            self.fr.env.pop(h.name, None)
                        self.fr.env.pop("$exc", None)
                        states.append((self.snap(), None))
                    except PathDead:
                        pass
                    break
        if normal is not None:
            states.append((normal, None))
        if not states:
            if st.finalbody:
                pass
            raise PathDead()
        self.join_states(states)
        if st.finalbody:
            self.exec_block(st.finalbody)

    # ----------------------------------------------------------- expressions
    def eval(self, e):
        self.budget -= 1
        if self.budget < 0:
            raise Unsup("budget")
        return getattr(self, "e_" + type(e).__name__, self.e_unknown)(e)

    def e_unknown(self, e):
        raise Unsup("expression " + type(e).__name__)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            raise Unsup("ellipsis")
        return const(e.value)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value)
                parts.append(self.tostr(x) if v.format_spec is None and v.conversion in (-1, 115) else fn("fmt", self.reify(x)))
        r = const("")
        for p in parts:
            r = p if r is const("") else add(r, p)
        return r

    def tostr(self, x):
        if isinstance(x, T) and kind(x) == "str":
            return x
        if isinstance(x, T) and isconst(x):
            return const(str(cval(x)))
        if isinstance(x, VIte):
            return ite(x.c, self.tostr(x.a), self.tostr(x.b))
        if isinstance(x, BCls):
            return const("<class '%s'>" % {"defaultdict": "collections.defaultdict"}.get(x.name, x.name))
        if isinstance(x, ClassObj):
            return const("<class '%s.%s'>" % (x.mod.name, x.name))
        if isinstance(x, FObj) and hasattr(x, "clsrepr"):
            return const(x.clsrepr())
        try:
            return fn("str", self.reify(x))
        except Unsup:
            return fn("fmt", const(repr(type(x).__name__)))

    def e_Name(self, e):
        return self.load_name(e.id)

    def load_name(self, name):
        fr = self.fr
        v = fr.env.get(name, UNDEF) if name not in fr.globals else UNDEF
        if v is UNDEF and name not in fr.globals:
            if fr.fn is not None and name in self.local_names(fr):
                self.err("UnboundLocalError", "local variable %r referenced before assignment" % name)
            for x in fr.encl:
                if name in x:
                    v = x[name]
                    break
        if v is UNDEF:
            v = fr.mod.env.get(name, UNDEF)
        if v is UNDEF:
            v = self.bi.get(name, UNDEF)
        if v is UNDEF:
            self.err("NameError", "name %r is not defined" % name)
        return self.defined(v, "UnboundLocalError", "local variable %r referenced before assignment" % name)

    def defined(self, v, exc, msg):
        if isinstance(v, VIte):
            if isinstance(v.a, Undef):
                c = v.c
                if self.implied(not_(c)):
                    return self.defined(v.b, exc, msg)
                self.may_raise(c, exc, msg)
                return self.defined(v.b, exc, msg)
            if isinstance(v.b, Undef):
                if self.implied(v.c):
                    return self.defined(v.a, exc, msg)
                self.may_raise(not_(v.c), exc, msg)
                return self.defined(v.a, exc, msg)
            # a known path condition selects one side
            if self.implied(v.c):
                return self.defined(v.a, exc, msg)
            if self.implied(not_(v.c)):
                return self.defined(v.b, exc, msg)
            a = self.defined(v.a, exc, msg) if has_undef(v.a) else v.a
            b = self.defined(v.b, exc, msg) if has_undef(v.b) else v.b
            if a is not v.a or b is not v.b:
                return self.merge(v.c, a, b)
        return v

    def implied(self, c):
        if c is TRUE:
            return True
        p = self.pcset()
        if c in p or c in self.assume:
            return True
        if c.op == "and":
            return all(x in p or x in self.assume for x in c.args)
        if c.op == "or":
            return any(x in p or x in self.assume for x in c.args)
        return False

    def local_names(self, fr):
        if fr.locals is None:
            s = set()
            node = fr.fn.node
            if isinstance(node, ast.Lambda):
                fr.locals = s
                return s
            glob = set()

            def visit(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        s.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                        s.add(c.id)
                    if isinstance(c, (ast.Global, ast.Nonlocal)):
                        glob.update(c.names)
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        s.add(c.name)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for a in c.names:
                            s.add((a.asname or a.name).split(".")[0])
                    visit(c)
            visit(node)
            fr.locals = s - glob
        return fr.locals

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign_name(e.target.id, v)
        return v

    def e_Tuple(self, e):
        return Tup(self.star_list(e.elts))

    def star_list(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                ss = self.elems(self.eval(x.value))
                if not all(isinstance(s, SEl) for s in ss):
                    raise Unsup("star of symbolic length")
                out += [self.lift(s.v) for s in ss]
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        ss = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ss += list(self.elems(self.eval(x.value)))
            else:
                ss.append(SEl(self.eval(x)))
        return self.new("list", ss)

    def e_Set(self, e):
        return self.new("set", [SEl(self.eval(x)) for x in e.elts])

    def e_Dict(self, e):
        ss = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v)
                o = self.obj(d)
                if o is not None and clsname(o.cls) == "dict":
                    ss += list(o.segs)
                else:
                    ss.append(SOp(self.reify(d)))
            else:
                kk = self.eval(k)
                ss.append(DSet(kk, self.eval(v)))
        return self.new("dict", ss)

    def e_Lambda(self, e):
        return self.make_fn(e, "<lambda>")

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                r = self.branch(c, lambda: go(i + 1), lambda: v)
            else:
                r = self.branch(c, lambda: v, lambda: go(i + 1))
            return r
        r = go(0)
        return self.simplify_bool(r, e)

    def simplify_bool(self, r, e):
        # ite(c, x, c) with boolean c and x is c and x
        if isinstance(r, T) and r.op == "ite" and kind(r) == "bool":
            c, a, b = r.args
            if isinstance(e.op, ast.And) and b is c and kind(c) == "bool":
                return and_(c, a)
            if isinstance(e.op, ast.And) and b is FALSE:
                return and_(c, a)
            if isinstance(e.op, ast.Or) and a is c and kind(c) == "bool":
                return or_(c, b)
            if isinstance(e.op, ast.Or) and a is TRUE:
                return or_(c, b)
            # branch() normalises negated conditions
            if isinstance(e.op, ast.And) and kind(a) == "bool" and a is not_(c):
                return and_(a, b)
            if isinstance(e.op, ast.Or) and kind(b) == "bool" and b is not_(c):
                return or_(b, a)
        return r

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        v = self.scalar(v)
        if isinstance(e.op, ast.USub):
            if kind(v) in ("str", "list", "dict", "none"):
                self.err("TypeError", "bad operand for unary -")
            return mk("neg", (v,))
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("inv", (v,))

    _OPN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "FloorDiv": "floordiv", "Mod": "mod",
            "Pow": "pow", "BitOr": "bor", "BitAnd": "band", "BitXor": "bxor", "LShift": "shl", "RShift": "shr"}

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def is_list(self, v):
        if isinstance(v, (Ref, View, Frz)):
            o = self.obj(v)
            return o is not None and (clsname(o.cls) in ("list", "tuple", "range") or (isinstance(o.cls, ClassObj) and o.cls.builtin_base() == "list"))
        return False

    def binop(self, op, a, b):
        if isinstance(a, VIte):
            return self.branch(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, VIte):
            return self.branch(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        if isinstance(a, T) and op == "Mod" and kind(a) == "str":
            try:
                items = list(b.items) if isinstance(b, Tup) else [b]
                ts = [self.reify(x) for x in items]
            except Unsup:
                return fn("fmt", a)
            if isconst(a):
                return self.pctfmt(cval(a), ts)
            return fn("fmt", a, *ts)
        la, lb = self.is_list(a), self.is_list(b)
        if op == "Add" and (la or lb or isinstance(a, Tup) or isinstance(b, Tup)):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if la and (lb or (isinstance(b, T) and kind(b) in ("list", None))):
                return self.new("list", self.copyel(self.elems(a)) + self.copyel(self.elems(b)))
            if lb and isinstance(a, T) and kind(a) in ("list", None):
                return self.new("list", self.copyel(self.elems(a)) + self.copyel(self.elems(b)))
            self.err("TypeError", "unsupported operand types for +")
        if op == "Mult" and (la or lb):
            l, n = (a, b) if la else (b, a)
            if not isinstance(n, T) or kind(n) in ("float", "str", "list", "none"):
                self.err("TypeError", "can't multiply sequence by non-int")
            ss = self.copyel(self.elems(l))
            if isconst(n):
                return self.new("list", ss * max(0, int(cval(n))))
            if not ss:
                return self.new("list", ())
            v = newidx(n)
            if kind(n) == "bool":
                return self.new("list", (SIf(n, ss, ()),))
            return self.new("list", (SFor(n, v, ss),))
        if op == "Mult" and isinstance(a, Tup) and isinstance(b, T) and isconst(b):
            return Tup(a.items * cval(b))
        ob_a, ob_b = self.obj(a) if isinstance(a, (Ref, View)) else None, self.obj(b) if isinstance(b, (Ref, View)) else None
        for o, x, y, pre in ((ob_a, a, b, "__"), (ob_b, b, a, "__r")):
            if o is not None and isinstance(o.cls, ClassObj):
                nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv"}.get(op)
                c, m = o.cls.lookup("%s%s__" % (pre, nm))
                if m is not None:
                    return self.call(self.getattr(x, "%s%s__" % (pre, nm)), [y], {})
        if isinstance(a, FObj) or isinstance(b, FObj):
            r = self.lib.foreign_binop(self, op, a, b)
            if r is not None:
                return r
        cn_a = clsname(ob_a.cls) if ob_a else None
        if cn_a in ("set", "frozenset") and op in ("Sub", "BitOr", "BitAnd"):
            t = fn({"Sub": "setsub", "BitOr": "setor", "BitAnd": "setand"}[op], self.reify(a), self.reify(b))
            return self.new("set", (SOp(t),))
        if ob_a is not None or ob_b is not None or isinstance(a, Tup) or isinstance(b, Tup):
            if op == "BitOr" and cn_a == "dict":
                return self.new("dict", ob_a.segs + (ob_b.segs if ob_b else (SOp(self.reify(b)),)))
            self.err("TypeError", "unsupported operand types for %s: %s" % (op, self.tyname(a) + " and " + self.tyname(b)))
        if not isinstance(a, T) or not isinstance(b, T):
            for x in (a, b):
                if not isinstance(x, T):
                    self.err("TypeError", "unsupported operand %s for %s" % (self.tyname(x), op))
        ka, kb = kind(a), kind(b)
        bad = ("none", "dict")
        if ka in bad or kb in bad:
            self.err("TypeError", "unsupported operand types for %s: %s and %s" % (op, ka, kb))
        numk = ("int", "float", "bool", "num")
        if op == "Add" and ((ka == "str" and kb in numk) or (kb == "str" and ka in numk)):
            self.err("TypeError", "can only concatenate str to str")
        if op in ("Sub", "Div", "Pow", "FloorDiv") and ("str" in (ka, kb) or "list" in (ka, kb)):
            self.err("TypeError", "unsupported operand types for %s: %s and %s" % (op, ka, kb))
        if op in ("Div", "FloorDiv", "Mod"):
            if self.caught("ZeroDivisionError"):
                self.may_raise(eq(b, ZERO), "ZeroDivisionError", "division by zero")
        if op == "Pow" and self.caught("OverflowError"):
            pass
        return mk(self._OPN[op], (a, b))

    def copyel(self, ss):
        return tuple(ss)

    def pctfmt(self, f, ts):
        # only %s of strings is kept exact
        parts = f.split("%s")
        if len(parts) == len(ts) + 1 and "%" not in f.replace("%s", "") and all(kind(t) == "str" for t in ts):
            r = const(parts[0])
            for p, t in zip(parts[1:], ts):
                r = t if (isconst(r) and cval(r) == "") else add(r, t)
                if p:
                    r = add(r, const(p))
            return r
        return fn("pct", const(f), *ts)

    def tyname(self, v):
        if isinstance(v, T):
            return kind(v) or "value"
        o = self.obj(v) if isinstance(v, (Ref, View, Frz)) else None
        if o is not None:
            return clsname(o.cls)
        return type(v).__name__

    def scalar(self, v):
        """value as a term for arithmetic"""
        if isinstance(v, T):
            return v
        if isinstance(v, VIte):
            return self.reify(v)
        if isinstance(v, FObj):
            r = v.scalar(self)
            if r is not None:
                return r
        self.err("TypeError", "bad operand %s" % self.tyname(v))

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            r = self.compare(type(op).__name__, left, right)
            res = r if res is None else and_(self.truth(res), self.truth(r))
            left = right
        return res

    def ident(self, a, b):
        """is a the same object as b: TRUE/FALSE/term"""
        if isinstance(a, VIte):
            return ite(a.c, self.ident(a.a, b), self.ident(a.b, b))
        if isinstance(b, VIte):
            return ite(b.c, self.ident(a, b.a), self.ident(a, b.b))
        if isinstance(a, T) and isinstance(b, T):
            ka, kb = kind(a), kind(b)
            if ka == "none" or kb == "none":
                if ka == kb:
                    return TRUE
                if ka is not None and kb is not None:
                    return FALSE
                x = a if kb == "none" else b
                return eq(x, NONE)
            if ka == "bool" and kb == "bool":
                return eq(a, b)
            return fn("is", a, b) if a is not b else TRUE
        if isinstance(a, T) or isinstance(b, T):
            return FALSE
        if isinstance(a, (Ref, View)) and isinstance(b, (Ref, View)):
            if a == b:
                return TRUE
            if isinstance(a, View) and isinstance(b, View) and a.parent == b.parent and isinstance(a.key, T) and isinstance(b.key, T):
                return eq(a.key, b.key)
            return FALSE
        if a is b:
            return TRUE
        try:
            return TRUE if a == b else FALSE
        except Exception:
            return FALSE

    def compare(self, op, a, b):
        if op == "Is":
            return self.ident(a, b)
        if op == "IsNot":
            return not_(self.ident(a, b))
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if isinstance(r, FObj):
                return r
            return r if op == "Eq" else not_(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else not_(r)
        if isinstance(a, VIte) or isinstance(b, VIte):
            x = a if isinstance(a, VIte) else b
            if x is a:
                return self.branch(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
            return self.branch(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        seqs = (Tup, Ref, View)
        if isinstance(a, seqs) or isinstance(b, seqs):
            if isinstance(a, T) and kind(a) in ("int", "float", "num", "str", "bool", "none") or \
                    isinstance(b, T) and kind(b) in ("int", "float", "num", "str", "bool", "none"):
                self.err("TypeError", "'%s' not supported between %s and %s" % (op, self.tyname(a), self.tyname(b)))
            a, b = self.reify(a), self.reify(b)
        else:
            a, b = self.scalar(a), self.scalar(b)
        num = ("int", "float", "num", "bool")
        ka, kb = kind(a), kind(b)
        if "none" in (ka, kb) or (ka == "str" and kb in num) or (kb == "str" and ka in num):
            self.err("TypeError", "'%s' not supported between %s and %s" % (op, ka, kb))
        if op == "Lt":
            return lt(a, b)
        if op == "LtE":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        return le(b, a)

    def equal(self, a, b):
        if isinstance(a, VIte):
            return ite(a.c, self.equal(a.a, b), self.equal(a.b, b))
        if isinstance(b, VIte):
            return ite(b.c, self.equal(a, b.a), self.equal(a, b.b))
        if isinstance(a, FObj):
            r = a.eq(self, b) if hasattr(a, "eq") else FALSE
            return r
        if isinstance(b, FObj):
            return b.eq(self, a) if hasattr(b, "eq") else FALSE
        if isinstance(a, T) and isinstance(b, T):
            return eq(a, b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return and_(*[self.equal(x, y) for x, y in zip(a.items, b.items)])
        objs = (Ref, View, Tup)
        if isinstance(a, objs) and isinstance(b, objs):
            if a == b and not isinstance(a, Tup):
                return TRUE
            oa, ob = self.obj(a) if not isinstance(a, Tup) else None, self.obj(b) if not isinstance(b, Tup) else None
            for o, x, y in ((oa, a, b), (ob, b, a)):
                if o is not None and isinstance(o.cls, ClassObj) and not o.cls.builtin_base():
                    c, m = o.cls.lookup("__eq__")
                    if m is None:
                        return FALSE
                    return self.truth(self.call(self.getattr(x, "__eq__"), [y], {}))
            return eq(self.reify(a), self.reify(b))
        if isinstance(a, objs) or isinstance(b, objs):
            o, x = (a, b) if isinstance(a, objs) else (b, a)
            ob = self.obj(o) if not isinstance(o, Tup) else None
            if ob is not None and isinstance(ob.cls, ClassObj) and not ob.cls.builtin_base():
                return FALSE
            if isinstance(x, T) and kind(x) in ("list", "dict", "tuple", None, "set"):
                return eq(self.reify(o), x)
            return FALSE
        if a is b:
            return TRUE
        if (isinstance(a, T) and isinstance(b, (BCls, ClassObj)) and kind(a) in (None, "obj")) or \
                (isinstance(b, T) and isinstance(a, (BCls, ClassObj)) and kind(b) in (None, "obj")):
            return eq(self.reify(a), self.reify(b))
        try:
            return TRUE if a == b else FALSE
        except Exception:
            return FALSE

    def contains(self, c, x):
        if isinstance(c, VIte):
            return ite(c.c, self.truth(self.contains(c.a, x)), self.truth(self.contains(c.b, x)))
        if isinstance(c, Tup):
            return or_(*[or_(self.truth(self.equal(x, y)), self.ident(x, y) if not isinstance(x, T) else FALSE) for y in c.items])
        if isinstance(c, (Ref, View)):
            o = self.obj(c)
            cn = clsname(o.cls)
            b = cn if isinstance(o.cls, str) else (o.cls.builtin_base() or "")
            if b in ("dict", "defaultdict"):
                if isinstance(x, T) and kind(x) in ("list", "dict"):
                    self.err("TypeError", "unhashable type")
                f = self.dict_find(o, x)
                if f is not None:
                    return FALSE if f is UNDEF else TRUE
                return mk("in", (self.reify(x), self.reify_dsegs(o.segs)))
            if isinstance(o.cls, ClassObj) and not b:
                c2, m = o.cls.lookup("__contains__")
                if m is not None:
                    return self.call(self.getattr(c, "__contains__"), [x], {})
                self.err("TypeError", "argument of type %s is not iterable" % cn)
            if all(isinstance(s, SEl) for s in o.segs):
                return or_(*[self.truth(self.equal(x, s.v)) for s in o.segs])
            if b == "iter":
                raise Unsup("in iterator")
            return mk("in", (self.reify(x), self.reify_obj(o)))
        if isinstance(c, T):
            if kind(c) in ("int", "float", "none", "bool", "num"):
                self.err("TypeError", "argument of type %s is not iterable" % kind(c))
            return mk("in", (self.reify(x), c))
        if isinstance(c, FObj):
            return c.contains(self, x)
        self.err("TypeError", "argument is not iterable")

    def truth(self, v):
        if isinstance(v, T):
            return v if kind(v) == "bool" else fn("bool", v)
        if isinstance(v, Tup):
            return const(bool(v.items))
        if isinstance(v, VIte):
            if isinstance(v.a, Undef) or isinstance(v.b, Undef):
                v2 = self.defined(v, "UnboundLocalError", "undefined")
                return self.truth(v2)
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (Ref, View)):
            o = self.obj(v)
            cn = clsname(o.cls)
            b = cn if isinstance(o.cls, str) else (o.cls.builtin_base() or "")
            if isinstance(o.cls, ClassObj):
                for m in ("__bool__", "__len__"):
                    c, f = o.cls.lookup(m)
                    if f is not None:
                        return self.truth(self.call(self.getattr(v, m), [], {}))
                if not b:
                    return TRUE
            if b == "iter":
                return TRUE
            n = self.length(v)
            return lt(ZERO, n)
        if isinstance(v, FObj):
            return v.truth(self)
        return TRUE

    def length(self, v):
        if isinstance(v, VIte):
            return ite(v.c, self.length(v.a), self.length(v.b))
        if isinstance(v, Tup):
            return const(len(v.items))
        if isinstance(v, (Ref, View, Frz)):
            o = self.obj(v)
            cn = clsname(o.cls)
            if isinstance(o.cls, ClassObj):
                c, f = o.cls.lookup("__len__")
                if f is not None:
                    return self.scalar(self.call(self.getattr(v, "__len__"), [], {}))
                b = o.cls.builtin_base()
                if not b:
                    self.err("TypeError", "object of type %s has no len()" % cn)
                cn = b
            if cn == "iter":
                self.err("TypeError", "object of type iterator has no len()")
            if cn in ("dict", "defaultdict"):
                if all(isinstance(s, DSet) and (isconst(s.k) or isinstance(s.k, Tup)) for s in o.segs):
                    return const(len({s.k for s in o.segs}))
                if len(o.segs) == 1 and isinstance(o.segs[0], SFor) and self.distinct_keys(o.segs[0]) and \
                        len(o.segs[0].segs) == 1 and isinstance(o.segs[0].segs[0], DSet):
                    return o.segs[0].n
                return fn("len", self.reify_dsegs(o.segs))
            if cn in ("set", "frozenset"):
                return fn("len", self.reify_obj(o))
            n = self.seg_len(o.segs)
            return n if n is not None else fn("len", self.reify_segs(o.segs))
        if isinstance(v, T):
            if kind(v) in ("int", "float", "num", "bool", "none"):
                self.err("TypeError", "object of type %s has no len()" % kind(v))
            return fn("len", v)
        if isinstance(v, FObj):
            return v.length(self)
        self.err("TypeError", "object %s has no len()" % self.tyname(v))

    # subscripts -----------------------------------------------------------
    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return ("slice",) + tuple(self.eval(x) if x is not None else None for x in (s.lower, s.upper, s.step))
        if s.__class__.__name__ == "Index":
            return self.eval(s.value)
        return self.eval(s)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(o, VIte):
            return self.branch(o.c, lambda: self.getitem(o.a, k), lambda: self.getitem(o.b, k))
        if isinstance(k, VIte):
            return self.branch(k.c, lambda: self.getitem(o, k.a), lambda: self.getitem(o, k.b))
        if isinstance(o, FObj):
            return o.item(self, k)
        if isinstance(k, FObj):
            k = self.scalar(k)
        if isinstance(o, Frz):
            o = self.lift(o)
        if isinstance(k, tuple) and k and k[0] == "slice":
            return self.slice(o, k)
        if isinstance(o, Tup):
            if isinstance(k, T) and isconst(k) and isinstance(cval(k), int):
                if not -len(o.items) <= cval(k) < len(o.items):
                    self.err("IndexError", "tuple index out of range")
                return o.items[cval(k)]
            if isinstance(k, T):
                return self.lift(self.seg_index(tuple(SEl(x) for x in o.items), k))
        if isinstance(o, (Ref, View)):
            ob = self.obj(o)
            cn = clsname(ob.cls)
            b = cn if isinstance(ob.cls, str) else (ob.cls.builtin_base() or "")
            if isinstance(ob.cls, ClassObj):
                c, m = ob.cls.lookup("__getitem__")
                if m is not None:
                    return self.call(self.getattr(o, "__getitem__"), [k], {})
                if not b:
                    self.err("TypeError", "%s object is not subscriptable" % cn)
            if b in ("dict", "defaultdict"):
                return self.dict_get(o, ob, k)
            if b in ("list", "tuple", "range", "bytes", "bytearray"):
                if not isinstance(k, T) or kind(k) in ("str", "float", "none", "list", "dict", "tuple"):
                    self.err("TypeError", "list indices must be integers, not %s" % self.tyname(k))
                n = self.seg_len(ob.segs)
                if n is not None:
                    g = not_(lt(k, n))
                    if isconst(k) and cval(k) < 0:
                        g = lt(n, const(-cval(k)))
                    if g is TRUE:
                        self.err("IndexError", "list index out of range")
                    if self.caught("IndexError"):
                        self.may_raise(g, "IndexError", "list index out of range")
                v = self.seg_index(ob.segs, k)
                if isinstance(v, Frz) or (isinstance(v, T) and self.objelem(v)):
                    return View(o, "idx", add(n, k) if isconst(k) and cval(k) < 0 and n is not None else k)
                return v
            self.err("TypeError", "'%s' object is not subscriptable" % cn)
        if isinstance(o, T):
            ko = kind(o)
            if ko in ("int", "float", "bool", "none", "num", "set"):
                self.err("TypeError", "'%s' object is not subscriptable" % ko)
            kt = self.reify(k)
            if ko == "dict":
                if self.caught("KeyError"):
                    self.may_raise(not_(mk("in", (kt, o))), "KeyError", "key")
            elif self.caught("IndexError") and kind(kt) == "int":
                self.may_raise(not_(lt(kt, fn("len", o))), "IndexError", "index")
            return at(o, kt)
        if isinstance(o, (Fn, BoundM, Bi, ClassObj, BCls)):
            self.err("TypeError", "%r object is not subscriptable" % (o,))
        raise Unsup("subscript of %r" % (o,))

    def dict_get(self, o, ob, k):
        if isinstance(k, (Ref, View)):
            cn = clsname(self.obj(k).cls)
            if cn in ("list", "dict", "set"):
                self.err("TypeError", "unhashable type: %s" % cn)
        f = self.dict_find(ob, k)
        if f is not None:
            if f is UNDEF:
                if clsname(ob.cls) == "defaultdict":
                    v = self.call(ob.attrs["$factory"], [], {})
                    self.setitem(o, k, v)
                    return v
                self.err("KeyError", "key %r" % (k,))
            if isinstance(f, Frz):
                return View(o, "key", k)
            return f
        kt = self.reify(k)
        vals = [s.v for s in ob.segs if isinstance(s, DSet)]
        if vals and any(not isinstance(x, (T, Tup)) for x in vals):
            if all(isinstance(s, DSet) and isconst(s.k) for s in ob.segs):
                # symbolic key into a constant table of objects
                r = ob.segs[-1].v
                for s in reversed(ob.segs[:-1]):
                    r = self.merge(eq(kt, s.k), s.v, r)
                return self.lift(r)
        d = self.reify_dsegs(ob.segs)
        if clsname(ob.cls) == "defaultdict":
            z = self.call(ob.attrs["$factory"], [], {})
            return fn("dget", d, kt, self.reify(z))
        if self.caught("KeyError"):
            self.may_raise(not_(mk("in", (kt, d))), "KeyError", "key")
        return at(d, kt)

    def slice(self, o, k):
        lo, hi, st = k[1], k[2], k[3]
        if isinstance(o, T):
            if kind(o) in ("int", "float", "bool", "none", "num", "dict"):
                self.err("TypeError", "'%s' object is not subscriptable" % kind(o))
            if o.op != "lst":
                g = lambda x: NONE if x is None else self.scalar(x)
                r = fn("slice", o, g(lo), g(hi), g(st))
                if kind(o) in ("str", "list", "bytes"):
                    r.kindc = kind(o)
                return r
        if isinstance(o, Tup):
            try:
                sl = slice(*[None if x is None or x is NONE else cval(x) for x in (lo, hi, st)])
                return Tup(o.items[sl])
            except Exception:
                raise Unsup("tuple slice")
        ob = self.obj(o) if isinstance(o, (Ref, View)) else None
        if ob is not None:
            b = clsname(ob.cls) if isinstance(ob.cls, str) else (ob.cls.builtin_base() or clsname(ob.cls))
            if b not in ("list", "tuple", "range", "bytes", "bytearray"):
                self.err("TypeError", "unhashable/unsubscriptable slice of %s" % clsname(ob.cls))
            ss = self.annot(o, ob.segs)
        else:
            ss = self.elems(o)
        out = self.slice_segs(ss, lo, hi, st)
        return self.new("list" if ob is None or not isinstance(ob.cls, str) or ob.cls != "tuple" else "tuple", out)

    def slice_segs(self, ss, lo, hi, st):
        lo = None if lo is NONE else lo
        hi = None if hi is NONE else hi
        st = None if st is NONE else st
        cst = [x is None or isconst(x) for x in (lo, hi, st)]
        if all(cst) and all(isinstance(s, SEl) for s in ss):
            sl = slice(*[None if x is None else cval(x) for x in (lo, hi, st)])
            return tuple(ss)[sl]
        n = self.seg_len(ss)
        simple = len(ss) == 1 and isinstance(ss[0], SFor) and len(ss[0].segs) == 1 and isinstance(ss[0].segs[0], SEl)
        if st is not None and isconst(st) and cval(st) == -1 and lo is None and hi is None and n is not None:
            b = newidx(n)
            return (SFor(n, b, (SEl(self.seg_index(ss, sub(sub(n, ONE), b), False)),)),)
        if (st is None or (isconst(st) and cval(st) == 1)) and n is not None:
            a = ZERO if lo is None else self.scalar(lo)
            z = n if hi is None else self.scalar(hi)
            if isconst(a) and cval(a) < 0:
                a = add(n, a)
            if isconst(z) and cval(z) < 0:
                z = add(n, z)
            inr = le(ZERO, a) is TRUE and le(a, z) is TRUE and le(z, n) is TRUE
            if inr:
                m = sub(z, a)
                if isconst(a) and cval(a) > 0 and cval(a) <= len(ss) and all(isinstance(s, SEl) for s in ss[:cval(a)]) and z is n:
                    return tuple(ss[cval(a):])
                b = newidx(m)
                return (SFor(m, b, (SEl(self.seg_index(ss, add(a, b), False)),)),)
        g = lambda x: NONE if x is None else self.scalar(x)
        t = fn("slice", self.reify_segs(ss), g(lo), g(hi), g(st))
        t.kindc = "list"
        return (SOp(t),)

    # mutation ---------------------------------------------------------------
    def mutated(self, o, what):
        r = self.root_region(o)
        if r != "fresh":
            self.event("mutate", (r, what))

    def setitem(self, o, k, v):
        if isinstance(o, VIte):
            self.branch(o.c, lambda: self.setitem(o.a, k, v), lambda: self.setitem(o.b, k, v))
            return
        if isinstance(o, FObj):
            if hasattr(o, "set"):
                o.set(self, k, v)
                return
            self.event("mutate", ("foreign", "item assignment"))
            return
        ob = self.obj(o) if isinstance(o, (Ref, View)) else None
        if ob is None:
            if isinstance(o, T) and kind(o) in (None, "list", "dict"):
                self.event("mutate", ("unknown", "item assignment"))
                raise Unsup("store into opaque value")
            self.err("TypeError", "'%s' object does not support item assignment" % self.tyname(o))
        cn = clsname(ob.cls)
        b = cn if isinstance(ob.cls, str) else (ob.cls.builtin_base() or "")
        if isinstance(ob.cls, ClassObj):
            c, m = ob.cls.lookup("__setitem__")
            if m is not None:
                self.call(self.getattr(o, "__setitem__"), [k, v], {})
                return
        if b not in ("list", "dict", "defaultdict", "bytearray"):
            self.err("TypeError", "'%s' object does not support item assignment" % cn)
        self.mutated(o, "item assignment")
        ob = self.obj(o)
        if b in ("dict", "defaultdict"):
            if isinstance(v, T) and isinstance(k, T) and v.op == "add":
                d = self.reify_dsegs(ob.segs)
                g = fn("dget", d, k, ZERO)
                g2 = fn("dget", d, k, const(0.0))
                for p, q in ((0, 1), (1, 0)):
                    if v.args[p] is g or v.args[p] is g2:
                        self.setobj(o, ob.but(segs=ob.segs + (DAdd(k, v.args[q]),)))
                        return
            ss = ob.segs
            if isconst(k) and all(isinstance(s, DSet) and isconst(s.k) for s in ss):
                for i, s in enumerate(ss):
                    if s.k is k:
                        self.setobj(o, ob.but(segs=ss[:i] + (DSet(k, v),) + ss[i + 1:]))
                        return
            if ss and isinstance(ss[-1], DSet) and ss[-1].k is k:
                ss = ss[:-1]
            self.setobj(o, ob.but(segs=ss + (DSet(k, v),)))
            return
        if isinstance(k, tuple):
            if all(x is None or x is NONE for x in k[1:]):
                self.setobj(o, ob.but(segs=self.elems(v)))
                return
            raise Unsup("slice assignment")
        n = self.seg_len(ob.segs)
        if n is not None and isinstance(k, T) and lt(k, n) is FALSE:
            self.err("IndexError", "list assignment index out of range")
        self.setobj(o, ob.but(segs=self.seg_store(ob.segs, self.scalar(k), v)))

    def setattr(self, o, name, v):
        if isinstance(o, VIte):
            self.branch(o.c, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
            return
        if isinstance(o, FObj):
            self.event("mutate", ("foreign", "attribute %s assigned" % name))
            return
        if isinstance(o, Fn):
            o.attrs[name] = v
            return
        if isinstance(o, ClassObj):
            self.event("mutate", ("global", "class attribute %s.%s assigned" % (o.name, name)))
            o.ns[name] = v
            return
        ob = self.obj(o) if isinstance(o, (Ref, View)) else None
        if ob is None or not isinstance(ob.cls, ClassObj):
            if isinstance(o, (Mod,)):
                self.event("globalwrite", name)
                o.env[name] = v
                return
            self.err("AttributeError", "%s object has no attribute %r" % (self.tyname(o), name))
        c, d = ob.cls.lookup(name)
        if isinstance(d, PropV):
            self.err("AttributeError", "can't set attribute %r" % name)
        r = self.root_region(o)
        if r != "fresh":
            self.event("setattr", (r, name, clsname(ob.cls), self.describe(v), v))
        a2 = dict(ob.attrs)
        a2[name] = v
        self.setobj(o, ob.but(attrs=a2))

    def describe(self, v):
        return repr(v)[:120]

    # attributes ---------------------------------------------------------------
    def e_Attribute(self, e):
        o = self.eval(e.value)
        return self.getattr(o, e.attr)

    def getattr(self, o, name, default=None):
        """attribute load; default: value returned instead of AttributeError"""
        if isinstance(o, VIte):
            if has_undef(o):
                o = self.defined(o, "UnboundLocalError", "undefined value")
                return self.getattr(o, name, default)
            return self.branch(o.c, lambda: self.getattr(o.a, name, default), lambda: self.getattr(o.b, name, default))
        r = self.lookup_attr(o, name)
        if isinstance(r, VIte) and has_undef(r):
            if default is not None:
                return self.subst_undef(r, default)
            r = self.defined(r, "AttributeError", "%s object has no attribute %r" % (self.tyname(o), name))
            if isinstance(r, Undef):
                self.err("AttributeError", name)
        if r is None or isinstance(r, Undef):
            if default is not None:
                return default
            self.err("AttributeError", "%s object has no attribute %r" % (self.tyname(o), name))
        return r

    def subst_undef(self, v, d):
        if isinstance(v, Undef):
            return d
        if isinstance(v, VIte):
            return self.merge(v.c, self.subst_undef(v.a, d), self.subst_undef(v.b, d))
        return v

    def lookup_attr(self, o, name):
        if isinstance(o, (Ref, View)):
            ob = self.obj(o)
            if isinstance(ob.cls, ClassObj):
                c, d = ob.cls.lookup(name)
                if isinstance(d, PropV):
                    return self.call(d.fget, [o], {})
                if name in ob.attrs:
                    v = ob.attrs[name]
                    if isinstance(v, Frz):
                        return View(o, "attr", name)
                    return v
                if d is not None:
                    return self.bind(d, o, ob.cls)
                if name == "__class__":
                    return ob.cls
                if name == "__dict__":
                    return self.lib.bi_vars(self, [o], {})
                b = ob.cls.builtin_base()
                if b and self.lib.has_method(b, name):
                    return BoundM(Bi("m." + name), o)
                c, d = ob.cls.lookup("__getattr__")
                if d is not None:
                    return self.call(self.bind(d, o, ob.cls), [const(name)], {})
                return None
            if name in ob.attrs:
                return ob.attrs[name]
            if name == "__class__":
                return BCls(clsname(ob.cls))
            if self.lib.has_method(clsname(ob.cls), name):
                return BoundM(Bi("m." + name), o)
            self.lib.unmodelled(clsname(ob.cls), name)
            return None
        if isinstance(o, T):
            if self.lib.has_method(kind(o), name):
                return BoundM(Bi("m." + name), o)
            if name == "__class__":
                return self.lib.typeof(self, o)
            return self.lib.term_attr(self, o, name)
        if isinstance(o, Tup):
            if self.lib.has_method("tuple", name):
                return BoundM(Bi("m." + name), o)
            self.lib.unmodelled("tuple", name)
            return None
        if isinstance(o, Mod):
            v = o.env.get(name)
            if v is None:
                v = self.load(o.name + "." + name)
            return v
        if isinstance(o, StdMod):
            return self.lib.std_attr(self, o, name)
        if isinstance(o, ClassObj):
            if name == "__name__":
                return const(o.name)
            if name == "__module__":
                return const(o.mod.name)
            if name == "__qualname__":
                return const(o.name)
            c, d = o.lookup(name)
            if d is None:
                if name == "__new__":
                    return Bi("object.__new__")
                if o.builtin_base():
                    return Bi("%s.%s" % (o.builtin_base(), name))
                return None
            if isinstance(d, StaticV):
                return d.f
            if isinstance(d, ClassMV):
                return BoundM(d.f, o)
            if isinstance(d, Ref) and isinstance(self.obj(d).cls, ClassObj):
                cc, g = self.obj(d).cls.lookup("__get__")
                if g is not None:
                    return self.call(self.getattr(d, "__get__"), [NONE, o], {})
            return d
        if isinstance(o, SuperV):
            cls, obj = o.cls, o.obj
            mro = self.obj(obj).cls.mro
            i = mro.index(cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassObj) and name in c.ns:
                    d = c.ns[name]
                    if isinstance(d, PropV):
                        return self.call(d.fget, [obj], {})
                    return self.bind(d, obj, self.obj(obj).cls)
                if isinstance(c, BCls):
                    if name == "__init__":
                        return BoundM(Bi(c.name + ".__init__"), obj)
                    if self.lib.has_method(c.name, name):
                        return BoundM(Bi("m." + name), obj)
            return None
        if isinstance(o, BCls):
            return self.lib.cls_attr(self, o, name)
        if isinstance(o, FObj):
            return o.getattr(self, name)
        if isinstance(o, Fn):
            if name == "__name__":
                return const(o.name)
            if name == "__module__":
                return const(o.mod.name)
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__doc__", "__dict__", "__qualname__", "__wrapped__"):
                return NONE if name == "__doc__" else const("")
            if hasattr(type(Interp.getattr), name):
                raise Unsup("attribute %s of a function" % name)
            return None
        if isinstance(o, BoundM):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.fn
            if name == "__name__":
                return const(getattr(o.fn, "name", "").replace("m.", ""))
            return None
        if isinstance(o, Bi):
            if name == "__name__":
                return const(o.name.split(".")[-1])
            return self.lib.bi_attr(self, o, name)
        if isinstance(o, ExcV):
            if name == "args":
                return Tup(o.args)
            return None
        if isinstance(o, Partial):
            return {"func": o.f, "args": Tup(o.args)}.get(name)
        return None

    def bind(self, d, o, cls):
        if isinstance(d, (Fn, Bi)) and not (isinstance(d, Bi) and "." in d.name and d.name.split(".")[0] not in ("m",) and not d.name.startswith("operator.")):
            return BoundM(d, o)
        if isinstance(d, Fn):
            return BoundM(d, o)
        if isinstance(d, StaticV):
            return d.f
        if isinstance(d, ClassMV):
            return BoundM(d.f, cls)
        if isinstance(d, Ref) and isinstance(self.obj(d).cls, ClassObj):
            c, g = self.obj(d).cls.lookup("__get__")
            if g is not None:
                return self.call(BoundM(g, d), [o, cls], {})
        return d

    # calls ----------------------------------------------------------------------
    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = self.fr.cls
            while isinstance(cls, list):
                cls = cls[0]
            fr = self.fr
            node = fr.fn.node
            first = node.args.args[0].arg if node.args.args else None
            if first is None or cls is None:
                raise Unsup("super()")
            return SuperV(cls, fr.env[first])
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                ss = self.elems(v)
                if all(isinstance(s, SEl) for s in ss):
                    args += [self.lift(s.v) for s in ss]
                else:
                    args.append(StarArg(ss))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                o = self.obj(v) if isinstance(v, (Ref, View)) else None
                if o is None or not all(isinstance(s, DSet) and isconst(s.k) for s in o.segs):
                    raise Unsup("** of symbolic dict")
                for s in o.segs:
                    kw[cval(s.k)] = s.v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, VIte):
            if has_undef(f):
                return self.call(self.defined(f, "AttributeError", "undefined callable"), args, kw)
            return self.branch(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if isinstance(f, BoundM):
            if isinstance(f.fn, Bi) and f.fn.name.startswith("m."):
                return self.lib.method(self, f.self, f.fn.name[2:], args, kw)
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, ClassObj):
            return self.instantiate(f, args, kw)
        if isinstance(f, Bi):
            return self.lib.call_builtin(self, f, args, kw)
        if isinstance(f, BCls):
            return self.lib.call_class(self, f, args, kw)
        if isinstance(f, FObj):
            return f.call(self, args, kw)
        if isinstance(f, StaticV):
            return self.call(f.f, args, kw)
        if isinstance(f, (Ref, View)):
            o = self.obj(f)
            if isinstance(o.cls, ClassObj):
                c, m = o.cls.lookup("__call__")
                if m is not None:
                    return self.call(BoundM(m, f), args, kw)
            self.err("TypeError", "'%s' object is not callable" % clsname(o.cls))
        if isinstance(f, T):
            if kind(f) in (None, "obj"):
                return fn("call", f, *[self.reify(a) for a in args])
            self.err("TypeError", "'%s' object is not callable" % kind(f))
        self.err("TypeError", "%s object is not callable" % self.tyname(f))

    def instantiate(self, cls, args, kw):
        b = cls.builtin_base()
        if b in _EXC:
            return ExcV(cls, args)
        o = self.alloc(HObj(cls, (), {}, self.region if self.region != "global" else "global", self.site()))
        c, init = cls.lookup("__init__")
        if init is not None:
            self.call(BoundM(init, o), args, kw)
        elif b == "list" and args:
            self.setobj(o, self.obj(o).but(segs=self.elems(args[0])))
        elif args or kw:
            self.err("TypeError", "%s() takes no arguments" % cls.name)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in getattr(a, "posonlyargs", [])] + [x.arg for x in a.args]
        env = {}
        kw = dict(kw)
        if any(isinstance(x, StarArg) for x in args):
            if a.vararg is not None and not names:
                raise Unsup("star call")
            raise Unsup("star call of symbolic length")
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
        extra = list(args[len(names):])
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(extra)
        elif extra:
            self.err("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)))
        kwonly = [x.arg for x in a.kwonlyargs]
        for k in list(kw):
            if k in names or k in kwonly:
                if k in env:
                    self.err("TypeError", "%s() got multiple values for argument %r" % (f.name, k))
                env[k] = kw.pop(k)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new("dict", [DSet(const(k), v) for k, v in kw.items()])
        elif kw:
            self.err("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, sorted(kw)[0]))
        nd = len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in env:
                j = i - (len(names) - nd)
                if j >= 0:
                    env[nme] = f.defaults[j]
                else:
                    self.err("TypeError", "%s() missing required argument %r" % (f.name, nme))
        for nme, d in zip(kwonly, f.kwdefaults):
            if nme not in env:
                if d is None:
                    self.err("TypeError", "%s() missing keyword argument %r" % (f.name, nme))
                env[nme] = d
        return env

    def reflects(self, f):
        r = f.attrs.get("$vars")
        if r is None:
            r = f.attrs["$vars"] = any(isinstance(x, ast.Name) and x.id == "vars" or isinstance(x, ast.Attribute) and x.attr == "__dict__" for x in ast.walk(f.node))
        return r

    def call_fn(self, f, args, kw):
        if self.depth > self.MAXDEPTH:
            raise Unsup("recursion depth")
        if len(args) == 1 and not kw and isinstance(args[0], VIte) and self.reflects(f) and not isinstance(args[0].a, (T, Undef)) and not isinstance(args[0].b, (T, Undef)):
            # objects of different classes are looked at one by one
            v = args[0]
            return self.branch(v.c, lambda: self.call_fn(f, [v.a], kw), lambda: self.call_fn(f, [v.b], kw))
        env = self.bind_args(f, args, kw)
        cls = f.cls
        while isinstance(cls, list):
            cls = cls[0]
        nm = f.name
        if isinstance(cls, ClassObj):
            nm = cls.name + "." + f.name
        fr = Frame(f, env, list(f.env), f.mod, f.cls, nm)
        fr.node = f.node
        self.funcs_seen.add((f.mod.name, nm, f.node.lineno))
        saved, self.fr = self.fr, fr
        entry_pc = self.pc
        saved_trys = self.trys
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            gen = self.is_gen(f.node)
            if gen:
                return self.run_gen(f, fr)
            alive = True
            try:
                self.exec_block(f.node.body)
            except PathDead:
                alive = False
            states = fr.rets
            if alive:
                states = states + [(self.snap(), NONE)]
            if not states:
                raise PathDead()
            if len(states) == 1:
                self.pc, self.heap = states[0][0].pc, dict(states[0][0].heap)
                return states[0][1]
            # locals are not needed any more
            st2 = [(State(s.pc, s.heap, {}), v) for s, v in states]
            v = self.join_states(st2)
            return v
        finally:
            self.depth -= 1
            self.fr = saved

    @staticmethod
    def is_gen(node):
        r = getattr(node, "_isgen", None)
        if r is None:
            r = False
            st = list(node.body)
            while st:
                n = st.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                st.extend(ast.iter_child_nodes(n))
            node._isgen = r
        return r

    def run_gen(self, f, fr):
        """generators run eagerly; the yielded elements become an iterator"""
        sink = self.alloc(HObj("list", (), {}, "fresh", self.site()))
        fr.yields = sink
        alive = True
        try:
            self.exec_block(f.node.body)
        except PathDead:
            alive = False
        states = [(State(s.pc, s.heap, {}), NONE) for s, v in fr.rets]
        if alive:
            s = self.snap()
            states.append((State(s.pc, s.heap, {}), NONE))
        if not states:
            raise PathDead()
        self.join_states(states)
        segs_ = self.heap.pop(sink.loc).segs
        return self.new("iter", segs_, {"$generator": TRUE})

    def do_yield(self, e):
        v = NONE if e.value is None else self.eval(e.value)
        o = self.heap[self.fr.yields.loc]
        self.heap[self.fr.yields.loc] = o.but(segs=o.segs + (SEl(v),))
        return NONE

    def e_Yield(self, e):
        return self.do_yield(e)

    def e_YieldFrom(self, e):
        ss = self.elems(self.eval(e.value))
        o = self.heap[self.fr.yields.loc]
        self.heap[self.fr.yields.loc] = o.but(segs=o.segs + tuple(ss))
        return NONE

    # comprehensions ------------------------------------------------------------
    def comp(self, gens, leaf, first=None):
        """returns segments; runs in a child scope"""
        fr0 = self.fr
        fr = Frame(fr0.fn, {}, [fr0.env] + fr0.encl if not getattr(fr0, "classbody", False) else fr0.encl, fr0.mod, fr0.cls, fr0.name)
        fr.node = fr0.node
        fr.locals = set()
        fr.iscomp = True
        fr.yields = fr0.yields
        it0 = self.eval(gens[0].iter)

        def level(i):
            g = gens[i]
            it = it0 if i == 0 else self.eval(g.iter)
            ss = self.elems(it)

            def each(v):
                self.assign(g.target, v)
                return conds(0)

            def conds(j):
                if j < len(g.ifs):
                    c = self.truth(self.eval(g.ifs[j]))
                    if c is TRUE:
                        return conds(j + 1)
                    if c is FALSE:
                        return ()
                    sink = []

                    def yes():
                        sink.append(conds(j + 1))
                        return NONE
                    self.branch(c, yes, lambda: NONE)
                    if not sink:
                        return ()
                    return (SIf(c, sink[0], ()),) if sink[0] else ()
                if i + 1 < len(gens):
                    return level(i + 1)
                return leaf()
            return self.collect(ss, each)
        self.fr = fr
        try:
            return level(0)
        finally:
            self.fr = fr0

    def e_ListComp(self, e):
        return self.new("list", self.comp(e.generators, lambda: (SEl(self.eval(e.elt)),)))

    def e_GeneratorExp(self, e):
        return self.new("iter", self.comp(e.generators, lambda: (SEl(self.eval(e.elt)),)), {"$generator": TRUE})

    def e_SetComp(self, e):
        return self.new("set", self.comp(e.generators, lambda: (SEl(self.eval(e.elt)),)))

    def e_DictComp(self, e):
        ss = self.comp(e.generators, lambda: (SEl(Tup([self.eval(e.key), self.eval(e.value)])),))
        return self.new("dict", self.pairs_to_dsegs(ss))

    def pairs_to_dsegs(self, ss):
        out = []
        for s in ss:
            if isinstance(s, SEl):
                v = s.v
                if isinstance(v, Tup) and len(v.items) == 2:
                    out.append(DSet(v.items[0], v.items[1]))
                elif isinstance(v, T):
                    out.append(DSet(at(v, ZERO), at(v, ONE)))
                else:
                    v = self.lift(v)
                    out.append(DSet(self.getitem(v, ZERO), self.getitem(v, ONE)))
            elif isinstance(s, SFor):
                out.append(SFor(s.n, s.bv, self.pairs_to_dsegs(s.segs)))
            elif isinstance(s, SIf):
                out.append(SIf(s.c, self.pairs_to_dsegs(s.a), self.pairs_to_dsegs(s.b)))
            elif isinstance(s, SOp):
                n = fn("len", s.t)
                b = newidx(n)
                p = at(s.t, b)
                out.append(SFor(n, b, (DSet(at(p, ZERO), at(p, ONE)),)))
        # constant keys: keep the last assignment only
        if out and all(isinstance(s, DSet) and isconst(s.k) for s in out):
            d = {}
            for s in out:
                d[s.k] = s
            out = list(d.values())
        return tuple(out)

    def e_Starred(self, e):
        raise Unsup("starred expression")


def has_undef(v):
    if isinstance(v, Undef):
        return True
    if isinstance(v, VIte):
        return has_undef(v.a) or has_undef(v.b)
    return False
