"""What the pickle protocol does to a converted model, as an abstract operation on the analysed heap.

Classes without pickling hooks are rebuilt with equal attributes and items, so their copy is the same abstract value.
For classes that define a hook the protocol is followed: the hook's source is interpreted and the copy is built from
what it returns, without calling __init__."""
import copy as copy_

from .terms import T, NONE, const, isconst, cval
from .interp import Ref, View, Frz, HObj, Tup, VIte, ClassObj, BCls, SEl, SFor, SIf, DSet, Fn, Bi, Unsup, PathDead, UNDEF, Undef
from .core import Obs

HOOKS = ("__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__getnewargs__", "__getnewargs_ex__", "__new__", "__getattr__", "__getattribute__")


class Recursion(Exception):
    pass


def own(c, name):
    cc, d = c.lookup(name)
    return d if d is not None and isinstance(cc, ClassObj) else None


def hooked(c):
    if any(own(c, h) is not None for h in HOOKS):
        return True
    return c.builtin_base() is not None and any(own(c, h) is not None for h in ("append", "extend", "__setitem__"))


class Pickler(object):
    def __init__(self, I):
        self.I = I
        self.memo = {}
        self.keep = {}

    def has(self, v, d=0):
        """some object below v belongs to a class with hooks"""
        I = self.I
        if d > 30 or isinstance(v, T):
            return False
        if isinstance(v, VIte):
            return self.has(v.a, d) or self.has(v.b, d)
        if isinstance(v, Tup):
            return any(self.has(x, d + 1) for x in v.items)
        if isinstance(v, Ref):
            if v.loc in self.keep:
                return self.keep[v.loc]
            self.keep[v.loc] = False
            self.keep[v.loc] = r = self.hobj(I.heap[v.loc], d)
            return r
        if isinstance(v, View):
            return self.hobj(I.obj(v), d)
        if isinstance(v, Frz):
            return self.hobj(v.o, d)
        return False

    def hobj(self, o, d):
        if isinstance(o.cls, ClassObj) and hooked(o.cls):
            return True
        return any(self.has(x, d + 1) for x in o.attrs.values()) or self.hsegs(o.segs, d + 1)

    def hsegs(self, ss, d):
        for s in ss:
            if isinstance(s, SEl) and self.has(s.v, d):
                return True
            if isinstance(s, SFor) and self.hsegs(s.segs, d):
                return True
            if isinstance(s, SIf) and (self.hsegs(s.a, d) or self.hsegs(s.b, d)):
                return True
            if isinstance(s, DSet) and self.has(s.v, d):
                return True
        return False

    def copy(self, v):
        I = self.I
        if isinstance(v, Frz):
            v = I.lift(v)
        if not self.has(v):
            return v
        if isinstance(v, VIte):
            return I.branch(v.c, lambda: self.copy(v.a), lambda: self.copy(v.b))
        if isinstance(v, Tup):
            return Tup([self.copy(x) for x in v.items])
        if isinstance(v, Ref) and v.loc in self.memo:
            return self.memo[v.loc]
        o = I.obj(v)
        if isinstance(o.cls, ClassObj) and hooked(o.cls):
            return self.instance(v, o)
        if isinstance(o.cls, ClassObj):
            new = I.alloc(HObj(o.cls, (), {}, "model", I.site()))
            self.remember(v, new)
            ss = self.items(v, o)
            at = {k: self.attr(v, o, k) for k in o.attrs}
            I.setobj(new, I.obj(new).but(segs=ss, attrs=at))
            return new
        new = I.alloc(HObj(o.cls, (), {}, "model", I.site()))
        self.remember(v, new)
        I.setobj(new, I.obj(new).but(segs=self.items(v, o)))
        return new

    def remember(self, v, new):
        if isinstance(v, Ref):
            self.memo[v.loc] = new

    def attr(self, r, o, k):
        x = o.attrs[k]
        if isinstance(x, Frz):
            x = View(r, "attr", k)
        return self.copy(x)

    def items(self, r, o):
        """copied contents of a container"""
        I = self.I
        if not self.hsegs(o.segs, 0):
            return o.segs
        f = Bi("pickle.copy", lambda I_, a, k: self.copy(a[0]))
        base = o.cls if isinstance(o.cls, str) else o.cls.builtin_base()
        ref = I.load("ppsref").env
        if base in ("dict", "defaultdict", "OrderedDict"):
            v = I.call(ref["pcopy_dict"], [r, f], {})
        else:
            v = I.call(ref["pcopy_list"], [r, f], {})
        return I.obj(v).segs

    # ------------------------------------------------------------ protocol
    def call(self, f, args):
        try:
            return self.I.call(f, args, {})
        except Unsup as e:
            if "recursion depth" in str(e):
                raise Recursion(str(e))
            raise

    def lookup(self, r, name):
        """getattr(instance, name, None) as the unpickler does it"""
        try:
            return self.I.getattr(r, name, NONE)
        except Unsup as e:
            if "recursion depth" in str(e):
                raise Recursion("looking up %s on the copy calls __getattr__ without end" % name)
            raise

    def instance(self, r, o):
        I = self.I
        c = o.cls
        if own(c, "__getattribute__") is not None:
            raise Unsup("__getattribute__")
        red = own(c, "__reduce_ex__")
        if red is not None:
            v = self.call(I.getattr(r, "__reduce_ex__"), [const(4)])
        elif own(c, "__reduce__") is not None:
            v = self.call(I.getattr(r, "__reduce__"), [])
        else:
            return self.default(r, o)
        if not isinstance(v, Tup):
            raise Unsup("reduction that is not a tuple")
        it = list(v.items) + [NONE] * (6 - len(v.items))
        args = self.copy(it[1])
        if not isinstance(args, Tup):
            raise Unsup("reduction arguments")
        new = self.call(it[0], list(args.items))
        self.remember(r, new)
        if it[3] is not NONE:
            self.fill(new, it[3])
        if it[4] is not NONE:
            raise Unsup("reduction with dictionary items")
        self.state(new, it[2])
        return new

    def default(self, r, o):
        I = self.I
        c = o.cls
        if own(c, "__getnewargs_ex__") is not None:
            raise Unsup("__getnewargs_ex__")
        nargs = []
        if own(c, "__getnewargs__") is not None:
            t = self.copy(self.call(I.getattr(r, "__getnewargs__"), []))
            if not isinstance(t, Tup):
                raise Unsup("__getnewargs__")
            nargs = list(t.items)
        if own(c, "__getstate__") is not None:
            st = self.call(I.getattr(r, "__getstate__"), [])
        else:
            st = None
        new_ = own(c, "__new__")
        if new_ is not None:
            new = self.call(getattr(new_, "f", new_), [c] + nargs)
        else:
            new = I.alloc(HObj(c, (), {}, "model", I.site()))
        self.remember(r, new)
        base = c.builtin_base()
        if base is not None:
            if any(own(c, h) is not None for h in ("append", "extend", "__setitem__")):
                tmp = I.alloc(HObj("list", self.items(r, o), {}, "fresh", I.site()))
                self.fill(new, tmp)
            else:
                I.setobj(new, I.obj(new).but(segs=self.items(r, o)))
        if st is None:
            at = {k: self.attr(r, o, k) for k in o.attrs}
            s = I.alloc(HObj("dict", tuple(DSet(const(k), x) for k, x in at.items()), {}, "fresh", I.site()))
            if at:
                if own(c, "__setstate__") is not None or own(c, "__getattr__") is not None:
                    self.state(new, s)
                else:
                    I.setobj(new, I.obj(new).but(attrs=at))
        else:
            self.state(new, st)
        return new

    def fill(self, new, xs):
        I = self.I
        ref = I.load("ppsref").env
        o = I.obj(new)
        c = o.cls
        if isinstance(c, ClassObj) and own(c, "extend") is not None:
            self.call(I.getattr(new, "extend"), [xs])
        else:
            self.call(ref["pfill"], [new, xs])

    def state(self, new, st):
        I = self.I
        if st is NONE:
            return
        st = self.copy(st)
        c = I.obj(new).cls
        if isinstance(c, ClassObj) and (own(c, "__setstate__") is not None or own(c, "__getattr__") is not None):
            f = self.lookup(new, "__setstate__")
            if f is not NONE:
                self.call(f, [st])
                return
        slots = NONE
        if isinstance(st, Tup) and len(st.items) == 2:
            st, slots = st.items
        for s in (st, slots):
            if s is NONE:
                continue
            o = I.obj(s) if isinstance(s, (Ref, View)) else None
            if o is None:
                s = s.snap(I) if hasattr(s, "snap") else None
                o = I.obj(s) if s is not None else None
            if o is None:
                raise Unsup("pickled state")
            at = dict(I.obj(new).attrs)
            self.assign(at, s, o.segs)
            I.setobj(new, I.obj(new).but(attrs=at))

    def assign(self, at, r, segs):
        for s in segs:
            if isinstance(s, DSet) and isconst(s.k):
                at[cval(s.k)] = self.I.lift(s.v) if isinstance(s.v, Frz) else s.v
            else:
                raise Unsup("pickled state")


def rebuilt(S):
    """the session seen through a pickled copy of its model; None when no class takes part in pickling"""
    I = S.I
    S.convert()
    I.restore(S.conv.state)
    saved = (I.events, I.pc)
    I.events = []
    p = Pickler(I)
    try:
        if not p.has(S.model):
            return None, []
        new = p.copy(S.model)
        evs = list(I.events)
        S2 = copy_.copy(S)
        S2.cache = {}
        S2.model = new
        S2.conv = Obs("unpickled copy")
        S2.conv.value = new
        S2.conv.state = I.snap()
        S2.conv.pc = I.pc
        S2.conv.events = list(S.conv.events)
        return S2, evs
    except PathDead:
        return "dead", list(I.events)
    finally:
        I.events, I.pc = saved
        I.restore(S.conv.state)
