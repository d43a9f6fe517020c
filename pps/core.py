"""Sessions: one configuration of one estimator analysed by the interpreter, and decisions over its value graphs."""
import copy
import math
import os
import random
import signal

from . import terms as t_
from .terms import T, TRUE, FALSE, const, isconst, cval, and_
from .interp import (Interp, Frame, PathDead, Unsup, AnchorError, HObj, Frz, Ref, View, VIte, Tup, FObj, ClassObj, BCls,
                     SEl, SFor, SIf, SOp, DSet, DAdd, DDel, UNDEF, Undef, Fn, BoundM, Bi, Partial, Mod, clsname)
from .world import World, Val, RowVal, fine_scale

REPO = os.environ.get("PPS_REPO", "/repo")
PKGS = ["pure_sklearn", "pure_fasttext"]
HERE = os.path.dirname(os.path.abspath(__file__))
OVERLAY = {"ppsref": os.path.join(HERE, "spec", "ref.py")}


import sys
sys.setrecursionlimit(6000)


class Undecided(Exception):
    """the analysis has no verdict here; never an alarm"""


class Obs(object):
    """what the analysis found out about one call: events in program order, result value, final state"""

    def __init__(self, name):
        self.name = name
        self.events = []      # conversion events followed by the call's events
        self.own = []         # the call's events
        self.value = None     # None: no path returns
        self.term = None
        self.state = None
        self.pc = TRUE
        self.args = ()
        self.err = None       # reason the result has no value graph

    def need(self):
        if self.err:
            raise Undecided(self.err)
        return self


class Session(object):
    def __init__(self, case, bounded=None, budget=250000):
        self.case = case
        self.bounded = bounded
        t_.SYMLEN.clear()
        self.I = Interp(REPO, PKGS, OVERLAY, budget)
        self.W = World(self.I, bounded)
        self.W.sess = self
        self.model = None
        self.conv = Obs("convert")
        self.cache = {}
        main = Mod("analysis", None)
        self.I.fr = Frame(None, {}, [], main)
        self.base_events = []
        self.ref_mod = self.I.load("ppsref")
        self.src = case.make(self.W)
        self.I.events = []

    # -------------------------------------------------------------- conversion
    def entry(self):
        """the public converter"""
        for mod in ("pure_sklearn.map", "pure_sklearn"):
            m = self.I.load(mod)
            if m is not None and "convert_estimator" in m.env:
                return m.env["convert_estimator"]
        raise AnchorError("pure_sklearn.map.convert_estimator")

    def convert(self):
        if self.conv.state is not None or self.conv.err or self.conv.value is not None:
            return self.conv
        I, o = self.I, self.conv
        I.events = []
        try:
            if self.case.entry:
                o.value = self.case.entry(self)
            else:
                o.value = I.call(self.entry(), [self.src], dict(self.case.convert_kw))
            self.relabel()
            o.state = I.snap()
        except PathDead:
            o.value = None
            o.state = I.snap()
        except (Unsup, RecursionError) as e:
            o.err = "conversion: %s" % e
        o.events = o.own = list(I.events)
        o.pc = I.pc
        self.model = o.value
        I.events = []
        return o

    def relabel(self):
        """everything the conversion allocated now belongs to the model"""
        I = self.I
        for loc in list(I.heap):
            I.heap[loc] = self._relab(I.heap[loc])

    def _relab(self, o, d=0):
        if o.region not in ("fresh",):
            return o
        f = lambda v: self._relabv(v, d + 1)
        o2 = o.but(segs=tuple(self._relabs(s, f) for s in o.segs), attrs={k: f(v) for k, v in o.attrs.items()})
        o2.region = "model"
        return o2

    def _relabv(self, v, d):
        if isinstance(v, Frz):
            return Frz(self._relab(v.o, d))
        if isinstance(v, VIte):
            return VIte(v.c, self._relabv(v.a, d), self._relabv(v.b, d))
        if isinstance(v, Tup):
            return Tup([self._relabv(x, d) for x in v.items])
        return v

    def _relabs(self, s, f):
        if isinstance(s, SEl):
            return SEl(f(s.v))
        if isinstance(s, SFor):
            return SFor(s.n, s.bv, tuple(self._relabs(x, f) for x in s.segs))
        if isinstance(s, SIf):
            return SIf(s.c, tuple(self._relabs(x, f) for x in s.a), tuple(self._relabs(x, f) for x in s.b))
        if isinstance(s, DSet):
            return DSet(f(s.k), f(s.v))
        if isinstance(s, DAdd):
            return DAdd(f(s.k), f(s.v))
        return s

    # ---------------------------------------------------------------- calls
    def call(self, method, inp, after=None, alt=None):
        """abstract call of a public method of the converted model; `after`: earlier Obs to continue from;
        alt: input kind behind the name `inp`"""
        key = (method, inp, after.name if after else None)
        if key in self.cache:
            return self.cache[key]
        I = self.I
        conv = self.convert()
        if conv.err:
            raise Undecided(conv.err)
        o = Obs("%s(%s)%s" % (method, inp, " after " + after.name if after else ""))
        self.cache[key] = o
        if conv.value is None:
            o.events = list(conv.events)
            return o
        I.restore(after.state if after else conv.state)
        if after is not None and after.value is None:
            return o
        I.events = []
        try:
            args, kw = self.input(alt or inp)
            I.events = []
            o.args = args
            pc0 = I.pc
            m = I.getattr(self.model, method) if not self.case.callm else self.case.callm(self, method)
            o.value = I.call(m, args, kw)
            o.term = I.reify(o.value)
        except PathDead:
            o.value = None
        except (Unsup, RecursionError) as e:
            o.err = "%s: %s (at %s)" % (o.name, e, I.site())
        o.own = list(I.events)
        o.events = list(conv.events) + (after.own if after else []) + o.own
        o.state = I.snap()
        o.pc = I.pc
        I.events = []
        I.restore(conv.state)
        return o

    def attr(self, name, get=None):
        """abstract read of an attribute of the converted model; get: another observation of the model"""
        key = ("attribute", name)
        if key in self.cache:
            return self.cache[key]
        I = self.I
        conv = self.convert()
        if conv.err:
            raise Undecided(conv.err)
        o = Obs(name)
        self.cache[key] = o
        if conv.value is None:
            o.events = list(conv.events)
            return o
        I.restore(conv.state)
        I.events = []
        try:
            o.value = get(I, self.model) if get else I.getattr(self.model, name)
            o.term = I.reify(o.value)
        except PathDead:
            o.value = None
        except (Unsup, RecursionError) as e:
            o.err = "%s: %s (at %s)" % (name, e, I.site())
        o.own = list(I.events)
        o.events = list(conv.events) + o.own
        o.state = I.snap()
        o.pc = I.pc
        I.events = []
        I.restore(conv.state)
        return o

    def input(self, inp):
        key = ("input", inp)
        if key not in self.cache:
            f = self.case.inputs[inp]
            r = f(self.W)
            if not isinstance(r, tuple):
                r = ((r,), {})
            # inputs live in the state of the conversion: recreate per call state
            self.cache[key] = f
        r = self.cache[key](self.W)
        if not isinstance(r, tuple):
            r = ([r], {})
        return list(r[0]), dict(r[1])

    # ----------------------------------------------------------------- spec
    def spec(self, method, inp):
        """the reference value graph for method on input kind inp"""
        key = ("spec", method, inp)
        if key not in self.cache:
            if self.conv.state is not None:
                self.I.restore(self.conv.state)
            args, kw = self.input(inp)
            try:
                if self.case.ref_by_input:
                    self.cache[key] = self.case.ref_by_input(self, method, inp)
                else:
                    self.cache[key] = (self.case.specs.get(method) or self.case.optional[method])(self, *args, **kw)
            except Unsup as e:
                o = Obs("spec")
                o.err = "reference: %s" % e
                self.cache[key] = o
            if self.conv.state is not None:
                self.I.restore(self.conv.state)
        return self.cache[key]

    def ref(self, fname, *args, **kw):
        """value graph of a reference formula"""
        I = self.I
        saved = (I.events, I.pc, I.assume)
        I.events = []
        o = Obs("ref." + fname)
        try:
            I.pc = TRUE
            I.assume = frozenset()
            o.value = I.call(self.ref_mod.env[fname], [self.lift(a) for a in args], {k: self.lift(a) for k, a in kw.items()})
            o.term = I.reify(o.value)
        except PathDead:
            o.value = None
        except (Unsup, RecursionError) as e:
            o.err = "reference formula %s: %s" % (fname, e)
        o.events = o.own = list(I.events)
        o.pc = I.pc
        I.events, I.pc, I.assume = saved
        return o

    def compose(self, name, f):
        """value graph of a composition of converted models, f(call): call(source, method, X) converts source and calls it"""
        I = self.I
        saved = (I.events, I.pc, I.assume)
        I.events = []
        o = Obs(name)
        try:
            o.value = f(lambda src, method, *a: I.call(I.getattr(I.call(self.entry(), [src], {}), method), list(a), {}))
            o.term = I.reify(o.value)
        except PathDead:
            o.value = None
        except (Unsup, RecursionError) as e:
            o.err = "%s: %s" % (name, e)
        o.events = o.own = list(I.events)
        o.pc = I.pc
        I.events, I.pc, I.assume = saved
        return o

    def lift(self, a):
        from .world import NpArr
        if isinstance(a, (T, Ref, View, FObj, Tup, VIte)):
            if isinstance(a, NpArr):
                return a.tolist(self.I, "spec")
            return a
        return const(a)

    def site_of(self, method):
        """file:line function of the method that implements it"""
        try:
            o = self.I.obj(self.model)
            c, d = o.cls.lookup(method)
            from .interp import PropV
            if isinstance(d, PropV):
                d = d.fget
            if isinstance(d, Fn):
                return "%s:%d %s.%s" % (os.path.relpath(d.mod.path, REPO), d.node.lineno, c.name, d.name)
        except Exception:
            pass
        return method

    def model_site(self):
        """construct that builds the model"""
        try:
            o = self.I.obj(self.model)
            c, d = o.cls.lookup("__init__")
            return "%s:%d %s.__init__" % (os.path.relpath(d.mod.path, REPO), d.node.lineno, c.name)
        except Exception:
            return "convert_estimator"

    def loc(self, e):
        return "%s:%s %s" % e.site if isinstance(e.site, tuple) else str(e.site)


# ------------------------------------------------------------------ outcomes
class Out(object):
    """outcome of a call under one valuation"""
    __slots__ = ("kind", "val", "exc", "ev")

    def __init__(self, kind, val=None, exc=None, ev=None):
        self.kind, self.val, self.exc, self.ev = kind, val, exc, ev

    def __repr__(self):
        if self.kind == "value":
            return "value %r" % (self.val,)
        return "%s %s" % (self.kind, self.exc)


def stop_(why):
    return Out("stop", exc=str(why))


def outcome(o, val, want_value=True):
    """evaluate a call's value graph: value / explicit rejection / crash / stop (no verdict)"""
    ev = t_._Ev(val)
    stopped = False
    for e in o.events:
        if e.kind not in ("raise", "crash"):
            continue
        try:
            if e.gate.fv:
                raise t_.Stop("open condition")
            g = ev.go(e.gate, {})
        except t_.Stop as ex:
            stopped = ex
            continue
        except RecursionError:
            return stop_("recursion")
        except Exception as ex:
            if stopped:
                return stop_(stopped)
            return Out("crash", exc=type(ex).__name__, ev=e)
        if g:
            if stopped:
                return stop_(stopped)
            return Out("reject" if e.kind == "raise" else "crash", exc=e.data[0], ev=e, val=e.data[1])
    if stopped:
        return stop_(stopped)
    if o.value is None:
        return stop_("no value") if not o.events else Out("dead")
    if not want_value:
        return Out("value")
    if o.term is None:
        return stop_("no value graph")
    try:
        return Out("value", ev.go(o.term, {}))
    except t_.Stop as ex:
        return stop_(ex)
    except RecursionError:
        return stop_("recursion")
    except Exception as ex:
        return Out("crash", exc=type(ex).__name__, val=str(ex))


class Alias(object):
    """evaluation of a value graph that keeps the identity of containers: constructors give a new object each time,
    reads give the stored one"""

    def __init__(self, val):
        self.ev = t_._Ev(val)
        self.states = {}
        self.bases = {}
        self.budget = 60000

    def key(self, ts, env, minus=()):
        fb = set()
        for t in ts:
            fb |= set(t.fb)
        try:
            k = (tuple(t.id for t in ts), tuple((b, type(env[b]), env[b]) for b in sorted(fb - set(minus)) if b in env))
            hash(k)
            return k
        except TypeError:
            return (tuple(t.id for t in ts), tuple((b, id(env[b])) for b in sorted(fb - set(minus)) if b in env))

    def go(self, t, env):
        self.budget -= 1
        if self.budget < 0:
            raise t_.Stop("budget")
        op = t.op
        if op == "B":
            return env[abs(t.pay)]
        if op == "ite":
            return self.go(t.args[1] if self.ev.go(t.args[0], env) else t.args[2], env)
        if op == "tup":
            return tuple([self.go(a, env) for a in t.args])
        if op == "lst":
            out = []
            self.segs(t.args[0], env, out)
            return out
        if op == "dct":
            out = {}
            self.dsegs(t.args[0], env, out)
            return out
        if op == "at":
            return self.base(t.args[0], env)[self.ev.go(t.args[1], env)]
        if op == "loop":
            return self.loop(t, env)
        if op == "sym":
            return self.ev.go(t, env)
        if op == "fn" and t.pay == "dget":
            b = self.base(t.args[0], env)
            k = self.ev.go(t.args[1], env)
            return b[k] if k in b else self.go(t.args[2], env)
        if op == "fn" and t.pay == "inst" and t.args[-1].op == "lst":
            return self.go(t.args[-1], env)
        r = self.ev.go(t, env)
        return copy.deepcopy(r) if isinstance(r, (list, dict, tuple)) else r

    def base(self, t, env):
        """a container an element is taken from: the same one each time"""
        if t.op not in ("lst", "dct") or not any(x.op in ("sfor", "sop") for x in t.args[0].args):
            return self.go(t, env)
        k = self.key((t,), env)
        if k not in self.bases:
            self.bases[k] = (self.go(t, env), env)
        return self.bases[k][0]

    def loop(self, t, env):
        h, nb, (k, out) = t.pay
        n = self.ev.go(t.args[0], env)
        inits, nexts = t.args[1:1 + k], t.args[1 + k:]
        key = self.key(tuple(t.args[1:]), env, range(h, h + 1 + k))
        if key not in self.states:
            self.states[key] = ([[self.go(a, env) for a in inits]], env)
        sts = self.states[key][0]
        while len(sts) <= n:
            e2 = dict(env)
            e2[h] = len(sts) - 1
            for j in range(k):
                e2[h + 1 + j] = sts[-1][j]
            sts.append([self.go(a, e2) for a in nexts])
        return sts[n][out]

    def segs(self, s, env, out):
        for x in s.args:
            if x.op == "el":
                out.append(self.go(x.args[0], env))
            elif x.op == "sfor":
                e2 = dict(env)
                for i in range(self.ev.go(x.args[0], env)):
                    e2[x.pay[0]] = i
                    self.segs(x.args[1], dict(e2), out)
            elif x.op == "sif":
                self.segs(x.args[1] if self.ev.go(x.args[0], env) else x.args[2], env, out)
            elif x.op == "sop":
                out.extend(list(self.go(x.args[0], env)))
            else:
                raise t_.Stop("segment " + x.op)

    def dsegs(self, s, env, out):
        for x in s.args:
            if x.op == "dset":
                out[self.ev.go(x.args[0], env)] = self.go(x.args[1], env)
            elif x.op == "ddel":
                out.pop(self.ev.go(x.args[0], env), None)
            elif x.op == "sfor":
                e2 = dict(env)
                for i in range(self.ev.go(x.args[0], env)):
                    e2[x.pay[0]] = i
                    self.dsegs(x.args[1], dict(e2), out)
            elif x.op == "sif":
                self.dsegs(x.args[1] if self.ev.go(x.args[0], env) else x.args[2], env, out)
            elif x.op == "sop":
                out.update(self.go(x.args[0], env))
            elif x.op == "dadd":
                k = self.ev.go(x.args[0], env)
                out[k] = out.get(k, 0) + self.ev.go(x.args[1], env)
            else:
                raise t_.Stop("segment " + x.op)


def same_rows(term, val):
    """two rows of the value that are one container: their numbers"""
    r = Alias(val).go(term, {})
    seen = {}
    if isinstance(r, (list, tuple)):
        for i, x in enumerate(r):
            if isinstance(x, (list, dict)):
                if id(x) in seen:
                    return seen[id(x)], i
                seen[id(x)] = i
    return None


TOL = [1.0]


def set_tol(v):
    """the unit of the absolute tolerance: smaller for data of a smaller order of magnitude"""
    TOL[0] = max(1e-4, min(1.0, fine_scale(v))) if v.mode == "fine" else 1.0


def close(a, b, tol=1e-9, sparse=False):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        a, b = float(a) if abs(a) < 1e300 else a, float(b) if abs(b) < 1e300 else b
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= tol * max(TOL[0], abs(a), abs(b)) if max(abs(a), abs(b)) > 1e-12 * TOL[0] else True
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            if sparse:
                return all(close(a.get(k, 0), b.get(k, 0), tol, sparse) for k in set(a) | set(b))
            return False
        return all(close(a[k], b[k], tol, sparse) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b) or isinstance(a, tuple) != isinstance(b, tuple):
            return False
        return all(close(x, y, tol, sparse) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


class Inst_(object):
    """evaluated instance of an analysed class"""

    def __init__(self, cls, attrs, items):
        self.cls, self.attrs, self.items = cls, attrs, items

    def __eq__(self, o):
        return isinstance(o, Inst_) and self.cls == o.cls and self.attrs == o.attrs and self.items == o.items

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return "%s(%r, %r)" % (self.cls.split(".")[-1], self.attrs, self.items)


def _p_inst(cls, *kv):
    items = None
    if len(kv) % 2:
        kv, items = kv[:-1], kv[-1]
    return Inst_(cls, dict(zip(kv[::2], kv[1::2])), items)


t_.PURE["inst"] = _p_inst


def plainv(v):
    """sparse containers as their rows"""
    if isinstance(v, Inst_) and v.items is not None:
        return v.items
    return v


def densify(v, width=None):
    """result as nested lists"""
    if isinstance(v, tuple) and any(isinstance(x, Inst_) for x in v):
        return tuple(densify(x, width) for x in v)
    if isinstance(v, Inst_) and v.items is not None:
        w = v.attrs.get("size")
        if width is not None:
            w = width
        if not isinstance(w, int):
            return None
        return [[r.get(j, 0.0) for j in range(w)] if isinstance(r, dict) else r for r in v.items]
    return v


# ---------------------------------------------------------------- valuations
def valuations(S, n, modes=("plain",), seed=1, fixed=None):
    W = S.W
    k = 0
    tries = 0
    rng0 = random.Random(seed)
    while k < n and tries < n * 8:
        tries += 1
        mode = modes[k % len(modes)]
        v = Val(W, random.Random(rng0.random()), mode, fixed)
        v.S = S
        try:
            if all(r(v) for r in W.reqs):
                k += 1
                yield v
        except t_.Stop:
            raise Undecided("no generator for a symbol")
    if k == 0:
        raise Undecided("no well-formed valuation")


COMMON = {0, 1, 2, 3, -1, 0.5, -0.5, 0.0, 1.0, -1.0, 2.0, 4, 5, -2.0}


def strings(S):
    """strings the path conditions of the conversion mention"""
    if getattr(S, "_strings", None) is None:
        S._strings = []
        try:
            S._strings = constants(S.convert(), strs=True)
        except Undecided:
            pass
    return S._strings


def constants(*obs, strs=False):
    """numbers the value graphs and path conditions of the calls mention"""
    seen = set()
    out = set()
    st = []
    for o in obs:
        if o.term is not None:
            st.append(o.term)
        st += [e.gate for e in o.events]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if isconst(x):
            c = cval(x)
            if strs:
                cs = [c]
                while cs:
                    c = cs.pop()
                    if isinstance(c, str):
                        if len(c) < 40:
                            out.add(c)
                    elif isinstance(c, (tuple, list, frozenset, set)):
                        cs.extend(c)
                    elif isinstance(c, dict):
                        cs.extend(c)
                        cs.extend(c.values())
                continue
            if isinstance(c, (int, float)) and not isinstance(c, bool) and c == c and abs(c) < 2e4 and c not in COMMON:
                out.add(c)
            continue
        st.extend(y for y in x.args if isinstance(y, T))
    return sorted(out)


def targeted(S, n, consts, modes, seed, words=()):
    """valuations with sizes and data at the constants of the value graphs"""
    W = S.W
    rng = random.Random(seed * 7919 + 13)
    sizes = sorted(k for k, t in W.sizes.items() if not isconst(t))
    ints = [c for c in consts if isinstance(c, int) and 2 < abs(c) <= 260]
    words = list(words) + [ch * z for c in ints if abs(c) <= 40 for z, ch in ((abs(c), "w"), (abs(c) + 1, "w"))]
    tries = k = 0
    while k < n and tries < n * 6:
        tries += 1
        fixed = {}
        if ints and sizes and k % 2 == 0:
            nm = sizes[(k // 2) % len(sizes)]
            z = abs(ints[(k // 2 // len(sizes)) % len(ints)]) + rng.choice([1, 1, 0, 2, -1, 6, 8])
            if z >= t_.SIZEMIN.get(nm, 0):
                fixed[(nm, ())] = z
        v = Val(W, random.Random(rng.random()), rng.choice(modes), fixed)
        v.S = S
        v.pool = consts
        v.spool = words
        try:
            if all(r(v) for r in W.reqs):
                k += 1
                yield v
            elif fixed:
                k += 1
        except (t_.Stop, IndexError, KeyError):
            k += 1


class TimeOut(Exception):
    pass


def limited(f, secs):
    def h(sig, fr):
        raise TimeOut()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(secs)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
