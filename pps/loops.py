"""Summaries of loops whose iteration count is not a constant.

The body is interpreted once with a placeholder (phi) for every cell it may change; the pass is
repeated until the set of changed cells is stable.  Each cell then gets its recurrence solved:
appends become map/filter segments, additive updates become sums, loop-local values the last
iteration, everything else a recurrence (loop) term.  No iteration count is assumed.
"""
from . import terms as t_
from .terms import (T, TRUE, FALSE, NONE, ZERO, ONE, const, isconst, cval, kind, fn, ite, and_, or_, not_,
                    add, sub, mul, lt, le, eq, at, newbv, newidx, subst, lst, dct, tup, mk,
                    segs as tsegs, el as tel, sfor as tsfor, sif as tsif, sop as tsop,
                    loop as tloop, while_ as twhile, top)
from . import interp as ip
from .interp import (PathDead, Unsup, Ref, View, HObj, Frz, Tup, VIte, UNDEF, Undef, SEl, SFor, SIf, SOp,
                     DSet, DAdd, DDel, Ev, State, TryRec, map_val, map_segs, clsname, LISTY, FObj, has_undef)

MAXPASS = 8


class Cell(object):
    """a mutable place: env variable, object contents, instance attribute"""
    noek = False

    def __init__(self, key, pre):
        self.key = key
        self.pre = pre         # value (env/attr) or HObj (contents)
        self.phi = None
        self.kind = "?"
        self.ph = None         # placeholder value / segs
        self.mode = None       # T, U(undef), tup, V(object by value), C(contents)
        self.subs = None


def join_kind(a, b):
    if a == b:
        return a
    num = ("int", "float", "num", "bool")
    if a in num and b in num:
        return "num"
    return None


def phi(k):
    v = newbv()
    v.kindc = k
    return v


def asterm(I, v):
    try:
        return I.reify(v)
    except Unsup:
        return None


def is_plain_obj(I, v):
    """object that can be carried by value around a loop"""
    if isinstance(v, (Ref, View, Frz)):
        o = I.obj(v)
        return isinstance(o.cls, str) and (o.cls in LISTY or o.cls in ("dict",)) and o.cls != "iter"
    return False


def cls_of(I, v):
    if isinstance(v, VIte):
        a, b = cls_of(I, v.a), cls_of(I, v.b)
        return a if a == b else None
    if is_plain_obj(I, v):
        c = I.obj(v).cls
        return "list" if c == "range" else c
    return None


def okind(c):
    return "dict" if c in ("dict", "defaultdict") else "set" if c in ("set", "frozenset") else "list"


class Loop(object):
    def __init__(self, I, ctx):
        self.I = I
        self.ctx = ctx
        self.cells = {}
        self.pre = None

    # ------------------------------------------------ placeholders
    def place(self, c, post):
        """(re)compute the placeholder of a cell; True when it changed"""
        I = self.I
        if c.key[0] == "obj":
            k = okind(clsname(c.pre.cls))
            if c.phi is None:
                c.phi = phi(k)
                c.mode = "C"
                if holds_objects(I, c.pre.segs):
                    I.objphi.add(c.phi)
                if k == "list" and not c.noek:
                    ek = t_.elemkind(self.reified(c.pre.segs), frozenset(), 0)
                    if ek in ("dict", "list"):
                        t_.PHIEK[c.phi.pay] = ek
                return True
            return False
        pre = c.pre
        if isinstance(pre, Undef):
            ch = c.mode is None
            c.mode = "U"
            return ch
        if isinstance(post, Undef):
            post = pre
        if isinstance(post, VIte) and has_undef(post):
            post = I.subst_undef(post, pre)
        if isinstance(pre, T) and isinstance(post, T):
            k = join_kind(kind(pre), kind(post))
            if c.mode == "T" and c.kind == k:
                return False
            if c.mode == "T" and c.kind is None:
                return False
            c.mode, c.kind = "T", k
            c.phi = phi(k)
            return True
        ca, cb = cls_of(I, pre), cls_of(I, post)
        if ca is not None and ca == cb:
            if c.mode == "V":
                return False
            c.mode = "V"
            c.kind = ca
            c.phi = phi(okind(ca))
            return True
        if isinstance(pre, Tup) and isinstance(post, Tup) and len(pre.items) == len(post.items):
            if c.mode == "tup":
                ch = False
                for s, p in zip(c.subs, post.items):
                    if s is not None:
                        ch = self.place(s, p) or ch
                for i, (s, p, q) in enumerate(zip(c.subs, pre.items, post.items)):
                    if s is None and not same(p, q):
                        c.subs[i] = Cell(("sub", i), p)
                        self.place(c.subs[i], q)
                        ch = True
                return ch
            c.mode = "tup"
            c.subs = [None] * len(pre.items)
            for i, (p, q) in enumerate(zip(pre.items, post.items)):
                if not same(p, q):
                    c.subs[i] = Cell(("sub", i), p)
                    self.place(c.subs[i], q)
            return True
        a, b = asterm(I, pre), asterm(I, post)
        if a is not None and b is not None:
            if c.mode == "T" and c.kind is None:
                return False
            c.mode, c.kind = "T", None
            c.phi = phi(None)
            return True
        if c.mode == "X":
            return False
        c.mode = "X"
        return True

    def reified(self, ss):
        try:
            return self.I.reify_segs(ss)
        except Unsup:
            return top("contents")

    def ekfails(self, states):
        """loop-carried lists whose elements do not keep the kind they start with"""
        I = self.I
        bad = False
        for c in self.cells.values():
            if c.key[0] != "obj" or c.phi is None or c.phi.pay not in t_.PHIEK:
                continue
            ek = t_.PHIEK[c.phi.pay]
            for st in states:
                save = I.heap
                I.heap = dict(st.heap)
                try:
                    t = self.reified(I.freeze_obj(self.cellval(c, st), self.mark).segs)
                finally:
                    I.heap = save
                if t_.elemkind(t, frozenset((c.phi,)), 0) not in ("?", ek):
                    c.noek = True
                    c.phi = None
                    self.place(c, None)
                    bad = True
                    break
        return bad

    def ph_value(self, c):
        I = self.I
        if c.mode == "U":
            return UNDEF
        if c.mode == "T":
            return c.phi
        if c.mode == "V":
            o = HObj(c.kind, (SOp(c.phi),), {}, "fresh", I.site())
            return I.alloc(o)
        if c.mode == "tup":
            return Tup([c.pre.items[i] if s is None else self.ph_value(s) for i, s in enumerate(c.subs)])
        if c.mode == "X":
            return ip.POISON
        raise Unsup("placeholder")

    def install(self):
        I = self.I
        for c in self.cells.values():
            if c.key[0] == "env":
                I.fr.env[c.key[1]] = self.ph_value(c)
            elif c.key[0] == "attr":
                o = I.heap[c.key[1]]
                a = dict(o.attrs)
                a[c.key[2]] = self.ph_value(c)
                I.heap[c.key[1]] = o.but(attrs=a)
            else:
                o = I.heap[c.key[1]]
                I.heap[c.key[1]] = o.but(segs=(SOp(c.phi),))

    def changes(self, start, end):
        """keys of cells that differ between two states"""
        out = {}
        for k in list(end.env) + [k for k in start.env if k not in end.env]:
            a, b = start.env.get(k, UNDEF), end.env.get(k, UNDEF)
            if not same(a, b):
                out[("env", k)] = b
        for loc, o1 in start.heap.items():
            if loc >= self.mark:
                continue
            o2 = end.heap.get(loc)
            if o2 is None or o1 is o2:
                continue
            if not same_segs(o1.segs, o2.segs):
                out[("obj", loc)] = o2
            for k in list(o2.attrs) + [k for k in o1.attrs if k not in o2.attrs]:
                a, b = o1.attrs.get(k, UNDEF), o2.attrs.get(k, UNDEF)
                if not same(a, b):
                    out[("attr", loc, k)] = b
        return out

    def preval(self, key):
        if key[0] == "env":
            return self.pre.env.get(key[1], UNDEF)
        if key[0] == "attr":
            return self.pre.heap[key[1]].attrs.get(key[2], UNDEF)
        return self.pre.heap[key[1]]

    def cellval(self, c, st):
        if c.key[0] == "env":
            return st.env.get(c.key[1], UNDEF)
        if c.key[0] == "attr":
            return st.heap[c.key[1]].attrs.get(c.key[2], UNDEF)
        return st.heap[c.key[1]]

    # ------------------------------------------------ body passes
    def run(self, cond, body, pcassume=TRUE):
        """stabilise; afterwards self.end (joined end state or None), self.brk, self.rets, self.evs"""
        I = self.I
        fr = I.fr
        self.pre = pre = I.snap()
        saved_assume = I.assume
        I.assume = saved_assume | frozenset(I.pcset())
        try:
            self.run_(cond, body, pre)
        finally:
            I.assume = saved_assume

    def run_(self, cond, body, pre):
        I = self.I
        fr = I.fr
        ne, nr, nb = len(I.events), len(fr.rets), len(self.ctx.brks)
        ntr = [(f, len(f.recs)) for f in I.trys]
        for _ in range(MAXPASS):
            del I.events[ne:]
            del fr.rets[nr:]
            del self.ctx.brks[nb:]
            for f, k in ntr:
                del f.recs[k:]
            I.restore(pre)
            self.mark = I.nloc + 1
            self.install()
            I.pc = TRUE
            start = I.snap()
            self.start = start
            self.cond = TRUE
            alive = True
            try:
                if cond is not None:
                    self.cond = cond()
                    if self.cond is FALSE:
                        raise PathDead()
                    I.pc = and_(I.pc, self.cond) if self.cond is not TRUE else I.pc
                body()
            except PathDead:
                alive = False
            ends = [s for s in self.ctx.brks[nb:]]
            rets = list(fr.rets[nr:])
            recs = [(f, f.recs[k:]) for f, k in ntr]
            norm = I.snap() if alive else None
            changed = {}
            for st in ends + ([norm] if norm is not None else []) + [r[0] for r in rets]:
                for k, v in self.changes(start, st).items():
                    if k[0] == "env" and any(st is r[0] for r in rets):
                        continue
                    changed.setdefault(k, []).append((st, v))
            unstable = False
            for k, vs in changed.items():
                c = self.cells.get(k)
                if c is None:
                    c = self.cells[k] = Cell(k, self.preval(k))
                    unstable = True
                for st, v in vs:
                    save = I.heap
                    I.heap = st.heap
                    try:
                        if self.place(c, v):
                            unstable = True
                    finally:
                        I.heap = save
            if not unstable and not self.ekfails(ends + ([norm] if norm is not None else []) + [r[0] for r in rets]):
                break
        else:
            raise Unsup("loop does not stabilise")
        self.norm, self.ends, self.rets, self.recs = norm, ends, rets, recs
        self.evs = I.events[ne:]
        del I.events[ne:]
        del fr.rets[nr:]
        del self.ctx.brks[nb:]
        for f, k in ntr:
            del f.recs[k:]

    def joined(self):
        """join normal end and break states; (state or None, gate of break)"""
        I = self.I
        states = [(s, None) for s in self.ends]
        if self.norm is not None:
            states.append((self.norm, None))
        # what a return path leaves in the heap; its variables are gone
        env = states[-1][0].env if states else self.start.env
        states = [(State(s.pc, s.heap, dict(env)), None) for s, _ in self.rets] + states
        if not states:
            return None, FALSE
        I.join_states(states)
        st = I.snap()
        g = or_(*[s.pc for s in self.ends]) if self.ends else FALSE
        return st, g

    # ------------------------------------------------ recurrences
    def flat_cells(self):
        out = []

        def go(c, get):
            if c.mode == "tup":
                for i, s in enumerate(c.subs):
                    if s is not None:
                        go(s, lambda st, get=get, i=i: tupitem(get(st), i))
            elif c.phi is not None and c.mode in ("T", "V", "C"):
                out.append((c, get))
        for c in self.cells.values():
            go(c, lambda st, c=c: self.cellval(c, st))
        return out


def holds_objects(I, ss):
    for s in ss:
        if isinstance(s, SEl) and isinstance(s.v, (Ref, View, Frz)):
            return True
        if isinstance(s, SOp) and I.objelem(mk("at", (s.t, ZERO))):
            return True
        if isinstance(s, SFor) and holds_objects(I, s.segs):
            return True
        if isinstance(s, SIf) and (holds_objects(I, s.a) or holds_objects(I, s.b)):
            return True
    return False


def tupitem(v, i):
    return v.items[i]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Ref, View)) and isinstance(b, (Ref, View)):
        return a == b
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return all(same(x, y) for x, y in zip(a.items, b.items))
    return False


def same_segs(a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is not type(y):
            return False
        if isinstance(x, SEl) and same(x.v, y.v):
            continue
        if isinstance(x, SOp) and x.t is y.t:
            continue
        return False
    return True


def summarise(I, n, bv, step, ctx):
    L = Loop(I, ctx)
    if n.op == "const" and cval(n) <= 0:
        return
    saved_pc = I.pc
    L.run(None, step)
    finish(I, L, n, bv, None, saved_pc)


def finish(I, L, n, bv, wcond, saved_pc):
    """solve the recurrences and install the state after the loop.  wcond None: counted loop."""
    ne = len(I.events)
    st, brk = L.joined()
    mark = L.mark
    retg = or_(*[s.pc for s, v in L.rets]) if L.rets else FALSE
    cells = L.flat_cells()
    phis = {}
    for c, get in cells:
        phis[c.phi] = (c, get)
    done = None
    flags = {}
    if brk is not FALSE or retg is not FALSE:
        done = phi("bool")
    # --- next values as terms
    sys_ = {}        # phi -> [init term, next term, extra segs or None]

    def value_in(c, get, state):
        I.heap = dict(state.heap)
        v = get(state)
        if c.mode == "C":
            o = I.freeze_obj(v, mark)
            return o
        v = I.freeze(v, mark)
        return v

    keep_heap = dict(I.heap)
    for c, get in cells:
        init_state_heap = L.pre.heap
        if c.mode == "C":
            I.heap = dict(init_state_heap)
            isD = okind(clsname(c.pre.cls)) == "dict"
            isS = okind(clsname(c.pre.cls)) == "set"
            reif = I.reify_dsegs if isD else I.reify_segs
            try:
                init = reif(c.pre.segs)
            except Unsup:
                init = top("contents")
            if isS:
                init = fn("set", init)
            extra = None
            nxt = c.phi
            if st is not None:
                o = value_in(c, get, st)
                ss = o.segs
                if ss and isinstance(ss[0], SOp) and ss[0].t is c.phi:
                    extra = ss[1:]
                elif ss and len(ss) == 1 and isinstance(ss[0], SIf):
                    extra = sif_extra(ss[0], c.phi)
                try:
                    nxt = reif(ss)
                    if isS:
                        nxt = fn("set", nxt)
                except Unsup:
                    nxt = top("contents")
            sys_[c.phi] = [init, nxt, extra]
        else:
            I.heap = dict(init_state_heap)
            init = asterm(I, c.pre)
            nxt = c.phi
            if st is not None:
                v = value_in(c, get, st)
                if isinstance(v, VIte) and has_undef(v):
                    v = I.subst_undef(v, c.phi)
                nxt = asterm(I, v)
                if nxt is None:
                    nxt = top("carried value")
                elif retg is not FALSE:
                    nxt = ite(retg, c.phi, nxt)
            sys_[c.phi] = [init if init is not None else top("init"), nxt, None]
    I.heap = keep_heap
    if wcond is not None:
        cond_t = L.cond
    gates = []

    # --- flags: break/return, event gates, exits
    def flag(g, initial=FALSE):
        p = phi("bool")
        sys_[p] = [initial, or_(p, g), None]
        return p

    fdone = None
    if done is not None:
        sys_[done] = [FALSE, or_(done, brk, retg), None]
        for p in list(sys_):
            if p is done:
                continue
            i0, nx, ex = sys_[p]
            sys_[p] = [i0, ite(done, p, nx), None if ex is None else ((SIf(not_(done), ex, ()),) if ex else ())]
    live = not_(done) if done is not None else TRUE
    brkflag = None
    if brk is not FALSE and L.ctx.has_else:
        brkflag = flag(and_(live, brk))
    retflag = None
    retval = None
    if retg is not FALSE:
        retflag = phi("bool")
        sys_[retflag] = [FALSE, or_(retflag, and_(live, retg)), None]
        # value of the return: joined over the return paths
        retval = phi(None)
        cur = None
        rv = []
        for s, v in L.rets:
            I.heap = dict(s.heap)
            fv = I.freeze(v, mark)
            rv.append((s, fv, asterm(I, fv)))
        I.heap = keep_heap
        if len({id(x[1]) for x in rv}) == 1 and not has_bv(rv[0][1], list(sys_) + [bv]):
            retval = ("const", rv[0][1])
        else:
            if any(x[2] is None for x in rv):
                raise Unsup("object returned from inside a loop")
            r = rv[-1][2]
            ks = {kind(x[2]) for x in rv}
            retval.kindc = ks.pop() if len(ks) == 1 else None
            for s, fv, tm in reversed(rv[:-1]):
                r = ite(s.pc, tm, r)
            sys_[retval] = [NONE, ite(and_(live, retg), r, retval), None]
            retkinds = [cls_of_frz(I, x[1]) for x in rv]
    evflags = []
    for e in L.evs:
        if e.gate.op == "top":
            evflags.append((e, None))
            continue
        evflags.append((e, flag(and_(live, e.gate))))
    recflags = []
    for f, rs in L.recs:
        for r in rs:
            recflags.append((f, r, flag(and_(live, r.gate))))
    # paths on which the iteration neither ends, breaks nor returns (an exception was raised)
    okc = st.pc if st is not None else FALSE
    if wcond is not None:
        okc = or_(okc, not_(cond_t))
    lost = None
    if okc is not TRUE:
        bad = not_(okc)
        lost = flag(and_(live, bad))
        # later iterations do not run after an exception; terms after it are guarded by pc only

    S = Solver(sys_, n, bv, wcond is not None, None if wcond is None else and_(live, cond_t))

    # --- events
    del I.events[ne:]          # looking at the values carried is no operation of the program
    I.restore(L.pre)
    I.pc = saved_pc
    pc0 = saved_pc
    for e, p in evflags:
        g = and_(pc0, S.final(p)) if p is not None else e.gate
        if g is not FALSE:
            I.events.append(Ev(e.kind, g, e.data, e.site))
    changed_cells = list(L.cells.values())
    for f, r, p in recflags:
        g = and_(pc0, S.final(p))
        if g is FALSE:
            continue
        heap = dict(L.pre.heap)
        env = dict(r.state.env) if f.fr is not I.fr else dict(L.pre.env)
        for c in changed_cells:
            if c.key[0] == "env" and f.fr is I.fr:
                env[c.key[1]] = top("value at exception")
            elif c.key[0] == "attr":
                o = heap[c.key[1]]
                a = dict(o.attrs)
                a[c.key[2]] = top("value at exception")
                heap[c.key[1]] = o.but(attrs=a)
            elif c.key[0] == "obj":
                o = heap[c.key[1]]
                heap[c.key[1]] = o.but(segs=(SOp(top("contents at exception")),))
        f.recs.append(TryRec(r.exc, g, State(g, heap, env)))
    # --- cells after the loop
    if lost is not None:
        I.pc = and_(I.pc, not_(S.final(lost)))
        if I.pc is FALSE:
            raise PathDead()
    for c in changed_cells:
        v = after(I, L, c, S, n, bv, st, mark, wcond)
        if c.key[0] == "env":
            I.fr.env[c.key[1]] = v
        elif c.key[0] == "attr":
            o = I.heap[c.key[1]]
            a = dict(o.attrs)
            a[c.key[2]] = v
            I.heap[c.key[1]] = o.but(attrs=a)
        else:
            I.heap[c.key[1]] = I.heap[c.key[1]].but(segs=v)
    if brkflag is not None:
        bf = S.final(brkflag)
        st2 = I.snap()
        st2.pc = and_(I.pc, bf)
        if st2.pc is not FALSE:
            L.ctx.brks.append(st2)
        I.pc = and_(I.pc, not_(bf))
        if I.pc is FALSE:
            raise PathDead()
    # --- returns
    if retflag is not None:
        rf = S.final(retflag)
        st1 = I.snap()
        st1.pc = and_(I.pc, rf)
        if isinstance(retval, tuple):
            v = retval[1]
        else:
            v = S.final(retval)
            if retkinds[0] is not None and all(k == retkinds[0] for k in retkinds):
                I.heap = dict(st1.heap)
                v = I.new(retkinds[0], (SOp(v),))
                st1.heap = dict(I.heap)
            elif any(k is not None for k in retkinds):
                raise Unsup("object returned from inside a loop")
        if st1.pc is not FALSE:
            I.fr.rets.append((st1, v))
        I.pc = and_(I.pc, not_(rf))
        if rf is TRUE:
            raise PathDead()


def cls_of_frz(I, v):
    if isinstance(v, (Frz, Ref, View)):
        return clsname(I.obj(v).cls)
    if isinstance(v, Tup):
        return "tuple"
    return None


def has_bv(v, bvs):
    s = frozenset(b.pay for b in bvs if b is not None)
    return ip.has_term(v, lambda t: bool(t.fv & s)) if not isinstance(v, T) else bool(v.fv & s)


def sif_extra(s, p):
    """if c: [*phi, a] else [*phi, b]  ->  extra segments"""
    def strip(ss):
        if ss and isinstance(ss[0], SOp) and ss[0].t is p:
            return ss[1:]
        if len(ss) == 1 and isinstance(ss[0], SIf):
            return sif_extra(ss[0], p)
        return None
    a, b = strip(s.a), strip(s.b)
    if a is None or b is None:
        return None
    return (SIf(s.c, a, b),)


class Solver(object):
    def __init__(self, sys_, n, bv, is_while, cond):
        self.sys = sys_
        self.n, self.bv = n, bv
        self.is_while = is_while
        self.cond = cond
        self.ids = {p.pay: p for p in sys_}
        self.memo = {}
        self.stack = []

    def deps(self, t):
        return [self.ids[f] for f in t.fv if f in self.ids]

    def final(self, p):
        return self.closed(p, self.n)

    def reach(self, p):
        seen = set()
        w = [p]
        while w:
            q = w.pop()
            for d in self.deps(self.sys[q][1]):
                if d not in seen:
                    seen.add(d)
                    w.append(d)
        return seen

    def closed(self, p, N):
        """value of phi after N iterations"""
        key = (p, N)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._closed(p, N)
        return r

    def prefix(self, t, i=None):
        """express a term of iteration i (default: the loop's own index) without phis"""
        i = self.bv if i is None else i
        ds = self.deps(t)
        if not ds:
            return t
        return subst(t, {d: self.closed(d, i) for d in ds})

    def _closed(self, p, N):
        init, nxt, extra = self.sys[p]
        if nxt is p:
            return init
        if self.is_while:
            return self.generic(p, N)
        cyc = p in self.reach(p)
        ds = self.deps(nxt)
        if not ds:
            if kind(p) == "bool" and init is FALSE and nxt is TRUE:
                return lt(ZERO, N)
            last = subst(nxt, {self.bv: sub(N, ONE)})
            c = lt(ZERO, N)
            return ite(c, last, init)
        v = newidx(N)

        def at_v(t):
            t = subst(t, {self.bv: v})
            return self.prefix(t, v)
        # flag: p or g   (g independent of p)
        if kind(p) == "bool" and init is FALSE and nxt.op == "or" and p in nxt.args:
            g = or_(*[a for a in nxt.args if a is not p])
            if not self.cyclic(p, g):
                g = at_v(g)
                if v.pay not in g.fv:
                    return and_(lt(ZERO, N), g)
                return fn("any", lst(tsfor(N, v, tsegs(tel(g)))))
        if kind(p) in ("int", "float", "num"):
            a = additive(p, nxt)
            if a is not None and not self.cyclic(p, *a[1]):
                body = subst(a[0], {self.bv: v})
                ds2 = self.deps(body)
                if ds2:
                    body = subst(body, {d: self.closed(d, v) for d in ds2})
                s = fn("sum", lst(tsfor(N, v, body)))
                if init is ZERO or init is const(0.0):
                    return s
                return add(init, s)
        # p is unchanged except in the iteration whose index is a given one
        for u in point_indices(nxt, self.bv):
            if t_.minval(u) is None or t_.minval(u) < 0 or subst_eq_false(nxt, u, self.bv) is not p:
                continue
            hit = subst(nxt, {self.bv: u})
            others = [d for d in self.deps(hit) if d is not p]
            if any(p in self.reach(d) for d in others):
                continue
            hit = subst(hit, {p: init})
            hit = subst(hit, {d: self.closed(d, u) for d in others}) if others else hit
            return ite(lt(u, N), hit, init)
        if kind(p) == "list" and nxt is not p:
            r = self.stored(p, init, nxt, N)
            if r is not None:
                return r
            r = self.pointwise(p, init, nxt, N)
            if r is not None:
                return r
        if kind(p) == "list" and nxt.op == "lst" and nxt.args[0].args and nxt.args[0].args[0].op == "sop" and nxt.args[0].args[0].args[0] is p:
            rest = nxt.args[0].args[1:]
            rest_t = tsegs(*rest)
            if not self.cyclic(p, rest_t):
                body = at_v(rest_t)
                return lst(tsop(init), tsfor(N, v, body))
        if kind(p) == "dict" and nxt.op == "dct" and nxt.args[0].args and nxt.args[0].args[0].op == "sop" and nxt.args[0].args[0].args[0] is p:
            rest_t = tsegs(*nxt.args[0].args[1:])
            if not self.cyclic(p, rest_t):
                body = at_v(rest_t)
                return dct(tsop(init), tsfor(N, v, body))
        return self.generic(p, N)

    def stored(self, p, init, nxt, N):
        """every iteration replaces one element, computed from that element alone: always the same one, or its own"""
        def split(t):
            """t as setitem(p, u, g): (u, g); (None, None) when it is p itself"""
            if t.op == "lst" and len(t.args[0].args) == 1 and t.args[0].args[0].op == "sop":
                t = t.args[0].args[0].args[0]
            if t is p:
                return None, None
            if t.op == "fn" and t.pay == "setitem":
                if t.args[0] is p:
                    return t.args[1], t.args[2]
                u, g = split(t.args[0]) or (None, None)
                return (u, subst_cell(t.args[2], t.args[0], u, g)) if u is not None and u is t.args[1] else None
            if t.op == "ite":
                a, b = split(t.args[1]), split(t.args[2])
                if a is None or b is None:
                    return None
                u = a[0] if a[0] is not None else b[0]
                if u is None or b[0] not in (None, u) or a[0] not in (None, u):
                    return None
                x, y = [z[1] if z[0] is not None else at(p, u) for z in (a, b)]
                return u, ite(t.args[0], x, y)
            return None

        def subst_cell(v, lst_, u, g):
            return t_.replace(v, at(lst_, u), g) if u is not None else v
        r = split(nxt)
        if r is None or r[0] is None:
            return None
        u, g = r
        if self.deps(u):
            return None
        x = phi(kind(at(p, u)))
        g = t_.replace(g, at(p, u), x)
        if p.pay in g.fv:
            return None
        same_ = self.bv.pay not in u.fv
        if not same_ and u is not self.bv:
            return None
        if not same_:
            ds = self.deps(g)
            if any(p in self.reach(d) for d in ds if d is not x):
                return None
            n = fn("len", init)
            if n.op == "fn" and N is not n:
                return None
            v = newidx(n)
            m = {x: at(init, v), self.bv: v}
            new = subst(g, m)
            ds = [d for d in ds if d is not x]
            new = subst(new, {d: self.closed(d, v) for d in ds}) if ds else new
            return lst(tsfor(n, v, tsegs(tel(ite(lt(v, N), new, at(init, v)) if N is not n else new))))
        self.sys[x] = [at(init, u), g, None]
        self.ids[x.pay] = x
        return fn("setitem", init, u, self.closed(x, N))

    def pointwise(self, p, init, nxt, N):
        """p is a (nested) family whose shape never changes and whose elements evolve on their own"""
        dims = []
        us = []
        e = init
        while True:
            f = t_.simple_for(e)
            if f is None:
                break
            n, u, e = f
            if any(w.pay in n.fv for w in us):
                return None
            dims.append(n)
            us.append(u)
        if not dims:
            return None

        def elem(t, d):
            """element of t at us[d:], None if its shape differs"""
            if d == len(us):
                return t
            if t.op == "ite":
                a, b = elem(t.args[1], d), elem(t.args[2], d)
                return None if a is None or b is None else ite(t.args[0], a, b)
            f = t_.simple_for(t)
            if f is not None:
                return elem(subst(f[2], {f[1]: us[d]}), d + 1) if f[0] is dims[d] else None
            if t is p or (t.op == "at" and p.pay in t.fv):
                for k in range(d, len(us)):
                    t = at(t, us[k])
                return t
            return None
        en = elem(nxt, 0)
        if en is None:
            return None
        cell = p
        for u in us:
            cell = at(cell, u)
        x = phi(join_kind(kind(e), kind(en)))
        en = t_.replace(en, cell, x)
        if p.pay in en.fv:
            return None
        self.sys[x] = [e, en, None]
        self.ids[x.pay] = x
        if x in self.reach(x):
            x.kindc = None
        r = self.closed(x, N)
        for n, u in zip(reversed(dims), reversed(us)):
            w = newidx(n)
            r = lst(tsfor(n, w, tsegs(tel(subst(r, {u: w})))))
        return r

    def cyclic(self, p, *ts):
        for t in ts:
            for d in self.deps(t):
                if d is p or p in self.reach(d):
                    return True
        return False

    def generic(self, p, N):
        order = [p] + [q for q in self.sys if q is not p]
        if self.is_while:
            # keep only what p (and the condition) depends on
            vs = [phi(q.kindc) for q in order]
            m = dict(zip(order, vs))
            inits = [self.sys[q][0] for q in order]
            nexts = [subst(self.sys[q][1], m) for q in order]
            return twhile(vs, inits, subst(self.cond, m), nexts, 0)
        vs = [phi(q.kindc) for q in order]
        iv = newidx(N)
        m = dict(zip(order, vs))
        m[self.bv] = iv
        inits = [self.sys[q][0] for q in order]
        need = self.reach(p) | {p}
        nexts = [subst(self.sys[q][1], m) if q in need else NONE for q in order]
        return tloop(N, iv, vs, inits, nexts, 0)


def point_indices(t, bv):
    """index terms the loop index is compared with"""
    out = []
    seen = set()
    w = [t]
    while w and len(seen) < 2000:
        x = w.pop()
        if x in seen or bv.pay not in x.fv:
            continue
        seen.add(x)
        if x.op == "eq":
            a, b = x.args
            if a is bv or b is bv:
                o = b if a is bv else a
                if o not in out:
                    out.append(o)
        w.extend(x.args)
    return out


def subst_eq_false(t, u, bv):
    return t_.replace(t, eq(u, bv), FALSE)


def additive(p, nxt):
    """next = p + e (possibly under conditions): (segments of added values, [terms involved])"""
    if nxt is p:
        return tsegs(), []
    if nxt.op == "add":
        a, b = nxt.args
        if a is p and p.pay not in b.fv:
            return tsegs(tel(b)), [b]
        if b is p and p.pay not in a.fv:
            return tsegs(tel(a)), [a]
        # (p + x) + y
        for x, y in ((a, b), (b, a)):
            if p.pay in x.fv and p.pay not in y.fv:
                r = additive(p, x)
                if r is not None:
                    return tsegs(r[0], tel(y)), r[1] + [y]
    if nxt.op == "sub" and p.pay not in nxt.args[1].fv:
        r = additive(p, nxt.args[0])
        if r is not None:
            y = mk("neg", (nxt.args[1],))
            return tsegs(r[0], tel(y)), r[1] + [y]
    if nxt.op == "ite" and p.pay not in nxt.args[0].fv:
        a, b = additive(p, nxt.args[1]), additive(p, nxt.args[2])
        if a is not None and b is not None:
            return tsegs(tsif(nxt.args[0], a[0], b[0])), a[1] + b[1] + [nxt.args[0]]
    return None


def after(I, L, c, S, n, bv, st, mark, wcond):
    """value of a cell once the loop is over"""
    if c.mode == "tup":
        return Tup([c.pre.items[i] if s is None else after(I, L, s, S, n, bv, None, mark, wcond) for i, s in enumerate(c.subs)])
    if c.mode == "T":
        t = S.final(c.phi)
        if c.kind is not None and t.kindc is None:
            pass
        return t
    if c.mode == "V":
        t = S.final(c.phi)
        v = I.new(c.kind, (SOp(t),) if t.op not in ("lst",) else I.unreify_segs(t.args[0]))
        if wcond is None and t_.minval(n) is not None and t_.minval(n) >= 1:
            # at least one iteration: never the initial object unless the body keeps it
            return v
        return I.merge(eq(n, ZERO), c.pre, v) if wcond is None else v
    if c.mode == "C":
        sys_ = S.sys[c.phi]
        extra = sys_[2]
        if extra is not None and wcond is None and not ext_cyclic(S, c.phi, extra):
            v = newidx(n)
            ss = map_segs(extra, lambda t: S.prefix(subst(t, {bv: v}), v))
            ss = clean(ss)
            return c.pre.segs + ((SFor(n, v, ss),) if ss else ())
        t = S.final(c.phi)
        if t.op == "lst" and okind(clsname(c.pre.cls)) == "list":
            return I.unreify_segs(t.args[0])
        return (SOp(t),)
    # U / X: loop-local value
    if st is None:
        return UNDEF
    if I.fr.iscomp and c.mode == "U":
        return UNDEF
    I2 = st
    heap = I.heap
    I.heap = dict(st.heap)
    try:
        v = I.freeze(L.cellval(c, st), mark)
    finally:
        I.heap = heap
    if wcond is not None:
        t = asterm(I, v) if not has_undef(v) else None
        if t is None or isinstance(v, (Frz,)):
            return UNDEF
        # value of the last executed iteration: not expressible without a phi; keep opaque
        return top("loop-local value")
    last = sub(n, ONE)

    def f(t):
        return S.prefix(subst(t, {bv: last}), last)
    v = map_val(v, f)
    if isinstance(v, Frz):
        v = I.alloc(v.o)
    return I.merge(lt(ZERO, n), v, UNDEF if c.mode == "U" else c.pre)


def clean(ss):
    out = []
    for s in ss:
        if isinstance(s, SIf):
            a, b = clean(s.a), clean(s.b)
            if s.c is TRUE:
                out.extend(a)
            elif s.c is FALSE:
                out.extend(b)
            elif a or b:
                out.append(SIf(s.c, a, b))
        else:
            out.append(s)
    return tuple(out)


def ext_cyclic(S, p, extra):
    hit = []

    def f(t):
        if S.cyclic(p, t):
            hit.append(t)
        return t
    map_segs(extra, f)
    return bool(hit)


# -------------------------------------------------------------------- while
def worklist(st):
    """while S: x = S.pop(); ... S.append(..) ...: the name S and whether it is served first-in first-out"""
    import ast
    t = st.test
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.NotEq)):
        r = t.comparators[0]
        if isinstance(r, ast.Constant) and r.value == 0 and isinstance(t.left, ast.Call) or isinstance(r, ast.List) and not r.elts and isinstance(t.ops[0], ast.NotEq):
            t = t.left
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("len", "bool") and len(t.args) == 1:
        t = t.args[0]
    if not isinstance(t, ast.Name):
        return None
    b = st.body[0]
    if not (isinstance(b, ast.Assign) and isinstance(b.value, ast.Call) and not b.value.keywords):
        return None
    f = b.value.func
    if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == t.id):
        return None
    a = b.value.args
    if f.attr == "pop" and (not a or ast.dump(a[0]) == ast.dump(ast.parse("-1").body[0].value)):
        fifo = False
    elif f.attr == "popleft" and not a or f.attr == "pop" and isinstance(a[0], ast.Constant) and a[0].value == 0:
        fifo = True
    else:
        return None
    ok = {id(f.value)}

    def walk(n, inner):
        if isinstance(n, ast.Break) and not inner:
            return False
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
            return all(not (isinstance(m, ast.Name) and m.id == t.id) for m in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("append", "extend"):
            if isinstance(n.value.func.value, ast.Name):
                ok.add(id(n.value.func.value))
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
            ok.add(id(n.target))
        if isinstance(n, ast.Name) and n.id == t.id and id(n) not in ok:
            return False
        loop = isinstance(n, (ast.For, ast.While))
        for fld, c in ast.iter_fields(n):
            for m in c if isinstance(c, list) else (c,):
                if isinstance(m, ast.AST) and not walk(m, inner or loop and fld == "body"):
                    return False
        return True
    if not all(walk(x, False) for x in st.body):
        return None
    return t.id, fifo


def run_worklist(I, st, name, fifo):
    """a work list is served exactly: the elements in it, and what each one's processing adds"""
    S = I.fr.env[name]
    ctx = ip.LoopCtx()
    ctx.has_else = bool(st.orelse)
    I.fr.loops.append(ctx)

    def contents(ss):
        I.heap[S.loc] = I.heap[S.loc].but(segs=ss)

    def process(v, depth, acc):
        contents((SEl(v),))
        I.iteration(lambda: I.exec_block(st.body), ctx)
        if I.fr.env.get(name) is not S:
            raise Unsup("work list rebound")
        new = I.heap[S.loc].segs
        contents(())
        if not new:
            return
        if acc is not None:
            I.heap[acc.loc] = I.heap[acc.loc].but(segs=I.heap[acc.loc].segs + new)
        else:
            drain(new, depth + 1)

    def serve(ss, depth, acc):
        for s in ss if acc is not None else reversed(ss):
            if isinstance(s, SEl):
                process(I.lift(s.v), depth, acc)
            elif isinstance(s, SIf):
                I.branch(s.c, lambda s=s: serve(s.a, depth, acc), lambda s=s: serve(s.b, depth, acc))
            elif isinstance(s, SFor):
                if isconst(s.n) and cval(s.n) <= 1:
                    if cval(s.n) == 1:
                        m = {s.bv: ZERO}
                        serve(ip.map_segs(s.segs, lambda t: subst(t, m)), depth, acc)
                    continue
                s = ip.fresh_for(s)
                if acc is None:
                    m = {s.bv: sub(sub(s.n, ONE), s.bv)}
                    b = newidx(s.n)
                    m = {s.bv: sub(sub(s.n, ONE), b)}
                    s = SFor(s.n, b, ip.map_segs(s.segs, lambda t: subst(t, m)))
                I.summarise(s.n, s.bv, lambda s=s: serve(s.segs, depth, acc), ctx)
            elif isinstance(s, SOp):
                serve(I.titer(s.t), depth, acc)
            else:
                raise Unsup("work list segment")

    def drain(ss, depth):
        if depth > 40:
            raise Unsup("work list depth")
        if not fifo:
            return serve(ss, depth, None)
        acc = I.alloc(HObj("list", (), {}, "fresh", I.site()))
        serve(ss, depth, acc)
        nxt = I.heap[acc.loc].segs
        if nxt:
            drain(nxt, depth + 1)
    alive = True
    try:
        ss = I.heap[S.loc].segs
        contents(())
        drain(ss, 0)
    except PathDead:
        alive = False
    finally:
        I.fr.loops.pop()
    if st.orelse and alive:
        try:
            I.exec_block(st.orelse)
        except PathDead:
            alive = False
    I.end_for(alive, ctx)


def run_while(I, st):
    w = worklist(st)
    if w is not None:
        v = I.fr.env.get(w[0])
        if isinstance(v, Ref) and clsname(I.heap[v.loc].cls) in ("list", "deque"):
            return run_worklist(I, st, *w)
    ctx = ip.LoopCtx()
    ctx.has_else = bool(st.orelse)
    I.fr.loops.append(ctx)
    alive = True
    try:
        for _ in range(64):
            pre = I.snap()
            ne, nr, nb = len(I.events), len(I.fr.rets), len(ctx.brks)
            ntr = [(f, len(f.recs)) for f in I.trys]
            c = I.truth(I.eval(st.test))
            if c is FALSE:
                break
            ok = False
            if c is TRUE:
                try:
                    I.iteration(lambda: I.exec_block(st.body), ctx)
                    ok = True
                except PathDead:
                    # every path leaves the loop
                    alive = False
                    break
                if ok and len(ctx.brks) == nb and len(I.fr.rets) == nr and I.pc is pre.pc:
                    continue
            # symbolic condition or partial exit: summarise from here
            I.restore(pre)
            del I.events[ne:]
            del I.fr.rets[nr:]
            del ctx.brks[nb:]
            for f, k in ntr:
                del f.recs[k:]
            L = Loop(I, ctx)
            saved = I.pc
            L.run(lambda: I.truth(I.eval(st.test)),
                  lambda: I.iteration(lambda: I.exec_block(st.body), ctx))
            finish(I, L, None, None, True, saved)
            break
        else:
            raise Unsup("while unrolling")
    except PathDead:
        alive = False
    finally:
        I.fr.loops.pop()
    if st.orelse and alive:
        try:
            I.exec_block(st.orelse)
        except PathDead:
            alive = False
    I.end_for(alive, ctx)
