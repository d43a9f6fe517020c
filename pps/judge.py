"""Deciding the properties over the value graphs, heaps and effects of one configuration."""
import math
import re

from . import terms as t_
from .terms import T, TRUE, FALSE, and_, not_, isconst, cval, sym, const, kind
from .core import (Session, same_rows, Obs, Out, outcome, close, set_tol, plainv, densify, valuations, constants, targeted, Undecided, Inst_, Ref, View, VIte, Tup, FObj, Frz,
                   ClassObj, BCls, SEl, SFor, SIf, SOp, DSet, DAdd, DDel, UNDEF, Undef, Fn, BoundM, Bi, Partial, Mod, clsname, HObj, Unsup,
                   PathDead, AnchorError)
from .world import RowVal, Opaque, NpScal, NpArr, ObjEls, ObjArr, Inst, FCls
from .interp import LISTY

FULL = {"C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C29", "C30", "C33"}


class Report(object):
    """obligations and violations of one (property, configuration)"""

    def __init__(self, pid, case):
        self.pid, self.case = pid, case
        self.obs = []
        self.bad = []

    def ob(self, what, status, note=""):
        """status: proved (structural), agreed (no separating valuation), undecided"""
        self.obs.append((what, status, str(note)[:200]))

    def violation(self, what, rule, site, message, witness=None):
        self.bad.append({"property": self.pid, "configuration": self.case.id, "call": what, "rule": rule, "construct": site,
                         "message": message, "witness": witness})


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def witness(v):
    d = {}
    for k in list(v.c):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], str) and isinstance(k[1], tuple):
            d["%s%s" % (k[0], list(k[1]) if k[1] else "")] = v.c[k] if isinstance(v.c[k], (int, float, str, bool, type(None))) else short(v.c[k], 120)
        if len(d) > 60:
            break
    return d


def evsite(S, ev):
    return S.loc(ev) if ev is not None else ""


class Judge(object):
    def __init__(self, S, n, seed):
        self.S, self.case, self.n, self.seed = S, S.case, n, seed
        self._vals = {}

    def vals(self, modes=None, n=None):
        """valuations (lists are kept: symbols are drawn lazily and shared between calls)"""
        modes = tuple(modes or self.case.modes)
        n = n or self.n
        key = (modes, n)
        if key not in self._vals:
            self._vals[key] = list(valuations(self.S, n, modes, self.seed))
        return self._vals[key]

    def more(self, obs, modes=None, minus=()):
        """valuations aimed at the constants only the judged calls mention"""
        cs = constants(*obs)
        ws = set(constants(*obs, strs=True))
        if minus:
            known = set(constants(*minus))
            cs = [c for c in cs if c not in known]
            ws -= set(constants(*minus, strs=True))
        ws = {q for w in ws for q in [w, w.strip()] + re.findall(r"\w+", w) if 0 < len(q) < 24}
        if not cs and not ws:
            return []
        cs, ws = cs[:24], sorted(ws)[:24]
        key = ("more", tuple(cs), tuple(ws), tuple(modes or ()))
        if key not in self._vals:
            self._vals[key] = list(targeted(self.S, max(16, self.n // 2), cs, tuple(modes or self.case.modes), self.seed, ws))
        return self._vals[key]

    def many(self, n=8):
        """valuations with more rows than usual"""
        if "many" not in self._vals:
            N = self.S.W.sizes.get("N")
            self._vals["many"] = [] if N is None or isconst(N) else list(valuations(self.S, n, tuple(self.case.modes), self.seed + 5, {("N", ()): 6}))
        return self._vals["many"]

    def large(self, modes=None):
        """for every size a valuation where it alone is beyond ten"""
        key = ("large", tuple(modes or ()))
        if key not in self._vals:
            W = self.S.W
            self._vals[key] = out = []
            for k, (nm, t) in enumerate(sorted(W.sizes.items())):
                if not isconst(t) and t_.SIZEMIN.get(nm, 0) <= 11:
                    try:
                        out += valuations(self.S, 1, tuple(modes or self.case.modes), self.seed + 31 + k, {(nm, ()): 12 + k % 3})
                    except (Undecided, IndexError, KeyError, ValueError):
                        pass
        return self._vals[key]

    # ---------------------------------------------------------- comparing
    def compare(self, R, what, a, b, rel=None, modes=None, conv=None, rule="", site="", name_b="the reference", accept_reject=False, raises=False, optional=False):
        """a must give the value b gives, whenever b gives one"""
        S = self.S
        if a.err or b.err:
            R.ob(what, "undecided", a.err or b.err)
            return
        live = [e for e in a.own if e.kind in ("raise", "crash")]
        if rel is None and a.term is not None and a.term is b.term and conv is None and not live:
            R.ob(what, "proved", "identical value graphs")
            return
        rel = rel or close
        stops = agreed = 0
        why = ""
        for v in self.vals(modes) + self.large(modes) + self.more([a], modes, [b] if name_b == "the fitted formula" else ()):
            set_tol(v)
            ob = outcome(b, v)
            if ob.kind == "reject" and raises:
                oa = outcome(a, v)
                if oa.kind == "value":
                    R.violation(what, rule, site, "%s gives %s where %s rejects the input (%s)" % (what, short(oa.val), name_b, ob.exc), witness(v))
                    return
                if oa.kind == "reject":
                    agreed += 1
                continue
            if ob.kind != "value":
                if ob.kind == "stop":
                    stops += 1
                    why = ob.exc
                continue
            oa = outcome(a, v)
            if oa.kind == "stop":
                stops += 1
                why = oa.exc
                continue
            if oa.kind == "dead":
                stops += 1
                continue
            if oa.kind in ("reject", "crash"):
                if (oa.kind == "reject" and accept_reject) or optional:
                    agreed += 1
                    continue
                R.violation(what, rule, evsite(S, oa.ev) or site, "%s raises %s where %s gives %s" % (what, oa.exc, name_b, short(ob.val)), witness(v))
                return
            x, y = plainv(oa.val), plainv(ob.val)
            if conv:
                x, y = conv(oa.val), conv(ob.val)
                if x is None or y is None:
                    stops += 1
                    continue
            if not rel(x, y):
                R.violation(what, rule, site, "%s gives %s but %s gives %s" % (what, short(x), name_b, short(y)), witness(v))
                return
            agreed += 1
        if agreed == 0:
            R.ob(what, "undecided", why or "no comparable valuation")
        else:
            R.ob(what, "agreed", "%d valuations, %d without verdict" % (agreed, stops))

    def each(self, R, what, obs, pred, modes=None, rule="", site="", other=None):
        """pred(values..., v) -> message or None, over the valuations on which all calls give a value"""
        for o in obs:
            if o.err:
                R.ob(what, "undecided", o.err)
                return
        agreed = stops = 0
        why = ""
        for v in self.vals(modes) + self.more(obs, modes):
            set_tol(v)
            outs = [outcome(o, v) for o in obs]
            if any(o.kind != "value" for o in outs):
                if other is not None:
                    m = other(outs, v)
                    if m:
                        ev = [o.ev for o in outs if o.kind != "value"][0]
                        R.violation(what, rule, evsite(self.S, ev) or site, m, witness(v))
                        return
                stops += 1
                why = str([o.exc for o in outs if o.kind != "value"][0])
                continue
            m = pred(*([o.val for o in outs] + [v]))
            if m:
                R.violation(what, rule, site, m, witness(v))
                return
            agreed += 1
        if agreed == 0:
            R.ob(what, "undecided", why or "no valuation")
        else:
            R.ob(what, "agreed", "%d valuations, %d without verdict" % (agreed, stops))

    def calls(self, only=None):
        for m, ins in self.case.methods.items():
            if only and m not in only:
                continue
            for i in ins:
                yield m, i, "%s(%s)" % (m, i)


def dense_form(case, i):
    """the input the formula is evaluated on: the dense form of a sparse container"""
    d = "densified" + i[6:]
    return d if i.startswith("sparse") and d in case.inputs else i


# =============================================================== value properties
def j_value(J, R):
    S, case = J.S, J.case
    for m, i, what in J.calls():
        if m not in case.specs and not case.ref_by_input:
            continue
        a = S.call(m, i)
        ref_in = dense_form(case, i)
        b = S.spec(m, ref_in)
        J.compare(R, what, a, b, rel=case.rel, conv=case.conv, rule="value graph equals the fitted formula", site=S.site_of(m), name_b="the fitted formula", raises=case.raises)
    for m in case.optional:
        for i in next(iter(case.methods.values())):
            a = S.call(m, i)
            what = "%s(%s)" % (m, i)
            if not a.err and a.value is None:
                R.ob(what, "proved", "absent, or every path raises")
                continue
            b = S.spec(m, dense_form(case, i))
            J.compare(R, what, a, b, rel=case.rel, conv=case.conv, rule="value graph equals the fitted formula", site=S.site_of(m), name_b="the fitted formula", optional=True)


def j_pairwise(J, R):
    """C33: definitions and rejections"""
    j_value(J, R)
    j_malformed(J, R)
    S = J.S
    for m, i, what in J.calls():
        same = i in J.case.self_inputs
        if J.case.self_inputs is None or not i.startswith(("X", "sparse")) or m != "cosine_distances_pure":
            continue

        def pred(x, v, same=same):
            for r, row in enumerate(x):
                for c, d in enumerate(row):
                    if d == d and not 0 <= d <= 2:
                        return "distance %r is outside [0, 2]" % (d,)
                    if same and r == c and d != 0:
                        return "distance %r between a row and itself" % (d,)
            return None
        J.each(R, what + " range", [S.call(m, i)], pred, rule="distances lie in [0, 2], exactly 0 between a row and itself", site=S.site_of(m))


def j_rows(J, R):
    """C07"""
    S, case = J.S, J.case
    for m, i, what in J.calls():
        if not case.batch.get(m, True) or not case.batch.get(i, True):
            continue
        a = S.call(m, i)
        if a.err:
            R.ob(what, "undecided", a.err)
            continue
        if rowwise(S, a):
            R.ob(what, "proved", "one result per row; each depends on its own row only")
            continue
        bad = None
        agreed = 0
        why = ""
        a1 = a
        if S.bounded is not None:
            # the sizes are fixed: one row alone is an analysis of its own
            a1 = one_row(J, m, i)
            if a1.err:
                R.ob(what, "undecided", a1.err)
                continue
        for v in J.vals() + J.more([a]):
            o = outcome(a, v)
            n = v.get("N")
            if o.kind == "reject":
                try:
                    alone = [outcome(a1, RowVal(v, k, S.W.inputs)).kind for k in range(n)]
                except IndexError:
                    continue
                if n and all(k == "value" for k in alone):
                    bad = "a batch of %d is rejected (%s) although each of its rows is accepted alone" % (n, o.exc)
                    R.violation(what, "row independence", evsite(S, o.ev) or S.site_of(m), bad, witness(v))
                    break
                continue
            if o.kind != "value":
                why = o.exc
                continue
            x = plainv(o.val)
            if not isinstance(x, (list, tuple)) or len(x) != n:
                bad = "%d input rows give %s results" % (n, len(x) if isinstance(x, (list, tuple)) else "no list of")
            else:
                for k in range(n):
                    rv = RowVal(v, k, S.W.inputs)
                    try:
                        o1 = outcome(a1, rv)
                    except IndexError:
                        continue
                    if o1.kind == "reject":
                        bad = "row %d is accepted in a batch of %d but rejected alone (%s)" % (k, n, o1.exc)
                    elif o1.kind == "crash":
                        bad = "row %d gives a result in a batch of %d but raises %s alone" % (k, n, o1.exc)
                    elif o1.kind != "value":
                        why = o1.exc
                        continue
                    else:
                        y = plainv(o1.val)
                        if len(y) != 1 or not close(x[k], y[0], sparse=True):
                            bad = "row %d gives %s in a batch of %d but %s alone" % (k, short(x[k]), n, short(y))
                    if bad:
                        break
                agreed += 1
            if bad:
                R.violation(what, "row independence", S.site_of(m), bad, witness(v))
                break
        else:
            R.ob(what, "agreed" if agreed else "undecided", "%d valuations" % agreed if agreed else why)


def one_row(J, m, i):
    """the same call analysed with the batch size fixed to one"""
    keep = dict(t_.SYMLEN)
    try:
        if getattr(J, "one", None) is None:
            J.one = Session(J.case, dict(J.S.bounded, N=1))
            J.onelen = dict(t_.SYMLEN)
        t_.SYMLEN.clear()
        t_.SYMLEN.update(J.onelen)
        return J.one.call(m, i)
    finally:
        t_.SYMLEN.clear()
        t_.SYMLEN.update(keep)


def rowwise(S, a):
    """the result is one family over the rows and every input symbol is read at that row's index only"""
    if any(e.kind in ("raise", "crash") for e in a.own) or a.term is None:
        return False
    t = a.term
    if t.op == "fn" and t.pay == "inst":
        t = t.args[-1]
    sf = t_.simple_for(t)
    if sf is None:
        return False
    n, v, e = sf
    if n is not S.W.sizes.get("N"):
        return False
    ok = [True]
    seen = set()

    def go(x):
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.op == "sym":
            nm = x.pay if isinstance(x.pay, str) else x.pay[0]
            if nm == "N":
                ok[0] = False
            if nm in S.W.inputs and (not x.args or x.args[0] is not v):
                ok[0] = False
        if x is v:
            # the row index itself may only be used to read the row
            pass
        for k, y in enumerate(x.args):
            if y is v and x.op == "sym" and k == 0 and (x.pay if isinstance(x.pay, str) else x.pay[0]) in S.W.inputs:
                continue
            if y is v:
                ok[0] = False
            go(y)
    go(e)
    return ok[0]


# ================================================================== labels, probabilities
def argmaxes(xs):
    m = max(xs)
    return [i for i, x in enumerate(xs) if x == m]


def near(xs):
    """the winner is not decided by more than rounding"""
    s = sorted(xs, reverse=True)
    return len(s) > 1 and s[0] != s[1] and s[0] - s[1] <= 1e-9 * max(1.0, abs(s[0]))


def j_labels(J, R):
    S, case = J.S, J.case
    if not case.classifier or not case.scores:
        return
    for m, i, what in J.calls(("predict",)):
        a, sc = S.call("predict", i), S.call(case.scores, i)
        ties = "tie" in case.modes or "tie0" in case.modes

        def pred(p, s, v):
            cl = [v.get("classes", k) for k in range(t_.ev(S.W.C, v))]
            if len(p) != len(s):
                return "%d labels for %d rows" % (len(p), len(s))
            for lab, row in zip(p, s):
                if not any(type(lab) is type(c) and lab == c for c in cl):
                    return "%r is not one of the fitted labels %r" % (lab, cl)
                if not isinstance(row, list):
                    if abs(row) < 1e-12 and row != 0:
                        continue
                    want = cl[1] if row > 0 else cl[0]
                else:
                    if any(x != x for x in row):
                        continue
                    if near(row):
                        continue
                    am = argmaxes(row)
                    if len(am) > 1 and v.mode not in ("tie", "tie0"):
                        continue
                    want = cl[am[0]]
                if not (type(want) is type(lab) and want == lab):
                    return "label %r for scores %r of classes %r (expected %r)" % (lab, row, cl, want)
            return None

        def other(outs, v):
            if outs[0].kind in ("crash", "reject") and outs[1].kind == "value":
                return "predict raises %s where %s gives %s" % (outs[0].exc, case.scores, short(outs[1].val))
            return None
        J.each(R, what, [a, sc], pred, rule="label of the first class with the largest score", site=S.site_of("predict"), other=other)


def j_logs(J, R):
    S, case = J.S, J.case
    ms = case.methods
    if "predict_proba" not in ms:
        return
    for i in ms["predict_proba"]:
        p = S.call("predict_proba", i)
        if "predict_log_proba" in ms:
            lp = S.call("predict_log_proba", i)

            def pred(a, b, v):
                if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b)):
                    return "probabilities %s, log-probabilities %s" % (short(a), short(b))
                for x, y in zip(a, b):
                    if len(x) != len(y):
                        return "probabilities %s, log-probabilities %s" % (short(x), short(y))
                    for u, w in zip(x, y):
                        if u != u:
                            continue
                        if u == 0:
                            if not (w == -math.inf or w < -700):
                                return "probability 0 has log-probability %r" % (w,)
                        elif w == -math.inf:
                            return "probability %r has log-probability -inf" % (u,)
                        elif u < 1e-290:
                            continue
                        elif w != w or not abs(math.log(u) - w) <= 1e-7 * max(1, abs(w)):
                            return "probability %r has log-probability %r" % (u, w)
                return None

            def other(outs, v):
                if outs[0].kind == "value" and outs[1].kind in ("crash", "reject"):
                    return "predict_log_proba raises %s where predict_proba gives %s" % (outs[1].exc, short(outs[0].val))
                if outs[1].kind == "value" and outs[0].kind in ("crash", "reject"):
                    return "predict_proba raises %s where predict_log_proba gives %s" % (outs[0].exc, short(outs[1].val))
                return None
            J.each(R, "predict_log_proba/predict_proba(%s)" % i, [p, lp], pred, modes=case.modes + case.bigmodes,
                   rule="log-probability is the logarithm of the probability", site=S.site_of("predict_log_proba"), other=other)
        if "predict" in ms and case.classifier:
            pr = S.call("predict", i)

            def pred2(a, b, v):
                cl = [v.get("classes", k) for k in range(t_.ev(S.W.C, v))]
                for x, lab in zip(a, b):
                    if any(u != u for u in x) or near(x):
                        continue
                    am = argmaxes(x)
                    # equal probabilities may hide different scores (saturation); exact ties are judged by the label rule
                    if len(am) > 1:
                        continue
                    if not (lab == cl[am[0]]):
                        return "label %r although the probabilities of classes %r are %r" % (lab, cl, x)
                return None
            J.each(R, "predict/predict_proba(%s)" % i, [p, pr], pred2, modes=case.modes + case.bigmodes, rule="label of the most probable class", site=S.site_of("predict"))


def j_prob(J, R):
    S, case = J.S, J.case
    if "predict_proba" not in case.methods:
        return
    for i in case.methods["predict_proba"]:
        p = S.call("predict_proba", i)
        what = "predict_proba(%s)" % i
        sp = S.spec("predict_proba", dense_form(case, i)) if "predict_proba" in case.specs else None
        sc = S.call("decision_function", i) if "decision_function" in case.methods else None

        def pred(a, v):
            C = t_.ev(S.W.C, v)
            ref = None
            for r, x in enumerate(a):
                if len(x) != C:
                    return "%d probabilities for %d classes" % (len(x), C)
                if any(u != u for u in x):
                    if sc is not None:
                        o = outcome(sc, v)
                        if o.kind == "value":
                            s = o.val[r]
                            if not all(math.isfinite(z) for z in (s if isinstance(s, list) else [s])):
                                continue
                    if sp is not None:
                        ref = ref or outcome(sp, v)
                        if ref.kind != "value" or any(u != u for u in ref.val[r]):
                            continue
                    return "probabilities %r" % (x,)
                if any(u < 0 or u > 1 + 1e-9 for u in x) or abs(sum(x) - 1) > 1e-6:
                    return "probabilities %r" % (x,)
            return None

        def other(outs, v):
            if outs[0].kind == "crash" and outs[0].exc in ("OverflowError", "ZeroDivisionError", "ValueError", "IndexError", "FloatingPointError"):
                return "predict_proba raises %s" % outs[0].exc
            if outs[0].kind == "reject" and sp is not None and outcome(sp, v).kind == "value":
                return "predict_proba raises %s" % outs[0].exc
            return None
        J.each(R, what, [p], pred, modes=case.modes + case.bigmodes + case.bigmodes, rule="probabilities form a distribution", site=S.site_of("predict_proba"), other=other)


# ================================================================== sparse
def j_sparse(J, R):
    S, case = J.S, J.case
    if case.sparse_in is None or case.sparse_in is False:
        if case.sparse_in is False:
            for m in case.methods:
                a = call_bad(S, m, "sparse")
                must_reject(J, R, "%s(sparse)" % m, a, m, "sparse input is rejected explicitly", "a model without sparse support")
        return
    for m, ins in case.methods.items():
        for i in ins:
            if not i.startswith("sparse"):
                continue
            a, b = S.call(m, i), S.call(m, "densified" + i[6:])
            J.compare(R, "%s(%s)" % (m, i), a, b, conv=densify, rule="sparse and dense input give the same result", site=S.site_of(m), name_b="the dense form")


def call_bad(S, m, name):
    S.case.inputs.setdefault(name, S.case.bad[name])
    return S.call(m, name)


def must_reject(J, R, what, a, m, rule, who, cond=None):
    S = J.S
    if a.err:
        R.ob(what, "undecided", a.err)
        return
    if a.value is None and a.own and all(e.kind == "raise" for e in a.own if e.kind in ("raise", "crash")):
        R.ob(what, "proved", "every path raises explicitly")
        return
    agreed = 0
    why = ""
    for v in J.vals():
        if cond and not cond(v):
            continue
        o = outcome(a, v)
        if o.kind == "value":
            R.violation(what, rule, S.site_of(m), "%s accepts it and gives %s" % (who, short(o.val)), witness(v))
            return
        if o.kind == "crash":
            R.violation(what, rule, evsite(S, o.ev) or S.site_of(m), "%s fails with %s instead of an explicit error" % (who, o.exc), witness(v))
            return
        if o.kind == "reject":
            agreed += 1
        else:
            why = o.exc
    R.ob(what, "agreed" if agreed else "undecided", "%d valuations" % agreed if agreed else why)


def j_malformed(J, R):
    S, case = J.S, J.case
    for b in case.bad:
        if b == "sparse":
            continue
        for m in case.methods:
            if m in case.bad_skip or (m, b) in case.bad_skip:
                continue
            a = call_bad(S, m, b)
            cond = case.bad_cond.get(b)
            if b == "uneven":
                def cond(v):
                    return any(v.get("rag", k) != 0 for k in range(v.get("N")))
            elif b == "ragged":
                def cond(v):
                    return v.get("N") > 1
            must_reject(J, R, "%s(%s)" % (m, b), a, m, "malformed input raises explicitly", "the model", cond)


def j_sparse_out(J, R):
    """C23"""
    S, case = J.S, J.case
    if not case.sparse_out:
        return
    for m, i, what in J.calls():
        if case.sparse_out is not True and i not in case.sparse_out:
            continue
        a = S.call(m, i)

        def pred(x, v):
            if not (isinstance(x, Inst_) and x.cls.endswith(".sparse_list") and x.items is not None):
                return "sparse output is %s" % short(x)
            w = case.out_width(S, v)
            if x.attrs.get("size") != w or isinstance(x.attrs.get("size"), bool):
                return "the container's width is %r, the output has %r columns" % (x.attrs.get("size"), w)
            for r in x.items:
                if not isinstance(r, dict):
                    return "row %s is no dictionary" % short(r)
                for k in r:
                    if isinstance(k, bool) or not isinstance(k, int) or not 0 <= k < w:
                        return "column key %r outside 0..%d" % (k, w - 1)
            d = x.attrs.get("dtype")
            if not (isinstance(d, tuple) and d[0] == "type" and d[1] in ("float", "int", "bool", "str", "object")):
                return "data type %r cannot make the zero of the dense form" % (d,)
            return None
        J.each(R, what, [a], pred, rule="sparse output is a well-formed container", site=S.site_of(m))


# ================================================================== interface
QUESTIONS = ("predict", "predict_proba", "predict_log_proba", "transform")


def final_source(S, x):
    """the source estimator whose classes the model reports"""
    while isinstance(x, Inst) and x.cname == "Pipeline":
        x = x.parts[-1]
    return x if isinstance(x, Inst) else None


def j_interface(J, R):
    """C36"""
    S, case = J.S, J.case
    conv = S.convert()
    if conv.err:
        R.ob("conversion", "undecided", conv.err)
        return
    inp = next(iter(ins[0] for ins in case.methods.values()))
    for m in QUESTIONS:
        if m in case.methods or m in case.also:
            continue
        a = S.call(m, inp)
        what = "%s(%s)" % (m, inp)
        if a.err:
            R.ob(what, "undecided", a.err)
        elif a.value is None:
            R.ob(what, "proved", "absent, or every path raises")
        else:
            for v in J.vals() + J.more([a]):
                o = outcome(a, v)
                if o.kind == "value":
                    R.violation(what, "the model answers what its source answers", S.site_of(m), "%s has no %s, the converted model gives %s" % (case.id, m, short(o.val)), witness(v))
                    break
            else:
                R.ob(what, "agreed", "no valuation gives a result")
    if case.classifier:
        e = final_source(S, S.src)
        arr = e.attrs.get("classes_") if e is not None else None
        if isinstance(arr, NpArr):
            a = S.attr("classes_")
            b = S.compose("fitted classes", lambda call: S.I.call(S.I.getattr(arr, "tolist"), [], {}))
            J.compare(R, "classes_", a, b, rule="the model reports the fitted classes", site=S.loc(a.own[-1]) if a.own else S.site_of("predict"), name_b="the source", rel=same_labels)
    if getattr(S.src, "cname", "") == "Pipeline":
        a = S.attr("len", lambda I, m: I.call(S.ref_mod.env["length"], [m], {}))
        n = len(S.src.parts)
        J.each(R, "len", [a], lambda x, v: None if x == n else "a pipeline of %d steps has length %s" % (n, short(x)), rule="the model answers what its source answers", site=S.site_of("predict"))


def same_labels(a, b):
    return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(type(x) == type(y) and x == y for x, y in zip(a, b))


# ================================================================== crashes
def j_crash(J, R):
    S, case = J.S, J.case
    conv = S.convert()
    if conv.err:
        R.ob("conversion", "undecided", conv.err)
        return
    evs = [e for e in conv.events if e.kind == "crash"]
    if conv.value is None and not [e for e in conv.events if e.kind == "raise"]:
        for e in evs[:1]:
            R.violation("conversion", "no internal failure", S.loc(e), "%s: %s" % e.data[:2], None)
            return
    for m, i, what in J.calls():
        a = S.call(m, i)
        if a.err:
            R.ob(what, "undecided", a.err)
            continue
        cr = [e for e in a.events if e.kind == "crash"]
        hard = [e for e in cr if e.gate is TRUE]
        if hard:
            R.violation(what, "no internal failure", S.loc(hard[0]), "%s: %s on every path" % (hard[0].data[0], hard[0].data[1]))
            continue
        agreed = 0
        why = ""
        for v in J.vals(case.modes + case.crashmodes) + J.more([a]):
            o = outcome(a, v)
            if o.kind == "crash" and (case.crash_ok is None or not case.crash_ok(o, v, S)):
                R.violation(what, "no internal failure", evsite(S, o.ev) or S.site_of(m), "%s %s" % (o.exc, o.val if isinstance(o.val, str) else ""), witness(v))
                break
            if o.kind in ("value", "reject"):
                agreed += 1
            else:
                why = o.exc
        else:
            if not cr and agreed:
                R.ob(what, "agreed", "no failing operation on any path; evaluation total on %d valuations" % agreed)
            else:
                R.ob(what, "agreed" if agreed else "undecided", "%d potential failures infeasible on %d valuations" % (len(cr), agreed) if agreed else why)


# ================================================================== effects
def satisfiable(J, o, e, modes=None):
    """does some valuation reach the event"""
    if e.gate is TRUE:
        return True, None
    for v in J.vals(modes) + J.more([o]):
        try:
            if t_._Ev(v).go(e.gate, {}):
                # not preceded by an exception
                pre = Obs("")
                k = o.events.index(e)
                pre.events = [x for x in o.events[:k] if x.kind in ("raise", "crash")]
                pre.value = True
                if outcome(pre, v, want_value=False).kind == "value":
                    return True, v
        except Exception:
            continue
    return False, None


def effect(J, R, what, o, e, rule, msg, may=False):
    ok, v = satisfiable(J, o, e)
    if ok:
        R.violation(what, rule, J.S.loc(e), msg, witness(v) if v is not None else None)
        return True
    if may:
        # the write is on a path whose condition the analysis cannot refute
        R.violation(what, rule, J.S.loc(e), msg + " when " + t_.show(e.gate)[:200], None)
        return True
    return False


def j_input(J, R):
    """C05"""
    S, case = J.S, J.case
    for m, i, what in J.calls():
        a = S.call(m, i)
        hit = False
        for e in a.own:
            if e.kind == "mutate" and e.data[0] == "input":
                hit = effect(J, R, what, a, e, "no write to a value reachable from the argument", "the caller's input is modified: %s" % (e.data[1],), may=True)
            elif e.kind == "setattr" and e.data[0] == "input":
                hit = effect(J, R, what, a, e, "no write to a value reachable from the argument", "attribute %s of the caller's input is assigned" % e.data[1], may=True)
            elif e.kind == "mutate" and e.data[0] in ("opaque", "unknown") and not hit and a.err:
                pass
            if hit:
                break
        if not hit:
            R.ob(what, "undecided" if a.err else "proved", a.err or "no write to the argument on any path")


def j_result(J, R):
    """C06"""
    S, case = J.S, J.case
    for m, i, what in J.calls():
        a = S.call(m, i)
        if a.err:
            R.ob(what, "undecided", a.err)
            continue
        if a.value is None:
            R.ob(what, "undecided", "no result")
            continue
        msg = shared(S, a)
        if not msg and a.term is not None:
            if stored_rows(a.term):
                for v in J.vals() + J.more([a]) + J.many():
                    try:
                        if outcome(a, v, want_value=False).kind != "value":
                            continue
                        same = same_rows(a.term, v)
                    except Exception:
                        continue
                    if same:
                        msg = "rows %d and %d of the result are the same object" % same
                        break
        if msg:
            R.violation(what, "result shares no mutable object", S.site_of(m), msg)
        else:
            R.ob(what, "proved", "all containers of the result are allocated by the call, one per row")


def stored_rows(term):
    """rows may be taken from a container filled while the rows were computed"""
    st = [term]
    seen = set()
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("loop", "at") or t.op == "fn" and t.pay == "dget":
            return True
        if t.op == "ite":
            st += [t.args[1], t.args[2]]
        elif t.op in ("tup", "lst", "segs", "el", "sop"):
            st += [x for x in t.args if isinstance(x, T)]
        elif t.op in ("sfor", "sif"):
            st += [x for x in t.args[1:] if isinstance(x, T)]
        elif t.op == "fn" and t.pay == "inst" and t.args:
            st.append(t.args[-1])
    return False


def mutable(o):
    if isinstance(o.cls, ClassObj):
        return True
    return o.cls in ("list", "dict", "set", "defaultdict", "bytearray", "deque")


def shared(S, a):
    """message when the result aliases the model, or two of its rows are one object"""
    I = S.I
    saved = I.snap()
    I.restore(a.state)
    seen = {}
    out = []
    modelrefs = model_refs(S)

    def visit(v, path, fam, depth):
        """fam: index variables of the families the value is a member of"""
        if out or depth > 12:
            return
        if isinstance(v, VIte):
            visit(v.a, path, fam, depth)
            visit(v.b, path, fam, depth)
            return
        if isinstance(v, Tup):
            for k, x in enumerate(v.items):
                visit(x, path + "[%d]" % k, fam, depth + 1)
            return
        if isinstance(v, (Ref, View, Frz)):
            try:
                o = I.obj(v)
            except (Unsup, PathDead):
                return
            if o is None:
                return
            if mutable(o):
                if o.region in ("model", "global", "source", "spec") and not isinstance(v, Frz):
                    out.append("%s of the result is the same object as one held by the %s" % (path or "the whole", {"global": "module", "spec": "model"}.get(o.region, o.region)))
                    return
                if isinstance(v, Frz) and o.region in ("model", "global", "source"):
                    out.append("%s of the result is the same object as one held by the %s" % (path or "the whole", o.region))
                    return
                if o.region == "input":
                    return
                if isinstance(v, Ref):
                    if v.loc in modelrefs:
                        out.append("%s of the result is held by the model" % (path or "the whole"))
                        return
                    if fam:
                        out.append("%s: all rows of the result are one and the same object" % path)
                        return
                    if v.loc in seen and seen[v.loc] != path:
                        out.append("%s and %s of the result are the same object" % (seen[v.loc], path))
                        return
                    seen[v.loc] = path
                elif isinstance(v, View) and fam:
                    b = view_vars(v)
                    if not fam <= b:
                        out.append("%s: rows of the result are one and the same object" % path)
                        return
            segs_(o.segs, path, fam, depth + 1)
            if isinstance(o.cls, ClassObj):
                for k, x in o.attrs.items():
                    visit(x, path + "." + k, fam, depth + 1)

    def segs_(ss, path, fam, depth):
        for k, s in enumerate(ss):
            if isinstance(s, SEl):
                visit(s.v, path + "[%d]" % k, fam, depth)
            elif isinstance(s, SFor):
                if isconst(s.n) and cval(s.n) <= 1:
                    segs_(s.segs, path + "[i]", fam, depth)
                else:
                    segs_(s.segs, path + "[i]", fam | {s.bv}, depth)
            elif isinstance(s, SIf):
                segs_(s.a, path, fam, depth)
                segs_(s.b, path, fam, depth)
            elif isinstance(s, DSet):
                visit(s.v, path + "[key]", fam, depth)
    visit(a.value, "", frozenset(), 0)
    I.restore(saved)
    return out[0] if out else None


def view_vars(v):
    out = set()
    while isinstance(v, View):
        if isinstance(v.key, T):
            out |= {x for x in all_bvs(v.key)}
        v = v.parent
    return out


def all_bvs(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    r = {t} if t.op == "bv" else set()
    for x in t.args:
        if isinstance(x, T):
            r |= all_bvs(x, seen)
    return r


def model_refs(S):
    """locations of the objects held by the model"""
    out = set()
    I = S.I
    st = S.conv.state

    def visit(v, d=0):
        if isinstance(v, Ref):
            if v.loc in out or v.loc not in st.heap:
                return
            out.add(v.loc)
            obj(st.heap[v.loc], d)
        elif isinstance(v, VIte):
            visit(v.a, d)
            visit(v.b, d)
        elif isinstance(v, Tup):
            for x in v.items:
                visit(x, d)
        elif isinstance(v, Frz):
            obj(v.o, d)
        elif isinstance(v, View):
            visit(v.parent, d)

    def obj(o, d):
        if d > 20:
            return
        segs_(o.segs, d)
        for x in o.attrs.values():
            visit(x, d + 1)

    def segs_(ss, d):
        for s in ss:
            if isinstance(s, SEl):
                visit(s.v, d + 1)
            elif isinstance(s, SFor):
                segs_(s.segs, d)
            elif isinstance(s, SIf):
                segs_(s.a, d)
                segs_(s.b, d)
            elif isinstance(s, DSet):
                visit(s.k, d + 1)
                visit(s.v, d + 1)
    visit(S.model)
    return out


def reads_input(S, v, names=None):
    """some datum of the value depends on a call's argument"""
    names = names or {n for n in S.W.inputs} | {S.W.nm("N"), "N"}
    hit = []

    def f(t):
        seen = set()

        def go(x):
            if hit or x in seen:
                return
            seen.add(x)
            if x.op == "sym":
                nm = x.pay if isinstance(x.pay, str) else x.pay[0]
                if nm in names:
                    hit.append(nm)
            for y in x.args:
                if isinstance(y, T):
                    go(y)
        go(t)
        return t
    from .interp import map_val, map_obj

    def walk(v, d=0):
        if hit or d > 10:
            return
        if isinstance(v, Ref):
            o = S.I.heap.get(v.loc)
            if o is not None:
                if o.region == "input":
                    hit.append("input")
                    return
                map_obj(o, f)
                for s in o.segs:
                    if isinstance(s, SEl):
                        walk(s.v, d + 1)
        elif isinstance(v, View):
            walk(v.parent, d + 1)
        else:
            try:
                map_val(v, f)
            except Exception:
                pass
    walk(v)
    return bool(hit)


def j_state(J, R):
    """C04"""
    S, case = J.S, J.case
    for m, i, what in J.calls():
        a = S.call(m, i)
        if a.err and not any(e.kind in ("mutate", "setattr", "globalwrite") for e in a.own):
            R.ob(what, "undecided", a.err)
            continue
        evs = [e for e in a.own if (e.kind in ("mutate",) and e.data[0] in ("model", "source", "global", "foreign")) or
               (e.kind == "setattr" and e.data[0] in ("model", "global")) or e.kind == "globalwrite"]
        if not evs:
            R.ob(what, "proved", "no write to the model or to shared state on any path")
            continue
        done = False
        # a scratch attribute holding data of this call is visible to calls running at the same time
        for e in evs:
            if e.kind == "setattr" and attr_read(S, e.data[1]):
                saved = S.I.snap()
                S.I.restore(a.state)
                dep = reads_input(S, e.data[4])
                S.I.restore(saved)
                if dep and effect(J, R, what, a, e, "no call data in shared model state", "attribute %s of the model keeps data of this call and is read again by %s" % (e.data[1], attr_read(S, e.data[1]))):
                    done = True
                    break
        if done:
            continue
        verdicts = []
        for m2, i2, w2 in J.calls():
            if i2.startswith("densified"):
                continue
            fresh = S.call(m2, i2)
            S.W.alt = "'"
            try:
                first = S.call(m, i + "'", alt=i)
            except Exception as ex:
                S.W.alt = ""
                verdicts.append(("undecided", str(ex)))
                continue
            S.W.alt = ""
            second = S.call(m2, i2, after=first)
            R2 = type(R)(R.pid, case)
            J.compare(R2, "%s after %s" % (w2, what), second, fresh, rule="a call does not influence later calls", site=S.loc(evs[0]), name_b="the call on a fresh model")
            if R2.bad:
                R.bad += R2.bad[:1]
                done = True
                break
            verdicts += [(s, n) for _, s, n in R2.obs]
            third = S.call(m2, i2, after=fresh)
            J.compare(R2, "%s repeated" % w2, third, fresh, rule="a call does not influence later calls", site=S.loc(evs[0]), name_b="the first call")
            if R2.bad:
                R.bad += R2.bad[:1]
                done = True
                break
        if not done:
            st = "agreed" if verdicts and all(s != "undecided" for s, n in verdicts) else "undecided"
            R.ob(what, st, "%d writes to the model; later calls compared" % len(evs))


def attr_read(S, name):
    """a function of the packages that reads attribute `name`"""
    import ast
    for mod in S.I.mods.values():
        if not mod.path or "ppsref" in mod.name:
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load):
                return "%s:%d" % (mod.name, n.lineno)
    return None


AMBIENT_OK = ()


def j_ambient(J, R):
    """C28"""
    S, case = J.S, J.case
    for m, i, what in J.calls():
        a = S.call(m, i)
        hit = False
        for e in a.own:
            if e.kind in ("ambient", "globalwrite") or (e.kind == "mutate" and e.data[0] == "global") or e.kind == "cache":
                if e.kind == "cache":
                    continue
                d = e.data if isinstance(e.data, str) else str(e.data)
                if case.ambient_ok and case.ambient_ok(d):
                    continue
                if e.kind == "ambient" and "set" in d and not order_matters(a):
                    continue
                if effect(J, R, what, a, e, "prediction reads no ambient state", "%s: %s" % (e.kind, d)):
                    hit = True
                    break
        if not hit:
            R.ob(what, "undecided" if a.err else "proved", a.err or "no ambient read on any path")


def order_matters(a):
    """the result's value graph contains the order of a set"""
    if a.term is None:
        return False
    seen = set()
    st = [a.term]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "fn" and x.pay == "setlist":
            return True
        st.extend(y for y in x.args if isinstance(y, T))
    return False


# ================================================================== purity of the converted state
def impure(S, st=None):
    """(path, description) of a value in the model that is not built-in data"""
    I = S.I
    st = st or S.conv.state
    seen = set()
    out = []

    def visit(v, path, cond, d):
        if out or d > 25:
            return
        if isinstance(v, T):
            return
        if isinstance(v, VIte):
            visit(v.a, path, and_(cond, v.c), d)
            visit(v.b, path, and_(cond, not_(v.c)), d)
            return
        if isinstance(v, Undef):
            return
        if isinstance(v, Tup):
            for k, x in enumerate(v.items):
                visit(x, path + "[%d]" % k, cond, d + 1)
            return
        if isinstance(v, Ref):
            if v.loc in seen:
                return
            seen.add(v.loc)
            o = st.heap.get(v.loc)
            if o is not None:
                obj(o, path, cond, d)
            return
        if isinstance(v, View):
            o = I.obj(v)
            if o is not None:
                obj(o, path, cond, d)
            return
        if isinstance(v, Frz):
            obj(v.o, path, cond, d)
            return
        if isinstance(v, BCls):
            if v.name.startswith(("numpy", "scipy", "thirdparty", "pandas")):
                out.append((path, "class %s" % v.name, cond))
            return
        if isinstance(v, FObj):
            out.append((path, "%s object" % v.tname, cond))
            return
        if isinstance(v, (Fn, BoundM, Partial, Bi)):
            out.append((path, "function %r" % (v,), cond))
            return
        if isinstance(v, Mod):
            out.append((path, "module", cond))
            return
        if isinstance(v, ClassObj):
            if v.mod.name.split(".")[0] in ("pure_sklearn", "pure_fasttext"):
                out.append((path, "class object %s" % v.name, cond))
            return

    def obj(o, path, cond, d):
        if isinstance(o.cls, str) and o.cls not in ("list", "dict", "tuple", "set", "frozenset", "defaultdict", "bytes", "range"):
            out.append((path, "%s object" % o.cls, cond))
            return
        if isinstance(o.cls, str) and o.cls in ("defaultdict", "set", "frozenset", "bytes", "range"):
            out.append((path, "%s object" % o.cls, cond))
            return
        for k, x in o.attrs.items():
            if k.startswith("$"):
                continue
            visit(x, path + "." + k, cond, d + 1)
        segs_(o.segs, path, cond, d + 1)

    def segs_(ss, path, cond, d):
        for s in ss:
            if isinstance(s, SEl):
                visit(s.v, path + "[]", cond, d)
            elif isinstance(s, SFor):
                segs_(s.segs, path, and_(cond, t_.lt(const(0), s.n)), d)
            elif isinstance(s, SIf):
                segs_(s.a, path, and_(cond, s.c), d)
                segs_(s.b, path, and_(cond, not_(s.c)), d)
            elif isinstance(s, DSet):
                visit(s.k, path + "[key]", cond, d)
                visit(s.v, path + "[]", cond, d)
    visit(S.model, "model", S.conv.pc, 0)
    return out


def j_pure(J, R):
    """C02: the conversion of this configuration"""
    S, case = J.S, J.case
    cv = S.convert()
    if cv.err:
        R.ob("conversion", "undecided", cv.err)
        return
    if cv.value is None:
        R.ob("conversion", "proved", "no model is returned")
        return
    hit = impurity(J, S)
    if hit:
        path, what, v = hit
        R.violation("conversion", "converted state is built-in data", path, "%s holds a %s after a successful conversion" % (path, what), witness(v) if v is not None else None)
        return
    R.ob("conversion", "proved", "every value reachable from the model is built-in data")
    planted(J, R)


def impurity(J, S):
    """(path, description, valuation) of a value that is not built-in data after a conversion that succeeds"""
    cv = S.conv
    stops = [e for e in cv.events if e.kind in ("raise", "crash")]
    for path, what, cond in impure(S):
        if cond is TRUE and not stops:
            return path, what, None
        for v in J.vals():
            if cond is not TRUE:
                try:
                    if not t_._Ev(v).go(cond, {}):
                        continue
                except Exception:
                    continue
            pre = Obs("")
            pre.events = stops
            pre.value = True
            if outcome(pre, v, want_value=False).kind == "value":
                return path, what, v
    return None


def variants(v, d=0):
    """the attribute value with other than built-in data inside: (description, value)"""
    if isinstance(v, T):
        yield "an object of another library", Opaque()
        if isconst(v) and kind(v) in ("int", "float", "str", "bool"):
            yield "an array-library scalar", NpScal(v)
        elif not isconst(v) and kind(v) in ("int", "float", "str", "bool", "num"):
            yield "an array-library scalar", NpScal(v, "float" if kind(v) == "num" else None)
    elif type(v) is NpArr and len(v.dims):
        yield "an object array of array-library scalars", ObjEls(v.name, v.dims, v.k, v.prefix, v.elem)
        y = ObjEls(v.name, v.dims, v.k, v.prefix, v.elem)
        y.last = True
        yield "an object array whose last element is an array-library scalar", y
    elif isinstance(v, Tup) and d < 2:
        for k, x in enumerate(v.items):
            for what, y in variants(x, d + 1):
                yield "%s at position %d of a tuple" % (what, k), Tup(v.items[:k] + type(v.items)((y,)) + v.items[k + 1:])


def heaped(S, v):
    """variants of a container held by the source: (description, function that changes it in the current heap)"""
    I = S.I
    if not isinstance(v, Ref):
        return
    o = I.heap.get(v.loc)
    if o is None or isinstance(o.cls, ClassObj):
        return
    for k, s in enumerate(o.segs):
        if isinstance(s, (SEl, DSet)):
            for what, y in variants(s.v):
                yield "%s at position %d of a %s" % (what, k, clsname(o.cls)), (lambda k=k, s=s, y=y: I.setobj(v, o.but(segs=o.segs[:k] + (SEl(y) if isinstance(s, SEl) else DSet(s.k, y),) + o.segs[k + 1:])))
        if isinstance(s, DSet) and isinstance(s.k, T) and kind(s.k) in ("str", "int"):
            yield "an array-library scalar as key %d of a dict" % k, (lambda k=k, s=s: I.setobj(v, o.but(segs=o.segs[:k] + (DSet(NpScal(s.k), s.v),) + o.segs[k + 1:])))
        if isinstance(s, SFor) and len(s.segs) == 1 and isinstance(s.segs[0], (SEl, DSet)):
            x = s.segs[0]
            if isinstance(x, DSet) and isinstance(x.k, T):
                yield "array-library scalars as keys of a dict", (lambda k=k, s=s, x=x: I.setobj(v, o.but(segs=o.segs[:k] + (SFor(s.n, s.bv, (DSet(NpScal(x.k, "str"), x.v),)),) + o.segs[k + 1:])))
            for what, y in variants(x.v):
                yield "%s in every position of a %s" % (what, clsname(o.cls)), (lambda k=k, s=s, x=x, y=y: I.setobj(v, o.but(segs=o.segs[:k] + (SFor(s.n, s.bv, (SEl(y) if isinstance(x, SEl) else DSet(x.k, y),)),) + o.segs[k + 1:])))
    if clsname(o.cls) == "dict":
        for what, y in (("an array-library scalar", NpScal(const(1))), ("an object of another library", Opaque())):
            yield "%s as one more value of a dict" % what, (lambda y=y: I.setobj(v, o.but(segs=o.segs + (DSet(const("zz one more"), y),))))
        yield "an array-library string as one more key of a dict", (lambda: I.setobj(v, o.but(segs=o.segs + (DSet(NpScal(const("zz one more")), const(1)),))))
    elif clsname(o.cls) == "list":
        for what, y in (("an array-library scalar", NpScal(const(1))), ("an object of another library", Opaque())):
            yield "%s as one more element of a list" % what, (lambda y=y: I.setobj(v, o.but(segs=o.segs + (SEl(y),))))


def planted(J, R):
    """conversion of the same estimator with an attribute that holds something else than plain data: no model may keep it"""
    case = J.case
    S = Session(case, J.S.bounded)
    if not isinstance(S.src, Inst):
        return
    I = S.I
    # the modules are loaded by a first conversion; its heap keeps the source and the module-level objects
    pc0 = I.pc
    if S.convert().err:
        return
    I.restore(S.conv.state)
    I.pc = pc0
    st0, attrs = I.snap(), dict(S.src.attrs)
    J2 = Judge(S, J.n, J.seed)
    n = rej = und = 0
    for name in sorted(attrs):
        v = attrs[name]
        if name.startswith("__"):
            continue
        todo = [(what, y, None) for what, y in variants(v)]
        I.restore(st0)
        todo += [(what, None, f) for what, f in heaped(S, v)]
        for what, y, f in todo:
            I.restore(st0)
            I.heap = dict(I.heap)
            S.conv = Obs("convert")
            S.cache = {}
            S.src.attrs = dict(attrs)
            if y is not None:
                S.src.attrs[name] = y
            else:
                f()
            try:
                cv = S.convert()
            except (Unsup, PathDead, AttributeError, TypeError, KeyError, IndexError):
                und += 1
                continue
            if cv.err:
                und += 1
                continue
            if cv.value is None:
                rej += 1
                continue
            try:
                hit = impurity(J2, S)
            except (Undecided, Unsup):
                und += 1
                continue
            if hit:
                path, w, val = hit
                R.violation("conversion with %s holding %s" % (name, what), "what is not built-in data is rejected", path,
                            "%s holds a %s after a successful conversion of an estimator whose %s is %s" % (path, w, name, what), witness(val) if val is not None else None)
                return
            n += 1
    R.ob("conversion of estimators holding other objects", "proved" if n or rej else "undecided", "%d rejected, %d converted to plain data, %d not analysable" % (rej, n, und))


def j_snapshot(J, R):
    """C03"""
    S, case = J.S, J.case
    cv = S.convert()
    if cv.err:
        R.ob("conversion", "undecided", cv.err)
        return
    for e in cv.events:
        if (e.kind == "mutate" and e.data[0] in ("source", "foreign")) or (e.kind == "setattr" and e.data[0] in ("source", "foreign")):
            pre = Obs("")
            if effect(J, R, "conversion", cv, e, "conversion writes nothing to the source", "the source estimator is modified: %s" % (e.data[1],)):
                return
    if cv.value is None:
        R.ob("conversion", "proved", "no model is returned")
        return
    hits = []
    st = cv.state
    seen = set()

    def visit(v, path, d=0):
        if hits or d > 25:
            return
        if isinstance(v, VIte):
            visit(v.a, path, d)
            visit(v.b, path, d)
        elif isinstance(v, Tup):
            for k, x in enumerate(v.items):
                visit(x, path + "[%d]" % k, d + 1)
        elif isinstance(v, (Ref, View, Frz)):
            if isinstance(v, Ref):
                if v.loc in seen:
                    return
                seen.add(v.loc)
                o = st.heap.get(v.loc)
            elif isinstance(v, Frz):
                o = v.o
            else:
                o = S.I.obj(v)
            if o is None:
                return
            if mutable(o) and o.region == "source":
                hits.append((path, o))
                return
            for k, x in o.attrs.items():
                visit(x, path + "." + k, d + 1)
            segs_(o.segs, path, d + 1)
        elif isinstance(v, (NpArr, ObjArr)):
            hits.append((path, v))

    def segs_(ss, path, d):
        for s in ss:
            if isinstance(s, SEl):
                visit(s.v, path + "[]", d)
            elif isinstance(s, SFor):
                segs_(s.segs, path, d)
            elif isinstance(s, SIf):
                segs_(s.a, path, d)
                segs_(s.b, path, d)
            elif isinstance(s, DSet):
                visit(s.v, path + "[]", d)
    visit(S.model, "model")
    if hits:
        R.violation("conversion", "no container shared with the source", hits[0][0], "%s is the source estimator's own container" % hits[0][0])
        return
    R.ob("conversion", "proved", "no write to the source; every container of the model is allocated by the conversion")


def j_unsupported(J, R):
    """C25"""
    S, case = J.S, J.case
    if case.supported is not False and not case.late:
        return
    cv = S.convert()
    if cv.err:
        R.ob("conversion", "undecided", cv.err)
        return
    if case.late and cv.value is not None:
        for m, i, what in J.calls():
            must_reject(J, R, what, S.call(m, i), m, "unsupported settings are never ignored", "the model of the unsupported configuration %s" % case.id)
        return
    a = Obs("conversion")
    a.events = a.own = cv.events
    a.value = cv.value
    a.term = const(0) if cv.value is not None else None
    if cv.value is None and all(e.kind == "raise" for e in cv.events if e.kind in ("raise", "crash")) and any(e.kind == "raise" for e in cv.events):
        R.ob("conversion", "proved", "every path raises explicitly")
        return
    agreed = 0
    why = ""
    for v in J.vals():
        o = outcome(a, v)
        if o.kind == "value":
            R.violation("conversion", "unsupported settings raise at conversion", S.model_site(), "the unsupported configuration %s converts to a model" % case.id, witness(v))
            return
        if o.kind == "crash":
            R.violation("conversion", "unsupported settings raise at conversion", evsite(S, o.ev), "the unsupported configuration %s fails with %s instead of an explicit error" % (case.id, o.exc), witness(v))
            return
        if o.kind == "reject":
            agreed += 1
        else:
            why = o.exc
    R.ob("conversion", "agreed" if agreed else "undecided", why)


def j_counterpart(J, R):
    """C26: class of the converted model"""
    S, case = J.S, J.case
    if case.counterpart is None or case.supported is False:
        return
    cv = S.convert()
    if cv.err:
        R.ob("conversion", "undecided", cv.err)
        return
    if cv.value is None:
        if all(e.kind == "crash" or e.gate is TRUE for e in cv.events if e.kind in ("raise", "crash")) and cv.events:
            e = [e for e in cv.events if e.kind in ("raise", "crash")][0]
            R.violation("conversion", "supported estimators convert", S.loc(e), "%s is not converted: %s %s" % (case.id, e.data[0], e.data[1]))
        return
    o = S.I.obj(S.model) if isinstance(S.model, (Ref, View)) else None
    got = o.cls.name if o is not None and isinstance(o.cls, ClassObj) else None
    if got != case.counterpart:
        R.violation("conversion", "an estimator converts to its own counterpart", S.model_site(), "%s converts to %s" % (case.id, got))
    else:
        R.ob("conversion", "proved", "%s -> %s" % (case.id, got))
    # nested estimators
    if case.nested:
        for path, want in case.nested(S):
            v = path(S)
            o = S.I.obj(v) if isinstance(v, (Ref, View, Frz)) else None
            got = o.cls.name if o is not None and isinstance(o.cls, ClassObj) else None
            if got is None:
                R.ob("nested", "undecided", "nested estimator not found")
            elif got != want:
                R.violation("conversion", "nested estimators convert to their own counterpart", S.model_site(), "nested %s instead of %s" % (got, want))
            else:
                R.ob("nested " + want, "proved")


def j_pickle(J, R):
    """C31: state of the converted model"""
    S, case = J.S, J.case
    cv = S.convert()
    if cv.err or cv.value is None:
        R.ob("conversion", "undecided", cv.err or "no model")
        return
    bad = unpicklable(S)
    if bad and not (bad[2] is TRUE or any(_holds(bad[2], v) for v in J.vals())):
        bad = None
    if bad:
        R.violation("conversion", "model state can be pickled", bad[0], bad[1])
        return
    R.ob("conversion", "proved", "plain attributes only; classes importable by name")
    from . import pickling
    try:
        S2, evs = pickling.rebuilt(S)
    except pickling.Recursion as e:
        R.violation("pickled copy", "the model can be unpickled", S.model_site(), str(e))
        return
    except Unsup as e:
        R.ob("pickled copy", "undecided", "pickling hooks: %s" % e)
        S2, evs = None, []
    hooks = [e for e in evs if e.kind in ("raise", "crash")]
    if S2 == "dead" or any(e.gate is TRUE for e in hooks):
        e = [e for e in hooks if e.gate is TRUE] or hooks
        if e and e[0].gate is TRUE:
            R.violation("pickled copy", "the model can be pickled and unpickled", S.loc(e[0]), "pickling hooks fail: %s: %s" % (e[0].data[0], e[0].data[1]))
            return
        S2 = None
    if S2 is not None:
        J2 = Judge(S2, J.n, J.seed)
        for m, i, what in J.calls():
            try:
                a, b = S2.call(m, i), S.call(m, i)
            except Undecided as e:
                R.ob(what + " of the copy", "undecided", str(e))
                continue
            R2 = type(R)(R.pid, case)
            J2.compare(R2, what + " of the unpickled copy", a, b, rule="the unpickled copy predicts like the original", site=S.site_of(m), name_b="the original model")
            R.obs += R2.obs
            if R2.bad:
                R.bad += R2.bad[:1]
                return
    else:
        R.ob("pickled copy", "proved" if not hooks and not evs else "undecided", "no class of the model takes part in pickling: attributes and items are carried over unchanged")
    # state left behind by calls must stay picklable too
    for m, i, what in J.calls():
        a = S.call(m, i)
        if a.state is None or not any(e.kind == "setattr" and e.data[0] == "model" or e.kind == "mutate" and e.data[0] in ("model", "source", "foreign") for e in a.own):
            continue
        bad = unpicklable(S, a.state)
        if bad and satisfiable_any(J, a, bad[2]):
            e = [e for e in a.own if e.kind in ("setattr", "mutate")][-1]
            R.violation(what, "model state can be pickled", S.loc(e), "after the call, " + bad[1])
            return


def _holds(c, v):
    try:
        return bool(t_._Ev(v).go(c, {}))
    except Exception:
        return False


def satisfiable_any(J, o, cond):
    return cond is TRUE or any(_holds(cond, v) and outcome(o, v).kind == "value" for v in J.vals())


def toplevel(f):
    return isinstance(f, Fn) and f.cls is None and f.mod.env.get(f.name) is f


STDLIB_UNPICKLABLE = ("generator", "file", "lock", "RLock", "Lock", "local", "Thread", "Condition", "Event", "weakref")


def unpicklable(S, st=None):
    """(path, description, condition) of a value of the model that the pickle protocol rejects"""
    st = st or S.conv.state
    seen = set()
    out = []
    cond = [TRUE]

    def under(c, f):
        old = cond[0]
        cond[0] = and_(old, c)
        if cond[0] is not FALSE:
            f()
        cond[0] = old

    def visit(v, path, d):
        if out or d > 25 or isinstance(v, T):
            return
        if isinstance(v, VIte):
            under(v.c, lambda: visit(v.a, path, d))
            under(not_(v.c), lambda: visit(v.b, path, d))
        elif isinstance(v, Tup):
            for k, x in enumerate(v.items):
                visit(x, path + "[%d]" % k, d + 1)
        elif isinstance(v, Ref):
            if v.loc not in seen and v.loc in st.heap:
                seen.add(v.loc)
                obj(st.heap[v.loc], path, d)
        elif isinstance(v, Frz):
            obj(v.o, path, d)
        elif isinstance(v, Fn):
            if v.node.__class__.__name__ == "Lambda" or not toplevel(v):
                out.append((path, "%s holds a function that cannot be imported by name (%s)" % (path, v.name), cond[0]))
        elif isinstance(v, Mod):
            out.append((path, "%s holds a module" % path, cond[0]))
        elif isinstance(v, BoundM):
            visit(v.self, path + ".__self__", d + 1)
        elif isinstance(v, Partial):
            for x in (v.f,) + tuple(v.args) + tuple(v.kw.values()):
                visit(x, path, d + 1)
        elif isinstance(v, FObj) and v.tname.split(".")[-1] in STDLIB_UNPICKLABLE:
            out.append((path, "%s holds a %s object" % (path, v.tname), cond[0]))

    def obj(o, path, d):
        if "$generator" in o.attrs or (isinstance(o.cls, str) and o.cls in STDLIB_UNPICKLABLE):
            out.append((path, "%s holds a %s object" % (path, "generator" if o.cls == "iter" else o.cls), cond[0]))
            return
        if isinstance(o.cls, ClassObj):
            c = o.cls
            if c.mod.env.get(c.name) is not c:
                out.append((path, "class %s is not importable by name" % c.name, cond[0]))
                return
        for k, x in o.attrs.items():
            if not k.startswith("$"):
                visit(x, path + "." + k, d + 1)
        segs_(o.segs, path, d + 1)

    def segs_(ss, path, d):
        for s in ss:
            if isinstance(s, SEl):
                visit(s.v, path + "[]", d)
            elif isinstance(s, SFor):
                under(t_.lt(const(0), s.n), lambda: segs_(s.segs, path, d))
            elif isinstance(s, SIf):
                under(s.c, lambda: segs_(s.a, path, d))
                under(not_(s.c), lambda: segs_(s.b, path, d))
            elif isinstance(s, DSet):
                visit(s.k, path, d)
                visit(s.v, path + "[]", d)
    visit(S.model, "model", 0)
    return out[0] if out else None
