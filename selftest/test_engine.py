"""Self test of the analyser on synthetic snippets (never on the analysed repository):
the value graph of each snippet, evaluated, must equal what Python computes."""
import os
import random
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from pps import terms as t_
from pps.interp import *
from pps import lib

SNIPS = r'''
def s1(X, w):
    return [sum(a * b for a, b in zip(x, w)) for x in X]

def s2(X, w):
    out = []
    for x in X:
        t = 0
        for i in range(len(w)):
            t += x[i] * w[i]
        out.append(t)
    return out

def s3(X, w):
    best = []
    for x in X:
        m = x[0]
        k = 0
        for i, v in enumerate(x):
            if v > m:
                m = v
                k = i
        best.append(k)
    return best

def s4(X, w):
    out = []
    for x in X:
        for v in x:
            if v > 0.5:
                out.append(v)
                break
        else:
            out.append(-1)
    return out

def s5(X, w):
    for i, x in enumerate(X):
        if x[0] > 0.3:
            return i
    return -1

def s6(X, w):
    n = len(X)
    S = [[0.0] * len(w) for _ in range(n)]
    for i in range(n):
        for j in range(len(w)):
            S[i][j] = X[i][j] * w[j]
    return S

def s7(X, w):
    d = {}
    for x in X:
        k = int(x[0] * 4)
        if k not in d:
            d[k] = 1
        else:
            d[k] += 1
    return sorted(d.items())

def s8(X, w):
    d = {}
    for x in X:
        k = int(x[0] * 4)
        d[k] = d.get(k, 0) + x[1]
    return sorted(d.items())

def s9(X, w):
    acc = [0] * len(w)
    for x in X:
        acc = [a + b for a, b in zip(acc, x)]
    return acc

def s10(X, w):
    acc = [0] * len(w)
    for x in X:
        for j, v in enumerate(x):
            acc[j] += v * w[j]
    return acc

def s11(X, w):
    return list(map(list, zip(*X)))

def s12(X, w):
    i = 0
    t = 0
    while i < len(w):
        t += w[i]
        i += 1
    return t, i

def s13(X, w):
    out = []
    for x in X:
        i = 0
        found = False
        while not found:
            if i == len(x) - 1 or x[i] > 0.5:
                found = True
            else:
                i += 1
        out.append(i)
    return out

def s14(X, w):
    m = max(w)
    e = [v - m for v in w]
    return [v / sum(e) if sum(e) else 0 for v in e], w.index(m)

def s15(X, w):
    return [max(range(len(x)), key=lambda i: x[i]) for x in X]

def s16(X, w):
    from functools import reduce
    return reduce(lambda a, b: [p + q for p, q in zip(a, b)], X)

def s17(X, w):
    out = []
    for x in X:
        row = []
        out.append(row)
        for v in x:
            if v < 0.1:
                continue
            row.append(v)
        row.append(9)
    return out

def s18(X, w):
    try:
        for x in X:
            if x[0] > 0.8:
                raise ValueError("x")
    except ValueError:
        return "bad"
    return "ok"

def s19(X, w):
    def gen():
        for x in X:
            for v in x:
                if v > 0.4:
                    yield v
    return list(gen())

def s20(X, w):
    s = 0
    for x in X:
        if s > 2:
            break
        s += x[0]
    return s

def s21(X, w):
    d = dict((i, v) for i, v in enumerate(w) if v > 0.3)
    return sum(d.get(i, 0) * x[i] for x in X for i in range(len(x)))

def s22(X, w):
    prev = None
    out = []
    for v in w:
        if prev is not None:
            out.append(v - prev)
        prev = v
    return out

def s23(X, w):
    it = iter(w)
    a = next(it)
    return a, [v for v in it]

def s24(X, w):
    a, b = 0, 1
    for v in w:
        a, b = b, a + b
    return a, b

def s25(X, w):
    while True:
        if w[0] > 0.5:
            r = 1
            break
        r = 2
        break
    return r

def s26(X, w):
    first = next((v for v in w if v > 0.5), None)
    return first if first is not None else -1

def s27(X, w):
    class A(object):
        def __init__(self, v):
            self.v = v
            self.t = 0
        def add(self, x):
            self.t = self.t + x * self.v
            return self
    a = A(2)
    for v in w:
        a.add(v)
    return a.t

def s28(X, w):
    rows = [list(x) for x in X]
    for r in rows:
        r[0] = -5
        r.append(1)
    return rows, X

def s29(X, w):
    s = ""
    for i, v in enumerate(w):
        s += "%s," % ("a" if v > 0.5 else "b")
    return s

def s30(X, w):
    out = [x[1:] + x[:1] for x in X]
    return out + [w[::-1]]

def s31(X, w):
    r = []
    for i in range(len(w)):
        for j in range(i, len(w)):
            r.append(w[i] * w[j])
    return r

def s32(X, w):
    return any(v > 0.9 for x in X for v in x), all(v > 0.1 for v in w)

def s33(X, w):
    tot = 0
    for x in X:
        for v in x:
            if v > 0.5:
                tot += 1
    return tot

def s34(X, w):
    best, arg = float("-inf"), None
    for i, v in enumerate(w):
        if v > best:
            best, arg = v, i
    return arg

def s35(X, w):
    idx = {v: i for i, v in enumerate(w)}
    return [idx[v] for v in reversed(w)]

def s36(X, w):
    out = []
    for x in X:
        out += x
    return out

def s37(X, w):
    mean = sum(w) / len(w)
    return [((a - mean) ** 2) for a in w]
'''


class Val(object):
    def __init__(self, rng):
        self.rng = rng
        self.n = rng.choice([1, 2, 3])
        self.m = rng.choice([1, 2, 4])
        self.c = {}

    def sym(self, name, idx):
        if name == "n":
            return self.n
        if name == "m":
            return self.m
        k = (name, idx)
        if k not in self.c:
            self.c[k] = self.rng.choice([0.0, 0.05, 0.25, 0.5, 0.75, 1.0, self.rng.random()])
        return self.c[k]


def run():
    d = tempfile.mkdtemp()
    with open(os.path.join(d, "snips.py"), "w") as f:
        f.write(SNIPS)
    ns = {}
    exec(SNIPS, ns)
    t_.SYMKIND.update({"Xs": "float", "ws": "float"})
    N, M = t_.size("n", 1), t_.size("m", 1)
    bad = 0
    only = sys.argv[1:]
    for name in [k for k in ns if k[0] == "s" and k[1:].isdigit()]:
        if only and name not in only:
            continue
        I = Interp(d, ["snips"])
        mod = I.load("snips")
        I.fr = Frame(None, {}, [], mod)
        i, j, j2 = newidx(N), newidx(M), newidx(M)
        X = I.new("list", (SFor(N, i, (SEl(Frz(HObj("list", (SFor(M, j, (SEl(sym("Xs", i, j)),)),))),)),)), region="X") if False else \
            I.alloc(HObj("list", (SFor(N, i, (SEl(Frz(HObj("list", (SFor(M, j, (SEl(sym("Xs", i, j)),)),), {}, "X"))),)),), {}, "X"))
        w = I.alloc(HObj("list", (SFor(M, j2, (SEl(sym("ws", j2)),)),), {}, "w"))
        try:
            r = I.call(mod.env[name], [X, w], {})
            t = I.reify(r)
        except PathDead:
            print(name, "DEAD", I.events)
            bad += 1
            continue
        except Exception as e:
            print(name, "EXC", type(e).__name__, e)
            if only:
                traceback.print_exc()
            bad += 1
            continue
        ok = True
        for seed in range(60):
            v = Val(random.Random(seed))
            Xc = [[v.sym("Xs", (a, b)) for b in range(v.m)] for a in range(v.n)]
            wc = [v.sym("ws", (b,)) for b in range(v.m)]
            try:
                want = ns[name]([list(x) for x in Xc], list(wc))
            except Exception as e:
                want = type(e)
            try:
                got = t_.ev(t, v)
            except t_.Stop as e:
                got = "STOP %s" % e
            except Exception as e:
                got = type(e)
            if want != got and not close(want, got):
                print(name, "MISMATCH", want, got, "n", v.n, "m", v.m)
                if only:
                    print(t)
                ok = False
                break
        if not ok:
            bad += 1
        elif only:
            print(name, "ok", t, I.events)
    print("bad:", bad)
    return bad


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (int, float)):
        return abs(a - b) < 1e-9
    return a == b


if __name__ == "__main__":
    sys.exit(1 if run() else 0)
