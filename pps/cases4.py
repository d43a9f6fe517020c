"""Configurations of fastText models."""
from . import terms as t_
from .terms import T, TRUE, FALSE, NONE, ZERO, ONE, const, fn, newidx, sym, add, sub, eq, ite
from .interp import HObj, Frz, SEl, SFor, Tup, UNDEF, Bi
from .world import NpArr, Inst, NpScal, gen_par, fine_x
from .cases import Case, par, anyof
from .cases2 import public

FWORDS = ["</s>", "the", "cat", "caf\u00e9", "Foo", "foo", "a", "bar-baz", ".", "x\u00a0y", "\u2028z", "dog", "is"]


def fspool(v):
    """strings of the analysed code that can be words of a model: no white space, no label"""
    return [w for w in v.spool if w.split() == [w] and "\x00" not in w and not w.startswith("__")]


def gen_fword(v, idx):
    """distinct words"""
    k = ("fwords",)
    if k not in v.c:
        ws = list(FWORDS)
        if v.spool:
            sp = fspool(v)
            ws[1:1] = [w for w in v.rng.sample(sp, min(2, len(sp))) if w not in ws]
        v.rng.shuffle(ws)
        if v.rng.random() < 0.8 and "</s>" in ws[3:]:
            ws.remove("</s>")
            ws.insert(v.rng.randrange(3), "</s>")
        v.c[k] = ws
    return v.c[k][idx[0]]


def gen_fdoc(v, idx):
    r = v.rng
    pool = FWORDS + ["unseen", "The"] + fspool(v)
    known = [v.get("fword", i) for i in range(v.get("V"))]
    if v.mode == "empty":
        return r.choice(["", " ", "unseen", "  zz ", "\t", known[0]])
    s = r.choice(["", "", " ", "\t"])
    for _ in range(r.randint(0, 6)):
        s += r.choice(known + [r.choice(pool)]) + r.choice([" ", " ", "  ", "\t", "\r", "\x00", "\u00a0", "\x0b", "\x0c", "\u2028", "\x1c", "\u3000", "\x85"])
    return s if r.random() < 0.5 else s.strip()


def gen_word(v, idx):
    return v.rng.choice([v.get("fword", i) for i in range(v.get("V"))] + ["unseen", "", "The"] + 4 * fspool(v))


def gen_vec(v, idx):
    if v.mode == "tie":
        return 0.0
    if v.mode == "zero" and v.c.setdefault(("zrow", idx[0]), v.rng.random() < 0.5):
        return 0.0
    if v.mode == "big":
        return v.rng.choice([-1, 1]) * v.rng.uniform(20, 40)
    if v.mode == "fine":
        return fine_x(v)
    return gen_par(v, idx)


def flist(W, n, name):
    return lambda I, a, k: I.alloc(HObj("list", W.family(n, lambda i: sym(name, i)), {}, "fresh", I.site()))


LOSSLIKE = tuple("softmax"[i:j] for i in range(8) for j in range(i, 8))      # no loss of the source library has such a name but the supported one


def ft_src(W, supervised, loss="softmax", maxn=0, ngrams=1, quantized=False):
    V, D = W.size("V", 1, 5), W.size("D", 1, 3)
    W.decl("fword", "str", gen_fword)
    W.M = par(W, "fmat", [V, D], gen_vec)
    W.V, W.D = V, D
    W.flist = W.list_of(V, lambda i: sym("fword", i), "spec")
    a = {"label": const("__label__"), "maxn": maxn if isinstance(maxn, T) else const(maxn), "wordNgrams": ngrams if isinstance(ngrams, T) else const(ngrams), "loss": Inst("loss_name", {"name": anyof(W, "ftloss", LOSSLIKE, ("hs", "ns", "ova", "hierarchical")) if loss == "any" else const(loss)}, "fasttext_pybind"),
         "get_words": Bi("model.get_words", flist(W, V, "fword")), "get_input_matrix": Bi("model.get_input_matrix", lambda I, a, k: W.M),
         "get_dimension": Bi("model.get_dimension", lambda I, a, k: D), "is_quantized": Bi("model.is_quantized", lambda I, a, k: const(quantized)),
         "dim": D, "minn": ZERO}
    if supervised:
        L = W.size("L", 1, 4, gen=lambda v, idx: v.rng.choice([1, 2, 3, 3, 4, 7, 12]))
        W.L = L
        W.decl("flabel", "str", lambda v, idx: "__label__" + (["b", "a", "zz", "1", "xy"][idx[0]] if idx[0] < 5 else "l%d" % idx[0]))
        W.O = par(W, "fout", [L, D], gen_vec)
        W.names = W.list_of(L, lambda i: sym("flabel", i), "spec")
        a["get_labels"] = Bi("model.get_labels", flist(W, L, "flabel"))
        a["get_output_matrix"] = Bi("model.get_output_matrix", lambda I, a, k: W.O)
    else:
        a["get_labels"] = a["get_words"]
        a["get_output_matrix"] = Bi("model.get_output_matrix", lambda I, a, k: NpArr("fout", [V, D], "float"))
        W.decl("fout", "float", gen_par)
    return Inst("_FastText", a, "fasttext.FastText")


def ft_entry(S):
    return S.I.call(public(S, "pure_fasttext", "FastText"), [S.src], {})


def ft_case(tag, family, make, **kw):
    case = Case("FastText[%s]" % tag, family, make, **kw)
    case.entry = ft_entry
    case.counterpart = None
    case.modes = ("plain", "zero", "empty", "big")
    return case


def line(W, name="fdoc", gen=gen_fdoc):
    nm = W.nm(name)
    W.decl(nm, "str", gen)
    return sym(nm)


def lines(W, name="fdocs", gen=gen_fdoc):
    nm = W.nm(name)
    W.decl(nm, "str", gen)
    N = W.rows()
    W.inputs[nm] = True
    return W.I.alloc(HObj("list", W.family(N, lambda i: sym(nm, i)), {}, "input", ("input", 0, "input")))


def gen_nl(v, idx):
    s = gen_fdoc(v, idx)
    k = v.rng.randint(0, len(s))
    return s[:k] + "\n" + s[k:]


def vectors(supervised):
    case = ft_case("vectors,%s" % ("supervised" if supervised else "unsupervised"), "fasttext-vec", lambda W: ft_src(W, supervised, "softmax" if supervised else "ns"))
    case.inputs = {"word": lambda W: line(W, "fw", gen_word), "text": lambda W: line(W)}
    case.bad = {"newline": lambda W: line(W, "fnl", gen_nl)}
    case.bad_skip = ("get_word_vector",)
    case.methods = {"get_word_vector": ("word",), "get_sentence_vector": ("text",)}
    case.batch = {"word": False, "text": False}
    case.specs = {"get_word_vector": lambda S, w: S.ref("ft_word", S.W.flist, S.W.M, S.W.D, w),
                  "get_sentence_vector": lambda S, t: S.ref("ft_sentence", S.W.flist, S.W.M, S.W.D, const(supervised), t)}
    return case


vectors(True)
vectors(False)


def ok_answer(labels, probs, want):
    names, P, k, thr = want
    if not isinstance(labels, (tuple, list)) or not isinstance(probs, (tuple, list)) or len(labels) != len(probs):
        return False
    if any(abs(p - thr) < 1e-9 and p != thr for p in P):
        return True
    above = sorted([p for p in P if p >= thr], reverse=True)
    if k != -1:
        above = above[:k]
    if len(probs) != len(above) or any(abs(a - b) > 1e-9 for a, b in zip(probs, above)):
        return False
    used = set()
    for l, p in zip(labels, probs):
        c = [i for i in range(len(names)) if names[i] == l and i not in used and abs(P[i] - p) <= 1e-9]
        if not c:
            return False
        used.add(c[0])
    return True


def rel_predict(x, y):
    if not isinstance(x, tuple) or len(x) != 2:
        return False
    if len(y) == 4 and not isinstance(y[3], list):
        return ok_answer(x[0], x[1], y)
    return len(x[0]) == len(x[1]) == len(y) and all(ok_answer(a, b, c) for a, b, c in zip(x[0], x[1], y))


def predictor(tag="predict", **kw):
    case = ft_case(tag, "fasttext", lambda W: ft_src(W, True, **kw))

    def k_(W, lo=1):
        W.decl("fk", "int", lambda v, idx: v.rng.choice([1, 1, 2, 3, 10]))
        t_.SIZEMIN["fk"] = 1
        return sym("fk")

    def thr(W):
        W.decl("fthr", "float", lambda v, idx: v.rng.uniform(0, 1) if v.mode == "fine" else v.rng.choice([1.0 / v.get("L")] * ((8 if v.mode == "tie" else 1) * (v.get("L") in (1, 2, 4, 8))) + [0.0, 0.1, 0.3, 0.5, 0.9, 1.0, 1.1, -0.5]))
        return sym("fthr")
    def below(W):
        W.decl("fkb", "int", lambda v, idx: v.rng.choice([-2, -3, -7]))
        return sym("fkb")
    I = case.inputs
    I["text"] = lambda W: ([line(W)], {})
    I["texts"] = lambda W: ([lines(W)], {})
    I["text, k"] = lambda W: ([line(W), k_(W)], {})
    I["text, k=-1"] = lambda W: ([line(W)], {"k": const(-1)})
    I["text, -1, threshold"] = lambda W: ([line(W), const(-1), thr(W)], {})
    I["text, k, threshold"] = lambda W: ([line(W)], {"k": k_(W), "threshold": thr(W)})
    I["texts, k, threshold"] = lambda W: ([lines(W), k_(W), thr(W)], {})
    I["texts, k=-1"] = lambda W: ([lines(W)], {"k": const(-1)})
    case.methods = {"predict": tuple(I)}
    case.batch = {"predict": False}
    case.modes += ("tie",)

    def some_nl(W):
        nm = W.nm("fnls")
        W.decl(nm, "str", lambda v, idx: gen_nl(v, idx) if idx[0] == 0 else gen_fdoc(v, idx))
        W.inputs[nm] = True
        return W.I.alloc(HObj("list", W.family(W.rows(), lambda i: sym(nm, i)), {}, "input", ("input", 0, "input")))
    case.bad = {"newline": lambda W: line(W, "fnl", gen_nl), "newlines": some_nl,
                "k=0": lambda W: ([line(W), const(0)], {}), "k below -1": lambda W: ([line(W)], {"k": below(W)}), "texts, k=0": lambda W: ([lines(W), const(0)], {})}

    def ref_(S, m, i):
        a, kw = S.input(i)
        k = kw.get("k", a[1] if len(a) > 1 else ONE)
        th = kw.get("threshold", a[2] if len(a) > 2 else const(0.0))
        return S.ref("ft_rank", S.W.flist, S.W.M, S.W.D, S.W.O, S.W.names, a[0], k, th)
    case.ref_by_input = ref_
    case.rel = rel_predict
    return case


predictor()
predictor("predict,ngrams 0", ngrams=0)


def ft_reject(tag, supervised, **kw):
    case = ft_case(tag, "fasttext", lambda W: ft_src(W, supervised, **{k: v(W) if callable(v) else v for k, v in kw.items()}))
    case.supported = False
    case.inputs = {"text": lambda W: line(W)}
    case.methods = {"get_sentence_vector": ("text",)}


for _l in ("hs", "ns", "ova"):
    ft_reject("supervised,%s" % _l, True, loss=_l)
ft_reject("supervised,loss any", True, loss="any")
ft_reject("supervised,maxn any", True, maxn=lambda W: anyof(W, "maxn", (), (1, 2, 5), "int"))
ft_reject("supervised,wordNgrams any", True, ngrams=lambda W: anyof(W, "wng", (), (2, 3, 5), "int"))
ft_reject("unsupervised,maxn any", False, loss="ns", maxn=lambda W: anyof(W, "maxn", (), (1, 2, 5), "int"))
ft_reject("supervised,maxn", True, maxn=3)
ft_reject("supervised,wordNgrams", True, ngrams=2)
ft_reject("unsupervised,maxn", False, loss="ns", maxn=6)
