"""Rules over whole packages: imports, names, the converter's table, version checks, container pickling."""
import ast

from . import source as s_
from . import terms as t_
from .terms import T, TRUE, FALSE, NONE, const
from .interp import UNDEF, HObj, SEl, Tup, Ref, View, ClassObj
from .core import Session, outcome, Obs, Undecided, Unsup, AnchorError, PathDead, valuations
from .world import Inst, state_method


# ---------------------------------------------------------------- C01
def exports(m):
    """names a module's own top level binds, in order"""
    out = set()
    for s in s_.executed(m.tree.body):
        out |= binds(m, s)
    return out


def binds(m, s):
    out = set()
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        out.add(s.name)
    elif isinstance(s, ast.Import):
        for a in s.names:
            out.add((a.asname or a.name).split(".")[0])
    elif isinstance(s, ast.ImportFrom):
        for a in s.names:
            out.add(a.asname or a.name)
    else:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def handled(m, node):
    """the statement is inside a try block that catches the error of an import"""
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try) and any(x is node for b in t.body for x in ast.walk(b)):
            for h in t.handlers:
                ns = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else h.type.elts if h.type is not None else [None]
                for x in ns:
                    if x is None or getattr(x, "id", "") in ("ImportError", "ModuleNotFoundError", "Exception", "BaseException", "AttributeError"):
                        return True
    return False


def import_graph(R, n, seed):
    """C01: what runs at import time and what prediction reaches"""
    mods = s_.modules()
    todo = [m for m in mods.values() if not m.test]
    seen = set(m.name for m in todo)
    k = edges = 0
    while k < len(todo):
        m = todo[k]
        k += 1
        bad = False
        for st in s_.executed(m.tree.body):
            nodes = [st] + list(s_.own_exprs(st))
            for nd in nodes:
                for name, what, at in s_.imports_of(m, nd):
                    edges += 1
                    bad |= target(R, mods, m, name, what, at, "import of %s" % m.name, todo, seen)
        R.ob("import time of " + m.name, "proved" if not bad else "violated", "imports only the standard library and the packages themselves")
    # prediction
    fs = s_.functions(mods)
    roots = [f for f in fs if (f.cls is not None and f.name != "__init__" and not f.cls.name.startswith("_Iff")) or
             f.name in ("normalize_pure", "linear_kernel_pure", "cosine_similarity_pure", "cosine_distances_pure")]
    if not roots:
        raise AnchorError("no methods found")
    done, via = s_.reachable(fs, roots)
    skip = ("convert_estimator", "_instantiate_class", "performance_comparison", "check_version")
    for f in done:
        if f.name in skip:
            continue
        bad = False
        for nd in s_.body_nodes(f.node):
            for name, what, at in s_.imports_of(f.mod, nd):
                if not s_.is_std(name) and not s_.own(name):
                    R.violation("prediction", "prediction uses only the standard library", "%s:%d %s" % (f.mod.rel, at.lineno, f.qual),
                                "%s imports %s and is reached from %s" % (f.qual, name, s_.chain(via, f)))
                    bad = True
                else:
                    bad |= target(R, mods, f.mod, name, what, at, "call of %s" % f.qual, None, seen)
        R.ob("prediction path through %s.%s" % (f.mod.name, f.qual), "proved" if not bad else "violated")


def target(R, mods, m, name, what, at, when, todo, seen):
    """the imported module exists for every supported Python version and has the imported name"""
    site = "%s:%d" % (m.rel, at.lineno)
    if s_.own(name):
        if name not in mods:
            R.violation(when, "imported modules exist", site, "%s does not exist" % name)
            return True
        mm = mods[name]
        names = [mm]
        if what and what != "*" and what not in exports(mm):
            sub = mods.get(name + "." + what)
            if sub is None:
                star = any(isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names) for s in s_.executed(mm.tree.body))
                if not star and not any(isinstance(s, ast.FunctionDef) and s.name == "__getattr__" for s in mm.tree.body) and not handled(m, at):
                    R.violation(when, "imported names exist", site, "%s has no name %s" % (name, what))
                    return True
            else:
                names.append(sub)
        for x in names:
            if todo is not None and x.name not in seen:
                seen.add(x.name)
                todo.append(x)
        return False
    if not s_.is_std(name):
        known = name.split(".")[0]
        R.violation(when, "only the standard library is imported", site, "%s imports %s, which is not part of the standard library of every supported Python version" % (m.name, known))
        return True
    new = s_.NEWNAMES.get(name, ())
    if what in new and not handled(m, at):
        R.violation(when, "only the standard library of every supported version is used", site, "%s.%s does not exist in every supported Python version" % (name, what))
        return True
    return False


def cycles(R, n, seed):
    """C01: importing any module first finds every name it imports already bound"""
    mods = s_.modules()
    for start in sorted(mods):
        if mods[start].test:
            continue
        state = {}       # module -> names bound so far
        done = set()
        bad = []

        def load(name):
            parts = name.split(".")
            for k in range(1, len(parts) + 1):
                p = ".".join(parts[:k])
                if p in mods and p not in state:
                    run(mods[p])

        def run(m):
            state[m.name] = set(x for x in ("__name__",))
            for st in s_.executed(m.tree.body):
                if isinstance(st, ast.Import):
                    for a in st.names:
                        if s_.own(a.name):
                            load(a.name)
                elif isinstance(st, ast.ImportFrom):
                    base = m.absolute(st)
                    if base and s_.own(base):
                        load(base)
                        for a in st.names:
                            if a.name == "*" or base not in mods:
                                continue
                            if a.name not in state.get(base, ()) and base + "." + a.name in mods:
                                load(base + "." + a.name)
                            elif a.name not in state.get(base, ()) and base not in done and not handled(m, st):
                                bad.append("%s:%d: %s is not bound yet while %s is being imported" % (m.rel, st.lineno, a.name, base))
                state[m.name] |= binds(m, st)
                if "." in m.name:
                    par, _, leaf = m.name.rpartition(".")
            done.add(m.name)
            if "." in m.name:
                par, _, leaf = m.name.rpartition(".")
                state.setdefault(par, set())
                state[par].add(leaf)
        try:
            load(start)
        except RecursionError:
            continue
        if bad:
            R.violation("import of " + start, "imports find their names bound", bad[0].split(": ")[0], bad[0])
        else:
            R.ob("import order from " + start, "proved")


def language(R, n, seed):
    """C01: syntax and library names of every supported Python version (3.6 and later)"""
    for m in s_.modules().values():
        if m.test:
            continue
        bad = False
        try:
            ast.parse(m.text, feature_version=(3, 6))
        except SyntaxError as e:
            R.violation("import of " + m.name, "syntax of every supported Python version", "%s:%s" % (m.rel, e.lineno), str(e))
            bad = True
        alias = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Import):
                for a in x.names:
                    alias[(a.asname or a.name)] = a.name
        defs = set(x.name for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef))
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in alias and x.attr in s_.NEWNAMES.get(alias[x.value.id], ()) and not handled(m, x):
                R.violation("use of %s.%s" % (alias[x.value.id], x.attr), "library names of every supported Python version", "%s:%d" % (m.rel, x.lineno),
                            "%s.%s does not exist in every supported Python version" % (alias[x.value.id], x.attr))
                bad = True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("removeprefix", "removesuffix", "bit_count") and x.func.attr not in defs and not handled(m, x):
                R.violation("use of %s" % x.func.attr, "library names of every supported Python version", "%s:%d" % (m.rel, x.lineno), "%s does not exist in every supported Python version" % x.func.attr)
                bad = True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and ((x.func.id == "zip" and any(k.arg == "strict" for k in x.keywords)) or (x.func.id == "sum" and any(k.arg == "start" for k in x.keywords))):
                R.violation("call of %s" % x.func.id, "library names of every supported Python version", "%s:%d" % (m.rel, x.lineno), "the keyword does not exist in every supported Python version")
                bad = True
        if not bad:
            R.ob("language level of " + m.name, "proved", "parses as Python 3.6; no newer library names")


# ---------------------------------------------------------------- C27
def undefined_names(R, n, seed):
    mods = s_.modules()
    fs = s_.functions(mods)
    mention = {}
    for f in fs:
        a, b = s_.refs(f.node)
        for x in a | b:
            mention.setdefault(x, set()).add(id(f))
    toplevel = set()
    for m in mods.values():
        if not m.test:
            for st in s_.executed(m.tree.body):
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    a, b = s_.refs(st)
                    toplevel |= a | b
                for e in s_.own_exprs(st) if isinstance(st, (ast.FunctionDef, ast.ClassDef)) else ():
                    a, b = s_.refs(e)
                    toplevel |= a | b
    for m in mods.values():
        if m.test:
            continue
        k = 0
        for path, line, name in s_.undefined(m):
            q = ".".join(path)
            f = [g for g in fs if g.mod is m and (q == g.qual or q.startswith(g.qual + "."))]
            if f and f[0].name.startswith("_") and not f[0].name.startswith("__") and not (mention.get(f[0].name, set()) - {id(f[0])}) and f[0].name not in toplevel:
                continue     # nothing calls it
            node = [x for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and x.lineno >= line]
            if node and caught(m, node[0], ("NameError", "Exception", "BaseException")):
                continue
            R.violation("%s in %s" % (name, q or m.name), "every name that code can reach is defined", "%s:%d %s" % (m.rel, node[0].lineno if node else line, q), "name %r is not defined" % name)
            k += 1
        for g in fs:
            if g.mod is not m:
                continue
            if g.name.startswith("_") and not g.name.startswith("__") and not (mention.get(g.name, set()) - {id(g)}) and g.name not in toplevel:
                continue     # nothing calls it
            for fnode in [x for x in ast.walk(g.node) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
                for name, line in s_.unbound(fnode):
                    node = [x for x in ast.walk(fnode) if isinstance(x, ast.Name) and x.id == name and x.lineno == line]
                    if node and caught(m, node[0], ("NameError", "UnboundLocalError", "Exception", "BaseException")):
                        continue
                    R.violation("%s in %s" % (name, g.qual), "every name that code can reach is defined", "%s:%d %s" % (m.rel, line, g.qual), "local variable %r is read where nothing has assigned it" % name)
                    k += 1
        if not k:
            R.ob("names of " + m.name, "proved", "every referenced global name is bound")


def caught(m, node, names):
    for t in ast.walk(m.tree):
        if isinstance(t, ast.Try) and any(x is node for b in t.body for x in ast.walk(b)):
            for h in t.handlers:
                ns = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else h.type.elts if h.type is not None else [None]
                if any(x is None or getattr(x, "id", "") in names for x in ns):
                    return True
    return False


# ---------------------------------------------------------------- C32
VERSIONS = ("0.19", "0.19.2", "0.9", "0.9.1", "0.2", "0.18.9", "0.19.99", "0.3.10", "0.20", "0.20.0", "0.20.1", "0.20.4", "0.21.3", "0.22", "0.22.2.post1", "0.23.2", "0.24.0", "0.100", "0.100.1", "1.0",
            "1.0.2", "1", "2.10", "10.0", "1.19.5", "0.23.dev0", "0.22rc1", "1.2.0rc1")
MINIMUMS = (None, "0.20", "0.21.0", "0.22", "0.9", "0.23.2", "0.23.10", "0.100", "1.0", "0.3", "0.19.10")
TESTED = "0.20"


def numbers(v):
    """leading numeric components"""
    out = []
    for p in v.split("."):
        d = ""
        for ch in p:
            if ch not in "0123456789":
                break
            d += ch
        if d == "":
            break
        out.append(int(d))
        if d != p:
            break
    return out


def lower(a, b):
    x, y = numbers(a), numbers(b)
    k = max(len(x), len(y))
    x, y = x + [0] * (k - len(x)), y + [0] * (k - len(y))
    return x < y


def outcome_of(S):
    """raise / warn / silent, decided over the conversion's events; None when not decided"""
    cv = S.convert()
    if cv.err:
        return None, cv.err
    val = None
    kinds = set()
    for e in cv.own:
        if e.kind not in ("warn", "raise", "crash"):
            continue
        g = e.gate
        if g is not TRUE:
            if val is None:
                val = list(valuations(S, 1, S.case.modes, 1))[0]
            try:
                if not t_.ev(g, val):
                    continue
            except Exception as x:
                return None, str(x)
        if e.kind in ("raise", "crash"):
            return (e.kind, e), None
        kinds.add("warn")
    return (("warn" if kinds else "silent"), None), None


def versions(R, n, seed):
    """C32: the table of versions against requested minimums"""
    from .cases import CASES
    case = [c for c in CASES if c.id == "Normalizer[l2]"][0]
    site = None
    for mn in MINIMUMS:
        bad = und = None
        cnt = 0
        for v in VERSIONS + (None, UNDEF):
            if v in ("0.23.dev0", "0.22rc1", "1.2.0rc1") and mn in ("0.22", "0.23.2", "0.23.10"):
                continue     # pre-releases against their own release: no order is promised
            want = "warn" if v in (None, UNDEF) else "raise" if mn is not None and lower(v, mn) else "warn" if lower(v, TESTED) else "silent"
            S = Session(case)
            S.src.attrs["__getstate__"] = state_method(v if v in (None, UNDEF) else const(v))
            try:
                if mn is not None:
                    S.case.convert_kw = {"min_version": const(mn)}
                r, err = outcome_of(S)
            finally:
                S.case.convert_kw = {}
            if r is None:
                und = err
                continue
            cnt += 1
            if r[0] != want:
                site = S.loc(r[1]) if r[1] is not None else S.model_site()
                bad = "an estimator of version %s with minimum %s: %s, expected %s" % ("(none)" if v in (None, UNDEF) else v, mn, r[0] + (" (%s: %s)" % (r[1].data[0], r[1].data[1]) if r[1] is not None else ""), want)
                break
        what = "minimum %s" % mn
        if bad:
            R.violation(what, "versions compare numerically, component by component", site, bad)
        elif cnt:
            R.ob(what, "proved", "%d version strings by constant propagation" % cnt)
        else:
            R.ob(what, "undecided", und)


REQUIRED = {"GradientBoostingClassifier": "0.21.0"}


def every_estimator(R, n, seed):
    """C32: every converter checks the version of its estimator"""
    from .cases import CASES
    seen = set()
    for case in CASES:
        cls = case.id.split("[")[0]
        if cls in seen or case.supported is not True or case.counterpart is None or cls.startswith("XGB"):
            continue
        seen.add(cls)
        mn = REQUIRED.get(cls)
        rows = [(None, "warn"), (UNDEF, "warn"), ("0.23.2", "silent")]
        rows += [("0.20.4", "raise"), ("0.9", "raise"), ("0.21.0", "silent"), ("0.21", "silent"), ("0.100", "silent")] if mn else [("0.19.2", "warn"), ("0.9", "warn"), ("0.20.0", "silent"), ("1.0", "silent"), ("0.20", "silent")]
        bad = und = None
        site = ""
        cnt = 0
        for v, want in rows:
            S = Session(case)
            if not isinstance(S.src, Inst):
                und = "no source object"
                break
            S.src.attrs["__getstate__"] = state_method(v if v in (None, UNDEF) else const(v))
            r, err = outcome_of(S)
            if r is None:
                und = err
                continue
            cnt += 1
            if r[0] != want and not (want == "warn" and r[0] == "raise" and v in (None, UNDEF)):
                site = S.loc(r[1]) if r[1] is not None else S.model_site()
                bad = "%s of version %s: %s, expected %s" % (cls, "(none)" if v in (None, UNDEF) else v, r[0], want)
                break
        if bad:
            R.violation("conversion of " + cls, "estimators from too old versions are flagged", site, bad)
        elif cnt:
            R.ob("conversion of " + cls, "proved", "%d version strings" % cnt)
        else:
            R.ob("conversion of " + cls, "undecided", und)


# ---------------------------------------------------------------- C31
def containers(R, n, seed):
    """sparse containers survive pickling: rows, width and data type"""
    from .cases import CASES
    from . import pickling, judge
    case = [c for c in CASES if c.id == "Normalizer[l2]"][0]
    S = Session(case)
    S.convert()
    I = S.I
    I.restore(S.conv.state)
    I.events = []
    for dtype in ("float", "int"):
        what = "sparse_list of %s" % dtype
        try:
            X = S.W.sparse(S.W.size("Fs", 1, 3))
            X_ = I.obj(X)
            I.setobj(X, X_.but(attrs=dict(X_.attrs, dtype=S_bcls(dtype))))
            p = pickling.Pickler(I)
            site = site_(X_.cls)
            if not p.has(X):
                R.ob(what, "proved", "list items and instance attributes are carried over by the default protocol")
                continue
            Y = p.copy(X)
            dead = [e for e in I.events if e.kind in ("raise", "crash") and e.gate is TRUE]
            if dead:
                R.violation(what, "sparse containers survive pickling", site, "%s: %s" % (dead[0].data[0], dead[0].data[1]))
                continue
            a, b = I.obj(X), I.obj(Y)
            if b.cls is not a.cls:
                R.violation(what, "sparse containers survive pickling", site, "the copy is a %s" % getattr(b.cls, "name", b.cls))
                continue
            miss = [k for k in a.attrs if k not in b.attrs]
            if miss:
                R.violation(what, "sparse containers survive pickling", site, "the copy has no attribute %s" % miss[0])
                continue
            ok = True
            for k in a.attrs:
                x, y = a.attrs[k], b.attrs[k]
                if isinstance(x, T) and isinstance(y, T):
                    same = x is y or differ(S, x, y) is None
                else:
                    same = x == y
                if not same:
                    R.violation(what, "sparse containers survive pickling", site, "attribute %s of the copy is %s" % (k, y))
                    ok = False
                    break
            if not ok:
                continue
            x, y = I.reify(X), I.reify(Y)
            v = None if x is y else differ(S, x, y)
            if v is not None:
                R.violation(what, "sparse containers survive pickling", site, "the copy holds %r instead of %r" % (v[1], v[0]))
            else:
                R.ob(what, "proved" if x is y else "agreed")
        except pickling.Recursion as e:
            R.violation(what, "sparse containers survive pickling", "pure_sklearn/utils.py sparse_list", str(e))
        except PathDead:
            e = [e for e in I.events if e.kind in ("raise", "crash")]
            if e and e[0].gate is TRUE:
                R.violation(what, "sparse containers survive pickling", S.loc(e[0]), "%s: %s" % (e[0].data[0], e[0].data[1]))
            else:
                R.ob(what, "undecided", "the copy is built on some paths only")
        except Unsup as e:
            R.ob(what, "undecided", "pickling hooks: %s" % e)


def S_bcls(name):
    from .interp import BCls
    return BCls(name)


def site_(c):
    try:
        import os
        from .core import REPO
        return "%s:%d class %s" % (os.path.relpath(c.mod.path, REPO), c.node.lineno, c.name)
    except Exception:
        return "class %s" % getattr(c, "name", c)


def differ(S, x, y):
    """a valuation under which two value graphs differ"""
    for v in valuations(S, 16, S.case.modes, 1):
        try:
            a, b = t_.ev(x, v), t_.ev(y, v)
        except Exception:
            continue
        if not (a == b):
            return a, b
    return None
