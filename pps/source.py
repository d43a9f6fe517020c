"""Syntax-level model of the packages: modules, bindings, import graph, name-based reference graph."""
import ast
import builtins
import os
import symtable
import sys

from .core import REPO, PKGS, AnchorError


class Module(object):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        self.rel = os.path.relpath(path, REPO)
        with open(path, encoding="utf-8") as fh:
            self.text = fh.read()
        self.tree = ast.parse(self.text)
        self.test = "tests" in name.split(".") or name.split(".")[-1].startswith("test_") or name.split(".")[-1] == "conftest"

    def absolute(self, node):
        """absolute name of the module an ImportFrom names"""
        if not node.level:
            return node.module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        up = node.level - 1
        if up:
            parts = parts[:-up]
        return ".".join(parts + ([node.module] if node.module else []))


def modules():
    out = {}
    for pkg in PKGS:
        root = os.path.join(REPO, pkg)
        if not os.path.isdir(root):
            raise AnchorError("package " + pkg)
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                parts = os.path.relpath(p, REPO)[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                out[".".join(parts)] = Module(".".join(parts), p, is_pkg)
    return out


# -------------------------------------------------------------- standard library
NEW = {"contextvars", "dataclasses", "graphlib", "zoneinfo", "tomllib", "annotationlib", "compression", "pathlib._local",
       "importlib.resources", "importlib.metadata"}
GONE = {"distutils", "imp", "asynchat", "asyncore", "smtpd", "parser", "symbol", "formatter", "macpath", "dummy_threading", "_dummy_threading", "binhex"}
STD = set(getattr(sys, "stdlib_module_names", ())) - GONE
NEWNAMES = {
    "math": {"prod", "dist", "comb", "perm", "isqrt", "lcm", "nextafter", "ulp", "cbrt", "exp2", "remainder", "sumprod", "fma"},
    "functools": {"cache", "cached_property", "singledispatchmethod"},
    "itertools": {"pairwise", "batched"},
    "operator": {"call", "is_none", "is_not_none"},
    "statistics": {"fmean", "geometric_mean", "multimode", "quantiles", "NormalDist", "correlation", "covariance", "linear_regression"},
    "collections": {"Mapping", "MutableMapping", "Sequence", "MutableSequence", "Iterable", "Iterator", "Callable", "Set", "MutableSet", "Hashable", "Sized", "Container", "Generator"},
    "time": {"clock", "time_ns", "perf_counter_ns", "monotonic_ns", "process_time_ns", "thread_time"},
    "re": {"Pattern", "Match", "NOFLAG", "RegexFlag", "template"},
    "typing": {"Literal", "Final", "Protocol", "TypedDict", "runtime_checkable", "final", "get_args", "get_origin", "Annotated", "ParamSpec", "TypeAlias", "Concatenate", "TypeGuard",
               "Self", "Never", "Required", "NotRequired", "override", "LiteralString", "Unpack", "OrderedDict", "SupportsIndex", "ForwardRef", "NoReturn"},
    "__future__": {"annotations"},
    "inspect": {"getargspec"}, "string": {"maketrans", "letters", "lowercase", "uppercase"}, "random": {"randbytes"},
    "warnings": {"deprecated"}, "unicodedata": {"is_normalized"}, "os": {"getcwdu", "errno"}, "string.templatelib": set(),
}
NEWATTRS = {"removeprefix": "3.9", "removesuffix": "3.9", "bit_count": "3.10", "isascii": "3.7", "as_integer_ratio_": ""}


def is_std(name):
    """module of the standard library of every supported Python version"""
    if name in NEW or name.split(".")[0] in NEW or name.split(".")[0] in GONE:
        return False
    return name.split(".")[0] in STD or name.split(".")[0] == "__future__"


def own(name):
    return name.split(".")[0] in PKGS


# ------------------------------------------------------------------- walking
def not_run(test):
    """conditions of blocks that are not executed on import"""
    if isinstance(test, (ast.Name, ast.Attribute)) and (getattr(test, "id", None) == "TYPE_CHECKING" or getattr(test, "attr", None) == "TYPE_CHECKING"):
        return True
    if isinstance(test, ast.Constant) and not test.value:
        return True
    if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and test.left.id == "__name__":
        c = test.comparators[0]
        return isinstance(c, ast.Constant) and c.value == "__main__" and isinstance(test.ops[0], ast.Eq)
    return False


def executed(body):
    """statements a block executes (function bodies excluded, class bodies and branches included), in order"""
    for s in body:
        yield s
        if isinstance(s, ast.If):
            if not not_run(s.test):
                for x in executed(s.body):
                    yield x
            for x in executed(s.orelse):
                yield x
        elif isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            for x in executed(s.body + s.orelse):
                yield x
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for x in executed(s.body):
                yield x
        elif isinstance(s, ast.Try):
            for x in executed(s.body + [y for h in s.handlers for y in h.body] + s.orelse + s.finalbody):
                yield x
        elif isinstance(s, ast.ClassDef):
            for x in executed(s.body):
                yield x


def own_exprs(s):
    """expressions a statement evaluates itself (no nested statements, no lambda or function bodies)"""
    todo = []
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        todo = list(s.decorator_list) + list(s.args.defaults) + [d for d in s.args.kw_defaults if d is not None]
    elif isinstance(s, ast.ClassDef):
        todo = list(s.decorator_list) + list(s.bases) + [k.value for k in s.keywords]
    else:
        for f, v in ast.iter_fields(s):
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, ast.expr):
                    todo.append(x)
                elif isinstance(x, ast.withitem):
                    todo.append(x.context_expr)
    while todo:
        e = todo.pop()
        yield e
        if isinstance(e, ast.Lambda):
            continue
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                todo.append(c)
            elif isinstance(c, ast.comprehension):
                todo += [c.target, c.iter] + c.ifs
            elif isinstance(c, ast.keyword):
                todo.append(c.value)


def body_nodes(fn):
    """all nodes of a function's body (nested functions included)"""
    for s in (fn.body if isinstance(fn.body, list) else [fn.body]):
        for x in ast.walk(s):
            yield x


def imports_of(m, node, consts=None):
    """[(absolute module, name or None, node)] a statement or expression imports"""
    if isinstance(node, ast.Import):
        return [(a.name, None, node) for a in node.names]
    if isinstance(node, ast.ImportFrom):
        base = m.absolute(node)
        return [(base, a.name, node) for a in node.names]
    if isinstance(node, ast.Call):
        f = node.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if nm in ("__import__", "import_module") and node.args:
            a = node.args[0]
            v = const_str(a)
            if v and not v.startswith("."):
                return [(v, None, node)]
    if isinstance(node, (ast.Subscript, ast.Call)):
        # sys.modules["name"], sys.modules.get("name")
        base = node.value if isinstance(node, ast.Subscript) else node.func.value if isinstance(node.func, ast.Attribute) and node.func.attr in ("get", "pop", "setdefault") else None
        if isinstance(base, ast.Attribute) and base.attr == "modules" and isinstance(base.value, ast.Name) and base.value.id == "sys":
            k = node.slice if isinstance(node, ast.Subscript) else node.args[0] if node.args else None
            v = const_str(k)
            if v:
                return [(v, None, node)]
    return []


def const_str(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return a.value
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add):
        x, y = const_str(a.left), const_str(a.right)
        return x + y if x is not None and y is not None else None
    return None


# ------------------------------------------------------------- reference graph
class Func(object):
    def __init__(self, mod, cls, node, qual):
        self.mod, self.cls, self.node, self.qual = mod, cls, node, qual
        self.name = node.name

    def __repr__(self):
        return "%s:%d %s" % (self.mod.rel, self.node.lineno, self.qual)


def functions(mods):
    """top-level functions and methods"""
    out = []
    for m in mods.values():
        if m.test:
            continue

        def go(body, cls, prefix):
            for s in executed(body):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if not any(f.node is s for f in out):
                        out.append(Func(m, cls, s, prefix + s.name))
        for s in executed(m.tree.body):
            if isinstance(s, ast.ClassDef):
                go(s.body, s, s.name + ".")
        go([x for x in m.tree.body], None, "")
    return out


def refs(node):
    """(bare names, attribute names) a function or statement mentions"""
    names, attrs = set(), set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name):
            names.add(x.id)
        elif isinstance(x, ast.Attribute):
            attrs.add(x.attr)
        elif isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier():
            attrs.add(x.value)
    return names, attrs


def reachable(fs, roots):
    """functions reachable from roots; calls are resolved by name (an over-approximation)"""
    byname = {}
    bycls = {}
    for f in fs:
        byname.setdefault(f.name, []).append(f)
        if f.cls is not None:
            bycls.setdefault(f.cls.name, []).append(f)
    bases = {}
    for f in fs:
        if f.cls is not None:
            bases[f.cls.name] = [b.id if isinstance(b, ast.Name) else getattr(b, "attr", None) for b in f.cls.bases]

    def ctor(c, seen=()):
        out = [f for f in bycls.get(c, ()) if f.name.startswith("__")]
        for b in bases.get(c, ()):
            if b and b not in seen:
                out += ctor(b, seen + (c,))
        return out
    todo = list(roots)
    via = {id(f): None for f in todo}
    done = []
    while todo:
        f = todo.pop()
        done.append(f)
        names, attrs = refs(f.node)
        nxt = []
        for n in names:
            nxt += [g for g in byname.get(n, ()) if g.cls is None]
            nxt += ctor(n)
        for n in attrs:
            nxt += [g for g in byname.get(n, ()) if n != "__init__"]
            nxt += ctor(n)
        if "__init__" in attrs and f.cls is not None:
            for b in bases.get(f.cls.name, ()):
                nxt += ctor(b or "")
        for g in nxt:
            if id(g) not in via:
                via[id(g)] = f
                todo.append(g)
    return done, via


def chain(via, f):
    out = [f]
    while via.get(id(out[-1])) is not None and len(out) < 12:
        out.append(via[id(out[-1])])
    return " <- ".join(x.qual for x in out)


BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__class__", "__cached__", "__annotations__",
                                 "__module__", "__qualname__"}
NEWBUILTINS = {"aiter", "anext", "breakpoint", "EncodingWarning", "BaseExceptionGroup", "ExceptionGroup", "PythonFinalizationError"}


def undefined(m):
    """[(function node name, line, name)]: global names that nothing binds"""
    if any(isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names) for s in ast.walk(m.tree)):
        return []
    top = symtable.symtable(m.text, m.path, "exec")
    bound = set()
    for s in top.get_symbols():
        if s.is_assigned() or s.is_imported() or s.is_namespace():
            bound.add(s.get_name())

    def gl(t):
        for s in t.get_symbols():
            if s.is_declared_global() and (s.is_assigned() or s.is_imported()):
                bound.add(s.get_name())
        for c in t.get_children():
            gl(c)
    gl(top)
    bound |= BUILTINS - NEWBUILTINS
    out = []

    def go(t, path):
        for s in t.get_symbols():
            if s.is_referenced() and s.is_global() and s.get_name() not in bound:
                out.append((path, t.get_lineno(), s.get_name()))
        for c in t.get_children():
            if getattr(c, "get_type", lambda: "")() in ("function", "class") or str(c.get_type()).endswith(("function", "class")):
                go(c, path + [c.get_name()])
    for s in top.get_symbols():
        if s.is_referenced() and not (s.is_assigned() or s.is_imported() or s.is_namespace()) and s.get_name() not in bound:
            out.append(([], 0, s.get_name()))
    for c in top.get_children():
        go(c, [c.get_name()])
    return out


def unbound(fnode):
    """[(name, line)]: local variables read where no assignment of theirs can have been executed"""
    a = fnode.args
    args = {x.arg for x in a.args + a.kwonlyargs + getattr(a, "posonlyargs", []) + [y for y in (a.vararg, a.kwarg) if y]}
    skip = set()
    scopes = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
    comps = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)

    def own(n):
        """nodes of the statement or expression outside nested scopes"""
        st = [n]
        while st:
            x = st.pop()
            yield x
            if x is not n and isinstance(x, scopes):
                continue
            if isinstance(x, scopes) and x is n and not x is fnode:
                continue
            st.extend(ast.iter_child_nodes(x))

    def stores(ns):
        out = set()
        for n in ns:
            for x in own(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(x.name)
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    out |= {(y.asname or y.name).split(".")[0] for y in x.names}
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                elif type(x).__name__ in ("MatchAs", "MatchStar", "MatchMapping"):
                    out.add(getattr(x, "name", None) or getattr(x, "rest", None))
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    skip.update(x.names)
        return out
    locs = stores(fnode.body)
    # targets of comprehensions are their own
    inner = set()
    for x in own(fnode):
        if isinstance(x, comps):
            for g in x.generators:
                inner |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
    locs -= skip | args | inner
    bad = []

    def read(e, st):
        if e is None or st is None:
            return
        w = stores([e])
        for x in own(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in locs and x.id not in st and x.id not in w:
                bad.append((x.id, x.lineno))
        st |= w

    def join(*ss):
        ss = [s for s in ss if s is not None]
        return set().union(*ss) if ss else None

    def block(body, st):
        for s in body:
            if st is None:
                return None
            st = stmt(s, st)
        return st

    def stmt(s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return st | {s.name}
        if isinstance(s, ast.If):
            st = set(st)
            read(s.test, st)
            return join(block(s.body, set(st)), block(s.orelse, set(st)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            st = set(st)
            read(s.iter if not isinstance(s, ast.While) else s.test, st)
            b = st | stores(s.body)
            if not isinstance(s, ast.While):
                b |= stores([s.target])
            block(s.body, set(b))
            # the loop may be left at any point of its body
            return join(block(s.orelse, set(st | b)), b)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            st = set(st)
            for i in s.items:
                read(i.context_expr, st)
                if i.optional_vars is not None:
                    st |= stores([i.optional_vars])
            w = st | stores(s.body)
            r = block(s.body, set(st))
            return w if r is None else r
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            h = st | stores(s.body)
            r = block(s.body, set(st))
            if r is not None:
                r = block(s.orelse, r)
            outs = [r]
            for x in s.handlers:
                y = set(h) | ({x.name} if x.name else set())
                outs.append(block(x.body, y))
            j = join(*outs)
            f = (j or set()) | h | stores(s.orelse) | stores([q for x in s.handlers for q in x.body])
            g = block(s.finalbody, set(f))
            return None if j is None or g is None else j | g
        if type(s).__name__ == "Match":
            st = set(st)
            read(s.subject, st)
            return join(st, *[block(c.body, st | stores([c.pattern])) for c in s.cases])
        if isinstance(s, (ast.Return, ast.Raise)):
            st = set(st)
            for x in ast.iter_child_nodes(s):
                read(x, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        st = set(st)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in locs and s.target.id not in st:
                bad.append((s.target.id, s.lineno))
            read(s.value, st)
            return st | stores([s.target])
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            read(s.value, st)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                read(t, set(st) | stores([t]))
            return st | (stores([s]) if getattr(s, "value", None) is not None else set())
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass, ast.Delete)):
            return st
        for x in ast.iter_child_nodes(s):
            read(x, st)
        return st | stores([s])
    block(fnode.body, set())
    return bad
