"""refgen.py <transform> <dest>: writes a behaviour-preserving rewrite of /repo's packages to <dest>; refgen.py list"""
import ast, copy, glob, os, shutil, sys
SRC = os.environ.get("SRC", "/repo")
CNT = [0]


def tmp(p="tmp"):
    CNT[0] += 1
    return "_%s%d" % (p, CNT[0])


def name(n, store=False):
    return ast.Name(n, ast.Store() if store else ast.Load())


def assign(n, v):
    return ast.Assign([name(n, True)], v, lineno=1)


class Blocks(ast.NodeTransformer):
    """rewrites statement lists"""

    def stmts(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return self.block(out)

    def block(self, b):
        return b

    def stmt(self, s):
        return s

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, f, self.stmts(v))
        for h in getattr(n, "handlers", []):
            h.body = self.stmts(h.body)
        return n


class CompToLoop(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.ListComp) and (isinstance(s, ast.Return) or isinstance(s.targets[0], (ast.Name, ast.Attribute))):
            lc = s.value
            n = tmp("rows")
            ren = {}
            for g in lc.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        ren[x.id] = tmp(x.id)

            class R(ast.NodeTransformer):
                def visit_Name(self, x):
                    return ast.Name(ren.get(x.id, x.id), x.ctx)
            # the first iterable sees the outer names
            first = lc.generators[0].iter
            lc2 = R().visit(copy.deepcopy(lc))
            lc2.generators[0].iter = first
            body = [ast.Expr(ast.Call(ast.Attribute(name(n), "append", ast.Load()), [lc2.elt], []))]
            for g in reversed(lc2.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [], lineno=1)]
            s.value = name(n)
            return [assign(n, ast.List([], ast.Load()))] + body + [s]
        return s


class ReturnTemp(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            n = tmp("result")
            return [assign(n, s.value), ast.Return(name(n))]
        return s


class ArgTemp(Blocks):
    """arguments of statement-level calls get names, in evaluation order"""

    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) and not any(isinstance(a, ast.Starred) for a in s.value.args):
            c = s.value
            if isinstance(c.func, ast.Attribute) and not isinstance(c.func.value, ast.Name):
                return s
            pre = []
            for k, a in enumerate(c.args):
                if not isinstance(a, (ast.Name, ast.Constant, ast.Lambda, ast.GeneratorExp)):
                    n = tmp("arg")
                    pre.append(assign(n, a))
                    c.args[k] = name(n)
            return pre + [s]
        return s


class IfInvert(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            t = s.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            return ast.If(t, s.orelse, s.body)
        return s


class ElseAfterReturn(Blocks):
    def block(self, b):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and k + 1 < len(b):
                return b[:k] + [ast.If(s.test, s.body, self.block(b[k + 1:]))]
        return b


class NestIf(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(v, body, [])]
            return body
        return s


class TernaryToIf(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            return ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            return ast.If(s.value.test, [ast.Assign(s.targets, s.value.body, lineno=1)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse, lineno=1)])
        return s


class CmpFlip(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n


class MapToComp(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "list" and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Name) and n.args[0].func.id == "map" and len(n.args[0].args) == 2:
            f, xs = n.args[0].args
            v = tmp("item")
            return ast.ListComp(ast.Call(f, [name(v)], []), [ast.comprehension(name(v, True), xs, [], 0)])
        return n


class CompToMap(ast.NodeTransformer):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
            return ast.Call(name("list"), [ast.Call(name("map"), [lam, g.iter], [])], [])
        return n


class CompToGen(ast.NodeTransformer):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(name("list"), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(name("dict"), [ast.GeneratorExp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)], [])


class IsinstanceSplit(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [n.args[0], t], []) for t in n.args[1].elts])
        return n


class FuncWrap(ast.NodeTransformer):
    """the body of every function moves to a helper next to it"""

    def split(self, body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                s.body = self.split(s.body, True)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.name.startswith("__") and not s.args.vararg and not s.args.kwarg and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) \
                    and not any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(s)):
                h = copy.deepcopy(s)
                h.name = "_do_" + s.name
                args = [a.arg for a in s.args.args]
                h.args.defaults = []
                call = ast.Call(ast.Attribute(name(args[0]), h.name, ast.Load()) if cls else name(h.name), [name(a) for a in (args[1:] if cls else args)] + [name(a.arg) for a in s.args.kwonlyargs], [])
                doc = [x for x in s.body[:1] if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)]
                h.args.args += h.args.kwonlyargs
                h.args.kwonlyargs, h.args.kw_defaults = [], []
                s.body = doc + [ast.Return(call)]
                # a unique name per class keeps overriding intact
                if cls:
                    h.name = call.func.attr = h.name + "_of_" + self.cname if getattr(self, "cname", None) else h.name
                out += [h, s] if not cls else [s, h]
            else:
                out.append(s)
        return out

    def visit_Module(self, m):
        body = []
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                self.cname = s.name
                s.body = self.split(s.body, True)
                body.append(s)
            else:
                self.cname = None
                body += self.split([s], False)
        m.body = body
        return m


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        params = set(a.arg for a in f.args.args + f.args.kwonlyargs) | ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        inner = [x for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not f]
        if any(isinstance(x, ast.FunctionDef) for x in inner) or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)):
            return f
        lam = set(a.arg for l in inner if isinstance(l, ast.Lambda) for a in l.args.args)
        loc = set(x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) - params - lam
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_value"
        return f


class SelfLocal(ast.NodeTransformer):
    """attributes read several times are read once at the start"""

    def visit_FunctionDef(self, f):
        if f.decorator_list or f.name.startswith("__") or not f.args.args or f.args.args[0].arg != "self" or any(isinstance(x, (ast.FunctionDef, ast.Yield)) and x is not f for x in ast.walk(f)):
            return f
        reads, writes, called = {}, set(), set()
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                if isinstance(x.ctx, ast.Load):
                    reads[x.attr] = reads.get(x.attr, 0) + 1
                else:
                    writes.add(x.attr)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                called.add(x.func.attr)
        # only attributes read by the first statements unconditionally
        cond = set()
        for s in f.body:
            if isinstance(s, (ast.If, ast.For, ast.While, ast.Try, ast.With)):
                break
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                    cond.add(x.attr)
        pick = [a for a, n in reads.items() if n >= 2 and a not in writes and a not in called and a in cond]
        if not pick:
            return f
        m = {a: tmp(a.strip("_")) for a in pick}

        class R(ast.NodeTransformer):
            def visit_Attribute(self, x):
                if isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in m:
                    return name(m[x.attr])
                return self.generic_visit(x) or x
        f.body = [R().visit(s) for s in f.body]
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[k:k] = [assign(m[a], ast.Attribute(name("self"), a, ast.Load())) for a in pick]
        return f


class SumLoop(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "sum" and len(s.value.args) == 1:
            n, v = tmp("total"), tmp("term")
            it = s.value.args[0]
            s.value = name(n)
            return [assign(n, ast.Constant(0)), ast.For(name(v, True), it, [ast.AugAssign(name(n, True), ast.Add(), name(v))], [], lineno=1), s]
        return s


class IndexLoop(Blocks):
    """for x in xs over a parameter's name -> for i in range(len(xs))"""

    def visit_ListComp(self, n):
        return n

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and s.iter.id in ("X", "A", "B", "rows", "estimators_") and isinstance(s.target, ast.Name):
            i = tmp("i")
            x = ast.Subscript(name(s.iter.id), name(i), ast.Load())
            s.body = [assign(s.target.id, x)] + s.body
            s.iter = ast.Call(name("range"), [ast.Call(name("len"), [s.iter], [])], [])
            s.target = name(i, True)
        return s


class CompIndex(ast.NodeTransformer):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and isinstance(g.iter, ast.Name) and g.iter.id in ("X", "A") and isinstance(g.target, ast.Name):
            i = tmp("i")
            t = g.target.id
            x = ast.Subscript(name(g.iter.id), name(i), ast.Load())

            class R(ast.NodeTransformer):
                def visit_Name(self, y):
                    return copy.deepcopy(x) if y.id == t else y
            elt = R().visit(n.elt)
            return ast.ListComp(elt, [ast.comprehension(name(i, True), ast.Call(name("range"), [ast.Call(name("len"), [g.iter], [])], []), [], 0)])
        return n


class EnumLoop(Blocks):
    """for i in range(len(x)) comprehension -> enumerate"""

    def visit(self, n):
        return super().visit(n)


class GetToIn(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) == 2 and isinstance(n.func.value, ast.Name) and isinstance(n.args[0], (ast.Name, ast.Constant)) and isinstance(n.args[1], ast.Constant):
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]), ast.Subscript(n.func.value, n.args[0], ast.Load()), n.args[1])
        return n


class Square(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n


class NotCmp(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m[type(n.ops[0])]()], n.comparators))
        return n


class DeMorgan(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class LambdaDef(Blocks):
    """name = lambda ... -> def"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Lambda) and isinstance(s.targets[0], ast.Name):
            return ast.FunctionDef(s.targets[0].id, s.value.args, [ast.Return(s.value.body)], [], lineno=1)
        return s


class ForWhile(Blocks):
    """for loops over lists become index while loops"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and s.iter.id in ("X", "A") and isinstance(s.target, ast.Name) and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)):
            i = tmp("k")
            return [assign(i, ast.Constant(0)), ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name("len"), [s.iter], [])]),
                    [assign(s.target.id, ast.Subscript(s.iter, name(i), ast.Load()))] + s.body + [ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1))], [])]
        return s


class FString(ast.NodeTransformer):
    """'..{}..'.format(x) -> '%s'"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and "%" not in n.func.value.value:
            return ast.BinOp(ast.Constant(n.func.value.value.replace("{}", "%s")), ast.Mod(), ast.Tuple([ast.Call(name("str"), [a], []) for a in n.args], ast.Load()))
        return n


class LocalImport(ast.NodeTransformer):
    """import x.y names through the module"""


class Reorder(ast.NodeTransformer):
    """independent attribute assignments of __init__ in reverse order"""

    def visit_FunctionDef(self, f):
        if f.name != "__init__":
            return f
        out, run = [], []
        for s in f.body:
            simple = isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and not any(isinstance(x, ast.Name) and x.id == "self" for x in ast.walk(s.value)) and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id.startswith("check") for x in ast.walk(s))
            if simple:
                run.append(s)
            else:
                out += run[::-1] + [s]
                run = []
        f.body = out + run[::-1]
        return f


class ZipRange(ast.NodeTransformer):
    """[f(a[i]) for i in range(len(a))] -> for i, v in enumerate(a)"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) == 1 and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == "range" and len(g.iter.args) == 1 and isinstance(g.iter.args[0], ast.Call) and isinstance(g.iter.args[0].func, ast.Name) and g.iter.args[0].func.id == "len":
            xs = g.iter.args[0].args[0]
            v = tmp("v")
            d = ast.dump(xs)
            i = g.target.id

            class R(ast.NodeTransformer):
                def visit_Subscript(self, y):
                    if ast.dump(y.value) == d and isinstance(y.slice, ast.Name) and y.slice.id == i:
                        return name(v)
                    return self.generic_visit(y) or y
            elt = R().visit(n.elt)
            return ast.ListComp(elt, [ast.comprehension(ast.Tuple([name(i, True), name(v, True)], ast.Store()), ast.Call(name("enumerate"), [xs], []), g.ifs, 0)])
        return n


ALL = {c.__name__: c for c in (CompToLoop, ReturnTemp, ArgTemp, IfInvert, ElseAfterReturn, NestIf, TernaryToIf, CmpFlip, MapToComp, CompToMap, CompToGen, IsinstanceSplit, FuncWrap, Rename, SelfLocal,
                               SumLoop, IndexLoop, CompIndex, GetToIn, Square, NotCmp, DeMorgan, LambdaDef, ForWhile, FString, Reorder, ZipRange)}

if __name__ == "__main__":
    if sys.argv[1] == "list":
        print("\n".join(ALL))
        sys.exit()
    dest = sys.argv[2]
    if not os.path.isdir(dest):
        shutil.copytree(SRC, dest, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    only = sys.argv[3] if len(sys.argv) > 3 else ""
    ch = 0
    for f in sorted(glob.glob(dest + "/pure_*/**/*.py", recursive=True)):
        if "/test" in f or only not in f:
            continue
        t = ast.parse(open(f).read())
        before = ast.dump(t)
        t = ALL[sys.argv[1]]().visit(t)
        ast.fix_missing_locations(t)
        if ast.dump(t) != before:
            ch += 1
            open(f, "w").write(ast.unparse(t) + "\n")
    print(sys.argv[1], ch, "files changed")
