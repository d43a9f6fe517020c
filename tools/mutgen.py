"""Generates first-order changes of /repo's sources into a directory of JSON records (file, line, old/new text, operator)."""
import ast, glob, json, os, sys
REPO = os.environ.get("PPS_REPO", "/repo")
out = []


def seg(src, lines, n):
    return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)


def apply(text, pos, new):
    l1, c1, l2, c2 = pos
    ls = text.split("\n")
    enc = lambda l, c: len(l.encode()[:c].decode())
    a = sum(len(x) + 1 for x in ls[:l1 - 1]) + enc(ls[l1 - 1], c1)
    b = sum(len(x) + 1 for x in ls[:l2 - 1]) + enc(ls[l2 - 1], c2)
    return text[:a] + new + text[b:]


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}


def gen(path):
    text = open(path).read()
    tree = ast.parse(text)
    rel = os.path.relpath(path, REPO)
    us = lambda n: ast.get_source_segment(text, n)

    def emit(n, new, op):
        pos = (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)
        t2 = apply(text, pos, new)
        try:
            ast.parse(t2)
        except SyntaxError:
            return
        if ast.dump(ast.parse(t2)) == ast.dump(tree):
            return
        out.append({"file": rel, "line": n.lineno, "pos": pos, "new": new, "op": op, "old": us(n)})
    doc = set()
    for x in ast.walk(tree):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Module)) and x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant):
            doc.add(id(x.body[0]))
            doc.add(id(x.body[0].value))
        if isinstance(x, ast.Raise):
            for y in ast.walk(x):
                doc.add(id(y))
            doc.discard(id(x))
    for x in ast.walk(tree):
        if id(x) in doc:
            continue
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            o = CMP.get(type(x.ops[0]))
            if o:
                emit(x, "%s %s %s" % (us(x.left), o, us(x.comparators[0])), "cmp")
            if isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                emit(x, "%s %s %s" % (us(x.comparators[0]), {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(x.ops[0])], us(x.left)), "cmpswap")
        elif isinstance(x, ast.BinOp) and type(x.op) in BIN:
            emit(x, "(%s %s %s)" % (us(x.left), BIN[type(x.op)], us(x.right)), "bin")
            emit(x, us(x.left), "binleft")
            emit(x, us(x.right), "binright")
        elif isinstance(x, ast.Constant):
            v = x.value
            if v is True or v is False:
                emit(x, repr(not v), "bool")
            elif isinstance(v, int):
                emit(x, repr(v + 1), "int+1")
                if v != 0:
                    emit(x, repr(v - 1), "int-1")
            elif isinstance(v, float):
                emit(x, repr(v + 1.0), "float+1")
            elif v is None:
                emit(x, "0", "none")
            elif isinstance(v, str) and v:
                emit(x, repr(v + "_"), "str")
        elif isinstance(x, ast.BoolOp):
            w = " or " if isinstance(x.op, ast.And) else " and "
            emit(x, "(" + w.join("(%s)" % us(v) for v in x.values) + ")", "boolop")
            for k in range(len(x.values)):
                emit(x, "(" + (" and " if isinstance(x.op, ast.And) else " or ").join("(%s)" % us(v) for i, v in enumerate(x.values) if i != k) + ")", "booldrop")
        elif isinstance(x, ast.UnaryOp):
            emit(x, "(%s)" % us(x.operand), "unary")
        elif isinstance(x, ast.IfExp):
            emit(x, "(%s)" % us(x.body), "ifexp1")
            emit(x, "(%s)" % us(x.orelse), "ifexp2")
        elif isinstance(x, (ast.If, ast.While)):
            emit(x.test, "not (%s)" % us(x.test), "ifneg")
            if isinstance(x, ast.If):
                emit(x.test, "(%s) or True" % us(x.test), "iftrue")
                emit(x.test, "(%s) and False" % us(x.test), "iffalse")
        elif isinstance(x, ast.comprehension):
            for t in x.ifs:
                emit(t, "True", "compif")
        elif isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break)):
            if isinstance(x, ast.Assign) and not isinstance(x.targets[0], (ast.Attribute, ast.Subscript)):
                # only drop re-assignments
                if isinstance(x.targets[0], ast.Name) and x.targets[0].id in [y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)]:
                    emit(x, "pass", "drop")
            else:
                emit(x, "pass", "drop")
            if isinstance(x, ast.AugAssign):
                b = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(x.op))
                if b:
                    emit(x, "%s %s %s" % (us(x.target), b, us(x.value)), "aug")
        elif isinstance(x, ast.Call):
            if len(x.args) == 1 and not x.keywords and not isinstance(x.args[0], (ast.Starred, ast.GeneratorExp)):
                emit(x, "(%s)" % us(x.args[0]), "unwrap")
            if len(x.args) >= 2:
                emit(x, "%s(%s)" % (us(x.func), ", ".join([us(x.args[1]), us(x.args[0])] + [us(a) for a in x.args[2:]] + [us(k) if False else ("%s=%s" % (k.arg, us(k.value)) if k.arg else "**" + us(k.value)) for k in x.keywords])), "swapargs")
            if x.keywords:
                for k in range(len(x.keywords)):
                    if x.keywords[k].arg:
                        emit(x, "%s(%s)" % (us(x.func), ", ".join([us(a) for a in x.args] + [("%s=%s" % (q.arg, us(q.value)) if q.arg else "**" + us(q.value)) for i, q in enumerate(x.keywords) if i != k])), "kwdrop")
            if isinstance(x.func, ast.Attribute) and not x.args and not x.keywords and x.func.attr in ("tolist", "copy", "lower"):
                emit(x, us(x.func.value), "methdrop")
            if isinstance(x.func, ast.Name) and x.func.id in ("max", "min"):
                emit(x.func, {"max": "min", "min": "max"}[x.func.id], "maxmin")
            if isinstance(x.func, ast.Name) and x.func.id in ("safe_log", "safe_exp"):
                emit(x.func, "(lambda v: v)", "nolog")
        elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice):
            emit(x, us(x.value), "noslice")
        elif isinstance(x, (ast.ListComp,)) and not any(True for _ in ()):
            pass
        elif isinstance(x, ast.ExceptHandler) and x.type is not None:
            pass
        elif isinstance(x, ast.Return) and x.value is not None and isinstance(x.value, ast.ListComp):
            emit(x.value, "(%s)[::-1]" % us(x.value), "reverse")


for f in sorted(glob.glob(REPO + "/pure_*/**/*.py", recursive=True)):
    if "/test" not in f:
        gen(f)
skip = ("performance_comparison",)
json.dump(out, open(sys.argv[1], "w"), indent=0)
print(len(out))
