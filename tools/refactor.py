"""Rewrites a copy of the repository without changing what it does, to see that the checks stay quiet.
usage: refactor.py DIR KIND..   (KIND: comp, swap, hoist, invert, enum, while, closure, rename, einsum, helper)"""
import ast, os, sys, random

D, KINDS = sys.argv[1], set(sys.argv[2:])
N = [0]


def fresh(b="tmp"):
    N[0] += 1
    return f"_{b}_{N[0]}"


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


class Comp(ast.NodeTransformer):
    """[f(x) for x in y] as a loop before the statement it stands in"""

    def __init__(self):
        self.pre = []

    def visit_Lambda(self, n):
        return n

    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_IfExp = visit_BoolOp = visit_FunctionDef = visit_Lambda

    def visit_ListComp(self, n):
        if len(n.generators) != 1 or n.generators[0].is_async:
            return n
        g = n.generators[0]
        t = fresh("list")
        inner = Comp()
        elt = inner.visit(n.elt)
        ren = {x.id: fresh("it") for x in ast.walk(g.target) if isinstance(x, ast.Name)}

        class R(ast.NodeTransformer):
            def visit_Name(self, m):
                return ast.Name(ren.get(m.id, m.id), m.ctx)
        if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp)) for x in ast.walk(n.elt)):
            return n
        body = [*inner.pre, ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [elt], []))]
        for c in g.ifs:
            body = [ast.If(c, body, [])]
        it = Comp()
        src = it.visit(g.iter)
        self.pre += it.pre + [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(R().visit(g.target), src, [R().visit(b) for b in body], [])]
        return ast.Name(t, ast.Load())


class Swap(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        seq = (ast.List, ast.Tuple, ast.Constant, ast.Starred, ast.JoinedStr)
        if isinstance(n.op, ast.Mult) and not isinstance(n.left, (ast.List, ast.Tuple)) and not isinstance(n.right, (ast.List, ast.Tuple)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
            n.left, n.right = n.right, n.left
        return n


class Invert(ast.NodeTransformer):
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse:
            return n
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Einsum(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "einsum" and isinstance(n.args[0], ast.Constant):
            s = n.args[0].value
            ls = sorted({c for c in s if c.isalpha()})
            m = dict(zip(ls, reversed("pqrstuvwxyz"[:len(ls)])))
            n.args[0] = ast.Constant("".join(m.get(c, c) for c in s))
        return n


class Enum(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "enumerate_never" and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
            return ast.Call(ast.Name("zip", ast.Load()), [ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [n.args[0]], [])], []), n.args[0]], [])
        if isinstance(n.func, ast.Attribute) and n.func.attr == "reshape" and len(n.args) == 1 and ast.unparse(n.args[0]) == "-1" and not n.keywords and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "np"):
            return ast.Call(ast.Attribute(n.func.value, "flatten", ast.Load()), [], [])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Name) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n


def np_(name, *a, **k):
    return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), name, ast.Load()), list(a), [ast.keyword(x, y) for x, y in k.items()])


def is_np(n, *names):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np" and n.func.attr in names


class Api(ast.NodeTransformer):
    """other functions of numpy for the same thing"""

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == "np" and n.attr == "newaxis":
            return ast.Constant(None)
        if n.attr == "T":
            return ast.Call(ast.Attribute(n.value, "transpose", ast.Load()), [], [])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if is_np(n, "conj"):
            n.func.attr = "conjugate"
        if is_np(n, "square") and is_np(n.args[0], "abs"):
            e = n.args[0].args[0]
            return np_("real", ast.BinOp(e, ast.Mult(), np_("conj", e)))
        if is_np(n, "tensordot") and len(n.keywords) == 1 and isinstance(n.keywords[0].value, ast.Tuple):
            i, j = n.keywords[0].value.elts
            if isinstance(i, ast.Constant) and isinstance(j, ast.Constant):
                return np_("tensordot", np_("moveaxis", n.args[0], i, ast.Constant(-1)), np_("moveaxis", n.args[1], j, ast.Constant(0)), axes=ast.Constant(1))
        if isinstance(n.func, ast.Attribute) and n.func.attr == "norm" and ast.unparse(n.func.value) == "np.linalg" and len(n.args) == 1 and all(k.arg == "axis" for k in n.keywords):
            return np_("sqrt", np_("sum", ast.BinOp(np_("abs", n.args[0]), ast.Pow(), ast.Constant(2)), **{k.arg: k.value for k in n.keywords}))
        return n


class Cis(ast.NodeTransformer):
    """exp(1j x) as cos(x) + 1j sin(x)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if is_np(n, "exp") and isinstance(n.args[0], ast.BinOp) and any(isinstance(x, ast.Constant) and isinstance(x.value, complex) for x in ast.walk(n.args[0])):
            z = n.args[0]
            return ast.BinOp(np_("cos", np_("imag", z)), ast.Add(), ast.BinOp(ast.Constant(1j), ast.Mult(), np_("sin", np_("imag", z))))
        return n


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant, ast.Attribute, ast.Starred, ast.Lambda, ast.GeneratorExp, ast.JoinedStr))


class Hoist:
    """arguments of calls in returns and assignments into variables"""

    def go(self, st):
        v = getattr(st, "value", None)
        if not isinstance(st, (ast.Return, ast.Assign)) or v is None:
            return [st]
        pre = []
        if isinstance(v, ast.Call):
            for k, a in enumerate(v.args):
                if not simple(a):
                    t = fresh("arg")
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    v.args[k] = ast.Name(t, ast.Load())
        if isinstance(v, ast.Dict):
            for k, a in enumerate(v.values):
                if not simple(a):
                    t = fresh("val")
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    v.values[k] = ast.Name(t, ast.Load())
        if isinstance(v, ast.BinOp):
            for side in ("left", "right"):
                a = getattr(v, side)
                if not simple(a):
                    t = fresh("op")
                    pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    setattr(v, side, ast.Name(t, ast.Load()))
        if isinstance(st, ast.Return):
            t = fresh("ret")
            return [*pre, ast.Assign([ast.Name(t, ast.Store())], v), ast.Return(ast.Name(t, ast.Load()))]
        return [*pre, st]


def blocks(f, fn):
    """fn on every statement of the body, recursively"""
    def do(body):
        out = []
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                out.append(st)
                continue
            for at in ("body", "orelse", "finalbody"):
                if getattr(st, at, None) and isinstance(getattr(st, at), list):
                    setattr(st, at, do(getattr(st, at)))
            out += fn(st)
        return out
    f.body = do(f.body)


def comp(st):
    c = Comp()
    if isinstance(st, (ast.Assign, ast.Return, ast.Expr)) and st.value is not None:
        st.value = c.visit(st.value)
    return [*c.pre, st]


def whiles(st):
    """for i in range(n) as a while loop"""
    if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == "range" and len(st.iter.args) == 1 and isinstance(st.target, ast.Name) and not any(isinstance(x, ast.Continue) for x in ast.walk(st)):
        i = fresh("i")
        n = fresh("n")
        return [ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)), ast.Assign([ast.Name(n, ast.Store())], st.iter.args[0]),
                ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(n, ast.Load())]),
                          [ast.Assign([st.target], ast.Name(i, ast.Load())), ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1)), *st.body], [])]
    return [st]


def rename(f):
    """local variables under other names"""
    a = f.args
    params = {x.arg for x in [*a.args, *a.kwonlyargs, *a.posonlyargs]} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    loc = {x.id for s in f.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
    if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.Import, ast.ImportFrom, ast.ClassDef)) for s in f.body for x in ast.walk(s)):
        return
    for s in f.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_renamed"


def helper(f, new):
    """the returned expression moves to a function of its own"""
    last = f.body[-1]
    if not isinstance(last, ast.Return) or last.value is None or isinstance(last.value, ast.Name) or f.decorator_list and any("overload" in ast.unparse(d) for d in f.decorator_list):
        return
    if any(isinstance(x, (ast.Lambda, ast.Yield, ast.Await, ast.NamedExpr)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for x in ast.walk(last.value)):
        return
    a = f.args
    loc = {x.arg for x in [*a.args, *a.kwonlyargs, *a.posonlyargs]} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    for s in f.body[:-1]:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.add(x.id)
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                loc.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                loc |= {(y.asname or y.name).split(".")[0] for y in x.names}
    inner = {x.id for s in f.body[:-1] for c in ast.walk(s) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
    inner |= {x.id for c in ast.walk(last.value) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
    if inner & names(last.value) & loc:
        return
    used = sorted(names(last.value) & loc)
    h = fresh("helper")
    if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(last.value)):
        return
    new.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), [ast.Return(last.value)], [], None, None, []))
    f.body[-1] = ast.Return(ast.Call(ast.Name(h, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))


R = os.path.join(D, "surface_potential_analysis")
for d, _, fs in os.walk(R):
    for fn in fs:
        if not fn.endswith(".py") or "plot" in fn:
            continue
        p = os.path.join(d, fn)
        t = ast.parse(open(p).read())
        new = []
        for f in [x for x in ast.walk(t) if isinstance(x, ast.FunctionDef)]:
            if "comp" in KINDS:
                blocks(f, comp)
            if "while" in KINDS:
                blocks(f, whiles)
            if "hoist" in KINDS:
                h = Hoist()
                blocks(f, h.go)
            if "rename" in KINDS:
                rename(f)
            if "closure" in KINDS and not any(isinstance(x, (ast.Yield, ast.Nonlocal)) or isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in {a.arg for a in f.args.args + f.args.kwonlyargs} for x in ast.walk(f)) and not any("overload" in ast.unparse(z) for z in f.decorator_list) and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(f)):
                i = fresh("inner")
                doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
                rest = f.body[len(doc):]
                if rest:
                    f.body = [*doc, ast.FunctionDef(i, ast.arguments([], [], None, [], [], None, []), rest, [], None, None, []), ast.Return(ast.Call(ast.Name(i, ast.Load()), [], []))]
        for f in [x for x in t.body if isinstance(x, ast.FunctionDef)]:
            if "helper" in KINDS:
                helper(f, new)
        for k, c in (("swap", Swap), ("invert", Invert), ("einsum", Einsum), ("enum", Enum), ("api", Api), ("cis", Cis)):
            if k in KINDS:
                t = c().visit(t)
        t.body += new
        ast.fix_missing_locations(t)
        open(p, "w").write(ast.unparse(t) + "\n")
