"""Load the repository's own source under the numpy/builtins shims.

What the mechanical extraction changes: comprehensions / generator expressions get
their first iterable routed through a helper (so that an iterable of symbolic length
yields a symbolic list); the operands of + - * / are passed through a helper that turns
a tuple or list meeting an array into an array (what numpy does); `numpy`, `scipy` and a handful of builtins resolve to shims.
Nothing else: the statements executed are those of the file on disk.
"""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys
import types

import numpy as np

from . import expr as X
from . import logic, loops, sym
from .logic import SymError, Unsupported, entailed, ge
from .npshim import MODELS, numpy_shim, scipy_shim
from .poly import P
from .sym import SBool, SExpr, SInt, SymArray, SymList, has_sym, mkint

REPO = os.environ.get("SPA_REPO", "/repo")
PKG = "surface_potential_analysis"


# ---------------------------------------------------------------- AST rewriting
def _assigned(stmts):
    """Names bound by statements, without nested scopes."""
    out = []

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in stmts:
        walk(s)
    return list(dict.fromkeys(out))


class Rewriter(ast.NodeTransformer):
    """Comprehensions, loops and sums are given the objects they iterate over through the shims; nothing else changes."""

    def __init__(self):
        self.stack, self.count = [], 0

    # -- for statements: see loops.It
    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        self.count += 1
        name = f"__spa_l{self.count}"
        names = [n for n in _assigned(node.body) if n not in _assigned([node.target])]
        self.stack.append(name)
        body = [y for x in node.body for y in self._list(self.visit(x))]
        self.stack.pop()
        node.orelse = [y for x in node.orelse for y in self._list(self.visit(x))]
        pre = []
        if names:
            un = [ast.Assign([ast.Name(n, ast.Store()) for n in names], ast.Constant(0)), ast.Delete([ast.Name(n, ast.Del()) for n in names])]
            pre = [ast.If(ast.Attribute(ast.Name(name, ast.Load()), "sym", ast.Load()), un, [])]
        node.body = [*pre, *body]
        init = ast.Assign([ast.Name(name, ast.Store())], ast.Call(ast.Name("__spa_iter__", ast.Load()), [node.iter], []))
        node.iter = ast.Name(name, ast.Load())
        return [ast.copy_location(init, node), *[node]]

    @staticmethod
    def _list(x):
        return [] if x is None else x if isinstance(x, list) else [x]

    def visit_While(self, node):
        self.stack.append(None)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def _scope(self, node):
        old, self.stack = self.stack, []
        self.generic_visit(node)
        self.stack = old
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = _scope

    def _leave(self, node, names):
        calls = [ast.Expr(ast.Call(ast.Name("__spa_leave__", ast.Load()), [ast.Name(n, ast.Load())], [])) for n in names if n]
        return [*[ast.copy_location(c, node) for c in calls], node]

    def visit_Break(self, node):
        return self._leave(node, self.stack[-1:])

    def visit_Return(self, node):
        self.generic_visit(node)
        return self._leave(node, self.stack)

    def visit_Starred(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = ast.copy_location(ast.Call(ast.Name("__spa_star__", ast.Load()), [node.value], []), node.value)
        return node

    def _wrap(self, node):
        self.generic_visit(node)
        g0 = node.generators[0]
        if g0.is_async:
            return node
        it = g0.iter
        g0.iter = ast.Name("__spa_it", ast.Load())
        lam = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg("__spa_it")], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=node,
        )
        kind = {ast.ListComp: "list", ast.GeneratorExp: "gen", ast.SetComp: "set", ast.DictComp: "dict"}[type(node)]
        call = ast.Call(ast.Name("__spa_comp__", ast.Load()), [ast.Constant(kind), it, lam, ast.Constant(len(node.generators) + len(g0.ifs))], [])
        return ast.copy_location(call, node)

    visit_ListComp = _wrap
    visit_GeneratorExp = _wrap
    visit_SetComp = _wrap
    visit_DictComp = _wrap

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Div, ast.Mult, ast.Sub, ast.Add)) and not isinstance(node.left, ast.Constant) and not isinstance(node.right, ast.Constant):
            call = ast.Call(ast.Name("__spa_seq__", ast.Load()), [node.left, node.right], [])
            op = ast.BinOp(ast.Subscript(ast.Name("__spa_p", ast.Load()), ast.Constant(0), ast.Load()), node.op, ast.Subscript(ast.Name("__spa_p", ast.Load()), ast.Constant(1), ast.Load()))
            lam = ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg("__spa_p")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=op,
            )
            return ast.copy_location(ast.Call(lam, [call], []), node)
        return node


def spa_seq(a, b):
    """numpy converts a sequence that meets an array: object arrays would not see the arrays inside it."""
    if type(a) in (list, tuple) and type(b) is np.ndarray and b.dtype == object and has_sym(a):
        return _arr(a), b
    if type(b) in (list, tuple) and type(a) is np.ndarray and a.dtype == object and has_sym(b):
        return a, _arr(b)
    return a, b


def _arr(x):
    return sym.as_sym(x) if any(type(y) in (SymArray, SymList) for y in x) else MODELS["array"](x)


def spa_comp(kind, it, lam, ngen):
    if isinstance(it, loops.SymRange):
        it = it.as_list()
    if type(it) is SymArray and not it.dims[0].is_const():
        a = it
        it = SymList(a.dims[0], lambda p: a[mkint(p)])
    if type(it) is SymList:
        if kind in ("set", "dict"):
            raise Unsupported(f"{kind} comprehension over a symbolic range")
        if ngen != 1:
            raise Unsupported("nested or filtered comprehension over a symbolic range")
        base = it

        def el(p):
            with sym.generic_section():
                r = lam([base.fn(p)])
                return list(r)[0]

        return SymList(base.n, el)
    return lam(concrete_iter(it))


def concrete_iter(it):
    """A generator whose elements are used one by one must not yield from a loop of symbolic length."""
    if not isinstance(it, types.GeneratorType):
        return it

    def guarded():
        depth = len(loops.STACK)
        for x in it:
            if len(loops.STACK) > depth:
                raise Unsupported("a generator of symbolic length")
            yield x

    return guarded()


def spa_star(x):
    return concrete_iter(x)


# ---------------------------------------------------------------- builtins
class _M(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._real)

    def __subclasscheck__(cls, o):
        return issubclass(o, cls._real)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


def _mk_int(*a, **k):
    if a and type(a[0]) is str and sym.text_value(a[0]) is not None:
        a = (sym.text_value(a[0]), *a[1:])
    if a and type(a[0]) is SInt:
        return a[0]
    if a and type(a[0]) is SExpr:
        e = X.simplify(a[0]._expr)
        try:
            return mkint(sym.expr_to_poly(e))
        except Unsupported:
            return _trunc(e)
    if a and type(a[0]) is SymArray:
        return _mk_int(a[0].item())
    if a and type(a[0]) is SBool:
        return 1 if bool(a[0]) else 0
    return int(*a, **k)


def _trunc(e):
    """int() of a rational combination p/c: truncation towards zero."""
    den = 1
    import math

    for c in e.d.values():
        den = den * c[0].denominator // math.gcd(den, c[0].denominator)
    p = sym.expr_to_poly(e.scale((X.Fraction(den), X.F0)))
    if sym.choose(ge(p)):
        return mkint(logic.fdiv(p, P(den)))
    return mkint(-logic.fdiv(-p, P(den)))


def _mk_float(*a):
    if a and type(a[0]) is str and sym.text_value(a[0]) is not None:
        a = (sym.text_value(a[0]), *a[1:])
    if a and type(a[0]) in (SInt, SExpr):
        e = X.E(a[0])
        if X.simplify(e - e.conj()).d:
            raise Unsupported("float() of a value which may be complex")
        return sym.mkscalar(e)
    return float(*a)


def _mk_complex(*a):
    if any(type(x) in (SInt, SExpr) for x in a):
        r = X.E(a[0])
        if len(a) > 1:
            r = r + X.E(a[1]) * X.I
        return sym.mkscalar(r)
    return complex(*a)


def _seq(real):
    def f(*a):
        if a:
            x = a[0]
            if isinstance(x, loops.SymRange):
                return x.as_list()
            if type(x) is SymList:
                return x
            if type(x) is SymArray and not x.dims[0].is_const():
                return SymList(x.dims[0], lambda p: x[mkint(p)])
            a = (concrete_iter(x), *a[1:])
        return real(*a)

    return f


def _guarded(real):
    def f(*a, **k):
        return real(*[concrete_iter(x) for x in a], **k)

    return f


def _cls(name, real, make):
    return _M(name, (real,), {"_real": real, "_make": staticmethod(make)})


ShimInt = _cls("int", int, _mk_int)
ShimFloat = _cls("float", float, _mk_float)
ShimComplex = _cls("complex", complex, _mk_complex)
ShimTuple = _cls("tuple", tuple, _seq(tuple))
ShimList = _cls("list", list, _seq(list))


def s_len(x):
    f = getattr(x, "symlen", None)
    return f() if f is not None else len(x)


def s_range(*a):
    if any(type(x) is SInt for x in a):
        if len(a) == 1:
            return loops.SymRange(0, a[0])
        return loops.SymRange(*a)
    return range(*a)


def s_sum(it, start=0):
    if type(it) is SymList:
        v, p, facts = sym.fresh_range(it.n, "s")
        n = logic.CTX.push(facts)
        try:
            el = it.fn(p)
            a = sym.as_sym(el)
        finally:
            logic.CTX.pop(n)
        r = it.to_array().sum(axis=0)
        return r + start if not (isinstance(start, int) and start == 0) else r
    return sum(concrete_iter(it), start)


def s_minmax(real, which):
    def f(*a, **k):
        a = tuple(list(concrete_iter(x)) if isinstance(x, types.GeneratorType) else x for x in a)
        if k or not has_sym(a):
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(type(x) is SymArray for x in xs):
            raise Unsupported(f"{which} of arrays")
        r = xs[0]
        for x in xs[1:]:
            if (x < r) if which == "min" else (x > r):
                r = x
        return r

    return f


def _tolist(x):
    if isinstance(x, (loops.SymRange, loops.SymNdIndex)):
        return x.as_list()
    if type(x) is SymArray and not x.dims[0].is_const():
        return SymList(x.dims[0], lambda p, x=x: x[mkint(p)])
    return concrete_iter(x)


def s_zip(*its, strict=False):
    xs = [_tolist(x) for x in its]
    if any(type(x) is SymList for x in xs):
        if not all(type(x) is SymList for x in xs):
            raise Unsupported("zip of symbolic and concrete sequences")
        n = xs[0].n
        for x in xs[1:]:
            if x.n != n and not entailed(logic.eq(x.n, n)):
                if not sym.choose(logic.eq(x.n, n)):
                    if strict:
                        raise SymError("zip() arguments have different lengths")
                    raise Unsupported("zip of different symbolic lengths")
        return SymList(n, lambda p: tuple(x.fn(p) for x in xs))
    return zip(*xs, strict=strict)


def s_enumerate(it, start=0):
    x = _tolist(it)
    if type(x) is SymList:
        return SymList(x.n, lambda p: (mkint(p + P(start)), x.fn(p)), x.known)
    return enumerate(x, start)


def s_map(f, *its):
    xs = [_tolist(x) for x in its]
    if any(type(x) is SymList for x in xs):
        z = s_zip(*xs)
        return SymList(z.n, lambda p: f(*z.fn(p)))
    return map(f, *xs)


def s_round(x, *a):
    if type(x) is SInt:
        return x
    if type(x) is SExpr:
        raise Unsupported("round")
    return round(x, *a)


def s_isinstance(o, c):
    return isinstance(o, c)


class BuiltinsDict(dict):
    pass


def make_builtins(np_, sp_):
    d = dict(builtins.__dict__)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and (name == "numpy" or name.startswith("numpy.")):
            real_import(name, globals, locals, fromlist, level)
            if fromlist:
                m = np_
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
            return np_
        if level == 0 and (name == "scipy" or name.startswith("scipy.")):
            real_import(name, globals, locals, fromlist, level)
            if fromlist:
                m = sp_
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
            return sp_
        if level == 0 and name.split(".")[0] == "math":
            return MATH
        if level == 0 and name.split(".")[0] in ("matplotlib", "qutip", "hamiltonian_generator") :
            return _Dummy(name)
        if level == 0 and name == "itertools":
            return ITER
        return real_import(name, globals, locals, fromlist, level)

    d.update(
        __import__=imp,
        len=s_len,
        range=s_range,
        sum=s_sum,
        min=s_minmax(min, "min"),
        max=s_minmax(max, "max"),
        zip=s_zip,
        enumerate=s_enumerate,
        map=s_map,
        round=s_round,
        int=ShimInt,
        float=ShimFloat,
        complex=ShimComplex,
        tuple=ShimTuple,
        list=ShimList,
        __spa_comp__=spa_comp,
        __spa_iter__=loops.It,
        __spa_leave__=loops.leave,
        __spa_star__=spa_star,
        **{k: _guarded(getattr(builtins, k)) for k in ("sorted", "any", "all", "next", "iter")},
        __spa_seq__=spa_seq,
    )
    return d


class _Dummy(types.ModuleType):
    """Stand-in for plotting / external simulation packages: never called symbolically."""

    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Dummy(self.__name__ + "." + k)

    def __call__(self, *_a, **_k):
        raise Unsupported(f"call into {self.__name__}")

    def __mro_entries__(self, bases):
        return (object,)

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__


class _Math(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, k):
        import math

        if k == "pi":
            return SExpr(X.Expr.atom(X.PI))
        real = getattr(math, k)
        if not callable(real):
            return real

        def f(*a):
            if not has_sym(a):
                return real(*a)
            if k in ("sqrt", "exp", "cos", "sin"):
                return MODELS[k](*a)
            if k == "floor":
                return mkint(logic.fdiv(sym.expr_to_poly(X.E(a[0])), P(1)))
            if k == "prod":
                return MODELS["prod"](list(a[0]))
            raise Unsupported(f"math.{k}")

        return f


class _Iter(types.ModuleType):
    def __init__(self):
        super().__init__("itertools")

    def __getattr__(self, k):
        import itertools

        real = getattr(itertools, k)
        if k == "starmap":
            def starmap(f, it):
                it = _tolist(it)
                if type(it) is SymList:
                    return SymList(it.n, lambda p: f(*it.fn(p)))
                return real(f, it)

            return starmap
        if k in ("product",):
            def product(*its, **kw):
                if any(type(_tolist(x)) is SymList for x in its):
                    raise Unsupported("product over symbolic sequences")
                return real(*its, **kw)

            return product
        return real


MATH = _Math()
ITER = _Iter()


# ---------------------------------------------------------------- import hook
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, repo, bi):
        self.repo, self.bi = repo, bi
        self.sources = {}

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.replace(".", "/")
        p = os.path.join(self.repo, rel)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            spec = importlib.util.spec_from_loader(name, self, origin=f, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        if os.path.exists(p + ".py"):
            return importlib.util.spec_from_loader(name, self, origin=p + ".py")
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        module.__file__ = f
        src = open(f).read() if os.path.exists(f) else ""
        self.sources[module.__name__] = f
        tree = ast.parse(src, f)
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        code = compile(tree, f, "exec")
        module.__dict__["__builtins__"] = self.bi
        exec(code, module.__dict__)


FINDER = None


def install(repo=None):
    global FINDER
    if FINDER is not None:
        return FINDER
    FINDER = Finder(repo or REPO, make_builtins(numpy_shim(), scipy_shim()))
    sys.meta_path.insert(0, FINDER)
    return FINDER


_DISPATCH: dict = {}


def patch(qual, dispatcher_factory):
    """Replace function `module:name` by a dispatcher wherever the package binds it."""
    modname, attr = qual.split(":")
    full = f"{PKG}.{modname}"
    mod = importlib.import_module(full)
    if "." in attr:
        cname, meth = attr.split(".")
        cls = getattr(mod, cname)
        orig = cls.__dict__[meth]
        setattr(cls, meth, dispatcher_factory(orig))
        return orig
    orig = getattr(mod, attr)
    disp = dispatcher_factory(orig)
    _DISPATCH[qual] = (orig, disp)
    for name, m in list(sys.modules.items()):
        if (name == PKG or name.startswith(PKG + ".")) and m is not None:
            for k, v in list(m.__dict__.items()):
                if v is orig:
                    m.__dict__[k] = disp
    return orig


def import_all():
    """Import every non-plotting module so that identity patching is complete."""
    root = os.path.join(FINDER.repo, PKG)
    out = []
    for d, _sub, files in os.walk(root):
        for f in files:
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), FINDER.repo)[:-3].replace("/", ".")
                rel = rel.removesuffix(".__init__")
                if "plot" in rel or rel.endswith("_variance_test"):
                    continue
                out.append(rel)
    bad = []
    for m in sorted(out):
        try:
            importlib.import_module(m)
        except Exception as e:  # noqa: BLE001
            bad.append((m, repr(e)))
    return bad
