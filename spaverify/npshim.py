"""Models of the numpy / scipy functions used by the code under contract.

Every model is an *assumed contract on a dependency*; `selftest.py` compares each
of them with the real function on random concrete arrays on every run.
When no argument is symbolic the real function is called.
"""
from __future__ import annotations

import builtins
import collections
import types
from fractions import Fraction

import numpy as np

from . import expr as X
from . import logic, sym
from .expr import E, Expr, F0, F1, ite
from .logic import SymError, Unsupported, decide, entailed, eq, fdiv, fmod, ge, le, lt, neg
from .poly import ONE, ZERO, P, Poly
from .sym import (
    SBool,
    SExpr,
    SInt,
    SymArray,
    SymList,
    absval,
    adv_index,
    as_sym,
    assign,
    asum,
    bcast_groups,
    cases_map,
    choose,
    common_refine,
    cos,
    dims_equal,
    dtkind,
    emod,
    efloordiv,
    ew1,
    ew2,
    ewn,
    expr_to_poly,
    extremum,
    fresh_range,
    gprod,
    gsize,
    has_sym,
    imagpart,
    int_cases,
    isintlike,
    join,
    lower,
    matmul,
    mkint,
    mkscalar,
    norm_axis,
    realpart,
    reshape,
    sin,
    sl,
    split_index,
    sum_slots,
    _proj,
    _RANK,
)

MODELS: dict = {}
USED: set = set()


def model(name):
    def deco(f):
        MODELS[name] = f
        return f

    return deco


def fin(a):
    """Result of a numpy function: constant small arrays become object arrays."""
    if type(a) is SymArray:
        if not a.groups:
            return lower(a)
        n = 1
        for d in a.dims:
            if not d.is_const():
                return a
            n *= d.cval()
        if n <= 64:
            return lower(a)
    return a


def maxdt(*arrs):
    return max((a.dt for a in arrs), key=lambda d: _RANK[d])


def wrapaxes(axis, n):
    if axis is None:
        return list(range(n))
    if isinstance(axis, (tuple, list, np.ndarray)) and type(axis) is not SymArray:
        return [norm_axis(a, n) for a in axis]
    return [norm_axis(axis, n)]


# ---------------------------------------------------------------- creation
def _shape(shape):
    if isintlike(shape) or type(shape) is SExpr or isinstance(shape, float):
        shape = (shape,)
    if type(shape) is SymArray:
        shape = lower(shape)
    out = []
    for s in shape:
        if isinstance(s, (float, np.floating)):
            raise SymError("'float' object cannot be interpreted as an integer")
        out.append(P(s) if not type(s) is SExpr else expr_to_poly(s._expr))
    for s in out:
        if decide(ge(s)) is False or (not entailed(ge(s)) and not choose(ge(s))):
            raise SymError(f"negative dimensions are not allowed: {s!r}")
    return out


def _const_array(shape, e, dt):
    e = E(e)
    return SymArray([(s,) for s in _shape(shape)], lambda idx: e, dt, c=True)


@model("zeros")
def zeros(shape, dtype=float, **_k):
    return _const_array(shape, 0, dtkind(dtype))


@model("ones")
def ones(shape, dtype=float, **_k):
    return _const_array(shape, 1, dtkind(dtype))


@model("full")
def full(shape, v, dtype=None, **_k):
    a = as_sym(v)
    if a.ndim:
        raise Unsupported("full with an array")
    return _const_array(shape, a.get(()), dtkind(dtype) if dtype is not None else a.dt)


_un = [0]


@model("empty")
def empty(shape, dtype=float, **_k):
    _un[0] += 1
    name = f"uninit!{_un[0]}"
    dt = dtkind(dtype)
    if dt != "c":
        X.REAL.add(name)
    return SymArray([(s,) for s in _shape(shape)], lambda idx: Expr.app(name, idx), dt, c=True)


@model("zeros_like")
def zeros_like(a, dtype=None, **_k):
    a = as_sym(a)
    z = Expr({})
    return SymArray(a.groups, lambda idx: z, dtkind(dtype) if dtype is not None else a.dt, c=a.corder)


@model("ones_like")
def ones_like(a, dtype=None, **_k):
    a = as_sym(a)
    z = E(1)
    return SymArray(a.groups, lambda idx: z, dtkind(dtype) if dtype is not None else a.dt, c=a.corder)


@model("empty_like")
def empty_like(a, dtype=None, **_k):
    a = as_sym(a)
    return empty(a.shape, dtype if dtype is not None else a.dt)


@model("eye")
def eye(n, m=None, k=0, dtype=float, **_k):
    m = n if m is None else m
    k = P(k)
    one = E(1)
    return SymArray([(P(n),), (P(m),)], lambda i: one.guarded(eq(i[0] + k, i[1])), dtkind(dtype))


@model("identity")
def identity(n, dtype=float, **_k):
    return eye(n, dtype=dtype)


@model("arange")
def arange(*a, dtype=None, **_k):
    start, step = 0, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    if builtins.all(isintlike(x) for x in (start, stop, step)):
        st, sp = P(start), P(step)
        if sp == ONE:
            n = P(stop) - st
        else:
            if entailed(ge(sp - 1)) or (not entailed(ge(-sp - 1)) and choose(ge(sp - 1))):
                n = fdiv(P(stop) - st + sp - 1, sp)
            elif entailed(ge(-sp - 1)) or choose(ge(-sp - 1)):
                n = fdiv(st - P(stop) - sp - 1, -sp)
            else:
                raise ZeroDivisionError("Maximum allowed size exceeded")
        if not entailed(ge(n)) and not choose(ge(n)):
            n = ZERO
        dt = "i" if dtype is None else dtkind(dtype)
        return SymArray([(n,)], lambda i: E(st + sp * i[0]), dt)
    raise Unsupported("arange over reals")


@model("linspace")
def linspace(a, b, num=50, endpoint=True, **_k):
    a, b = E(a), E(b)
    n = P(num)
    if endpoint:
        if not entailed(ge(n - 2)):
            if choose(eq(n, 1)):
                return SymArray([(ONE,)], lambda i: a, "f")
        d = E(n - 1)
    else:
        d = E(n)
    return SymArray([(n,)], lambda i: a + (b - a) * E(i[0]) / d, "f")


def _pyobj(v):
    return type(v) is np.ndarray and v.dtype == object and builtins.any(not isinstance(e, (int, float, complex, np.generic)) and type(e) not in (SInt, SExpr, SBool) for e in v.ravel())


def stack_list(x, axis=0):
    if builtins.any(_pyobj(v) for v in x):
        return np.stack(list(x))
    els = [as_sym(v) for v in x]
    if not els:
        return np.array([])
    groups, views = bcast_exact(els)
    gs = [v.snapshot() for v in views]
    n = len(els)
    dt = maxdt(*els)

    def fn(idx):
        k = idx[0]
        if k.is_const():
            return gs[k.cval()](tuple(idx[1:]))
        r = Expr({})
        for j, g in enumerate(gs):
            m = logic.CTX.push([eq(k, j)])
            try:
                v = g(tuple(idx[1:]))
            finally:
                logic.CTX.pop(m)
            r = r + v.guarded(eq(k, j))
        return r

    return SymArray([(Poly.const(n),), *groups], fn, dt)


def bcast_exact(arrs):
    nd = {a.ndim for a in arrs}
    if len(nd) != 1:
        raise SymError("setting an array element with a sequence: inhomogeneous shape")
    (nd,) = nd
    views = list(arrs)
    groups = []
    for k in range(nd):
        ref = gprod(views[0].groups[k])
        g = None
        for v in views:
            d = gprod(v.groups[k])
            if not dims_equal(d, ref) and not choose(eq(d, ref)):
                raise SymError(f"inhomogeneous shape: {d!r} vs {ref!r}")
            gg = v.groups[k]
            if g is None:
                g = gg
            elif g != gg:
                c = common_refine(g, gg)
                g = c if c else (ref,)
        groups.append(g)
    for i, v in enumerate(views):
        for k in range(nd):
            if v.groups[k] != groups[k]:
                v = v.split(k, groups[k])
        views[i] = v
    return groups, views


@model("array")
def array(x, dtype=None, copy=True, **_k):
    if type(x) is SymArray:
        r = x.copy(order=_k.get("order", "K"))
    elif type(x) is SymList:
        r = x.to_array()
    elif type(x) is np.ndarray:
        r = x.copy()
        if dtype is not None and sym.dtkind(dtype) == "c" or r.dtype == object:
            return r
    elif type(x) in (list, tuple):
        if builtins.any(type(y) in (SymArray, SymList, list, tuple) or (type(y) is np.ndarray and y.ndim) for y in x):
            r = stack_list(x)
            if type(r) is np.ndarray and r.dtype == object:
                return r
            r = fin(r)
        else:
            r = np.empty(len(x), dtype=object)
            for i, v in enumerate(x):
                r[i] = v
            return r
    else:
        if type(x) in (SInt, SExpr, SBool):
            r = as_sym(x)
        else:
            return np.array(x)
    if dtype is not None and type(r) is SymArray:
        k = dtkind(dtype)
        if k != r.dt:
            return r.astype(k)
    return r


@model("asarray")
def asarray(x, dtype=None, **_k):
    if type(x) is SymArray:
        return x if dtype is None or dtkind(dtype) == x.dt else x.astype(dtype)
    if type(x) is np.ndarray:
        return x
    return array(x, dtype)


MODELS["asanyarray"] = asarray


# ---- files: the bytes of a symbolic array are the index of its content
SAVED: list = []
_MAGIC = b"SYMBOLIC-ARRAY "


@model("save")
def save(file, arr, allow_pickle=True, **_k):
    a = asarray(arr)
    if type(a) is not SymArray:
        return np.save(file, a, allow_pickle=allow_pickle)
    SAVED.append((list(a.groups), a.snapshot(), a.dt))
    data = _MAGIC + str(len(SAVED) - 1).encode()
    if hasattr(file, "write"):
        file.write(data)
        return None
    name = str(file)
    with open(name if name.endswith(".npy") else name + ".npy", "wb") as f:
        f.write(data)
    return None


@model("load")
def load(file, mmap_mode=None, allow_pickle=False, **_k):
    if hasattr(file, "read"):
        head = file.read(len(_MAGIC))
        if head != _MAGIC:
            file.seek(-len(head), 1)
            return np.load(file, mmap_mode, allow_pickle=allow_pickle)
        data = file.read()
    else:
        with open(file, "rb") as f:
            data = f.read()
        if not data.startswith(_MAGIC):
            return np.load(file, mmap_mode, allow_pickle=allow_pickle)
        data = data[len(_MAGIC):]
    groups, fn, dt = SAVED[int(data)]
    return SymArray(list(groups), fn, dt, c=True)


@model("copy")
def copy(x):
    return array(x)


@model("fromiter")
def fromiter(it, dtype=None, **_k):
    return array(list(it), dtype)


# ---------------------------------------------------------------- elementwise
def _dt_f(a):
    return "c" if a.dt == "c" else "f"


def unary(name, f, dt=_dt_f):
    def g(x, *a, **k):
        if a or k.get("out") is not None:
            raise Unsupported(f"{name} with out")
        s = as_sym(x)
        r = ew1(s, f, dt(s) if callable(dt) else dt)
        return fin(r)

    MODELS[name] = g
    return g


unary("abs", absval, lambda a: "f" if a.dt in "cf" else "i")
MODELS["absolute"] = MODELS["abs"]
unary("conj", lambda e: e.conj(), lambda a: a.dt)
MODELS["conjugate"] = MODELS["conj"]
unary("real", realpart, lambda a: "f" if a.dt == "c" else a.dt)
unary("imag", imagpart, lambda a: "f" if a.dt == "c" else a.dt)
unary("exp", X.exp)
unary("sqrt", X.sqrt)
unary("cos", cos)
unary("sin", sin)
unary("square", X.square, lambda a: a.dt)
unary("negative", lambda e: -e, lambda a: a.dt)
unary("log", X.log)
unary("angle", X.angle, "f")
unary("lib.scimath.sqrt", X.sqrt)


def binary(name, f, kind=None):
    def g(a, b, **k):
        if k:
            raise Unsupported(f"{name} with {list(k)}")
        return fin(ew2(a, b, f, kind))

    MODELS[name] = g
    return g


binary("add", lambda a, b: a + b)
binary("subtract", lambda a, b: a - b)
binary("multiply", lambda a, b: a * b)
binary("divide", lambda a, b: a / b, "/")
MODELS["true_divide"] = MODELS["divide"]
binary("mod", emod)
binary("remainder", emod)
binary("floor_divide", efloordiv)
binary("logical_and", lambda a, b: a * b, "b")
binary("power", lambda a, b: E(a) ** expr_to_poly(E(b)).cval())


@model("where")
def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where with one argument")
    return fin(ewn([c, a, b], lambda q, x, y: q * x + (E(1) - q) * y, maxdt(as_sym(a), as_sym(b))))


@model("isreal")
def isreal(a):
    raise Unsupported("isreal")


# ---------------------------------------------------------------- reductions
@model("sum")
def sum_(a, axis=None, dtype=None, keepdims=False, **_k):
    if type(a) not in (SymArray, np.ndarray, list, tuple, SymList) and hasattr(a, "__next__"):
        raise Unsupported("np.sum of a generator")
    return fin(asum(as_sym(a), axis, keepdims=keepdims))


@model("prod")
def prod(a, axis=None, dtype=None, **_k):
    a = as_sym(a)
    axes = wrapaxes(axis, a.ndim)
    if axis is None and not builtins.all(d.is_const() for d in a.dims):
        raise Unsupported("product over a symbolic dimension")
    og = a.groups
    ng = [og[k] for k in range(a.ndim) if k not in axes]
    for k in axes:
        if not gprod(og[k]).is_const():
            raise Unsupported("product over a symbolic dimension")
    g = a.snapshot()
    ranges = [range(gprod(og[k]).cval()) for k in axes]
    import itertools

    def fn(idx):
        parts = sl(ng, idx)
        r = E(1)
        for combo in itertools.product(*ranges):
            full = []
            it = iter(parts)
            for k in range(len(og)):
                if k in axes:
                    full += list(split_index(og[k], Poly.const(combo[axes.index(k)])))
                else:
                    full += list(next(it))
            r = r * g(tuple(full))
        return r

    return fin(SymArray(ng, fn, a.dt))


@model("average")
def average(a, axis=None, weights=None, **_k):
    a = as_sym(a)
    if weights is None:
        n = ONE
        for k in wrapaxes(axis, a.ndim):
            n = n * gprod(a.groups[k])
        s = asum(a, axis)
        return fin(s / mkint(n)) if type(s) is SymArray else s / mkint(n)
    w = as_sym(weights)
    if w.ndim != a.ndim:
        if isinstance(axis, (tuple, list)):
            raise SymError("TypeError: tuple indices must be integers or slices, not tuple")
        ax = wrapaxes(axis, a.ndim)
        if w.ndim != 1 or len(ax) != 1:
            raise SymError("1D weights expected when shapes of a and weights differ.")
        dw, da = gprod(w.groups[0]), gprod(a.groups[ax[0]])
        if not dims_equal(dw, da) and not choose(eq(dw, da)):
            raise SymError("Length of weights not compatible with specified axis.")
        shape = [1] * a.ndim
        shape[ax[0]] = w.shape[0]
        wv = w.reshape(*shape)
        s = asum(as_sym(ew2(a, wv, lambda p, q: p * q)), axis)
        t = asum(w, None)
        return fin(ew2(s, t, lambda p, q: p / q, "/"))
    for x, y in zip(w.dims, a.dims):
        if not dims_equal(x, y) and not choose(eq(x, y)):
            raise SymError("Length of weights not compatible")
    s = asum(as_sym(ew2(a, w, lambda p, q: p * q)), axis)
    t = asum(w, axis)
    return fin(ew2(s, t, lambda p, q: p / q, "/"))


@model("mean")
def mean(a, axis=None, **_k):
    return average(a, axis)


@model("cumsum")
def cumsum(a, axis=None, **_k):
    a = as_sym(a)
    if axis is None and a.ndim > 1:
        a = a.reshape(-1)
    ax = norm_axis(axis or 0, a.ndim)
    a = a.coarse(ax)
    pos = builtins.sum(len(g) for g in a.groups[:ax])
    g = a.snapshot()

    def fn(idx):
        i = idx[pos]
        v, p, facts = fresh_range(i + 1, "s")
        n = logic.CTX.push([*facts])
        try:
            e = g((*idx[:pos], p, *idx[pos + 1:]))
        finally:
            logic.CTX.pop(n)
        return e.sum_over(v, i + 1)

    return fin(SymArray(a.groups, fn, a.dt))


def _ext(which):
    def f(a, axis=None, **_k):
        return extremum(a, which, axis)

    return f


MODELS["min"] = MODELS["amin"] = _ext("min")
MODELS["max"] = MODELS["amax"] = _ext("max")


def _argext(which):
    def f(a, axis=None, **k):
        a = as_sym(a)
        if k or (axis is not None and not (a.ndim == 1 and axis in (0, -1))):
            raise Unsupported(f"arg{which} along an axis")
        return sym.argextremum(a, which)

    return f


MODELS["argmin"] = _argext("min")
MODELS["argmax"] = _argext("max")


def np_argsort(a, axis=-1, **k):
    if k or axis not in (0, -1):
        raise Unsupported("argsort with options")
    return sym.argsort(a)


MODELS["argsort"] = np_argsort


@model("dot")
def dot(a, b):
    a, b = as_sym(a), as_sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return fin(as_sym(a * b if a.ndim or b.ndim else mkscalar(a.get(()) * b.get(()))))
    la = "abcdefg"[: a.ndim]
    lb = "hijklmn"[: b.ndim]
    k = 0 if b.ndim == 1 else b.ndim - 2
    lb = lb[:k] + la[-1] + lb[k + 1:]
    out = la[:-1] + lb.replace(la[-1], "")
    return einsum(f"{la},{lb}->{out}", a, b)


MODELS["matmul"] = lambda a, b: fin(matmul(a, b))


@model("vdot")
def vdot(a, b):
    a, b = as_sym(a).reshape(-1), as_sym(b).reshape(-1)
    return einsum("i,i->", a.conj(), b)


@model("outer")
def outer(a, b):
    return einsum("i,j->ij", as_sym(a).reshape(-1), as_sym(b).reshape(-1))


@model("kron")
def kron(a, b):
    a, b = as_sym(a), as_sym(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("kron")
    r = einsum("ij,kl->ikjl", a, b)
    r = as_sym(r)
    return fin(r.reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))


@model("cross")
def cross(a, b, **_k):
    a, b = lower(as_sym(a)), lower(as_sym(b))
    if a.shape != (3,):
        raise Unsupported("cross")
    return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)


def parse_einsum(sub, ops):
    sub = sub.replace(" ", "")
    if "->" in sub:
        lhs, out = sub.split("->")
    else:
        lhs = sub
        labels = [c for c in lhs if c.isalpha()]
        out = "".join(sorted(c for c in set(labels) if labels.count(c) == 1))
        if "..." in lhs:
            out = "..." + out
    ins = lhs.split(",")
    if len(ins) != len(ops):
        raise SymError("einsum: wrong number of operands")
    el = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            el = builtins.max(el, o.ndim - len(s.replace("...", "")))
    ext = "".join(chr(0x3B1 + i) for i in range(el))
    res = []
    for s, o in zip(ins, ops):
        if "..." in s:
            k = o.ndim - len(s.replace("...", ""))
            s = s.replace("...", ext[el - k:])
        if len(s) != o.ndim:
            raise SymError(f"einsum: operand has {o.ndim} dimensions but subscripts {s!r}")
        res.append(s)
    return res, out.replace("...", ext)


@model("einsum")
def einsum(sub, *ops, **kw):
    kw.pop("optimize", None)
    if kw:
        raise Unsupported("einsum options")
    ops = [as_sym(o) for o in ops]
    ins, out = parse_einsum(sub, ops)
    lab: dict = {}
    one: dict = {}
    for s, o in zip(ins, ops):
        for k, c in enumerate(s):
            g = o.groups[k]
            d = gprod(g)
            if c not in lab:
                lab[c] = g
                continue
            ref = gprod(lab[c])
            if not dims_equal(d, ref):
                if d == ONE:
                    continue
                if ref == ONE:
                    lab[c] = g
                    continue
                if not choose(eq(d, ref)):
                    raise SymError(f"einsum: dimension mismatch for label {c}: {d!r} vs {ref!r}")
            if lab[c] != g:
                cr = common_refine(lab[c], g)
                lab[c] = cr if cr else (ref,)
    views = []
    for s, o in zip(ins, ops):
        v = o
        for k, c in enumerate(s):
            if gprod(v.groups[k]) == ONE and gprod(lab[c]) != ONE:
                if len(v.groups[k]) != 1:
                    v = v.coarse(k)
                continue
            if v.groups[k] != lab[c]:
                v = v.split(k, lab[c])
        views.append(v)
    gs = [v.snapshot() for v in views]
    ng = [lab[c] for c in out]
    if len(set(out)) != len(out):
        raise SymError("einsum: repeated output label")
    summed = []
    for s in ins:
        for c in s:
            if c not in out and c not in summed:
                summed.append(c)
    order = list(out) + summed
    offs = {}
    p = 0
    for c in order:
        offs[c] = p
        p += len(lab[c])
    total = p
    nout = builtins.sum(len(lab[c]) for c in out)
    specs = []
    for s, v in zip(ins, views):
        sp = []
        for k, c in enumerate(s):
            if gprod(v.groups[k]) == ONE and gprod(lab[c]) != ONE:
                sp.append(None)
            else:
                sp.append((offs[c], len(lab[c])))
        specs.append(sp)

    def body(full):
        r = E(1)
        for g, sp in zip(gs, specs):
            idx = []
            for q in sp:
                if q is None:
                    idx.append(ZERO)
                else:
                    idx += full[q[0]:q[0] + q[1]]
            r = r * g(tuple(idx))
            if not r.d:
                return r
        return r

    todo = [(offs[c] + i, s) for c in summed for i, s in enumerate(lab[c])]

    def fn(idx):
        return sum_slots(body, list(idx) + [None] * (total - nout), todo)

    return fin(SymArray(ng, fn, maxdt(*ops)))


@model("tensordot")
def tensordot(a, b, axes=2):
    a, b = as_sym(a), as_sym(b)
    if isinstance(axes, int) and not type(axes) is SInt:
        aa = list(range(a.ndim - axes, a.ndim))
        bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, (int, np.integer)) else list(aa)
        bb = [bb] if isinstance(bb, (int, np.integer)) else list(bb)
    aa = [norm_axis(x, a.ndim) for x in aa]
    bb = [norm_axis(x, b.ndim) for x in bb]
    if len(aa) != len(bb):
        raise SymError("shape-mismatch for sum")
    letters = [chr(97 + i) for i in range(26)]
    la = letters[: a.ndim]
    lb = letters[a.ndim: a.ndim + b.ndim]
    for x, y in zip(aa, bb):
        da, db = gprod(a.groups[x]), gprod(b.groups[y])
        if not dims_equal(da, db) and not choose(eq(da, db)):
            raise SymError("shape-mismatch for sum")
        lb[y] = la[x]
    out = [c for k, c in enumerate(la) if k not in aa] + [c for k, c in enumerate(lb) if k not in bb]
    r = einsum("".join(la) + "," + "".join(lb) + "->" + "".join(out), a, b)
    if type(r) is SymArray:
        r.corder = True
    return r


# ---------------------------------------------------------------- shape manipulation
@model("reshape")
def np_reshape(a, shape, **_k):
    return as_sym(a).reshape(shape)


@model("ravel")
def ravel(a):
    return as_sym(a).reshape(-1)


@model("transpose")
def transpose(a, axes=None):
    if type(a) is np.ndarray:
        return a.transpose(axes) if axes is not None else a.transpose()
    a = as_sym(a)
    return a.transpose(axes) if axes is not None else a.transpose()


@model("swapaxes")
def swapaxes(a, i, j):
    if type(a) is np.ndarray:
        return a.swapaxes(i, j)
    return as_sym(a).swapaxes(i, j)


@model("moveaxis")
def moveaxis(a, s, d):
    if type(a) is np.ndarray:
        return np.moveaxis(a, s, d)
    a = as_sym(a)
    ss = wrapaxes(s, a.ndim)
    dd = wrapaxes(d, a.ndim)
    order = [k for k in range(a.ndim) if k not in ss]
    for dst, src in sorted(zip(dd, ss)):
        order.insert(dst, src)
    return a.transpose(*order)


@model("expand_dims")
def expand_dims(a, axis):
    a = as_sym(a)
    k = norm_axis(axis, a.ndim + 1)
    return a[(*([slice(None)] * k), None)]


@model("squeeze")
def squeeze(a, axis=None):
    a = as_sym(a)
    idx = tuple(0 if (gprod(g) == ONE and (axis is None or k in wrapaxes(axis, a.ndim))) else slice(None) for k, g in enumerate(a.groups))
    return a[idx]


@model("atleast_1d")
def atleast_1d(a):
    a = as_sym(a)
    return a if a.ndim else a.reshape(1)


@model("atleast_2d")
def atleast_2d(a):
    a = as_sym(a)
    if a.ndim == 0:
        return a.reshape(1, 1)
    return a[None, :] if a.ndim == 1 else a


@model("broadcast_to")
def broadcast_to(a, shape):
    a = as_sym(a)
    z = zeros(shape, a.dt)
    one = ew2(a, z, lambda p, q: p)
    if as_sym(one).ndim != z.ndim:
        raise SymError("broadcast_to")
    return one


@model("shape")
def shape(a):
    return as_sym(a).shape


@model("size")
def size(a):
    return as_sym(a).size


@model("ndim")
def ndim(a):
    return as_sym(a).ndim


@model("roll")
def roll(a, shift, axis=None):
    a = as_sym(a)
    if axis is None:
        if a.ndim == 1:
            return roll(a, shift, 0)
        return roll(a.reshape(-1), shift, 0).reshape(*a.shape)
    axes = wrapaxes(axis, a.ndim)
    if isinstance(shift, (tuple, list)) or (isinstance(shift, np.ndarray) and type(shift) in (np.ndarray, SymArray) and shift.ndim):
        sh = list(lower(shift) if type(shift) is SymArray else shift)
    else:
        sh = [shift] * len(axes)
    if len(sh) == 1 and len(axes) > 1:
        sh = sh * len(axes)
    if len(axes) == 1 and len(sh) > 1:
        axes = axes * len(sh)
    if len(sh) != len(axes):
        raise SymError("roll: shift and axis mismatch")
    tot: dict = {}
    for s, ax in zip(sh, axes):
        s = P(s) if isintlike(s) else expr_to_poly(E(s))
        tot[ax] = tot.get(ax, ZERO) + s
    v = a
    for ax in tot:
        if len(v.groups[ax]) != 1:
            v = v.coarse(ax)
    g = v.snapshot()
    offs = []
    p = 0
    for k, gr in enumerate(v.groups):
        offs.append(p)
        p += len(gr)
    dims = v.dims

    def fn(idx):
        idx = list(idx)
        for ax, s in tot.items():
            idx[offs[ax]] = fmod(idx[offs[ax]] - s, dims[ax])
        return g(tuple(idx))

    return SymArray(v.groups, fn, a.dt)


@model("flip")
def flip(a, axis=None):
    a = as_sym(a)
    axes = wrapaxes(axis, a.ndim)
    return a[tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(a.ndim))].copy()


@model("concatenate")
def concatenate(arrs, axis=0, **_k):
    arrs = [as_sym(x) for x in (arrs if type(arrs) in (list, tuple) else list(arrs))]
    nd = {a.ndim for a in arrs}
    if len(nd) != 1:
        raise SymError("concatenate: different number of dimensions")
    n = nd.pop()
    ax = norm_axis(axis, n)
    vs = [a.coarse(ax) for a in arrs]
    # match the other dims
    refs = list(vs[0].groups)
    for k in range(n):
        if k == ax:
            continue
        for j in range(1, len(vs)):
            if not dims_equal(gprod(vs[j].groups[k]), gprod(refs[k])) and not choose(eq(gprod(vs[j].groups[k]), gprod(refs[k]))):
                raise SymError("concatenate: dimension mismatch")
            if vs[j].groups[k] != refs[k]:
                vs[j] = vs[j].split(k, refs[k])
    lens = [gprod(v.groups[ax]) for v in vs]
    tot = ZERO
    starts = []
    for s in lens:
        starts.append(tot)
        tot = tot + s
    gs = [v.snapshot() for v in vs]
    pos = builtins.sum(len(g) for g in refs[:ax])
    ng = [*refs[:ax], (tot,), *refs[ax + 1:]]

    def fn(idx):
        i = idx[pos]
        r = Expr({})
        for st, s, g in zip(starts, lens, gs):
            l1, l2 = ge(i - st), lt(i, st + s)
            if decide(l1) is False or decide(l2) is False:
                continue
            m = logic.CTX.push([l1, l2])
            try:
                v = g((*idx[:pos], i - st, *idx[pos + 1:]))
            finally:
                logic.CTX.pop(m)
            for l in (l1, l2):
                if not entailed(l):
                    v = v.guarded(l)
            r = r + v
        return r

    return fin(SymArray(ng, fn, maxdt(*arrs)))


@model("append")
def append(a, b, axis=None):
    a, b = as_sym(a), as_sym(b)
    if axis is None:
        a, b = a.reshape(-1), b.reshape(-1)
        axis = 0
    return concatenate([a, b], axis)


@model("insert")
def insert(a, k, v, axis=None):
    a = as_sym(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    if a.ndim != 1 or not isintlike(k):
        raise Unsupported("insert")
    return concatenate([a[:k], as_sym(v).reshape(-1), a[k:]])


@model("stack")
def stack(arrs, axis=0):
    r = stack_list(list(arrs))
    return fin(moveaxis(r, 0, axis)) if axis else fin(r)


@model("pad")
def pad(a, width, mode="constant", constant_values=0, **_k):
    a = as_sym(a)
    if mode != "constant":
        raise Unsupported("pad mode")
    if type(width) is SymArray:
        width = lower(width)
    w = list(width) if isinstance(width, (tuple, list, np.ndarray)) else [width]
    if not any_nested(w):
        w = [tuple(w)] if len(w) == 2 else [(w[0], w[0])]
    w = [tuple(x) for x in w]
    if len(w) == 1:
        w = w * a.ndim
    if len(w) != a.ndim:
        raise SymError("pad widths do not match")
    v = a
    for k in range(a.ndim):
        b, c = P(w[k][0]), P(w[k][1])
        if b == ZERO and c == ZERO:
            continue
        for q in (b, c):
            if not entailed(ge(q)) and not choose(ge(q)):
                raise SymError("index can't contain negative values")
        v = v.coarse(k)
        d = gprod(v.groups[k])
        parts = []
        for q in (b, None, c):
            if q is None:
                parts.append(v)
            elif q != ZERO:
                shp = [mkint(gprod(g)) for g in v.groups]
                shp[k] = mkint(q)
                parts.append(_const_array(shp, constant_values, v.dt))
        v = as_sym(concatenate(parts, k))
    return v


def any_nested(w):
    return builtins.any(isinstance(x, (tuple, list, np.ndarray)) for x in w)


@model("meshgrid")
def meshgrid(*xi, indexing="xy", **_k):
    if indexing != "ij" and len(xi) > 1:
        raise Unsupported("meshgrid xy")
    arrs = [as_sym(x).reshape(-1) for x in xi]
    groups = [a.groups[0] for a in arrs]
    out = []
    pos = 0
    for a in arrs:
        g = a.snapshot()
        k = len(a.groups[0])

        def fn(idx, g=g, pos=pos, k=k):
            return g(tuple(idx[pos:pos + k]))

        out.append(SymArray(groups, fn, a.dt))
        pos += k
    return out


@model("tile")
def tile(a, reps):
    a = as_sym(a)
    if a.ndim == 1 and isintlike(reps):
        r = SymArray([(P(reps),), *a.groups], lambda idx, g=a.snapshot(): g(tuple(idx[1:])), a.dt)
        return fin(r.reshape(-1))
    raise Unsupported("tile")


@model("repeat")
def repeat(a, reps, axis=None):
    a = as_sym(a)
    if a.ndim == 1 and isintlike(reps):
        r = SymArray([*a.groups, (P(reps),)], lambda idx, g=a.snapshot(): g(tuple(idx[:-1])), a.dt)
        return fin(r.reshape(-1))
    raise Unsupported("repeat")


# ---------------------------------------------------------------- index conversion
@model("unravel_index")
def unravel_index(idx, shape, order="C"):
    dims = [P(s) for s in (shape if isinstance(shape, (tuple, list, np.ndarray)) else (shape,))]
    tot = ONE
    for d in dims:
        tot = tot * d
    if isintlike(idx):
        p = P(idx)
        if not (entailed(ge(p)) or choose(ge(p))) or not (entailed(lt(p, tot)) or choose(lt(p, tot))):
            raise SymError(f"index {p!r} is out of bounds for array with size {tot!r}")
        return tuple(mkint(x) for x in split_index(tuple(dims), p))
    a = as_sym(idx)
    from .sym import check_bounds

    g = a.snapshot()
    _check_range(a, ZERO, tot)
    out = []
    for k in range(len(dims)):
        def fn(ix, k=k):
            return cases_map(int_cases(g(ix)), lambda q: E(split_index(tuple(dims), q)[k]))

        out.append(fin(SymArray(a.groups, fn, "i")))
    return tuple(out)


def _check_range(a, lo, hi):
    """Every element of the integer array is in [lo, hi)."""
    idx, facts = [], []
    for gr in a.groups:
        for s in gr:
            if s == ONE:
                idx.append(ZERO)
                continue
            v, p, f = fresh_range(s, "b")
            idx.append(p)
            facts += f
    g = a.snapshot()
    n = logic.CTX.push(facts)
    try:
        for lits, q in int_cases(g(tuple(idx))):
            m = logic.CTX.push(lits)
            try:
                ok = entailed(le(lo, q)) and entailed(lt(q, hi))
            finally:
                logic.CTX.pop(m)
            if not ok:
                raise SymError(f"index {q!r} may be out of bounds for size {hi!r}")
    finally:
        logic.CTX.pop(n)


@model("ravel_multi_index")
def ravel_multi_index(multi, dims, mode="raise", order="C"):
    dims = [P(s) for s in (dims if isinstance(dims, (tuple, list, np.ndarray)) else (dims,))]
    multi = list(multi)
    if len(multi) != len(dims):
        raise SymError("parameter multi_index must be a sequence of length of dims")
    modes = list(mode) if isinstance(mode, (tuple, list)) else [mode] * len(dims)

    def one(p, d, m):
        if m == "wrap":
            return fmod(p, d)
        if m == "clip":
            raise Unsupported("clip")
        return p

    if builtins.all(isintlike(x) for x in multi):
        r = ZERO
        for x, d, m in zip(multi, dims, modes):
            p = P(x)
            if m == "raise" and (not (entailed(ge(p)) or choose(ge(p))) or not (entailed(lt(p, d)) or choose(lt(p, d)))):
                raise SymError("invalid entry in coordinates array")
            r = r * d + one(p, d, m)
        return mkint(r)
    arrs = [as_sym(x) for x in multi]
    for a, d, m in zip(arrs, dims, modes):
        if m == "raise":
            _check_range(a, ZERO, d)

    def f(*es):
        r = E(0)
        for e, d, m in zip(es, dims, modes):
            r = r * E(d) + cases_map(int_cases(e), lambda q: E(one(q, d, m)))
        return r

    return fin(ewn(arrs, f, "i"))


@model("ndindex")
def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    if builtins.all(isinstance(s, int) and type(s) is not SInt for s in shape):
        return np.ndindex(*shape)
    from .loops import SymNdIndex

    return SymNdIndex(shape)


@model("ndenumerate")
def ndenumerate(a):
    if type(a) is np.ndarray:
        return np.ndenumerate(a)
    raise Unsupported("ndenumerate over a symbolic array")


@model("diagonal")
def diagonal(a, offset=0, axis1=0, axis2=1):
    a = as_sym(a)
    if not (isinstance(offset, int) and offset == 0):
        raise Unsupported("diagonal offset")
    letters = "abcdefgh"
    la = list(letters[: a.ndim])
    i, j = norm_axis(axis1, a.ndim), norm_axis(axis2, a.ndim)
    la[j] = la[i]
    out = [c for k, c in enumerate(la) if k not in (i, j)] + [la[i]]
    d1, d2 = gprod(a.groups[i]), gprod(a.groups[j])
    if not dims_equal(d1, d2):
        raise Unsupported("diagonal of a rectangular array")
    return einsum("".join(la) + "->" + "".join(out), a)


@model("trace")
def trace(a, **_k):
    return einsum("ii->", as_sym(a))


@model("diag")
def diag(a, k=0):
    a = as_sym(a)
    if not (isinstance(k, int) and k == 0):
        raise Unsupported("diag offset")
    if a.ndim == 2:
        return diagonal(a)
    if a.ndim != 1:
        raise SymError("Input must be 1- or 2-d.")
    g = a.snapshot()
    gr = a.groups[0]
    n = len(gr)

    def fn(idx):
        e = g(tuple(idx[:n]))
        for i, j in zip(idx[:n], idx[n:]):
            e = e.guarded(eq(i, j))
        return e

    return fin(SymArray([gr, gr], fn, a.dt))


@model("fill_diagonal")
def fill_diagonal(a, val, wrap=False):
    if type(a) is np.ndarray:
        np.fill_diagonal(a, val)
        return
    a = as_sym(a)
    v = E(val)
    if a.ndim != 2:
        raise Unsupported("fill_diagonal")
    v1 = a.coarse(0)
    v2 = v1.coarse(1)
    v2.write(lambda idx: ([eq(idx[0], idx[1])], v))


@model("triu")
def triu(a, k=0):
    a = as_sym(a).coarse(0).coarse(1)
    g = a.snapshot()
    return fin(SymArray(a.groups, lambda i: g(i).guarded(ge(i[1] - i[0] - P(k))), a.dt))


@model("tril")
def tril(a, k=0):
    a = as_sym(a).coarse(0).coarse(1)
    g = a.snapshot()
    return fin(SymArray(a.groups, lambda i: g(i).guarded(ge(i[0] - i[1] + P(k))), a.dt))


@model("take")
def take(a, idx, axis=None, **_k):
    a = as_sym(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    k = norm_axis(axis, a.ndim)
    return fin(a[(*([slice(None)] * k), idx)])


@model("apply_along_axis")
def apply_along_axis(f, axis, a, *args, **kw):
    a = as_sym(a)
    ax = norm_axis(axis, a.ndim)
    moved = moveaxis(a, ax, -1)
    pre = moved.groups[:-1]
    last = moved.groups[-1]
    g = moved.snapshot()
    npre = builtins.sum(len(x) for x in pre)

    def call(pidx):
        return as_sym(f(SymArray([last], lambda i: g((*pidx, *i)), a.dt), *args, **kw))

    # shape of the result from a generic slice
    idx, facts = [], []
    for gr in pre:
        for s in gr:
            v, p, ff = fresh_range(s, "a")
            idx.append(p)
            facts += ff
    n = logic.CTX.push(facts)
    try:
        sample = call(tuple(idx))
        outg = sample.groups
        dt = sample.dt
    finally:
        logic.CTX.pop(n)
    env_atoms = [next(iter(p.atoms())) for p in idx]
    sg = sample.snapshot()

    def fn(ix):
        e = call(tuple(ix[:npre]))
        return e.get(tuple(ix[npre:]))

    r = SymArray([*pre, *outg], fn, dt)
    if len(outg) == 1:
        return moveaxis(r, -1, ax)
    if len(outg) == 0:
        return r
    raise Unsupported("apply_along_axis with a multi-dimensional result")


# ---------------------------------------------------------------- Fourier transforms
def _fft_axis(a, n, ax, sign, scale):
    """sum_j a[j] exp(sign 2 pi i j k/n) * scale(n) along one axis (crop / zero pad to n)."""
    a = a.coarse(ax)
    d = gprod(a.groups[ax])
    N = d if n is None else P(n)
    pos = builtins.sum(len(g) for g in a.groups[:ax])
    g = a.snapshot()
    if dims_equal(N, d):
        m = d
    elif entailed(le(d, N)) or (not entailed(lt(N, d)) and choose(le(d, N))):
        m = d
    else:
        m = N
    if decide(ge(N - 1)) is False or (not entailed(ge(N - 1)) and not choose(ge(N - 1))):
        raise SymError(f"Invalid number of FFT data points ({N!r}) specified.")
    sc = scale(N)
    ng = [*a.groups[:ax], (N,), *a.groups[ax + 1:]]

    def fn(idx):
        k = idx[pos]

        def body(full):
            j = full[pos]
            return g(tuple(full)) * Expr.cis(j * k * sign, N)

        full = list(idx)
        full[pos] = None
        return sum_slots(body, full, [(pos, m)]) * sc

    return SymArray(ng, fn, "c")


def _norm_scale(norm, inverse):
    if norm in (None, "backward"):
        k = Fraction(-1) if inverse else F0
    elif norm == "forward":
        k = F0 if inverse else Fraction(-1)
    elif norm == "ortho":
        k = Fraction(-1, 2)
    else:
        raise SymError(f"Invalid norm value {norm}")
    if k == 0:
        return lambda N: E(1)
    return lambda N: X.sqrt(E(N)).power(2 * k)


def _fft(inverse):
    def f(a, n=None, axis=-1, norm=None, **_k):
        a = as_sym(a)
        return fin(_fft_axis(a, n, norm_axis(axis, a.ndim), 1 if inverse else -1, _norm_scale(norm, inverse)))

    return f


def _fftn(inverse):
    def f(a, s=None, axes=None, norm=None, **_k):
        a = as_sym(a)
        if axes is None:
            axes = list(range(a.ndim)) if s is None else list(range(a.ndim - len(s), a.ndim))
        ax = wrapaxes(lower(axes) if type(axes) is SymArray else axes, a.ndim)
        for i in reversed(range(len(ax))):
            a = _fft_axis(a, None if s is None else s[i], ax[i], 1 if inverse else -1, _norm_scale(norm, inverse))
        return fin(a)

    return f


MODELS["fft.fft"] = _fft(False)
MODELS["fft.ifft"] = _fft(True)
MODELS["fft.fftn"] = _fftn(False)
MODELS["fft.ifftn"] = _fftn(True)
MODELS["fft.fft2"] = lambda a, s=None, axes=(-2, -1), norm=None: _fftn(False)(a, s, axes, norm)
MODELS["fft.ifft2"] = lambda a, s=None, axes=(-2, -1), norm=None: _fftn(True)(a, s, axes, norm)


@model("fft.rfft")
def rfft(a, n=None, axis=-1, norm=None):
    a = as_sym(a)
    ax = norm_axis(axis, a.ndim)
    N = gprod(a.groups[ax]) if n is None else P(n)
    full = _fft_axis(a, n, ax, -1, _norm_scale(norm, False))
    return full[tuple(slice(0, mkint(fdiv(N, Poly.const(2)) + 1)) if k == ax else slice(None) for k in range(a.ndim))]


@model("fft.irfft")
def irfft(a, n=None, axis=-1, norm=None):
    a = as_sym(a)
    ax = norm_axis(axis, a.ndim)
    a = a.coarse(ax)
    m = gprod(a.groups[ax])
    N = (m - 1) * 2 if n is None else P(n)
    # numpy: uses bins 0..n//2 (zero padded / cropped), hermitian extension
    need = fdiv(N, Poly.const(2)) + 1
    pos = builtins.sum(len(g) for g in a.groups[:ax])
    g0 = a.snapshot()

    def bin_(idx):
        k = idx[pos]
        lit = lt(k, m)
        d = decide(lit)
        if d is False:
            return E(0)
        e = g0(idx)
        return e if d else e.guarded(lit)

    def herm(idx):
        k = idx[pos]
        kk = N - k
        lo = lt(k, need)
        pos_part = bin_(tuple(idx))
        # self-conjugate bins contribute their real part only
        selfc = [eq(k, 0), eq(k * 2, N)]
        pos_val = ite(selfc[0], realpart(pos_part), ite(selfc[1], realpart(pos_part), pos_part))
        idx2 = (*idx[:pos], kk, *idx[pos + 1:])
        neg_val = bin_(idx2).conj()
        return ite(lo, pos_val, neg_val)

    h = SymArray([*a.groups[:ax], (N,), *a.groups[ax + 1:]], herm, "c")
    r = _fft_axis(h, None, ax, 1, _norm_scale(norm, True))
    return ew1(r, lambda e: e, "f")


def _some_axes(a, s, axes):
    if axes is None:
        return list(range(a.ndim)) if s is None else list(range(a.ndim - len(s), a.ndim))
    return wrapaxes(lower(axes) if type(axes) is SymArray else axes, a.ndim)


@model("fft.rfftn")
def rfftn(a, s=None, axes=None, norm=None):
    a = as_sym(a)
    ax = _some_axes(a, s, axes)
    out = rfft(a, None if s is None else s[-1], ax[-1], norm)
    return _fftn(False)(out, None if s is None else list(s[:-1]), ax[:-1], norm) if len(ax) > 1 else out


@model("fft.irfftn")
def irfftn(a, s=None, axes=None, norm=None, **_k):
    a = as_sym(a)
    ax = _some_axes(a, s, axes)
    if len(ax) > 1:
        a = _fftn(True)(a, None if s is None else list(s[:-1]), ax[:-1], norm)
    return irfft(a, None if s is None else s[-1], ax[-1], norm)


@model("fft.fftfreq")
def fftfreq(n, d=1.0):
    n = P(n)
    h = fdiv(n - 1, Poly.const(2)) + 1
    den = E(n) * E(d)

    def fn(i):
        return ite(lt(i[0], h), E(i[0]), E(i[0] - n)) / den

    return fin(SymArray([(n,)], fn, "f"))


def _shift_fn(inverse):
    def f(a, axes=None):
        a = as_sym(a)
        ax = wrapaxes(axes, a.ndim)
        sh = []
        for k in ax:
            h = fdiv(gprod(a.groups[k]), Poly.const(2))
            sh.append(mkint(-h if inverse else h))
        return fin(roll(a, tuple(sh), tuple(ax)))

    return f


MODELS["fft.fftshift"] = _shift_fn(False)
MODELS["fft.ifftshift"] = _shift_fn(True)


# ---------------------------------------------------------------- linear algebra
def _mat(a):
    a = lower(as_sym(a))
    if type(a) is SymArray or a.ndim != 2:
        raise Unsupported("linear algebra on a symbolic-size matrix")
    return a


def _det(m):
    n = len(m)
    if n == 0:
        return 1
    if n == 1:
        return m[0][0]
    r = 0
    for j in range(n):
        sub = [row[:j] + row[j + 1:] for row in m[1:]]
        t = m[0][j] * _det(sub)
        r = r + t if j % 2 == 0 else r - t
    return r


@model("linalg.det")
def det(a):
    m = _mat(a)
    if m.shape[0] != m.shape[1]:
        raise SymError("Last 2 dimensions of the array must be square")
    return _det([list(r) for r in m])


@model("linalg.inv")
def inv(a):
    s = as_sym(a)
    if not builtins.all(d.is_const() for d in s.dims):
        return _inv_sym(s)
    m = _mat(a)
    n = m.shape[0]
    if m.shape[0] != m.shape[1]:
        raise SymError("Last 2 dimensions of the array must be square")
    rows = [list(r) for r in m]
    d = _det(rows)
    dz = X.simplify(E(d))
    if not dz.d:
        raise SymError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    rd = E(d).power(Fraction(-1))
    for i in range(n):
        for j in range(n):
            sub = [r[:i] + r[i + 1:] for k, r in enumerate(rows) if k != j]
            c = E(_det(sub)) * rd
            out[i, j] = mkscalar(c if (i + j) % 2 == 0 else -c)
    return out


def _inv_sym(s):
    from . import linalg
    return linalg.inv(s)


Eig = collections.namedtuple("EigResult", ["eigenvalues", "eigenvectors"])


@model("linalg.eigh")
def eigh(a, UPLO="L", subset_by_index=None, **kw):
    from . import linalg
    if UPLO != "L" or kw:
        raise Unsupported("eigh options")
    return Eig(*linalg.eigh(a, subset_by_index))


@model("linalg.eig")
def eig(a, **kw):
    from . import linalg
    if kw:
        raise Unsupported("eig options")
    return Eig(*linalg.eig(a))


@model("linalg.svd")
def svd(a, full_matrices=True, compute_uv=True, overwrite_a=False, check_finite=True, **kw):
    from . import linalg
    if full_matrices or not compute_uv or overwrite_a or kw:
        raise Unsupported("svd options")
    return linalg.svd(a)


@model("linalg.solve")
def solve(a, b, **kw):
    if kw:
        raise Unsupported("solve options")
    return matmul(inv(a), as_sym(b))


@model("linalg.norm")
def norm(a, ord=None, axis=None, keepdims=False):
    if ord is not None:
        raise Unsupported("norm ord")
    a = as_sym(a)
    sq = ew1(a, lambda e: e * e.conj(), "f")
    s = asum(sq, axis, keepdims=keepdims)
    if type(s) is SymArray:
        return fin(ew1(s, X.sqrt, "f"))
    return mkscalar(X.sqrt(E(s)))


@model("linalg.multi_dot")
def multi_dot(ms):
    r = ms[0]
    for m in ms[1:]:
        r = matmul(r, m)
    return fin(r)


# ---------------------------------------------------------------- no-ops used as run-time assertions
ASSERT_HOOK = [None]  # set by contracts that oblige the code's own assertions


def _assert_same(a, b=0, *_a, **_k):
    if ASSERT_HOOK[0] is not None:
        a, b = as_sym(a), as_sym(b)
        if a.ndim and not b.ndim:
            b = a * 0 + b
        elif b.ndim and not a.ndim:
            a = b * 0 + a
        ASSERT_HOOK[0](a, b)


for _n in ("assert_allclose", "assert_array_almost_equal", "assert_array_equal", "assert_almost_equal", "assert_equal"):
    MODELS["testing." + _n] = _assert_same


@model("isnan")
def isnan(a):
    return ew1(as_sym(a), lambda e: E(0), "b")


@model("iscomplexobj")
def iscomplexobj(a):
    return as_sym(a).dt == "c"


@model("allclose")
def allclose(a, b, **_k):
    """Whether numbers are close is not decided: both answers are explored."""
    v = logic.CTX.fresh("close")
    return bool(SInt(Poly.atom(v)) == 0)


binary("isclose", X.close, "i")


@model("array_equal")
def array_equal(a, b):
    a, b = as_sym(a), as_sym(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.dims, b.dims):
        if not dims_equal(x, y) and not choose(eq(x, y)):
            return False
    la, lb = lower(a), lower(b)
    if type(la) is SymArray or type(lb) is SymArray:
        if type(a) is SymArray and a is b:
            return True
        raise Unsupported("array_equal of symbolic arrays")
    return builtins.all(bool(p == q) for p, q in zip(np.ravel(la), np.ravel(lb)))


# ---------------------------------------------------------------- random numbers
class SymRng:
    """Every number drawn is an unknown of its own; `contract.second_moment` takes the expectation over them."""

    def standard_normal(self, size=None):
        name = f"rnd!{logic.CTX.fresh()[1]}"
        X.REAL.add(name)
        if size is None:
            return mkscalar(Expr.app(name, ()))
        dims = size if isinstance(size, (tuple, list)) else (size,)
        return SymArray([(P(d),) for d in dims], lambda idx: Expr.app(name, idx), "f", name=name, c=True)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


MODELS["random.default_rng"] = lambda seed=None: SymRng()


# ---------------------------------------------------------------- the module object
PASS_TYPES = (type,)


class Shim(types.ModuleType):
    def __init__(self, real, prefix="", models=None, consts=None, pkg=""):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_prefix"] = prefix
        self.__dict__["_models"] = MODELS if models is None else models
        self.__dict__["_consts"] = consts or {}
        self.__dict__["_cache"] = {}
        self.__dict__["__path__"] = getattr(real, "__path__", [])

    def __getattr__(self, name):
        c = self._cache.get(name)
        if c is not None:
            return c
        if name in self._consts:
            v = self._consts[name]
            return v() if callable(v) else v
        v = getattr(self._real, name)
        full = self._prefix + name
        if isinstance(v, types.ModuleType):
            r = Shim(v, full + ".", self._models, SUBCONSTS.get((id(self._models), full)))
        elif isinstance(v, type) and full not in self._models:
            r = v
        elif callable(v):
            r = make_func(full, v, self._models.get(full))
        else:
            return v
        self._cache[name] = r
        return r


SUBCONSTS: dict = {}

# creation functions are always symbolic so that symbolic values can be stored later
ALWAYS = {"load", "random.default_rng", "zeros", "ones", "empty", "full", "zeros_like", "empty_like", "ones_like", "eye", "identity"}


def make_func(full, real, mod):
    def f(*a, **k):
        if full not in ALWAYS and not has_sym(a) and not has_sym(k):
            return real(*a, **k)
        if mod is None:
            raise Unsupported(f"no model of {real.__name__} ({full})")
        USED.add(full)
        return mod(*a, **k)

    f.__name__ = getattr(real, "__name__", full)
    return f


def real_const(name):
    return lambda: SExpr(Expr.atom(("r", name, True)))


def numpy_shim():
    return Shim(np, "", MODELS, {"pi": lambda: SExpr(Expr.atom(X.PI))})


def eval_hermite(n, x):
    """physicists' Hermite polynomial of a constant order"""
    if not isinstance(n, (int, np.integer)) or type(n) is SInt:
        raise Unsupported("Hermite polynomial of symbolic order")

    def h(e):
        a, b = E(1), E(2) * e
        if n == 0:
            return a
        for k in range(1, int(n)):
            a, b = b, E(2) * e * b - E(2 * k) * a
        return b

    return fin(ew1(as_sym(x), h, as_sym(x).dt))


def quad(func, a, b, args=(), **k):
    """The integral, as the sum over the midpoints of M equal intervals: what holds for every M holds in the limit."""
    if k or args:
        raise Unsupported("options of quad")
    m = ("sz", "quad!M")
    logic.CTX.size_lo[m] = 1
    m = Poly.atom(m)
    a, b = E(as_sym(a).item()), E(as_sym(b).item())
    w = (b - a) / E(m)

    def body(full):
        v = as_sym(func(SExpr(a + w * (E(full[0]) + E(Fraction(1, 2))))))
        if not (v.ndim == 0):
            raise Unsupported("quad of a function which is not scalar")
        return E(v.item()) * w

    tot = mkscalar(sym.sum_slots(body, [None], [(0, m)]))
    return tot, mkscalar(X.fn("opaque_r", "error", E(tot)))


SCIPY_MODELS: dict = {
    "integrate.quad": quad,
    "special.eval_hermite": eval_hermite,
    "fft.fft": MODELS["fft.fft"],
    "fft.ifft": MODELS["fft.ifft"],
    "fft.fftn": MODELS["fft.fftn"],
    "fft.ifftn": MODELS["fft.ifftn"],
    "fft.rfft": MODELS["fft.rfft"],
    "fft.irfft": MODELS["fft.irfft"],
    "fft.rfftn": MODELS["fft.rfftn"],
    "fft.irfftn": MODELS["fft.irfftn"],
    "linalg.inv": inv,
    "linalg.det": det,
    "linalg.norm": norm,
    "linalg.eigh": eigh,
    "linalg.eig": eig,
    "linalg.svd": svd,
    "linalg.solve": solve,
}


def scipy_shim():
    import scipy
    import scipy.constants
    import scipy.fft
    import scipy.integrate
    import scipy.interpolate
    import scipy.linalg
    import scipy.ndimage
    import scipy.optimize
    import scipy.signal
    import scipy.sparse
    import scipy.special
    import scipy.stats

    consts = {n: real_const(n) for n in ("hbar", "electron_mass", "Boltzmann", "elementary_charge", "epsilon_0", "Avogadro", "h", "e", "m_e", "k", "atomic_mass", "angstrom")}
    SUBCONSTS[(id(SCIPY_MODELS), "constants")] = {**consts, "pi": lambda: SExpr(Expr.atom(X.PI))}
    return Shim(scipy, "", SCIPY_MODELS)
