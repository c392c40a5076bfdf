"""Setup: the engine loads, the contracts load, the numpy models agree with numpy.

Every entry of TESTS is a small numpy program.  It is run twice: on numpy itself with concrete
sizes and random data, and through the models with symbolic sizes (each branch follows the concrete
sizes).  The symbolic element is then evaluated at every index, before and after simplification,
and compared with numpy's value.  A model without an entry fails the self test.
"""
import itertools
import math
import random
import sys
import time

import numpy as real_np

from . import contract as K
from . import expr as X
from . import load_contracts, loader, logic, loops, npshim, simp, sym
from .poly import P
from .sym import SInt, as_sym, gprod

SIZES = [{"n": 4, "m": 3, "p": 2, "q": 5}, {"n": 3, "m": 3, "p": 3, "q": 2}, {"n": 1, "m": 2, "p": 4, "q": 3}, {"n": 5, "m": 4, "p": 1, "q": 1}]

TESTS: dict = {}
# the model may refuse (raise) where numpy broadcasts by accident (equal or unit symbolic sizes): an alarm, never a proof
MAY_RAISE = {"broadcast_bad"}
OTHER = {
    # decided by rules about their defining equations, not by a formula: the contracts on eigen.py
    # and kernel.py state those equations and the samples of every check run them on numpy
    "linalg.eig", "linalg.eigh", "linalg.inv", "linalg.solve", "linalg.svd",
    # obligations / no-ops
    "testing.assert_allclose", "testing.assert_array_almost_equal", "testing.assert_array_equal", "testing.assert_almost_equal", "testing.assert_equal",
}


def t(f):
    TESTS[f.__name__] = f
    return f


def add(name, f):
    assert name not in TESTS, name
    TESTS[name] = f


class Env:
    def __init__(self, mode, sizes, seed=0):
        self.mode, self.sizes = mode, sizes
        self.data = {}
        self.rng = real_np.random.default_rng(seed)
        self.C = None

    def n(self, name, lo=1):
        return self.sizes[name] if self.mode == "num" else self.C.size(name, lo=lo)

    def arr(self, name, dims, dt="c", pos=False):
        shape = [self.val(d) for d in dims]
        if name not in self.data:
            g = self.rng.normal(size=shape)
            if dt == "c":
                g = g + 1j * self.rng.normal(size=shape)
            if dt == "i":
                g = self.rng.integers(0, 3, size=shape)
            if pos:
                g = abs(g) + 0.1
            self.data[name] = g
        if self.mode == "num":
            return self.data[name].copy()
        return self.C.array(name, list(dims), dt, pos)

    def val(self, d):
        if type(d) is SInt:
            return simp._eval_poly(P(d), self.atoms())
        return int(d)

    def atoms(self):
        return {("sz", k): v for k, v in self.sizes.items()}


class Concolic(sym.Explorer):
    """Every branch follows the concrete sizes; what the engine decides itself must agree with them."""

    def __init__(self, env):
        super().__init__()
        self.env = env

    def choose(self, lit):
        d = logic.decide(lit)
        env = dict(self.env.atoms())
        try:
            c = bool(simp._eval_lit(lit, env))
        except KeyError:
            if d is not None:
                return d
            raise sym.Unsupported(f"branch on {logic.lit_str(lit)}")
        if d is not None:
            assert d == c, f"the engine decides {logic.lit_str(lit)} as {d} although {self.env.sizes}"
            return d
        logic.CTX.facts.append(lit if c else logic.neg(lit))
        return c


def symbolic(f, env, np):
    env.mode = "sym"
    ex = Concolic(env)
    sym.set_explorer(ex)
    ctx = logic.Ctx()
    ctx.deadline = time.time() + 60
    logic.set_ctx(ctx)
    X.reset_registry()
    loops.STACK.clear()
    sym.GENERIC[0] = 0
    env.C = K.SymC(None, {})
    K.Current.C = env.C
    out = f(np, env)
    return out if isinstance(out, (tuple, list)) else [out]


def elements(a, env, order=True):
    """The generic element of a, evaluated at every index."""
    a = as_sym(a)
    base = env.atoms()
    for k, v in env.data.items():
        base[k] = (lambda arr: lambda *i: arr[tuple(i)])(v)
    if order is True:
        order = {}
        for k, b in enumerate(logic.CTX.order):
            v = elements(b, env, order)[0]
            v = v.real if real_np.all(v.imag == 0) else v
            s = real_np.argsort(v.ravel())
            order[f"argsort#{k}"] = lambda i, s=s: s[i]
            order[f"argmin#{k}"] = lambda v=v: real_np.argmin(v)
            order[f"argmax#{k}"] = lambda v=v: real_np.argmax(v)
    base.update(order)
    base["_window"] = 14
    for mx in getattr(logic.CTX, "matrices", None) or []:
        n, m = simp._eval_poly(mx.n, base), simp._eval_poly(mx.m, base)
        val = real_np.array([[simp.evaluate(mx.e, {**base, mx.p: i, mx.q: j}) for j in range(m)] for i in range(n)]).reshape(n, m)
        if mx.kind == "svd":
            parts = dict(zip("UsV", real_np.linalg.svd(val, full_matrices=False)))
            parts["g"] = parts["V"][0, 0].conj()
        elif mx.kind == "eigh":
            parts = dict(zip("eU", real_np.linalg.eigh(val)))
        elif mx.kind == "eig":
            parts = dict(zip("lV", real_np.linalg.eig(val)))
            parts["W"] = real_np.linalg.inv(parts["V"])
        else:
            parts = {"X": real_np.linalg.inv(val)}
        for k, v in parts.items():
            base[f"{mx.name}.{k}"] = (lambda arr: lambda *i: arr[tuple(i)])(real_np.asarray(v))
    sz = [simp._eval_poly(gprod(g), base) for g in a.groups]
    flat = [[simp._eval_poly(s, base) for s in g] for g in a.groups]
    idx, facts, names = [], [], []
    for g in a.groups:
        for s in g:
            if s == P(1):
                idx.append(P(0))
                names.append(None)
                continue
            v, p, fs = K.fresh_range(s, "e")
            idx.append(p)
            names.append(v)
            facts += fs
    n = logic.CTX.push(facts)
    try:
        with sym.generic_section():
            e = a.snapshot()(tuple(idx))
        s = simp.simplify(e)
    finally:
        logic.CTX.pop(n)
    vals, svals = [], []
    for pos in itertools.product(*[range(k) for fl in flat for k in fl]):
        b = dict(base)
        for v, k in zip(names, pos):
            if v is not None:
                b[v] = k
        vals.append(simp.evaluate(e, b))
        svals.append(simp.evaluate(s, b))
    return real_np.array(vals).reshape(sz), real_np.array(svals).reshape(sz)


def run(name, f, sizes, shim, seed=0):
    env = Env("num", sizes, seed)
    try:
        want = f(real_np, env)
    except (ValueError, IndexError, real_np.exceptions.AxisError) as e:
        want = e
    env2 = Env("sym", sizes)
    env2.data = env.data
    try:
        got = symbolic(f, env2, shim)
        if isinstance(want, Exception):
            return f"numpy raises {want!r}, the model returns a value"
        want = want if isinstance(want, (tuple, list)) else [want]
        if len(got) != len(want):
            return "different number of results"
        for g, w in zip(got, want):
            w = real_np.asarray(w)
            vals, svals = elements(g, env2)
            if vals.shape != w.shape:
                return f"shape {vals.shape} != {w.shape}"
            gd = as_sym(g)
            kind = {"c": "c", "f": "f", "i": "i", "b": "b"}[gd.dt]
            wk = {"u": "i"}.get(w.dtype.kind, w.dtype.kind)
            if (kind == "i") != (wk == "i") and not (kind == "f" and wk == "i") and w.ndim:
                return f"dtype {kind} != {wk}"
            for what, v in (("element", vals), ("simplified element", svals)):
                if not real_np.allclose(v, w, atol=1e-9):
                    return f"{what}: {v.ravel()[:4]} != {w.ravel()[:4]}"
    except sym.SymError as e:
        return None if isinstance(want, Exception) or name in MAY_RAISE else f"the model raises {e}, numpy does not"
    except (sym.Unsupported, UnboundLocalError) as e:
        return "skip" if not isinstance(want, Exception) else None
    return None


# ---------------------------------------------------------------- the programs
def A(E, dt="c", pos=False):
    return E.arr("a", [E.n("n"), E.n("m")], dt, pos)


def A3(E, dt="c"):
    return E.arr("a3", [E.n("n"), E.n("m"), E.n("p")], dt)


def V(E, dt="c", name="v", size="n", pos=False):
    return E.arr(name, [E.n(size)], dt, pos)


def simple():
    one = lambda fn: lambda np, E: fn(np, A(E), E)  # noqa: E731
    vec = lambda fn: lambda np, E: fn(np, V(E), E)  # noqa: E731
    three = lambda fn: lambda np, E: fn(np, A3(E), E)  # noqa: E731

    for nm in ("zeros", "ones"):
        add(nm, lambda np, E, nm=nm: getattr(np, nm)((E.n("n"), E.n("m"))))
        add(nm + "_like", one(lambda np, a, E, nm=nm: getattr(np, nm + "_like")(a)) if nm != "zzz" else None)
    add("full", lambda np, E: np.full((E.n("n"), 2), 3.5))
    add("full_complex", lambda np, E: np.full((E.n("n"), 2), 1j))
    add("empty", lambda np, E: _filled(np.empty((E.n("n"), E.n("m")))))
    add("empty_like", one(lambda np, a, E: _filled(np.empty_like(a))))
    add("eye", lambda np, E: np.eye(E.n("n")))
    add("eye_k", lambda np, E: np.eye(E.n("n"), E.n("m"), k=1))
    add("identity", lambda np, E: np.identity(E.n("n")))
    add("arange", lambda np, E: np.arange(E.n("n")))
    add("arange2", lambda np, E: np.arange(-E.n("n"), E.n("m")))
    add("arange3", lambda np, E: np.arange(0, E.n("n"), 2))
    add("arange4", lambda np, E: np.arange(E.n("q"), -1, -1))
    add("arange5", lambda np, E: np.arange(E.n("q"), 0, -2))
    add("arange6", lambda np, E: np.arange(1, 2 * E.n("q"), E.n("p")))
    add("arange7", lambda np, E: np.arange(5, E.n("n")))
    add("linspace", lambda np, E: np.linspace(0, 1, E.n("n")))
    add("linspace2", lambda np, E: np.linspace(-2, 3, E.n("n"), endpoint=False))
    add("linspace3", lambda np, E: np.linspace(1, 2, E.n("n") + 1))
    add("array", one(lambda np, a, E: np.array(a)))
    add("array_list", vec(lambda np, v, E: np.array([v, v * 2])))
    add("asarray", one(lambda np, a, E: np.asarray(a)))
    add("asanyarray", one(lambda np, a, E: np.asanyarray(a)))
    add("copy", one(lambda np, a, E: np.copy(a)))
    add("fromiter", lambda np, E: np.fromiter((k * E.n("n") for k in range(3)), dtype=np.int64))

    # elementwise
    for nm in ("abs", "absolute", "real", "imag", "conj", "conjugate", "negative", "square", "exp", "sin", "cos", "isnan"):
        add(nm, one(lambda np, a, E, nm=nm: getattr(np, nm)(a)))
    add("isreal", one(lambda np, a, E: np.isreal(a)))
    add("angle", lambda np, E: np.angle(A(E, "f", True)))
    add("angle_c", one(lambda np, a, E: np.angle(a)))
    add("angle_exp", lambda np, E: np.exp(-1j * (np.angle(A(E)) + V(E, "f", "w")[:, None])))
    add("angle_unit", lambda np, E: (lambda z: z * z * np.conj(z))(np.exp(1j * np.angle(A(E)))))
    add("angle_unit_conj", lambda np, E: np.conj(np.exp(2j * np.angle(A(E)))))

    def dec(f, sq=False):
        def run(np, E):
            a = E.arr("a", [E.n("n"), E.n("n") if sq else E.n("m")], "c")
            return f(np, a)
        return run

    def svd(np, a):
        return np.linalg.svd(a, full_matrices=False)
    add("svd_recon", dec(lambda np, a: (lambda u, s, v: (u * s) @ v)(*svd(np, a))))
    add("svd_left", dec(lambda np, a: (lambda u, s, v: u.conj().T @ u)(*svd(np, a))))
    add("svd_right", dec(lambda np, a: (lambda u, s, v: v @ v.conj().T)(*svd(np, a))))
    add("svd_polar", dec(lambda np, a: (lambda u, s, v: (u @ v).conj().T @ (u @ v))(*svd(np, a)), True))
    add("svd_polar_r", dec(lambda np, a: (lambda u, s, v: (u @ v) @ (u @ v).conj().T)(*svd(np, a)), True))
    add("svd_proj", dec(lambda np, a: (lambda u, s, v: u @ (u.conj().T @ a) - a)(*svd(np, a))))
    add("svd_one", lambda np, E: (lambda u, s, v: [u, s, v, u @ v, (u * s) @ v])(*svd(np, E.arr("a", [1, 1], "c"))))
    add("eigh_recon", dec(lambda np, a: (lambda e, u: (u * e) @ u.conj().T)(*np.linalg.eigh(a + a.conj().T)), True))
    add("eigh_tri", dec(lambda np, a: (lambda e, u: (u * e) @ u.conj().T)(*np.linalg.eigh(a)), True))
    add("eigh_unit", dec(lambda np, a: (lambda e, u: u @ u.conj().T)(*np.linalg.eigh(a)), True))
    add("eig_recon", dec(lambda np, a: (lambda e, v: (v * e) @ np.linalg.inv(v))(*np.linalg.eig(a)), True))
    add("inv_recon", dec(lambda np, a: a @ np.linalg.inv(a), True))
    add("solve_recon", dec(lambda np, a: a @ np.linalg.solve(a, a[:, 0]), True))
    add("sqrt", lambda np, E: np.sqrt(A(E, "f", True)))
    add("log", lambda np, E: np.log(A(E, "f", True)))
    add("scimath_sqrt", lambda np, E: np.lib.scimath.sqrt(A(E, "f", True)))
    two = lambda fn: lambda np, E: fn(np, A(E), E.arr("b", [E.n("m")], "c"))  # noqa: E731
    for nm in ("add", "subtract", "multiply", "divide", "true_divide"):
        add(nm, two(lambda np, a, b, nm=nm: getattr(np, nm)(a, b)))
    add("power", one(lambda np, a, E: np.power(a, 3)))
    add("pow_neg", one(lambda np, a, E: a ** -2))
    add("pow_half", lambda np, E: A(E, "f", True) ** 0.5)
    add("floor_divide", lambda np, E: np.floor_divide(np.arange(E.n("q")), E.n("p")))
    add("mod", lambda np, E: np.mod(np.arange(-3, E.n("q")), E.n("p")))
    add("remainder", lambda np, E: np.remainder(np.arange(E.n("q")) - 4, E.n("p")))
    add("fd_op", lambda np, E: (np.arange(E.n("q")) - 4) // E.n("p"))
    add("mod_op", lambda np, E: (np.arange(E.n("q")) * 3 - 4) % E.n("n"))
    add("rsub", one(lambda np, a, E: 1 - a))
    add("rdiv", one(lambda np, a, E: 2 / a))
    add("neg_op", one(lambda np, a, E: -a + a.T.conj().T * 2j))
    add("logical_and", lambda np, E: np.logical_and(np.arange(E.n("q")) < E.n("p"), np.arange(E.n("q")) > 0) * 1)
    add("where", lambda np, E: np.where(np.arange(E.n("n")) < E.n("p"), V(E), 0))
    add("where2", lambda np, E: np.where(np.arange(E.n("n")) >= 2, np.arange(E.n("n")), V(E, "f")))
    add("ifelse_eq", lambda np, E: np.where(np.arange(E.n("n")) % 2 == 0, V(E), -1))
    add("inplace", one(_inplace))
    add("iscomplexobj", one(lambda np, a, E: np.iscomplexobj(a) * 1))
    add("array_equal", lambda np, E: np.array_equal(np.zeros((2,)), np.zeros((2,))) * 1)
    add("size", one(lambda np, a, E: np.size(a)))
    add("ndim", one(lambda np, a, E: np.ndim(a)))
    add("shape", one(lambda np, a, E: tuple(np.shape(a))))

    # reductions
    add("sum", one(lambda np, a, E: np.sum(a)))
    add("sum_axis", three(lambda np, a, E: np.sum(a, axis=1)))
    add("sum_axes", three(lambda np, a, E: np.sum(a, axis=(0, -1))))
    add("sum_keep", three(lambda np, a, E: np.sum(a, axis=1, keepdims=True)))
    add("sum_method", three(lambda np, a, E: a.sum(axis=(1, 2))))
    add("prod", lambda np, E: np.prod(np.array([E.n("n"), E.n("m"), 2])))
    add("average", one(lambda np, a, E: np.average(a, axis=0)))
    add("average_w", lambda np, E: np.average(A(E), axis=0, weights=V(E, "f", "w", pos=True)))
    add("mean", one(lambda np, a, E: np.mean(a, axis=1)))
    add("mean_all", one(lambda np, a, E: np.mean(a)))
    add("cumsum", vec(lambda np, v, E: np.cumsum(v)))
    add("cumsum_axis", one(lambda np, a, E: np.cumsum(a, axis=1)))
    add("trace", lambda np, E: np.trace(E.arr("s", [E.n("n"), E.n("n")])))
    add("amax", lambda np, E: np.amax(np.array([E.n("n"), E.n("m"), 2])))
    add("argsort", lambda np, E: np.argsort(V(E, "f")))
    add("argsort_sum", lambda np, E: (np.sum(V(E, "f")[np.argsort(np.abs(V(E, "f")))[::-1]] ** 2), np.einsum("ij,ik->jk", A(E, "c")[np.argsort(A(E, "f")[:, 0])], A(E, "c"))))
    add("argsort_take", lambda np, E: V(E, "f")[np.argsort(np.abs(V(E, "f")))[::-1]])
    add("argmin", lambda np, E: V(E, "f")[np.argmin(V(E, "f") * 2)])
    add("argmax", lambda np, E: np.argmax(A(E, "f")))
    add("max", lambda np, E: np.max(np.array([E.n("n"), E.n("m")])))
    add("amin", lambda np, E: np.amin(np.array([E.n("n"), E.n("m"), 2])))
    add("min", lambda np, E: np.min(np.array([E.n("n"), E.n("m"), E.n("p")])))
    add("max_array", lambda np, E: np.max(np.arange(E.n("n"))))
    add("linalg.norm", vec(lambda np, v, E: np.linalg.norm(v)))
    add("linalg.norm_axis", one(lambda np, a, E: np.linalg.norm(a, axis=0)))
    add("linalg.det", lambda np, E: np.linalg.det(E.arr("s", [2, 2], "f")))
    add("linalg.det3", lambda np, E: np.linalg.det(E.arr("s", [3, 3], "f")))
    add("linalg.inv2", lambda np, E: np.linalg.inv(E.arr("s", [2, 2], "f")))
    add("linalg.inv3", lambda np, E: np.linalg.inv(E.arr("s", [3, 3], "f")))
    add("linalg.multi_dot", lambda np, E: np.linalg.multi_dot([A(E), E.arr("b", [E.n("m"), E.n("p")]), E.arr("c", [E.n("p"), 2])]))

    # products
    add("dot", lambda np, E: np.dot(A(E), E.arr("b", [E.n("m"), E.n("p")])))
    add("dot_v", lambda np, E: np.dot(V(E), V(E, name="w")))
    add("dot_mv", lambda np, E: np.dot(A(E), V(E, name="w", size="m")))
    add("dot_vm", lambda np, E: np.dot(V(E), A(E)))
    add("dot_3v", lambda np, E: np.dot(A3(E), V(E, name="w", size="p")))
    add("dot_bad", lambda np, E: np.dot(A(E), V(E, name="w", size="q")))
    add("vdot", lambda np, E: np.vdot(V(E), V(E, name="w")))
    add("matmul", lambda np, E: np.matmul(A(E), E.arr("b", [E.n("m"), E.n("p")])))
    add("matmul_batch", lambda np, E: A3(E) @ E.arr("b", [E.n("p"), 2]))
    add("matmul_batch2", lambda np, E: A(E) @ E.arr("b", [E.n("q"), E.n("m"), 2]))
    add("outer", lambda np, E: np.outer(V(E), V(E, name="w", size="m")))
    add("kron", lambda np, E: np.kron(A(E), E.arr("b", [E.n("p"), 2])))
    add("kron_v", lambda np, E: np.kron(V(E), V(E, name="w", size="p")))
    add("cross", lambda np, E: np.cross(E.arr("x", [3], "f"), E.arr("y", [3], "f")))
    for k, sub in enumerate(("ij,jk->ik", "ij,jk", "ij->ji", "ij,ij->", "ij,kj->kij", "ii->i", "ii", "ij,jk,k->i", "ij,j->ij")):
        add(f"einsum{k}", lambda np, E, sub=sub: _einsum(np, E, sub))
    add("tensordot", lambda np, E: np.tensordot(A(E), E.arr("b", [E.n("m"), E.n("p")]), axes=1))
    add("tensordot2", lambda np, E: np.tensordot(A3(E), E.arr("b", [E.n("p"), E.n("n")]), axes=((0, 2), (1, 0))))
    add("tensordot3", lambda np, E: np.tensordot(A(E), A3(E), axes=(0, 0)))
    add("tensordot4", lambda np, E: np.tensordot(A(E), A(E), axes=([0], [0])))
    add("tensordot0", lambda np, E: np.tensordot(V(E), V(E, name="w", size="m"), axes=0))
    add("tensordot_neg", lambda np, E: np.tensordot(A3(E), E.arr("b", [E.n("p"), 2]), axes=(-1, 0)))

    # shapes
    add("reshape", three(lambda np, a, E: np.reshape(a, (E.n("n") * E.n("m"), E.n("p")))))
    add("reshape_m1", three(lambda np, a, E: a.reshape(E.n("n"), -1)))
    add("reshape_split", lambda np, E: E.arr("f", [E.n("n") * E.n("m")]).reshape(E.n("n"), E.n("m")).T)
    add("reshape_back", three(lambda np, a, E: a.swapaxes(0, 1).reshape(-1).reshape(E.n("m"), E.n("n") * E.n("p"))))
    add("reshape_T", one(lambda np, a, E: a.T.reshape(-1).reshape(E.n("n"), E.n("m"))))
    add("reshape_one", one(lambda np, a, E: a.reshape(1, *a.shape, 1)))
    add("reshape_bad", one(lambda np, a, E: a.reshape(E.n("n"), E.n("m") + 1)))
    add("ravel", three(lambda np, a, E: np.ravel(a)))
    add("ravel_T", one(lambda np, a, E: a.T.ravel()))
    add("flatten", one(lambda np, a, E: a.flatten()))
    add("transpose", three(lambda np, a, E: np.transpose(a)))
    add("transpose_ax", three(lambda np, a, E: np.transpose(a, (2, 0, 1))))
    add("transpose_m", three(lambda np, a, E: a.transpose(1, 2, 0)))
    add("swapaxes", three(lambda np, a, E: np.swapaxes(a, 0, -1)))
    add("moveaxis", three(lambda np, a, E: np.moveaxis(a, 0, -1)))
    add("moveaxis2", three(lambda np, a, E: np.moveaxis(a, [0, 1], [-1, 0])))
    add("expand_dims", one(lambda np, a, E: np.expand_dims(a, 1)))
    add("squeeze", one(lambda np, a, E: np.squeeze(a[:, np.newaxis, :], axis=1)))
    add("atleast_1d", one(lambda np, a, E: np.atleast_1d(a)))
    add("atleast_2d", vec(lambda np, v, E: np.atleast_2d(v)))
    add("broadcast_to", vec(lambda np, v, E: np.broadcast_to(v, (E.n("m"), E.n("n")))))
    add("broadcast_bad", lambda np, E: V(E) + V(E, name="w", size="m"))
    add("broadcast_op", lambda np, E: V(E)[:, np.newaxis] * V(E, name="w", size="m")[np.newaxis, :])
    add("roll", vec(lambda np, v, E: np.roll(v, 2)))
    add("roll_neg", vec(lambda np, v, E: np.roll(v, -E.n("m"))))
    add("roll_axis", one(lambda np, a, E: np.roll(a, 1, axis=1)))
    add("roll_axes", one(lambda np, a, E: np.roll(a, (1, -2), axis=(0, 1))))
    add("roll_flat", one(lambda np, a, E: np.roll(a, 1)))
    add("flip", one(lambda np, a, E: np.flip(a)))
    add("flip_axis", one(lambda np, a, E: np.flip(a, axis=1)))
    add("concatenate", lambda np, E: np.concatenate([V(E), V(E, name="w", size="m")]))
    add("concatenate_ax", lambda np, E: np.concatenate([A(E), E.arr("b", [E.n("n"), E.n("p")])], axis=1))
    add("concatenate_T", lambda np, E: np.concatenate([A3(E), E.arr("b", [E.n("n"), E.n("q"), E.n("p")])], axis=-2))
    add("append", lambda np, E: np.append(V(E), 2))
    add("append_v", lambda np, E: np.append(V(E), V(E, name="w", size="m")))
    add("insert", vec(lambda np, v, E: np.insert(v, 0, 7)))
    add("insert_mid", vec(lambda np, v, E: np.insert(v, 1, 7)))
    add("stack", one(lambda np, a, E: np.stack([a, a * 2])))
    add("stack_last", one(lambda np, a, E: np.stack([a, a * 2], axis=-1)))
    add("pad", vec(lambda np, v, E: np.pad(v, (1, 2))))
    add("pad2", one(lambda np, a, E: np.pad(a, ((0, 1), (E.n("p"), 0)))))
    add("meshgrid", lambda np, E: np.meshgrid(V(E), V(E, name="w", size="m"), indexing="ij"))
    add("meshgrid_xy", lambda np, E: np.meshgrid(V(E), V(E, name="w", size="m")))
    add("tile", vec(lambda np, v, E: np.tile(v, 3)))
    add("tile2", one(lambda np, a, E: np.tile(a, (2, E.n("p")))))
    add("repeat", vec(lambda np, v, E: np.repeat(v, 2)))
    add("repeat_axis", one(lambda np, a, E: np.repeat(a, E.n("p"), axis=0)))
    add("unravel_index", lambda np, E: np.unravel_index(np.arange(E.n("n") * E.n("m")), (E.n("n"), E.n("m"))))
    add("ravel_multi_index", lambda np, E: np.ravel_multi_index((np.arange(E.n("n")), np.zeros((E.n("n"),), dtype=int)), (E.n("n"), E.n("m"))))
    add("ravel_multi_wrap", lambda np, E: np.ravel_multi_index((np.arange(E.n("n")) - 2, np.arange(E.n("n")) + 1), (E.n("n"), E.n("m")), mode="wrap"))
    add("ndindex", lambda np, E: np.array([list(i) for i in np.ndindex(*np.zeros((2, 3)).shape)]) + E.n("n"))
    add("ndenumerate", lambda np, E: np.array([v for _i, v in np.ndenumerate(E.arr("s", [2, 2]))]))
    add("diagonal", lambda np, E: np.diagonal(E.arr("s", [E.n("n"), E.n("n")])))
    add("diagonal_ax", lambda np, E: np.diagonal(E.arr("s", [E.n("n"), E.n("m"), E.n("n")]), axis1=0, axis2=2))
    add("diag", vec(lambda np, v, E: np.diag(v)))
    add("diag_m", lambda np, E: np.diag(E.arr("s", [E.n("n"), E.n("n")])))
    add("fill_diagonal", lambda np, E: _fill_diagonal(np, E.arr("s", [E.n("n"), E.n("n")])))
    add("triu", one(lambda np, a, E: np.triu(a)))
    add("triu_k", one(lambda np, a, E: np.triu(a, k=1)))
    add("tril", one(lambda np, a, E: np.tril(a, -1)))
    add("take", one(lambda np, a, E: np.take(a, 0, axis=1)))
    add("apply_along_axis", three(lambda np, a, E: np.apply_along_axis(lambda v: v[::-1] * 2, 1, a)))

    # Fourier transforms
    for nm in ("fft", "ifft"):
        add(f"fft.{nm}", vec(lambda np, v, E, nm=nm: getattr(np.fft, nm)(v)))
        for nrm in ("ortho", "forward", "backward"):
            add(f"fft.{nm}_{nrm}", one(lambda np, a, E, nm=nm, nrm=nrm: getattr(np.fft, nm)(a, axis=0, norm=nrm)))
        add(f"fft.{nm}_n", vec(lambda np, v, E, nm=nm: getattr(np.fft, nm)(v, E.n("q"))))
        add(f"fft.{nm}n", one(lambda np, a, E, nm=nm: getattr(np.fft, nm + "n")(a)))
        add(f"fft.{nm}n_ax", three(lambda np, a, E, nm=nm: getattr(np.fft, nm + "n")(a, axes=(0, 2), norm="ortho")))
        add(f"fft.{nm}n_s", one(lambda np, a, E, nm=nm: getattr(np.fft, nm + "n")(a, s=(E.n("q"), E.n("m")), axes=(0, 1))))
        add(f"fft.{nm}2", one(lambda np, a, E, nm=nm: getattr(np.fft, nm + "2")(a)))
    add("fft.rfft", lambda np, E: np.fft.rfft(V(E, "f")))
    add("fft.rfft_ortho", lambda np, E: np.fft.rfft(V(E, "f"), norm="ortho"))
    add("fft.irfft", lambda np, E: np.fft.irfft(np.fft.rfft(V(E, "f")), n=E.n("n")))
    add("fft.rfftn", lambda np, E: np.fft.rfftn(A(E, "f"), axes=(1, 0), norm="forward"))
    add("fft.irfftn", lambda np, E: np.fft.irfftn(np.fft.rfftn(A(E, "f")), s=(A(E, "f").shape[0], E.n("n")), axes=(0, 1), norm="forward"))
    add("fft.irfft_raw", lambda np, E: np.fft.irfft(V(E), n=2 * E.n("n") - 1))
    add("fft.fftfreq", lambda np, E: np.fft.fftfreq(E.n("n")))
    add("fft.fftfreq_d", lambda np, E: np.fft.fftfreq(E.n("q"), 1 / E.n("q")))
    add("fft.fftshift", vec(lambda np, v, E: np.fft.fftshift(v)))
    add("fft.fftshift_ax", one(lambda np, a, E: np.fft.fftshift(a, axes=(1,))))
    add("fft.ifftshift", vec(lambda np, v, E: np.fft.ifftshift(v)))
    add("fft.ifftshift_all", one(lambda np, a, E: np.fft.ifftshift(a)))

    # indexing
    add("index_int", three(lambda np, a, E: a[0]))
    add("index_neg", three(lambda np, a, E: a[..., -1]))
    add("index_mid", three(lambda np, a, E: a[:, 0, :]))
    add("index_new", vec(lambda np, v, E: v[np.newaxis, :, None]))
    add("index_rev", vec(lambda np, v, E: v[::-1]))
    add("index_step", vec(lambda np, v, E: v[::2]))
    add("index_step3", vec(lambda np, v, E: v[1::3]))
    add("index_nstep", vec(lambda np, v, E: v[::-2]))
    add("index_nstep2", vec(lambda np, v, E: v[3:0:-1]))
    add("index_upto", vec(lambda np, v, E: v[: E.n("p")]))
    add("index_from", vec(lambda np, v, E: v[E.n("p"):]))
    add("index_negfrom", vec(lambda np, v, E: v[-E.n("p"):]))
    add("index_negto", vec(lambda np, v, E: v[1:-1]))
    add("index_two", one(lambda np, a, E: a[1:, ::-1]))
    add("index_fancy", vec(lambda np, v, E: v[np.arange(E.n("n")) // 2]))
    add("index_fancy_neg", vec(lambda np, v, E: v[-1 - np.arange(E.n("n"))]))
    add("index_fancy2", one(lambda np, a, E: a[np.zeros((E.n("n"),), dtype=int), :]))
    add("index_list", one(lambda np, a, E: a[[0, -1]]))
    add("index_pair", lambda np, E: E.arr("s", [E.n("n"), E.n("n")])[np.arange(E.n("n")), np.arange(E.n("n"))])
    add("index_mesh", one(lambda np, a, E: a[np.ix_(np.arange(E.n("n"))[::-1], np.arange(E.n("m")))] if False else a[np.arange(E.n("n"))[::-1]][:, np.arange(E.n("m"))]))
    add("index_multi", three(lambda np, a, E: a[np.zeros((2,), dtype=int), :, np.zeros((2,), dtype=int)]))
    add("index_out", vec(lambda np, v, E: v[E.n("n")]))
    add("set_slice", one(_set_slice))
    add("set_diag", lambda np, E: _set_diag(np, E))
    add("set_view", one(_set_view))
    add("set_T", one(_set_t))
    add("view_alias", one(_view_alias))
    add("copy_alias", one(_copy_alias))
    add("loop_sum", one(lambda np, a, E: _loop(np, a)))


def _filled(a):
    a[...] = 2
    return a


def _inplace(np, a, E):
    b = a
    b += 1
    b *= 2
    return a - b + a


def _einsum(np, E, sub):
    ins = sub.split("->")[0].split(",")
    dims = {"i": "n", "j": "m", "k": "p"}
    return np.einsum(sub, *[E.arr(f"e{k}", [E.n(dims[c]) for c in s]) for k, s in enumerate(ins)])


def _fill_diagonal(np, a):
    np.fill_diagonal(a, 3)
    return a


def _set_slice(np, a, E):
    a[0] = 5
    a[:, -1] = 2
    return a


def _set_diag(np, E):
    z = np.zeros((E.n("n"), E.n("n")), dtype=np.complex128)
    r = np.arange(E.n("n"))
    z[r, r] = V(E)
    return z


def _set_view(np, a, E):
    v = a[:, ::-1]
    v[:, 0] = 7
    return a


def _set_t(np, a, E):
    a.T[0] = 1j
    return a


def _view_alias(np, a, E):
    v = a.reshape(-1)
    v[0] = 9
    return a


def _copy_alias(np, a, E):
    v = a.T.reshape(-1)
    v[0] = 9
    w = a.copy()
    w[0] = 1
    f = a.flatten()
    f[0] = 3
    return a


def _loop(np, a):
    out = np.zeros((a.shape[1],), dtype=np.complex128)
    for k in range(2):
        out = out + a[0] * k
    return out


# ---------------------------------------------------------------- loops of symbolic length
def _rng(E, n):
    """range as the rewritten code sees it"""
    return range(n) if E.mode == "num" else loops.It(loops.SymRange(0, n))


def _loop_prog(seed):
    """A random loop nest with reads and writes of its own array.  The loop rule may refuse it; if not, it must agree with numpy."""
    rnd = random.Random(seed)
    one = rnd.random() < 0.4
    body = []
    W1 = ["i", "n-1-i", "0", "n-1"]
    R1 = ["i", "n-1-i", "0", "n-1", "min"]
    w0 = (rnd.choice(W1[:2]), rnd.choice(["j", "m-1-j"]))
    for _ in range(rnd.randint(1, 3)):
        if rnd.random() < 0.75:
            body.append((*w0, rnd.choice(["=", "+="]), rnd.choice(["a", "out", "const", "both"]), *(w0 if rnd.random() < 0.9 else (rnd.choice(R1[:4]), "0")), rnd.randint(1, 5)))
            continue
        body.append((rnd.choice(W1[:2] if rnd.random() < 0.8 else W1), rnd.choice(["j", "m-1-j", "0", ":"]), rnd.choice(["=", "+="]), rnd.choice(["a", "out", "const", "both"]),
                     rnd.choice(R1[:4]), rnd.choice(["j", "m-1-j", "0"]), rnd.randint(1, 5)))
    inner = rnd.random() < 0.5
    conc = not inner and rnd.random() < 0.4

    def prog(np, E):
        n, m = E.n("n"), E.n("m")
        a = E.arr("a", [n, m])
        out = np.zeros((n, m), dtype=np.complex128)
        if rnd and seed % 3 == 0:
            out = out + E.arr("o", [n, m])

        def ix(c, i, k):
            return slice(None) if c == ":" else 0 if c == "0" else k - 1 if c == "n-1" else i if c in "ij" else k - 1 - i

        def step(i, j):
            for wi, wj, op, src, ri, rj, c in body:
                if j is None:
                    wj, rj2 = ":", slice(None)
                else:
                    rj2 = ix(rj, j, m)
                v = c
                if src in ("a", "both"):
                    v = v * a[ix(ri, i, n), rj2]
                if src in ("out", "both"):
                    v = v + out[ix(ri, i, n), rj2]
                w = (ix(wi, i, n), ix(wj, j, m))
                if op == "=":
                    out[w] = v
                else:
                    out[w] += v

        for i in _rng(E, n):
            if one:
                step(i, None)
            elif conc:
                for j in range(1):
                    step(i, j)
            else:
                for j in _rng(E, m):
                    step(i, j)
        return out

    return prog


def _loop_shift(np, E, d):
    """each iteration reads its neighbour: not independent"""
    n = E.n("n") + 1
    out = E.arr("o", [n, 3]) + 0
    for i in _rng(E, E.n("n")):
        if d > 0:
            out[i + 1] = 2 * out[i] + 1
        elif d == 0:
            out[i] = 2 * out[i + 1] + 1
        else:
            for j in range(3):
                out[i + 1, j] = 2 * out[i, 2 - j] + 1
    return out


def _loop_two(np, E, d):
    """two writes of different iterations to one cell"""
    n = E.n("n")
    out = np.zeros((n + 1,), dtype=np.complex128)
    v = V(E)
    for i in _rng(E, n):
        out[i + d] = v[i]
        out[i + 1 - d] = 3 * v[i]
    return out


def _loop_hops(np, E):
    """several cells of an inner loop's iteration, and sums in place"""
    n, m = E.n("n"), E.n("m")
    a = E.arr("a", [n, m])
    d = np.zeros((n, m, 3), dtype=np.complex128)
    s = np.zeros((2, n, m), dtype=np.complex128)
    for i in _rng(E, n):
        for j in _rng(E, m):
            for k in range(3):
                d[i, j, k] = a[i, j] * (k + i)
                s[:, i, j] += a[n - 1 - i, m - 1 - j] * k
    return [d, s]


_SCALARS = """
def carried(np, E, rng):
    t = 0
    for i in rng:
        t = t + 1
    return t
def carried_array(np, E, rng):
    t = np.zeros((3,))
    for i in rng:
        t = t + i
    return t
def collected(np, E, rng):
    out = []
    for i in rng:
        out.append(i)
    return len(out)
def collected_dict(np, E, rng):
    out = {"n": 0}
    for i in rng:
        out["n"] = 2 * i
    return out["n"]
def left(np, E, rng):
    for i in rng:
        t = 5
        break
    return i + t
def left2(np, E, rng):
    for i in rng:
        return i + 7
    return 0
def one_by_one(np, E, rng):
    def gen():
        for i in rng:
            yield i
    return np.array([k for k, _ in enumerate(gen())])
def one_by_one2(np, E, rng):
    def gen():
        for i in rng:
            yield i
    return np.array([*gen()])
def one_by_one3(np, E, rng):
    def gen():
        for i in rng:
            yield i
    return sum(gen()) + len(list(gen()))
def previous(np, E, rng):
    prev, out = None, np.zeros((E.n("n"),))
    for i in rng:
        out[i] = 0 if prev is None else prev
        prev = i
    return out
def temporary(np, E, rng):
    out, t = np.zeros((E.n("n"),)), 4
    for i in rng:
        t = 2 * i
        out[i] = t
    return out
def unpacked(np, E, rng):
    return np.array([*rng])
def setcomp(np, E, rng):
    return len({i for i in rng})
def contains(np, E, rng):
    return 1 * (1 in rng)
def dt_arange(np, E, rng):
    return np.arange(0, E.n("n"), dtype=int) // 2
def dt_real_part(np, E, rng):
    return E.arr("a", (E.n("n"),)).astype(float)
def dt_real_part2(np, E, rng):
    return np.zeros((E.n("n"),), dtype=complex) + np.array(E.arr("a", (E.n("n"),)).real, dtype=float)
def dt_truncated(np, E, rng):
    return (2.5 * E.arr("a", (E.n("n"),), dt="f")).astype(int)
def dt_truncated2(np, E, rng):
    out = np.zeros((E.n("n"),), dtype=int)
    out[:] = 3 * E.arr("a", (E.n("n"),), dt="f")
    return out
def dt_truncated3(np, E, rng):
    return np.array(3 * E.arr("a", (E.n("n"),), dt="f"), dtype=int)
def dt_inplace(np, E, rng):
    a = E.arr("a", (E.n("n"),), dt="f")
    a *= E.arr("b", (E.n("n"),), dt="f")
    return a
def dt_inplace4(np, E, rng):
    a = E.arr("a", (E.n("n"),), dt="f").copy()
    b = a
    b **= 2
    return a
def dt_inplace5(np, E, rng):
    a = np.arange(E.n("n"), dtype=int)
    b = a
    b %= 2
    return a
def dt_inplace6(np, E, rng):
    a = np.arange(E.n("n"), dtype=int)
    b = a
    b //= 2
    return a
def dt_inplace2(np, E, rng):
    a = E.arr("a", (E.n("n"),), dt="f").copy()
    try:
        a *= E.arr("b", (E.n("n"),))
    except TypeError:
        a[:] = 0
    return a
def dt_inplace3(np, E, rng):
    a = np.arange(E.n("n"), dtype=int)
    try:
        a /= 2
    except TypeError:
        a[:] = 0
    return a
def nd_rows(np, E, rng):
    n, m = E.n("n"), E.n("m")
    v, out = E.arr("v", [n * m]), np.zeros((n * m, 2), dtype=complex)
    for i, idx in enumerate(np.ndindex((n, m))):
        out[i, idx[1] // m] = v[i] + idx[0] * 10 + idx[1]
    return out
def nd_cells(np, E, rng):
    n, m = E.n("n"), E.n("m")
    a, out = E.arr("v", [n, m]), np.zeros((n, m), dtype=complex)
    for idx in np.ndindex((n, m)):
        out[idx] = a[idx] * (idx[0] + 2 * idx[1])
    return out
def nd_shifted(np, E, rng):
    n, m = E.n("n"), E.n("m")
    out = np.zeros((n * m,), dtype=complex)
    for i, idx in enumerate(np.ndindex((n, m))):
        out[idx[0]] = i
    return out
def dt_half(np, E, rng):
    return np.arange(E.n("n"), dtype=int).astype(float) / 2
"""


def _scalar_loop(name):
    def prog(np, E):
        if E.mode == "num":
            g = {}
            exec(_SCALARS, g)
            return g[name](np, E, range(E.n("n")))
        import ast

        g = {"__builtins__": loader.make_builtins(np, None)}
        exec(compile(ast.fix_missing_locations(loader.Rewriter().visit(ast.parse(_SCALARS))), "loops", "exec"), g)
        return g[name](np, E, loops.SymRange(0, E.n("n")))

    return prog


for _k in ("carried", "carried_array", "collected", "collected_dict", "left", "left2", "one_by_one", "one_by_one2", "one_by_one3", "previous", "temporary", "unpacked", "setcomp", "contains"):
    TESTS[f"loop_{_k}"] = _scalar_loop(_k)
    if _k != "temporary":
        MAY_RAISE.add(f"loop_{_k}")
for _k in ("arange", "real_part", "real_part2", "truncated", "truncated2", "truncated3", "inplace", "inplace2", "inplace3", "inplace4", "inplace5", "inplace6", "half"):
    TESTS[f"dtype_{_k}"] = _scalar_loop("dt_" + _k)
    MAY_RAISE.add(f"dtype_{_k}")
for _k in ("rows", "cells", "shifted"):
    TESTS[f"nd_{_k}"] = _scalar_loop("nd_" + _k)
    MAY_RAISE.add(f"nd_{_k}")
for _k in range(60):
    TESTS[f"loop_random_{_k}"] = lambda np, E, p=_loop_prog(_k): p(np, E)
    MAY_RAISE.add(f"loop_random_{_k}")
for _k in (1, 0, -1):
    TESTS[f"loop_shift_{_k}"] = lambda np, E, d=_k: _loop_shift(np, E, d)
    MAY_RAISE.add(f"loop_shift_{_k}")
for _k in (0, 1):
    TESTS[f"loop_two_{_k}"] = lambda np, E, d=_k: _loop_two(np, E, d)
    MAY_RAISE.add(f"loop_two_{_k}")
TESTS["loop_hops"] = lambda np, E: _loop_hops(np, E)


def check_models(verbose=False):
    loops.STACK.clear()
    simple()
    shim = npshim.numpy_shim()
    npshim.USED.clear()
    bad, skipped, n = [], [], 0
    for name, f in TESTS.items():
        supported = False
        for k, sizes in enumerate(SIZES):
            try:
                r = run(name, f, sizes, shim, seed=k)
            except Exception as e:  # noqa: BLE001
                if verbose:
                    import traceback

                    traceback.print_exc()
                r = f"{type(e).__name__}: {e}"
            n += 1
            if r == "skip":
                continue
            supported = True
            if r is not None:
                bad.append((name, sizes, r))
                break
        if not supported:
            skipped.append(name)
    untested = sorted(set(npshim.MODELS) - npshim.USED - OTHER)
    return n, bad, skipped, untested


def main():
    loader.install()
    broken = loader.import_all()
    load_contracts()
    print("modules that do not import:", broken)
    t0 = time.time()
    n, bad, skipped, untested = check_models("-v" in sys.argv)
    for name, sizes, why in bad:
        print(f"MODEL {name} at {sizes}: {why}")
    print(f"{n} runs of {len(TESTS)} programs against numpy in {time.time() - t0:.1f}s: {len(bad)} disagree; outside the models (refused, not guessed): {skipped}; models without a program: {untested}")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
