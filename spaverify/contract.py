"""Contracts: registry and the symbolic evaluation context."""
from __future__ import annotations

import functools
import importlib
import inspect
import itertools
import time
import traceback
from fractions import Fraction

import numpy as np

from . import expr as X
from . import loader, logic, loops, npshim, simp, sym
from .expr import E, Expr, ite_conj
from .logic import FALSE, TRUE, Budget, Ctx, SymError, Unsupported, entailed, eq, ge, le, lt, neg
from .poly import ONE, ZERO, P, Poly
from .sym import Explorer, PathEnd, SBool, SExpr, SInt, SymArray, SymList, as_sym, fresh_range, gprod, lower, mkbool, mkint, mkscalar, sl, split_index

PKG = loader.PKG
REG: dict = {}          # contract name -> Contract
BY_TARGET: dict = {}


class Contract:
    def __init__(self, name, cls, target, props, cases, kind):
        self.name, self.cls, self.target, self.props, self.kind = name, cls, target, tuple(props), kind
        self.cases = cases
        self.timeout = getattr(cls, "timeout", 60)
        self.thorough_only = getattr(cls, "thorough_only", False)
        self.samples = getattr(cls, "samples", 12)
        self.bounded = getattr(cls, "bounded", False)
        self.replaces = getattr(cls, "replaces", True)
        self.inline = set(getattr(cls, "inline", ()))
        self.expect_raise = getattr(cls, "expect_raise", None)
        self.mutates = set(getattr(cls, "mutates", ()))
        self.doc = (cls.__doc__ or "").strip()

    def case_list(self, tier="quick"):
        c = self.cases
        c = c(tier) if callable(c) else c
        return list(c) if c else [{}]

    @property
    def has_result(self):
        return hasattr(self.cls, "result")


def contract(target, props, cases=None, name=None):
    """Contract on the repository function `module:function`."""

    def deco(cls):
        nm = name or target
        assert nm not in REG, nm
        c = Contract(nm, cls, target, props, cases, "contract")
        REG[nm] = c
        if target not in BY_TARGET and c.replaces and c.has_result:
            BY_TARGET[target] = c
        return cls

    return deco


def lemma(name, props, cases=None):
    """A composed property: client code verified against the contracts of what it calls."""

    def deco(cls):
        assert name not in REG, name
        REG[name] = Contract(name, cls, None, props, cases, "lemma")
        return cls

    return deco


def product_cases(**axes):
    keys = list(axes)
    return [dict(zip(keys, v)) for v in itertools.product(*axes.values())]


# ---------------------------------------------------------------- common spec helpers
class Common:
    def mod(self, name):
        return importlib.import_module(f"{PKG}.{name}")

    def fn(self, qual):
        m, a = qual.split(":")
        o = self.mod(m)
        for part in a.split("."):
            if isinstance(o, type):
                st = inspect.getattr_static(o, part)
                if isinstance(st, property):
                    o = st.fget
                    continue
                if isinstance(st, functools.cached_property):
                    o = st.func
                    continue
            o = getattr(o, part)
        return o

    def delta(self, *pairs):
        """Kronecker delta of pairs (a,b,c,d) -> [a==b][c==d]."""
        conds = [self.eq(pairs[k], pairs[k + 1]) for k in range(0, len(pairs), 2)]
        return self.ite(conds, lambda: 1, lambda: 0)

    def basis(self, name):
        return getattr(self.mod("basis.basis"), name)

    def tuple_basis(self, *b):
        return self.mod("basis.stacked_basis").TupleBasis(*b)


# ---------------------------------------------------------------- symbolic context
class Failure:
    def __init__(self, what, detail, model=None):
        self.what, self.detail, self.model = what, detail, model


def expectation(e):
    """Over the numbers drawn (npshim.SymRng), which are independent with mean 0 and variance 1."""
    out = {}
    for (mono, ex, bvs, guards), c in e.d.items():
        drawn, rest = [], []
        for a, k in mono:
            if a[0] == "app" and a[1].startswith("rnd!"):
                if k.denominator != 1 or k < 0:
                    raise Unsupported("power of a random number")
                drawn += [a] * int(k)
            elif "rnd!" in repr(a):
                raise Unsupported("expectation of a function of random numbers")
            else:
                rest.append((a, k))
        if len(drawn) > 2:
            raise Unsupported("moment of a higher order")
        if len(drawn) == 1 or (drawn and drawn[0][1] != drawn[1][1]):
            continue
        g = set(guards)
        if drawn:
            g |= {logic.eq(p, q) for p, q in zip(drawn[0][2], drawn[1][2])}
        if logic.FALSE in g:
            continue
        g.discard(logic.TRUE)
        X._acc(out, (X.m_norm(dict(rest)), ex, bvs, frozenset(g)), c)
    return X._fold(Expr(out))


class SymC(Common):
    mode = "sym"

    def __init__(self, contract, case, stubs=True):
        self.contract, self.case = contract, case
        self.ok: list = []
        self.fail: list = []
        self.inputs: list = []
        self.names: dict = {}
        self.checking = None      # name prefix when used to check a callee precondition
        self.sizes: dict = {}
        self.stubs = stubs
        self.used_contracts: set = set()
        self.used_inputs: dict = {}

    # ---- inputs
    def size(self, name, lo=1, hi=None):
        a = ("sz", name)
        logic.CTX.size_lo[a] = lo if isinstance(lo, int) and type(lo) is not SInt else 1
        p = Poly.atom(a)
        if type(lo) is SInt:
            self._fact(ge(p - P(lo)))
        if hi is not None:
            self._fact(ge(P(hi) - p))
        self.sizes[name] = p
        return mkint(p)

    def int(self, name, lo=None, hi=None):
        a = ("ix", name)
        p = Poly.atom(a)
        if lo is not None:
            self._fact(ge(p - P(lo)))
        if hi is not None:
            self._fact(ge(P(hi) - p))
        self.sizes[name] = p
        return mkint(p)

    def _fact(self, l):
        if l != TRUE:
            logic.CTX.facts.append(l)

    def real(self, name, pos=False):
        return SExpr(Expr.atom(("r", name, bool(pos))))

    def complex(self, name):
        return SExpr(Expr.app(name, ()))

    def array(self, name, dims, dt="c", pos=False, lo=None, hi=None):
        groups = [tuple(P(s) for s in (d if isinstance(d, tuple) else (d,))) for d in dims]
        if dt != "c":
            X.REAL.add(name)
        if pos:
            X.POS.add(name)
        a = SymArray(groups, lambda idx: Expr.app(name, idx), "c" if dt == "c" else dt, name=name, c=True)
        if dt == "i":
            logic.CTX.ia_bounds[name] = (None if lo is None else P(lo), None if hi is None else P(hi))
            a = SymArray(groups, lambda idx: Expr.poly(Poly.atom(("ia", name, tuple(idx)))), "i", name=name, c=True)
        self.inputs.append((name, a, a.store.writes))
        return a

    def vector(self, name, n, pos=False):
        """Concrete-length vector of real unknowns (a numpy object array)."""
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.real(f"{name}{i}", pos)
        self.inputs.append((name, out, list(out)))
        return out

    def matrix(self, name, n, m):
        out = np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                out[i, j] = self.real(f"{name}{i}{j}")
        self.inputs.append((name, out, list(out.ravel())))
        return out

    def const_array(self, vals, dt="f"):
        return as_sym(np.array(vals))

    def second_moment(self, draw, dims, conj=True):
        """E[f(i) conj(f(j))] (or E[f(i) f(j)]) of the array that draw() gives from normally distributed numbers, and E[f(i)]."""
        f = self.at(draw(), dims)
        n = len(dims)
        dims = [tuple(x for d in dims for x in (d if isinstance(d, tuple) else (d,)))]
        g = (lambda *j: self.conj(f(*j))) if conj else f
        return (self.lam([dims[0] * 2], lambda *i: mkscalar(expectation(E(f(*i[:n])) * E(g(*i[n:]))))),
                self.lam(dims, lambda *i: mkscalar(expectation(E(f(*i))))))

    def items(self, x, key=None):
        """(number of elements, element) of a list, which may have a symbolic length."""
        if type(x) is SymList:
            return x.symlen(), lambda i: x.fn(P(i))
        x = list(x)
        return len(x), lambda i: x[i]

    def number(self, text):
        """The number written as text."""
        v = sym.text_value(text)
        return v if v is not None else mkscalar(E(Fraction(text.strip())))

    def list_of(self, n, fn):
        """The list of fn(i) for i in range(n)."""
        return SymList(P(n), lambda p: fn(mkint(p)))

    def lin_basis(self, *a, **k):
        return self.abs_basis(*a, **k)

    def abs_basis(self, name, kind="F", n=None, fn=None, complete=False, delta_x=None, real=False):
        """An arbitrary basis satisfying the basis interface contract.

        kind F: implements the fundamental side, T: the transformed side."""
        n = self.size(f"{name}_n") if n is None else n
        if fn is None:
            fn = n if complete else self.size(f"{name}_N", lo=n)
        mname = f"M_{name}"
        X.RULES.append(simp.PairRule(mname, 1, P(fn)))
        if complete:
            X.RULES.append(simp.PairRule(mname, 0, P(n)))
        if real:
            X.REAL.add(mname)
        return make_abs_basis(self, name, kind, n, fn, lambda i, f: SExpr(Expr.app(mname, (P(i), P(f)))), delta_x)

    def linear_op(self, v, n_in, n_out, axis, kernel):
        """out[..o..] = sum_i v[..i..] kernel(i, o) along an axis."""
        v = as_sym(v)
        ax = sym.norm_axis(axis, v.ndim)
        d = gprod(v.groups[ax])
        if not sym.dims_equal(d, P(n_in)) and not sym.choose(eq(d, P(n_in))):
            raise SymError(f"vector axis has length {d!r}, basis has {P(n_in)!r} states")
        v = v.coarse(ax)
        pos = sum(len(g) for g in v.groups[:ax])
        g = v.snapshot()
        ng = [*v.groups[:ax], (P(n_out),), *v.groups[ax + 1:]]

        def fn(idx):
            def body(full):
                return g(tuple(full)) * E(kernel(mkint(full[pos]), mkint(idx[pos])))

            full = list(idx)
            full[pos] = None
            return sym.sum_slots(body, full, [(pos, d)])

        return SymArray(ng, fn, "c")

    def cplx(self, v):
        v = as_sym(v)
        return SymArray(v.groups, v.snapshot(), "c")

    def conj_array(self, v):
        v = as_sym(v)
        g = v.snapshot()
        return SymArray(v.groups, lambda idx: g(idx).conj(), v.dt)

    def regroup(self, v, ax, sizes):
        if len(sizes) == 1:
            return v
        v = as_sym(v)
        return sym.reshape(v, (*v.shape[:ax], *sizes, *v.shape[ax + 1:]))

    def ungroup(self, v, ax, k):
        if k == 1:
            return v
        v = as_sym(v)
        groups = [*v.groups[:ax], tuple(s for g in v.groups[ax:ax + k] for s in g), *v.groups[ax + k:]]
        return SymArray(groups, v.snapshot(), v.dt)

    def hermitian(self, name, n):
        """An arbitrary hermitian matrix (flat indices)."""
        at = self.at(self.array(name, [n, n]))
        return self.lam([n, n], lambda i, j: (at(i, j) + self.conj(at(j, i))) / 2)

    def eig(self, m):
        return npshim.eig(m)

    def rem(self, x, m):
        """x modulo m, real numbers"""
        return mkscalar(sym.real_mod(E(x), E(m)))

    def exp_array(self, x):
        return sym.ew1(as_sym(x), X.exp, "c")

    def eigh(self, m):
        return npshim.eigh(m)

    def inv(self, m):
        return npshim.inv(m)

    def svd(self, m):
        return npshim.svd(m, full_matrices=False)

    # ---- spec language
    def lam(self, dims, fn, dt="c"):
        groups = [tuple(P(s) for s in (d if isinstance(d, tuple) else (d,))) for d in dims]

        def get(idx):
            return E(fn(*[mkint(i) for i in idx]))

        return SymArray(groups, get, dt)

    def at(self, arr, dims=None, split=False):
        a = as_sym(arr)
        if dims is not None:
            a = sym.reshape(a, tuple(dims))
        g = a.snapshot()
        gr = a.groups

        def acc(*idx):
            if len(idx) != len(gr):
                raise SymError(f"spec: array of dimension {len(gr)} indexed with {len(idx)} indices")
            flat = []
            for d, i in zip(gr, idx):
                flat += split_index(d, P(i))
            e = g(tuple(flat))
            return mkscalar(e, "i" if a.dt == "i" else None)

        return acc

    def sum(self, n, fn):
        if not isinstance(n, (tuple, list)):
            n = (n,)
        out = None
        slots = [(k, P(s)) for k, s in enumerate(n)]
        return mkscalar(sym.sum_slots(lambda full: E(fn(*[mkint(i) for i in full])), [None] * len(n), slots))

    def cis(self, num, den=1):
        """exp(2 pi i num / den), integers."""
        return mkscalar(Expr.cis(P(num), P(den)))

    def expi(self, x):
        return mkscalar(X.exp(E(x) * X.I))

    def ite(self, cond, a, b):
        conds = cond if isinstance(cond, (list, tuple)) else [cond]
        lits = []
        for c in conds:
            if type(c) is SBool:
                d = logic.decide(c.lit)
                if d is True:
                    continue
                if d is False:
                    lits = None
                    break
                lits.append(c.lit)
            elif not c:
                lits = None
                break
        if lits is None:
            return b() if callable(b) else b
        if not lits:
            return a() if callable(a) else a
        n = logic.CTX.push(lits)
        try:
            dead = logic.inconsistent()
            va = E(0) if dead else E(a() if callable(a) else a)
        finally:
            logic.CTX.pop(n)
        vb = E(b() if callable(b) else b)
        return mkscalar(ite_conj(lits, va, vb))

    def eq(self, a, b):
        if any(type(v) in (SExpr, float, Expr) for v in (a, b)):
            r = sym.real_cmp(E(a), E(b), "==")
            return r
        return mkbool(eq(P(a), P(b)))

    def ne(self, a, b):
        if any(type(v) in (SExpr, float, Expr) for v in (a, b)):
            r = sym.real_cmp(E(a), E(b), "==")
            return (not r) if type(r) is bool else SBool(neg(r.lit))
        return mkbool(neg(eq(P(a), P(b))))

    def le(self, a, b):
        if any(type(v) in (SExpr, float, Expr) for v in (a, b)):
            r = sym.real_cmp(E(a), E(b), "<=")
            return r
        return mkbool(le(P(a), P(b)))

    def lt(self, a, b):
        if any(type(v) in (SExpr, float, Expr) for v in (a, b)):
            r = sym.real_cmp(E(a), E(b), "<")
            return r
        return mkbool(lt(P(a), P(b)))

    def mod_(self, a, n):
        return mkint(logic.fmod(P(a), P(n)))

    def div(self, a, n):
        return mkint(logic.fdiv(P(a), P(n)))

    def sqrt(self, x):
        return mkscalar(X.sqrt(E(x)))

    def exp(self, x):
        return mkscalar(X.exp(E(x)))

    def min(self, a):
        return sym.extremum(a, "min", None)

    def max(self, a):
        return sym.extremum(a, "max", None)

    def argsort(self, a):
        return sym.argsort(a)

    def range(self, n):
        from . import loops

        return loops.SymRange(0, n)

    def len(self, x):
        return x.symlen() if hasattr(x, "symlen") else len(x)

    def argmax(self, a):
        return sym.argextremum(a, "max")

    def argmin(self, a):
        return sym.argextremum(a, "min")

    def log(self, x):
        return mkscalar(X.log(E(x)))

    def pow(self, x, k):
        """x ** k for a positive x"""
        e = X.simplify(E(x))
        if isinstance(k, int) and not isinstance(k, SInt):
            return mkscalar(e ** k)
        if not X.is_pos_expr(e):
            raise Unsupported("power of a base not known to be positive")
        return mkscalar(X.pos_pow(e, E(k)))

    def cos(self, x):
        return mkscalar(sym.cos(E(x)))

    def sin(self, x):
        return mkscalar(sym.sin(E(x)))

    def conj(self, x):
        return mkscalar(E(x).conj())

    def isclose(self, a, b):
        return mkscalar(X.close(E(a), E(b)))

    def integral(self, fn, a, b):
        return npshim.quad(fn, a, b)[0]

    def function(self, name, real=False):
        """A function of one real number about which nothing is known"""
        k = "opaque_r" if real else "opaque_c"
        return lambda x: npshim.fin(sym.ew1(as_sym(x), lambda e: X.fn(k, name, e), "f" if real else "c"))

    def unit(self, x):
        """x / |x|, 1 where x is zero"""
        return mkscalar(X.unit(E(x)))

    def angle(self, x):
        return mkscalar(X.angle(E(x)))

    def re(self, x):
        return mkscalar(sym.realpart(E(x)))

    def abs(self, x):
        return mkscalar(npshim.absval(E(x)))

    def im(self, x):
        return mkscalar(sym.imagpart(E(x)))

    def abs2(self, x):
        return mkscalar(E(x) * E(x).conj())

    @property
    def I(self):
        return SExpr(X.I)

    @property
    def pi(self):
        return SExpr(Expr.atom(X.PI))

    def const(self, name):
        """Physical constant."""
        return SExpr(Expr.atom(("r", name, True)))

    def frac(self, a, b):
        return mkscalar(E(Fraction(a, b)))

    # ---- logic
    def require(self, cond):
        """Assumption on inputs; obligation at call sites."""
        l = cond.lit if type(cond) is SBool else (TRUE if cond else FALSE)
        if self.checking is None:
            if l == FALSE:
                raise PathEnd
            logic.CTX.facts.append(l)
            if logic.inconsistent():
                raise PathEnd
        elif l[0] == "b":
            self._fact(l)
        elif not entailed(l):
            self._record(f"{self.checking}", False, f"precondition {logic.lit_str(l)} not established", neg(l))
        else:
            self._record(f"{self.checking}", True)

    def branch(self, cond):
        return bool(cond)

    def ensure(self, name, cond):
        l = cond.lit if type(cond) is SBool else (TRUE if cond else FALSE)
        if entailed(l):
            self._record(name, True)
        else:
            self._record(name, False, f"not shown: {logic.lit_str(l)}", neg(l))

    def _record(self, name, ok, detail="", extra=None, facts=None):
        if ok:
            self.ok.append(name)
        else:
            self.fail.append(Failure(name, detail, self._model(extra, facts)))

    def _model(self, extra=None, facts=None):
        """Small integer model of the failing facts (sizes only)."""
        try:
            fs = [f for f in (facts if facts is not None else logic.CTX.facts) if f[0] != "b"]
            if extra is not None and extra[0] != "b":
                fs = [*fs, extra]
            for bound in (3, 4, 6, 10, 40, 400, None):
                lim = [] if bound is None else [le(p, bound) for p in self.sizes.values()] + [le(-bound, p) for p in self.sizes.values()]
                r, m = logic.model_check([*fs, *lim], 1500, want_model=True)
                if r == "sat":
                    out = {}
                    for name in self.sizes:
                        import z3

                        v = m.eval(z3.Int(name), model_completion=True)
                        out[name] = v.as_long()
                    return out
        except Exception:  # noqa: BLE001
            return None
        return None

    def equal(self, name, actual, expected):
        """actual == expected (arrays, scalars, bases, dictionaries, tuples)."""
        _equal(self, name, actual, expected)

    def zero(self, name, e):
        e = E(e)
        p = simp.Proof()
        n = len(logic.CTX.facts)
        try:
            ok = simp.prove_zero(e, p)
        finally:
            del logic.CTX.facts[n:]
        if ok:
            self._record(name, True)
        else:
            self._record(name, False, f"residual: {str(p.residual)[:1500]}\n under {[logic.lit_str(l) for l in (p.facts or [])]}", None, p.facts)

    def check_frame(self):
        for name, a, w in self.inputs:
            if name in self.contract.mutates:
                continue
            if type(a) is SymArray:
                self._record(f"frame:{name}", a.root().store.writes == w, f"argument {name} is written to")
            else:
                same = len(a.ravel()) == len(w) and all(x is y for x, y in zip(a.ravel(), w))
                self._record(f"frame:{name}", same, f"argument {name} is written to")


def is_basis(o):
    return hasattr(o, "fundamental_n") and hasattr(o, "n")


def _equal(C, name, a, b):
    if isinstance(b, dict):
        if not isinstance(a, dict):
            C._record(name, False, f"expected a dict, got {type(a).__name__}")
            return
        for k in b:
            if k not in a:
                C._record(f"{name}.{k}", False, "missing key")
            else:
                _equal(C, f"{name}.{k}", a[k], b[k])
        if set(a) - set(b):
            C._record(name, False, f"unexpected keys {set(a) - set(b)}")
        return
    if is_basis(b):
        ok, why = same_basis(a, b)
        C._record(name, ok, why)
        return
    if isinstance(b, str) or b is None:
        C._record(name, a == b, f"{a!r} != {b!r}")
        return
    if type(b) in (tuple, list):
        if type(a) is SymList or type(b) is SymList:
            a = as_sym(a)
        elif type(a) in (tuple, list):
            if len(a) != len(b):
                C._record(name, False, f"length {len(a)} != {len(b)}")
                return
            for k, (x, y) in enumerate(zip(a, b)):
                _equal(C, f"{name}[{k}]", x, y)
            return
    x, y = as_sym(a), as_sym(b)
    if x.ndim != y.ndim:
        C._record(name, False, f"dimension {x.ndim} (shape {x.shape}) != {y.ndim} (shape {y.shape})")
        return
    for k in range(x.ndim):
        if not sym.dims_equal(gprod(x.groups[k]), gprod(y.groups[k])):
            C._record(f"{name}.shape", False, f"shape {x.shape} != {y.shape}", neg(eq(gprod(x.groups[k]), gprod(y.groups[k]))))
            return
    groups, (vx, vy) = sym.bcast_groups([x, y])
    idx, facts, sizes = [], [], []
    for g in groups:
        for s in g:
            if s == ONE:
                idx.append(ZERO)
                continue
            v, p, f = fresh_range(s, "e")
            idx.append(p)
            facts += f
    n = logic.CTX.push(facts)
    try:
        if logic.inconsistent():
            C._record(name, True)
            return
        with sym.generic_section():
            gx = vx.snapshot()(sym._proj(groups, vx)(tuple(idx)))
            gy = vy.snapshot()(sym._proj(groups, vy)(tuple(idx)))
        C.zero(name, gx - gy)
    finally:
        logic.CTX.pop(n)


def same_basis(a, b):
    if a is b:
        return True, ""
    if type(a).__name__ != type(b).__name__:
        return False, f"basis type {type(a).__name__} != {type(b).__name__}"
    if getattr(b, "_spa_abs", False):
        return False, f"different basis objects {a!r} {b!r}"
    if hasattr(b, "_axes"):
        if len(a._axes) != len(b._axes):
            return False, f"basis with {len(a._axes)} axes != {len(b._axes)}"
        for x, y in zip(a._axes, b._axes):
            r = same_basis(x, y)
            if not r[0]:
                return r
        return True, ""
    for attr in ("n", "fundamental_n", "offset", "step", "_offset", "_step"):
        if hasattr(b, attr):
            u, v = getattr(a, attr), getattr(b, attr)
            if isinstance(u, (int, np.integer)) or type(u) is SInt:
                if not entailed(eq(P(u), P(v))):
                    return False, f"{type(b).__name__}.{attr}: {u!r} != {v!r}"
    for attr in ("delta_x", "delta_x_stacked", "delta_t", "dt", "_delta_t", "_dt"):
        if hasattr(b, attr):
            u, v = as_sym(getattr(a, attr)), as_sym(getattr(b, attr))
            if u.ndim != v.ndim or any(not sym.dims_equal(p, q) for p, q in zip(u.dims, v.dims)):
                return False, f"{attr}: shape"
            lu, lv = lower(u), lower(v)
            for p, q in zip(np.ravel(np.asarray(lu, dtype=object)), np.ravel(np.asarray(lv, dtype=object))):
                if not simp.prove_zero(E(p) - E(q)):
                    return False, f"{attr}: {lu!r} != {lv!r}"
    return True, ""


# ---------------------------------------------------------------- abstract bases
def make_abs_basis(C, name, kind, n, fn, M, delta_x):
    """Class implementing the basis interface from its matrix M(i, f).

    kind F: M is in the fundamental representation, T: in the transformed one."""
    bl = C.mod("basis.basis_like")
    root = bl.BasisWithLengthLike if delta_x is not None else bl.BasisLike
    body = {"_spa_abs": True, "name": name, "kind": kind}
    body["n"] = property(lambda self: n)
    body["fundamental_n"] = property(lambda self: fn)
    body["__repr__"] = lambda self: f"<basis {name}>"
    if delta_x is not None:
        body["delta_x"] = property(lambda self: delta_x)

    def fwd(self, vectors, axis=-1):
        return C.linear_op(vectors, n, fn, axis, lambda i, f: M(i, f))

    def bwd(self, vectors, axis=-1):
        return C.linear_op(vectors, fn, n, axis, lambda f, i: M(i, f).conjugate())

    if kind == "F":
        body["__into_fundamental__"] = fwd
        body["__from_fundamental__"] = bwd
        body["M"] = lambda self, i, f: M(i, f)
        bases = (root,)
    else:
        body["__as_transformed__"] = fwd
        body["__from_transformed__"] = bwd
        body["MT"] = lambda self, i, k: M(i, k)
        body["M"] = lambda self, i, f: C.sum(fn, lambda k: M(i, k) * C.cis(k * f, fn)) / C.sqrt(fn)
        bases = (bl.AsTransformedBasis, root)
    # AsTransformedBasis / BasisLike are protocols: create a concrete subclass
    body["__init__"] = lambda self: None
    cls = type(f"Abs{kind}", bases, body)
    cls.__abstractmethods__ = frozenset()
    return cls()


# ---------------------------------------------------------------- dispatch of contracted calls
class Current:
    C = None
    depth = 0
    inline: set = set()


def dispatcher(con):
    def factory(orig):
        is_method = "." in con.target.split(":")[1]
        sig = inspect.signature(orig)

        def disp(*a, **k):
            C = Current.C
            if C is None or Current.depth == 0 or not C.stubs or (con.target == C.contract.target and not getattr(C.contract.cls, 'recursive', False)) or con.target in Current.inline or loops.STACK and not getattr(con.cls, "in_loops", True):
                if C is not None and Current.depth == 0:
                    Current.depth += 1
                    try:
                        return orig(*a, **k)
                    finally:
                        Current.depth -= 1
                return orig(*a, **k)
            try:
                ba = sig.bind(*a, **k)
            except TypeError as e:
                raise SymError(f"call of {con.target}: {e}") from e
            ba.apply_defaults()
            for k_, v_ in list(ba.arguments.items()):
                if hasattr(v_, "__next__"):
                    ba.arguments[k_] = list(v_)
            if hasattr(con.cls, "applies") and not con.cls.applies(C, *ba.args, **ba.kwargs):
                return orig(*a, **k)
            C.used_contracts.add(con.name)
            old = C.checking
            C.checking = f"pre:{con.target}"
            try:
                if hasattr(con.cls, "requires"):
                    con.cls.requires(C, *ba.args, **ba.kwargs)
                d0 = Current.depth
                Current.depth = 1
                try:
                    return con.cls.result(C, *ba.args, **ba.kwargs)
                finally:
                    Current.depth = d0
            finally:
                C.checking = old

        disp.__name__ = getattr(orig, "__name__", "disp")
        disp.__wrapped__ = orig
        return disp

    return factory


_installed = set()


def install_dispatch():
    missing = []
    for t, con in BY_TARGET.items():
        if t in _installed:
            continue
        try:
            loader.patch(t, dispatcher(con))
            _installed.add(t)
        except TypeError:            # a property: always executed inline
            _installed.add(t)
        except (AttributeError, ImportError, KeyError):
            missing.append(t)
    return missing


def call_target(C, con, args, kwargs):
    f = C.fn(con.target)
    Current.depth = 0
    if not isinstance(f, type) and getattr(f, "__wrapped__", None) is None or "." in con.target.split(":")[1]:
        Current.depth = 1
    try:
        return f(*args, **kwargs)
    finally:
        Current.depth = 0


# ---------------------------------------------------------------- verification of one case
class CaseResult:
    def __init__(self):
        self.ok = 0
        self.names: list = []
        self.failures: list = []
        self.unsupported = None
        self.paths = 0
        self.used: set = set()
        self.wall = 0.0
        self.stats: dict = {}


def verify_case(con, case, timeout=60, max_paths=400) -> CaseResult:
    res = CaseResult()
    t0 = time.time()
    logic.STATS.__init__()
    ex = Explorer()
    ex.work.append([])
    try:
        while ex.work:
            prefix = ex.work.pop()
            ex.prefix, ex.pos, ex.trace = prefix, 0, []
            sym.set_explorer(ex)
            ctx = Ctx()
            ctx.deadline = t0 + timeout
            logic.set_ctx(ctx)
            X.reset_registry()
            loops.STACK.clear()
            sym.GENERIC[0] = 0
            C = SymC(con, case)
            Current.C = C
            Current.inline = con.inline
            Current.depth = 0
            try:
                run_path(C, con, case)
            except PathEnd:
                pass
            res.paths += 1
            res.ok += len(C.ok)
            res.names += C.ok
            res.failures += C.fail
            res.used |= C.used_contracts
            if C.fail:
                break
            if res.paths > max_paths:
                raise Budget("too many paths")
    except (Unsupported, Budget) as e:
        res.unsupported = f"{type(e).__name__}: {e}"
        if not isinstance(e, Budget):
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb if "surface_potential" in f.filename]
            if fr:
                res.unsupported += " at " + fr[-1]
    except RecursionError as e:
        res.unsupported = f"RecursionError: {e}"
    except Exception as e:  # noqa: BLE001
        res.unsupported = f"engine: {type(e).__name__}: {e} " + traceback.format_exc()[-1800:]
    finally:
        Current.C = None
    res.wall = time.time() - t0
    res.stats = {"z3_queries": logic.STATS.queries, "z3_s": logic.STATS.z3_time, "quick": logic.STATS.quick, "unknown": logic.STATS.unknown}
    return res


CODE_ERRORS = (AssertionError, ValueError, IndexError, KeyError, ZeroDivisionError)


def run_path(C, con, case):
    """Symbolic execution of one path; the code's own numpy assertions are obligations where the contract asks for it."""
    npshim.ASSERT_HOOK[0] = (lambda a, b: C.equal("assertion", a, b)) if getattr(con.cls, "asserts", False) else None
    sym.TEXT[0] = {} if getattr(con.cls, "text", False) else None
    try:
        _run_path(C, con, case)
    finally:
        npshim.ASSERT_HOOK[0] = None
        sym.TEXT[0] = None


def _run_path(C, con, case):
    try:
        _run_path1(C, con, case)
    except UnboundLocalError as e:
        raise Unsupported(f"a name without a value, or one carried from one iteration of a loop of symbolic length to the next: {e} {_where(e)}") from e


def _run_path1(C, con, case):
    cls = con.cls
    if con.kind == "lemma":
        try:
            Current.depth = 1
            cls.body(C, **case)
        except SymError as e:
            C._record("no-exception", False, f"code would raise: {e} {_where(e)}")
            return
        except AssertionError as e:
            C._record("no-exception", False, f"assertion fails: {e} {_where(e)}")
            return
        C.check_frame()
        return
    args = cls.inputs(C, **case)
    kwargs = {}
    if isinstance(args, dict):
        args, kwargs = (), args
    elif len(args) == 2 and isinstance(args, tuple) and isinstance(args[0], tuple) and isinstance(args[1], dict) and getattr(cls, "has_kwargs", False):
        args, kwargs = args
    f = C.fn(con.target)
    ba = inspect.signature(f).bind(*args, **kwargs)
    ba.apply_defaults()
    if hasattr(cls, "requires"):
        cls.requires(C, *ba.args, **ba.kwargs)
    if logic.inconsistent():
        raise PathEnd
    # the expected value is computed on snapshots taken before the call
    pre = freeze_args(ba)
    try:
        out = call_target(C, con, args, kwargs)
    except SymError as e:
        if con.expect_raise and con.expect_raise(C, *ba.args, **ba.kwargs):
            C._record("raises", True)
            return
        C._record("no-exception", False, f"code would raise: {e} {_where(e)}")
        return
    except UnboundLocalError:
        raise
    except CODE_ERRORS as e:
        if con.expect_raise and con.expect_raise(C, *ba.args, **ba.kwargs):
            C._record("raises", True)
            return
        if isinstance(e, AssertionError) or in_repo(e):
            C._record("no-exception", False, f"{type(e).__name__}: {e} {_where(e)}")
            return
        raise
    C._record("no-exception", True)
    Current.depth = 1
    try:
        if hasattr(cls, "result"):
            C.equal("result", out, cls.result(C, *pre.args, **pre.kwargs))
        if hasattr(cls, "ensures"):
            cls.ensures(C, out, *pre.args, **pre.kwargs)
    except SymError as e:
        C._record("postcondition", False, f"postcondition not applicable: {e}")
    C.check_frame()


def in_repo(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and "/spaverify/" not in last


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f"{f.filename.split(PKG + '/')[-1]}:{f.lineno}" for f in tb if PKG in f.filename]
    return f"(at {fr[-1]})" if fr else ""


def freeze_args(ba):
    """Replace mutable inputs by immutable snapshots for the specification."""

    def fz(x):
        if type(x) is SymArray:
            return SymArray(x.groups, x.snapshot(), x.dt, c=x.corder)
        if isinstance(x, dict):
            return {k: fz(v) for k, v in x.items()}
        if type(x) in (tuple, list):
            return type(x)(fz(v) for v in x)
        if type(x) is np.ndarray:
            return x.copy()
        return x

    import copy

    b = copy.copy(ba)
    b.arguments = {k: fz(v) for k, v in ba.arguments.items()}
    return b
