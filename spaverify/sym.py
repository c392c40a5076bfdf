"""Symbolic scalars and arrays that stand in for numbers and numpy arrays."""
from __future__ import annotations

import math
import numbers
from fractions import Fraction

import numpy as np

from . import expr as X
from . import logic
from .expr import E, Expr, F0, F1, ite, ite_conj
from .logic import FALSE, TRUE, SymError, Unsupported, decide, entailed, eq, fdiv, fmod, ge, inconsistent, le, lt, neg
from .poly import ONE, ZERO, P, Poly


# ---------------------------------------------------------------- path exploration
class PathEnd(Exception):
    """The current path is infeasible."""


class Explorer:
    def __init__(self):
        self.prefix: list = []
        self.pos = 0
        self.trace: list = []
        self.work: list = []

    def choose(self, lit) -> bool:
        d = decide(lit)
        if d is not None:
            return d
        if inconsistent():
            raise PathEnd
        if GENERIC[0]:
            raise Unsupported(f"branch on {logic.lit_str(lit)} inside a generic element")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.work.append([*self.trace, False])
        self.pos += 1
        self.trace.append(v)
        logic.CTX.facts.append(lit if v else neg(lit))
        logic.CTX.check_deadline()
        return v


EXP = Explorer()
GENERIC = [0]


class generic_section:
    """Evaluation for a generic element: no branching on undecided conditions."""

    def __enter__(self):
        GENERIC[0] += 1

    def __exit__(self, *_a):
        GENERIC[0] -= 1


def set_explorer(e):
    global EXP
    EXP = e


def choose(lit):
    return EXP.choose(lit)


# ---------------------------------------------------------------- booleans
# ---------------------------------------------------------------- numbers written as text
# Contracts with `text = True`: a symbolic number written into a string becomes a token for it (letters between brackets),
# which int(), float() and the contract read back as that number: writing a number with repr() or str() and reading it is exact.
TEXT: list = [None]


def text_token(x):
    t = "\u27e6" + "".join(chr(97 + int(c)) for c in str(len(TEXT[0]))) + "\u27e7"
    TEXT[0][t] = x
    return t


def text_format(x, spec):
    if spec:
        raise Unsupported(f"a symbolic number formatted with {spec!r}")
    return repr(x)


def text_value(t):
    """The number of a token, None for other strings."""
    return TEXT[0].get(t.strip()) if TEXT[0] is not None and isinstance(t, str) else None


class SBool:
    """A single literal."""

    __slots__ = ("lit",)

    def __init__(self, lit):
        self.lit = lit

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return choose(self.lit)

    def __invert__(self):
        return SBool(neg(self.lit))

    def __and__(self, o):
        if bool(self):
            return o
        return False

    def __or__(self, o):
        if bool(self):
            return True
        return o

    def __repr__(self):
        return f"SBool({self.lit})"

    @property
    def _expr(self):
        return E(1).guarded(self.lit)


def mkbool(lit):
    if lit == TRUE:
        return True
    if lit == FALSE:
        return False
    return SBool(lit)


# ---------------------------------------------------------------- integers
def mkint(p):
    p = P(p)
    if p.is_const():
        return p.cval()
    return SInt(p)


def isintlike(o):
    return isinstance(o, (int, np.integer)) or type(o) is SInt


def _halves(p):
    """2 (m // 2) + 1 is m for an m known to be odd."""
    if len(p.t) == 2 and () in p.t:
        (mono, k), = ((m, k) for m, k in p.t.items() if m)
        if k % 2 == 0 and len(mono) == 1 and mono[0][1] == 1:
            a = mono[0][0]
            if a[0] == "fd" and a[2] == P(2) and len(a[1].t) == 1:
                for r in (0, 1):
                    if entailed(eq(a[1] - Poly.atom(a) * 2, r)):
                        return (a[1] - r) * (k // 2) + p.t[()]
    return p


class SInt:
    __slots__ = ("_poly",)

    def __init__(self, p):
        self._poly = P(p)

    @property
    def __class__(self):
        return int

    def _bin(self, o, f, g):
        if type(o) is SInt or (isinstance(o, (int, np.integer)) and not isinstance(o, (bool, np.bool_))):
            return mkint(f(self._poly, P(o)))
        if isinstance(o, SymArray):
            return NotImplemented
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (SExpr, numbers.Number, np.generic)):
            return mkscalar(g(E(self), E(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: _halves(a + b), lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: _halves(a + b), lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (tuple, list)):
            raise Unsupported("sequence repetition by a symbolic count")
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (SymArray, np.ndarray)):
            return NotImplemented
        return mkscalar(E(self) / E(o))

    def __rtruediv__(self, o):
        if isinstance(o, (SymArray, np.ndarray)):
            return NotImplemented
        return mkscalar(E(o) / E(self))

    def __floordiv__(self, o):
        if isinstance(o, (SymArray, np.ndarray)):
            return NotImplemented
        return mkint(fdiv(self._poly, P(o)))

    def __rfloordiv__(self, o):
        if isinstance(o, (SymArray, np.ndarray)):
            return NotImplemented
        return mkint(fdiv(P(o), self._poly))

    def __mod__(self, o):
        if isinstance(o, (SymArray, np.ndarray)):
            return NotImplemented
        return mkint(fmod(self._poly, P(o)))

    def __rmod__(self, o):
        if isinstance(o, (SymArray, np.ndarray)):
            return NotImplemented
        return mkint(fmod(P(o), self._poly))

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mkint(-self._poly)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if choose(ge(self._poly)) else -self

    def __pow__(self, k):
        if isinstance(k, int) and k >= 0:
            return mkint(self._poly ** k)
        return mkscalar(E(self) ** k)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: lt(a, b), "<")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: le(a, b), "<=")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a), ">")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a), ">=")

    def _cmp(self, o, f, op):
        if isintlike(o):
            return mkbool(f(self._poly, P(o)))
        if isinstance(o, (SymArray, np.ndarray)):
            return NotImplemented
        return real_cmp(E(self), E(o), op)

    def __eq__(self, o):
        if isintlike(o):
            return mkbool(eq(self._poly, P(o)))
        if isinstance(o, (SymArray, np.ndarray)):
            return NotImplemented
        if isinstance(o, (float, SExpr)):
            return real_cmp(E(self), E(o), "==")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else (~r if isinstance(r, SBool) else not r)

    def __hash__(self):
        return hash(self._poly)

    def __index__(self):
        raise Unsupported("a symbolic integer used where a concrete one is needed")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("symbolic integer converted to float")

    def __repr__(self):
        return f"<{self._poly!r}>" if TEXT[0] is None else text_token(self)

    def __format__(self, spec):
        return text_format(self, spec)

    def item(self, *_a):
        return self

    def astype(self, dt, **_k):
        return self

    @property
    def shape(self):
        return ()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate
    is_integer = lambda self: True  # noqa: E731


def real_cmp(a: Expr, b: Expr, op):
    d = X.simplify(a - b)
    if d.is_const():
        v = d.cval()[0]
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": d.cval() == (0, 0)}[op]
    try:
        p = expr_to_poly(d)
    except Unsupported:
        p = None
    if p is not None:
        return mkbool({"<": lt(p, 0), "<=": le(p, 0), ">": lt(0, p), ">=": le(0, p), "==": eq(p, 0)}[op])
    if len(d.d) == 1 and op != "==":
        ((m, x, bb, dd), c), = d.d.items()
        if not x and not bb and not dd and c[1] == 0 and all(X.is_pos_atom(at) for at, _ in m):
            s = c[0] > 0
            return s if op in (">", ">=") else not s
    if op == "==" and len(d.d) == 1:
        ((m, x, bb, dd), c), = d.d.items()
        if not bb and not dd and all(X.is_pos_atom(at) for at, _ in m):
            return False
    if op in (">", ">="):
        d = -d
        op = {">": "<", ">=": "<="}[op]
    return SBool(("b", f"{op}0:{d!r}", True))


def expr_to_poly(e: Expr) -> Poly:
    t = {}
    for (m, x, b, d), c in e.d.items():
        if x or b or d or c[1] != 0 or c[0].denominator != 1:
            raise Unsupported("not an integer polynomial")
        for a, k in m:
            if a[0] not in ("sz", "ix", "fd", "ia") or k.denominator != 1 or k < 0:
                raise Unsupported("not an integer polynomial")
        key = tuple((a, int(k)) for a, k in m)
        t[key] = t.get(key, 0) + int(c[0])
    return Poly({k: v for k, v in t.items() if v})


def int_cases(e: Expr, lits=()):
    """Split a piecewise integer expression into [(lits, Poly)]."""
    e = E(e)
    guard = None
    for (m, x, b, d) in e.d:
        if b:
            e2 = X.simplify(e)
            if any(k[2] for k in e2.d):
                raise Unsupported("integer value defined by a sum")
            return int_cases(e2, lits)
        for l in d:
            guard = l
            break
        if guard:
            break
    if guard is None:
        return [(list(lits), expr_to_poly(e))]
    out = []
    for l in (guard, neg(guard)):
        nl = neg(l)
        d2 = {}
        for (m, x, b, d), c in e.d.items():
            if nl in d:
                continue
            X._acc(d2, (m, x, b, d - {l}), c)
        n = logic.CTX.push([*lits, l])
        try:
            dead = inconsistent()
        finally:
            logic.CTX.pop(n)
        if not dead:
            out += int_cases(Expr(d2), [*lits, l])
    return out


# ---------------------------------------------------------------- real / complex scalars
def mkscalar(e, dt=None):
    e = E(e)
    if e.is_const():
        re, im = e.cval()
        if im == 0:
            if re.denominator == 1:
                return int(re) if dt == "i" else float(re) if dt == "f" and abs(re) < 2**53 else SExpr(e)
            return SExpr(e)
        return SExpr(e)
    if dt == "i":
        try:
            return mkint(expr_to_poly(e))
        except Unsupported:
            pass
    return SExpr(e)


class SExpr:
    __slots__ = ("_expr",)

    def __init__(self, e):
        self._expr = e

    def _b(self, o, f):
        if isinstance(o, (SymArray, np.ndarray)):
            return NotImplemented
        try:
            return mkscalar(f(self._expr, E(o)))
        except Unsupported:
            if isinstance(o, (list, tuple)):
                return NotImplemented
            raise

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: b / a)

    def __neg__(self):
        return mkscalar(-self._expr)

    def __pos__(self):
        return self

    def __pow__(self, k):
        if isinstance(k, SInt):
            return mkscalar(pow_sym(self._expr, k._poly))
        if isinstance(k, SExpr):
            if not (X.is_pos_expr(self._expr) and k._expr.is_real()):
                raise Unsupported("power with a symbolic exponent of a base not known to be positive")
            return mkscalar(X.pos_pow(self._expr, k._expr))
        if type(k) is np.ndarray and k.ndim:
            out = np.empty(k.shape, dtype=object)
            for i in np.ndindex(k.shape):
                out[i] = self ** k[i].item() if isinstance(k[i], np.generic) else self ** k[i]
            return out
        return mkscalar(self._expr ** (k if isinstance(k, int) else Fraction(k).limit_denominator(1000)))

    def __rpow__(self, base):
        if base == -1:
            return mkscalar(pow_sym(E(-1), expr_to_poly(self._expr)))
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return mkscalar(absval(self._expr))

    def __lt__(self, o):
        return real_cmp(self._expr, E(o), "<")

    def __le__(self, o):
        return real_cmp(self._expr, E(o), "<=")

    def __gt__(self, o):
        return real_cmp(self._expr, E(o), ">")

    def __ge__(self, o):
        return real_cmp(self._expr, E(o), ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        if isinstance(o, (SymArray, np.ndarray)):
            return NotImplemented
        return real_cmp(self._expr, E(o), "==")

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else (~r if isinstance(r, SBool) else not r)

    def __hash__(self):
        return hash(repr(self._expr))

    def __bool__(self):
        r = real_cmp(self._expr, E(0), "==")
        return not bool(r)

    def __float__(self):
        if self._expr.is_const() and self._expr.cval()[1] == 0:
            return float(self._expr.cval()[0])
        raise Unsupported("symbolic value converted to float")

    def __complex__(self):
        if self._expr.is_const():
            c = self._expr.cval()
            return complex(float(c[0]), float(c[1]))
        raise Unsupported("symbolic value converted to complex")

    def __int__(self):
        if self._expr.is_const() and self._expr.cval()[1] == 0:
            return int(self._expr.cval()[0])
        raise Unsupported("symbolic value converted to int")

    def __floordiv__(self, o):
        return mkint(fdiv(expr_to_poly(self._expr), P(o)))

    def __mod__(self, o):
        return mkscalar(real_mod(self._expr, E(o)))

    def __repr__(self):
        return f"<{self._expr!r}>" if TEXT[0] is None else text_token(self)

    def __format__(self, spec):
        return text_format(self, spec)

    def item(self, *_a):
        return self

    def astype(self, dt, **_k):
        return self

    # 0-d scalars of numpy have these
    def reshape(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        return reshape(as_sym(self), tuple(shape))

    def ravel(self):
        return self.reshape(-1)

    flatten = ravel

    def copy(self):
        return self

    def conjugate(self):
        return mkscalar(self._expr.conj())

    conj = conjugate

    @property
    def real(self):
        return mkscalar(realpart(self._expr))

    @property
    def imag(self):
        return mkscalar(imagpart(self._expr))

    @property
    def shape(self):
        return ()

    # used by numpy object loops
    def sqrt(self):
        return mkscalar(X.sqrt(self._expr))

    def exp(self):
        return mkscalar(X.exp(self._expr))

    def sin(self):
        return mkscalar(sin(self._expr))

    def cos(self):
        return mkscalar(cos(self._expr))


def pow_sym(base: Expr, p: Poly):
    if base.is_const() and base.cval() == (Fraction(-1), F0):
        return Expr.cis(p, 2)
    if len(base.d) == 1:
        ((m, x, b, d), c), = base.d.items()
        if not m and not b and not d and c == (F1, F0):
            # exp(ex)^p
            e = Expr(dict.fromkeys((), None))
            for mm, q in x:
                e = e + Expr({(mm, (), (), frozenset()): q})
            return X.exp(e * E(p))
    if X.is_pos_expr(base):
        return X.pos_pow(base, E(p))
    return Expr.atom(("fn", "powi", (X.Frozen(base), p)))


def real_mod(a: Expr, m: Expr):
    """a - m floor(a / m); the floor is an integer division when a / m is a ratio of integers."""
    q = X.simplify(E(a) / E(m))
    num, den = {}, {}
    try:
        if any(x or b or d or c[1] for (mm, x, b, d), c in q.d.items()):
            raise Unsupported("not a plain ratio")
        for (mm, _x, _b, _d), c in q.d.items():
            for at, e in mm:
                if at[0] not in ("sz", "ix", "fd", "ia") or e.denominator != 1:
                    raise Unsupported("not integers")
                if e < 0:
                    if at[0] != "sz":
                        raise Unsupported("denominator")
                    den[at] = max(den.get(at, 0), int(-e))
        dc = 1
        for c in q.d.values():
            dc = dc * c[0].denominator // math.gcd(dc, c[0].denominator)
        dp = P(dc)
        for at, e in den.items():
            for _ in range(e):
                dp = dp * Poly.atom(at)
        n = expr_to_poly(X.simplify(q * Expr.poly(dp)))
        return E(a) - E(m) * Expr.poly(fdiv(n, dp))
    except Unsupported:
        pass
    return Expr.atom(("fn", "rmod" if False else "rfn", ("mod", X.Frozen(a), X.Frozen(m))))


def absval(e: Expr) -> Expr:
    if e.sq is not None:
        return e.sq * e.sq.conj()
    e = X.simplify(e)
    if e.is_const():
        c = e.cval()
        if c[1] == 0:
            return Expr.const((abs(c[0]), F0))
    if len(e.d) == 1:
        ((m, x, b, d), c), = e.d.items()
        if not b and not d and not x and c[1] == 0 and all(X.is_pos_atom(a) for a, _ in m):
            return Expr({(m, (), (), d): (abs(c[0]), F0)})
    return X.sqrt(e * e.conj())


def realpart(e: Expr) -> Expr:
    if e.is_real():
        return e
    return (e + e.conj()).scale((Fraction(1, 2), F0))


def imagpart(e: Expr) -> Expr:
    if e.is_real():
        return Expr({})
    return (e - e.conj()).scale((F0, Fraction(-1, 2)))


def cos(e):
    a = X.exp(E(e) * X.I)
    return (a + a.conj()).scale((Fraction(1, 2), F0)) if E(e).is_real() else (a + X.exp(-(E(e) * X.I))).scale((Fraction(1, 2), F0))


def sin(e):
    a = X.exp(E(e) * X.I)
    b = X.exp(-(E(e) * X.I))
    return (a - b).scale((F0, Fraction(-1, 2)))


# ---------------------------------------------------------------- arrays
class Store:
    __slots__ = ("fn", "writes", "name", "rank")

    def __init__(self, fn, name=None, rank=0):
        self.fn = fn
        self.writes = 0
        self.name = name
        self.rank = rank


def gprod(g):
    r = ONE
    for x in g:
        r = r * x
    return r


def gsize(groups):
    r = ONE
    for g in groups:
        r = r * gprod(g)
    return r


def sl(groups, flat):
    """Regroup a flat tuple of atomic indices by dimension."""
    out = []
    i = 0
    for g in groups:
        out.append(tuple(flat[i:i + len(g)]))
        i += len(g)
    return out


def join(g, idx):
    """Flat index of a dimension from its atomic indices."""
    r = ZERO
    for s, i in zip(g, idx):
        r = r * s + i
    return r


def split_index(g, f):
    """Atomic indices from a flat index."""
    if len(g) == 1:
        return (f,)
    if not g:
        return ()
    out = []
    rest = f
    for k in range(len(g) - 1, 0, -1):
        q = fdiv(rest, g[k])
        out.append(rest - g[k] * q)
        rest = q
    out.append(rest)
    return tuple(reversed(out))


def fresh_range(size, base="i"):
    """(index Poly, facts) for a generic element of range(size)."""
    v = logic.CTX.fresh(base)
    p = Poly.atom(v)
    return v, p, [ge(p), lt(p, size)]


_UFUNC = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b, "divide": lambda a, b: a / b, "true_divide": lambda a, b: a / b,
          "matmul": lambda a, b: a @ b, "negative": lambda a: -a, "power": lambda a, b: a ** b, "floor_divide": lambda a, b: a // b, "remainder": lambda a, b: a % b}


class SymArray:
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        f = _UFUNC.get(ufunc.__name__)
        if f is None or method != "__call__" or kw:
            raise Unsupported(f"ufunc {ufunc.__name__} on a symbolic array")
        a = [x if type(x) in (SInt, SExpr, int, float, complex) else as_sym(x) for x in inputs]
        r = f(*a)
        if out is None:
            return r
        o = out[0]
        if type(o) is SymArray:
            raise Unsupported("ufunc output array")
        r = lower(r)
        if type(r) is SymArray or r.shape != o.shape:
            raise SymError("output operand has the wrong shape")
        if o.dtype != object:
            raise Unsupported("symbolic value stored in a concrete array")
        o[...] = r
        return o
    __array_priority__ = 1000

    # memory layout: corder says the elements lie in C order without gaps; amb marks the result of a
    # reshape that numpy makes a view or a copy depending on the layout (the root store and the number
    # of writes it had)
    amb = None

    def __init__(self, groups, fn=None, dt="c", store=None, parent=None, fwd=None, inv=None, name=None, c=False):
        self.groups = [tuple(P(s) for s in g) for g in groups]
        self.corder = c or len(self.groups) <= 1 and parent is None
        self.dt = dt
        self.store = store if store is not None else (Store(fn, name, sum(len(g) for g in self.groups)) if parent is None else None)
        self.parent, self.fwd, self.inv = parent, fwd, inv

    @property
    def __class__(self):
        return np.ndarray

    # ---- access
    def get(self, idx) -> Expr:
        if self.amb is not None:
            self.check_amb()
        if self.parent is not None:
            return self.parent.get(self.fwd(idx))
        if loops.STACK:
            return loops.wrap_read(self.store, self.store.fn)(tuple(idx))
        return self.store.fn(tuple(idx))

    def check_amb(self):
        st, w = self.amb
        if st.writes != w:
            raise Unsupported("read of a reshaped array (view or copy, depending on the layout) after a write to its base")

    def detach(self):
        """Write to a view-or-copy: continue with a copy; the base must not be read any more."""
        fn = self.snapshot()
        st = self.amb[0]
        st.writes += 1

        def poisoned(_idx):
            raise Unsupported("read of an array after a write to its reshaped view or copy")

        st.fn = poisoned
        self.amb = None
        self.store = Store(fn, None, sum(len(g) for g in self.groups))
        self.parent = self.fwd = self.inv = None

    def snapshot(self):
        if self.amb is not None:
            self.check_amb()
        if self.parent is not None:
            g, f = self.parent.snapshot(), self.fwd
            return lambda idx: g(f(idx))
        return loops.wrap_read(self.store, self.store.fn) if loops.STACK else self.store.fn

    def write(self, sel):
        """sel(idx) -> (lits, new value Expr); elements with lits true are replaced."""
        if self.amb is not None:
            self.check_amb()
            self.detach()
        if self.parent is not None:
            inv = self.inv
            if inv is None:
                raise Unsupported("write through this kind of view")

            def psel(pidx):
                lits, idx = inv(pidx)
                l2, v = sel(idx)
                return [*lits, *l2], v

            self.parent.write(psel)
            return
        old = self.store.fn
        self.store.writes += 1
        loops.on_write(self.store, old, sel)

        def new(idx):
            lits, v = sel(idx)
            if FALSE in lits:
                return old(idx)
            lits = [l for l in lits if l != TRUE]
            rest = []
            for l in lits:
                d = decide(l)
                if d is False:
                    return old(idx)
                if d is None:
                    rest.append(l)
            if not rest:
                return E(v() if callable(v) else v)
            n = logic.CTX.push(rest)
            try:
                val = E(v() if callable(v) else v)
            finally:
                logic.CTX.pop(n)
            return ite_conj(rest, val, old(idx))

        self.store.fn = new

    def root(self):
        a = self
        while a.parent is not None:
            a = a.parent
        return a

    # ---- shape
    @property
    def dims(self):
        return [gprod(g) for g in self.groups]

    @property
    def shape(self):
        return tuple(mkint(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.groups)

    @property
    def size(self):
        return mkint(gsize(self.groups))

    def __len__(self):
        d = self.dims[0]
        if d.is_const():
            return d.cval()
        raise Unsupported("len() of a symbolic dimension")

    def symlen(self):
        return self.shape[0]

    @property
    def dtype(self):
        return {"c": np.dtype(np.complex128), "f": np.dtype(np.float64), "i": np.dtype(np.int64), "b": np.dtype(bool)}[self.dt]

    def __repr__(self):
        return f"SymArray{self.shape}"

    # ---- views
    def coarse(self, ax):
        """View with dimension ax as a single atomic axis."""
        g = self.groups[ax]
        if len(g) == 1:
            return self
        ng = [*self.groups[:ax], (gprod(g),), *self.groups[ax + 1:]]
        og = self.groups
        pos = sum(len(x) for x in og[:ax])

        def fwd(idx):
            return (*idx[:pos], *split_index(g, idx[pos]), *idx[pos + 1:])

        def inv(p):
            return [], (*p[:pos], join(g, p[pos:pos + len(g)]), *p[pos + len(g):])

        return SymArray(ng, dt=self.dt, parent=self, fwd=fwd, inv=inv, c=self.corder)

    def split(self, ax, newg):
        """View with dimension ax regrouped into atomic sizes newg (product preserved)."""
        newg = tuple(P(s) for s in newg)
        g = self.groups[ax]
        if g == newg:
            return self
        base = self
        if len(g) > 1:
            # drop unit axes on both sides, align
            base = self.coarse(ax)
            g0 = g
            # piecewise: avoid div/mod when newg refines g
            parts = refine_to(g0, newg)
            if parts is not None:
                pos = sum(len(x) for x in self.groups[:ax])
                ng = [*self.groups[:ax], newg, *self.groups[ax + 1:]]

                def fwd(idx, parts=parts, pos=pos, k=len(newg)):
                    sub = idx[pos:pos + k]
                    out = []
                    i = 0
                    for p in parts:
                        out.append(join(p, sub[i:i + len(p)]))
                        i += len(p)
                    return (*idx[:pos], *out, *idx[pos + k:])

                def inv(p, parts=parts, pos=pos, k=len(g0)):
                    sub = p[pos:pos + k]
                    out = []
                    for q, s in zip(parts, sub):
                        out += list(split_index(q, s))
                    return [], (*p[:pos], *out, *p[pos + k:])

                return SymArray(ng, dt=self.dt, parent=self, fwd=fwd, inv=inv, c=self.corder)
        pos = sum(len(x) for x in base.groups[:ax])
        ng = [*base.groups[:ax], newg, *base.groups[ax + 1:]]

        def fwd2(idx, pos=pos, k=len(newg)):
            return (*idx[:pos], join(newg, idx[pos:pos + k]), *idx[pos + k:])

        def inv2(p, pos=pos):
            return [], (*p[:pos], *split_index(newg, p[pos]), *p[pos + 1:])

        return SymArray(ng, dt=self.dt, parent=base, fwd=fwd2, inv=inv2, c=self.corder)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list, np.ndarray)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = [int(a) % self.ndim for a in axes]
        if sorted(axes) != list(range(self.ndim)):
            raise SymError("axes don't match array")
        og = self.groups
        ng = [og[a] for a in axes]

        def fwd(idx):
            parts = sl(ng, idx)
            out = [None] * len(og)
            for k, a in enumerate(axes):
                out[a] = parts[k]
            return tuple(x for p in out for x in p)

        def inv(p):
            parts = sl(og, p)
            return [], tuple(x for a in axes for x in parts[a])

        moved = [a for a in axes if gprod(og[a]) != ONE]
        return SymArray(ng, dt=self.dt, parent=self, fwd=fwd, inv=inv, c=self.corder and moved == sorted(moved))

    @property
    def T(self):
        return self.transpose()

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        a, b = norm_axis(a, self.ndim), norm_axis(b, self.ndim)
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, np.ndarray)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def ravel(self):
        return reshape(self, (-1,))

    def flatten(self):
        return reshape(self, (-1,)).copy()

    def copy(self, order="C"):
        return SymArray(self.groups, self.snapshot(), self.dt, c=order == "C" or self.corder)

    def astype(self, dt, copy=True, **_k):
        k = dtkind(dt)
        if k == self.dt and not copy:
            return self
        if k == "i" and self.dt not in ("i", "b"):
            fn = self.snapshot()

            def trunc(idx):
                e = fn(idx)
                try:
                    int_cases(e)
                except Unsupported as err:
                    raise Unsupported("astype(int) of non-integers") from err
                return e

            return SymArray(self.groups, trunc, "i", c=self.corder)
        if k == "f" and self.dt == "c":
            fn0 = self.snapshot()
            return SymArray(self.groups, lambda idx: realpart(fn0(idx)), "f", c=self.corder)
        return SymArray(self.groups, self.snapshot(), k, c=self.corder)

    def view(self, dt=None):
        if dt is None:
            return self
        if dtkind(dt) != self.dt:
            raise SymError(f"ndarray.view reinterprets the bytes of {self.dt!r} data as {dtkind(dt)!r}")
        return SymArray(self.groups, dt=self.dt, parent=self, fwd=lambda i: i, inv=lambda p: ([], p), c=self.corder)

    def conj(self):
        return ew1(self, lambda e: e.conj(), self.dt)

    conjugate = conj

    @property
    def real(self):
        return ew1(self, realpart, "f" if self.dt == "c" else self.dt)

    @property
    def imag(self):
        return ew1(self, imagpart, "f" if self.dt == "c" else self.dt)

    def item(self, *idx):
        if not idx:
            if not all(d == ONE for d in self.dims):
                raise SymError("item() of an array with more than one element")
            return scalar_of(self, [ZERO] * sum(len(g) for g in self.groups))
        if len(idx) == 1:
            return self.reshape(-1)[idx[0]]
        return self[idx]

    def sum(self, axis=None, **kw):
        return asum(self, axis, **kw)

    def tolist(self):
        if not self.dims[0].is_const():
            raise Unsupported("tolist of a symbolic dimension")
        return [x.tolist() if isinstance(x, SymArray) else x for x in self]

    def dot(self, o):
        return matmul(self, o)

    def diagonal(self):
        from .npshim import diagonal

        return diagonal(self)

    def argmin(self, axis=None):
        from .npshim import MODELS

        return MODELS["argmin"](self, axis)

    def argmax(self, axis=None):
        from .npshim import MODELS

        return MODELS["argmax"](self, axis)

    def argsort(self, axis=-1):
        from .npshim import MODELS

        return MODELS["argsort"](self, axis)

    def min(self, axis=None):
        return extremum(self, "min", axis)

    def max(self, axis=None):
        return extremum(self, "max", axis)

    def fill(self, v):
        self[...] = v

    def __iter__(self):
        d = self.dims[0]
        if not d.is_const():
            from .loops import symbolic_iter

            return symbolic_iter(self)
        return iter([self[i] for i in range(d.cval())])

    # ---- arithmetic
    def __add__(self, o):
        return ew2(self, o, lambda a, b: a + b)

    def __radd__(self, o):
        return ew2(o, self, lambda a, b: a + b)

    def __sub__(self, o):
        return ew2(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return ew2(o, self, lambda a, b: a - b)

    def __mul__(self, o):
        if o is self and self.dt != "b":
            return ew1(self, X.square, self.dt)
        return ew2(self, o, lambda a, b: a * b)

    def __rmul__(self, o):
        return ew2(o, self, lambda a, b: a * b)

    def __truediv__(self, o):
        return ew2(self, o, lambda a, b: a / b, "/")

    def __rtruediv__(self, o):
        return ew2(o, self, lambda a, b: a / b, "/")

    def __neg__(self):
        return ew1(self, lambda e: -e, self.dt)

    def __pow__(self, k):
        if isinstance(k, (SymArray, np.ndarray)):
            return ew2(self, k, epow)
        if isinstance(k, SInt):
            return ew1(self, lambda e: pow_sym(e, k._poly), self.dt)
        if isinstance(k, SExpr):
            return ew2(self, k, epow)
        if k == 2:
            return ew1(self, X.square, self.dt)
        if isinstance(k, int) and not isinstance(k, SInt):
            return ew1(self, lambda e: e ** k, self.dt if k >= 0 else "f")
        return ew1(self, lambda e: e ** Fraction(k).limit_denominator(1000), "f" if self.dt == "i" else self.dt)

    def __rpow__(self, base):
        return ew2(base, self, epow)

    def __mod__(self, o):
        return ew2(self, o, emod)

    def __rmod__(self, o):
        return ew2(o, self, emod)

    def __floordiv__(self, o):
        return ew2(self, o, efloordiv)

    def __abs__(self):
        return ew1(self, absval, "f" if self.dt == "c" else self.dt)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def _inplace(self, o, op):
        r = op(self, o)
        rr = as_sym(r)
        if self.dt == "i" and rr.dt in ("f", "c"):
            raise Unsupported("in place operation which does not keep integers")
        if self.dt == "f" and rr.dt == "c":
            g = rr.snapshot()

            def real(idx):
                e = g(idx)
                if not e.is_real() and X.simplify(e - e.conj()).d:
                    raise Unsupported("in place operation which may make real data complex")
                return e

            rr = SymArray(rr.groups, real, "f")
        assign(self, rr)
        return self

    def __iadd__(self, o):
        return self._inplace(o, lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(o, lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(o, lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(o, lambda a, b: a / b)

    def __ifloordiv__(self, o):
        return self._inplace(o, lambda a, b: a // b)

    def __imod__(self, o):
        return self._inplace(o, lambda a, b: a % b)

    def __ipow__(self, o):
        return self._inplace(o, lambda a, b: a ** b)

    def __imatmul__(self, o):
        raise Unsupported("@=")

    def __iand__(self, o):
        return self._inplace(o, lambda a, b: a & b)

    def __ior__(self, o):
        return self._inplace(o, lambda a, b: a | b)

    def __ixor__(self, o):
        raise Unsupported("^=")

    # ---- comparisons
    def __lt__(self, o):
        return ew2(self, o, lambda a, b: bexpr(real_cmp(a, b, "<")), "b")

    def __le__(self, o):
        return ew2(self, o, lambda a, b: bexpr(real_cmp(a, b, "<=")), "b")

    def __gt__(self, o):
        return ew2(self, o, lambda a, b: bexpr(real_cmp(a, b, ">")), "b")

    def __ge__(self, o):
        return ew2(self, o, lambda a, b: bexpr(real_cmp(a, b, ">=")), "b")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return ew2(self, o, lambda a, b: bexpr(real_cmp(a, b, "==")), "b")

    def __ne__(self, o):
        return ew2(self, o, lambda a, b: E(1) - bexpr(real_cmp(a, b, "==")), "b")

    def __hash__(self):
        return id(self)

    def __invert__(self):
        return ew1(self, lambda e: E(1) - e, "b")

    def __and__(self, o):
        return ew2(self, o, lambda a, b: a * b, "b")

    def __or__(self, o):
        return ew2(self, o, lambda a, b: a + b - a * b, "b")

    def __bool__(self):
        raise Unsupported("truth value of a symbolic array")

    # ---- indexing
    def __getitem__(self, idx):
        return index_view(self, idx)

    def __setitem__(self, idx, val):
        v = index_view(self, idx, write=True)
        if not isinstance(v, SymArray):
            raise Unsupported("scalar write view")
        assign(v, val)


def bexpr(b):
    if isinstance(b, SBool):
        return b._expr
    return E(1 if b else 0)


def epow(a, b):
    try:
        p = expr_to_poly(E(b))
    except Unsupported:
        if X.is_pos_expr(E(a)) and E(b).is_real():
            return X.pos_pow(E(a), E(b))
        raise Unsupported("array power") from None
    if p.is_const():
        return E(a) ** p.cval() if p.cval() >= 0 else E(a).power(Fraction(p.cval()))
    return pow_sym(E(a), p)


def emod(a, b):
    a, b = E(a), E(b)
    den = 1
    for c in [*a.d.values(), *b.d.values()]:
        q = c[0].denominator
        den = den * q // math.gcd(den, q)
    try:
        pb = expr_to_poly(b.scale((Fraction(den), F0)))
        cs = int_cases(a.scale((Fraction(den), F0)))
    except Unsupported:
        return real_mod(a, b)
    return cases_map(cs, lambda p: E(fmod(p, pb)).scale((Fraction(1, den), F0)))


def efloordiv(a, b):
    pb = expr_to_poly(E(b))
    cs = int_cases(E(a))
    return cases_map(cs, lambda p: E(fdiv(p, pb)))


def cases_map(cases, f):
    r = Expr({})
    for lits, p in cases:
        n = logic.CTX.push(lits)
        try:
            v = f(p)
        finally:
            logic.CTX.pop(n)
        for l in lits:
            v = v.guarded(l)
        r = r + v
    return r


def dtkind(dt):
    if isinstance(dt, str) and dt in ("c", "f", "i", "b"):
        return dt
    k = np.dtype(getattr(dt, "_real", dt)).kind      # the names int, float .. of a verified module are stand-ins
    return {"c": "c", "f": "f", "i": "i", "u": "i", "b": "b", "O": "c"}[k]


def norm_axis(a, n):
    a = int(a)
    if not -n <= a < n:
        raise SymError(f"axis {a} is out of bounds for array of dimension {n}")
    return a % n


def scalar_of(a, idx):
    e = a.get(tuple(idx))
    return mkscalar(e, a.dt if a.dt == "i" else None)


def refine_to(g, newg):
    """If newg refines g, the list of sub-tuples of newg per element of g."""
    out = []
    i = 0
    for s in g:
        part = []
        acc = ONE
        while acc != s:
            if i >= len(newg):
                return None
            nxt = acc * newg[i]
            if s.exact_div(nxt) is None:
                return None
            part.append(newg[i])
            acc = nxt
            i += 1
        out.append(tuple(part))
    # trailing unit axes
    while i < len(newg) and newg[i] == ONE:
        if not out:
            return None
        out[-1] = (*out[-1], newg[i])
        i += 1
    return out if i == len(newg) else None


def common_refine(g1, g2):
    """Atomic sizes refining both products; None if not found structurally."""
    a, b = list(g1), list(g2)
    out = []
    ra = rb = None
    while True:
        if ra is None or ra == ONE:
            ra = a.pop(0) if a else None
        if rb is None or rb == ONE:
            rb = b.pop(0) if b else None
        while ra is not None and ra == ONE:
            ra = a.pop(0) if a else None
        while rb is not None and rb == ONE:
            rb = b.pop(0) if b else None
        if ra is None and rb is None:
            return tuple(out)
        if ra is None or rb is None:
            return None
        if ra == rb:
            out.append(ra)
            ra = rb = None
            continue
        q = ra.exact_div(rb)
        if q is not None and rb != ONE:
            out.append(rb)
            ra, rb = q, None
            # row-major: the leading factor is consumed first
            continue
        q = rb.exact_div(ra)
        if q is not None and ra != ONE:
            out.append(ra)
            rb, ra = q, None
            continue
        return None


def reshape(a, shape):
    shape = [s if isintlike(s) else (int(s) if isinstance(s, float) and float(s).is_integer() else s) for s in shape]
    ps = []
    unknown = None
    for i, s in enumerate(shape):
        if not isinstance(s, SInt) and isinstance(s, (int, np.integer)) and s == -1:
            unknown = i
            ps.append(None)
        else:
            ps.append(P(s) if not isinstance(s, SExpr) else expr_to_poly(s._expr))
    total = gsize(a.groups)
    if unknown is not None:
        known = ONE
        for p in ps:
            if p is not None:
                known = known * p
        q = total.exact_div(known)
        if q is None:
            if known == ZERO:
                raise SymError("cannot reshape: zero size")
            q = fdiv(total, known)
            if not entailed(eq(q * known, total)):
                if not choose(eq(q * known, total)):
                    raise SymError(f"cannot reshape array of size {total!r} into {shape}")
        ps[unknown] = q
    else:
        prod = ONE
        for p in ps:
            prod = prod * p
        if prod != total and not entailed(eq(prod, total)):
            if not choose(eq(prod, total)):
                raise SymError(f"cannot reshape array of size {total!r} into {tuple(ps)}")
    return regroup(a, ps, reshaped=True)


def regroup(a, ps, reshaped=False):
    r = _regroup(a, ps)
    r.corder = a.corder
    if reshaped and not a.corder and [p for p in ps if p != ONE] != [d for d in a.dims if d != ONE]:
        r.amb = (a.root().store, a.root().store.writes)
        r.corder = True
    return r


def _regroup(a, ps):
    """View of a with dims ps (products equal)."""
    flat = [s for g in a.groups for s in g]
    # greedy structural matching
    newgroups = []
    plan = []        # per old atomic: tuple of new atomics
    cur = list(flat)
    i = 0
    rem = None       # remaining factor of cur[i]
    part = []
    ok = True
    for p in ps:
        grp = []
        need = p
        while need != ONE:
            if rem is None:
                # skip unit axes
                while i < len(cur) and cur[i] == ONE:
                    plan.append(())
                    i += 1
                if i >= len(cur):
                    ok = False
                    break
                rem = cur[i]
                part = []
            if rem == need:
                grp.append(rem)
                part.append(rem)
                plan.append(tuple(part))
                i += 1
                rem = None
                need = ONE
                break
            q = need.exact_div(rem)
            if q is not None and not (rem == ONE):
                grp.append(rem)
                part.append(rem)
                plan.append(tuple(part))
                i += 1
                rem = None
                need = q
                continue
            q = rem.exact_div(need)
            if q is not None:
                grp.append(need)
                part.append(need)
                rem = q
                need = ONE
                break
            if entailed(eq(rem, need)):
                grp.append(rem)
                part.append(rem)
                plan.append(tuple(part))
                i += 1
                rem = None
                need = ONE
                break
            ok = False
            break
        if not ok:
            break
        newgroups.append(tuple(grp) if grp else (ONE,))
    if ok:
        while i < len(cur) and rem is None and cur[i] == ONE:
            plan.append(())
            i += 1
        if i < len(cur) or rem is not None:
            ok = False
    if ok:
        olds = list(flat)
        # positions: new flat index list without inserted unit axes
        newflat = []
        for g, p in zip(newgroups, ps):
            newflat.append(g if not (p == ONE) else None)

        def fwd(idx):
            parts = sl(newgroups, idx)
            seq = [x for prt, k in zip(parts, newflat) if k is not None for x in prt]
            out = []
            j = 0
            for pl in plan:
                if not pl:
                    out.append(ZERO)
                    continue
                out.append(join(pl, seq[j:j + len(pl)]))
                j += len(pl)
            return tuple(out)

        def inv(p):
            seq = []
            for pl, v in zip(plan, p):
                if not pl:
                    continue
                seq += list(split_index(pl, v))
            out = []
            j = 0
            for g, k in zip(newgroups, newflat):
                if k is None:
                    out.append(ZERO)
                else:
                    out += seq[j:j + len(g)]
                    j += len(g)
            return [], tuple(out)

        return SymArray(newgroups, dt=a.dt, parent=a, fwd=fwd, inv=inv)
    # fallback: through the flat index
    ng = [(p,) for p in ps]
    fg = tuple(flat)

    def fwd2(idx):
        return split_index(fg, join(tuple(ps), idx)) if fg else ()

    def inv2(p):
        return [], split_index(tuple(ps), join(fg, p))

    return SymArray(ng, dt=a.dt, parent=a, fwd=fwd2, inv=inv2)


# ---------------------------------------------------------------- conversion from numpy
def has_sym(x, depth=0):
    t = type(x)
    if t in (SInt, SExpr, SymArray, SBool):
        return True
    if t is np.ndarray:
        return x.dtype == object
    if t in (list, tuple) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    if t is slice:
        return has_sym((x.start, x.stop, x.step))
    if getattr(t, "_is_sym", False):
        return True
    if t is dict and depth < 4:
        return any(has_sym(y, depth + 1) for y in x.values())
    return False


def as_sym(x) -> SymArray:
    if isinstance(x, SymArray) and type(x) is SymArray:
        return x
    if type(x) is SymList:
        return x.to_array()
    if type(x) in (SInt, SExpr, SBool):
        e = E(x)
        return SymArray([], lambda idx: e, "i" if type(x) is SInt else ("b" if type(x) is SBool else ("f" if e.is_real() else "c")))
    if type(x) in (list, tuple):
        if has_sym(x) and any(type(y) in (SymArray, SymList) or (type(y) in (list, tuple)) for y in x):
            from .npshim import stack_list

            return as_sym(stack_list(x))
        x = np.array(x, dtype=object) if has_sym(x) else np.asarray(x)
    a = np.asarray(x)
    if a.dtype == object:
        kinds = set()
        for v in a.ravel():
            kinds.add("i" if isintlike(v) else "f" if (type(v) is SExpr and v._expr.is_real()) or isinstance(v, (float, np.floating)) else "c")
        dt = "c" if "c" in kinds else "f" if "f" in kinds else "i"
    else:
        dt = dtkind(a.dtype)
    vals = a.copy()

    def fn(idx, vals=vals):
        if all(i.is_const() for i in idx):
            ii = tuple(i.cval() for i in idx)
            return E(vals[ii].item() if isinstance(vals[ii], np.generic) else vals[ii])
        r = Expr({})
        for ii in np.ndindex(*vals.shape):
            v = vals[ii]
            t = E(v.item() if isinstance(v, np.generic) else v)
            for k, j in zip(ii, idx):
                t = t.guarded(eq(j, k))
            r = r + t
        return r

    return SymArray([(Poly.const(s),) for s in a.shape], fn, dt, c=True)


def lower(a):
    """SymArray with small constant shape -> numpy object array / scalar."""
    if not (type(a) is SymArray):
        return a
    ds = a.dims
    if not ds:
        return scalar_of(a, ())
    if all(d.is_const() for d in ds):
        n = 1
        for d in ds:
            n *= d.cval()
        if n <= 256:
            sh = tuple(d.cval() for d in ds)
            out = np.empty(sh, dtype=object)
            for ii in np.ndindex(*sh):
                idx = [x for g, i in zip(a.groups, ii) for x in split_index(g, Poly.const(i))]
                e = a.get(tuple(idx))
                out[ii] = mkscalar(e, "i" if a.dt == "i" else None)
            return out
    return a


# ---------------------------------------------------------------- elementwise
def dims_equal(d1, d2):
    return d1 == d2 or entailed(eq(d1, d2))


def bcast_groups(arrs):
    """Common groups of broadcast arrays and the re-split views."""
    nd = max(a.ndim for a in arrs)
    views = []
    for a in arrs:
        views.append(a)
    groups = []
    plan = [[] for _ in arrs]
    for k in range(nd):
        ax = [(i, k - (nd - a.ndim)) for i, a in enumerate(arrs) if k - (nd - a.ndim) >= 0]
        ref = None
        for i, j in ax:
            d = gprod(views[i].groups[j])
            if d == ONE:
                continue
            ref = d if ref is None else ref
        if ref is None:
            groups.append((ONE,))
            for i, j in ax:
                if len(views[i].groups[j]) != 1:
                    views[i] = views[i].coarse(j)
            continue
        g = None
        for i, j in ax:
            d = gprod(views[i].groups[j])
            if d == ONE:
                continue
            if not dims_equal(d, ref):
                if d.is_const() and ref.is_const() or not choose(eq(d, ref)):
                    # numpy also broadcasts a length that happens to be one
                    raise SymError(f"operands could not be broadcast together: {d!r} vs {ref!r}")
            gg = tuple(s for s in views[i].groups[j] if s != ONE) or (ONE,)
            if g is None:
                g = gg
            elif g != gg:
                c = common_refine(g, gg)
                g = c if c is not None else (ref,)
        groups.append(g)
    for i, a in enumerate(views):
        off = nd - a.ndim
        v = a
        for j in range(a.ndim):
            if gprod(v.groups[j]) == ONE:
                if len(v.groups[j]) != 1:
                    v = v.coarse(j)
                continue
            if v.groups[j] != groups[j + off]:
                v = v.split(j, groups[j + off])
        views[i] = v
    return groups, views


def _proj(groups, v):
    """Function mapping a broadcast index to the index of view v."""
    off = len(groups) - v.ndim
    spec = []
    pos = 0
    for k, g in enumerate(groups):
        if k >= off:
            one = gprod(v.groups[k - off]) == ONE and gprod(g) != ONE
            spec.append((pos, len(g), one))
        pos += len(g)

    def f(idx):
        out = []
        for p, n, one in spec:
            if one:
                out.append(ZERO)
            else:
                out += idx[p:p + n]
        return tuple(out)

    return f


def ew1(a, f, dt):
    if type(a) is not SymArray:
        a = as_sym(a)
    g = a.snapshot()
    return SymArray(a.groups, lambda idx: f(g(idx)), dt, c=a.corder)


_RANK = {"b": 0, "i": 1, "f": 2, "c": 3}


def ew2(a, b, f, kind=None):
    if type(a) in (SymArray,) and isinstance(b, SymList):
        b = b.to_array()
    a, b = as_sym(a), as_sym(b)
    groups, (va, vb) = bcast_groups([a, b])
    ga, gb = va.snapshot(), vb.snapshot()
    pa, pb = _proj(groups, va), _proj(groups, vb)
    if kind == "b":
        dt = "b"
    else:
        dt = max(a.dt, b.dt, key=lambda d: _RANK[d])
        if dt == "b":
            dt = "i"
        if kind == "/" and dt == "i":
            dt = "f"
    r = SymArray(groups, lambda idx: f(ga(pa(idx)), gb(pb(idx))), dt, c=_all_c(a, b))
    if not groups:
        return scalar_of(r, ())
    return r


def _all_c(*arrs):
    return all(a.corder or not a.groups for a in arrs)


def ewn(args, f, dt):
    arrs = [as_sym(a) for a in args]
    groups, views = bcast_groups(arrs)
    gs = [(v.snapshot(), _proj(groups, v)) for v in views]
    r = SymArray(groups, lambda idx: f(*[g(p(idx)) for g, p in gs]), dt, c=_all_c(*arrs))
    return scalar_of(r, ()) if not groups else r


def assign(view, val):
    """view[...] = val with broadcasting."""
    v = as_sym(val) if not (type(val) is SymArray) else val
    if view.dt in ("f", "i") and v.dt == "c":
        vf = v.snapshot()
        v = SymArray(v.groups, lambda idx: realpart(vf(idx)), "f")
    if view.dt == "i" and v.dt == "f":
        v = v.astype("i")
    # leading unit dims of the value may be dropped
    while v.ndim > view.ndim and gprod(v.groups[0]) == ONE:
        v = v.reshape(*v.shape[1:])
    if v.ndim > view.ndim:
        raise SymError("could not broadcast input array into shape")
    for k in range(v.ndim):
        dv = gprod(v.groups[k])
        dw = gprod(view.groups[k + view.ndim - v.ndim])
        if dv != ONE and not dims_equal(dv, dw) and not choose(eq(dv, dw)):
            raise SymError(f"could not broadcast input array of length {dv!r} into {dw!r}")
    groups = view.groups
    off = view.ndim - v.ndim
    for j in range(v.ndim):
        if gprod(v.groups[j]) == ONE:
            if len(v.groups[j]) != 1:
                v = v.coarse(j)
            continue
        if v.groups[j] != groups[j + off]:
            v = v.split(j, groups[j + off])
    g, p = v.snapshot(), _proj(groups, v)
    view.write(lambda idx: ([], lambda: g(p(idx))))


# ---------------------------------------------------------------- reductions
def asum(a, axis=None, keepdims=False, **_kw):
    a = as_sym(a)
    if axis is None:
        axes = list(range(a.ndim))
    else:
        axes = [norm_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list, np.ndarray)) else (axis,))]
        if len(set(axes)) != len(axes):
            raise SymError("duplicate value in axis")
    g = a.snapshot()
    og = a.groups
    if keepdims:
        ng = [((ONE,) if k in axes else og[k]) for k in range(a.ndim)]
    else:
        ng = [og[k] for k in range(a.ndim) if k not in axes]

    def fn(idx):
        parts = sl(ng, idx)
        full = []
        it = iter(parts)
        todo = []
        for k in range(len(og)):
            if k in axes:
                if keepdims:
                    next(it)
                slot = []
                for s in og[k]:
                    slot.append(None)
                    todo.append((len(full) + len(slot) - 1, s))
                full += slot
            else:
                full += list(next(it))
        return sum_slots(g, full, todo)

    r = SymArray(ng, fn, "i" if a.dt == "b" else a.dt)
    return scalar_of(r, ()) if not ng else r


def sum_slots(g, full, todo):
    """Sum g over the open slots; constant sizes are unrolled."""
    if not todo:
        return g(tuple(full))
    (pos, s), rest = todo[0], todo[1:]
    if s.is_const() and s.cval() <= 16:
        r = Expr({})
        for k in range(s.cval()):
            f = list(full)
            f[pos] = Poly.const(k)
            r = r + sum_slots(g, f, rest)
        return r
    v, p, facts = fresh_range(s, "s")
    f = list(full)
    f[pos] = p
    n = logic.CTX.push(facts)
    try:
        e = sum_slots(g, f, rest)
    finally:
        logic.CTX.pop(n)
    return e.sum_over(v, s)


def matmul(a, b):
    a, b = as_sym(a), as_sym(b)
    from .npshim import einsum

    la = "abcdefg"[: a.ndim]
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", a, b)
    if a.ndim == 2 and b.ndim == 1:
        return einsum("ij,j->i", a, b)
    if a.ndim == 1 and b.ndim == 2:
        return einsum("i,ij->j", a, b)
    if a.ndim == 2 and b.ndim == 2:
        r = einsum("ij,jk->ik", a, b)
        if type(r) is SymArray:
            r.corder = True
        return r
    raise Unsupported(f"matmul {la}")


def extremum(a, which, axis):
    a = as_sym(a)
    if axis is None and all(d.is_const() for d in a.dims):
        vals = [v for v in lower(a).ravel()]
        r = vals[0]
        for v in vals[1:]:
            if (v < r) if which == "min" else (v > r):
                r = v
        return r
    if axis is None:
        k = argextremum(a, which)
        return a.reshape(-1)[k]
    raise Unsupported(f"{which} over a symbolic dimension")


# ---------------------------------------------------------------- indexing
def _norm_slice(s, n):
    """(start, step, length) of a slice over a dimension of size n, Python semantics."""
    step = 1 if s.step is None else s.step
    stp = P(step)
    if choose(eq(stp, 0)):
        raise SymError("slice step cannot be zero")
    pos = choose(ge(stp - 1))
    if not pos and not stp.is_const():
        raise Unsupported("symbolic negative step")

    def clamp(v, lo, hi):
        v = P(v)
        if choose(lt(v, 0)):
            v = v + n
            if choose(lt(v, lo)):
                v = P(lo)
        elif choose(lt(hi, v)):
            v = P(hi)
        return v

    if pos:
        start = ZERO if s.start is None else clamp(s.start, ZERO, n)
        stop = n if s.stop is None else clamp(s.stop, ZERO, n)
        span = stop - start
        if stp == ONE:
            length = span if choose(ge(span)) else ZERO
        else:
            length = fdiv(span + stp - 1, stp) if choose(ge(span)) else ZERO
    else:
        start = n - 1 if s.start is None else clamp(s.start, Poly.const(-1), n - 1)
        stop = Poly.const(-1) if s.stop is None else clamp(s.stop, Poly.const(-1), n - 1)
        span = start - stop
        length = fdiv(span - stp - 1, -stp) if choose(ge(span)) else ZERO
    return start, stp, length


def index_view(a, idx, write=False):
    if not isinstance(idx, tuple):
        idx = (idx,)
    # SymArray of tuple type etc.
    idx = list(idx)
    n_real = sum(1 for i in idx if i is not None and i is not Ellipsis)
    if any(type(i) is SymArray and i.dt == "b" for i in idx) or any(type(i) is np.ndarray and i.dtype == bool for i in idx):
        return bool_index(a, idx, write)
    if n_real > a.ndim:
        raise SymError("too many indices for array")
    if Ellipsis in [i for i in idx if i is Ellipsis]:
        k = next(j for j, i in enumerate(idx) if i is Ellipsis)
        idx[k:k + 1] = [slice(None)] * (a.ndim - n_real)
    else:
        idx += [slice(None)] * (a.ndim - n_real)
    adv = [i for i in idx if isinstance(i, (list, np.ndarray)) and type(i) is not SInt or type(i) in (SymArray, SymList)]
    if adv:
        return adv_index(a, idx, write)
    base = a
    ng = []
    plan = []     # per old dim: ('full', n_atomic) | ('int', Poly) | ('slice', start, step, len)
    ax = 0
    for i in idx:
        if i is None:
            ng.append((ONE,))
            plan.append(("new",))
            continue
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step is None:
            ng.append(base.groups[ax])
            plan.append(("full", len(base.groups[ax])))
            ax += 1
            continue
        d = gprod(base.groups[ax])
        if isinstance(i, slice):
            st, sp, ln = _norm_slice(i, d)
            if st == ZERO and sp == ONE and ln == d:
                ng.append(base.groups[ax])
                plan.append(("full", len(base.groups[ax])))
            else:
                base = base.coarse(ax)
                ng.append((ln,))
                plan.append(("slice", st, sp, ln))
            ax += 1
            continue
        if isintlike(i) or type(i) is SExpr or isinstance(i, (float,)):
            if isinstance(i, float):
                raise SymError("only integers are valid indices")
            p = P(i) if isintlike(i) else expr_to_poly(i._expr)
            if not entailed(ge(p)):
                if choose(lt(p, 0)):
                    p = p + d
                    if not entailed(ge(p)) and choose(lt(p, 0)):
                        raise SymError(f"index {p - d!r} is out of bounds for axis with size {d!r}")
            if not entailed(lt(p, d)) and not choose(lt(p, d)):
                raise SymError(f"index {p!r} is out of bounds for axis with size {d!r}")
            plan.append(("int", split_index(base.groups[ax], p)))
            ax += 1
            continue
        raise Unsupported(f"index of type {type(i).__name__}")
    og = base.groups

    def fwd(ix):
        out = []
        pos = 0
        for pl in plan:
            if pl[0] == "new":
                pos += 1
            elif pl[0] == "full":
                out += ix[pos:pos + pl[1]]
                pos += pl[1]
            elif pl[0] == "slice":
                out.append(pl[1] + pl[2] * ix[pos])
                pos += 1
            else:
                out += pl[1]
        return tuple(out)

    def inv(p):
        lits = []
        out = []
        pos = 0
        for pl in plan:
            if pl[0] == "new":
                out.append(ZERO)
            elif pl[0] == "full":
                out += p[pos:pos + pl[1]]
                pos += pl[1]
            elif pl[0] == "slice":
                st, sp, ln = pl[1:]
                off = p[pos] - st
                if sp == ONE:
                    q = off
                elif sp == Poly.const(-1):
                    q = -off
                else:
                    q = fdiv(off, sp)
                    lits.append(eq(off - sp * q, 0))
                lits += [ge(q), lt(q, ln)]
                out.append(q)
                pos += 1
            else:
                for v in pl[1]:
                    lits.append(eq(p[pos], v))
                    pos += 1
        return lits, tuple(out)

    kinds = [pl[0] for pl in plan if pl[0] != "new"]
    while kinds and kinds[0] == "int":
        kinds.pop(0)
    if kinds and kinds[0] == "slice" and [pl for pl in plan if pl[0] == "slice"][0][2] == ONE:
        kinds[0] = "full"
    r = SymArray(ng, dt=a.dt, parent=base, fwd=fwd, inv=inv, c=a.corder and all(k == "full" for k in kinds))
    if not ng and not write:
        return scalar_of(r, ())
    if not write and all(gprod(g).is_const() for g in ng) and False:
        return lower(r)
    return r


def adv_index(a, idx, write=False):
    """Integer-array indexing (index arrays broadcast together)."""
    arrs = []
    pos = []
    basic = {}
    ax = 0
    base = a
    newdims = any(i is None for i in idx)
    if newdims:
        raise Unsupported("newaxis with index arrays")
    # int scalars are index arrays too once an index array is present
    for i in idx:
        if isinstance(i, slice):
            basic[ax] = i
        else:
            v = as_sym(i)
            if v.dt not in ("i", "b"):
                if v.dt == "f":
                    raise SymError("arrays used as indices must be of integer type")
            arrs.append(v)
            pos.append(ax)
        ax += 1
    # apply the slices first
    pre = tuple(basic.get(k, slice(None)) for k in range(a.ndim))
    base = index_view(a, pre) if any(not (s.start is None and s.stop is None and s.step is None) for s in pre) else a
    groups, views = bcast_groups(arrs)
    gs = [(v.snapshot(), _proj(groups, v)) for v in views]
    contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
    # an int scalar between slices counts as advanced: numpy moves dims to front when separated
    where = pos[0] if contiguous else 0
    og = base.groups
    restdims = [k for k in range(base.ndim) if k not in pos]
    if contiguous:
        before = [k for k in restdims if k < pos[0]]
        after = [k for k in restdims if k > pos[0]]
    else:
        before, after = [], restdims
    ng = [og[k] for k in before] + list(groups) + [og[k] for k in after]
    nb = sum(len(og[k]) for k in before)
    na = sum(len(g) for g in groups)
    get = base.snapshot()
    dims = [gprod(g) for g in og]

    def resolve(ix):
        sub = ix[nb:nb + na]
        out = [None] * len(og)
        j = 0
        for k in before:
            out[k] = [([], tuple(ix[j:j + len(og[k])]))]
            j += len(og[k])
        j = nb + na
        for k in after:
            out[k] = [([], tuple(ix[j:j + len(og[k])]))]
            j += len(og[k])
        for (g, p), k in zip(gs, pos):
            alts = []
            for lits, q in int_cases(g(p(sub))):
                n = logic.CTX.push(lits)
                try:
                    if entailed(ge(q)):
                        alts.append((lits, split_index(og[k], q)))
                    elif entailed(lt(q, 0)):
                        alts.append((lits, split_index(og[k], q + dims[k])))
                    else:
                        alts.append(([*lits, ge(q)], split_index(og[k], q)))
                        alts.append(([*lits, lt(q, 0)], split_index(og[k], q + dims[k])))
                finally:
                    logic.CTX.pop(n)
            out[k] = alts
        return out

    def fn(ix):
        opts = resolve(ix)

        def rec(k, acc, lits):
            if k == len(opts):
                n = logic.CTX.push(lits)
                try:
                    v = get(tuple(acc))
                finally:
                    logic.CTX.pop(n)
                for l in lits:
                    v = v.guarded(l)
                return v
            r = Expr({})
            for l, t in opts[k]:
                r = r + rec(k + 1, [*acc, *t], [*lits, *l])
            return r

        return rec(0, [], [])

    check_bounds(gs, groups, [dims[k] for k in pos])
    if write:
        def inv(p):
            raise Unsupported("write through index arrays")

        const = all(all(s.is_const() for s in g) for g in groups) and not any(True for _ in ())
        if const and base is a:
            return ScatterView(ng, a, resolve, groups, nb)
        if base is a:
            return scatter_injective(ng, a, resolve, groups, nb, na)
        raise Unsupported("write through index arrays")
    r = SymArray(ng, fn, a.dt)
    return scalar_of(r, ()) if not ng else r


def check_bounds(gs, groups, dims):
    """Every index array element must be in range (else numpy raises IndexError)."""
    idx = []
    facts = []
    for g in groups:
        for s in g:
            if s.is_const() and s.cval() == 1:
                idx.append(ZERO)
                continue
            v, p, f = fresh_range(s, "b")
            idx.append(p)
            facts += f
    n = logic.CTX.push(facts)
    bad = None
    try:
        for (g, p), d in zip(gs, dims):
            for lits, q in int_cases(g(p(tuple(idx)))):
                m = logic.CTX.push(lits)
                try:
                    if not entailed(lt(q, d)) or not entailed(ge(q + d)):
                        bad = (q, d, list(lits))
                finally:
                    logic.CTX.pop(m)
    finally:
        logic.CTX.pop(n)
    if bad is not None:
        q, d, lits = bad
        raise SymError(f"index {q!r} may be out of bounds for axis with size {d!r}")


def ScatterView(ng, a, resolve, groups, nb):
    raise Unsupported("write through constant index arrays")


def scatter_injective(ng, a, resolve, groups, nb, na):
    raise Unsupported("write through index arrays")


def bool_index(a, idx, write):
    raise Unsupported("boolean mask indexing of a symbolic array")


# ---------------------------------------------------------------- symbolic-length python lists
class SymList:
    """List of symbolic length produced by iterating a symbolic range: element = fn(i)."""

    _is_sym = True

    def __init__(self, n, fn, known=None):
        self.n = P(n)
        self.fn = fn
        self.known = known

    def __len__(self):
        raise Unsupported("len() of a symbolic list")

    def symlen(self):
        return mkint(self.n)

    def __getitem__(self, i):
        if isintlike(i):
            return self.fn(P(i))
        raise Unsupported("slicing a symbolic list")

    def __iter__(self):
        from .loops import symbolic_iter

        return symbolic_iter(self)

    def to_array(self):
        v, p, facts = fresh_range(self.n, "l")
        n = logic.CTX.push(facts)
        try:
            el = as_sym(self.fn(p))
            groups = el.groups
            dt = el.dt
        finally:
            logic.CTX.pop(n)
        fn = self.fn

        def get(idx):
            e = as_sym(fn(idx[0]))
            return e.get(tuple(idx[1:]))

        return SymArray([(self.n,), *groups], get, dt)


from . import loops  # noqa: E402


# ---------------------------------------------------------------- order statistics
def _same_content(a, b):
    from .simp import prove_zero

    if a.ndim != b.ndim or any(not dims_equal(gprod(x), gprod(y)) for x, y in zip(a.groups, b.groups)):
        return False
    groups, (vx, vy) = bcast_groups([a, b])
    idx, facts = [], []
    for g in groups:
        for s in g:
            if s == ONE:
                idx.append(ZERO)
                continue
            _v, p, f = fresh_range(s, "e")
            idx.append(p)
            facts += f
    n = logic.CTX.push(facts)
    try:
        if logic.inconsistent():
            return True
        with generic_section():
            e = vx.snapshot()(_proj(groups, vx)(tuple(idx))) - vy.snapshot()(_proj(groups, vy)(tuple(idx)))
        return prove_zero(e)
    finally:
        logic.CTX.pop(n)


def _order_key(a):
    """Number of the content of an array: equal arrays (in all their entries) get the same number."""
    a = as_sym(a)
    idx = tuple(Poly.atom(("ix", f"ord{k}")) for k, g in enumerate(a.groups) for _ in g)
    with generic_section():
        free = a.snapshot()(idx).atoms()
    if any(t[0] == "ix" and "!" in t[1] for t in free):
        raise Unsupported("order statistics of an array that depends on a bound index")
    reg = logic.CTX.order
    for k, b in enumerate(reg):
        if _same_content(a, b):
            return k, a
    reg.append(a.copy())
    return len(reg) - 1, a


def argsort(a):
    """A permutation determined by the content; nothing more is assumed about it (see simp.PermRule)."""
    a = as_sym(a)
    if a.ndim != 1 or len(a.groups[0]) != 1:
        raise Unsupported("argsort of an array with several axes")
    k, a = _order_key(a)
    name = f"argsort#{k}"
    n = a.dims[0]
    if name not in logic.CTX.ia_bounds:
        from .simp import PermRule

        logic.CTX.ia_bounds[name] = (P(0), n)
        X.RULES.append(PermRule(name, n))
    return SymArray([(n,)], lambda idx: Expr.poly(Poly.atom(("ia", name, tuple(idx)))), "i", c=True)


def argextremum(a, which):
    """The position (in the flattened array) of the smallest or largest element: determined by the content."""
    a = as_sym(a)
    n = ONE
    for d in a.dims:
        n = n * d
    if choose(lt(n, 1)):
        raise SymError(f"arg{which} of an empty sequence")
    k, a = _order_key(a)
    name = f"arg{which}#{k}"
    logic.CTX.ia_bounds[name] = (P(0), n)
    return mkint(Poly.atom(("ia", name, ())))
