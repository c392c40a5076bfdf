"""Complex valued terms in sum-of-products normal form.

A term is   coef * prod(atom^e) * exp(ex) * [dom]   summed over its bound variables,
with coef a Gaussian rational, ex a Laurent polynomial and dom a conjunction of
integer literals (it contains the ranges of the bound variables).
"""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

from . import logic
from .logic import (
    FALSE,
    TRUE,
    SymError,
    Unsupported,
    decide,
    entailed,
    eq,
    ge,
    lit_atoms,
    lit_subst,
    lt,
    neg,
    re_simplify,
)
from .logic import subst as psubst
from .poly import ONE, ZERO, P, Poly, akey

F0, F1 = Fraction(0), Fraction(1)
PI = ("r", "pi", True)

# registry of facts about named arrays / scalars
REAL: set = set()      # real valued applications
POS: set = set()       # positive applications (implies real)
RULES: list = []       # summation rules contributed by contracts


def reset_registry():
    REAL.clear()
    POS.clear()
    RULES.clear()


# ---------------------------------------------------------------- Gaussian rationals
def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    n = a[0] * a[0] + a[1] * a[1]
    if n == 0:
        raise SymError("division by zero")
    return (a[0] / n, -a[1] / n)


# ---------------------------------------------------------------- monomials (rational exponents)
def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return m_norm(d)


def m_norm(d):
    # a truth value is its own square
    return tuple(sorted(((a, 1 if a[1] == "close" and a[0] == "fn" and e > 0 else e) for a, e in d.items() if e), key=lambda x: akey(x[0])))


def is_real_atom(a):
    k = a[0]
    if k in ("sz", "ix", "fd", "ia", "r", "q"):
        return True
    if k == "app":
        return a[1] in REAL or a[1] in POS
    if k == "fn":
        return a[1] in REALFN
    return False


def is_pos_atom(a):
    k = a[0]
    if k == "sz":
        return logic.CTX.size_lo.get(a, 0) >= 1
    if k == "q":
        return True
    if k == "r":
        return a[2]
    if k == "app":
        return a[1] in POS
    if k == "fn":
        if a[1] == "log":  # log(1 + something positive)
            r = a[2][0].expr() - E(1)
            return is_pos_expr(r)
        return a[1] in ("norm", "sqrtp", "expr", "rpow")
    if k == "ix":
        return entailed(ge(Poly.atom(a) - 1))
    return False


REALFN = {"abs", "norm", "sqrtp", "real", "imag", "angle", "expr", "arctan2", "det", "rrecip", "opaque_r", "log", "rpow", "floor_r", "argr", "rfn", "close"}


def a_conj(a):
    if is_real_atom(a):
        return a
    if a[0] == "app":
        return ("app", a[1], a[2], not a[3])
    if a[0] == "fn":
        if a[1] == "recip":
            return ("fn", "recip", (a[2][0].conj().frozen(),))
        if a[1] == "unit":
            return ("fn", "unit", (Frozen(simplify(a[2][0].expr().conj())),))
        return ("fn", a[1], a[2], not a[3]) if len(a) > 3 else ("fn", a[1], a[2], True)
    raise AssertionError(a)


def m_conj(m):
    if all(is_real_atom(a) for a, _ in m):
        return m
    return m_norm({a_conj(a): e for a, e in m})


# ---------------------------------------------------------------- Laurent exponents
def ex_add(e1, e2):
    if not e1:
        return e2
    if not e2:
        return e1
    d = dict(e1)
    for m, c in e2:
        v = d.get(m)
        v = c if v is None else (v[0] + c[0], v[1] + c[1])
        if v == (0, 0):
            d.pop(m, None)
        else:
            d[m] = v
    return ex_norm(d)


def _lead(D):
    """Leading plain monomial (group order on exponent vectors) of a sum of plain monomials, or None."""
    if len(D.d) < 2 or any(x or b or g for (_, x, b, g) in D.d):
        return None
    atoms = sorted({a for (m, _, _, _) in D.d for a, _ in m}, key=akey)

    def vec(m):
        e = dict(m)
        return [e.get(a, F0) for a in atoms]
    (m, _, _, _), c = max(D.d.items(), key=lambda t: vec(t[0][0]))
    return m, c


def _recip_reduce(d):
    """Rewrite r*lead(D) with r = 1/D as 1 - r*(D - lead(D)), over the coefficient of the leading term."""
    todo = [(m, c) for m, c in d.items() if c != (0, 0)]
    if not any(a[0] == "fn" and a[1] == "rrecip" for m, _ in todo for a, _ in m):
        return d
    out: dict = {}
    for _ in range(4000):
        if not todo:
            return out
        m, c = todo.pop()
        hit = None
        for a, k in m:
            if a[0] == "fn" and a[1] == "rrecip" and k >= 1:
                D = a[2][0].expr()
                ld = _lead(D)
                if ld is None:
                    continue
                e = dict(m)
                if all((e.get(b, F0) >= q) if q > 0 else True for b, q in ld[0]):
                    hit = a, D, ld
                    break
        if hit is None:
            v = out.get(m, (F0, F0))
            out[m] = (v[0] + c[0], v[1] + c[1])
            continue
        a, D, (lm, lc) = hit
        e = dict(m)
        for b, q in lm:
            e[b] = e.get(b, F0) - q
        rest = m_norm(e)
        e[a] -= 1
        inv = cinv(lc)
        todo.append((m_norm(e), cmul(c, inv)))
        for (mm, _, _, _), cc in D.d.items():
            if mm != lm:
                t = cmul(cmul(c, inv), cc)
                todo.append((m_norm(_madd(dict(rest), mm)), (-t[0], -t[1])))
    return d


def _madd(e, m):
    for a, k in m:
        e[a] = e.get(a, F0) + k
    return e


def ex_norm(d):
    d = _recip_reduce(d)
    out = []
    for m, c in d.items():
        if c == (0, 0):
            continue
        # 2*pi*i*integer*(integer monomial) is trivial
        if c[0] == 0 and _is_int_pi(m):
            k = c[1] / 2
            k = k - math.floor(k) if len(m) == 1 else (F0 if k.denominator == 1 else k - math.floor(k))
            if k == 0:
                continue
            c = (F0, k * 2)
        out.append((m, c))
    return tuple(sorted(out, key=lambda x: [(akey(a), e) for a, e in x[0]]))


def _is_int_pi(m):
    seen = False
    for a, e in m:
        if a == PI:
            if e != 1:
                return False
            seen = True
        elif a[0] in ("sz", "ix", "fd", "ia"):
            if e < 0 or e.denominator != 1:
                return False
        else:
            return False
    return seen


def ex_conj(ex):
    if not ex:
        return ex
    return ex_norm({m_conj(m): (c[0], -c[1]) for m, c in ex})


def atom_atoms(a):
    """All atoms below a value atom, including integer ones."""
    out = {a}
    if a[0] == "fd":
        out |= a[1].all_atoms() | a[2].all_atoms()
    elif a[0] in ("ia", "app"):
        for p in a[2]:
            out |= p.all_atoms()
    elif a[0] == "fn":
        for x in a[2]:
            if isinstance(x, Frozen):
                out |= x.expr().atoms()
            elif isinstance(x, Poly):
                out |= x.all_atoms()
    return out


def mono_atoms(m):
    out = set()
    for a, _ in m:
        out |= atom_atoms(a)
    return out


class Frozen:
    """Hashable wrapper of an expression used as an argument of opaque functions."""

    __slots__ = ("_e", "_h", "_r")

    def __init__(self, e):
        self._e = e
        self._h = None
        self._r = None

    def expr(self):
        return self._e

    def conj(self):
        return self._e.conj()

    def key(self):
        if self._h is None:
            self._h = self._e.canon_key()
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Frozen) and self.key() == o.key()

    def __repr__(self):
        if self._r is None:
            self._r = repr(self.key())
        return self._r


class Expr:
    __slots__ = ("d", "sq")  # sq: the expression this one is the square of, when known

    def __init__(self, d):
        self.d = d
        self.sq = None

    # ------------------------------------------------ constructors
    @staticmethod
    def const(x):
        return Expr({((), (), (), frozenset()): x}) if x != (0, 0) else Expr({})

    @staticmethod
    def atom(a, e=F1):
        return Expr({(((a, Fraction(e)),), (), (), frozenset()): (F1, F0)})

    @staticmethod
    def poly(p: Poly):
        d = {}
        for m, c in p.t.items():
            d[(m_norm({a: Fraction(e) for a, e in m}), (), (), frozenset())] = (Fraction(c), F0)
        return Expr(d)

    @staticmethod
    def app(name, args, conj=False):
        if name in REAL or name in POS:
            conj = False
        return Expr.atom(("app", name, tuple(P(a) for a in args), conj))

    @staticmethod
    def cis(num, den=1):
        """exp(2 pi i num/den) for integer polynomials, den a monomial."""
        num, den = P(num), P(den)
        if len(den.t) != 1:
            raise Unsupported(f"phase denominator {den!r}")
        (dm, dk), = den.t.items()
        ex = {}
        inv = {a: Fraction(-e) for a, e in dm}
        for m, c in num.t.items():
            mm = m_mul(m_norm(inv), m_norm({a: Fraction(e) for a, e in m}))
            mm = m_mul(mm, ((PI, F1),))
            o = ex.get(mm, (F0, F0))
            ex[mm] = (F0, o[1] + Fraction(2 * c, dk))
        return Expr({((), ex_norm(ex), (), frozenset()): (F1, F0)})

    # ------------------------------------------------ algebra
    def __add__(self, o):
        o = E(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for k, c in o.d.items():
            v = d.get(k)
            if v is None:
                d[k] = c
            else:
                v = (v[0] + c[0], v[1] + c[1])
                if v == (0, 0):
                    del d[k]
                else:
                    d[k] = v
        return Expr(d)

    __radd__ = __add__

    def __neg__(self):
        return Expr({k: (-c[0], -c[1]) for k, c in self.d.items()})

    def __sub__(self, o):
        return self + (-E(o))

    def __rsub__(self, o):
        return E(o) - self

    def scale(self, c):
        return Expr({k: cmul(v, c) for k, v in self.d.items()})

    def is_const(self):
        return all(k == ((), (), (), frozenset()) for k in self.d)

    def cval(self):
        return self.d.get(((), (), (), frozenset()), (F0, F0))

    def __mul__(self, o):
        o = E(o)
        if not self.d or not o.d:
            return Expr({})
        if o.is_const():
            return self.scale(o.cval())
        if self.is_const():
            return o.scale(self.cval())
        logic.CTX.check_deadline()
        out: dict = {}
        for (m1, x1, b1, d1), c1 in self.d.items():
            for (m2, x2, b2, d2), c2 in o.d.items():
                if b1 and b2 and set(b1) & set(b2):
                    env = {v: Poly.atom(logic.CTX.fresh()) for v in b2 if v in b1}
                    for (m2r, x2r, b2r, d2r), c2r in _term_subst((m2, x2, b2, d2), c2, env, rename=True):
                        _acc(out, (m_mul(m1, m2r), ex_add(x1, x2r), _bsort(b1 + b2r), d1 | d2r), cmul(c1, c2r))
                    continue
                dd = d1 | d2 if d1 and d2 else (d1 or d2)
                if dd and len(dd) > max(len(d1), len(d2)):
                    if any(neg(l) in dd for l in dd):
                        continue
                _acc(out, (m_mul(m1, m2), ex_add(x1, x2), _bsort(b1 + b2) if b1 and b2 else (b1 or b2), dd), cmul(c1, c2))
        return _fold(Expr(out))

    __rmul__ = __mul__

    def __pow__(self, k):
        if isinstance(k, int) and k >= 0:
            r = E(1)
            for _ in range(k):
                r = r * self
            return r
        return self.power(Fraction(k).limit_denominator(10**6))

    def power(self, k: Fraction):
        if k.denominator == 1 and k >= 0:
            return self ** int(k)
        if not self.d:
            raise SymError("zero to a negative power") if k < 0 else None
        if len(self.d) == 1:
            ((m, x, b, d), c), = self.d.items()
            if not b and not d:
                if k.denominator == 1:
                    cc = (F1, F0)
                    ci = cinv(c)
                    for _ in range(-int(k)):
                        cc = cmul(cc, ci)
                    return _fold(Expr({(m_norm({a: e * k for a, e in m}), ex_norm({mm: (q[0] * k, q[1] * k) for mm, q in x}), (), d): cc}))
                if c[1] == 0 and c[0] > 0 and not x and all(is_pos_atom(a) for a, _ in m):
                    return _fold(Expr({(m_norm({a: e * k for a, e in m}), (), (), d): (F1, F0)}) * _qpow(c[0], k))
        if k == -1:
            return recip(self)
        if k.denominator == 1 and k < 0:
            return recip(self) ** int(-k)
        if k.denominator == 2:
            s = sqrt(self) ** abs(k.numerator)
            return s if k > 0 else recip(s)
        if is_pos_expr(self):
            return pos_pow(self, E(k))
        return Expr.atom(("fn", "cpow", (Frozen(self), k)))

    def __truediv__(self, o):
        return self * E(o).power(Fraction(-1))

    def __rtruediv__(self, o):
        return E(o) / self

    def conj(self):
        return _fold(Expr(_collect(((m_conj(m), ex_conj(x), b, d), (c[0], -c[1])) for (m, x, b, d), c in self.d.items())))

    def is_real(self):
        for (m, x, b, d), c in self.d.items():
            if c[1] != 0 or not all(is_real_atom(a) for a, _ in m):
                return False
            if any(q[1] != 0 or not all(is_real_atom(a) for a, _ in mm) for mm, q in x):
                return False
        return True

    def guarded(self, lit):
        """[lit] * self"""
        if lit == TRUE:
            return self
        if lit == FALSE:
            return Expr({})
        out = {}
        nl = neg(lit)
        for (m, x, b, d), c in self.d.items():
            if nl in d:
                continue
            _acc(out, (m, x, b, d | {lit}), c)
        return Expr(out)

    def atoms(self):
        out = set()
        for (m, x, b, d) in self.d:
            out |= mono_atoms(m)
            for mm, _ in x:
                out |= mono_atoms(mm)
            for l in d:
                out |= lit_atoms(l)
            out -= set(b)
        return out

    def subst(self, env):
        if not env:
            return self
        out: dict = {}
        for k, c in self.d.items():
            for k2, c2 in _term_subst(k, c, env):
                _acc(out, k2, c2)
        return _fold(Expr(out))

    def sum_over(self, v, size):
        """Sum over v in [0, size)."""
        out = {}
        lo, hi = ge(Poly.atom(v)), ge(P(size) - 1 - Poly.atom(v))
        for (m, x, b, d), c in self.d.items():
            _acc(out, (m, x, _bsort((*b, v)), d | {lo, hi}), c)
        return Expr(out)

    def frozen(self):
        return Frozen(self)

    def canon_key(self):
        """Key invariant under bound renaming (after normalisation)."""
        items = []
        for k, c in self.d.items():
            items.append((_canon_term(k), c))
        return tuple(sorted(items, key=repr))

    def __repr__(self):
        if not self.d:
            return "0"
        return " + ".join(term_str(k, c) for k, c in self.d.items())


def _bsort(b):
    return tuple(sorted(b)) if len(b) > 1 else b


def _acc(d, k, c):
    v = d.get(k)
    if v is None:
        if c != (0, 0):
            d[k] = c
    else:
        v = (v[0] + c[0], v[1] + c[1])
        if v == (0, 0):
            del d[k]
        else:
            d[k] = v


def _collect(it):
    d: dict = {}
    for k, c in it:
        _acc(d, k, c)
    return d


_PIM = ((PI, F1),)


def _fold(e: Expr) -> Expr:
    """Fold integer powers of ('q', prime) atoms into the coefficient."""
    need = any(a[0] == "q" and ex.denominator == 1 for (m, _, _, _) in e.d for a, ex in m) or any(
        mm == _PIM and q[0] == 0 and (2 * q[1]).denominator == 1 for (_, x, _, _) in e.d for mm, q in x
    )
    if not need:
        return e
    out = {}
    for (m, x, b, d), c in e.d.items():
        mm = []
        if x:
            nx = []
            for m3, q in x:
                if m3 == _PIM and q[0] == 0 and (2 * q[1]).denominator == 1:
                    c = cmul(c, ((F1, F0), (F0, F1), (-F1, F0), (F0, -F1))[int(2 * q[1]) % 4])
                else:
                    nx.append((m3, q))
            x = tuple(nx)
        for a, k in m:
            if a[0] == "q":
                w = math.floor(k)
                f = Fraction(a[1]) ** w
                c = (c[0] * f, c[1] * f)
                k = k - w
                if k == 0:
                    continue
            mm.append((a, k))
        _acc(out, (tuple(mm), x, b, d), c)
    return Expr(out)


def _primes(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _qpow(c: Fraction, k: Fraction) -> Expr:
    r = E(1)
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, e in _primes(n).items():
            r = r * Expr.atom(("q", p), e * s * k)
    return _fold(r)


def E(x) -> Expr:
    if isinstance(x, Expr):
        return x
    if hasattr(x, "_expr"):
        return x._expr
    if isinstance(x, Poly):
        return Expr.poly(x)
    if hasattr(x, "_poly"):
        return Expr.poly(x._poly)
    if isinstance(x, bool):
        return Expr.const((Fraction(int(x)), F0))
    if isinstance(x, Fraction):
        return Expr.const((x, F0))
    if isinstance(x, int):
        return Expr.const((Fraction(x), F0))
    if isinstance(x, complex):
        return E(x.real) + E(x.imag).scale((F0, F1))
    if isinstance(x, float):
        return _from_float(x)
    import numpy as np

    if isinstance(x, np.generic):
        return E(x.item())
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return E(x.item())
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def _from_float(x: float) -> Expr:
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("non-finite constant")
    if x == 0:
        return Expr({})
    if x.is_integer() and abs(x) < 2**52:
        return Expr.const((Fraction(int(x)), F0))
    for num in range(1, 9):
        for den in (1, 2, 3, 4, 6, 8):
            if x == num * math.pi / den or x == math.pi * num / den:
                return Expr.atom(PI).scale((Fraction(num, den), F0))
    if "e" not in repr(x) and len(repr(x)) > 14:
        y = abs(x)
        for k in range(2, 33):
            for f, v in ((math.sqrt(k), Fraction(k)), (1 / math.sqrt(k), Fraction(1, k)), (math.sqrt(1 / k), Fraction(1, k))):
                if y == f and not math.sqrt(k).is_integer():
                    return _qpow(v, Fraction(1, 2)).scale((F1 if x > 0 else -F1, F0))
    return Expr.const((Fraction(repr(x)), F0))


I = Expr.const((F0, F1))


# ---------------------------------------------------------------- substitution
def _atom_subst(a, env):
    """Value atom -> Expr after substitution."""
    k = a[0]
    if k in ("ix", "sz"):
        return Expr.poly(env[a]) if a in env else None
    if k in ("fd", "ia"):
        q = psubst(Poly.atom(a), env)
        return Expr.poly(q)
    if k == "app":
        if a in env:
            return env[a]
        if not any(p.all_atoms() & env.keys() for p in a[2]):
            return None
        return Expr.atom(("app", a[1], tuple(psubst(p, env) for p in a[2]), a[3]))
    if k == "fn":
        if not (atom_atoms(a) & env.keys()):
            return None
        args = tuple(Frozen(x.expr().subst(env)) if isinstance(x, Frozen) else (psubst(x, env) if isinstance(x, Poly) else x) for x in a[2])
        if a[1] in REBUILD:
            return REBUILD[a[1]](*[x.expr() if isinstance(x, Frozen) else x for x in args])
        return Expr.atom((*a[:2], args, *a[3:]))
    return None


REBUILD: dict = {}


def _term_subst(key, c, env, rename=False, scoped=False):
    m, x, b, d = key
    if not rename and b and any(v in env for v in b):
        env = {k: v for k, v in env.items() if k not in b}
    # avoid capture
    if b and not rename and not scoped:
        used = set()
        for v in env.values():
            used |= v.all_atoms() if isinstance(v, Poly) else v.atoms()
        clash = [v for v in b if v in used]
        if clash:
            ren = {v: Poly.atom(logic.CTX.fresh()) for v in clash}
            for k2, c2 in _term_subst(key, c, ren, rename=True):
                yield from _term_subst(k2, c2, env)
            return
    keys = env.keys()
    plain = []
    rest = E(1)
    changed = False
    for a, e in m:
        if a in keys or (a[0] not in ("sz", "ix", "r", "q") and (atom_atoms(a) & keys)):
            r = _atom_subst(a, env)
            if r is not None:
                changed = True
                rest = rest * (r ** int(e) if e.denominator == 1 and e >= 0 else r.power(e))
                continue
        plain.append((a, e))
    nx = x
    if x:
        dd = {}
        hit = False
        for mm, q in x:
            if mono_atoms(mm) & keys:
                hit = True
                t = Expr.const(q)
                pl = []
                for a, e in mm:
                    r = _atom_subst(a, env) if (a in keys or (a[0] not in ("sz", "ix", "r", "q") and (atom_atoms(a) & keys))) else None
                    if r is None:
                        pl.append((a, e))
                    else:
                        t = t * (r ** int(e) if e.denominator == 1 and e >= 0 else r.power(e))
                t = t * Expr({(tuple(pl), (), (), frozenset()): (F1, F0)})
                for (m3, x3, b3, d3), c3 in t.d.items():
                    if x3 or b3 or d3:
                        raise Unsupported("complicated exponent after substitution")
                    o = dd.get(m3, (F0, F0))
                    dd[m3] = (o[0] + c3[0], o[1] + c3[1])
            else:
                o = dd.get(mm, (F0, F0))
                dd[mm] = (o[0] + q[0], o[1] + q[1])
        if hit:
            nx = ex_norm(dd)
    nd = d
    if d and any(lit_atoms(l) & keys for l in d):
        nd = set()
        for l in d:
            l2 = lit_subst(l, env)
            if l2 == FALSE:
                return
            if l2 != TRUE:
                nd.add(l2)
        if any(neg(l) in nd for l in nd):
            return
        nd = frozenset(nd)
    nb = tuple(sorted(((next(iter(env[v].atoms())) if v in keys else v) for v in b))) if rename else b
    if not changed:
        yield (m if len(plain) == len(m) else tuple(plain), nx, nb, nd), c
        return
    pm = tuple(plain)
    for (m3, x3, b3, d3), c3 in rest.d.items():
        yield (m_mul(pm, m3), ex_add(nx, x3), _bsort(nb + b3), nd | d3), cmul(c, c3)


def ite(lit, a, b):
    a, b = E(a), E(b)
    if lit == TRUE:
        return a
    if lit == FALSE:
        return b
    return a.guarded(lit) + b.guarded(neg(lit))


def ite_conj(lits, a, b):
    """[and lits] a + [not and lits] b."""
    lits = [l for l in lits if l != TRUE]
    if FALSE in lits:
        return E(b)
    r = E(a)
    for l in lits:
        r = r.guarded(l)
    b = E(b)
    if b.d:
        pre = b
        for l in lits:
            r = r + pre.guarded(neg(l))
            pre = pre.guarded(l)
    return r


# ---------------------------------------------------------------- opaque functions
def _square_root(s):
    """(c, r) with s = c r^2 for a sum s of at most twenty plain real monomials which is the square of a sum, None for any other."""
    if not 3 <= len(s.d) <= 20:
        return None
    ld = _lead(s)
    if ld is None or any(c[1] != 0 for c in s.d.values()):
        return None
    c = ld[1]
    s = s * E(Fraction(1) / c[0])
    if any(k * Fraction(1, 2) != k // 2 for _, k in ld[0]):
        return None
    r = lead = Expr({(m_norm({a: k / 2 for a, k in ld[0]}), (), (), frozenset()): (F1, F0)})
    half = recip(lead * 2)
    for _ in range(len(s.d)):
        rem = s - r * r
        if not rem.d:
            return c[0], r
        top = _lead(rem)
        if top is None:
            if len(rem.d) != 1:
                return None
            ((m, _x, _b, _d), k), = rem.d.items()
            if _x or _b or _d:
                return None
            top = m, k
        r = r + Expr({(top[0], (), (), frozenset()): top[1]}) * half
    return None


def recip(e: Expr):
    e = E(e)
    if len(e.d) == 1:
        ((m, x, b, d), c), = e.d.items()
        if not b and not d:
            return Expr({(m_norm({a: -k for a, k in m}), ex_norm({mm: (-q[0], -q[1]) for mm, q in x}), (), d): cinv(c)})
    if not e.d:
        raise SymError("division by zero")
    # pull out a common numeric factor
    s = simplify(e)
    if len(s.d) == 1 and s.d != e.d:
        return recip(s)
    if not s.d:
        raise SymError("division by zero")
    q = _square_root(s)
    if q is not None:  # 1 / (c r^2) = (1 / r)^2 / c
        return recip(q[1]) ** 2 * recip(E(q[0]))
    return Expr.atom(("fn", "rrecip" if s.is_real() else "recip", (Frozen(s),)))


def sqrt(e: Expr):
    e = simplify(E(e))
    if not e.d:
        return e
    if len(e.d) == 1:
        ((m, x, b, d), c), = e.d.items()
        if not b and not d and c[1] == 0 and c[0] > 0 and not x and all(is_pos_atom(a) for a, _ in m):
            return _fold(Expr({(m_norm({a: k / 2 for a, k in m}), (), (), d): (F1, F0)}) * _qpow(c[0], Fraction(1, 2)))
    g = _square_factor(e)
    if g is not None:
        r = Expr({(m_norm({a: -2 * k for a, k in g.items()}), (), (), frozenset()): (F1, F0)})
        return Expr({(m_norm(dict(g)), (), (), frozenset()): (F1, F0)}) * sqrt(e * r)
    return Expr.atom(("fn", "sqrtp" if e.is_real() or not simplify(e - e.conj()).d else "csqrt", (Frozen(e),)))


def _square_factor(e):
    """{atom: k} with prod atom^(2k) a common factor of every term, the product known to be nonnegative."""
    common = None
    for (m, x, b, d) in e.d:
        if b or d:
            return None
        t = dict(m)
        common = t if common is None else {a: _low(k, t[a]) for a, k in common.items() if a in t and k * t[a] > 0}
    g = {}
    for a, k in (common or {}).items():
        if a[0] == "fn":
            continue
        if not is_pos_atom(a):
            if k.denominator != 1 or a[0] != "ix" or k < 2 or not logic.entailed(logic.ge(Poly.atom(a))):
                continue
            k = k // 2 * 2
        g[a] = Fraction(k) / 2
    return g or None


def _low(p, q):
    return min(p, q) if p > 0 else max(p, q)


def square(e: Expr):
    r = e * e
    r.sq = e
    return r


def _even_root(m):
    return any(a[0] == "fn" and a[1] in ("sqrtp", "csqrt") and not -2 < k < 2 for a, k in m)


def _exp_cases(e, guards):
    """exp of a sum with terms that are present under a condition only: one term per case."""
    g = guards[0]
    t, f = Expr({}), Expr({})
    for (m, x, b, d), c in e.d.items():
        if d == g and not b and not x:
            t = t + Expr({(m, x, b, frozenset()): c})
        else:
            o = Expr({(m, x, b, d): c})
            t, f = t + o, f + o
    return ite_conj(sorted(g, key=repr), exp(t), exp(f))


def is_pos_expr(e):
    """Visibly positive: a sum of products of positive factors, or the exponential of such a sum less one."""
    one = ((), (), (), frozenset())
    if len(e.d) == 2 and e.d.get(one) == (Fraction(-1), F0):
        ((m, x, b, d), c), = ((k, c) for k, c in e.d.items() if k != one)
        if len(m) == 1 and m[0][0][:2] == ("fn", "expr") and m[0][1] == 1 and not x and not b and not d:
            return c[1] == 0 and c[0] >= 1 and is_pos_expr(m[0][0][2][0].expr())
        return not m and not b and not d and c[1] == 0 and c[0] >= 1 and all(
            q[1] == 0 and q[0] > 0 and all(is_pos_atom(a) for a, _ in mm) for mm, q in x)
    return bool(e.d) and all(
        not b and not d and c[1] == 0 and c[0] > 0 and all(is_pos_atom(a) for a, _ in m)
        and all(q[1] == 0 and all(is_real_atom(a) for a, _ in mm) for mm, q in x)
        for (m, x, b, d), c in e.d.items()
    )


def log(e):
    e = simplify(E(e))
    if not is_pos_expr(e):
        return Expr.atom(("fn", "clog", (Frozen(e),)))
    if len(e.d) > 1:
        return Expr.atom(("fn", "log", (Frozen(e),)))
    ((m, x, _, _), c), = e.d.items()
    out = E(0) if c == (F1, F0) else Expr.atom(("fn", "log", (Frozen(Expr({((), (), (), frozenset()): c})),)))
    for a, k in m:
        out = out + Expr.atom(("fn", "log", (Frozen(Expr.atom(a)),))) * E(k)
    for mm, q in x:
        out = out + Expr({(mm, (), (), frozenset()): q})
    return out


def pos_pow(e, k):
    """e ** k for a positive e and a real k."""
    return exp(log(e) * k)


def exp(e: Expr):
    """exp of an expression; keeps sums of plain monomials in the exponent."""
    e = E(e)
    e = simplify(e) if any(b or d or _even_root(m) for (m, _, b, d) in e.d) else e
    guards = {d for (m, x, b, d) in e.d if d and not b and not x}
    if guards and len(guards) <= 4:
        return _exp_cases(e, sorted(guards, key=repr))
    ex = {}
    for (m, x, b, d), c in e.d.items():
        if x or b or d:
            return Expr.atom(("fn", "expr" if e.is_real() else "cexp", (Frozen(e),)))
        ex[m] = c
    out = E(1)
    for m, c in [t for t in ex.items()]:
        if len(m) == 1 and m[0][0][0] == "fn" and m[0][0][1] == "log" and m[0][1] == 1 and c[1] == 0 and c[0].denominator == 1:
            del ex[m]
            out = out * m[0][0][2][0].expr() ** int(c[0])
        elif len(m) == 1 and m[0][0][:2] == ("fn", "angle") and m[0][1] == 1 and c[0] == 0 and c[1].denominator == 1:
            del ex[m]
            u = unit(m[0][0][2][0].expr())
            out = out * (u if c[1] > 0 else u.conj()) ** abs(int(c[1]))
    return out * Expr({((), ex_norm(ex), (), frozenset()): (F1, F0)})


def unit(e):
    """exp(i angle(e)): e / |e|, or 1 where e is zero."""
    e = simplify(E(e))
    return E(1) if is_pos_expr(e) else Expr.atom(("fn", "unit", (Frozen(e),)))


def angle(e):
    e = simplify(E(e))
    return E(0) if is_pos_expr(e) else Expr.atom(("fn", "angle", (Frozen(e),)))


def close(a, b):
    """Whether two numbers are close: 0 or 1, nothing else is known of it."""
    return Expr.atom(("fn", "close", (Frozen(simplify(E(a))), Frozen(simplify(E(b))))))


def fn(name, *args):
    return Expr.atom(("fn", name, tuple(Frozen(simplify(E(a))) if not isinstance(a, (str, Poly, Fraction)) else a for a in args)))


REBUILD["rrecip"] = recip
REBUILD["log"] = log
REBUILD["clog"] = log
REBUILD["recip"] = recip
REBUILD["sqrtp"] = sqrt
REBUILD["csqrt"] = sqrt
REBUILD["expr"] = exp
REBUILD["cexp"] = exp
REBUILD["unit"] = unit
REBUILD["angle"] = angle
REBUILD["close"] = close


# ---------------------------------------------------------------- printing
def mono_str(m):
    from .poly import aname

    def nm(a):
        if a[0] == "app":
            s = f"{a[1]}[{','.join(map(repr, a[2]))}]"
            return f"conj({s})" if a[3] else s
        if a[0] == "r":
            return a[1]
        if a[0] == "q":
            return str(a[1])
        if a[0] == "fn":
            return f"{a[1]}({','.join(repr(x.expr()) if isinstance(x, Frozen) else repr(x) for x in a[2])})"
        return aname(a)

    return "*".join(nm(a) + (f"^({e})" if e != 1 else "") for a, e in m)


def term_str(k, c):
    from .logic import lit_str

    m, x, b, d = k
    s = f"({c[0]}" + (f"+{c[1]}i" if c[1] else "") + ")"
    if m:
        s += "*" + mono_str(m)
    if x:
        s += "*exp(" + "+".join(f"({q[0]}+{q[1]}i)*{mono_str(mm)}" for mm, q in x) + ")"
    if b:
        s = f"Sum_{{{','.join(v[1] for v in b)}}} " + s
    if d:
        s += " [" + " & ".join(sorted(lit_str(l) for l in d)) + "]"
    return s


# ---------------------------------------------------------------- canonical naming of bound variables
def _shape(o, col):
    """Structure of a term component with bound variables replaced by colours (name independent)."""
    t = type(o)
    if t is Poly:
        return ("P", *sorted(((_mono_shape(m, col), c) for m, c in o.t.items()), key=repr))
    if t is Frozen:
        out = []
        for (m, x, b, d), c in o.expr().d.items():
            col2 = {**col, **{v: "inner" for v in b}} if b else col
            out.append((_comp_shapes(m, x, d, col2), len(b), c))
        return ("F", *sorted(out, key=repr))
    if t is tuple:
        if len(o) == 2 and o[0] == "ix":
            c = col.get(o)
            return o if c is None else ("?", c)
        return tuple(_shape(z, col) for z in o)
    if t is frozenset:
        return ("S", *sorted((_shape(z, col) for z in o), key=repr))
    return o


def _mono_shape(m, col):
    return tuple(sorted(((_shape(a, col), e) for a, e in m), key=repr))


def _comp_shapes(m, x, d, col):
    return (
        tuple(sorted(((_shape(a, col), e) for a, e in m), key=repr)),
        tuple(sorted(((_mono_shape(mm, col), q) for mm, q in x), key=repr)),
        tuple(sorted((_shape(l, col) for l in d), key=repr)),
    )


def var_orders(m, x, d, b, limit=720):
    """Orderings of the bound variables that a canonical form has to consider."""
    if len(b) <= 1:
        return [tuple(b)]
    comps = [("m", z) for z in m] + [("x", z) for z in x] + [("d", z) for z in d]

    def atoms_of(k, z):
        if k == "m":
            return atom_atoms(z[0])
        if k == "x":
            return mono_atoms(z[0])
        return logic.lit_atoms(z)

    bs = set(b)
    occ = [(k, z, atoms_of(k, z) & bs) for k, z in comps]
    occ = [o for o in occ if o[2]]
    col = dict.fromkeys(b, 0)

    def refine(col):
        while True:
            sig = {v: [] for v in b}
            for k, z, vs in occ:
                for v in vs:
                    c2 = {**col, v: ("me", col[v])}
                    if k == "x":
                        s = (_mono_shape(z[0], c2), z[1])
                    else:
                        s = _shape(z, c2)
                    sig[v].append(repr((k, s)))
            full = {v: (col[v], tuple(sorted(sig[v]))) for v in b}
            ranks = {s: i for i, s in enumerate(sorted(set(full.values())))}
            new = {v: ranks[full[v]] for v in b}
            if len(ranks) == len(set(col.values())):
                return new
            col = new

    out = []

    def search(col):
        if len(out) >= limit:
            return
        col = refine(col)
        classes: dict = {}
        for v in b:
            classes.setdefault(col[v], []).append(v)
        tie = next((c for c in sorted(classes) if len(classes[c]) > 1), None)
        if tie is None:
            out.append(tuple(sorted(b, key=lambda v: col[v])))
            return
        for v in classes[tie]:
            search({w: (2 * col[w] + (0 if w == v or col[w] != tie else 1)) for w in b})

    search(col)
    return out


def _canon_term(key):
    m, x, b, d = key
    best = None
    for o in var_orders(m, x, d, b):
        col = {v: i for i, v in enumerate(o)}
        s = (*_comp_shapes(m, x, d, col), len(b))
        if best is None or repr(s) < best[0]:
            best = (repr(s), s)
    return best[1]


# ---------------------------------------------------------------- simplification
def simplify(e: Expr, rounds=60) -> Expr:
    """Eliminate bound variables where a closed rule applies; prune guards."""
    from .simp import simplify as s

    return s(e, rounds)
