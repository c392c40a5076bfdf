"""Integer terms: polynomials with integer coefficients over integer atoms.

Atoms are interned tuples:
  ("sz", name)            size symbol, known >= lo (default 1)
  ("ix", name)            index / integer variable, no intrinsic range
  ("fd", Poly, Poly)      floor division
  ("ia", name, args)      application of an integer valued input array
"""
from __future__ import annotations

from fractions import Fraction

_order: dict = {}


def akey(a):
    """Total order on atoms that is stable within a run (by structural repr)."""
    k = _order.get(a)
    if k is None:
        k = _order[a] = repr(a)
    return k


class Poly:
    __slots__ = ("t", "_h", "_s")

    def __init__(self, terms: dict):
        self.t = terms
        self._h = None
        self._s = None

    # --- constructors
    @staticmethod
    def const(c: int) -> "Poly":
        c = int(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a) -> "Poly":
        return Poly({((a, 1),): 1})

    # --- basics
    def key(self):
        if self._s is None:
            self._s = tuple(sorted(self.t.items(), key=lambda kv: [(akey(a), e) for a, e in kv[0]]))
        return self._s

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in self.key():
            s = "*".join(aname(a) + (f"^{e}" if e != 1 else "") for a, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(f"{c}*{s}")
        return "+".join(out).replace("+-", "-")

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if o.is_const():
            c = o.cval()
            return self if c == 1 else Poly({m: k * c for m, k in self.t.items()})
        r: dict = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def __pow__(self, k):
        r = ONE
        for _ in range(k):
            r = r * self
        return r

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def all_atoms(self):
        """Atoms including those nested in floor divisions and applications."""
        out = set()
        for a in self.atoms():
            out.add(a)
            if a[0] == "fd":
                out |= a[1].all_atoms() | a[2].all_atoms()
            elif a[0] == "ia":
                for p in a[2]:
                    out |= p.all_atoms()
        return out

    def coeff_linear(self, a):
        """(c, rest) with self = c*a + rest and a not in c, rest; None if not linear in a."""
        c: dict = {}
        rest: dict = {}
        for m, k in self.t.items():
            e = dict(m).get(a, 0)
            if e == 0:
                rest[m] = k
            elif e == 1:
                c[tuple(x for x in m if x[0] != a)] = k
            else:
                return None
        return Poly(c), Poly(rest)

    def divide_mono(self, m, k):
        """Split self = (k*m)*q + r with r's monomials not divisible."""
        q: dict = {}
        r: dict = {}
        for mm, c in self.t.items():
            d = mdiv(mm, m)
            if d is None:
                r[mm] = c
                continue
            a, b = divmod(c, k)
            if m == () and mm == ():
                if a:
                    q[d] = a
                if b:
                    r[mm] = b
            elif b == 0:
                q[d] = a
            elif m == ():
                if a:
                    q[d] = a
                r[mm] = b
            else:
                if a:
                    q[d] = a
                r[mm] = b
        return Poly(q), Poly(r)

    def exact_div(self, o: "Poly"):
        """Poly q with self == q*o or None (monomial divisor, or general via leading terms)."""
        if not self.t:
            return ZERO
        if len(o.t) == 1:
            (m, k), = o.t.items()
            q, r = self.divide_mono(m, k)
            return q if not r.t else None
        if self == o:
            return ONE
        # multivariate long division by leading monomial
        lead = max(o.t, key=_mono_order)
        q = ZERO
        r = self
        for _ in range(50):
            if not r.t:
                return q
            lm = max(r.t, key=_mono_order)
            d = mdiv(lm, lead)
            if d is None or r.t[lm] % o.t[lead]:
                return None
            qq = Poly({d: r.t[lm] // o.t[lead]})
            q = q + qq
            r = r - qq * o
        return None


def _mono_order(m):
    return (sum(e for _, e in m), [(akey(a), e) for a, e in m])


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: akey(x[0])))


def mdiv(m, d):
    if not d:
        return m
    r = dict(m)
    for a, e in d:
        v = r.get(a, 0) - e
        if v < 0:
            return None
        if v:
            r[a] = v
        else:
            r.pop(a)
    return tuple(sorted(r.items(), key=lambda x: akey(x[0])))


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x) -> Poly:
    if isinstance(x, Poly):
        return x
    if hasattr(x, "_poly"):
        return x._poly
    if isinstance(x, Fraction) and x.denominator == 1:
        return Poly.const(x.numerator)
    if isinstance(x, (float,)) and not float(x).is_integer():
        raise TypeError(f"not an integer: {x!r}")
    return Poly.const(int(x))


def aname(a):
    if a[0] in ("sz", "ix"):
        return a[1]
    if a[0] == "fd":
        return f"fd({a[1]!r},{a[2]!r})"
    if a[0] == "ia":
        return f"{a[1]}({','.join(map(repr, a[2]))})"
    return str(a)
