"""Integer literals, path context and the SMT back end."""
from __future__ import annotations

import math
import sys
import time

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from .poly import ONE, ZERO, P, Poly, aname, mmul  # noqa: E402

TRUE = ("true",)
FALSE = ("false",)


class SymError(Exception):
    """The executed code did something its run-time semantics forbids (shape mismatch ...)."""


class Unsupported(Exception):
    """The engine has no model for what the code does."""


class Budget(Exception):
    """Symbolic execution exceeded its time or path budget."""


def ge(p):
    p = P(p)
    if p.is_const():
        return TRUE if p.cval() >= 0 else FALSE
    g = 0
    for m, c in p.t.items():
        if m != ():
            g = math.gcd(g, c)
    if g > 1:
        p = Poly({m: (c // g) for m, c in p.t.items() if c // g})
    return ("ge", p)


def le(a, b):
    return ge(P(b) - P(a))


def lt(a, b):
    return ge(P(b) - P(a) - 1)


def eq(a, b=0):
    p = P(a) - P(b)
    if p.is_const():
        return TRUE if p.cval() == 0 else FALSE
    g = 0
    for m, c in p.t.items():
        if m != ():
            g = math.gcd(g, c)
    c0 = p.t.get((), 0)
    if c0 % g:
        return FALSE
    lead = p.key()[-1][1]
    if lead < 0:
        g = -g
    if g != 1:
        p = Poly({m: c // g for m, c in p.t.items()})
    return ("eq", p)


def neg(l):
    if l is TRUE or l == TRUE:
        return FALSE
    if l == FALSE:
        return TRUE
    if l[0] == "ge":
        return ge(-l[1] - 1)
    if l[0] == "eq":
        return ("ne", l[1])
    if l[0] == "ne":
        return ("eq", l[1])
    if l[0] == "b":
        return ("b", l[1], not l[2])
    raise AssertionError(l)


def lit_poly(l):
    return l[1] if l[0] in ("ge", "eq", "ne") else None


def lit_atoms(l):
    p = lit_poly(l)
    return p.all_atoms() if p is not None else frozenset()


def lit_str(l):
    if l[0] == "ge":
        return f"{l[1]!r}>=0"
    if l[0] == "eq":
        return f"{l[1]!r}==0"
    if l[0] == "ne":
        return f"{l[1]!r}!=0"
    return str(l)


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3_time = 0.0
        self.quick = 0
        self.unknown = 0


STATS = Stats()


class Ctx:
    """Facts known on the current path."""

    def __init__(self):
        self.facts: list = []
        self.size_lo: dict = {}
        self.cache: dict = {}
        self.ia_bounds: dict = {}
        self.order: list = []
        self.fresh_n = 0
        self.version = 0
        self.deadline = None
        self.dead = False

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget of this case exhausted")

    def fresh(self, base="k"):
        self.fresh_n += 1
        return ("ix", f"{base}!{self.fresh_n}")

    def push(self, lits):
        n = len(self.facts)
        for l in lits:
            if l != TRUE:
                self.facts.append(l)
        return n

    def pop(self, n):
        del self.facts[n:]


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


# ---------------------------------------------------------------- quick bounds
def _nonneg_syntactic(p: Poly, lo):
    for m, c in p.t.items():
        if m == ():
            continue
        if c < 0:
            return False
        for a, _ in m:
            if a not in lo:
                return False
    # minimum at the lower bounds
    tot = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            v *= lo[a] ** e
        tot += v
    return tot >= 0


def _quick(lit, facts):
    c = CTX
    if lit in facts:
        return True
    k = lit[0]
    if k == "ge":
        if _nonneg_syntactic(lit[1], c.size_lo):
            return True
        for f in facts:
            if f[0] in ("ge", "eq"):
                d = lit[1] - f[1]
                if _nonneg_syntactic(d, c.size_lo):
                    return True
                if f[0] == "eq" and _nonneg_syntactic(lit[1] + f[1], c.size_lo):
                    return True
    elif k == "ne":
        p = lit[1]
        if _nonneg_syntactic(p - 1, c.size_lo) or _nonneg_syntactic(-p - 1, c.size_lo):
            return True
    return False


# ---------------------------------------------------------------- z3 translation
class Z3T:
    """Translate polynomials; nonlinear monomials abstracted when lin=True."""

    def __init__(self, lin):
        self.lin = lin
        self.vars = {}
        self.side = []
        self.monos = {}
        self.nonlinear = False

    def atom(self, a):
        v = self.vars.get(a)
        if v is not None:
            return v
        v = z3.Int(aname(a) if a[0] != "fd" else f"fd#{len(self.vars)}#{hash(a) & 0xffffff}")
        self.vars[a] = v
        lo = CTX.size_lo.get(a)
        if lo is not None:
            self.side.append(v >= lo)
        if a[0] == "ia" and a[1] in CTX.ia_bounds:
            blo, bhi = CTX.ia_bounds[a[1]]
            if blo is not None:
                self.side.append(v >= self.poly(blo))
            if bhi is not None:
                self.side.append(v < self.poly(bhi))
        if a[0] == "fd":
            num, den = a[1], a[2]
            qd = Poly.atom(a) * den
            zq = self.poly(qd)
            zn = self.poly(num)
            zd = self.poly(den)
            self.side.append(zq <= zn)
            self.side.append(zn < zq + zd)
        return v

    def poly(self, p: Poly):
        r = []
        for m, c in p.t.items():
            if m == ():
                r.append(z3.IntVal(c))
                continue
            if len(m) == 1 and m[0][1] == 1:
                x = self.atom(m[0][0])
            else:
                for a, _ in m:
                    self.atom(a)
                if self.lin:
                    self.nonlinear = True
                    x = self.monos.get(m)
                    if x is None:
                        x = self.monos[m] = z3.Int("m!" + "*".join(f"{aname(a)}^{e}" for a, e in m))
                        if all(a in CTX.size_lo for a, _ in m):
                            lo = 1
                            for a, e in m:
                                lo *= CTX.size_lo[a] ** e
                            self.side.append(x >= lo)
                            for a, e in m:
                                if all(CTX.size_lo[b] >= 1 for b, _ in m):
                                    self.side.append(x >= self.vars[a])
                else:
                    x = None
                    for a, e in m:
                        for _ in range(e):
                            x = self.vars[a] if x is None else x * self.vars[a]
            r.append(x if c == 1 else c * x)
        if not r:
            return z3.IntVal(0)
        return z3.Sum(r) if len(r) > 1 else r[0]

    def lit(self, l):
        k = l[0]
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "ge":
            return self.poly(l[1]) >= 0
        if k == "eq":
            return self.poly(l[1]) == 0
        if k == "ne":
            return self.poly(l[1]) != 0
        if k == "b":
            b = z3.Bool("b!" + str(l[1]))
            return b if l[2] else z3.Not(b)
        raise AssertionError(l)


def _degree(l):
    return max((sum(e for _, e in m) for m in l[1].t), default=0) if l[0] in ("ge", "eq", "ne") else 0


def _relevant(goal_lits, facts):
    """Facts connected to the goal through index (non-size) atoms, plus pure size facts."""
    want = set()
    for l in goal_lits:
        want |= lit_atoms(l)
    deg = max([3, *(_degree(l) for l in goal_lits)])
    sel = []
    rest = [(f, lit_atoms(f)) for f in facts]
    changed = True
    while changed:
        changed = False
        nrest = []
        for f, at in rest:
            ixs = {a for a in at if a[0] != "sz"}
            if not ixs and _degree(f) > deg:
                # a bound on the total amount of data says nothing about an index
                continue
            if f[0] == "b" or (ixs & want) or (not ixs and (at & want)):
                sel.append(f)
                new = at - want
                if new:
                    want |= new
                    changed = True
            else:
                nrest.append((f, at))
        rest = nrest
    return sel


def _products(tr, lits):
    """Sound product lemmas: fact>=0 times size>=1, and fact*fact, for monomials in play."""
    out = []
    sizes = set()
    for m in list(tr.monos):
        for a, _ in m:
            if a in CTX.size_lo:
                sizes.add(a)
    ges = []
    for l in lits:
        if l[0] == "ge":
            ges.append(l[1])
        elif l[0] == "eq":
            ges.append(l[1])
            ges.append(-l[1])
    monoset = set(tr.monos)
    for s in sizes:
        for g in ges:
            if any(len(m) == 1 and m[0][1] == 1 and mmul(m, ((s, 1),)) in monoset for m in g.t):
                out.append(ge(g * Poly.atom(s)))
    return out


def model_check(lits, timeout=3000, want_model=False):
    """Satisfiability of a conjunction of literals: 'unsat' | 'sat' | 'unknown'."""
    if any(l == FALSE for l in lits):
        return ("unsat", None) if want_model else "unsat"
    t0 = time.time()
    STATS.queries += 1
    try:
        tr = Z3T(lin=True)
        zl = [tr.lit(l) for l in lits if l != TRUE]
        extra = []
        if tr.nonlinear:
            ex = _products(tr, lits)
            extra = [tr.lit(l) for l in ex]
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(zl + extra + tr.side)
        r = s.check()
        if r == z3.unsat:
            return ("unsat", None) if want_model else "unsat"
        if not tr.nonlinear and r == z3.sat:
            return ("sat", s.model()) if want_model else "sat"
        tr = Z3T(lin=False)
        zl = [tr.lit(l) for l in lits if l != TRUE]
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(zl + tr.side)
        r = s.check()
        if r == z3.unsat:
            return ("unsat", None) if want_model else "unsat"
        if r == z3.sat:
            return ("sat", s.model()) if want_model else "sat"
        STATS.unknown += 1
        return ("unknown", None) if want_model else "unknown"
    finally:
        STATS.z3_time += time.time() - t0


def entailed(lit, facts=None, timeout=2000):
    """True iff the facts imply the literal (sound; False means not shown)."""
    if lit == TRUE:
        return True
    base = CTX.facts if facts is None else facts
    if lit == FALSE and not base:
        return False
    if _quick(lit, base):
        STATS.quick += 1
        return True
    nl = neg(lit)
    rel = _relevant([nl], base) if lit != FALSE else list(base)
    key = (nl, frozenset(rel))
    c = CTX.cache.get(key)
    if c is None:
        CTX.check_deadline()
        c = model_check([*rel, nl], timeout) == "unsat"
        CTX.cache[key] = c
    return c


def inconsistent(facts=None):
    base = CTX.facts if facts is None else facts
    key = ("inc", frozenset(base))
    c = CTX.cache.get(key)
    if c is None:
        c = any(f == FALSE for f in base) or model_check(list(base), 1500) == "unsat"
        CTX.cache[key] = c
    return c


def decide(lit, facts=None):
    """True / False / None."""
    if lit == TRUE:
        return True
    if lit == FALSE:
        return False
    if entailed(lit, facts):
        return True
    if entailed(neg(lit), facts):
        return False
    return None


# ---------------------------------------------------------------- floor division
def fdiv(p, m):
    p, m = P(p), P(m)
    if m == ONE:
        return p
    if m.is_const() and m.cval() == -1:
        return -p
    if not m.t:
        raise SymError("integer division by zero")
    if m.is_const() and m.cval() < 0:
        return fdiv(-p, -m)
    if p.is_const() and m.is_const():
        return Poly.const(p.cval() // m.cval())
    q = ZERO
    r = p
    if len(m.t) == 1:
        (mono, k), = m.t.items()
        q, r = p.divide_mono(mono, k)
    else:
        e = p.exact_div(m)
        if e is not None:
            return e
        if p.t and not m.is_const():
            # fold off multiples of m when p-m*c is smaller
            lead = max(m.t, key=lambda mm: (len(mm), str(mm)))
            if lead in p.t and p.t[lead] % m.t[lead] == 0:
                c = p.t[lead] // m.t[lead]
                q = Poly.const(c)
                r = p - m * c
    if not r.t:
        return q
    if r.is_const() and m.is_const():
        return q + r.cval() // m.cval()
    if len(r.t) == 1 and m != ONE:
        (mono, k), = r.t.items()
        if k == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0][0] == "fd":
            x, y = mono[0][0][1:3]
            d = x.exact_div(m)
            if d is not None and decide(ge(m - 1)) is True:
                # floor(floor(m d / y) / m) = floor(floor(m d / m) / y)
                return q + fdiv(d, y)
    if not m.is_const() and decide(ge(m - 1)) is not True:
        if decide(ge(-m - 1)) is True:
            return q + fdiv(-r, -m)
        raise Unsupported(f"floor division by a term of unknown sign: {m!r}")
    # small quotient resolution
    if m.is_const() and len(r.t) == 1 and () not in r.t and m.cval() == 1:
        return q + r
    if entailed(ge(r)):
        if entailed(lt(r, m)):
            return q
        if entailed(ge(r - m)) and entailed(lt(r, m * 2)):
            return q + 1
    elif entailed(ge(r + m)) and entailed(lt(r, 0)):
        return q - 1
    if not m.is_const():
        g = 0
        for k in m.t.values():
            g = math.gcd(g, abs(k))
        if g > 1:
            # floor(r / (g m')) = floor(floor(r / g) / m')
            return q + fdiv(fdiv(r, Poly.const(g)), Poly({mo: k // g for mo, k in m.t.items()}))
    if len(m.t) == 1 and not m.is_const():
        # fd(r, a*b) = fd(fd(r, a), b) when the inner division can be carried out in part
        (mono, k), = m.t.items()
        facs = [a for a, e in mono for _ in range(e)] if k == 1 else []
        if len(facs) > 1 and all(e > 0 for _, e in mono):
            for i, a in enumerate(facs):
                pa = Poly.atom(a)
                q1, r1 = r.divide_mono(((a, 1),), 1)
                if q1.t:
                    rest = ONE
                    for j, b in enumerate(facs):
                        if j != i:
                            rest = rest * Poly.atom(b)
                    if decide(ge(pa - 1)) is True and decide(ge(rest - 1)) is True:
                        return q + fdiv(q1 + fdiv(r1, pa), rest)
    if m.is_const() and m.cval() == 2 and r.t.get((), 0) % 2 == 1 and len(r.t) > 1:
        c = r.t[()]
        r0 = r - c  # floor((r0 + 1) / 2) = r0 - floor(r0 / 2)
        return q + (c - 1) // 2 + r0 - fdiv(r0, m)
    if r.t:
        lead = max(r.t, key=lambda mm: (len(mm), str(mm)))
        if r.t[lead] < 0 and lead != ():
            return q - 1 - fdiv(-r - 1, m)
    return q + Poly.atom(("fd", r, m))


def fmod(p, m):
    p, m = P(p), P(m)
    return p - m * fdiv(p, m)


def subst(p: Poly, env: dict) -> Poly:
    """Substitute atoms (deeply) by Polys."""
    if not env:
        return p
    if not (p.all_atoms() & env.keys()):
        return p
    out = ZERO
    for m, c in p.t.items():
        t = Poly.const(c)
        for a, e in m:
            if a in env:
                b = env[a]
            elif a[0] == "fd" and ((a[1].all_atoms() | a[2].all_atoms()) & env.keys()):
                b = fdiv(subst(a[1], env), subst(a[2], env))
            elif a[0] == "ia" and any(x.all_atoms() & env.keys() for x in a[2]):
                b = Poly.atom(("ia", a[1], tuple(subst(x, env) for x in a[2])))
            else:
                b = Poly.atom(a)
            t = t * b ** e
        out = out + t
    return out


def lit_subst(l, env):
    if l[0] == "ge":
        return ge(subst(l[1], env))
    if l[0] == "eq":
        return eq(subst(l[1], env))
    if l[0] == "ne":
        return neg(eq(subst(l[1], env)))
    return l


def re_simplify(p: Poly) -> Poly:
    """Re-evaluate floor divisions under the current facts."""
    fds = [a for a in p.all_atoms() if a[0] == "fd"]
    if not fds:
        return p
    out = ZERO
    for m, c in p.t.items():
        t = Poly.const(c)
        for a, e in m:
            if a[0] == "fd":
                b = fdiv(re_simplify(a[1]), re_simplify(a[2]))
            elif a[0] == "ia":
                b = Poly.atom(("ia", a[1], tuple(re_simplify(x) for x in a[2])))
            else:
                b = Poly.atom(a)
            t = t * b ** e
        out = out + t
    return out
