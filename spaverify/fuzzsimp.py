"""The simplification rules against evaluation: random sums, simplified, must keep their value, and whatever the rules
prove to be zero must evaluate to zero."""
import itertools
import random
import sys
import time
from fractions import Fraction

import numpy as np

from . import expr as X
from . import logic, simp, sym
from .expr import E, Expr, Frozen  # noqa: F401
from .logic import eq, fdiv, ge, lt, neg

from .poly import P, Poly


def ne(p):
    return neg(eq(p))


def mod(p, m):
    return P(p) - P(m) * fdiv(p, m)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        ctx = logic.Ctx()
        ctx.deadline = time.time() + 6
        logic.set_ctx(ctx)
        X.reset_registry()
        ctx.size_lo.clear()
        self.n, self.m = (Poly.atom(("sz", k)) for k in "nm")
        for k in "nm":
            ctx.size_lo[("sz", k)] = 1
        self.e = Poly.atom(("ix", "e"))
        self.size_e = self.r.choice([self.n, self.n * self.m])
        logic.CTX.facts += [ge(self.e), lt(self.e, self.size_e)]
        self.k = 0

    def var(self):
        self.k += 1
        return ("ix", f"b{self.k}")

    def size(self):
        return self.r.choice([self.n, self.n, self.m, self.n * self.m])

    def point(self, vs):
        """A random index expression of the variables."""
        r = self.r
        p = Poly.const(r.choice([0, 0, 0, 1, -1]))
        for v in [*vs, None]:
            a = self.e if v is None else Poly.atom(v)
            c = r.choice([0, 1, 1, -1, 2] if v is not None else [0, 0, 1, -1])
            p = p + a * c
        if r.random() < 0.3:
            p = p + r.choice([self.n, self.m, fdiv(self.n, 2), fdiv(self.n, 2) * -1])
        return p

    def special(self, vs):
        r = self.r
        k = r.random()
        p, s = self.point(vs), self.size()
        if k < 0.35:
            return p
        if k < 0.65:
            return mod(p, s)
        if k < 0.8:
            return fdiv(p, s)
        h = fdiv(s, 2)
        return mod(p + h, s) - h

    def lit(self, vs):
        r = self.r
        p, q = self.special(vs), r.choice([Poly.const(r.choice([0, 1])), self.e, self.special(vs), fdiv(self.n, 2)])
        return r.choice([eq, eq, ne, ge, ge])(p - q)

    def term(self):
        r = self.r
        nv = r.choice([0, 1, 1, 2, 2, 3])
        vs = [self.var() for _ in range(nv)]
        e = E(Fraction(r.choice([1, 1, 2, -1]), r.choice([1, 1, 2])))
        if r.random() < 0.8:
            e = e * Expr.app(r.choice("ab"), (self.special(vs),), conj=r.random() < 0.2)
        if r.random() < 0.3:
            e = e * Expr.app("c", (self.special(vs), self.special(vs)))
        if r.random() < 0.6 and vs:
            v = Poly.atom(r.choice(vs))
            e = e * Expr.cis(v * r.choice([self.e, *[Poly.atom(w) for w in vs if Poly.atom(w) != v], Poly.const(1)]) * r.choice([1, -1]), r.choice([self.n, self.n * self.m]))
        for _ in range(r.choice([0, 1, 1, 2])):
            e = e.guarded(self.lit(vs))
        for v in vs:
            e = e.sum_over(v, self.size())
        return e

    def expr(self):
        e = self.term()
        if self.r.random() < 0.4:
            e = e + self.term()
        return e

    def mutate(self, e):
        """A similar expression: one index, bound or sign changed, or nothing."""
        r = self.r
        out = {}
        for (m, x, b, d), c in e.d.items():
            k = r.random()
            d2 = set(d)
            if k < 0.3 and d2:
                l = r.choice(sorted(d2, key=repr))
                if l[0] in ("ge", "eq", "ne"):
                    d2.discard(l)
                    d2.add((l[0], l[1] + r.choice([1, -1])))
            elif k < 0.4 and d2:
                l = r.choice(sorted(d2, key=repr))
                if l[0] in ("eq", "ne"):
                    d2.discard(l)
            elif k < 0.5 and b:
                v = r.choice(b)
                e2 = Expr({(m, x, b, d): c})
                w = self.var()
                inner = [(kk, cc) for kk, cc in X._term_subst((m, x, tuple(z for z in b if z != v), d), c, {v: self.n - 1 - Poly.atom(w)})]
                for (mm, xx, bb, dd), cc in inner:
                    X._acc(out, (mm, xx, X._bsort((*bb, w)), dd), cc)
                continue
            X._acc(out, (m, x, b, frozenset(d2)), c)
        return X._fold(Expr(out))


W = 24


def vpoly(p, env):
    t = 0
    for m, c in p.t.items():
        v = c
        for a, k in m:
            v = v * vint(a, env) ** k
        t = t + v
    return t


def vint(a, env):
    if a in env:
        return env[a]
    assert a[0] == "fd", a
    return np.floor_divide(vpoly(a[1], env), vpoly(a[2], env))


def vatom(a, env):
    if a == X.PI:
        return np.pi
    if a[0] == "app":
        v = env[a[1]](*[vpoly(p, env) for p in a[2]])
        return np.conj(v) if a[3] else v
    return vint(a, env)


def vmono(m, env):
    r = 1
    for a, k in m:
        v = vatom(a, env)
        r = r * (v ** int(k) if k >= 0 else (1 / (np.asarray(v, dtype=complex))) ** int(-k))
    return r


def value(e, env):
    tot = 0
    for (m, x, b, d), c in e.d.items():
        env2 = dict(env)
        grid = np.ogrid[tuple(slice(-W, W + 1) for _ in b)] if b else []
        for v, g in zip(b, grid):
            env2[v] = g
        ok = np.ones((2 * W + 1,) * len(b), dtype=bool)
        for l in d:
            if l == logic.TRUE:
                continue
            q = vpoly(l[1], env2)
            ok &= {"ge": lambda q: q >= 0, "eq": lambda q: q == 0, "ne": lambda q: q != 0}[l[0]](np.asarray(q))
        if not ok.any():
            continue
        at = np.nonzero(ok)
        for v, i in zip(b, at):
            env2[v] = i - W
        r = complex(float(c[0]), float(c[1])) * vmono(m, env2) * np.exp(sum((complex(float(q[0]), float(q[1])) * vmono(mm, env2) for mm, q in x), 0j))
        tot += np.sum(np.broadcast_to(r, at[0].shape)) if b else r
    return tot


def values(e, data, sizes, size_e):
    out = []
    for n, m in sizes:
        env = {("sz", "n"): n, ("sz", "m"): m, **data}
        for k in range(int(vpoly(size_e, env))):
            env[("ix", "e")] = k
            out.append(complex(value(e, env)))
    return np.array(out)


SIZES = [(1, 1), (1, 3), (2, 1), (2, 3), (3, 2), (4, 2), (5, 1)]


def main(count=400, seed0=0, verbose=False):
    rng = np.random.default_rng(1)
    tab = rng.normal(size=(2, 97)) + 1j * rng.normal(size=(2, 97))
    t2 = rng.normal(size=(97, 97)) + 1j * rng.normal(size=(97, 97))
    data = {"a": lambda i: tab[0, i % 97], "b": lambda i: tab[1, i % 97], "c": lambda i, j: t2[i % 97, j % 97]}
    bad, zeros, refused, done = [], 0, 0, 0
    for seed in range(seed0, seed0 + count):
        g = Gen(seed)
        try:
            t0 = time.time()
            e = g.expr()
            want = values(e, data, SIZES, g.size_e)
            s = simp.simplify(e)
            got = values(s, data, SIZES, g.size_e)
            done += 1
            if not np.allclose(got, want, atol=1e-8):
                bad.append((seed, "simplify", repr(e), repr(s)))
                continue
            f = g.mutate(e)
            diff = e - f
            dv = values(diff, data, SIZES, g.size_e)
            isz = simp.prove_zero(diff, deadline=time.time() + 4)
            zeros += isz
            if isz and not np.allclose(dv, 0, atol=1e-8):
                bad.append((seed, "prove_zero", repr(e), repr(f)))
            if verbose and time.time() - t0 > 1:
                print(seed, round(time.time() - t0, 2))
        except (sym.Unsupported, sym.SymError, logic.Budget) as x:
            refused += 1
            if verbose:
                print(seed, type(x).__name__, x)
    return bad, done, zeros, refused


if __name__ == "__main__":
    c, s = (int(v) for v in (sys.argv[1:] + ["400", "0"])[:2]) if len(sys.argv) > 2 else (400, 0)
    t = time.time()
    bad, done, zeros, refused = main(c, s)
    for b in bad[:12]:
        print(*b, sep="\n    ")
    print(f"{done} sums, {zeros} differences proved zero, {refused} refused, {len(bad)} wrong in {time.time() - t:.1f}s")
