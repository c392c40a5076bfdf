"""Matrix decompositions of arbitrary matrices of symbolic size.

An eigen-decomposition is represented by fresh array symbols together with exactly the
identities the decomposition guarantees (orthonormality, completeness, reconstruction);
the same matrix always gets the same symbols.  What is assumed about numpy / LAPACK:

* eigh(A): A's lower triangle is used; U is unitary, e real, A = U e U^dagger.
* eig(A): A is diagonalisable (otherwise the functions of the repository that call it are
  undefined); V W = W V = 1, A = V l W with W = inv(V).
* svd(A): A = U diag(s) V with k = min of the two sizes; the columns of U and the rows of V are
  orthonormal, s real.
* inv(A): A is invertible; A X = X A = 1.
"""
from __future__ import annotations

import itertools

from . import expr as X
from . import logic, simp, sym
from .expr import E, Expr, F0, F1, mono_atoms, atom_atoms
from .logic import SymError, Unsupported, entailed, eq, ge, lt
from .poly import ONE, ZERO, P, Poly
from .sym import SymArray, as_sym, gprod, join, split_index


def _range_of(v, d):
    """(lo, hi, lits) when v is bound by exactly one lower and one upper literal."""
    ls = simp._lits_of(v, d)
    if len(ls) != 2:
        return None
    lo = hi = None
    for l in ls:
        if l[0] != "ge":
            return None
        cl = l[1].coeff_linear(v)
        if cl is None or not cl[0].is_const():
            return None
        c = cl[0].cval()
        if c == 1:
            lo = -cl[1]
        elif c == -1:
            hi = cl[1]
    if lo is None or hi is None:
        return None
    return lo, hi, set(ls)


def covers(p, b, d, size):
    """(variables, literals) when p runs exactly once over 0..size-1 as some bound variables run over their ranges."""
    vs = [v for v in b if v in p.all_atoms()]
    for v in vs:
        cl = p.coeff_linear(v)
        if cl is None:
            continue
        c, rest = cl
        if v in rest.all_atoms() or any(w in c.all_atoms() for w in b):
            continue
        r = _range_of(v, d)
        if r is None:
            continue
        lo, hi, ls = r
        if c == ONE:
            if any(w in rest.all_atoms() for w in b):
                continue
            if (lo + rest == ZERO and hi + rest == size - 1) or (entailed(eq(lo + rest, 0)) and entailed(eq(hi + rest, size - 1))):
                return {v}, ls
            continue
        if lo != ZERO or not ((hi + 1) * c == size or entailed(eq((hi + 1) * c, size))):
            continue
        sub = covers(rest, [w for w in b if w != v], d, c)
        if sub is not None and v not in {a for l in sub[1] for a in logic.lit_atoms(l)}:
            return {v} | sub[0], ls | sub[1]
    return None


class MatRule:
    """sum over the common index of some factors -> result of their other arguments.

    factors: (name, position of the summed index, conjugated); every factor containing the
    summed variables must be one of them, each once."""

    def __init__(self, factors, size, result, batch=()):
        self.factors, self.size, self.result = factors, P(size), result
        self.names = {f[0] for f in factors}

    def __call__(self, key, v, lo, hi, l_lo, l_hi):
        m, x, b, d = key
        facs = []
        for a, e in m:
            if v in atom_atoms(a):
                if a[0] != "app" or a[1] not in self.names or e.denominator != 1 or e < 1 or e > len(self.factors):
                    return None
                facs += [a] * int(e)
        if len(facs) != len(self.factors):
            return None
        for perm in itertools.permutations(facs):
            p = None
            for a, (name, pos, cj) in zip(perm, self.factors):
                if a[1] != name or (a[3] != cj and name not in X.REAL):
                    break
                if p is None:
                    p = a[2][pos]
                elif a[2][pos] != p:
                    break
            else:
                cov = covers(p, b, d, self.size)
                if cov is None:
                    continue
                vs, ls = cov
                if any(w in q.all_atoms() for a, f in zip(perm, self.factors) for i, q in enumerate(a[2]) if i != f[1] for w in vs):
                    continue
                rest_m = tuple((a, e) for a, e in m if v not in atom_atoms(a))
                if any(w in atom_atoms(a) for a, _e in rest_m for w in vs) or any(w in mono_atoms(mm) for mm, _ in x for w in vs):
                    continue
                if {w for l in d - frozenset(ls) for w in logic.lit_atoms(l)} & vs:
                    continue
                args = [[q for i, q in enumerate(a[2]) if i != f[1]] for a, f in zip(perm, self.factors)]
                res = self.result(*args)
                if res is None:
                    continue
                rest = Expr({(rest_m, x, tuple(w for w in b if w not in vs), d - frozenset(ls)): (F1, F0)})
                return rest * res
        return None


# ---------------------------------------------------------------- registry of matrices
def _registry():
    r = getattr(logic.CTX, "matrices", None)
    if r is None:
        r = logic.CTX.matrices = []
    return r


def _entry(a, i, j):
    """entry of a two axis array at flat indices"""
    g0, g1 = a.groups
    return a.snapshot()(tuple(split_index(g0, i)) + tuple(split_index(g1, j)))


def _square(a):
    a = as_sym(a)
    if a.ndim != 2:
        raise Unsupported("decomposition of a stack of matrices") if a.ndim > 2 else SymError("matrix must be 2-dimensional")
    n, m = gprod(a.groups[0]), gprod(a.groups[1])
    if not sym.dims_equal(n, m):
        if not sym.choose(eq(n, m)):
            raise SymError("matrix must be square")
    return a, n


class Matrix:
    """A matrix up to provable equality: entry(p, q), its free indices, and a name for its factors."""

    def __init__(self, kind, n, e, p, q, batch, name):
        self.kind, self.n, self.e, self.p, self.q, self.batch, self.name = kind, n, e, p, q, batch, name
        self.given = e  # eigh uses only one triangle of it

    def at(self, batch, i, j, given=False):
        return (self.given if given else self.e).subst({self.p: P(i), self.q: P(j), **dict(zip(self.batch, batch))})


def _lookup(kind, a, n, m=None):
    """(matrix, batch arguments of this occurrence)"""
    m = n if m is None else m
    pv, qv = logic.CTX.fresh("p"), logic.CTX.fresh("q")
    pp, qp = Poly.atom(pv), Poly.atom(qv)
    k = logic.CTX.push([ge(pp), lt(pp, n), ge(qp), lt(qp, m)])
    try:
        with sym.generic_section():
            e = simp.simplify(_entry(a, pp, qp))
        bound = {v for key in e.d for v in key[2]}
        batch = tuple(sorted({x for x in e.atoms() if x[0] == "ix" and x not in (pv, qv) and x not in bound}, key=repr))
        for mx in _registry():
            if mx.kind != kind or mx.n != n or mx.m != m or len(mx.batch) != len(batch):
                continue
            perms = itertools.permutations(batch) if len(batch) <= 3 else [batch]
            for pb in perms:
                f = mx.at([Poly.atom(x) for x in pb], pp, qp, True)
                if simp.simplify(e - f).d and not simp.prove_zero(e - f):
                    continue
                return mx, [Poly.atom(x) for x in pb]
        name = f"{kind}{len(_registry())}"
        mx = Matrix(kind, n, e, pv, qv, batch, name)
        mx.herm, mx.m = None, m
        if kind == "eigh":
            cj = e.conj().subst({pv: qp, qv: pp})
            mx.herm = not simp.simplify(e - cj).d or simp.prove_zero(e - cj)
            if not mx.herm:  # LAPACK reads the lower triangle
                mx.e = X.ite(ge(pp - qp - 1), e, X.ite(ge(qp - pp - 1), cj, sym.realpart(e)))
        if kind == "svd":
            mx.k = m if n != m and entailed(ge(n - m)) else n if n == m or entailed(ge(m - n)) else m
        _registry().append(mx)
        _rules(mx)
        return mx, [Poly.atom(x) for x in batch]
    finally:
        logic.CTX.pop(k)


def _delta(l, r, nb):
    """[l == r] when the batch arguments agree"""
    if l[:nb] != r[:nb]:
        return None
    return E(1).guarded(eq(l[nb], r[nb]))


def _rules(mx):
    nb, n, nm = len(mx.batch), mx.n, mx.name
    R = X.RULES.append
    row, col = nb, nb + 1
    if mx.kind == "eigh":
        U, L = f"{nm}.U", f"{nm}.e"
        X.REAL.add(L)
        R(MatRule([(U, row, False), (U, row, True)], n, lambda x, y: _delta(x, y, nb)))
        R(MatRule([(U, col, False), (U, col, True)], n, lambda x, y: _delta(x, y, nb)))
        R(MatRule([(U, col, False), (U, col, True), (L, nb, False)], n,
                  lambda x, y, l: mx.at(x[:nb], x[nb], y[nb]) if x[:nb] == y[:nb] == l[:nb] else None))
    elif mx.kind == "eig":
        V, W, L = f"{nm}.V", f"{nm}.W", f"{nm}.l"
        for cj in (False, True):
            R(MatRule([(V, col, cj), (W, row, cj)], n, lambda x, y: _delta(x, y, nb)))
            R(MatRule([(W, col, cj), (V, row, cj)], n, lambda x, y: _delta(x, y, nb)))

            def recon(x, y, l, cj=cj):
                if not x[:nb] == y[:nb] == l[:nb]:
                    return None
                r = mx.at(x[:nb], x[nb], y[nb])
                return r.conj() if cj else r
            R(MatRule([(V, col, cj), (W, row, cj), (L, nb, cj)], n, recon))
    elif mx.kind == "svd":
        U, V, L = f"{nm}.U", f"{nm}.V", f"{nm}.s"
        X.REAL.add(L)
        k = mx.k
        R(MatRule([(U, row, False), (U, row, True)], n, lambda x, y: _delta(x, y, nb)))
        R(MatRule([(V, col, False), (V, col, True)], mx.m, lambda x, y: _delta(x, y, nb)))
        if k == n:
            R(MatRule([(U, col, False), (U, col, True)], n, lambda x, y: _delta(x, y, nb)))
        if k == mx.m:
            R(MatRule([(V, row, False), (V, row, True)], mx.m, lambda x, y: _delta(x, y, nb)))
        for cj in (False, True):
            def recon(u, v, l, cj=cj):
                if not u[:nb] == v[:nb] == l[:nb]:
                    return None
                r = mx.at(u[:nb], u[nb], v[nb])
                return r.conj() if cj else r
            R(MatRule([(U, col, cj), (V, row, cj), (L, nb, False)], k, recon))
        src = _single(mx)
        if src is not None:
            name, rp, cp, conj, perm = src
            for cj in (False, True):
                # U^dagger A = s V and A V^dagger = U s
                R(MatRule([(U, row, not cj), (name, rp, conj ^ cj)], n,
                          lambda u, x, cj=cj: Expr.app(L, (*u[:nb], u[nb])) * Expr.app(V, (*u[:nb], u[nb], x[0]), cj)))
                R(MatRule([(V, col, not cj), (name, cp, conj ^ cj)], mx.m,
                          lambda v, x, cj=cj: Expr.app(L, (*v[:nb], v[nb])) * Expr.app(U, (*v[:nb], x[0], v[nb]), cj)))
    elif mx.kind == "inv":
        # the matrix must be a single array symbol for A X = 1 to be recognised
        N = f"{nm}.X"
        src = _single(mx)
        if src is None:
            return
        name, rp, cp, conj, perm = src
        for cj in (False, True):
            def left(x, y, cj=cj):   # sum_j A[i, j] X[j, k]
                return E(1).guarded(eq(x[0], y[nb]))

            R(MatRule([(name, cp, conj ^ cj), (N, row, cj)], n, left))
            R(MatRule([(N, col, cj), (name, rp, conj ^ cj)], n, lambda x, y: E(1).guarded(eq(x[nb], y[0]))))


def _single(mx):
    """(name, row position, column position, conj) when the matrix is one array symbol with just these two indices."""
    if len(mx.e.d) != 1 or mx.batch:
        return None
    ((m, x, b, d), c), = mx.e.d.items()
    if x or b or d or c != (F1, F0) or len(m) != 1 or m[0][1] != 1:
        return None
    a = m[0][0]
    if a[0] != "app" or len(a[2]) != 2:
        return None
    p, q = Poly.atom(mx.p), Poly.atom(mx.q)
    if a[2] == (p, q):
        return a[1], 0, 1, a[3], None
    if a[2] == (q, p):
        return a[1], 1, 0, a[3], None
    return None


def _arr(n, name, batch, k, dt="c", groups=None):
    """array of k flat indices of size n"""
    gs = groups or [(P(n),)] * k

    def fn(idx):
        out, o = [], 0
        for g in gs:
            out.append(join(g, tuple(idx[o:o + len(g)])))
            o += len(g)
        return Expr.app(name, (*batch, *out))
    return SymArray(gs, fn, dt)


def eigh(a, subset_by_index=None):
    a, n = _square(a)
    mx, batch = _lookup("eigh", a, n)
    e = _arr(n, f"{mx.name}.e", batch, 1, "f")
    u = _arr(n, f"{mx.name}.U", batch, 2)
    if subset_by_index is not None:
        lo, hi = subset_by_index
        if not sym.choose(ge(P(lo))) or not sym.choose(lt(P(hi), n)) or not sym.choose(ge(P(hi) - P(lo))):
            raise SymError("Requested eigenvalue indices are not valid")
        e, u = e[lo:hi + 1], u[:, lo:hi + 1]
    return e, u


def eig(a):
    a, n = _square(a)
    mx, batch = _lookup("eig", a, n)
    return _arr(n, f"{mx.name}.l", batch, 1), _arr(n, f"{mx.name}.V", batch, 2)


def svd(a):
    a = as_sym(a)
    if a.ndim != 2:
        raise Unsupported("decomposition of a stack of matrices") if a.ndim > 2 else SymError("matrix must be 2-dimensional")
    n, m = gprod(a.groups[0]), gprod(a.groups[1])
    k = m if not sym.dims_equal(n, m) and entailed(ge(n - m)) else n if sym.dims_equal(n, m) or sym.choose(ge(m - n)) else m
    mx, batch = _lookup("svd", a, n, m)
    nm = mx.name
    if n == ONE and m == ONE:  # a = (unit(a) g) |a| conj(g), the phase g is up to LAPACK
        e, g = mx.at(batch, ZERO, ZERO), X.unit(Expr.app(f"{nm}.g", batch))
        one = lambda x, k=2, dt="c": SymArray([(ONE,)] * k, lambda idx: x, dt)
        return one(X.unit(e) * g), one(sym.absval(e), 1, "f"), one(g.conj())

    def two(g, h, part):
        return SymArray([(P(g),), (P(h),)], lambda idx: Expr.app(f"{nm}.{part}", (*batch, *idx)), "c")
    return two(n, k, "U"), _arr(k, f"{nm}.s", batch, 1, "f"), two(k, m, "V")


def inv(a):
    a, n = _square(a)
    pv, qv = logic.CTX.fresh("p"), logic.CTX.fresh("q")
    pp, qp = Poly.atom(pv), Poly.atom(qv)
    k = logic.CTX.push([ge(pp), lt(pp, n), ge(qp), lt(qp, n)])
    try:
        with sym.generic_section():
            e = simp.simplify(_entry(a, pp, qp))
    finally:
        logic.CTX.pop(k)
    if len(e.d) == 1:
        ((m, x, b, d), c), = e.d.items()
        if not x and not b and not d and c == (F1, F0) and len(m) == 1 and m[0][1] == 1:
            at = m[0][0]
            base = at[1].rsplit(".", 1) if at[0] == "app" else [""]
            mx = next((r for r in _registry() if r.name == base[0]), None)
            if mx is not None and len(base) == 2 and base[1] in "UVW":
                nb = len(mx.batch)
                bt = list(at[2][:nb])
                i, j = at[2][nb:]
                if mx.n == n and (i, j) in ((pp, qp), (qp, pp)):
                    tr = (i, j) == (qp, pp)

                    def fn(idx):  # inverse at (r, c) of M or of its transpose
                        r, c2 = idx if not tr else idx[::-1]
                        if base[1] == "U":
                            return Expr.app(f"{mx.name}.U", (*bt, c2, r), not at[3])
                        return Expr.app(f"{mx.name}.{'W' if base[1] == 'V' else 'V'}", (*bt, r, c2), at[3])
                    g = [(P(n),), (P(n),)]
                    return SymArray(g, fn, "c")
    mx, batch = _lookup("inv", a, n)
    return _arr(n, f"{mx.name}.X", batch, 2)
