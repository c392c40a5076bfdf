"""Simplification of sums and the equality prover."""
from __future__ import annotations

import itertools
import math
import time
from fractions import Fraction

from . import expr as X
from . import logic
from .expr import F0, F1, PI, E, Expr, Frozen, _acc, _canon_term, _fold, _term_subst, atom_atoms, ex_add, ex_norm, m_mul, m_norm, mono_atoms
from .logic import FALSE, TRUE, decide, entailed, eq, fdiv, fmod, ge, inconsistent, lit_atoms, lit_poly, lit_subst, lt, neg, re_simplify
from .logic import subst as psubst
from .poly import ONE, ZERO, P, Poly, akey


def simplify(e: Expr, rounds=400) -> Expr:
    if not e.d:
        return e
    out: dict = {}
    work = list(e.d.items())
    steps = 0
    while work:
        steps += 1
        if steps > 4000:
            raise logic.Unsupported("simplification did not terminate")
        k, c = work.pop()
        r = _step(k)
        if r is None:
            _acc(out, k, c)
            continue
        for k2, c2 in r:
            work.append((k2, X.cmul(c, c2)))
    res = _fold(Expr(out))
    return _merge_complements(res)


def _merge_complements(e: Expr) -> Expr:
    """f[D & l] + f[D & !l] -> f[D]."""
    if len(e.d) < 2:
        return e
    d = dict(e.d)
    changed = True
    guard = 0
    while changed and guard < 200:
        changed = False
        guard += 1
        for k, c in list(d.items()):
            m, x, b, dom = k
            for l in dom:
                k2 = (m, x, b, (dom - {l}) | {neg(l)})
                if k2 in d and d[k2] == c:
                    del d[k]
                    del d[k2]
                    _acc(d, (m, x, b, dom - {l}), c)
                    changed = True
                    break
            if changed:
                break
    return Expr(d)


def _lits_of(v, dom):
    return [l for l in dom if v in lit_atoms(l)]


def _step(key):
    """One rewriting step on a term: None if normal, else list of (key, coef)."""
    m, x, b, d = key
    # even powers of square roots, integer powers of norms
    for a, e in m:
        if a[0] == "fn" and a[1] in ("sqrtp", "csqrt") and (e >= 2 or e <= -2):
            inner = a[2][0].expr()
            w = int(e // 2) if e > 0 else -int((-e) // 2)
            rest = Expr({(m_norm({aa: ee for aa, ee in m if aa != a} | ({a: e - 2 * w} if e - 2 * w else {})), x, b, d): (F1, F0)})
            r = rest * (inner ** w if w > 0 else X.recip(inner) ** (-w))
            return list(r.d.items())
    # a unit phase times its conjugate
    us = [(a, e) for a, e in m if a[0] == "fn" and a[1] == "unit"]
    if us:
        for a, e in us:
            c = X.a_conj(a)
            if c == a:
                if e.denominator == 1 and (e >= 2 or e < 0):
                    mm = {aa: ee for aa, ee in m if aa != a}
                    if int(e) % 2:
                        mm[a] = F1
                    return [((m_norm(mm), x, b, d), (F1, F0))]
                continue
            if e < 0:
                mm = dict(m)
                del mm[a]
                mm[c] = mm.get(c, F0) - e
                return [((m_norm(mm), x, b, d), (F1, F0))]
            f = dict(m).get(c, F0)
            if f > 0:
                k = min(e, f)
                mm = dict(m)
                mm[a], mm[c] = e - k, f - k
                return [((m_norm(mm), x, b, d), (F1, F0))]
    if d:
        # trivial / contradictory guards
        free_entailed = None
        for l in d:
            at = lit_atoms(l)
            if b and (at & set(b)):
                continue
            if l in logic.CTX.facts:
                free_entailed = l
                break
        if free_entailed is not None:
            return [((m, x, b, d - {free_entailed}), (F1, F0))]
        for l in d:
            if neg(l) in logic.CTX.facts:
                return []
        for l in d:
            t = _tighten(l, d)
            if t is not None:
                if FALSE in t:
                    return []
                return [((m, x, b, (d - {l}) | {z for z in t if z != TRUE}), (F1, F0))]
    if not b:
        return None
    bs = set(b)
    facts = logic.CTX.facts
    # which guards beyond plain ranges
    for v in b:
        lv = _lits_of(v, d)
        for l in lv:
            cg = _congruence(l, v)
            if cg is None:
                continue
            l, t, mod = cg                                        # v == t (mod a)
            for lo_l in lv:
                # v runs over one period: a single solution
                if lo_l[0] != "ge":
                    continue
                cl = lo_l[1].coeff_linear(v)
                if cl is None or cl[0] != Poly.const(1) or v in cl[1].all_atoms():
                    continue
                hi_l = ge(mod - 1 - lo_l[1])
                if hi_l in lv:
                    lo = -cl[1]
                    val = t - mod * fdiv(t - lo, mod)
                    nk = (m, x, tuple(w for w in b if w != v), d - {l, lo_l, hi_l})
                    return list(_expand(nk, {v: val}))
    for v in b:
        lv = _lits_of(v, d)
        # equality elimination
        for l in lv:
            if l[0] == "eq":
                cl = l[1].coeff_linear(v)
                if cl is None:
                    continue
                cf, rest = cl
                if v in rest.all_atoms() or v in cf.all_atoms():
                    continue
                if cf.is_const() and abs(cf.cval()) == 1:
                    val = -rest if cf.cval() == 1 else rest
                    nk = (m, x, tuple(w for w in b if w != v), d - {l})
                    return list(_expand(nk, {v: val}))
                if cf.is_const() or len(cf.t) == 1:
                    if cf.is_const() and cf.cval() < 0 or (not cf.is_const() and next(iter(cf.t.values())) < 0):
                        cf, rest = -cf, -rest
                    n = logic.CTX.push([g for g in d if g != l])
                    try:
                        val = fdiv(-rest, cf)
                    finally:
                        logic.CTX.pop(n)
                    lit = eq(val * cf + rest, 0)
                    if lit == FALSE:
                        return []
                    nk = (m, x, tuple(w for w in b if w != v), (d - {l}) | ({lit} if lit != TRUE else set()))
                    return list(_expand(nk, {v: val}))
        # a | (v - r), written with a floor division
        for l in lv:
            cg = _congruence(l, v)
            if cg is None:
                continue
            l, t, mod = cg
            j = logic.CTX.fresh("s")                              # v = t + a j
            nk = (m, x, tuple(w for w in b if w != v) + (j,), d - {l})
            return list(_expand(nk, {v: mod * Poly.atom(j) + t}))
        # 0 <= r + v n < n has the single solution v = -(r // n)
        for l in lv:
            if l[0] != "ge":
                continue
            cl = l[1].coeff_linear(v)
            if cl is None or cl[0].is_const() or v in cl[1].all_atoms() or v in cl[0].all_atoms():
                continue
            n_, r_ = cl
            other = ge(n_ - 1 - l[1])
            if other not in lv or not entailed(ge(n_ - 1)):
                continue
            nk = (m, x, tuple(w for w in b if w != v), d - {l, other})
            return list(_expand(nk, {v: -fdiv(r_, n_)}))
        # n v + r within part of one period of n: again a single candidate for v
        for l in lv:
            if l[0] != "ge":
                continue
            cl = l[1].coeff_linear(v)
            if cl is None or len(cl[0].t) != 1 or cl[0].is_const() or next(iter(cl[0].t.values())) != 1 or v in cl[1].all_atoms() or v in cl[0].all_atoms():
                continue
            n_, r_ = cl
            anchor = Poly({mm: c for mm, c in r_.t.items() if any(z[0] == "ix" for a, _ in mm for z in ({a} if a[0] != "fd" else a[1].all_atoms()))})
            if not anchor.t:
                continue
            low = anchor - r_                                     # low <= n v + anchor
            for l2 in lv:
                c2 = l2[1].coeff_linear(v) if l2[0] == "ge" else None
                if c2 is None or c2[0] != -n_ or v in c2[1].all_atoms():
                    continue
                high = c2[1] + anchor                             # n v + anchor <= high
                if any(z[0] == "ix" for z in high.all_atoms()):
                    continue
                for k in (0, -1, 1):
                    if entailed(ge(low - n_ * k)) and entailed(ge(n_ * (k + 1) - 1 - high)) and entailed(ge(n_ - 1)):
                        nk = (m, x, tuple(w for w in b if w != v), d)
                        return list(_expand(nk, {v: k - fdiv(anchor, n_)}))
        # disequality expansion
        for l in lv:
            if l[0] == "ne":
                base = d - {l}
                return [((m, x, b, base), (F1, F0)), ((m, x, b, base | {neg(l)}), (-F1, F0))]
    # bound variable shadowing fd atoms with small quotients
    r = _split_fd(key, lambda at: bool(at & bs))
    if r is not None:
        return r
    for v in b:
        lv = _lits_of(v, d)
        lows, highs, other = [], [], []
        for l in lv:
            cl = l[1].coeff_linear(v) if l[0] == "ge" else None
            if cl is None or not cl[0].is_const() or v in cl[1].all_atoms():
                other.append(l)
            elif cl[0].cval() == 1:
                lows.append((l, -cl[1]))
            elif cl[0].cval() == -1:
                highs.append((l, cl[1]))
            else:
                other.append(l)
        if len(lows) + len(highs) > 2:
            # drop dominated bounds
            for l, _ in (*lows, *highs):
                rest = d - {l}
                if entailed(l, [*facts, *rest]):
                    return [((m, x, b, rest), (F1, F0))]
        if other:
            for l in other:
                rest = d - {l}
                if entailed(l, [*facts, *rest]):
                    return [((m, x, b, rest), (F1, F0))]
            continue
        in_m = any(v in atom_atoms(a) for a, _ in m)
        in_x = [(mm, q) for mm, q in x if v in mono_atoms(mm)]
        if len(lows) != 1 or len(highs) != 1:
            if len(lows) > 1 and not in_m:
                (l1, a1), (l2, a2) = lows[:2]
                s = ge(a1 - a2)
                return [((m, x, b, (d - {l2}) | {s}), (F1, F0)), ((m, x, b, (d - {l1}) | {neg(s)}), (F1, F0))]
            if len(highs) > 1 and not in_m:
                (l1, a1), (l2, a2) = highs[:2]
                s = ge(a2 - a1)
                return [((m, x, b, (d - {l2}) | {s}), (F1, F0)), ((m, x, b, (d - {l1}) | {neg(s)}), (F1, F0))]
            continue
        (l_lo, lo), (l_hi, hi) = lows[0], highs[0]
        if in_m:
            r = _apply_rules(key, v, lo, hi, l_lo, l_hi)
            if r is not None:
                return list(r.d.items())
            r = _poly_sum(key, v, lo, hi, l_lo, l_hi, in_x)
            if r is not None:
                return r
            continue
        nb = tuple(w for w in b if w != v)
        nd = d - {l_lo, l_hi}
        length = hi - lo + 1
        if length == Poly.const(1):
            return list(_expand((m, x, nb, nd), {v: lo}))
        if not in_x:
            t = Expr.poly(length) * Expr({(m, x, nb, nd): (F1, F0)})
            if not entailed(ge(length), [*facts, *nd]):
                t = t.guarded(ge(length))
            return list(t.d.items())
        for rule in X.RULES:
            if type(rule) is PermRule:
                r = rule(key, v, lo, hi, l_lo, l_hi)
                if r is not None:
                    return list(r.d.items())
        r = _geometric(key, v, length, in_x, nb, nd)
        if r is not None:
            return list(r.d.items())
    # contradiction check for guarded sums
    if any(not _is_range(l, bs) for l in d) and inconsistent([*facts, *d]):
        return []
    return None


def _congruence(l, v):
    """(l, t, a) when the literal says v == t (mod a), written p - a (p // a) == c with 0 <= c < a."""
    if l[0] != "eq":
        return None
    for mono in l[1].t:
        for A, e in mono:
            if A[0] != "fd" or e != 1:
                continue
            p, mod = A[1], A[2]
            cl = p.coeff_linear(v)
            if cl is None or not cl[0].is_const() or abs(cl[0].cval()) != 1 or v in cl[1].all_atoms() or v in mod.all_atoms():
                continue
            full = p - mod * Poly.atom(A)
            for c in (full - l[1], full + l[1]):
                if c.t and (v in c.all_atoms() or c != mod - 1):
                    continue
                t = c - cl[1]
                return l, (t if cl[0].cval() == 1 else -t), mod
    return None


def _tighten(l, d):
    """a q + r >= 0 with 0 <= r < a  <=>  q >= 0;   a q + r == 0  <=>  q == 0 and r == 0."""
    if l[0] not in ("ge", "eq"):
        return None
    p = l[1]
    cand = set()
    for mono in p.t:
        if sum(e for _, e in mono) >= 2:
            cand |= {a for a, _ in mono if a[0] == "sz"}
    if not cand:
        return None
    nfd = sum(1 for a in p.all_atoms() if a[0] == "fd")
    n = logic.CTX.push([g for g in d if g != l])
    try:
        for a in sorted(cand, key=akey):
            pa = Poly.atom(a)
            q = fdiv(p, pa)
            if sum(1 for z in q.all_atoms() if z[0] == "fd") > nfd or q == p:
                continue
            if l[0] == "ge":
                return [ge(q)]
            r = p - pa * q
            if not r.t or r == p:
                continue
            return [eq(q), eq(r)]
    finally:
        logic.CTX.pop(n)
    return None


def _is_range(l, bs):
    if l[0] != "ge":
        return False
    at = lit_atoms(l) & bs
    return len(at) == 1


def _expand(key, env):
    return list(_term_subst(key, (F1, F0), env, scoped=True))


def _fd_atoms(key):
    m, x, b, d = key
    out = []
    seen = set()

    def visit(atoms):
        for a in atoms:
            if a[0] == "fd" and a not in seen:
                seen.add(a)
                out.append(a)

    for a, _ in m:
        visit(atom_atoms(a))
    for mm, _ in x:
        visit(mono_atoms(mm))
    for l in d:
        visit(lit_atoms(l))
    out.sort(key=lambda a: len(akey(a)))
    return out


def quotient_range(a, facts, lim=3):
    """Small interval [lo,hi] of values of a floor-division atom or None."""
    r, mod = a[1], a[2]
    lo = None
    for k in (0, -1, -2, -3):
        if entailed(ge(r - mod * k), facts):
            lo = k
            break
    if lo is None:
        return None
    for k in range(max(lo, 0) if lo >= 0 else lo, lo + lim + 1):
        if entailed(lt(r, mod * (k + 1)), facts):
            return lo, k
    return None


def _split_fd(key, want):
    m, x, b, d = key
    facts = None
    for a in _fd_atoms(key):
        at = a[1].all_atoms() | a[2].all_atoms()
        if not want(at):
            continue
        if any(z[0] == "fd" and want(z[1].all_atoms() | z[2].all_atoms()) for z in at):
            continue
        if facts is None:
            facts = [*logic.CTX.facts, *d]
        q = quotient_range(a, facts)
        if q is None:
            continue
        out = []
        for k in range(q[0], q[1] + 1):
            g = {ge(a[1] - a[2] * k), lt(a[1], a[2] * (k + 1))} - {TRUE}
            if FALSE in g:
                continue
            for k2, c2 in _expand(key, {a: Poly.const(k)}):
                nd = set(k2[3])
                # the literals of d which mentioned the quotient may have
                # been what bounded it: only what follows from the literals
                # left after the substitution can be dropped
                for l in sorted(g, key=repr):
                    if not entailed(l, [*logic.CTX.facts, *nd]):
                        nd.add(l)
                out.append(((k2[0], k2[1], k2[2], frozenset(nd)), c2))
        return out
    return None


def _poly_sum(key, v, lo, hi, l_lo, l_hi, in_x):
    """Faulhaber for v^1, v^2 when v occurs only as a polynomial factor."""
    m, x, b, d = key
    if in_x:
        return None
    e = None
    for a, ee in m:
        if a == v:
            e = ee
        elif v in atom_atoms(a):
            return None
    if e not in (1, 2):
        return None
    mm = tuple((a, ee) for a, ee in m if a != v)
    lo_e, hi_e = E(lo), E(hi)
    if e == 1:
        s = (hi_e * (hi_e + 1) - lo_e * (lo_e - 1)).scale((Fraction(1, 2), F0))
    else:
        def f(n):
            return (n * (n + 1) * (n * 2 + 1)).scale((Fraction(1, 6), F0))

        s = f(hi_e) - f(lo_e - 1)
    nd = d - {l_lo, l_hi}
    t = s * Expr({(mm, x, tuple(w for w in b if w != v), nd): (F1, F0)})
    if not entailed(ge(hi - lo + 1), [*logic.CTX.facts, *nd]):
        t = t.guarded(ge(hi - lo + 1))
    return list(t.d.items())


def _geometric(key, v, length, in_x, nb, nd):
    m, x, b, d = key
    if len(length.t) != 1:
        return None
    (lm, lk), = length.t.items()
    num: dict = {}
    for mm, q in in_x:
        dd = dict(mm)
        if dd.get(v) != 1 or q[0] != 0 or dd.get(PI) != 1:
            return None
        del dd[v]
        del dd[PI]
        if any(v in atom_atoms(a) for a in dd):
            return None
        num[m_norm(dd)] = q[1] / 2
    # Q = length * R must be an integer polynomial
    Q: dict = {}
    lmf = m_norm({a: Fraction(e) for a, e in lm})
    for mm, r in num.items():
        mm2 = m_mul(mm, lmf)
        r2 = r * lk
        if r2.denominator != 1 or any(e.denominator != 1 or e < 0 or a[0] not in ("sz", "ix", "fd", "ia") for a, e in mm2):
            return None
        Q[tuple((a, int(e)) for a, e in mm2)] = int(r2)
    q = Poly({tuple(sorted(k, key=lambda t: akey(t[0]))): c for k, c in Q.items()})
    nx = tuple((mm, qq) for mm, qq in x if v not in mono_atoms(mm))
    # divide common monomial factor of q and length
    mod = length
    common = dict(lm)
    for mono in q.t:
        dm = dict(mono)
        common = {a: min(e, dm.get(a, 0)) for a, e in common.items() if dm.get(a, 0) > 0}
    g = 0
    for c in q.t.values():
        g = math.gcd(g, c)
    g = math.gcd(g, lk)
    cm = tuple(sorted(common.items(), key=lambda t: akey(t[0])))
    if cm or g > 1:
        q = q.divide_mono(cm, g)[0]
        mod = mod.divide_mono(cm, g)[0]
    body = Expr({(m, nx, nb, nd): (F1, F0)}) * Expr.poly(length)
    facts = [*logic.CTX.facts, *nd]
    if not entailed(ge(length), facts):
        body = body.guarded(ge(length))
    return body_times_cong(body, q, mod, facts)


def body_times_cong(body, q, mod, facts):
    """body * [q == 0 mod `mod`]"""
    if mod == ONE:
        return body
    n = logic.CTX.push([f for f in facts if f not in logic.CTX.facts])
    try:
        lo = hi = None
        for k in (0, 1, 2, 3):
            if entailed(lt(-(q), mod * (k + 1))):
                lo = -k
                break
        if lo is not None:
            for k in (0, 1, 2, 3):
                if entailed(lt(q, mod * (k + 1))):
                    hi = k
                    break
        if lo is not None and hi is not None:
            r = Expr({})
            for k in range(lo, hi + 1):
                r = r + body.guarded(eq(q, mod * k))
            return r
        return body.guarded(eq(fmod(q, mod), 0))
    finally:
        logic.CTX.pop(n)


def _apply_rules(key, v, lo, hi, l_lo, l_hi):
    for rule in X.RULES:
        r = rule(key, v, lo, hi, l_lo, l_hi)
        if r is not None:
            return r
    return None


class PairRule:
    """sum_v  A[.., v, ..] * conj(A[.., v, ..]) -> delta on the remaining indices.

    pos: argument position of v; the remaining arguments are compared pairwise.
    size: the full range of v (the rule only fires on the full range).
    """

    def __init__(self, name, pos, size, nargs=2, result=None, needs=None, batch=()):
        self.name, self.pos, self.size, self.nargs = name, pos, P(size), nargs
        self.result = result
        self.batch = tuple(batch)

    def __call__(self, key, v, lo, hi, l_lo, l_hi):
        m, x, b, d = key
        if any(v in mono_atoms(mm) for mm, _ in x):
            return None
        occ = [(a, e) for a, e in m if v in atom_atoms(a)]
        facs = []
        for a, e in occ:
            if a[0] != "app" or a[1] != self.name or e.denominator != 1 or e < 1 or e > 2:
                return None
            facs += [a] * int(e)
        if len(facs) != 2:
            return None
        va = Poly.atom(v)
        off = None
        for a in facs:
            p = a[2][self.pos] - va
            if v in p.all_atoms():
                return None
            for i, q in enumerate(a[2]):
                if i != self.pos and v in q.all_atoms():
                    return None
            if off is None:
                off = p
            elif off != p:
                return None
        real = self.name in X.REAL or self.name in X.POS
        if not real and facs[0][3] == facs[1][3]:
            return None
        if lo + off != ZERO or hi + off != self.size - 1:
            if not (entailed(eq(lo + off, 0)) and entailed(eq(hi + off, self.size - 1))):
                return None
        fa, fb = (facs if not facs[0][3] else facs[::-1])
        rest = Expr({(tuple((a, e) for a, e in m if v not in atom_atoms(a)), x, tuple(w for w in b if w != v), d - {l_lo, l_hi}): (F1, F0)})
        # batch arguments must agree for the rule to apply
        for i in self.batch:
            if fa[2][i] != fb[2][i]:
                return None
        others = [i for i in range(len(fa[2])) if i != self.pos and i not in self.batch]
        if self.result is not None:
            return rest * self.result([fa[2][i] for i in others], [fb[2][i] for i in others], [fa[2][i] for i in self.batch])
        for i in others:
            rest = rest.guarded(eq(fa[2][i], fb[2][i]))
        return rest


class SpectralRule:
    """sum_v V[v,i] conj(V[v,j]) e[v] -> A(i,j)  (spectral reconstruction)."""

    def __init__(self, vname, ename, size, result, conj_first=False, batch=0):
        self.vname, self.ename, self.size, self.result = vname, ename, P(size), result
        self.batch = batch

    def __call__(self, key, v, lo, hi, l_lo, l_hi):
        m, x, b, d = key
        if any(v in mono_atoms(mm) for mm, _ in x):
            return None
        facs = []
        ev = None
        for a, e in m:
            if v not in atom_atoms(a):
                continue
            if a[0] != "app" or e.denominator != 1 or e < 1:
                return None
            if a[1] == self.ename and e == 1:
                ev = a
            elif a[1] == self.vname:
                facs += [a] * int(e)
            else:
                return None
        if ev is None or len(facs) != 2:
            return None
        nb = self.batch
        va = Poly.atom(v)
        if ev[2][nb] != va or any(f[2][nb] != va for f in facs):
            return None
        if facs[0][3] == facs[1][3] and not (self.vname in X.REAL):
            return None
        if not (lo == ZERO and hi == self.size - 1):
            return None
        fa, fb = (facs if not facs[0][3] else facs[::-1])
        if fa[2][:nb] != fb[2][:nb] or fa[2][:nb] != ev[2][:nb]:
            return None
        rest = Expr({(tuple((a, e) for a, e in m if v not in atom_atoms(a)), x, tuple(w for w in b if w != v), d - {l_lo, l_hi}): (F1, F0)})
        return rest * self.result(*fa[2][:nb], fa[2][nb + 1], fb[2][nb + 1])


class PermRule:
    """sum_v f(p[v]) over a permutation p of 0 .. size - 1, with v its whole range -> sum_w f(w)."""

    def __init__(self, name, size):
        self.name, self.size = name, P(size)

    def __call__(self, key, v, lo, hi, l_lo, l_hi):
        if logic.CTX.ia_bounds.get(self.name) != (ZERO, self.size):
            return None
        m, x, b, d = key
        at = set()
        for a, _ in m:
            at |= atom_atoms(a)
        for mm, _ in x:
            at |= mono_atoms(mm)
        at = [a for a in at if a[0] == "ia" and a[1] == self.name and v in a[2][0].all_atoms()]
        if len(at) != 1:
            return None
        cl = at[0][2][0].coeff_linear(v)
        if cl is None or not cl[0].is_const() or abs(cl[0].cval()) != 1 or v in cl[1].all_atoms():
            return None
        first, last = (lo + cl[1], hi + cl[1]) if cl[0].cval() == 1 else (cl[1] - hi, cl[1] - lo)
        if first != ZERO or last != self.size - 1:
            if not (entailed(eq(first, 0)) and entailed(eq(last, self.size - 1))):
                return None
        w = logic.CTX.fresh()
        wp = Poly.atom(w)
        nb = tuple(y for y in b if y != v)
        acc = {}
        for k2, c2 in _expand((m, x, nb, d - {l_lo, l_hi}), {at[0]: wp}):
            X._acc(acc, k2, c2)
        out = Expr(acc)
        for (m2, x2, _b, _d) in out.d:
            if any(v in atom_atoms(a) for a, _ in m2) or any(v in mono_atoms(mm) for mm, _ in x2):
                return None
        return out.sum_over(w, self.size)


# ---------------------------------------------------------------- equality prover
class Proof:
    def __init__(self):
        self.cyclic = 0
        self.cases = 0
        self.merged = 0
        self.residual = None
        self.facts = None


def _alpha_zero(e: Expr) -> bool:
    """Terms which are the same up to the names of their bound variables cancel."""
    t = {}
    for k, c in e.d.items():
        q = X._canon_term(k)
        r = t.get(q, (0, 0))
        t[q] = (r[0] + c[0], r[1] + c[1])
    return not any(v != (0, 0) for v in t.values())


def prove_zero(e: Expr, proof: Proof | None = None, depth=0, deadline=None) -> bool:
    proof = proof or Proof()
    if deadline and time.time() > deadline:
        proof.residual, proof.facts = e, list(logic.CTX.facts)
        return False
    logic.CTX.check_deadline()
    if depth == 0:
        if len(e.d) <= 64 and _alpha_zero(e):
            proof.cases += 1
            return True
        env = _size_equalities(e, True)
        if env:
            e = e.subst(env)
    e = simplify(_resimp(e))
    if not e.d:
        proof.cases += 1
        return True
    if depth > 40 or proof.cases > 3000:
        proof.residual, proof.facts = e, list(logic.CTX.facts)
        return False
    sp = _split_products(e)
    if sp is not None:
        return prove_zero(sp, proof, depth + 1, deadline)
    # quick: everything may cancel after grouping
    if _grouped_zero(e):
        proof.cases += 1
        return True
    # case split on free guards
    lit = _pick_guard(e)
    if lit is not None:
        for l in (lit, neg(lit)):
            n = logic.CTX.push([l])
            try:
                if inconsistent():
                    continue
                env = _solve_eq(l)
                ee = e.subst(env) if env else e
                nn = None
                if not prove_zero(_prune(ee), proof, depth + 1, deadline):
                    return False
            finally:
                logic.CTX.pop(n)
        return True
    # case split on free floor divisions
    for key in e.d:
        bs = set(key[2])
        for a in _fd_atoms(key):
            at = a[1].all_atoms() | a[2].all_atoms()
            if at & bs:
                continue
            q = quotient_range(a, logic.CTX.facts)
            if q is None:
                continue
            for k in range(q[0], q[1] + 1):
                n = logic.CTX.push([ge(a[1] - a[2] * k), lt(a[1], a[2] * (k + 1))])
                try:
                    if inconsistent():
                        continue
                    if not prove_zero(e.subst({a: Poly.const(k)}), proof, depth + 1, deadline):
                        return False
                finally:
                    logic.CTX.pop(n)
            return True
    # clear denominators
    c = _clear_denominators(e)
    if c is not None:
        return prove_zero(c, proof, depth + 1, deadline)
    if inconsistent():
        proof.cases += 1
        return True
    if _integer_zero(e):
        proof.cases += 1
        return True
    env = _size_equalities(e, False)
    if env:
        return prove_zero(e.subst(env), proof, depth + 1, deadline)
    # indices the facts pin to one value
    seen = set()
    for (m, x, b, d) in e.d:
        at = set(mono_atoms(m))
        for mm, _q in x:
            at |= set(mono_atoms(mm))
        seen |= {a for a in at if a[0] == "ix" and a not in b}
    for a in sorted(seen, key=akey):
        for k in range(4):
            if entailed(eq(Poly.atom(a) - k)):
                return prove_zero(e.subst({a: Poly.const(k)}), proof, depth + 1, deadline)
    # indices the facts make equal
    if any(l[0] == "eq" for l in logic.CTX.facts):
        lst = sorted(seen, key=akey)
        for i, a in enumerate(lst):
            for b2 in lst[:i]:
                if entailed(eq(Poly.atom(a) - Poly.atom(b2))):
                    return prove_zero(e.subst({a: Poly.atom(b2)}), proof, depth + 1, deadline)
    pt = _points(e)
    if pt is not None and prove_zero(pt, proof, depth + 1, deadline):
        return True
    r = _halves(e)
    if r is not None:
        return prove_zero(r, proof, depth + 1, deadline)
    r = _congruent(e, deadline)
    if r is not None:
        return prove_zero(r, proof, depth + 1, deadline)
    cy = _cyclic(e) if proof.cyclic < 3 else None
    if cy is not None:
        proof.cyclic += 1
        try:
            return prove_zero(cy, proof, depth + 1, deadline)
        finally:
            proof.cyclic -= 1
    mg = _merge_ranges(e)
    if mg is not None and proof.merged < 6:
        proof.merged += 1
        try:
            return prove_zero(mg, proof, depth + 1, deadline)
        finally:
            proof.merged -= 1
    proof.residual, proof.facts = e, list(logic.CTX.facts)
    return False


def _congruent(e: Expr, deadline=None):
    """Functions of arguments that are equal under the facts, as the same function."""
    by: dict = {}
    for (m, x, b, d) in e.d:
        bs = set(b)
        for mm in (m, *[q for q, _ in x]):
            for a, _k in mm:
                if a[0] == "fn" and all(isinstance(z, Frozen) for z in a[2]) and not atom_atoms(a) & bs:
                    by.setdefault((a[1], len(a[2]), a[3:]), {})[a] = None
    for ats in by.values():
        ats = sorted(ats, key=akey)
        for i, a in enumerate(ats):
            for b2 in ats[:i]:
                df = [p.expr() - q.expr() for p, q in zip(a[2], b2[2])]
                key = (a, b2, frozenset(logic.CTX.facts))
                if key in _CONGR_BUSY:
                    continue
                _CONGR_BUSY.add(key)
                try:
                    ok = all(prove_zero(z, Proof(), 0, deadline) for z in df)
                finally:
                    _CONGR_BUSY.discard(key)
                if ok:
                    return _swap_atom(e, a, b2)
    return None


_CONGR_BUSY: set = set()


def _swap_atom(e: Expr, old, new):
    def sw(m):
        mm: dict = {}
        for a, k in m:
            a = new if a == old else a
            mm[a] = mm.get(a, F0) + k
        return m_norm(mm)

    out: dict = {}
    for (m, x, b, d), c in e.d.items():
        xs: dict = {}
        for mm, q in x:
            mm = sw(mm)
            p = xs.get(mm, (F0, F0))
            xs[mm] = (p[0] + q[0], p[1] + q[1])
        _acc(out, (sw(m), ex_norm(xs), b, d), c)
    return Expr(out)


def _points(e: Expr):
    """Sums over a range of one value, as that value."""
    out, hit = {}, False
    for key, c in e.d.items():
        m, x, b, d = key
        for v in b:
            for l in d:
                if l[0] != "ge" or neg_poly(l) not in d:
                    continue
                cl = l[1].coeff_linear(v)
                if cl is None or cl[0] not in (Poly.const(1), Poly.const(-1)) or v in cl[1].all_atoms():
                    continue
                val = -cl[1] if cl[0] == Poly.const(1) else cl[1]
                for k2, c2 in _expand((m, x, tuple(w for w in b if w != v), d - {l, neg_poly(l)}), {v: val}):
                    X._acc(out, k2, X.cmul(c, c2))
                hit = True
                break
            else:
                continue
            break
        else:
            X._acc(out, key, c)
    return X._fold(Expr(out)) if hit else None


def neg_poly(l):
    return ge(-l[1])


def _split_products(e: Expr):
    """A sum over v < A B whose terms use floor(v / B) becomes a sum over floor(v / B) and v mod B."""
    changed = False
    out: dict = {}
    for key, c in e.d.items():
        m, x, b, d = key
        hit = None
        for a in _fd_atoms(key) if b else ():
            vs = [v for v in b if a[1] == Poly.atom(v)]
            if not vs or a[2].all_atoms() & set(b):
                continue
            v = vs[0]
            lo, his = ge(Poly.atom(v)), []
            for l in d:
                if l[0] == "ge" and l != lo and v in l[1].atoms():
                    cl = l[1].coeff_linear(v)
                    if cl and cl[0].is_const() and cl[0].cval() == -1 and not (cl[1].all_atoms() & set(b)):
                        q = (cl[1] + 1).exact_div(a[2])
                        if q is not None:
                            his.append((l, q))
            if lo in d and his:
                hit = (a, v, lo, his[0][0], his[0][1])
                break
        if hit is None:
            _acc(out, key, c)
            continue
        a, v, lo, hi, q = hit
        changed = True
        h, w = logic.CTX.fresh(), logic.CTX.fresh()
        t = Expr({(m, x, tuple(u for u in b if u != v), frozenset(d - {lo, hi})): c}).subst({a: Poly.atom(h)}).subst({v: a[2] * Poly.atom(h) + Poly.atom(w)})
        t = t.sum_over(h, q).sum_over(w, a[2])
        for k2, c2 in t.d.items():
            _acc(out, k2, c2)
    return Expr(out) if changed else None


def _size_equalities(e: Expr, simple):
    """A substitution for one size that an equality among the facts determines (simple: by a constant or another size)."""
    used = None
    for l in logic.CTX.facts:
        if l[0] != "eq":
            continue
        p = l[1]
        if simple and (len(p.t) > 3 or any(len(mono) > 1 or (mono and mono[0][1] != 1) for mono in p.t)):
            continue
        for mono, c in sorted(p.t.items(), key=repr):
            if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1 and mono[0][0][0] == "sz":
                a = mono[0][0]
                cl = p.coeff_linear(a)
                if not (cl and cl[0].is_const() and a not in cl[1].all_atoms()):
                    continue
                if used is None:
                    used = e.atoms()
                if a in used:
                    return {a: -cl[1] if cl[0].cval() == 1 else cl[1]}
    return None


def _integer_zero(e: Expr) -> bool:
    """Integer polynomials that multiply the same rest vanish by arithmetic."""
    groups: dict = {}
    for (m, x, b, d), c in e.d.items():
        ints = tuple((a, k) for a, k in m if a[0] in ("sz", "ix", "fd", "ia") and k.denominator == 1 and k > 0 and a not in b)
        rest = tuple((a, k) for a, k in m if (a, k) not in ints)
        if any(k.denominator != 1 for _, k in rest if _[0] in ("sz", "ix", "fd", "ia")):
            return False
        for part in (0, 1):
            if c[part]:
                g = groups.setdefault((rest, x, b, d, part), [])
                g.append((tuple((a, int(k)) for a, k in ints), c[part]))
    for (_rest, _x, _b, d, _p), items in groups.items():
        den = 1
        for _m, q in items:
            den = den * q.denominator // math.gcd(den, q.denominator)
        t: dict = {}
        for mm, q in items:
            t[mm] = t.get(mm, 0) + int(q * den)
        p = Poly({k: v for k, v in t.items() if v})
        if not p.t:
            continue
        n = logic.CTX.push(list(d))
        try:
            if not entailed(eq(p)):
                return False
        finally:
            logic.CTX.pop(n)
    return True


def _solve_eq(l):
    if l[0] != "eq":
        return None
    p = l[1]
    cands = []
    for mono, c in p.t.items():
        if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1:
            a = mono[0][0]
            cl = p.coeff_linear(a)
            if cl and cl[0].is_const() and a not in cl[1].all_atoms() and a[0] in ("ix", "fd"):
                cands.append((a, -cl[1] if cl[0].cval() == 1 else cl[1]))
    if not cands:
        return None
    cands.sort(key=lambda t: (t[0][0] != "ix", akey(t[0])))
    a, v = cands[-1]
    return {a: v}


def _prune(e: Expr) -> Expr:
    """Drop guards decided by the facts."""
    out = {}
    for (m, x, b, d), c in e.d.items():
        bs = set(b)
        nd = set()
        dead = False
        for l in d:
            if lit_atoms(l) & bs:
                nd.add(l)
                continue
            r = decide(l)
            if r is False:
                dead = True
                break
            if r is None:
                nd.add(l)
        if not dead:
            _acc(out, (m, x, b, frozenset(nd)), c)
    return Expr(out)


def _resimp(e: Expr) -> Expr:
    """Re-evaluate floor divisions inside atoms under the current facts."""
    env = {}
    seen = set()
    for (m, x, b, d) in e.d:
        if b:
            pass
        for a in _fd_atoms((m, x, b, d)):
            if a in seen:
                continue
            seen.add(a)
            if (a[1].all_atoms() | a[2].all_atoms()) & set(b):
                continue
            p = re_simplify(Poly.atom(a))
            if p != Poly.atom(a):
                env[a] = p
    return e.subst(env) if env else e


def _pick_guard(e: Expr):
    cnt: dict = {}
    for (m, x, b, d), c in e.d.items():
        bs = set(b)
        for l in d:
            if not (lit_atoms(l) & bs):
                p = l
                if neg(l) in cnt:
                    p = neg(l)
                cnt[p] = cnt.get(p, 0) + 1
    if not cnt:
        return None
    # prefer equalities, then frequency
    return max(cnt, key=lambda l: (l[0] in ("eq",), cnt[l], repr(l)))


def _normalise_shift(key, c):
    """Shift bound variables so that a chosen application has the bare variable as argument."""
    m, x, b, d = key
    out = [(key, c)]
    fixed: set = set()
    for _ in range(len(b)):
        m, x, b, d = out[0][0]
        cand = None
        for a, e in m:
            if a[0] != "app":
                continue
            for i, p in enumerate(a[2]):
                vs = [v for v in b if v in p.atoms() and v not in fixed]
                if len(vs) != 1:
                    continue
                v = vs[0]
                cl = p.coeff_linear(v)
                if cl is None or not cl[0].is_const() or abs(cl[0].cval()) != 1 or v in cl[1].all_atoms():
                    continue
                k = (a[1], a[3], i)
                if cand is None or k < cand[0]:
                    cand = (k, v, cl)
        if cand is None:
            break
        _, v, (cf, rest) = cand
        w = logic.CTX.fresh()
        val = (Poly.atom(w) - rest) * cf.cval()
        r = list(_term_subst((m, x, tuple(u for u in b if u != v), d), c, {v: val}, scoped=True))
        r = [((mm, xx, tuple(sorted((*bb, w))), dd), cc) for (mm, xx, bb, dd), cc in r]
        fixed.add(w)
        if len(r) != 1:
            return r
        out = r
        c = r[0][1]
    return out


def _cyclic(e: Expr):
    """Sums over a whole period 0 <= v < n of functions of v and (v + r) mod n, written over (v + r) mod n where a chosen function has it as argument."""
    out: dict = {}
    changed = False
    for (m, x, b, d), c in e.d.items():
        key = (m, x, b, d)
        for v in b:
            m, x, bb, d = key
            lits = [l for l in d if v in l[1].all_atoms()]
            lo = ge(Poly.atom(v))
            up = [l for l in lits if l != lo]
            if lo not in lits or len(up) != 1 or up[0][0] != "ge":
                continue
            n = up[0][1] + Poly.atom(v) + 1
            if v in n.all_atoms() or up[0] != ge(n - Poly.atom(v) - 1):
                continue
            best = None
            for a, _ in m:
                if a[0] != "app":
                    continue
                for i, p in enumerate(a[2]):
                    if p == Poly.atom(v):
                        r = ZERO
                    else:
                        fds = [f for f in p.atoms() if f[0] == "fd" and f[2] == n and v in f[1].atoms()]
                        if len(fds) != 1:
                            continue
                        r = fds[0][1] - Poly.atom(v)
                        if v in r.all_atoms() or p != Poly.atom(v) + r - n * Poly.atom(fds[0]):
                            continue
                    k = (str(a[1]), bool(a[3]), i)
                    if best is None or k < best[0]:
                        best = (k, r)
            if best is None or not best[1].t:
                continue
            w = logic.CTX.fresh()
            t = Poly.atom(w) - best[1]
            n_ = logic.CTX.push([])
            try:
                val = t - n * logic.fdiv(t, n)
                r = list(_term_subst((m, x, tuple(u for u in bb if u != v), d - {lo, up[0]}), c, {v: val}, scoped=True))
            finally:
                logic.CTX.pop(n_)
            if len(r) != 1:
                continue
            (mm, xx, b3, dd), c = r[0]
            key = (mm, xx, tuple(sorted((*b3, w))), dd | {ge(Poly.atom(w)), ge(n - Poly.atom(w) - 1)})
            changed = True
        _acc(out, key, c)
    return Expr(out) if changed else None


def _absorb_offsets(key, c):
    """exp(i a (v + r)) with an integer r: the sum is written over v + r."""
    m, x, b, d = key
    for v in b:
        if v in mono_atoms(m):
            continue
        lead = None
        for mm, q in x:
            at = dict(mm)
            if at.get(v) == 1 and not (mono_atoms(mm) - {v}) & set(b):
                k = [(akey(a), e) for a, e in mm if a != v]
                if lead is None or k < lead[0]:
                    lead = (k, {a: e for a, e in at.items() if a != v}, q)
        if lead is None or lead[2][0] != 0:
            continue
        r = Poly.const(0)
        for mm, q in x:
            at = dict(mm)
            if v in at or q[0] != 0 or any(at.get(a) != e for a, e in lead[1].items()):
                continue
            rest = {a: e for a, e in at.items() if a not in lead[1]}
            f = q[1] / lead[2][1]
            if f.denominator != 1 or any(a[0] not in ("sz", "fd") or e < 0 or e.denominator != 1 for a, e in rest.items()):
                continue
            t = Poly.const(f)
            for a, e in rest.items():
                t = t * Poly.atom(a) ** int(e)
            r = r + t
        if not r.t:
            continue
        w = logic.CTX.fresh()
        t = list(_term_subst((m, x, tuple(u for u in b if u != v), d), c, {v: Poly.atom(w) - r}, scoped=True))
        t = [((mm, xx, tuple(sorted((*bb, w))), dd), cc) for (mm, xx, bb, dd), cc in t]
        if len(t) != 1 or len(t[0][0][1]) >= len(x):
            continue
        (m, x, b, d), c = t[0]
    return (m, x, b, d), c


def _offsets(lits, v, n):
    """Multiples of the period n by which a range of v may lie away from 0..n-1."""
    out: list = []
    if len(n.t) != 1:
        return out
    ((nm, _),) = n.t.items()
    for l in lits:
        cl = l[1].coeff_linear(v) if l[0] == "ge" else None
        if cl is None or not cl[0].is_const():
            continue
        q = Poly.const(0)
        for m, c in cl[1].t.items():
            r = dict(m)
            for a, k in nm:
                r[a] = r.get(a, 0) - k
            if all(k >= 0 for k in r.values()) and any(k > 0 for k in r.values()) and all(a[0] == "sz" for a in r):
                t = Poly.const(c * cl[0].cval() if abs(cl[0].cval()) == 1 else 0)
                for a, k in r.items():
                    t = t * Poly.atom(a) ** int(k)
                q = q + t
        if q.t:
            for k in (q, q - 1, q + 1):
                if k not in out:
                    out.append(k)
    return out


def _normalise_frequency(key, c):
    """Write a sum over a frequency v of exp(2 pi i v K / n) with a positive leading coefficient (v -> n - v otherwise)."""
    key, c = _absorb_offsets(key, c)
    m, x, b, d = key
    for v in b:
        if v in mono_atoms(m):
            continue
        bs = set(b)
        lead = None
        period = None
        for mm, q in x:
            at = dict(mm)
            if v not in at:
                if v in mono_atoms(mm):
                    period = None
                    break
                continue
            den = tuple((a, -k) for a, k in mm if k < 0)
            if at[v] != 1 or q[0] != 0 or (q[1] / 2).denominator != 1 or at.get(X.PI) != 1 or (period is not None and den != period) or any(k.denominator != 1 or k < 0 or a[0] not in ("sz", "ix", "ia") for a, k in mm if a != X.PI and a not in dict(den)):
                period = None
                break
            period = den
            if not (mono_atoms(mm) - {v}) & bs:
                k = [(akey(a), e) for a, e in mm if a != v]
                if lead is None or k < lead[0]:
                    lead = (k, q[1])
        if period is None or lead is None:
            continue
        n = Poly.const(1)
        for a, k in period:
            if k.denominator != 1 or a[0] != "sz":
                n = None
                break
            n = n * Poly.atom(a) ** int(k)
        if n is None:
            continue
        w = logic.CTX.fresh()
        W = Poly.atom(w)
        k = 0
        dd = [lit_subst(l, {v: -W if lead[1] < 0 else W}) for l in d]
        h = logic.CTX.push(dd)
        try:
            for k in (0, 1, -1, 2, -2, *_offsets(dd, w, n)):
                if entailed(ge(W + n * k)) and entailed(ge(n - 1 - W - n * k)):
                    break
            else:
                k = 1 if lead[1] < 0 else 0
        finally:
            logic.CTX.pop(h)
        if k == 0 and lead[1] > 0:
            continue
        val = W - n * k
        if lead[1] < 0:
            val = -val
        r = list(_term_subst((m, x, tuple(u for u in b if u != v), d), c, {v: val}, scoped=True))
        r = [((mm, xx, tuple(sorted((*bb, w))), dd), cc) for (mm, xx, bb, dd), cc in r]
        if len(r) != 1:
            return [(key, c)]
        (m, x, b, d), c = r[0]
        key = r[0][0]
    return [(key, c)]


def _shape(m, x, b):
    best = None
    for o in X.var_orders(m, x, frozenset(), b):
        col = {v: i for i, v in enumerate(o)}
        sm, sx, _ = X._comp_shapes(m, x, (), col)
        s = repr((sm, sx))
        if best is None or s < best[0]:
            best = (s, o)
    return best


def _lift_points(terms):
    """A term that is the summand of another one at a single value of a variable is written as that summand with the
    variable pinned."""
    if not 1 < len(terms) <= 60:
        return terms
    out = []
    for i, ((m, x, b, d), c) in enumerate(terms):
        hit = None
        apps = [(a[1], a[3], k, p) for a, _ in m if a[0] == "app" for k, p in enumerate(a[2]) if not (p.all_atoms() & set(b))]
        done = set()
        for (m2, x2, b2, d2), c2 in terms if apps else ():
            if len(b2) != len(b) + 1:
                continue
            for a, _ in m2:
                if a[0] != "app":
                    continue
                for k, p in enumerate(a[2]):
                    v = next((v for v in b2 if p == Poly.atom(v)), None)
                    if v is None:
                        continue
                    for (n1, n3, k1, val) in apps:
                        if (n1, n3, k1) != (a[1], a[3], k) or (m2, x2, v, val) in done:
                            continue
                        done.add((m2, x2, v, val))
                        r = list(_term_subst((m2, x2, tuple(u for u in b2 if u != v), frozenset()), (F1, F0), {v: val}, scoped=True))
                        if len(r) != 1:
                            continue
                        (m3, x3, b3, d3), c3 = r[0]
                        if d3 or len(b3) != len(b):
                            continue
                        s3, s1 = _shape(m3, x3, b3), _shape(m, x, b)
                        if (s3 and s3[0]) != (s1 and s1[0]) or c3[1] != 0 or c3[0] == 0:
                            continue
                        env = {u: Poly.atom(w) for u, w in zip(s1[1], s3[1])} if s1 else {}
                        dom = frozenset({lit_subst(l, env) for l in d} | {eq(Poly.atom(v) - val)})
                        hit = ((m2, x2, b2, dom), (c[0] / c3[0], c[1] / c3[0]))
                        break
                    if hit:
                        break
                if hit:
                    break
            if hit:
                break
        out.append(hit or terms[i])
    return out


def _grouped_zero(e: Expr) -> bool:
    groups: dict = {}
    terms = []
    todo = list(e.d.items())
    for k, c in todo:
        for k2, c2 in _normalise_shift(k, c):
            terms.extend(_normalise_frequency(k2, c2))
    terms = _lift_points(terms)
    for (m, x, b, d), c in terms:
        best = None
        # canonical body without the domain
        for o in X.var_orders(m, x, frozenset(), b):
            col = {v: i for i, v in enumerate(o)}
            sm, sx, _ = X._comp_shapes(m, x, (), col)
            s = repr((sm, sx))
            if best is None or s < best[0]:
                best = (s, [o])
            elif s == best[0]:
                best[1].append(o)
        doms = []
        for o in best[1]:
            env = {v: Poly.atom(("ix", f"?{i}")) for i, v in enumerate(o)}
            doms.append(frozenset(lit_subst(l, env) for l in d) if env else d)
        g = groups.setdefault((best[0], len(b)), [])
        g.append((doms[0], c, doms))
    for g in groups.values():
        if not _group_zero(g):
            return False
    return True


def _halves(e: Expr):
    """floor(n / q) / n = 1 / q where q divides n (a fact of this case)."""
    ratio = []
    for l in logic.CTX.facts:
        if l[0] != "eq":
            continue
        for a in l[1].atoms():
            if a[0] == "fd" and a[2].is_const() and len(a[1].t) == 1:
                (mono, k), = a[1].t.items()
                q = a[2].cval()
                if k == 1 and len(mono) == 1 and mono[0][1] == 1 and l[1] in (a[1] - Poly.atom(a) * q, Poly.atom(a) * q - a[1]):
                    ratio.append((a, mono[0][0], Fraction(q)))
    if not ratio:
        return None

    def red(m):
        f = F1
        for a, n, q in ratio:
            t = dict(m)
            while t.get(a, 0) >= 1 and t.get(n, 0) <= -1:
                t[a] -= 1
                t[n] += 1
                f = f / q
            m = m_norm({x: k for x, k in t.items() if k})
        return m, f
    out: dict = {}
    changed = False
    for (m, x, b, d), c in e.d.items():
        m2, f = red(m)
        ex: dict = {}
        for mm, k in x:
            m3, g = red(mm)
            v = ex.get(m3, (F0, F0))
            ex[m3] = (v[0] + k[0] * g, v[1] + k[1] * g)
        x2 = ex_norm(ex)
        changed = changed or m2 != m or x2 != x
        _acc(out, (m2, x2, b, d), (c[0] * f, c[1] * f))
    return Expr(out) if changed else None


def _merge_ranges(e: Expr):
    """Pieces of one summand whose ranges together make one full period of every variable become a single sum."""
    groups: dict = {}
    for k, c in e.d.items():
        for k2, c2 in _normalise_shift(k, c):
            for (m, x, b, d), c3 in _normalise_frequency(k2, c2):
                best = None
                for o in X.var_orders(m, x, frozenset(), b):
                    col = {v: i for i, v in enumerate(o)}
                    sm, sx, _ = X._comp_shapes(m, x, (), col)
                    s = repr((sm, sx))
                    if best is None or s < best[0]:
                        best = (s, o)
                g = groups.setdefault((best[0], len(b)), [])
                if not g:
                    g.append((m, x, best[1]))
                env = {v: Poly.atom(w) for v, w in zip(best[1], g[0][2])}
                g.append((frozenset(lit_subst(l, env) for l in d) if env else d, c3))
    out: dict = {}
    changed = False
    for g in groups.values():
        (m, x, o), items = g[0], g[1:]
        full = _full_range(m, x, o) if 1 < len(items) <= 60 and o else None
        parts = _cover(m, x, o, items, *full) if full else None
        if parts:
            changed = True
        for d, c in parts or items:
            _acc(out, (m, x, tuple(sorted(o)), d), c)
    return Expr(out) if changed else None


def _cover(m, x, o, items, full, freq):
    """[(domain, coefficient)] equal to items: one full period, and corrections where a frequency is 0 or half the period."""
    zero = (F0, F0)
    total = (sum((c[0] for _, c in items), F0), sum((c[1] for _, c in items), F0))
    cands = []
    for c in [total, *[(c[0] * q, c[1] * q) for _, c in items for q in (1, 2, 4)]]:
        if c != zero and c not in cands:
            cands.append(c)
    pins = [p for v, n in freq for p in ((eq(Poly.atom(v), 0),), (eq(Poly.atom(v) * 2, n), ge(Poly.atom(v) - 1)))]
    for c in cands:
        rest = [*items, (full, (-c[0], -c[1]))]
        if _indicator_zero(rest):
            return [(full, c)]
    if not pins or len(freq) != 1:
        return None
    v, n = freq[0]
    off = [neg(eq(Poly.atom(v), 0)), neg(eq(Poly.atom(v) * 2, n))]
    for c in [*cands, zero]:
        rest = [*items, (full, (-c[0], -c[1]))] if c != zero else items
        if _indicator_zero([(d | set(off), k) for d, k in rest]):
            return [*([(full, c)] if c != zero else []), *[(d | set(p), k) for p in pins for d, k in rest]]
    return None


def _full_range(m, x, o):
    """0 <= v < n for every variable of a product of exp(2 pi i v K / n)."""
    full, freq = set(), []
    inm = mono_atoms(m)
    for v in o:
        n = None
        for mm, q in x:
            at = dict(mm)
            if at.get(v) != 1:
                continue
            den = [(a, -k) for a, k in mm if k < 0]
            if not den or any(k.denominator != 1 or a[0] != "sz" for a, k in den):
                return None
            p = Poly.const(1)
            for a, k in den:
                p = p * Poly.atom(a) ** int(k)
            if n is not None and n != p:
                return None
            n = p
        if n is None:
            return None
        if v not in inm:
            freq.append((v, n))
        full |= {ge(Poly.atom(v)), ge(n - Poly.atom(v) - 1)}
    return frozenset(full), freq


def _group_zero(g):
    # identical domains
    acc: dict = {}
    for d, c, alts in g:
        placed = False
        for a in alts:
            if a in acc:
                v = acc[a]
                acc[a] = (v[0] + c[0], v[1] + c[1])
                placed = True
                break
        if not placed:
            acc[d] = c
    items = [(d, c) for d, c in acc.items() if c != (0, 0)]
    if not items:
        return True
    if len(items) == 1:
        d, c = items[0]
        return inconsistent([*logic.CTX.facts, *d])
    if len(items) > 16:
        return False
    # pointwise: sum of c*[d] must vanish: enumerate sign vectors by z3
    return _indicator_zero(items)


def _indicator_zero(items):
    import z3

    from .logic import Z3T, _products, _relevant

    t0 = time.time()
    logic.STATS.queries += 1
    try:
        lits = [l for d, _ in items for l in d]
        rel = _relevant(lits, logic.CTX.facts)
        tr = Z3T(lin=True)
        base = [tr.lit(l) for l in rel]
        conds = [z3.And([tr.lit(l) for l in d]) if d else z3.BoolVal(True) for d, _ in items]
        extra = [tr.lit(l) for l in _products(tr, rel)] if tr.nonlinear else []
        for part in (0, 1):
            cs = [c[part] for _, c in items]
            if all(c == 0 for c in cs):
                continue
            den = 1
            for c in cs:
                den = den * c.denominator // math.gcd(den, c.denominator)
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(base + extra + tr.side)
            tot = z3.Sum([z3.If(q, z3.IntVal(int(c * den)), z3.IntVal(0)) for q, c in zip(conds, cs)])
            s.add(tot != 0)
            if s.check() != z3.unsat:
                return False
        return True
    finally:
        logic.STATS.z3_time += time.time() - t0


def _clear_denominators(e: Expr):
    den: dict = {}
    for (m, x, b, d) in e.d:
        for a, k in m:
            if a[0] == "fn" and a[1] in ("rrecip", "recip") and k > 0:
                if b and (atom_atoms(a) & set(b)):
                    return None
                den[a] = max(den.get(a, 0), k)
    if not den:
        return None
    a = sorted(den, key=akey)[0]
    D = a[2][0].expr()
    if len(a) > 3 and a[3]:
        D = D.conj()
    k = int(den[a])
    out = Expr({})
    for (m, x, b, d), c in e.d.items():
        j = 0
        mm = []
        for aa, ee in m:
            if aa == a:
                j = int(ee)
            else:
                mm.append((aa, ee))
        out = out + Expr({(tuple(mm), x, b, d): c}) * (D ** (k - j))
    return out


# ---------------------------------------------------------------- numeric evaluation (for self-tests)
def evaluate(e: Expr, env) -> complex:
    """env: atom -> number for ints/reals, and name -> callable for applications."""
    tot = 0
    for (m, x, b, d), c in e.d.items():
        tot += complex(float(c[0]), float(c[1])) * _eval_term(m, x, list(b), d, dict(env))
    return tot


def _eval_poly(p, env):
    t = 0
    for m, c in p.t.items():
        v = c
        for a, k in m:
            v *= _eval_iatom(a, env) ** k
        t += v
    return t


def _eval_iatom(a, env):
    if a in env:
        return env[a]
    if a[0] == "fd":
        return _eval_poly(a[1], env) // _eval_poly(a[2], env)
    if a[0] == "ia":
        return int(env[a[1]](*[_eval_poly(p, env) for p in a[2]]))
    raise KeyError(a)


def _eval_lit(l, env):
    if l[0] == "ge":
        return _eval_poly(l[1], env) >= 0
    if l[0] == "eq":
        return _eval_poly(l[1], env) == 0
    if l[0] == "ne":
        return _eval_poly(l[1], env) != 0
    return l == TRUE


def _eval_atom(a, env):
    import cmath

    if a[0] in ("sz", "ix", "fd", "ia"):
        return _eval_iatom(a, env)
    if a[0] == "q":
        return a[1]
    if a[0] == "r":
        return math.pi if a == PI else env[a]
    if a[0] == "app":
        v = env[a[1]](*[_eval_poly(p, env) for p in a[2]])
        return v.conjugate() if a[3] else v
    if a[0] == "fn":
        from numpy import isclose as np_isclose

        args = [evaluate(z.expr(), env) if isinstance(z, Frozen) else z for z in a[2]]
        f = {"angle": cmath.phase, "close": lambda u, v: float(np_isclose(u, v)), "unit": lambda z: cmath.exp(1j * cmath.phase(z)), "log": cmath.log, "clog": cmath.log, "cpow": lambda z, k: z ** float(k), "abs": abs, "real": lambda z: z.real, "imag": lambda z: z.imag, "rpow": lambda z, k: z ** float(k), "rrecip": lambda z: 1 / z, "recip": lambda z: 1 / z, "sqrtp": cmath.sqrt, "csqrt": cmath.sqrt, "expr": cmath.exp, "cexp": cmath.exp}[a[1]]
        v = f(*args)
        return v.conjugate() if len(a) > 3 and a[3] else v
    raise KeyError(a)


def _eval_term(m, x, b, d, env):
    import cmath

    if b:
        v = b[0]
        tot = 0
        # bounded search window for the bound variable
        lim = env.get("_window", 40)
        for k in range(-lim, lim + 1):
            env[v] = k
            ok = True
            for l in d:
                at = lit_atoms(l)
                if v in at and not (at & set(b[1:])):
                    if not _eval_lit(l, env):
                        ok = False
                        break
            if ok:
                tot += _eval_term(m, x, b[1:], d, env)
        env.pop(v, None)
        return tot
    for l in d:
        if not _eval_lit(l, env):
            return 0
    r = 1
    for a, k in m:
        r *= complex(_eval_atom(a, env)) ** (int(k) if k.denominator == 1 else float(k))
    s = 0
    for mm, q in x:
        t = complex(float(q[0]), float(q[1]))
        for a, k in mm:
            t *= complex(_eval_atom(a, env)) ** (int(k) if k.denominator == 1 else float(k))
        s += t
    return r * cmath.exp(s)
