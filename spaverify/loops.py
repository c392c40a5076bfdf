"""Loops over ranges of symbolic length.

A loop is executed once for a generic iteration p.  Array writes made by that
iteration are generalised to all iterations at the end of the loop; this is the
loop rule with the invariant "iterations < p have written exactly their own cells",
and it is only applied when the cells written by different iterations are provably
disjoint and no iteration reads a cell written by another one.
"""
from __future__ import annotations

import sys

from . import logic, sym
from .expr import E, Expr, ite_conj
from .logic import FALSE, TRUE, Unsupported, decide, entailed, eq, ge, lit_atoms, lit_subst, lt
from .poly import P, Poly

STACK: list = []


class Loop:
    def __init__(self, n):
        self.n = P(n)
        self.v, self.p, self.facts = sym.fresh_range(self.n, "it")
        self.writes: list = []     # (store, old fn, sel)
        self.old: dict = {}
        self.reads: list = []
        self.closed = False


def generic(n):
    return Loop(n)


def solve_for(lits, v):
    """(value of v, remaining lits) when some equality literal pins v."""
    for l in lits:
        if l[0] == "eq":
            cl = l[1].coeff_linear(v)
            if cl and cl[0].is_const() and abs(cl[0].cval()) == 1 and v not in cl[1].all_atoms():
                val = -cl[1] if cl[0].cval() == 1 else cl[1]
                return val, [x for x in lits if x is not l]
    # v + n*w == idx style: quotient / remainder of a mixed radix index
    return None


def run(n, body_iter, known=None):
    """Generator used by `for x in <symbolic>`: yields the generic element.  `known(p)`: facts that follow from p being in range."""
    if not entailed(ge(P(n) - 1)):
        if not sym.choose(ge(P(n) - 1)):
            return
    lp = Loop(n)
    if known is not None:
        n0 = logic.CTX.push(lp.facts)
        try:
            more = known(lp.p)
        finally:
            logic.CTX.pop(n0)
        lp.facts = [*lp.facts, *more]
    STACK.append(lp)
    nf = len(logic.CTX.facts)
    logic.CTX.facts.extend(lp.facts)
    try:
        yield body_iter(lp.p)
        finish(lp)
    except BaseException:
        # the path ends here (a generator that is only collected later must not touch another one's facts)
        if lp in STACK:
            STACK.remove(lp)
        raise
    STACK.remove(lp)
    # facts about p stay valid only inside the loop
    extra = [f for f in logic.CTX.facts[nf:] if lp.v not in lit_atoms(f)]
    bad = any(lp.v in lit_atoms(f) and f not in lp.facts for f in logic.CTX.facts[nf:])
    del logic.CTX.facts[nf:]
    if bad:
        raise Unsupported("data dependent branch inside a symbolic loop")
    logic.CTX.facts.extend(extra)


def on_write(store, old, sel):
    """Called before a write; returns True if the write is deferred to the loop rule."""
    if STACK:
        STACK[-1].writes.append((store, sel))
        STACK[-1].old.setdefault(id(store), (store, old))


def wrap_read(store, fn):
    if not STACK:
        return fn
    lp = STACK[-1]

    def read(idx):
        if not lp.closed:
            lp.reads.append((store, tuple(idx), ()))
        return fn(idx)

    return read


def finish(lp):
    stores = {}
    for st, sel in lp.writes:
        stores.setdefault(id(st), (st, []))[1].append(sel)
    outer = STACK[-2] if len(STACK) > 1 else None
    for sid, (st, sels) in stores.items():
        old = lp.old[sid][1]
        pv = lp.v

        def instantiate(idx, sel, pv=pv):
            lits, val = sel(idx)
            if FALSE in lits:
                return None
            lits = [l for l in lits if l != TRUE]
            r = solve_for(lits, pv)
            if r is None:
                raise Unsupported("loop iterations may write the same cells")
            sol, rest = r
            env = {pv: sol}
            guards = [lit_subst(l, env) for l in rest] + [ge(sol), lt(sol, lp.n)]
            return guards, val, env

        def new(idx, sels=sels, old=old):
            out = old(idx)
            for sel in sels:
                r = instantiate(idx, sel)
                if r is None:
                    continue
                guards, val, env = r
                if FALSE in guards:
                    continue
                dead = False
                rest = []
                for l in guards:
                    if l == TRUE:
                        continue
                    d = decide(l)
                    if d is False:
                        dead = True
                        break
                    if d is None:
                        rest.append(l)
                if dead:
                    continue
                # the value is computed in iteration p = sol
                n0 = logic.CTX.push([*lp.facts])
                try:
                    v = E(val() if callable(val) else val)
                finally:
                    logic.CTX.pop(n0)
                v = v.subst(env)
                out = ite_conj(rest, v, out)
            return out

        # disjointness / no cross-iteration reads
        probe = tuple(Poly.atom(logic.CTX.fresh("w")) for _ in range(st.rank))
        inst = []
        for sel in sels:
            r = instantiate(probe, sel)
            if r is None:
                continue
            guards, val, env = r
            if FALSE in guards:
                continue
            inst.append((guards, env[pv]))
            n0 = logic.CTX.push([l for l in lp.facts])
            try:
                E(val() if callable(val) else val)
            finally:
                logic.CTX.pop(n0)
        # two writes may only hit the same cell within one iteration (then the
        # later statement wins)
        for a in range(len(inst)):
            for b in range(a + 1, len(inst)):
                if inst[a][1] == inst[b][1] or entailed(eq(inst[a][1], inst[b][1])):
                    continue
                if logic.inconsistent([*logic.CTX.facts, *inst[a][0], *inst[b][0]]):
                    continue
                n0 = logic.CTX.push([*inst[a][0], *inst[b][0]])
                try:
                    same = entailed(eq(inst[a][1], inst[b][1]))
                finally:
                    logic.CTX.pop(n0)
                if not same:
                    raise Unsupported("loop iterations may write the same cells")
        # a read by iteration q may only see what iteration q itself wrote
        q = logic.CTX.fresh("it")
        ren = {pv: Poly.atom(q)}
        for rs, loc, rfacts in lp.reads:
            if id(rs) != sid:
                continue
            loc = tuple(logic.subst(P(x), ren) for x in loc)
            n0 = logic.CTX.push([lit_subst(f, ren) for f in [*lp.facts, *rfacts]])
            try:
                for sel in sels:
                    r = instantiate(loc, sel)
                    if r is None:
                        continue
                    guards, val, env = r
                    if any(g == FALSE for g in guards) or env[pv] == Poly.atom(q) or logic.inconsistent([*logic.CTX.facts, *guards]):
                        continue
                    n1 = logic.CTX.push(guards)
                    try:
                        same = entailed(eq(env[pv], Poly.atom(q)))
                    finally:
                        logic.CTX.pop(n1)
                    if not same:
                        raise Unsupported("a loop iteration reads a cell written by another one")
            finally:
                logic.CTX.pop(n0)
        st.fn = new
        if outer is not None:
            outer.old.setdefault(sid, (st, old))

            for sel in sels:
                def osel(idx, sel=sel):
                    r = instantiate(idx, sel)
                    if r is None:
                        return [FALSE], E(0)
                    guards, val, env = r

                    def value():
                        n0 = logic.CTX.push([*lp.facts])
                        try:
                            v = E(val() if callable(val) else val)
                        finally:
                            logic.CTX.pop(n0)
                        return v.subst(env)

                    return guards, value

                outer.writes.append((st, osel))
    if outer is not None:
        ren = {lp.v: Poly.atom(logic.CTX.fresh("it"))}
        outer.reads.extend((rs, tuple(logic.subst(P(x), ren) for x in loc), tuple(lit_subst(f, ren) for f in (*rf, *lp.facts)))
                           for rs, loc, rf in lp.reads)
    lp.closed = True


FLAG = [False]  # set while a for statement asks a symbolic range for its next element


def _containers(frame):
    out = []
    for v in frame.f_locals.values():
        for c in (v, *(v.values() if type(v) is dict else v if type(v) in (list, tuple) else ())):
            if type(c) in (list, dict, set):
                out.append((c, list(c.items()) if type(c) is dict else list(c)))
    return out


class It:
    """What a for statement iterates over.  `sym`: this is the generic iteration of a range of symbolic length.
    Such an iteration must not depend on the one before it: the local names it binds are unbound at its start (see
    the rewriting of for statements), it may not change a list, dict or set, and it may not leave the loop."""

    def __init__(self, x):
        self.x, self.sym = x, False

    def __iter__(self):
        x = self.x
        direct = type(x) in (SymRange, sym.SymList, sym.SymArray)
        depth = len(STACK)
        it = iter(x)
        frame = sys._getframe(1)
        while True:
            FLAG[0] = direct
            try:
                v = next(it)
            except StopIteration:
                self.sym = False
                return
            finally:
                FLAG[0] = False
            self.sym = len(STACK) > depth
            before = _containers(frame) if self.sym else ()
            yield v
            for c, old in before:
                new = list(c.items()) if type(c) is dict else list(c)
                same = len(new) == len(old) and all((a[0] == b[0] and a[1] is b[1]) if type(c) is dict else a is b for a, b in zip(new, old))
                if not same:
                    raise Unsupported("a loop of symbolic length collects into a list or dict")


def leave(it):
    if it.sym:
        raise Unsupported("a loop of symbolic length is left early")


def _allowed():
    if not FLAG[0]:
        raise Unsupported("a symbolic range is used one element at a time outside a for statement")
    FLAG[0] = False


def symbolic_iter(x):
    _allowed()
    if isinstance(x, sym.SymList):
        yield from run(x.n, lambda p: x.fn(p), x.known)
        return
    if type(x) is sym.SymArray:
        yield from run(x.dims[0], lambda p: x[sym.mkint(p)])
        return
    raise Unsupported("iteration over a symbolic object")


class SymNdIndex:
    """np.ndindex of a shape with symbolic sizes (an iterator: it is used once)."""

    def __init__(self, shape):
        self.shape, self.used = tuple(shape), False

    def _use(self):
        if self.used:
            raise Unsupported("an ndindex that is used twice")
        self.used = True

    def __iter__(self):
        self._use()
        return self._nested(0, [])

    def _nested(self, k, acc):
        if k == len(self.shape):
            yield tuple(acc)
            return
        s = self.shape[k]
        if type(s) is sym.SInt:
            for i in run(P(s), lambda p: sym.mkint(p)):
                yield from self._nested(k + 1, [*acc, i])
        else:
            for i in range(int(s)):
                yield from self._nested(k + 1, [*acc, i])

    def as_list(self):
        self._use()
        n = P(1)
        for s in self.shape:
            n = n * P(s)

        def digits(p):
            out = []
            for s in self.shape[:0:-1]:
                out.insert(0, logic.fmod(p, P(s)))
                p = logic.fdiv(p, P(s))
            return (p, *out) if self.shape else ()

        return sym.SymList(n, lambda p: tuple(sym.mkint(d) for d in digits(p)), lambda p: [f for d, s in zip(digits(p), self.shape) for f in (ge(d), lt(d, P(s)))])


class SymRange:
    _is_sym = True

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        st, sp = P(start), P(step)
        if sp == P(1):
            n = P(stop) - st
        elif sp == P(-1):
            n = st - P(stop)
        else:
            n = logic.fdiv(P(stop) - st + sp - 1, sp)
        if not entailed(ge(n)) and not sym.choose(ge(n)):
            n = P(0)
        self.n = n

    def el(self, p):
        return sym.mkint(P(self.start) + P(self.step) * p)

    def symlen(self):
        return sym.mkint(self.n)

    def __iter__(self):
        _allowed()
        yield from run(self.n, self.el)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic range")
        return self.el(P(i))

    def __contains__(self, i):
        raise Unsupported("membership in a symbolic range")

    def as_list(self):
        return sym.SymList(self.n, self.el)
