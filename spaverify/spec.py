"""Specification library shared by the contracts (works in both modes).

The meaning of a basis is its matrix M_b(i, f): the value of its state i at fundamental
point f.  Everything a conversion must do is stated with these matrices."""
from __future__ import annotations


def is_tuple(b):
    return hasattr(b, "_axes")


def leaves(b):
    """Primitive bases of a (nested) tuple basis, in storage order."""
    if is_tuple(b):
        return [x for a in b._axes for x in leaves(a)]
    return [b]


def matrix(C, b, i, f):
    if hasattr(b, "M"):
        return b.M(i, f)
    t = type(b).__name__
    N = b.fundamental_n
    n = b.n
    if t in ("FundamentalBasis", "FundamentalPositionBasis", "ExplicitTimeBasis", "ExplicitBlockFractionBasis", "MomentumBasis"):
        return C.delta(i, f)
    if t in ("FundamentalTransformedBasis", "FundamentalTransformedPositionBasis"):
        return C.cis(i * f, N) / C.sqrt(N)
    if t in ("TransformedBasis", "TransformedPositionBasis"):
        return C.ite(C.lt(i, C.div(n + 1, 2)), lambda: C.cis(i * f, N), lambda: C.cis((i - n) * f, N)) / C.sqrt(N)
    if t in ("TruncatedBasis", "TruncatedPositionBasis"):
        return C.ite(C.lt(i, C.div(n + 1, 2)), lambda: C.delta(i, f), lambda: C.delta(i - n + N, f))
    if t in ("EvenlySpacedBasis", "EvenlySpacedTimeBasis", "FundamentalTimeBasis", "EvenlySpacedBlockFractionBasis", "FundamentalBlockFractionBasis"):
        return C.delta(C.mod_(b._step * i + b._offset, N), f)
    if t in ("EvenlySpacedTransformedBasis", "EvenlySpacedTransformedPositionBasis"):
        return C.cis((b._step * i + b._offset) * f, N) / C.sqrt(N)
    if t.startswith("Explicit"):
        vec, vb = b._vectors, b._vectors["basis"][1]
        at = C.at(vec["data"], (b.n, vb.n))
        return C.sum(vb.n, lambda j: at(i, j) * matrix(C, vb, j, f))
    raise NotImplementedError(t)


def ft_index(C, i, n):
    """Signed frequency of slot i of an n point Fourier series (non negative first)."""
    return C.ite(C.lt(i, C.div(n + 1, 2)), lambda: i, lambda: i - n)


def _explicit(b):
    return type(b).__name__.startswith("Explicit") and hasattr(b, "_vectors")


def _raw(C, b):
    """Coefficients (state, index) of the vectors of an explicit basis."""
    vb = b._vectors["basis"]._axes[1]
    return C.at(C.ungroup(C.regroup(b._vectors["data"], 0, [b.n] + [x.n for x in leaves(vb)]), 1, len(leaves(vb)))), vb


# further bases: class name -> (coefficients to fundamental points, fundamental points to coefficients)
EXTRA: dict = {}


def prim_into(C, v, b, axis):
    if type(b).__name__ in EXTRA:
        return EXTRA[type(b).__name__][0](C, v, b, axis)
    if _explicit(b):
        at, vb = _raw(C, b)
        return into_fundamental(C, C.linear_op(v, b.n, vb.n, axis, lambda i, f: at(i, f)), vb, axis)
    return C.linear_op(v, b.n, b.fundamental_n, axis, lambda i, f: matrix(C, b, i, f))


def prim_from(C, v, b, axis):
    if type(b).__name__ in EXTRA:
        return EXTRA[type(b).__name__][1](C, v, b, axis)
    if _explicit(b):
        at, vb = _raw(C, b)
        return C.linear_op(from_fundamental(C, v, vb, axis), vb.n, b.n, axis, lambda f, i: C.conj(at(i, f)))
    return C.linear_op(v, b.fundamental_n, b.n, axis, lambda f, i: C.conj(matrix(C, b, i, f)))


def conv(C, v, b1, b2, axis=-1):
    """Coefficients in b1 along an axis -> coefficients in b2."""
    if b1 is b2:
        return C.cplx(v)
    nd = v.ndim
    ax = axis % nd
    l1, l2 = leaves(b1), leaves(b2)
    if len(l1) == 1 and len(l2) == 1:
        return prim_from(C, prim_into(C, v, l1[0], ax), l2[0], ax)
    if len(l1) == len(l2) and tuple_shape(b1) == tuple_shape(b2):
        v = C.regroup(v, ax, [b.n for b in l1])
        for k, (x, y) in enumerate(zip(l1, l2)):
            v = conv(C, v, x, y, ax + k)
        return C.ungroup(v, ax, len(l1))
    v = into_fundamental(C, v, b1, ax)
    return from_fundamental(C, v, b2, ax)


def tuple_shape(b):
    return tuple(tuple_shape(x) for x in b._axes) if is_tuple(b) else ()


def into_fundamental(C, v, b, axis=-1):
    ax = axis % v.ndim
    l = leaves(b)
    v = C.regroup(v, ax, [x.n for x in l])
    for k, x in enumerate(l):
        v = prim_into(C, v, x, ax + k)
    return C.ungroup(v, ax, len(l))


def from_fundamental(C, v, b, axis=-1):
    ax = axis % v.ndim
    l = leaves(b)
    v = C.regroup(v, ax, [x.fundamental_n for x in l])
    for k, x in enumerate(l):
        v = prim_from(C, v, x, ax + k)
    return C.ungroup(v, ax, len(l))


def same(C, b1, b2):
    """Fundamental size agreement, the precondition of every conversion."""
    return C.eq(b1.fundamental_n, b2.fundamental_n)
