"""Helpers shared by the contract files."""
from spaverify import spec as S
from spaverify.contract import *


def mk_basis(C, kind, name, fn=None, n=None, like=None):
    """A basis of one of the repository's classes (or an abstract one) with symbolic sizes."""
    if kind in ("F", "T"):
        return C.abs_basis(name, kind, n=n, fn=fn)
    N = C.size(f"{name}_N") if fn is None else fn
    if kind == "fund":
        return C.basis("FundamentalBasis")(N)
    if kind == "ftrans":
        return C.basis("FundamentalTransformedBasis")(N)
    if kind in ("trans", "trunc"):
        m = C.size(f"{name}_n", hi=N) if n is None else n
        return C.basis({"trans": "TransformedBasis", "trunc": "TruncatedBasis"}[kind])(m, N)
    if kind in ("even", "event"):
        E = C.mod("basis.evenly_spaced_basis")
        cls = {"even": E.EvenlySpacedBasis, "event": E.EvenlySpacedTransformedBasis}[kind]
        m = like.n if like is not None else C.size(f"{name}_n") if n is None else n
        s = like.step if like is not None else C.size(f"{name}_s")
        # every integer offset is (c n + t) s + r with 0 <= t < n and 0 <= r < s
        c, t, r = C.int(f"{name}_c", lo=-2 if C.mode == "con" else None, hi=2 if C.mode == "con" else None), C.int(f"{name}_t", 0, m - 1), C.int(f"{name}_r", 0, s - 1)
        return cls(m, s, (c * m + t) * s + r)
    raise KeyError(kind)


# ---------------------------------------------------------------- structured inputs
def flat(b):
    """Dimension of the storage of a basis: grouped by its parts."""
    l = S.leaves(b)
    return l[0].n if len(l) == 1 and not S.is_tuple(b) else tuple(x.n for x in l)


def dims_of(b):
    return [x.n for x in S.leaves(b)]


def mk(C, kinds, name, fns=None):
    """A basis from a code string: one letter per part (F,T abstract; f,t,r,u concrete); lower case single letter
    gives a flat basis, more letters (or a trailing comma) a stacked one."""
    one = len(kinds) == 1
    ks = kinds.rstrip(",")
    table = {"F": "F", "T": "T", "f": "fund", "t": "ftrans", "r": "trans", "u": "trunc"}
    parts = [mk_basis(C, table[k], f"{name}{i}", fn=fns[i] if fns else None) for i, k in enumerate(ks)]
    return parts[0] if one else C.tuple_basis(*parts)


def fns_of(b):
    return [x.fundamental_n for x in S.leaves(b)]


def vec(C, b, name="v", **kw):
    return {"basis": b, "data": C.array(name, [flat(b)], **kw)}


def lst(C, b0, b1, name="l", **kw):
    """A list of vectors: outer basis first."""
    d = tuple(dims_of(b0)) + tuple(dims_of(b1))
    return {"basis": C.tuple_basis(b0, b1), "data": C.array(name, [d], **kw)}


def split2(C, data, b0, b1):
    """flat data -> array with one (grouped) axis for each of the two bases."""
    n0, n1 = len(dims_of(b0)), len(dims_of(b1))
    v = C.regroup(flatten(C, data) if data.ndim > 1 else data, 0, dims_of(b0) + dims_of(b1))
    v = C.ungroup(v, 0, n0)
    return C.ungroup(v, 1, n1)


def flatten(C, v):
    return C.ungroup(v, 0, v.ndim)


def is_list(b):
    return S.is_tuple(b) and len(b._axes) == 2


def fund_pos(C, b):
    """The same stacked basis on its fundamental grid."""
    B = C.mod("basis.basis")
    return C.tuple_basis(*[B.FundamentalPositionBasis(x.delta_x, x.fundamental_n) for x in b._axes])


def fund_mom(C, b):
    B = C.mod("basis.basis")
    return C.tuple_basis(*[B.FundamentalTransformedPositionBasis(x.delta_x, x.fundamental_n) for x in b._axes])


def mk_pos(C, kinds, name="p", fns=None, vals=None):
    """A stacked basis of axes with lattice vectors: f fundamental, t momentum, r momentum truncated."""
    B = C.mod("basis.basis")
    nd = len(kinds)
    axes = []
    for k, kind in enumerate(kinds):
        d = C.const_array([C.real(f"{name}dx{k}{j}") for j in range(nd)])
        N = C.size(f"{name}N{k}") if fns is None else fns[k]
        if kind == "f":
            axes.append(B.FundamentalPositionBasis(d, N))
        elif kind == "t":
            axes.append(B.FundamentalTransformedPositionBasis(d, N))
        else:
            axes.append(B.TransformedPositionBasis(d, C.size(f"{name}n{k}", hi=N), N))
    return C.tuple_basis(*axes)
