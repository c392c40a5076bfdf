"""Overlaps: the products of pairs of states at each point, and their Fourier transform."""
from contracts._common import *
from contracts.basis_points import lattice, nonsingular
from contracts.distances import wrapped
from contracts.hamiltonian import mk_pos2
from contracts.operators import mat3, oplist
from contracts.wavepacket import wavepacket

OO = "overlap.overlap"
OVC = "overlap.conversion"
OA = "overlap.calculation"
OI = "overlap.interpolation"


def overlap(C, xb, b0, b1, name="o"):
    return oplist(C, xb, b0, b1, name)


def single(C, xb, name="o"):
    B = C.mod("basis.basis").FundamentalBasis
    return {"basis": C.tuple_basis(xb, C.tuple_basis(B(1), B(1))), "data": C.array(name, [flat(xb)])}


def converted(C, o, basis):
    xb, bb = o["basis"]._axes
    parts = [dims_of(xb), dims_of(bb)]
    v = C.regroup(flatten(C, o["data"]), 0, parts[0] + parts[1])
    v = C.ungroup(v, 0, len(parts[0]))
    v = C.ungroup(v, 1, len(parts[1]))
    return {"basis": C.tuple_basis(basis, bb), "data": flatten(C, S.conv(C, v, xb, basis, 0))}


@contract(f"{OO}:get_single_overlap", ["P25"], cases=[dict(x=x, a=a, b=b, i=i) for x, a, b, i in (("F", "F", "T", 0), ("F", "F", "T", 1), ("FT", "F", "F", 1))])
class gso:
    """The overlap of one pair of states at every point."""

    def inputs(C, x, a, b, i):
        o = overlap(C, mk(C, x, "X"), mk(C, a, "A"), mk(C, b, "B"))
        n, m = o["basis"]._axes[1].shape
        i0, i1 = C.int("i0", 0, n - 1), C.int("i1", 0, m - 1)
        return (o, (i0, i1) if i else i0 * m + i1)

    def result(C, overlap, idx):
        xb, bb = overlap["basis"]._axes
        m = bb.shape[1]
        i = idx if isinstance(idx, tuple) else (C.div(idx, m), C.mod_(idx, m))
        at = C.at(mat3(C, overlap))
        d = dims_of(xb)
        x = S.flat_of(C, d) if hasattr(S, "flat_of") else None
        at = C.at(overlap["data"], d + dims_of(bb))
        B = C.mod("basis.basis").FundamentalBasis
        return {"basis": C.tuple_basis(xb, C.tuple_basis(B(1), B(1))), "data": C.lam([flat(xb)], lambda *j: at(*j, *i))}


@contract(f"{OVC}:convert_overlap_to_basis", ["P25"], cases=[dict(x=x, y=y, a=a, b=b) for x, y, a, b in (("F", "T", "F", "T"), ("F", "F", "F", "F"), ("FT", "TF", "F", "T"), ("tt", "rt", "ff", "f"))])
class cob:
    """Converted as a function of the point, each pair of states on its own."""

    def inputs(C, x, y, a, b):
        xb = mk(C, x, "X")
        return (overlap(C, xb, mk(C, a, "A"), mk(C, b, "B")), mk(C, y, "Y", fns_of(xb)))

    def requires(C, overlap, basis):
        C.require(S.same(C, overlap["basis"]._axes[0], basis))

    def result(C, overlap, basis):
        return converted(C, overlap, basis)


for _to in ("position", "momentum"):
    def _mk(to):
        @contract(f"{OVC}:convert_overlap_to_{to}_basis", ["P25"], cases=[dict(x=x) for x in ("f", "t", "r", "ff", "fr", "tt", "fff")])
        class _c:
            """The same function of the point on the full position (momentum) grid."""

            def inputs(C, x):
                return (overlap(C, mk_pos(C, x), mk(C, "F", "A"), mk(C, "T", "B")),)

            def result(C, overlap):
                return converted(C, overlap, (fund_pos if to == "position" else fund_mom)(C, overlap["basis"]._axes[0]))
    _mk(_to)


def products(C, states, shift):
    """conj(state i) times state j moved by the shift, at each point"""
    lb, b = states["basis"]._axes
    n, d, ln = dims_of(b), dims_of(lb), len(dims_of(lb))
    at = C.at(states["data"], d + n)
    if isinstance(shift, tuple):
        back = lambda x: tuple(C.mod_(i - s, m) for i, s, m in zip(x, shift, n))
    elif len(n) == 1:
        back = lambda x: (C.mod_(x[0] - shift, n[0]),)
    else:
        assert isinstance(shift, int) and shift == 0
        back = lambda x: x
    k = len(n)
    fn = lambda *i: C.conj(at(*i[k:k + ln], *i[:k])) * at(*i[k + ln:], *back(i[:k]))
    return {"basis": C.tuple_basis(b, C.tuple_basis(lb, lb)), "data": C.lam([(*n, *d, *d)], fn)}


SHIFTS = [dict(l=l, k=k, s=s) for l, k, s in (("f", "F", "none"), ("f", "F", "int"), ("ff", "F", "int"), ("f", "FT", "none"), ("f", "FT", "tuple"), ("ff", "ff", "tuple"), ("f", "F,", "tuple"), ("f", "fTf", "tuple"), ("T", "tt", "none"))]


@contract(f"{OA}:calculate_state_vector_list_overlap", ["P25"], cases=SHIFTS)
class csvo:
    """An element is conj(state i at x) times state j at x - shift, each axis of the points wrapped on its own."""
    has_kwargs = True

    def inputs(C, l, k, s):
        st = lst(C, mk(C, l, "L"), mk(C, k, "A"))
        kw = {}
        if s == "int":
            kw = dict(shift=C.int("s0"))
        elif s == "tuple":
            kw = dict(shift=tuple(C.int(f"s{a}") for a in range(len(st["basis"]._axes[1]._axes))))
        return ((st,), kw)

    def applies(C, states, *, shift=0):
        return isinstance(shift, tuple) or len(dims_of(states["basis"]._axes[1])) == 1 or (isinstance(shift, int) and shift == 0)

    def result(C, states, *, shift=0):
        return products(C, states, shift)


@contract(f"{OA}:calculate_wavepacket_overlap", ["P25"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("T", "F"), ("tt", "tt"))])
class cwo:
    """conj of the first unfurled wavepacket times the second, at each point of the large cell."""

    def inputs(C, lk, sk):
        w = wavepacket(C, lk, sk)
        return (w, {"basis": w["basis"], "data": C.array("w1", [tuple(dims_of(w["basis"]))])})

    def result(C, w0, w1):
        B = C.mod("basis.basis").FundamentalBasis
        out = []
        for w in (w0, w1):
            u = C.fn("wavepacket.eigenstate_conversion:unfurl_wavepacket")(w)
            b = fund_pos(C, u["basis"])
            out.append(C.at(S.conv(C, u["data"], u["basis"], b), dims_of(b)))
        return {"basis": C.tuple_basis(b, C.tuple_basis(B(1), B(1))), "data": C.lam([flat(b)], lambda *i: C.conj(out[0](*i)) * out[1](*i))}


@contract(f"{OA}:calculate_wavepacket_list_overlap", ["P25"], cases=[dict(lk=a, sk=b, to=t, s=s) for a, b, t, s in (("t", "t", 0, 0), ("T", "F", 0, 0), ("t", "t", 1, 0), ("tt", "tt", 0, 0), ("tt", "tt", 0, 1))])
class cwlo:
    """The products of the unfurled wavepackets on the position grid of the large cell, or in the basis asked for."""
    has_kwargs = True

    def inputs(C, lk, sk, to, s):
        w = wavepacket(C, lk, sk, nb="B")
        kw = {}
        if to:
            kw["basis"] = C.tuple_basis(C.abs_basis("Z", "F", fn=w["basis"][0][1].fundamental_n * w["basis"][1].fundamental_n))
        if s:
            kw["shift"] = tuple(C.int(f"s{a}") for a in range(len(sk)))
        return ((w,), kw)

    def result(C, w, *, shift=0, basis=None):
        u = C.fn("wavepacket.eigenstate_conversion:unfurl_wavepacket_list")(w)
        lb, b = u["basis"]._axes
        to = fund_pos(C, b) if basis is None else basis
        v = flatten(C, S.conv(C, split2(C, u["data"], lb, b), b, to, 1))
        return products(C, {"basis": C.tuple_basis(lb, to), "data": v}, shift)


def wrapped_points(C, n, nd):
    """indices of a point, the first two brought around the origin"""
    return lambda i: tuple(wrapped(C, i[a], n[a], 0) if a < 2 else i[a] for a in range(nd))


@contract(f"{OI}:get_overlap_momentum_interpolator", ["P25"], cases=[dict(x=x) for x in ("ff", "fff", "f")])
class gomi:
    """sum over the points of the overlap times exp(i k x), the points being those nearest to the origin"""

    def inputs(C, x):
        return (single(C, mk_pos(C, x)),)

    def ensures(C, out, overlap):
        b = overlap["basis"]._axes[0]
        nd = len(b._axes)
        n = dims_of(b)
        at = C.at(overlap["data"], n)
        L = lattice(C, b)
        w = wrapped_points(C, n, nd)
        m = C.size("m")
        k = C.array("k", [nd, m], dt="f")
        ka = C.at(k)

        def term(j, i):
            x = w(i)
            return at(*i) * C.expi(sum(ka(d, j) * sum(L[a][d] * x[a] / n[a] for a in range(nd)) for d in range(nd)))

        C.equal("at any k", out(k), C.lam([m], lambda j: C.sum(tuple(n), lambda *i: term(j, i))))


@contract(f"{OI}:get_overlap_momentum_interpolator_k_fractions", ["P25"], cases=[dict(x=x) for x in ("ff", "fff", "f")])
class gomk:
    """k given in units of the reciprocal vectors of the cell"""

    def inputs(C, x):
        return (single(C, mk_pos(C, x)),)

    def ensures(C, out, overlap):
        b = overlap["basis"]._axes[0]
        nd = len(b._axes)
        n = dims_of(b)
        at = C.at(overlap["data"], n)
        w = wrapped_points(C, n, nd)
        m = C.size("m")
        ks = tuple(C.array(f"k{a}", [m], dt="f") for a in range(nd))
        ka = [C.at(k) for k in ks]

        def term(j, i):
            x = w(i)
            return at(*i) * C.expi(2 * C.pi * sum(ka[a](j) * x[a] / n[a] for a in range(nd)))

        C.equal("at any k", out(ks), C.lam([m], lambda j: C.sum(tuple(n), lambda *i: term(j, i))))


def flat_series(C, out, overlap):
    b = overlap["basis"]._axes[0]
    n = dims_of(b)
    at = C.at(overlap["data"], n)
    L = lattice(C, b)
    w = wrapped_points(C, n, 3)
    m = C.size("m")
    k = C.array("k", [2, m], dt="f")
    ka = C.at(k)

    def term(j, i):
        x = w(i)
        return at(*i) * C.expi(sum(ka(d, j) * sum(L[a][d] * x[a] / n[a] for a in range(2)) for d in range(2)))

    C.equal("at any k", out(k), C.lam([m], lambda j: C.sum(tuple(n), lambda *i: term(j, i))))


@contract(f"{OI}:get_overlap_momentum_interpolator_flat", ["P25"])
class gomf:
    """at k in the plane: the overlap summed over the third axis"""

    def inputs(C):
        return (single(C, mk_pos(C, "fff")),)

    def ensures(C, out, overlap, n_points=None):
        flat_series(C, out, overlap)


@contract(f"{OI}:get_overlap_momentum_interpolator_flat", ["P25"], name="largest points", cases=[dict(all=a) for a in (0, 1)])
class gomfn:
    """with a number of points: those where the summed overlap is largest"""
    bounded = "which points are kept depends on the data: compared at sampled overlaps"

    def inputs(C, all):
        o = single(C, mk_pos(C, "fff"))
        n = dims_of(o["basis"]._axes[0])
        m = n[0] * n[1]
        return (o, m + 3 if all else C.int("p", 1, m))

    def ensures(C, out, overlap, n_points):
        import numpy as np
        b = overlap["basis"]._axes[0]
        n = dims_of(b)
        v = overlap["data"].reshape(n).sum(axis=2)
        keep = np.zeros(n[0] * n[1], bool)
        keep[np.argsort(-np.abs(v).ravel())[:n_points]] = True
        v = np.where(keep.reshape(n[:2]), v, 0)
        z = np.zeros(n, complex)
        z[:, :, 0] = v
        flat_series(C, out, {"basis": overlap["basis"], "data": z.ravel()})
