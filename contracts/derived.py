"""Bases derived from other bases, and the time bases."""
from contracts._common import *
from contracts.hamiltonian import mk_pos2

BC = "basis.conversion"
SC = "stacked_basis.conversion"
SB = "stacked_basis.build"
TB = "basis.time_basis_like"
KINDS = ("F", "T", "f", "t", "r")


def named(C, name, *a):
    return C.mod("basis.basis").__dict__[name](*a)


def one(target, make):
    class c:
        def inputs(C, k):
            return (mk_pos2(C, k)._axes[0],)

        def result(C, axis):
            return make(C, axis)

    c.__name__ = target.split(":")[1]
    return contract(target, ["P22"], cases=[dict(k=k) for k in KINDS])(c)


one(f"{BC}:basis_as_fundamental_position_basis", lambda C, x: named(C, "FundamentalPositionBasis", x.delta_x, x.fundamental_n))
one(f"{BC}:basis_as_fundamental_momentum_basis", lambda C, x: named(C, "FundamentalTransformedPositionBasis", x.delta_x, x.fundamental_n))
one(f"{BC}:basis_as_fundamental_transformed_basis", lambda C, x: named(C, "FundamentalTransformedBasis", x.fundamental_n))
one(f"{BC}:basis_as_fundamental_basis", lambda C, x: named(C, "FundamentalBasis", x.fundamental_n))
one(f"{BC}:basis_as_single_point_basis", lambda C, x: named(C, "FundamentalPositionBasis", x.delta_x, 1))


@contract(f"{BC}:basis_as_n_point_basis", ["P22"])
class npb:
    has_kwargs = True

    def inputs(C):
        return ((C.const_array([C.real("d0"), C.real("d1")]),), dict(n=C.size("n")))

    def result(C, delta_x, *, n):
        return named(C, "FundamentalPositionBasis", delta_x, n)


STACKED = ("F", "f", "r", "FT", "tr", "fFT")


def many(target, make):
    class c:
        def inputs(C, k):
            return (mk_pos2(C, k),)

        def result(C, basis):
            return C.tuple_basis(*[make(C, x) for x in basis._axes])

    c.__name__ = target.split(":")[1]
    return contract(target, ["P22"], cases=[dict(k=k) for k in STACKED])(c)


many(f"{SC}:stacked_basis_as_fundamental_transformed_basis", lambda C, x: named(C, "FundamentalTransformedBasis", x.fundamental_n))
many(f"{SC}:stacked_basis_as_fundamental_basis", lambda C, x: named(C, "FundamentalBasis", x.fundamental_n))
many(f"{SC}:stacked_basis_as_fundamental_momentum_basis", lambda C, x: named(C, "FundamentalTransformedPositionBasis", x.delta_x, x.fundamental_n))
many(f"{SC}:stacked_basis_as_fundamental_position_basis", lambda C, x: named(C, "FundamentalPositionBasis", x.delta_x, x.fundamental_n))


@contract(f"{SC}:stacked_basis_as_fundamental_with_shape", ["P22"], cases=[dict(k=k) for k in STACKED])
class sws:
    def inputs(C, k):
        return (mk_pos2(C, k), tuple(C.size(f"s{i}") for i in range(len(k))))

    def result(C, basis, shape):
        return C.tuple_basis(*[named(C, "FundamentalPositionBasis", x.delta_x, n) for x, n in zip(basis._axes, shape)])


@contract(f"{SB}:position_basis_3d_from_parent", ["P22"], cases=[dict(k=k) for k in ("fff", "FTr")])
class p3p:
    def inputs(C, k):
        return (mk_pos2(C, k), tuple(C.size(f"s{i}") for i in range(3)))

    result = sws.result


def shape_of(C, nd):
    return tuple(C.size(f"s{i}") for i in range(nd))


@contract(f"{SB}:fundamental_stacked_basis_from_shape", ["P22"], cases=[dict(nd=n) for n in (1, 2, 3)])
class fss:
    def inputs(C, nd):
        return (shape_of(C, nd),)

    def result(C, shape):
        return C.tuple_basis(*[named(C, "FundamentalBasis", n) for n in shape])


@contract(f"{SB}:fundamental_transformed_stacked_basis_from_shape", ["P22"], cases=[dict(nd=n) for n in (1, 2, 3)])
class fts:
    def inputs(C, nd):
        return (shape_of(C, nd),)

    def result(C, shape):
        return C.tuple_basis(*[named(C, "FundamentalTransformedBasis", n) for n in shape])


def dxs(C, nd, given):
    if not given:
        return None
    return C.const_array([[C.real(f"d{i}{j}") for j in range(nd)] for i in range(nd)])


def rows(C, delta_x, nd):
    return [[int(i == j) for j in range(nd)] if delta_x is None else [delta_x[i][j] for j in range(nd)] for i in range(nd)]


def from_shape(name):
    def result(C, shape, delta_x=None):
        nd = len(shape)
        return C.tuple_basis(*[named(C, name, C.const_array(r), n) for r, n in zip(rows(C, delta_x, nd), shape)])

    return result


@contract(f"{SB}:position_basis_from_shape", ["P22"], cases=[dict(nd=n, given=g) for n in (1, 2, 3) for g in (0, 1)])
class pfs:
    def inputs(C, nd, given):
        return (shape_of(C, nd), dxs(C, nd, given))

    result = from_shape("FundamentalPositionBasis")


@contract(f"{SB}:position_basis_3d_from_shape", ["P22"], cases=[dict(given=g) for g in (0, 1)])
class p3s:
    def inputs(C, given):
        return (shape_of(C, 3), dxs(C, 3, given))

    result = from_shape("FundamentalPositionBasis")


@contract(f"{SB}:momentum_basis_3d_from_resolution", ["P22"], cases=[dict(given=g) for g in (0, 1)])
class m3r:
    def inputs(C, given):
        d = dxs(C, 3, given)
        return (shape_of(C, 3), None if d is None else tuple(d[i] for i in range(3)))

    result = from_shape("FundamentalTransformedPositionBasis")


@lemma("a stacked basis has the sizes and vectors of its axes", ["P22"], cases=[dict(k=k) for k in STACKED])
class sbp:
    def body(C, k):
        b = mk_pos2(C, k)
        ax = list(b._axes)
        n, m = 1, 1
        for x in ax:
            n, m = n * x.n, m * x.fundamental_n
        C.equal("n", b.n, n)
        C.equal("fundamental n", b.fundamental_n, m)
        C.equal("ndim", b.ndim, len(ax))
        C.ensure("axes", len(list(b)) == len(ax) and all(p is q for p, q in zip(b, ax)) and all(b[i] is ax[i] for i in range(len(ax))))
        for i, x in enumerate(ax):
            C.equal(f"shape {i}", b.shape[i], x.n)
            C.equal(f"fundamental shape {i}", b.fundamental_shape[i], x.fundamental_n)
            C.equal(f"delta x {i}", b.delta_x_stacked[i], x.delta_x)
        C.ensure("slice", all(p is q for p, q in zip(b[1:], ax[1:])) and len(list(b[1:])) == len(ax) - 1)


@lemma("the times of a time basis", ["P22"], cases=[dict(k=k) for k in ("even", "fund", "explicit")])
class tbp:
    """Evenly spaced: every step-th of the fundamental times, from the offset; the fundamental times fill delta_t."""

    def body(C, k):
        T = C.mod(TB)
        n, d = C.size("n"), C.real("d", pos=True)
        if k == "explicit":
            t = C.array("t", [n], dt="f")
            b = T.ExplicitTimeBasis(t)
            C.equal("n", b.n, n)
            C.equal("times", b.times, t)
            C.equal("fundamental times", b.fundamental_times, t)
            return
        s, o = (1, 0) if k == "fund" else (C.size("s"), C.int("o", 0 if C.mode == "con" else None, 5 if C.mode == "con" else None))
        b = T.FundamentalTimeBasis(n, d) if k == "fund" else T.EvenlySpacedTimeBasis(n, s, o, d)
        C.equal("n", b.n, n)
        C.equal("fundamental n", b.fundamental_n, n * s)
        C.equal("delta t", b.delta_t, d)
        C.equal("dt", b.dt, d / n)
        C.equal("fundamental dt", b.fundamental_dt, d / (n * s))
        C.equal("fundamental times", b.fundamental_times, C.lam([n * s], lambda i: i * d / (n * s), "f"))
        C.equal("times", b.times, C.lam([n], lambda i: (i * s + o) * d / (n * s), "f"))
