"""The fundamental and the Fourier forms of every kind of basis, reached by its own methods."""
from contracts._common import *
from contracts.special_bases import explicit, time_basis

KINDS = ("fund", "ftrans", "trans", "trunc", "even", "event", "tuple", "tuple3", "explicit", "explicit of a tuple", "explicit with length", "time", "position", "truncated position", "momentum", "util", "util of a tuple")


def any_basis(C, kind):
    if kind in ("tuple", "util of a tuple"):
        return mk(C, "FT", "A")
    if kind == "tuple3":
        return mk(C, "rTF", "A")
    if kind == "explicit":
        return explicit(C, mk(C, "T", "V"))
    if kind == "explicit of a tuple":
        return explicit(C, mk(C, "rt", "V"))
    if kind == "explicit with length":
        return explicit(C, mk_pos(C, "r", "P"), cls="ExplicitBasisWithLength")
    if kind == "time":
        return time_basis(C, "even")[0]
    if kind == "position":
        return mk_pos(C, "r", "P")
    if kind == "truncated position":
        N = C.size("N")
        return C.basis("TruncatedPositionBasis")(C.vector("dx", 2), C.size("n", hi=N), N)
    if kind == "momentum":
        return C.mod("basis.momentum_basis_like").MomentumBasis(C.array("k", [C.size("n")], dt="f"))
    if kind == "util":
        return mk(C, "r", "A")
    return mk_basis(C, kind, "A")


def fourier(C, b):
    F = C.basis("FundamentalTransformedBasis")
    return C.tuple_basis(*[F(x.fundamental_n) for x in b._axes]) if S.is_tuple(b) else F(b.fundamental_n)


def points(C, b):
    F = C.basis("FundamentalBasis")
    return C.tuple_basis(*[F(x.fundamental_n) for x in b._axes]) if S.is_tuple(b) else F(b.fundamental_n)


def inner(b):
    """The tuple the Fourier form of an explicit basis of a tuple is taken along."""
    return b._vectors["basis"]._axes[1] if hasattr(b, "_vectors") else b


@lemma("transformed forms", ["P15"], cases=[dict(kind=k, nd=n, axis=x) for k in KINDS for n, x in ((1, -1), (2, 0), (2, -1)) if not (k in ("explicit of a tuple", "tuple3") and n == 2 and x)])
class trf:
    """Coefficients go to and come from the fundamental points and the full Fourier series of the points, along the axis given."""

    def body(C, kind, nd, axis):
        b = any_basis(C, kind)
        u = C.mod("basis.util").BasisUtil(b) if kind.startswith("util") else b
        T = fourier(C, inner(b))
        P = points(C, inner(b))

        def arr(name, n):
            d = [C.size("m")] * (nd - 1)
            d.insert(axis % nd, n)
            return C.array(name, d)
        v = arr("v", flat(b))
        C.equal("into fundamental", u.__into_fundamental__(v, axis), S.conv(C, v, b, P, axis))
        w = arr("w", flat(P))
        C.equal("from fundamental", u.__from_fundamental__(w, axis), S.conv(C, w, P, b, axis))
        if not kind.startswith("util"):
            C.equal("into transformed", u.__into_transformed__(v, axis), S.conv(C, v, b, T, axis))
            C.equal("from transformed", u.__from_transformed__(w, axis), S.conv(C, w, T, b, axis))
            if hasattr(u, "__as_transformed__"):
                C.equal("as transformed", u.__as_transformed__(v, axis), S.conv(C, v, b, T, axis))
            if hasattr(u, "__as_fundamental__"):
                C.equal("as fundamental", u.__as_fundamental__(v, axis), S.conv(C, v, b, P, axis))
        if axis == -1:
            C.equal("default axis", u.__into_fundamental__(v), S.conv(C, v, b, P, axis))


@lemma("bases of points", ["P15"])
class bop:
    """A momentum basis holds the momenta it is given; a truncated position basis the cell it is given; a util gives the parts of its basis."""

    def body(C):
        n = C.size("n")
        k = C.array("k", [n], dt="f")
        m = C.mod("basis.momentum_basis_like").MomentumBasis(k)
        C.equal("k", m.k_points, k)
        C.equal("n", m.n, n)
        N = C.size("N")
        x = C.vector("dx", 2)
        t = C.basis("TruncatedPositionBasis")(x, C.size("s", hi=N), N)
        C.equal("delta_x", t.delta_x, x)
        C.equal("fundamental_n", t.fundamental_n, N)
        b = mk_pos(C, "rt", "P")
        u = C.mod("basis.util").BasisUtil(b)
        C.equal("parts", list(u), list(b._axes))
        for i in (0, 1):
            C.equal(f"part {i}", u[i], b._axes[i])
            for c in (0, 1):
                C.equal(f"fundamental_delta_x {i} {c}", u.fundamental_delta_x_stacked[i][c], b._axes[i].delta_x[c])
