"""Bragg points and planes, folding into the Brillouin zone, and other helpers on stacked indices."""
from contracts._common import *
from contracts.basis_points import U, lattice, mk_stacked, nonsingular, pts, recip, util

W = "stacked_basis.util"
BZ = "stacked_basis.brillouin_zone"


@contract(f"{W}:get_x01_mirrored_index", ["P07"], cases=[dict(nd=n, arr=a) for n in (2, 3) for a in (0, 1)])
class gxm:
    """The first two indices exchanged."""

    def inputs(C, nd, arr):
        m = C.size("m") if arr else None
        return (tuple(C.array(f"i{k}", [m], dt="i") if arr else C.int(f"i{k}") for k in range(nd)),)

    def result(C, idx):
        return (idx[1], idx[0], *idx[2:])


@contract(f"{W}:get_single_point_basis", ["P22"], cases=[dict(k=k) for k in ("f", "r", "ft", "fff")])
class gspb:
    """One point for each axis, with its lattice vector."""

    def inputs(C, k):
        return (mk_pos(C, k),)

    def result(C, basis):
        B = C.mod("basis.basis").FundamentalPositionBasis
        return tuple(B(x.delta_x, 1) for x in basis._axes)


@contract(f"{W}:get_max_idx", ["P10"], cases=[dict(k=k, axes=a) for k, a in (("f", ()), ("ff", (0,)), ("rf", (1,)), ("fff", (2, 0)), ("ff", (0, 1)))])
class gmi:
    """Where the data is largest, on the axes which are not selected."""

    def inputs(C, k, axes):
        b = mk_pos(C, k)
        return (b, C.array("v", [flat(b)]), axes)

    def result(C, basis, data, axes):
        at = C.at(data, dims_of(basis))
        i = C.argmax(C.lam([flat(basis)], lambda *j: C.abs(at(*j)), dt="f"))
        out = []
        for x in reversed(basis._axes):
            out.append(C.mod_(i, x.n))
            i = C.div(i, x.n)
        return tuple(v for k, v in enumerate(reversed(out)) if k not in axes)


@contract(f"{U}.vectors", ["P01"], cases=[dict(k=k) for k in ("F", "T", "f", "t", "r", "u")])
class uvec:
    """The states of a basis, one for each row, at the points of the fundamental grid."""

    def inputs(C, k):
        return (util(C, mk(C, k, "b")),)

    def result(C, self):
        b = self._basis
        return C.lam([b.n, b.fundamental_n], lambda i, j: S.matrix(C, b, i, j)) if not hasattr(b, "kind") else C.lam([b.n, b.fundamental_n], lambda i, j: C.at(S.into_fundamental(C, C.lam([b.n, b.n], lambda p, q: C.delta(p, q)), b, 1))(i, j))


@contract(f"{BZ}:fold_point_in_bragg_plane", ["P09"], cases=[dict(nd=n, arr=a) for n in (1, 2, 3) for a in (0, 1)])
class fpb:
    """The point less the Bragg point."""

    def inputs(C, nd, arr):
        m = C.size("m")
        return (C.array("b", [nd], dt="f"), tuple(C.array(f"c{k}", [m], dt="f") if arr else C.real(f"c{k}") for k in range(nd)))

    def ensures(C, out, bragg, point):
        at = C.at(bragg)
        for k, c in enumerate(point):
            if getattr(c, "ndim", 0):
                ca = C.at(c)
                C.equal(f"component {k}", out[k], C.lam([C.len(c)], lambda j: ca(j) - at(k), dt="f"))
            else:
                C.equal(f"component {k}", out[k], c - at(k))
        C.ensure("as many", len(out) == len(point))


def zone(C, b, bands):
    w = 2 * bands + 1
    dims = [w] * len(b._axes)
    return dims, lambda i: S.ft_index(C, i, w)


ZONES = [dict(k=k, bands=b) for k in ("f", "r", "ff", "rf", "fff") for b in ((1, 2) if len(k) < 3 else (1,))]


@contract(f"{BZ}:get_bragg_point_basis", ["P08"], cases=ZONES)
class gbpb:
    """The cell of the spacing of the grid, so its reciprocal vectors are those of the grid itself."""
    has_kwargs = True

    def inputs(C, k, bands):
        return ((mk_pos(C, k),), dict(n_bands=bands))

    def result(C, basis, *, n_bands=1):
        B = C.mod("basis.basis").FundamentalPositionBasis
        return C.tuple_basis(*[B(x.delta_x / x.n, 2 * n_bands + 1) for x in basis._axes])


@contract(f"{BZ}:get_all_brag_point_index", ["P08"], cases=ZONES)
class gbpi:
    """The indices of the Bragg points: multiples of the size of each axis, in FFT order."""

    def inputs(C, k, bands):
        return (mk_pos(C, k), bands)

    def result(C, basis, n_bands=1):
        dims, f = zone(C, basis, n_bands)
        return tuple(C.ungroup(C.lam(dims, lambda *i, a=a: basis._axes[a].n * f(i[a]), dt="i"), 0, len(dims)) for a in range(len(dims)))


@contract(f"{BZ}:get_all_brag_point", ["P08"], cases=ZONES)
class gbp:
    """The Bragg points: the k points of those indices."""
    has_kwargs = True

    def inputs(C, k, bands):
        return ((mk_pos(C, k),), dict(n_bands=bands))

    def requires(C, basis, *, n_bands=1):
        nonsingular(C, lattice(C, basis))

    def result(C, basis, *, n_bands=1):
        dims, f = zone(C, basis, n_bands)
        L = recip(C, basis)
        return pts(C, L, lambda i, a: basis._axes[a].n * f(i), dims)


@contract(f"{BZ}:get_bragg_plane_distance", ["P08"], cases=[dict(nd=n) for n in (1, 2, 3)])
class gbpd:
    """How far a point is beyond the plane half way to the Bragg point."""

    def inputs(C, nd):
        return (C.array("b", [nd], dt="f"), C.array("p", [nd, C.size("m")], dt="f"))

    def requires(C, bragg, point):
        b = C.at(bragg)
        C.require(C.ne(sum(b(k) * b(k) for k in range(bragg.shape[0])), 0))

    def result(C, bragg, point):
        b, p = C.at(bragg), C.at(point)
        nd = bragg.shape[0]
        r = C.sqrt(sum(b(k) * b(k) for k in range(nd)))
        return C.lam([point.shape[1]], lambda j: sum(b(k) * p(k, j) for k in range(nd)) / r - r / 2, dt="f")


for _name in ("decrement_brillouin_zone", "decrement_brillouin_zone_3d"):
    def _mk(name):
        @contract(f"{BZ}:{name}", ["P09"], cases=[dict(k=k, arr=a) for k in (("f", "ff", "fr", "fff") if not name.endswith("3d") else ("fff",)) for a in (0, 1)])
        class _c:
            """A point which differs by a Bragg point and is no further from the origin."""
            bounded = "which plane is crossed depends on the lattice: compared at sampled lattices and points"

            def inputs(C, k, arr):
                b = mk_pos(C, k)
                n = C.size("m")
                n = 4 * n
                return (b, tuple(C.array(f"i{a}", [n], dt="i", lo=-9) - 3 if arr else C.int(f"i{a}", -9, 9) for a in range(len(k))))

            def requires(C, basis, coordinate):
                import numpy as np
                C.require(abs(np.linalg.det(np.array([x.delta_x for x in basis._axes]))) > 0.1)

            def ensures(C, out, basis, coordinate):
                import numpy as np
                L = np.array([x.delta_x for x in basis._axes])
                K = 2 * np.pi * np.linalg.inv(L).T
                n = np.array([x.n for x in basis._axes])
                a, b = (np.array(c).reshape(len(n), -1) for c in (coordinate, out))
                C.ensure("as many", a.shape == b.shape)
                C.ensure("a whole number of cells", bool(np.all((a - b) % n[:, None] == 0)))
                r, s = (np.linalg.norm(np.tensordot(K, v, axes=(0, 0)), axis=0) for v in (a, b))
                C.ensure("no further", bool(np.all(s <= r + 1e-9)))
                G = np.array(np.meshgrid(*[(-1, 0, 1)] * len(n))).reshape(len(n), -1) * n[:, None]
                tol = 1e-5 * np.min(np.linalg.norm(K, axis=1))
                g = np.tensordot(K, G[:, np.any(G != 0, axis=0)], axes=(0, 0))
                gn = np.linalg.norm(g, axis=0)
                d = np.tensordot(g / gn, np.tensordot(K, a, axes=(0, 0)), axes=(0, 0)) - gn[:, None] / 2
                inside = np.all(d <= tol / 2, axis=0)
                C.ensure("stays inside", bool(np.all(a[:, inside] == b[:, inside])))
                beyond = np.any(d > 2 * tol, axis=0)
                C.ensure("brought closer", bool(np.all(s[beyond] < r[beyond])))
    _mk(_name)
