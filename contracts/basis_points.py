"""Grid indices, points and lattice vectors of a basis."""
from contracts._common import *

U = "basis.util:BasisUtil"


def util(C, b):
    return C.mod("basis.util").BasisUtil(b)


def mk_stacked(C, nd, cls="fund", vec=True, real=True):
    """A stacked basis of position axes with symbolic lattice vectors."""
    B = C.mod("basis.basis")
    axes = []
    dx = []
    for k in range(nd):
        v = [C.real(f"dx{k}{j}") for j in range(nd)]
        dx.append(v)
        d = C.const_array(v)
        N = C.size(f"N{k}")
        if cls == "fund":
            axes.append(B.FundamentalPositionBasis(d, N))
        elif cls == "ftrans":
            axes.append(B.FundamentalTransformedPositionBasis(d, N))
        else:
            axes.append(B.TransformedPositionBasis(d, C.size(f"n{k}", hi=N), N))
    b = C.tuple_basis(*axes)
    return b, dx


def det(C, m):
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return sum((-1) ** j * m[0][j] * det(C, [r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n))


def nonsingular(C, dx):
    C.require(C.ne(det(C, dx), 0))


for _prop in ("nx_points", "fundamental_nx_points", "nk_points", "fundamental_nk_points"):
    def _mk(prop):
        @contract(f"{U}.{prop}", ["P07"], cases=[dict(k="F"), dict(k="fund"), dict(k="trans")])
        class _c:
            """Grid point i is at index i; Fourier slot i holds frequency i below ceil(n/2) and i-n above."""

            def inputs(C, k):
                return (util(C, mk_basis(C, k, "b")),)

            def result(C, self):
                n = self._basis.fundamental_n if prop.startswith("fund") else self._basis.n
                if prop.endswith("nx_points"):
                    return C.lam([n], lambda i: i, dt="i")
                return C.lam([n], lambda i: S.ft_index(C, i, n), dt="i")
        return _c
    _mk(_prop)

for _prop in ("stacked_nx_points", "fundamental_stacked_nx_points", "stacked_nk_points", "fundamental_stacked_nk_points"):
    def _mk2(prop):
        @contract(f"{U}.{prop}", ["P07"], cases=[dict(nd=1), dict(nd=2), dict(nd=3)])
        class _c:
            """Flat point (i0,i1,..) in C order carries the indices of each axis."""

            def inputs(C, nd):
                return (util(C, mk_stacked(C, nd, "trans")[0]),)

            def result(C, self):
                s = self._basis
                dims = [b.fundamental_n if prop.startswith("fund") else b.n for b in s._axes]
                f = (lambda i, n: i) if prop.endswith("nx_points") else (lambda i, n: S.ft_index(C, i, n))
                return tuple(C.ungroup(C.lam(dims, lambda *ix, a=a: f(ix[a], dims[a]), dt="i"), 0, len(dims)) for a in range(len(dims)))
        return _c
    _mk2(_prop)


@contract(f"{U}.get_flat_index", ["P07"], cases=[dict(nd=n, mode=m) for n in (1, 2, 3) for m in ("raise", "wrap")])
class gfi:
    """The flat index of (i0, i1, ..) is its C order position; in wrap mode indices are taken modulo the shape."""

    def inputs(C, nd, mode):
        b = mk_stacked(C, nd, "trans")[0]
        idx = tuple(C.int(f"i{k}", 0, b._axes[k].n - 1) if mode == "raise" else C.int(f"i{k}") for k in range(nd))
        return ((util(C, b), idx), dict(mode=mode))

    has_kwargs = True

    def result(C, self, idx, *, mode="raise"):
        out = 0
        for i, b in zip(idx, self._basis._axes):
            out = out * b.n + C.mod_(i, b.n)
        return out


@contract(f"{U}.get_stacked_index", ["P07"], cases=[dict(nd=n) for n in (1, 2, 3)])
class gsi:
    """The stacked index of the flat index of a point is that point."""

    def inputs(C, nd):
        b = mk_stacked(C, nd, "trans")[0]
        idx = [C.int(f"i{k}", 0, b._axes[k].n - 1) for k in range(nd)]
        flat = 0
        for i, x in zip(idx, b._axes):
            flat = flat * x.n + i
        return (util(C, b), flat)

    def result(C, self, idx):
        out = []
        for x in reversed(self._basis._axes):
            out.append(C.mod_(idx, x.n))
            idx = C.div(idx, x.n)
        return tuple(reversed(out))


@contract(f"{U}.dk_stacked", ["P08"], cases=[dict(nd=n) for n in (1, 2, 3)])
class dks:
    """The reciprocal vectors satisfy dk_i . delta_x_j = 2 pi delta_ij."""

    def inputs(C, nd):
        b, dx = mk_stacked(C, nd)
        return (util(C, b),)

    def requires(C, self):
        nonsingular(C, lattice(C, self._basis))

    def ensures(C, out, self):
        dx = lattice(C, self._basis)
        at = C.at(out)
        n = len(dx)
        for i in range(n):
            for j in range(n):
                C.equal(f"dk{i}.dx{j}", sum(at(i, d) * dx[j][d] for d in range(n)), 2 * C.pi * (1 if i == j else 0))


def lattice(C, b):
    n = len(b._axes)
    return [[C.at(x.delta_x)(j) for j in range(n)] for x in b._axes]


def flat_axes(C, dims):
    return tuple(dims)


def pts(C, vecs, comps, dims):
    """sum_a comps[a](i_a) vecs[a], flat over the grid."""
    n = len(vecs)
    return C.lam([n, tuple(dims)], lambda d, *ix: sum(C.ite(C.eq(d, dd), lambda: sum(vecs[a][dd] * comps(ix[a], a) for a in range(n)), 0) for dd in range(n)), dt="f")


def recip(C, b):
    """2 pi times the inverse transpose of the lattice vectors."""
    m = lattice(C, b)
    n = len(m)
    d = det(C, m)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            sub = [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
            c = det(C, sub) if sub else 1
            row.append(2 * C.pi * c * (-1) ** (i + j) / d)
        out.append(row)
    return out


for _name, _fund, _k in (("x_points_stacked", False, False), ("fundamental_x_points_stacked", True, False), ("k_points", False, True), ("fundamental_stacked_k_points", True, True)):
    def _mk3(name, fund, k):
        @contract(f"{U}.{name}", ["P08"], cases=[dict(nd=n) for n in (1, 2, 3)])
        class _c:
            """Points are integer combinations of the grid (or reciprocal) vectors, in C order."""

            def inputs(C, nd):
                return (util(C, mk_stacked(C, nd, "trans")[0]),)

            def requires(C, self):
                if k:
                    nonsingular(C, lattice(C, self._basis))

            def result(C, self):
                b = self._basis
                dims = [x.fundamental_n if fund else x.n for x in b._axes]
                if k:
                    return pts(C, recip(C, b), lambda i, a: S.ft_index(C, i, dims[a]), dims)
                return pts(C, [[v / n for v in r] for r, n in zip(lattice(C, b), dims)], lambda i, a: i, dims)
    _mk3(_name, _fund, _k)


for _name in ("get_x_points_at_index", "get_k_points_at_index"):
    def _mk4(name):
        @contract(f"{U}.{name}", ["P08"], cases=[dict(nd=n, flat=f) for n in (1, 2, 3) for f in (0, 1, 2)])
        class _c:
            """The point of a stacked (or flat) index."""

            def inputs(C, nd, flat):
                b = mk_stacked(C, nd, "trans")[0]
                if flat == 2:      # arrays of indices
                    m = C.size("m")
                    return (util(C, b), tuple(C.array(f"i{k}", [m], dt="i", lo=0) for k in range(nd)))
                idx = tuple(C.int(f"i{k}", 0, b._axes[k].n - 1) for k in range(nd))
                if flat:
                    out = 0
                    for i, x in zip(idx, b._axes):
                        out = out * x.n + i
                    idx = out
                return (util(C, b), idx)

            def requires(C, self, idx):
                if "k_" in name:
                    nonsingular(C, lattice(C, self._basis))

            def result(C, self, idx):
                b = self._basis
                if not isinstance(idx, tuple):
                    idx = gsi.result(C, self, idx)
                L = recip(C, b) if "k_" in name else [[v / x.n for v in r] for r, x in zip(lattice(C, b), b._axes)]
                n = len(L)
                if hasattr(idx[0], "ndim") and idx[0].ndim:
                    ats = [C.at(i) for i in idx]
                    return C.lam([n, idx[0].shape[0]], lambda d, j: sum(C.ite(C.eq(d, dd), lambda: sum(L[a][dd] * ats[a](j) for a in range(n)), 0) for dd in range(n)), dt="f")
                return C.const_array([sum(L[a][d] * idx[a] for a in range(n)) for d in range(n)])
    _mk4(_name)


@contract(f"{U}.delta_k_stacked", ["P08"], cases=[dict(nd=n) for n in (1, 2, 3)])
class dlk:
    """The reciprocal extent of each axis is its number of points times the reciprocal vector."""

    def inputs(C, nd):
        return (util(C, mk_stacked(C, nd, "trans")[0]),)

    requires = dks.requires

    def result(C, self):
        r = recip(C, self._basis)
        return C.const_array([[self._basis._axes[i].n * v for v in r[i]] for i in range(len(r))])


@contract(f"{U}.fundamental_delta_k_stacked", ["P08"], cases=[dict(nd=n) for n in (1, 2, 3)])
class fdlk:
    inputs, requires = dlk.inputs, dlk.requires

    def result(C, self):
        r = recip(C, self._basis)
        return C.const_array([[self._basis._axes[i].fundamental_n * v for v in r[i]] for i in range(len(r))])


@contract(f"{U}.volume", ["P08"], cases=[dict(nd=n) for n in (1, 2, 3)])
class vol:
    """The cell volume is the (signed) determinant of the lattice vectors and, times the reciprocal volume, (2 pi)^n."""

    inputs, requires = dlk.inputs, dlk.requires

    def result(C, self):
        return det(C, lattice(C, self._basis))

    def ensures(C, out, self):
        u = util(C, self._basis)
        n = len(self._basis._axes)
        C.equal("volume times reciprocal volume", out * u.reciprocal_volume, (2 * C.pi) ** n)


@lemma("util[one axis]", ["P08"], cases=[dict(kind=k, nd=d) for k in ("fund", "ftrans", "trans") for d in (1, 2, 3)])
class oneax:
    """dx is the extent divided by the number of points, for current and fundamental grid alike."""

    def body(C, kind, nd):
        B = C.mod("basis.basis")
        v = [C.real(f"dx{j}") for j in range(nd)]
        N = C.size("N")
        n = C.size("n", hi=N)
        b = {"fund": lambda: B.FundamentalPositionBasis(C.const_array(v), N), "ftrans": lambda: B.FundamentalTransformedPositionBasis(C.const_array(v), N),
             "trans": lambda: B.TransformedPositionBasis(C.const_array(v), n, N)}[kind]()
        u = util(C, b)
        C.equal("delta_x", u.delta_x, C.const_array(v))
        C.equal("dx", u.dx, C.const_array([x / b.n for x in v]))
        C.equal("fundamental_dx", u.fundamental_dx, C.const_array([x / N for x in v]))
        C.equal("x_points", u.x_points, pts1(C, v, b.n))
        C.equal("fundamental_x_points", u.fundamental_x_points, pts1(C, v, N))


def pts1(C, v, n):
    return C.lam([len(v), n], lambda d, i: sum(C.ite(C.eq(d, k), lambda: x * i / n, 0) for k, x in enumerate(v)), dt="f")
