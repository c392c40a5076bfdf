"""Potentials and the Hamiltonians built from them."""
from contracts._common import *
from contracts.basis_points import lattice, nonsingular, recip
from contracts.operators import mat, op

PC = "potential.conversion"
PP = "potential.potential"
HM = "hamiltonian_builder.momentum_basis"


def mk_pos2(C, kinds, name="p", fns=None):
    """Stacked bases with lattice vectors: f fundamental, t momentum, r truncated momentum, F/T abstract."""
    B = C.mod("basis.basis")
    nd = len(kinds)
    axes = []
    for k, kind in enumerate(kinds):
        d = C.const_array([C.real(f"pdx{k}{j}") for j in range(nd)])
        N = C.size(f"{name}N{k}") if fns is None else fns[k]
        if kind in "FT":
            axes.append(C.abs_basis(f"{name}{k}", kind, fn=N, delta_x=d))
        elif kind == "f":
            axes.append(B.FundamentalPositionBasis(d, N))
        elif kind == "t":
            axes.append(B.FundamentalTransformedPositionBasis(d, N))
        else:
            axes.append(B.TransformedPositionBasis(d, C.size(f"{name}n{k}", hi=N), N))
    return C.tuple_basis(*axes)


def pot(C, b, **kw):
    return {"basis": b, "data": C.array("V", [flat(b)], **kw)}


@contract(f"{PC}:convert_potential_to_basis", ["P21"], cases=[dict(k1=a, k2=b) for a, b in (("F", "T"), ("f", "F"), ("t", "f"), ("FT", "TF"), ("ff", "tt"))])
class cpb:
    """The coefficients of the same function."""

    def inputs(C, k1, k2):
        b1 = mk_pos2(C, k1, "A")
        return (pot(C, b1), mk_pos2(C, k2, "B", fns=[x.fundamental_n for x in b1._axes]))

    def result(C, potential, basis):
        return {"basis": basis, "data": S.conv(C, potential["data"], potential["basis"], basis)}


@contract(f"{PC}:convert_potential_to_position_basis", ["P21"], cases=[dict(k=k) for k in ("F", "T", "f", "r", "FT", "fr", "ftr")])
class cpp:
    def inputs(C, k):
        return (pot(C, mk_pos2(C, k)),)

    def result(C, potential):
        b = fund_pos(C, potential["basis"])
        return {"basis": b, "data": S.conv(C, potential["data"], potential["basis"], b)}


def kvec(C, b, idx):
    """wave vector of the signed frequencies idx (fundamental momentum grid)"""
    L = recip(C, b)
    n = len(L)
    w = [S.ft_index(C, i, x.fundamental_n) for i, x in zip(idx, b._axes)]
    return [sum(w[a] * L[a][d] for a in range(n)) for d in range(n)]


@contract(f"{PC}:get_potential_derivative", ["P21"], cases=[dict(k=k, axis=a) for k, a in (("F", 0), ("f", 0), ("t", 0), ("FT", 0), ("FT", 1), ("tt", 1), ("fff", 2))])
class gpd:
    """Each Fourier component is multiplied by i times its wave vector along the axis."""

    has_kwargs = True

    def inputs(C, k, axis):
        return ((pot(C, mk_pos2(C, k)),), dict(axis=axis))

    def requires(C, potential, *, axis=0):
        nonsingular(C, lattice(C, potential["basis"]))

    def result(C, potential, *, axis=0):
        b = fund_mom(C, potential["basis"])
        at = C.at(S.conv(C, potential["data"], potential["basis"], b), dims_of(b))
        return {"basis": b, "data": C.lam([flat(b)], lambda *i: at(*i) * kvec(C, b, i)[axis] * C.I)}


@contract(f"{PC}:get_continuous_potential", ["P21"], cases=[dict(k=k) for k in ("F", "f", "t", "r", "FT", "tt", "ff")])
class gcp:
    """The function is the Fourier series of the potential; the array form evaluates it at every point."""

    def inputs(C, k):
        return (pot(C, mk_pos2(C, k)),)

    def requires(C, potential):
        nonsingular(C, lattice(C, potential["basis"]))

    def ensures(C, out, potential):
        b = fund_mom(C, potential["basis"])
        nd = len(b._axes)
        n = dims_of(b)
        at = C.at(S.conv(C, potential["data"], potential["basis"], b), n)
        x = [C.real(f"x{k}") for k in range(nd)]

        def series(pos):
            def term(*i):
                kv = kvec(C, b, i)
                return at(*i) * C.expi(sum(kv[d] * pos[d] for d in range(nd)))
            r = C.sum(tuple(n), term)
            for m in n:
                r = r / C.sqrt(m)
            return r

        C.equal("at a point", out(tuple(x)), series(x))
        m = C.size("m")
        xs = [C.array(f"xs{k}", [m], dt="f") for k in range(nd)]
        ats = [C.at(a) for a in xs]
        C.equal("at an array of points", out(tuple(xs)), C.lam([m], lambda j: series([a(j) for a in ats])))


@lemma("continuous potential at the grid points", ["P21"], cases=[dict(k=k) for k in ("f", "t", "r", "ff", "ft")])
class cgp:
    """At a point of the grid the continuous potential is the potential there."""

    def body(C, k):
        p = pot(C, mk_pos2(C, k))
        b = p["basis"]
        nonsingular(C, lattice(C, b))
        f = C.fn(f"{PC}:get_continuous_potential")(p)
        g = fund_pos(C, b)
        idx = [C.int(f"i{a}", 0, x.n - 1) for a, x in enumerate(g._axes)]
        L = lattice(C, b)
        x = tuple(sum(L[a][d] * idx[a] / g._axes[a].n for a in range(len(L))) for d in range(len(L)))
        want = C.at(S.conv(C, p["data"], b, g), dims_of(g))(*idx)
        C.equal("value", f(x), want)


@contract(f"{HM}:hamiltonian_from_potential", ["P21"], cases=[dict(k=k) for k in ("F", "T", "f", "t", "r", "FT", "ff", "FTF")])
class hfp:
    """The potential acts by multiplication at each point of the grid."""

    def inputs(C, k):
        return (pot(C, mk_pos2(C, k)),)

    def result(C, potential):
        b = potential["basis"]
        g = fund_pos(C, b)
        v = C.at(S.conv(C, potential["data"], b, g), dims_of(g))
        nd = len(g._axes)
        m = C.lam([flat(g), flat(g)], lambda *i: C.ite([C.eq(i[a], i[a + nd]) for a in range(nd)], lambda: v(*i[:nd]), 0))
        m = S.conv(C, m, g, b, 0)
        m = C.conj_array(S.conv(C, C.conj_array(m), g, b, 1))
        return {"basis": C.tuple_basis(b, b), "data": flatten(C, m)}


def kinetic(C, basis, mass, q):
    b = fund_mom(C, basis)
    nd = len(b._axes)
    L = recip(C, basis)

    def fn(*i):
        kv = kvec(C, basis, i)
        if q is not None:
            kv = [kv[d] + sum(q[a] * L[a][d] for a in range(nd)) for d in range(nd)]
        return sum((C.const("hbar") * c) ** 2 for c in kv) / (2 * mass)

    return b, C.lam([flat(b)], fn)


def bloch(C, nd, q):
    return C.const_array([C.real(f"q{a}") for a in range(nd)]) if q else None


@contract(f"{HM}:hamiltonian_from_mass", ["P21"], cases=[dict(k=k, q=q) for k in ("F", "f", "r", "FT", "ff", "FTF") for q in (0, 1)])
class hfm:
    """hbar^2 |k + q|^2 / 2m on the diagonal of the momentum basis, q the given fraction of the reciprocal vectors."""

    def inputs(C, k, q):
        b = mk_pos2(C, k)
        return (b, C.real("mass", pos=True), bloch(C, len(k), q))

    def requires(C, basis, mass, bloch_fraction=None):
        nonsingular(C, lattice(C, basis))

    def result(C, basis, mass, bloch_fraction=None):
        b, d = kinetic(C, basis, mass, bloch_fraction)
        return {"basis": C.tuple_basis(b, b), "data": d}


def kin_full(C, basis, mass, q):
    b, d = kinetic(C, basis, mass, q)
    at = C.at(d)
    nd = len(b._axes)
    at = C.at(d, dims_of(b))
    m = C.lam([flat(b), flat(b)], lambda *i: C.ite([C.eq(i[a], i[a + nd]) for a in range(nd)], lambda: at(*i[:nd]), 0))
    m = S.conv(C, m, b, basis, 0)
    return C.conj_array(S.conv(C, C.conj_array(m), b, basis, 1))


@contract(f"{HM}:hamiltonian_from_mass_in_basis", ["P21"], cases=[dict(k=k, q=q) for k in ("F", "T", "f", "r", "FT", "ff") for q in (0, 1)])
class hfmb:
    inputs = hfm.inputs
    requires = hfm.requires

    def result(C, basis, mass, bloch_fraction=None):
        return {"basis": C.tuple_basis(basis, basis), "data": flatten(C, kin_full(C, basis, mass, bloch_fraction))}


@contract(f"{HM}:total_surface_hamiltonian", ["P21"], cases=[dict(k=k, q=q) for k in ("F", "T", "f", "r", "FT") for q in (0, 1)])
class tsh:
    """The sum of the two."""

    def inputs(C, k, q):
        return (pot(C, mk_pos2(C, k)), C.real("mass", pos=True), bloch(C, len(k), q))

    def requires(C, potential, mass, bloch_fraction=None):
        nonsingular(C, lattice(C, potential["basis"]))

    def result(C, potential, mass, bloch_fraction=None):
        a = hfp.result(C, potential)
        b = hfmb.result(C, potential["basis"], mass, bloch_fraction)
        return {"basis": a["basis"], "data": a["data"] + b["data"]}


@lemma("the Hamiltonian of a real potential is hermitian", ["P21"], cases=[dict(k=k, q=q) for k in ("f", "t", "ff", "ft") for q in (0, 1)])
class hh:
    """In complete bases: cutting an even number of Fourier components makes the potential itself complex."""

    def body(C, k, q):
        b = mk_pos2(C, k)
        g = fund_pos(C, b)
        nonsingular(C, lattice(C, b))
        v = C.array("V", [flat(g)], dt="f")
        p = {"basis": b, "data": S.conv(C, v, g, b)}
        h = C.fn(f"{HM}:total_surface_hamiltonian")(p, C.real("mass", pos=True), bloch(C, len(k), q))
        at = C.at(h["data"], dims_of(b) * 2)
        nd = len(k)
        C.equal("hermitian", C.lam([flat(b), flat(b)], lambda *i: at(*i)), C.lam([flat(b), flat(b)], lambda *i: C.conj(at(*i[nd:], *i[:nd]))))


def trunc_in(C, n):
    p = pot(C, mk_pos2(C, "f"), dt="f", pos=True)
    return ((p,), dict(cutoff=C.real("cut", pos=True), n=n or C.size("n"), offset=C.real("off", pos=True)))


TRUNC = [dict(n=n) for n in (0, 1)]


@contract(f"{PP}:truncate_potential", ["P21"], cases=TRUNC)
class tp:
    """cutoff log(1 + ((E + offset)/cutoff)^n)^(1/n) - offset for an energy above -offset (n = 0: any n)."""

    has_kwargs = True
    inputs = trunc_in

    def result(C, data, *, cutoff, n, offset):
        v = C.at(data["data"])

        def f(i):
            x = C.pow((v(i) + offset) / cutoff, n)
            return cutoff * C.pow(C.log(x + 1), 1 / n) - offset

        return {"basis": data["basis"], "data": C.lam([data["basis"].n], f, "f")}


@contract(f"{PP}:undo_truncate_potential", ["P21"], cases=TRUNC)
class utp:
    has_kwargs = True
    inputs = trunc_in

    def result(C, data, *, cutoff, n, offset):
        v = C.at(data["data"])

        def f(i):
            x = C.pow((v(i) + offset) / cutoff, n)
            return cutoff * C.pow(C.exp(x) - 1, 1 / n) - offset

        return {"basis": data["basis"], "data": C.lam([data["basis"].n], f, "f")}


@lemma("undoing the truncation of a potential gives it back", ["P21"], cases=TRUNC)
class utl:
    def body(C, n):
        (p,), kw = trunc_in(C, n)
        q = C.fn(f"{PP}:undo_truncate_potential")(C.fn(f"{PP}:truncate_potential")(p, **kw), **kw)
        C.ensure("basis", q["basis"] is p["basis"])
        C.equal("data", q["data"], p["data"])


@contract(f"{PP}:normalize_potential", ["P21"], cases=[dict(k=k) for k in ("F", "ft", "fr")])
class npot:
    """The smallest value becomes zero, differences are kept."""

    def inputs(C, k):
        return (pot(C, mk_pos2(C, k), dt="f"),)

    def result(C, data):
        v = C.at(data["data"])
        m = C.min(data["data"])
        return {"basis": data["basis"], "data": C.lam([data["basis"].n], lambda i: v(i) - m, "f")}


@contract(f"{PP}:mock_even_potential", ["P21"])
class mep:
    """The same values on a grid with a unit step along z."""

    def inputs(C):
        B = C.mod("basis.basis")
        d = [C.const_array([C.real(f"d{k}{j}") for j in range(2)]) for k in range(2)]
        z = C.array("z", [C.size("nz")], dt="f")
        b = C.tuple_basis(B.FundamentalPositionBasis(d[0], C.size("n0")), B.FundamentalPositionBasis(d[1], C.size("n1")), C.mod(PP).UnevenPotential3dZBasis(z))
        return ({"basis": b, "data": C.array("V", [(C.size("n0"), C.size("n1"), C.size("nz"))])},)

    def result(C, uneven):
        B = C.mod("basis.basis")
        x, y, z = uneven["basis"]
        b = C.tuple_basis(
            B.FundamentalPositionBasis(C.const_array([x.delta_x[0], x.delta_x[1], 0]), x.n),
            B.FundamentalPositionBasis(C.const_array([y.delta_x[0], y.delta_x[1], 0]), y.n),
            B.FundamentalPositionBasis(C.const_array([0, 0, 1]), z.n),
        )
        return {"basis": b, "data": uneven["data"]}


@contract(f"{PP}:interpolate_uneven_potential", ["P21"])
class iup:
    """The Fourier series of the potential in the plane and its cubic spline in z, at the heights of the points of the new grid."""

    bounded = "splines are fitted by scipy: compared at sampled potentials"

    def inputs(C):
        from contracts.interpolation import rising

        B = C.mod("basis.basis")
        d = [C.const_array([C.real(f"d{k}{j}") for j in range(2)]) for k in range(2)]
        n0, n1, nz = C.size("n0"), C.size("n1"), C.size("nz") + 3
        b = C.tuple_basis(B.FundamentalPositionBasis(d[0], n0), B.FundamentalPositionBasis(d[1], n1), C.mod(PP).UnevenPotential3dZBasis(rising(C, "z", nz)))
        return ({"basis": b, "data": C.array("V", [(n0, n1, nz)], dt="f")}, (C.size("s0"), C.size("s1"), C.size("s2") + 1))

    def ensures(C, out, data, shape):
        from contracts.interpolation import spline

        B = C.mod("basis.basis")
        x, y, z = data["basis"]._axes
        zs = z.z_points
        plane = C.fn("util.interpolation:interpolate_points_rfftn")(data["data"].reshape(x.n, y.n, z.n), (shape[0], shape[1]), (0, 1))
        v = spline(C, plane, zs, shape[2], 2)
        C.equal("values", C.lam([*shape], C.at(out["data"], list(shape))), v)
        for k, a in enumerate((x, y)):
            C.equal(f"axis {k}", out["basis"]._axes[k], C.basis("FundamentalPositionBasis")(C.const_array([a.delta_x[0], a.delta_x[1], 0]), shape[k]))
        # the points of the last axis are at the heights where the spline is evaluated
        pts = out["basis"]._axes[2]
        C.equal("heights", [pts.delta_x[2] * k / shape[2] for k in range(shape[2])], [(zs[-1] - zs[0]) * k / (shape[2] - 1) for k in range(shape[2])])
        C.equal("direction", pts.delta_x[:2], C.const_array([0.0, 0.0]))
        C.equal("n", pts.n, shape[2])
