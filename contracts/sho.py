"""Bases of bound states: eigenstates of a potential in one dimension, the harmonic oscillator."""
import math

from contracts._common import *
from contracts.eigen import omat
from contracts.hamiltonian import HM, lattice, mk_pos2, nonsingular, pot

PB = "stacked_basis.potential_basis"
SB = "stacked_basis.sho_basis"


def config(C, k, **kw):
    b = mk_pos2(C, k)
    return {"potential": pot(C, b, **kw), "mass": C.real("mass", pos=True), "n": C.size("n", hi=b._axes[0].n)}


@contract(f"{PB}:get_potential_basis_config_eigenstates", ["P21"], cases=[dict(k=k, q=q) for k in "fFt" for q in (0, 1)])
class pbe:
    """The lowest n eigenstates of the hamiltonian of the potential (at the Bloch fraction, if one is given)."""

    has_kwargs = True

    def inputs(C, k, q):
        return ((config(C, k, dt="f"),), dict(bloch_fraction=C.real("q")) if q else {})

    def requires(C, config, *, bloch_fraction=None):
        nonsingular(C, lattice(C, config["potential"]["basis"]))

    def ensures(C, out, config, *, bloch_fraction=None):
        b = config["potential"]["basis"]
        N, n = b.n, config["n"]
        q = None if bloch_fraction is None else C.const_array([bloch_fraction])
        h = C.fn(f"{HM}:total_surface_hamiltonian")(config["potential"], config["mass"], C.const_array([0]) if q is None else q)
        C.equal("basis", out["basis"], C.tuple_basis(C.basis("FundamentalBasis")(n), h["basis"]._axes[0]))
        e, u = C.eigh(omat(C, h))
        ea, ua = C.at(e), C.at(u)
        C.equal("energies", out["eigenvalue"], C.lam([n], lambda k: ea(k)))
        v = C.at(out["data"], [n, N])
        # the projectors do not depend on the phases of the states
        C.equal("states", C.lam([n, N, N], lambda k, i, j: v(k, i) * C.conj(v(k, j))), C.lam([n, N, N], lambda k, i, j: ua(i, k) * C.conj(ua(j, k))))


@contract(f"{PB}:get_potential_basis_config_basis", ["P21"], cases=[dict(k=k) for k in "ft"])
class pbb:
    """The basis of these states."""

    def inputs(C, k):
        return (config(C, k, dt="f"),)

    def requires(C, config):
        nonsingular(C, lattice(C, config["potential"]["basis"]))

    def ensures(C, out, config):
        pbe.ensures(C, out.vectors, config)
        C.ensure("class", type(out).__name__ == "ExplicitStackedBasisWithLength")


@contract(f"{PB}:select_minimum_potential_3d", ["P21"])
class smp:
    """The potential above the point of the surface with the smallest value."""

    def inputs(C):
        B = C.mod("basis.basis")
        z = C.const_array([0, 0, C.real("dz")])
        xy = [B.FundamentalPositionBasis(C.const_array([C.real(f"d{i}{j}") for j in range(3)]), C.size(f"N{i}")) for i in range(2)]
        return (pot(C, C.tuple_basis(*xy, B.FundamentalPositionBasis(z, C.size("Nz"))), dt="f"),)

    def result(C, potential):
        from contracts.localization import unflat

        b = potential["basis"]
        d = dims_of(b)
        v = C.at(potential["data"], d)
        ij = unflat(C, C.argmin(potential["data"]), d)
        z = b._axes[2]
        return {"basis": C.tuple_basis(C.basis("FundamentalPositionBasis")(C.const_array([z.delta_x[2]]), z.n)),
                "data": C.lam([z.n], lambda k: v(ij[0], ij[1], k), "f")}


def hermite(n, x):
    """sum over m of n! (-1)^m (2x)^(n - 2m) / m! (n - 2m)!"""
    r = 0
    for m in range(n // 2 + 1):
        t = math.factorial(n) * (-1) ** m // (math.factorial(m) * math.factorial(n - 2 * m))
        for _ in range(n - 2 * m):
            t = t * 2 * x
        r = r + t
    return r


def psi(C, n, x, omega, mass):
    """(m w / pi hbar)^(1/4) / sqrt(2^n n!) H_n(y) exp(-y^2/2), y = sqrt(m w / hbar) x"""
    a = C.sqrt(mass * omega / C.const("hbar"))
    norm = C.sqrt(a / (2**n * math.factorial(n) * C.sqrt(C.pi)))
    return norm * hermite(n, a * x) * C.exp(-(a * x) * (a * x) / 2)


@contract(f"{SB}:calculate_sho_wavefunction", ["P21"], cases=[dict(n=n) for n in range(6)])
class csw:
    """The states of the harmonic oscillator."""

    def inputs(C, n):
        return (C.array("x", [C.size("N")], dt="f"), C.real("omega", pos=True), C.real("mass", pos=True), n)

    def result(C, x_points, sho_omega, mass, n):
        x = C.at(x_points)
        return C.lam([C.len(x_points)], lambda i: psi(C, n, x(i), sho_omega, mass))


def axis3(C, kind, name="p"):
    return mk_pos(C, kind + "ff", name)._axes[0]


def origin(C):
    return C.const_array([C.real(f"x0{j}") for j in range(3)])


def length(C, b):
    return C.sqrt(sum(b.delta_x[j] * b.delta_x[j] for j in range(3)))


def distances(C, parent, x_origin):
    N = parent.fundamental_n
    l = length(C, parent)
    d = parent.delta_x
    return C.lam([N], lambda i: sum(d[j] * d[j] for j in range(3)) * i / (N * l) + sum(d[j] * x_origin[j] for j in range(3)) / l, "f")


@contract(f"{SB}:calculate_x_distances", ["P21"], cases=[dict(k=k) for k in "ftr"])
class cxd:
    """The distance along the axis, of which the origin is given relative to the centre."""

    def inputs(C, k):
        return (axis3(C, k), origin(C))

    result = distances


@contract(f"{SB}:get_sho_potential_basis_config", ["P21"], cases=[dict(k=k) for k in "ft"])
class gsc:
    """The potential m w^2 x^2 / 2 along the axis."""

    def inputs(C, k):
        return (axis3(C, k), {"sho_omega": C.real("omega", pos=True), "mass": C.real("mass", pos=True), "x_origin": origin(C)}, C.size("n"))

    def result(C, parent, config, n):
        x = C.at(distances(C, parent, config["x_origin"]))
        l = length(C, parent)
        return {"potential": {"basis": C.tuple_basis(C.basis("FundamentalPositionBasis")(C.const_array([l]), parent.n)),
                              "data": C.lam([parent.n], lambda i: config["mass"] * config["sho_omega"] * config["sho_omega"] * x(i) * x(i) / 2, "f")},
                "n": n, "mass": config["mass"]}


@contract(f"{SB}:infinate_sho_basis_3d_from_config", ["P21"], cases=[dict(k=k, n=n) for k, n in (("f", 1), ("f", 4), ("t", 2))])
class isb:
    """The first n states of the oscillator at the points of the axis, normalised by the distance of the points."""

    has_kwargs = True

    def inputs(C, k, n):
        return ((axis3(C, k), {"sho_omega": C.real("omega", pos=True), "mass": C.real("mass", pos=True), "x_origin": origin(C)}), dict(n=n))

    def ensures(C, out, parent, config, *, n):
        x = C.at(distances(C, parent, config["x_origin"]))
        N = parent.fundamental_n
        w = C.sqrt(length(C, parent) / N)
        v = C.at(out.vectors["data"], [n, N])
        C.equal("basis", out.vectors["basis"], C.tuple_basis(C.basis("FundamentalBasis")(n), parent))
        C.equal("delta_x", out.delta_x, parent.delta_x)
        for i in range(n):
            C.equal(f"state {i}", C.lam([N], lambda j: v(i, j)), C.lam([N], lambda j: w * psi(C, i, x(j), config["sho_omega"], config["mass"])))


@contract(f"{SB}:sho_basis_3d_from_config", ["P21"])
class sbc:
    """The lowest states of the oscillator potential in the cell of the axis."""

    def inputs(C):
        p, c, n = gsc.inputs(C, "f")
        return (p, c, C.size("m", hi=p.n))

    def ensures(C, out, parent, config, n):
        pbe.ensures(C, out.vectors, gsc.result(C, parent, config, n))
        C.ensure("class", type(out).__name__ == "ExplicitStackedBasisWithLength")
