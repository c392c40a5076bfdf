"""Incoherent tunnelling between the sites of a lattice: the rate matrices, their eigenstates and the simulated occupations."""
from contracts._common import *
from contracts.eigen import omat

TM = "dynamics.incoherent_propagation.tunnelling_matrix"
TE = "dynamics.incoherent_propagation.eigenstates"
TI = "dynamics.incoherent_propagation.isf"
DU = "dynamics.util"
TBS = "dynamics.tunnelling_basis"
IS = "dynamics.isf"
HOPS = [(a, b) for a in (0, 1, -1) for b in (0, 1, -1)]


def bands(C, n=None, name="B", ortho=True):
    """The bands of a simulation: where each is centred in the unit cell."""
    n = C.size(f"{name}n") if n is None else n
    u = []
    for i in range(2):
        u.append(C.const_array([C.real(f"{name}u{i}{j}", pos=True) if i == j else 0.0 if ortho else C.real(f"{name}u{i}{j}") for j in range(2)]))
    return C.mod(TBS).TunnellingSimulationBandsBasis(C.array(f"{name}loc", [2, n], dt="f"), tuple(u))


def grid(C, bb, lo=2):
    F = C.basis("FundamentalBasis")
    return C.tuple_basis(F(C.size("X", lo=lo)), F(C.size("Y", lo=lo)), bb)


def a_matrix(C, b, name="a", **kw):
    return {"basis": C.tuple_basis(b, b), "data": C.array(name, [tuple(dims_of(b) * 2)], **kw)}


def jumps(C, bb, name="j"):
    return {"basis": C.tuple_basis(bb, bb), "data": C.array(name, [(bb.n, bb.n, 9)])}


def same_bands(C, name, a, b):
    C.equal(f"{name} locations", a.locations, b.locations)
    for i in range(2):
        C.equal(f"{name} cell {i}", a.unit_cell[i], b.unit_cell[i])


@contract(f"{DU}:get_hop_shift", ["P26"], cases=[dict(hop=h, nd=2) for h in range(9)] + [dict(hop=h, nd=1) for h in range(3)])
class ghs:
    """hop number h in base 3 gives the shift along each axis: 0, 1 or -1."""

    def inputs(C, hop, nd):
        return (hop, nd)

    def ensures(C, out, hop, ndim):
        for k in range(ndim):
            d = hop // 3 ** (ndim - 1 - k) % 3
            C.equal(f"shift {k}", out[k], (0, 1, -1)[d])


@contract(f"{DU}:build_hop_operator", ["P26"], cases=[dict(hop=h, nd=2) for h in range(9)] + [dict(hop=h, nd=1) for h in range(3)])
class bho:
    """takes the site j to j + shift, around the edges of the grid"""

    def inputs(C, hop, nd):
        return (hop, tuple(C.size(f"n{k}") for k in range(nd)))

    def result(C, hop, shape):
        nd = len(shape)
        sh = [(0, 1, -1)[hop // 3 ** (nd - 1 - k) % 3] for k in range(nd)]
        return C.lam([*shape, *shape], lambda *i: C.ite([C.eq(C.mod_(i[k] - i[nd + k] - sh[k], shape[k]), 0) for k in range(nd)], 1, 0))


@contract(f"{TBS}:get_basis_from_shape", ["P26"])
class gbs:
    """A grid of sites, each with the first n of the bands."""

    def inputs(C):
        bb = bands(C)
        return ((C.size("X"), C.size("Y")), C.size("n", hi=bb.n), bb)

    def ensures(C, out, shape, n_bands, bands_basis):
        for k in range(2):
            C.equal(f"sites {k}", out[k], C.basis("FundamentalBasis")(shape[k]))
        C.equal("n", out[2].n, n_bands)
        loc = C.at(bands_basis.locations)
        C.equal("locations", out[2].locations, C.lam([2, n_bands], lambda i, k: loc(i, k), dt="f"))
        for i in range(2):
            C.equal(f"cell {i}", out[2].unit_cell[i], bands_basis.unit_cell[i])


@contract(f"{TM}:get_jump_matrix_from_a_matrix", ["P26"])
class jma:
    """jump[n0, n1, hop] is the rate from band n0 of the first site to band n1 of the site shifted by hop."""

    def inputs(C):
        return (a_matrix(C, grid(C, bands(C))),)

    def result(C, matrix):
        b = matrix["basis"][0]
        nx, ny, nb = dims_of(b)
        at = C.at(matrix["data"], dims_of(b) * 2)

        def el(p, q, h):
            s = 0
            for k, (i, j) in enumerate(HOPS):
                s = C.ite([C.eq(h, k)], (lambda i=i, j=j: at(0, 0, p, i % nx if i < 0 else i, j % ny if j < 0 else j, q)), s)
            return s

        return {"basis": C.tuple_basis(b[2], b[2]), "data": C.lam([(nb, nb, 9)], el)}


@contract(f"{TM}:get_a_matrix_from_jump_matrix", ["P26"], cases=[dict(nb=n) for n in (0, 1)])
class amj:
    """The rate from (i, n0) to (j, n1) is the sum of the jumps which take i to j."""
    has_kwargs = True

    def inputs(C, nb):
        bb = bands(C)
        return (jumps(C, bb), (C.size("X"), C.size("Y"))), dict(n_bands=C.size("m", hi=bb.n) if nb else None)

    def ensures(C, out, matrix, shape, *, n_bands=None):
        bb = matrix["basis"][0]
        m = bb.n if n_bands is None else n_bands
        b = C.fn(f"{TBS}:get_basis_from_shape")(shape, m, bb)
        C.equal("basis", out["basis"], C.tuple_basis(b, b))
        same_bands(C, "bands", out["basis"][0][2], b[2])
        at = C.at(matrix["data"], [bb.n, bb.n, 9])

        def el(i, j, p, k, l, q):
            s = 0
            for h, (a, c) in enumerate(HOPS):
                s = s + C.ite([C.eq(C.mod_(k - i - a, shape[0]), 0), C.eq(C.mod_(l - j - c, shape[1]), 0)], (lambda h=h: at(p, q, h)), 0)
            return s

        C.equal("rates", out["data"], C.lam([(*shape, m, *shape, m)], el))


@lemma("the rates of a simulation do not depend on its size", ["P26"])
class rdt:
    """Reading the jumps back from an a matrix gives those it was made with, when every hop goes to a different site."""

    def body(C):
        bb = bands(C)
        j = jumps(C, bb)
        a = C.fn(f"{TM}:get_a_matrix_from_jump_matrix")(j, (C.size("X", lo=3), C.size("Y", lo=3)))
        out, at = C.at(C.fn(f"{TM}:get_jump_matrix_from_a_matrix")(a)["data"], [bb.n, bb.n, 9]), C.at(j["data"], [bb.n, bb.n, 9])
        for h in range(9):
            C.equal(f"jump {h}", C.lam([bb.n, bb.n], lambda p, q: out(p, q, h)), C.lam([bb.n, bb.n], lambda p, q: at(p, q, h)))


@contract(f"{TM}:resample_tunnelling_a_matrix", ["P26"])
class rta:
    """The same jumps, on a grid of another size and with the first of the bands."""

    def inputs(C):
        bb = bands(C)
        return (a_matrix(C, grid(C, bb)), (C.size("X1"), C.size("Y1")), C.size("m", hi=bb.n))

    def result(C, matrix, shape, n_bands):
        j = C.fn(f"{TM}:get_jump_matrix_from_a_matrix")(matrix)
        return C.fn(f"{TM}:get_a_matrix_from_jump_matrix")(j, shape, n_bands=n_bands)


@contract(f"{TM}:get_jump_matrix_from_function", ["P26"])
class jmf:
    """jump[n0, n1, hop] = f(n0, n1, hop)"""

    def inputs(C):
        return (bands(C), lambda i, j, h: (i + 2) * (j - 3) * (h + 5) + j * j + h)

    def result(C, bands_basis, jump_function):
        n = bands_basis.n
        return {"basis": C.tuple_basis(bands_basis, bands_basis), "data": C.lam([(n, n, 9)], lambda i, j, h: (i + 2) * (j - 3) * (h + 5) + j * j + h)}


@contract(f"{TM}:get_a_matrix_reduced_bands", ["P26"])
class arb:
    """The rates between the first of the bands."""

    def inputs(C):
        bb = bands(C)
        return (a_matrix(C, grid(C, bb, lo=1)), C.size("m", hi=bb.n))

    def ensures(C, out, matrix, n_bands):
        b0 = matrix["basis"][0]
        b = C.fn(f"{TBS}:get_basis_from_shape")((b0[0].n, b0[1].n), n_bands, b0[2])
        C.equal("basis", out["basis"], C.tuple_basis(b, b))
        same_bands(C, "bands", out["basis"][0][2], b[2])
        at = C.at(matrix["data"], dims_of(b0) * 2)
        C.equal("rates", out["data"], C.lam([tuple(dims_of(b) * 2)], lambda *i: at(*i)))


def small(C, k):
    """a basis for which only the size matters"""
    return mk(C, k, "A")


@contract(f"{TM}:get_tunnelling_m_matrix", ["P26"], cases=[dict(k=k, m=0) for k in ("F", "FT", "g")] + [dict(k="g", m=1)])
class gtm:
    """M[i, j] = a[j, i] for i != j and each column adds up to zero, so that the occupations add up to a constant."""

    def inputs(C, k, m):
        b = grid(C, bands(C), lo=1) if k == "g" else mk(C, k, "A")
        return (a_matrix(C, b), *((C.size("m", hi=b[2].n),) if m else ()))

    def ensures(C, out, matrix, n_bands=None):
        a = matrix if n_bands is None else C.fn(f"{TM}:get_a_matrix_reduced_bands")(matrix, n_bands)
        C.equal("basis", out["basis"], a["basis"])
        n = a["basis"][0].n
        at, d = C.at(omat(C, a)), C.at(omat(C, {**out, "data": flatten(C, out["data"])}))
        C.equal("gain", C.lam([n, n], lambda i, j: C.ite([C.eq(i, j)], 0, lambda: d(i, j))), C.lam([n, n], lambda i, j: C.ite([C.eq(i, j)], 0, lambda: at(j, i))))
        C.equal("loss", C.lam([n], lambda i: d(i, i)), C.lam([n], lambda i: at(i, i) - C.sum((n,), lambda k: at(i, k))))
        C.equal("conserved", C.lam([n], lambda j: C.sum((n,), lambda i: d(i, j))), C.lam([n], lambda j: 0))


@contract(f"{TM}:get_initial_pure_density_matrix_for_basis", ["P26"], cases=[dict(k=k, t=t) for k, t in (("F", 0), ("FT", 0), ("FT", 1), ("FFF", 1))])
class ipd:
    """All of the occupation in one state."""

    def inputs(C, k, t):
        b = mk(C, k, "A")
        return (b, tuple(C.int(f"i{j}", 0, n - 1) for j, n in enumerate(dims_of(b))) if t else C.int("i", 0, b.n - 1))

    def result(C, basis, idx=0):
        if isinstance(idx, tuple):
            return {"basis": C.tuple_basis(basis, basis), "data": C.lam([flat(basis)], lambda *i: C.delta(*[y for x in zip(i, idx) for y in x]))}
        return {"basis": C.tuple_basis(basis, basis), "data": C.lam([basis.n], lambda i: C.delta(i, idx))}


@contract(f"{TM}:density_matrix_as_probability", ["P26"], cases=[dict(k=k) for k in ("F", "FT")])
class dap:
    """The occupation of each state."""

    def inputs(C, k):
        b = mk(C, k, "A")
        return ({"basis": C.tuple_basis(b, b), "data": C.array("p", [flat(b)])},)

    def result(C, matrix):
        b = matrix["basis"][0]
        at = C.at(matrix["data"], dims_of(b))
        return {"basis": b, "data": C.lam([flat(b)], lambda *i: C.re(at(*i)), dt="f")}


@contract(f"{TM}:density_matrix_list_as_probabilities", ["P26"], cases=[dict(k=k, l=l) for k, l in (("F", "F"), ("FT", "FF"))])
class dlp:
    """The occupation of each state, for each member of the list."""

    def inputs(C, k, l):
        b, L = mk(C, k, "A"), mk(C, l, "L")
        return ({"basis": C.tuple_basis(L, C.tuple_basis(b, b)), "data": C.array("p", [tuple(dims_of(L) + dims_of(b))])},)

    def result(C, matrix):
        L, (b, _) = matrix["basis"]
        at = C.at(matrix["data"], dims_of(L) + dims_of(b))
        return {"basis": C.tuple_basis(L, b), "data": C.lam([tuple(dims_of(L) + dims_of(b))], lambda *i: C.re(at(*i)), dt="f")}


def m_matrix(C, b, name="m", simple=False):
    return {"basis": C.tuple_basis(b, b), "data": C.array(name, [tuple(dims_of(b) * 2)])}


@contract(f"{TE}:calculate_tunnelling_eigenstates", ["P26"], cases=[dict(k=k) for k in ("F", "FT")])
class cte:
    """With their eigenvalues the states make up the matrix, up to a multiple of the identity (the eigenvalues are given
    relative to the largest)."""

    def inputs(C, k):
        return (m_matrix(C, mk(C, k, "A")),)

    def ensures(C, out, matrix):
        b = matrix["basis"][0]
        n = b.n
        C.equal("basis", out["basis"], C.tuple_basis(C.basis("FundamentalBasis")(n), b))
        M, v, e = C.at(omat(C, matrix)), C.at(flatten(C, out["data"]), [n, n]), C.at(out["eigenvalue"])
        w = C.at(C.inv(C.regroup(flatten(C, out["data"]), 0, [n, n])))
        x = lambda i, j: C.sum((n,), lambda a: v(a, i) * e(a) * w(j, a))
        C.equal("off the diagonal", C.lam([n, n], lambda i, j: C.ite([C.eq(i, j)], 0, lambda: x(i, j))), C.lam([n, n], lambda i, j: C.ite([C.eq(i, j)], 0, lambda: M(i, j))))
        C.equal("diagonal", C.lam([n, n], lambda i, j: x(i, i) - M(i, i)), C.lam([n, n], lambda i, j: x(j, j) - M(j, j)))
        if C.mode == "con":
            k = C.argmax(C.eig(omat(C, matrix))[0])
            C.equal("largest", C.argmax(out["eigenvalue"]), k)
            C.equal("relative to the largest", C.lam([1], lambda i: e(k)), C.lam([1], lambda i: 0))


def eigenlist(C, k, m=None):
    b = mk(C, k, "A")
    return {"basis": C.tuple_basis(C.basis("FundamentalBasis")(b.n), b), "data": C.array("v", [b.n, b.n]), "eigenvalue": C.array("e", [b.n])}


def density(C, b, name="p"):
    return {"basis": C.tuple_basis(b, b), "data": C.array(name, [b.n])}


@contract(f"{TE}:get_operator_state_vector_decomposition", ["P26"], cases=[dict(k=k) for k in ("F", "FT")])
class osd:
    """The coefficients with which the eigenstates add up to the state."""

    def inputs(C, k):
        e = eigenlist(C, k)
        return (density(C, e["basis"][1]), e)

    def ensures(C, out, density_matrix, eigenstates):
        n = eigenstates["basis"][1].n
        v, c, p = C.at(eigenstates["data"]), C.at(out), C.at(density_matrix["data"])
        C.equal("adds up", C.lam([n], lambda i: C.sum((n,), lambda a: c(a) * v(a, i))), C.lam([n], lambda i: p(i)))


@contract(f"{TE}:get_tunnelling_simulation_state", ["P26"], cases=[dict(k=k) for k in ("F", "FT")])
class tss:
    """The sum over the eigenstates of c_a exp(l_a t) v_a."""

    def inputs(C, k):
        e = eigenlist(C, k)
        return (e, density(C, e["basis"][1]), C.array("t", [C.size("T", lo=2)], dt="f"))

    def ensures(C, out, eigenstates, initial, times):
        b = eigenstates["basis"][1]
        n, T = b.n, C.len(times)
        C.equal("basis", out["basis"], C.tuple_basis(C.mod("basis.time_basis_like").ExplicitTimeBasis(times), C.tuple_basis(b, b)))
        c = C.at(C.fn(f"{TE}:get_operator_state_vector_decomposition")(initial, eigenstates))
        v, e, t = C.at(eigenstates["data"]), C.at(eigenstates["eigenvalue"]), C.at(times)
        C.equal("states", flatten(C, out["data"]), C.lam([(T, n)], lambda s, i: C.sum((n,), lambda a: c(a) * C.exp(e(a) * t(s)) * v(a, i))))


@lemma("the simulation starts from its initial state", ["P26"], cases=[dict(k=k) for k in ("F", "FT")])
class tsi:
    def body(C, k):
        e = eigenlist(C, k)
        b = e["basis"][1]
        p = density(C, b)
        s = C.fn(f"{TE}:get_tunnelling_simulation_state")(e, p, C.const_array([0.0]))
        C.equal("initial", flatten(C, s["data"]), p["data"])


@contract(f"{TE}:get_equilibrium_state", ["P26"], cases=[dict(k=k) for k in ("F", "FT")])
class ges:
    """The part of the first state along the eigenstate of the largest eigenvalue."""

    def inputs(C, k):
        return (eigenlist(C, k),)

    def result(C, eigenstates):
        b = eigenstates["basis"][1]
        n = b.n
        first = C.fn(f"{TM}:get_initial_pure_density_matrix_for_basis")(b)
        c = C.at(C.fn(f"{TE}:get_operator_state_vector_decomposition")(first, eigenstates))
        a = C.argmax(eigenstates["eigenvalue"])
        v = C.at(eigenstates["data"])
        return {"basis": C.tuple_basis(b, b), "data": C.lam([n], lambda i: c(a) * v(a, i))}


@contract(f"{TE}:calculate_equilibrium_state", ["P26"], cases=[dict(k=k) for k in ("F", "FT")])
class ces:
    """That of the eigenstates of the matrix."""

    def inputs(C, k):
        return (m_matrix(C, mk(C, k, "A")),)

    def result(C, matrix):
        return C.fn(f"{TE}:get_equilibrium_state")(C.fn(f"{TE}:calculate_tunnelling_eigenstates")(matrix))


@contract(f"{TE}:calculate_tunnelling_simulation_state", ["P26"], cases=[dict(k=k) for k in ("F", "FT")])
class cts:
    """The simulation with the eigenstates of the matrix."""

    def inputs(C, k):
        b = mk(C, k, "A")
        return (m_matrix(C, b), density(C, b), C.array("t", [C.size("T", lo=2)], dt="f"))

    def result(C, matrix, initial, times):
        return C.fn(f"{TE}:get_tunnelling_simulation_state")(C.fn(f"{TE}:calculate_tunnelling_eigenstates")(matrix), initial, times)


@contract(f"{TI}:get_rate_decomposition", ["P26"], cases=[dict(k=k) for k in ("F", "FT")])
class grd:
    """The eigenvalues, and the coefficients of the initial state."""

    def inputs(C, k):
        b = mk(C, k, "A")
        return (m_matrix(C, b), density(C, b))

    def ensures(C, out, matrix, initial):
        e = C.fn(f"{TE}:calculate_tunnelling_eigenstates")(matrix)
        C.equal("eigenvalues", out.eigenvalues, e["eigenvalue"])
        C.equal("coefficients", out.coefficients, C.fn(f"{TE}:get_operator_state_vector_decomposition")(initial, e))


SU = "stacked_basis.util"


@contract(f"{SU}:wrap_x_point_around_origin", ["P26"], cases=[dict(nd=d, o=o, k=k) for d, o, k in ((1, 0, "p"), (2, 0, "p"), (2, 1, "p"), (2, 0, "pp"))])
class wxo:
    """The point which differs by lattice vectors and whose coordinates along them lie within a half of the origin's."""
    has_kwargs = True

    def inputs(C, nd, o, k):
        b = mk_pos(C, "f" * nd)
        return (b, C.array("x", [nd, *[C.size(f"n{i}") for i in range(len(k))]], dt="f")), dict(origin=C.array("o", [nd], dt="f") if o else None)

    def ensures(C, out, basis, points, origin=None):
        nd = len(basis._axes)
        wr = wrapper(C, [b.delta_x for b in basis._axes])
        x = C.at(points)
        o = C.at(origin) if origin is not None else (lambda k: 0)
        C.equal("points", out, C.lam([nd, *points.shape[1:]], lambda c, *i: wr(lambda k: x(k, *i), o)(c), dt="f"))


def wrapper(C, vectors):
    """(x, o) -> x up to lattice vectors, the coordinates along them within [-1/2, 1/2) of those of o"""
    nd = len(vectors)
    v = [C.at(x) for x in vectors]
    w = C.at(C.inv(C.const_array([[v[k](c) for c in range(nd)] for k in range(nd)])))

    def wrap(x, o):
        s = [sum(w(c, k) * x(c) for c in range(nd)) for k in range(nd)]
        t = [sum(w(c, k) * o(c) for c in range(nd)) for k in range(nd)]
        y = [C.rem(a - b + C.frac(1, 2), 1) - C.frac(1, 2) + b for a, b in zip(s, t)]
        return lambda c: sum(v[k](c) * y[k] for k in range(nd))

    return wrap


def loc(C, b, cell):
    """Position (component c) of the state with stacked index (i, j, band)."""
    bb = b[2]
    u, l = [C.at(x) for x in bb.unit_cell], C.at(bb.locations)
    return lambda c, i, j, k: u[0](c) * (i + l(0, k)) + u[1](c) * (j + l(1, k))


@contract(f"{IS}:_calculate_approximate_locations", ["P26"], cases=[dict(o=o) for o in (0, 1)])
class cal:
    """Each state is centred at its unit cell, offset by the location of its band."""

    def inputs(C, o):
        return (grid(C, bands(C, ortho=o), lo=1),)

    def result(C, basis):
        x = loc(C, basis, None)
        return C.lam([2, tuple(dims_of(basis))], lambda c, *i: x(c, *i), dt="f")


def prob(C, b, name="p", pos=True):
    return {"basis": b, "data": C.array(name, [tuple(dims_of(b))], dt="f", pos=pos)}


@contract(f"{IS}:calculate_isf_approximate_locations", ["P26"], cases=[dict(o=o) for o in (0, 1)])
class cia:
    """sum over the states of P(t, s) exp(i k . (x_s - x_0)), x_0 the mean initial position and the displacement within half of the simulated
    cell along each of its lattice vectors."""

    def inputs(C, o):
        b = grid(C, bands(C, ortho=o), lo=1)
        t = mk(C, "f", "T")
        return (prob(C, b), {"basis": C.tuple_basis(t, b), "data": C.array("q", [(t.n, *dims_of(b))], dt="f")}, C.array("k", [2], dt="f"))

    def result(C, initial_occupation, final_occupation, dk):
        b = initial_occupation["basis"]
        t = final_occupation["basis"][0]
        d = dims_of(b)
        p, q, k = C.at(initial_occupation["data"], d), C.at(final_occupation["data"], [t.n] + d), C.at(dk)
        x = loc(C, b, None)
        norm = C.sum(d, lambda *i: p(*i))
        mean = [C.sum(d, lambda *i, c=c: p(*i) * x(c, *i)) / norm for c in range(2)]
        wr = wrapper(C, [b[2].unit_cell[c] * b[c].n for c in range(2)])

        def ph(*i):
            y = wr(lambda c: x(c, *i) - mean[c], lambda c: 0)
            return sum(k(c) * y(c) for c in range(2))

        return {"basis": C.tuple_basis(t, t), "data": C.lam([t.n], lambda s: C.sum(d, lambda *i: C.expi(ph(*i)) * q(s, *i)))}


@contract(f"{TI}:calculate_isf_at_times", ["P26"])
class iat:
    """That of the occupations which the simulation gives."""

    def inputs(C):
        b = grid(C, bands(C), lo=1)
        p = density(C, b)
        p["data"] = C.array("p", [b.n], pos=True)
        return (m_matrix(C, b), p, C.array("t", [C.size("T", lo=2)], dt="f"), C.array("k", [2], dt="f"))

    def result(C, matrix, initial, times, dk):
        f = C.fn(f"{TE}:calculate_tunnelling_simulation_state")(matrix, initial, times)
        f["data"] = flatten(C, f["data"])
        return C.fn(f"{IS}:calculate_isf_approximate_locations")(C.fn(f"{TM}:density_matrix_as_probability")(initial), C.fn(f"{TM}:density_matrix_list_as_probabilities")(f), dk)


def band_weights(C, e):
    """How much of the equilibrium state is in each band."""
    q = C.fn(f"{TE}:get_equilibrium_state")(e)
    b = e["basis"][1]
    d = dims_of(b)
    at = C.at(q["data"], d)
    return lambda k: C.abs(C.sum(d[:2], lambda i, j: C.re(at(i, j, k))))


def re_array(C, v, d):
    at = C.at(v, d)
    return C.lam(d, lambda *i: C.re(at(*i)), dt="f")


def bands_sim(C, matrix, e, times):
    """occupations (band of the first site it starts from, time, state)"""
    b = matrix["basis"][0]

    def occ(k):
        s = C.fn(f"{TE}:get_tunnelling_simulation_state")(e, C.fn(f"{TM}:get_initial_pure_density_matrix_for_basis")(b, (0, 0, k)), times)
        return {"basis": C.tuple_basis(s["basis"][0], b), "data": re_array(C, flatten(C, s["data"]), [C.len(times) * b.n])}

    return occ


class sim_inputs:
    def inputs(C, nb):
        b = grid(C, bands(C, n=nb or None), lo=1)
        return (m_matrix(C, b), C.array("t", [C.size("T", lo=2)], dt="f"), C.array("k", [2], dt="f"))


@contract(f"{TI}:calculate_equilibrium_state_averaged_isf", ["P26"], cases=[dict(nb=n) for n in (0,)])
class esa(sim_inputs):
    """The mean of the isf of each band of the first site, weighted by how much of the equilibrium state is in the band."""

    def result(C, matrix, times, dk):
        b = matrix["basis"][0]
        T, nb = C.len(times), b[2].n
        e = C.fn(f"{TE}:calculate_tunnelling_eigenstates")(matrix)
        w, occ = band_weights(C, e), bands_sim(C, matrix, e, times)
        tb = C.mod("basis.time_basis_like").ExplicitTimeBasis(times)

        def isf(k):
            p = {"basis": b, "data": C.lam([tuple(dims_of(b))], lambda i, j, l: C.delta(i, 0, j, 0, l, k), dt="f")}
            return C.at(C.fn(f"{IS}:calculate_isf_approximate_locations")(p, occ(k), dk)["data"])

        return {"basis": C.tuple_basis(tb, tb), "data": C.lam([T], lambda s: C.sum((nb,), lambda k: w(k) * isf(k)(s)) / C.sum((nb,), lambda k: w(k)))}


@contract(f"{TI}:calculate_equilibrium_initial_state_isf", ["P26"], cases=[dict(nb=n) for n in (0,)])
class eis(sim_inputs):
    """The isf of the mean of the simulations of each band of the first site, in the proportions of the equilibrium state."""

    def result(C, matrix, times, dk):
        b = matrix["basis"][0]
        d = dims_of(b)
        T, nb = C.len(times), b[2].n
        e = C.fn(f"{TE}:calculate_tunnelling_eigenstates")(matrix)
        w, occ = band_weights(C, e), bands_sim(C, matrix, e, times)
        q = C.at(C.fn(f"{TE}:get_equilibrium_state")(e)["data"], d)
        re = lambda k: C.sum(d[:2], lambda i, j: C.re(q(i, j, k)))
        first = {"basis": b, "data": C.lam([tuple(d)], lambda i, j, k: C.ite([C.eq(i, 0), C.eq(j, 0)], lambda: re(k), 0), dt="f")}
        tb = C.mod("basis.time_basis_like").ExplicitTimeBasis(times)
        mean = C.lam([(T, b.n)], lambda s, i: C.sum((nb,), lambda k: w(k) * C.at(occ(k)["data"], [T, b.n])(s, i)) / C.sum((nb,), lambda k: w(k)), dt="f")
        return C.fn(f"{IS}:calculate_isf_approximate_locations")(first, {"basis": C.tuple_basis(tb, b), "data": mean}, dk)


@contract(f"{IS}:get_isf_from_4_variable_fit", ["P26"])
class i4v:
    """two exponential decays and a constant"""

    def inputs(C):
        F = C.mod(IS).ISF4VariableFit
        return (F(*[C.real(x) for x in ("fr", "fa", "sr", "sa", "c")]), C.array("t", [C.size("T", lo=2)], dt="f"))

    def result(C, fit, times):
        tb = C.mod("basis.time_basis_like").ExplicitTimeBasis(times)
        t = C.at(times)
        return {"basis": C.tuple_basis(tb, tb), "data": C.lam([C.len(times)], lambda i: fit.fast_amplitude * C.exp(-fit.fast_rate * t(i)) + fit.slow_amplitude * C.exp(-fit.slow_rate * t(i)) + fit.baseline)}


for _f, _turn in (("110", 0), ("112bar", 1)):
    @contract(f"{IS}:calculate_isf_fey_model_{_f}", ["P26"], cases=[dict(turn=_turn)])
    class fey:
        """The isf of hops between the two sites of a honeycomb lattice: sum over both sites of exp(t M(k)) p, with M the rate
        matrix of the Fourier components, p the equilibrium occupation."""
        bounded = "closed form of a 2x2 matrix exponential with nested square roots: compared at sampled rates, times and wavevectors"
        has_kwargs = True

        def inputs(C, turn):
            f = C.real("f", pos=True)
            return (C.array("t", [C.size("T", lo=2)], dt="f", pos=True), f, f * C.real("lam", pos=True)), dict(a_dk=C.real("a"))

        def ensures(C, out, t, fast_rate, slow_rate, *, a_dk, turn=_turn):
            import numpy as np
            from scipy.linalg import expm
            r = 1 / np.sqrt(3)
            k = np.array([0, a_dk] if turn else [a_dk, 0])
            g = sum(np.exp(1j * v @ k) for v in np.array([[0, r], [0.5, -r / 2], [-0.5, -r / 2]])) / 3
            m = np.array([[-fast_rate, slow_rate * g], [fast_rate * np.conj(g), -slow_rate]])
            p = np.array([slow_rate, fast_rate]) / (slow_rate + fast_rate)
            C.equal("isf", out, np.array([np.real(np.sum(expm(m * x) @ p)) for x in t]))


@contract(f"{IS}:calculate_isf_fey_4_variable_model_110", ["P26"])
class fey4:
    """The decay rates of the two site model along 110, with amplitudes of their own and a constant."""
    bounded = "eigenvalues of a 2x2 matrix in closed form: compared at sampled rates, times and wavevectors"
    has_kwargs = True

    def inputs(C):
        f = C.real("f", pos=True)
        return (C.array("t", [C.size("T", lo=2)], dt="f", pos=True), f, C.real("A"), f * C.real("lam", pos=True), C.real("B"), C.real("c")), dict(a_dk=C.real("a"))

    def ensures(C, out, t, fast_rate, fast_amplitude, slow_rate, slow_amplitude, offset, *, a_dk):
        import numpy as np
        g2 = ((1 + 2 * np.cos(a_dk / 2)) / 3) ** 2
        l = np.sort(np.linalg.eigvals(np.array([[-fast_rate, slow_rate * np.sqrt(g2)], [fast_rate * np.sqrt(g2), -slow_rate]])).real)
        C.equal("isf", out, fast_amplitude * np.exp(l[0] * t) + slow_amplitude * np.exp(l[1] * t) + offset)


for _m, _f in (("get_isf_from_fey_model_fit_110", "calculate_isf_fey_model_110"), ("get_isf_from_fey_model_fit_112bar", "calculate_isf_fey_model_112bar"), ("get_isf_from_fey_4_variable_model_110", "calculate_isf_fey_4_variable_model_110")):
    @contract(f"{IS}:{_m}", ["P26"])
    class feyfit:
        """The model with the parameters of the fit."""

        def inputs(C, four=_m.endswith("model_110"), name=_m):
            I = C.mod(IS)
            r = lambda x: C.real(x, pos=True)
            fit = I.ISFFey4VariableFit(C.real("a"), r("f"), C.real("A"), r("s"), C.real("B"), C.real("c")) if four else I.ISFFeyModelFit(r("f"), r("s"), C.real("a"))
            return (fit, C.array("t", [C.size("T", lo=2)], dt="f", pos=True))

        def ensures(C, out, fit, times, f=_f, four=_m.endswith("model_110")):
            tb = C.mod("basis.time_basis_like").ExplicitTimeBasis(times)
            C.equal("basis", out["basis"], C.tuple_basis(tb, tb))
            args = (fit.fast_rate, fit.fast_amplitude, fit.slow_rate, fit.slow_amplitude, fit.offset) if four else (fit.fast_rate, fit.slow_rate)
            C.equal("isf", out["data"], C.fn(f"{IS}:{f}")(times, *args, a_dk=fit.a_dk))


SS = "dynamics.stochastic_schrodinger.solve"


@contract(f"{SS}:_get_operator_diagonals", ["P26"])
class god:
    """diagonal k, element j: the matrix element from state j to state j + k, around the edge"""
    bounded = "np.diag with a diagonal index which is not a constant is outside the extraction: compared for sampled matrices"

    def inputs(C):
        n = C.size("n", lo=2)
        return (C.array("a", [n, n]),)

    def result(C, operator):
        n = C.len(operator)
        at = C.at(operator)
        return C.lam([n, n], lambda k, j: at(C.mod_(j + k, n), j))


@contract(f"{SS}:_get_banded_operator", ["P26"], cases=[dict(kind=k) for k in ("dense", "band")])
class gbo:
    """The diagonals which are kept make up the matrix: an element is dropped only if its whole diagonal is below the
    threshold, and each part of the others is kept unless it is below it."""
    bounded = "which diagonals are kept depends on the data: compared for sampled matrices"

    def inputs(C, kind):
        import numpy as np
        n = C.size("n", lo=2)
        a = C.array("a", [n, n])
        if kind == "band":
            i = np.arange(n)
            a = np.where((i[:, None] - i[None, :]) % n <= 1, a, 1e-9 * a)
        return (a, 1e-3)

    def ensures(C, out, operator, threshold):
        import numpy as np
        n = len(operator)
        full = np.zeros((n, n), dtype=complex)
        for d, k in zip(*out, strict=True):
            for j in range(n):
                full[(j + k) % n, j] = d[j]
        C.equal("offsets", len(set(out[1])), len(out[1]))
        C.ensure("elements", bool(np.all(np.abs(full - operator) < 2 * threshold)))
        norms = [np.linalg.norm([operator[(j + k) % n, j] for j in range(n)]) for k in range(n)]
        C.equal("kept", np.array(out[1]), np.array([k for k in range(n) if norms[k] > threshold]))


@contract(f"{SS}:get_collapse_operators_from_a_matrix", ["P26"], cases=[dict(k=k) for k in ("F", "FT")])
class cfa:
    """One operator for each rate between different states, with that rate as its only element."""
    bounded = "the number of operators depends on the data: compared for sampled matrices"

    def inputs(C, k):
        b = mk(C, k, "A")
        m = a_matrix(C, b)
        m["data"] = re_array(C, m["data"], [b.n * b.n])
        return (m,)

    def ensures(C, out, matrix):
        import numpy as np
        n = matrix["basis"][0].n
        a = matrix["data"].reshape(n, n)
        C.equal("number", len(out), n * (n - 1))
        s = np.zeros((n, n))
        for o in out:
            d = np.asarray(o["data"]).reshape(n, n)
            C.equal("one element", int(np.count_nonzero(d)), 1)
            C.equal("basis", o["basis"], matrix["basis"])
            s = s + d
        C.equal("elements", s, np.where(np.eye(n, dtype=bool), 0, a))


@contract(f"{SS}:get_simplified_collapse_operators_from_a_matrix", ["P26"])
class cfs:
    """For each pair of different bands and each hop: the square root of the rate, from every site to the site it hops to."""
    bounded = "the number of operators depends on the data: compared for sampled matrices"
    has_kwargs = True

    def inputs(C):
        import numpy as np
        b = grid(C, bands(C), lo=2)
        m = a_matrix(C, b)
        m["data"] = np.abs(m["data"])
        return (m,), dict(factor=3.0)

    def ensures(C, out, matrix, *, factor=1):
        import numpy as np
        X, Y, n = dims_of(matrix["basis"][0])
        a = factor * matrix["data"].reshape(X, Y, n, X, Y, n)
        want = []
        for p in range(n):
            for q in range(n):
                for i, j in HOPS if p != q else []:
                    r = a[0, 0, p, i, j, q]
                    if r >= 1:
                        m = np.zeros((X, Y, n, X, Y, n))
                        for x in range(X):
                            for y in range(Y):
                                m[(x + i) % X, (y + j) % Y, q, x, y, p] = np.sqrt(r)
                        want.append(m.reshape(-1))
        C.equal("number", len(out), len(want))
        for o, w in zip(out, want):
            C.equal("basis", o["basis"], matrix["basis"])
            C.equal("operator", o["data"], w)


@contract(f"{SS}:get_collapse_operators_from_function", ["P26"])
class cff:
    """One operator for each state, band and hop, whose only element is the value of the function, from the state to the
    band of the site it hops to."""
    bounded = "a list whose length depends on the sizes: compared for sampled sizes"

    def inputs(C):
        bb = bands(C)
        return ((C.size("X"), C.size("Y")), bb, lambda i, j, p, q: (i + 1) + 10 * (j + 1) + 100 * (q[0] + 2) + 1000 * (q[1] + 2))

    def ensures(C, out, shape, bands_basis, a_function):
        import numpy as np
        n = bands_basis.n
        X, Y = shape
        b = C.fn(f"{TBS}:get_basis_from_shape")(shape, n, bands_basis)
        C.equal("number", len(out), X * Y * n * n * 9)
        k = 0
        for x in range(X):
            for y in range(Y):
                for p in range(n):
                    for q in range(n):
                        for i in (-1, 0, 1):
                            for j in (-1, 0, 1):
                                m = np.zeros((X, Y, n, X, Y, n))
                                m[x, y, p, (x + i) % X, (y + j) % Y, q] = a_function(p, q, (0, 0), (i, j))
                                C.equal("operator", out[k], {"basis": C.tuple_basis(b, b), "data": m.reshape(-1)})
                                k += 1


def isf_of(C, t, data):
    tb = C.mod("basis.time_basis_like").ExplicitTimeBasis(t)
    return {"basis": C.tuple_basis(tb, tb), "data": data + 0j}


FITS = "optimisation by scipy: compared at the exact isf of sampled rates, of the order of the first guess"


def rates(C, unit):
    """a fast and a slow rate, and times over which both decay"""
    f = unit * C.real("f", pos=True)
    s = f * 0.4 * C.real("ratio", pos=True)
    return f, s, C.const_array([k * 3 / s / 59 for k in range(60)])


for _f, _unit in (("110", 2e9), ("112bar", 2e10)):
    @contract(f"{IS}:fit_isf_to_fey_model_{_f}", ["P26"], cases=[dict(f=_f, unit=_unit)])
    class feyfit:
        """The fit to an isf of the model finds its rates."""
        bounded = FITS
        atol = 0.03
        has_kwargs = True

        def inputs(C, f, unit):
            fast, slow, t = rates(C, unit)
            a = 0.5 + 0.75 * C.real("a", pos=True)
            d = C.fn(f"{IS}:calculate_isf_fey_model_{f}")(t, fast, slow, a_dk=a)
            return (isf_of(C, t, d),), dict(measure="real", a_dk=a)

        def ensures(C, out, isf, *, measure, a_dk, f=_f):
            t = isf["basis"]._axes[0].times
            C.equal("a_dk", out.a_dk, a_dk)
            C.equal("isf", C.fn(f"{IS}:calculate_isf_fey_model_{f}")(t, out.fast_rate, out.slow_rate, a_dk=a_dk), C.re(isf["data"]))


@contract(f"{IS}:fit_isf_to_double_exponential", ["P26"])
class dblfit:
    """The fit to two exponentials finds their rates and amplitudes; the constant is what is left of one."""
    bounded = FITS
    atol = 0.03
    has_kwargs = True

    def inputs(C):
        import numpy as np
        s = 2e9 * C.real("s", pos=True)
        t = C.const_array([k * 3 / s / 59 for k in range(60)])
        f = (3 + C.real("ratio", pos=True)) * s
        a, b = 0.2 * C.real("A", pos=True), 0.2 * C.real("B", pos=True)
        return (isf_of(C, t, a * np.exp(-f * t) + b * np.exp(-s * t) + 1 - a - b),), dict(measure="real")

    def ensures(C, out, isf, *, measure):
        t = isf["basis"]._axes[0].times
        C.equal("isf", C.fn(f"{IS}:get_isf_from_4_variable_fit")(out, t)["data"], isf["data"])
        C.equal("adds up", out.fast_amplitude + out.slow_amplitude + out.baseline, 1.0)


def fit4(C):
    f, s, t = rates(C, 2e9)
    a = 0.5 + 0.75 * C.real("a", pos=True)
    d = C.fn(f"{IS}:calculate_isf_fey_4_variable_model_110")(t, f, 0.2 * C.real("A", pos=True), s, 0.2 * C.real("B", pos=True), 0.03, a_dk=a)
    return isf_of(C, t, d), s / f, dict(measure="real", a_dk=a, start_t=-1)


def fit4_equal(C, out, isf, a_dk):
    t = isf["basis"]._axes[0].times
    C.equal("a_dk", out.a_dk, a_dk)
    C.equal("isf", C.fn(f"{IS}:get_isf_from_fey_4_variable_model_110")(out, t)["data"], isf["data"])


@contract(f"{IS}:fit_isf_to_fey_4_variable_model_110", ["P26"])
class fey4fit:
    """The fitted rates and amplitudes give the isf back, roughly."""
    bounded = FITS
    atol = 0.1  # some fits end in a local minimum close by
    has_kwargs = True

    def inputs(C):
        isf, _, kw = fit4(C)
        return (isf,), kw

    def ensures(C, out, isf, *, measure, a_dk, start_t):
        fit4_equal(C, out, isf, a_dk)


@contract(f"{IS}:fit_isf_to_fey_4_variable_model_110_fixed_ratio", ["P26"])
class fey4fitr:
    """The fitted rate and amplitudes give the isf back, roughly, with the given ratio of the rates."""
    bounded = FITS
    atol = 0.1  # some fits end in a local minimum close by
    has_kwargs = True

    def inputs(C):
        isf, lam, kw = fit4(C)
        return (isf, lam), {**kw, "end_t": 1.0}

    def ensures(C, out, isf, lam, *, measure, a_dk, start_t, end_t):
        C.equal("ratio", out.slow_rate / out.fast_rate, lam)
        fit4_equal(C, out, isf, a_dk)


@contract(f"{IS}:extract_fey_rate_from_4_variables_fit_112bar", ["P26"])
class feyx:
    """The rates of the hops of which the fitted rates are the decay rates of the two site model."""
    bounded = "root finding by scipy: compared at sampled rates"
    atol = 1e-3

    def inputs(C):
        import numpy as np
        f, s, _ = rates(C, 2e9)
        r = 1 / np.sqrt(3)
        g = sum(np.exp(1j * v @ np.array([0, 2])) for v in np.array([[0, r], [0.5, -r / 2], [-0.5, -r / 2]])) / 3
        e = np.sort(-np.linalg.eigvals(np.array([[-f, s * g], [f * np.conj(g), -s]])).real)
        fit = C.mod(IS).ISF4VariableFit(e[1], C.real("A"), e[0], C.real("B"), C.real("c"))
        fit.expected = (f, s)
        return (fit,)

    def ensures(C, out, fit):
        C.equal("rates", [out.fast_rate / fit.expected[0], out.slow_rate / fit.expected[1]], [1.0, 1.0])
        C.equal("a_dk", out.a_dk, 2)
