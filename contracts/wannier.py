"""Wannier states: the localised combinations of Bloch states and the hamiltonian between them."""
from contracts._common import *
from contracts.wavepacket import GE, bb, bloch_parts, check_sampled, decompressed, fund_tr, mk_list, supercell, wavepacket

LO = "wavepacket.localization_operator"


def loc_operator(C, w, name="U", m=None):
    """For each sample a matrix from the bands to the localised states."""
    bands, lb = w["basis"][0]
    L = bb(C).FundamentalBasis(C.size("W") if m is None else m)
    return {"basis": C.tuple_basis(lb, C.tuple_basis(L, bands)), "data": C.array(name, [(*dims_of(lb), L.n, bands.n)])}


def u_of(C, o):
    lb, (L, bands) = o["basis"]
    return C.at(o["data"], dims_of(lb) + [L.n, bands.n])


@contract(f"{LO}:get_localized_wavepackets", ["P24"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("T", "F"), ("tt", "tr"))])
class glw:
    """For every sample the localised states are the operator applied to the band index."""

    def inputs(C, lk, sk):
        w = wavepacket(C, lk, sk, nb="B")
        return (w, loc_operator(C, w))

    def result(C, wavepackets, operator):
        (bands, lb), sb = wavepackets["basis"]
        L = operator["basis"][1][0]
        u, nd = u_of(C, operator), len(dims_of(lb))
        at = C.at(wavepackets["data"], [bands.n] + dims_of(lb) + dims_of(sb))
        return {"basis": C.tuple_basis(C.tuple_basis(L, lb), sb),
                "data": C.lam([(L.n, *dims_of(lb), *dims_of(sb))], lambda i, *r: C.sum((bands.n,), lambda c: u(*r[:nd], i, c) * at(c, *r)))}


def diag_operator(C, w, name="D"):
    bands, lb = w["basis"][0]
    b = C.tuple_basis(lb, bands)
    return {"basis": C.tuple_basis(b, b), "data": C.array(name, [(*dims_of(lb), bands.n)])}


@contract(f"{LO}:get_diagonal_localized_wavepackets", ["P24"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("T", "F"), ("tt", "tr"))])
class gdlw:
    """Each state is multiplied by its own entry."""

    def inputs(C, lk, sk):
        w = wavepacket(C, lk, sk, nb="B")
        return (w, diag_operator(C, w))

    def result(C, wavepackets, operator):
        (bands, lb), sb = wavepackets["basis"]
        nd = len(dims_of(lb))
        d = C.at(operator["data"], dims_of(lb) + [bands.n])
        at = C.at(wavepackets["data"], [bands.n] + dims_of(lb) + dims_of(sb))
        return {"basis": wavepackets["basis"], "data": C.lam([(bands.n, *dims_of(lb), *dims_of(sb))], lambda c, *r: d(*r[:nd], c) * at(c, *r))}


@contract(f"{LO}:diagonal_localization_operator_as_full", ["P24"], cases=[dict(lk=a) for a in ("t", "T", "tt")])
class dlf:
    """The same operator as a matrix for each sample."""

    def inputs(C, lk):
        return (diag_operator(C, wavepacket(C, lk, "t" * len(lk), nb="B")),)

    def result(C, operator):
        lb, bands = operator["basis"][0]
        nd = len(dims_of(lb))
        d = C.at(operator["data"], dims_of(lb) + [bands.n])
        return {"basis": C.tuple_basis(lb, C.tuple_basis(bands, bands)), "data": C.lam([(*dims_of(lb), bands.n, bands.n)], lambda *r: C.ite([C.eq(r[nd], r[nd + 1])], lambda: d(*r[:nd + 1]), 0))}


@contract(f"{LO}:localization_operator_as_diagonal", ["P24"], cases=[dict(lk=a) for a in ("t", "T", "tt")])
class lad:
    """The diagonal entries of each matrix."""

    def inputs(C, lk):
        w = wavepacket(C, lk, "t" * len(lk), nb="B")
        return (loc_operator(C, w, m=w["basis"][0][0].n),)

    def result(C, operator):
        lb, (L, bands) = operator["basis"]
        nd = len(dims_of(lb))
        u = u_of(C, operator)
        b = C.tuple_basis(lb, L)
        return {"basis": C.tuple_basis(b, b), "data": C.lam([(*dims_of(lb), L.n)], lambda *r: u(*r[:nd], r[nd], r[nd]))}


@lemma("a diagonal localization acts the same as the full operator it stands for", ["P24"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("tt", "tr"))])
class dfl:
    def body(C, lk, sk):
        w = wavepacket(C, lk, sk, nb="B")
        d = diag_operator(C, w)
        full = C.fn(f"{LO}:diagonal_localization_operator_as_full")(d)
        C.equal("same", C.fn(f"{LO}:get_localized_wavepackets")(w, full)["data"], C.fn(f"{LO}:get_diagonal_localized_wavepackets")(w, d)["data"])
        C.equal("round trip", C.fn(f"{LO}:localization_operator_as_diagonal")(full), d)


def band_energies(C, w):
    bands, lb = w["basis"][0]
    return C.at(w["eigenvalue"], [bands.n] + dims_of(lb))


def localized_h(C, e, u, bands, lb, L):
    """<w_i| H |w_j> = sum over c of conj(U_ic) E_c U_jc for each sample."""
    nd = len(dims_of(lb))
    return C.lam([(*dims_of(lb), L.n, L.n)], lambda *r: C.sum((bands.n,), lambda c: C.conj(u(*r[:nd], r[nd], c)) * e(c, *r[:nd]) * u(*r[:nd], r[nd + 1], c)))


@contract(f"{LO}:get_localized_hamiltonian_from_eigenvalues", ["P24"], cases=[dict(lk=a) for a in ("t", "T", "tt")])
class glh:
    """The matrix elements of the hamiltonian between the localised states of each sample."""

    def inputs(C, lk):
        w = wavepacket(C, lk, "t" * len(lk), nb="B", eig=True)
        return (C.fn(f"{GE}:get_bloch_hamiltonian")(w), loc_operator(C, w))

    def result(C, hamiltonian, operator):
        lb, (L, bands) = operator["basis"]
        e = C.at(hamiltonian["data"], [bands.n] + dims_of(lb))
        return {"basis": C.tuple_basis(lb, C.tuple_basis(L, L)), "data": localized_h(C, e, u_of(C, operator), bands, lb, L)}


@contract(f"{GE}:get_wannier_hamiltonian", ["P24"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("tt", "tr"))])
class gwh:
    """The matrix elements of the hamiltonian between the localised states of each sample."""

    def inputs(C, lk, sk):
        w = wavepacket(C, lk, sk, nb="B", eig=True)
        return (w, loc_operator(C, w))

    def result(C, wavefunctions, operator):
        lb, (L, bands) = operator["basis"]
        return {"basis": C.tuple_basis(lb, C.tuple_basis(L, L)), "data": localized_h(C, band_energies(C, wavefunctions), u_of(C, operator), bands, lb, L)}


def prod(xs):
    t = 1
    for x in xs:
        t = t * x
    return t


def phase(C, s, r, ns, sign=1):
    p = 1
    for a in range(len(ns)):
        p = p * C.cis(sign * s[a] * r[a], ns[a])
    return p


@contract(f"{GE}:get_wannier_states", ["P24"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("t", "F"), ("t", "r"), ("tt", "tt"))])
class gws:
    """The state of cell R is the sum over bands and samples of U exp(i k R) times the Bloch state, over the root of
    the number of samples."""

    def inputs(C, lk, sk):
        w = wavepacket(C, lk, sk, nb="B")
        return (w, loc_operator(C, w))

    def requires(C, wavefunctions, operator):
        for x in wavefunctions["basis"][0][1]._axes:
            C.require(C.eq(x.n, x.fundamental_n))

    def result(C, wavefunctions, operator):
        bands, lb0 = wavefunctions["basis"][0]
        L = operator["basis"][1][0]
        lb, sb, fn = decompressed(C, wavefunctions)
        ns = dims_of(lb)
        nd = len(ns)
        u = u_of(C, operator)
        big = supercell(C, lb, sb)
        pos = fund_pos(C, big)
        t = prod(ns)
        mom = C.lam([(L.n, *ns), flat(big)], lambda i, *r: C.sum((bands.n,), lambda c: C.sum(tuple(ns), lambda *s: u(*s, i, c) * phase(C, s, r[:nd], ns) * fn(c, *s, *r[nd:]))) / C.sqrt(t))
        return {"basis": C.tuple_basis(C.tuple_basis(L, lb0), pos), "data": flatten(C, S.conv(C, mom, big, pos, 1))}


@contract(f"{GE}:get_wannier_basis", ["P24"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("tt", "tt"))])
class gwb:
    """The basis of the localised states."""

    inputs = gws.inputs
    requires = gws.requires

    def ensures(C, out, wavefunctions, operator):
        C.ensure("class", type(out).__name__ == "ExplicitStackedBasisWithLength")
        C.equal("vectors", out.vectors, gws.result(C, wavefunctions, operator))


@contract(f"{GE}:get_full_wannier_hamiltonian", ["P24"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("t", "F"), ("t", "r"), ("tt", "tt"))])
class gfwh:
    """<i R| H |j R'> with the states of get_wannier_states and H diagonal in the Bloch states: the sum over samples and
    bands of conj(U_ic exp(ikR)) E_c U_jc exp(ikR') over the number of samples."""

    def inputs(C, lk, sk):
        w = wavepacket(C, lk, sk, nb="B", eig=True)
        return (w, loc_operator(C, w))

    requires = gws.requires

    def ensures(C, out, wavefunctions, operator):
        bands, lb = wavefunctions["basis"][0]
        L = operator["basis"][1][0]
        ns = dims_of(lb)
        nd = len(ns)
        u, e = u_of(C, operator), band_energies(C, wavefunctions)

        def fn(i, *r):
            R, j, Q = r[:nd], r[nd], r[nd + 1:]
            return C.sum(tuple(ns), lambda *s: C.sum((bands.n,), lambda c: C.conj(u(*s, i, c)) * phase(C, s, R, ns, -1) * e(c, *s) * u(*s, j, c) * phase(C, s, Q, ns))) / prod(ns)
        C.equal("data", out["data"], C.lam([(L.n, *ns, L.n, *ns)], fn))
        for k in (0, 1):
            C.ensure("class", type(out["basis"][k]).__name__ == "ExplicitStackedBasisWithLength")
            C.equal("states", out["basis"][k].vectors, gws.result(C, wavefunctions, operator))
