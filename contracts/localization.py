"""Localised wavepackets: the phases, or the unitary matrices, that recombine the bloch states of each sample."""
from contracts._common import *
from contracts.distances import wrapped
from contracts.wannier import LO, diag_operator, loc_operator, u_of
from contracts.wavepacket import GE, WC, WE, WP, band, bb, convert2, fund_tr, fundamental, idx_of, mk_list, signed, stacked_idx, supercell, wavepacket
from contracts.hamiltonian import mk_pos2
from contracts.operators import op

TB = "wavepacket.localization._tight_binding"
PR = "wavepacket.localization._projection"
OP = "wavepacket.localization._operator"
SHAPES = [dict(lk=a, sk=b) for a, b in (("t", "t"), ("t", "F"), ("t", "r"), ("tt", "tt"), ("tt", "rt"))]


def position(C, w):
    """Entry (sample, point of the unit cell)."""
    lb, sb = w["basis"][0], fund_pos(C, w["basis"][1])
    return lb, sb, C.at(convert2(C, w, lb, sb), dims_of(lb) + dims_of(sb))


def point(C, nd, kind, ns):
    if kind == "tuple":
        return tuple(C.int(f"x{k}") for k in range(nd))
    return idx_flat(C, [C.int(f"x{k}", 0, n - 1) for k, n in enumerate(ns)], ns)


def idx_flat(C, ix, ns):
    r = 0
    for i, n in zip(ix, ns):
        r = r * n + i
    return r


def unflat(C, idx, ns):
    if isinstance(idx, tuple):
        return list(idx)
    i = []
    for n in reversed(ns):
        i.insert(0, C.mod_(idx, n))
        idx = C.div(idx, n)
    return i


def bloch_turns(C, lb, ns, x, s):
    """The number of turns of the bloch phase of sample s between the origin and the point x."""
    t = 0
    for k, l in enumerate(lb._axes):
        t = t + S.ft_index(C, s[k], l.n) * x[k] / (l.n * ns[k])
    return t


def bloch_phase(C, lb, ns, x, s, sign=1):
    p = 1
    for k, l in enumerate(lb._axes):
        p = p * C.cis(sign * signed(C, s[k], l.n) * x[k], l.n * ns[k])
    return p


@contract(f"{TB}:_get_global_phases", ["P27"], cases=[dict(lk=a, sk=b, kind=k) for a, b in (("t", "F"), ("tt", "rt")) for k in ("tuple", "flat", "array")])
class ggp:
    """The phase of the plane wave of each sample at the point: also outside of the unit cell."""

    def inputs(C, lk, sk, kind):
        w = wavepacket(C, lk, sk)
        ns = dims_of(fund_pos(C, w["basis"][1]))
        if kind == "array":
            m = C.size("M")
            return (w, tuple(C.array(f"x{k}", [m], dt="i") for k in range(len(ns))))
        return (w, point(C, len(ns), kind, ns))

    def result(C, wavepacket, idx):
        lb = wavepacket["basis"][0]
        ns = dims_of(fund_pos(C, wavepacket["basis"][1]))
        if isinstance(idx, tuple) and hasattr(idx[0], "ndim") and idx[0].ndim:
            at = [C.at(i) for i in idx]
            return C.lam([flat(lb), idx[0].shape[0]], lambda *i: 2 * C.pi * bloch_turns(C, lb, ns, [a(i[-1]) for a in at], i[:-1]), "f")
        return C.lam([flat(lb)], lambda *s: 2 * C.pi * bloch_turns(C, lb, ns, unflat(C, idx, ns), s), "f")


@contract(f"{TB}:_get_bloch_wavefunction_phases", ["P27"], cases=[dict(lk=a, sk=b, kind=k) for a, b in (("t", "F"), ("T", "t"), ("tt", "rt")) for k in ("tuple", "flat")])
class gbwp:
    """The angle of the periodic part of each bloch state at the point, wrapped into the unit cell."""

    def inputs(C, lk, sk, kind):
        w = wavepacket(C, lk, sk)
        ns = dims_of(fund_pos(C, w["basis"][1]))
        return (w, point(C, len(ns), kind, ns))

    def result(C, wavepacket, idx=0):
        lb, sb, psi = position(C, wavepacket)
        ns = dims_of(sb)
        x = [C.mod_(i, n) for i, n in zip(unflat(C, idx, ns), ns)]
        return C.lam([flat(lb)], lambda *s: C.angle(psi(*s, *x)), "f")


def rephased(C, w, fix):
    """Each bloch state multiplied by a number."""
    lb, sb = w["basis"]
    at = C.at(w["data"], dims_of(lb) + dims_of(sb))
    nl = len(dims_of(lb))
    return {"basis": w["basis"], "data": C.lam([tuple(dims_of(lb) + dims_of(sb))], lambda *i: at(*i) * fix(*i[:nl]))}


def localized_to(C, w, x, angle):
    lb, sb, psi = position(C, w)
    ns = dims_of(sb)
    xw = tuple(C.mod_(i, n) for i, n in zip(x, ns))
    return rephased(C, w, lambda *s: C.conj(C.unit(psi(*s, *xw))) * bloch_phase(C, lb, ns, x, s, -1) * C.expi(angle))


@contract(f"{TB}:localize_tightly_bound_wavepacket_idx", ["P27"], cases=[dict(lk=a, sk=b, kind=k) for a, b in (("t", "F"), ("t", "r"), ("tt", "rt")) for k in ("tuple", "flat")])
class ltbi:
    """Each bloch state has the requested phase at the point."""

    def inputs(C, lk, sk, kind):
        w = wavepacket(C, lk, sk)
        ns = dims_of(fund_pos(C, w["basis"][1]))
        return (w, point(C, len(ns), kind, ns), C.real("angle"))

    def result(C, wavepacket, idx=0, angle=0):
        ns = dims_of(fund_pos(C, wavepacket["basis"][1]))
        return localized_to(C, wavepacket, unflat(C, idx, ns), angle)


@lemma("a wavepacket localized at a point has the same phase there in every bloch state, and is otherwise unchanged", ["P27"], cases=SHAPES)
class ltl:
    def body(C, lk, sk):
        w = wavepacket(C, lk, sk)
        lb, sb, psi = position(C, w)
        ns = dims_of(sb)
        x = tuple(C.int(f"x{k}", 0, n - 1) for k, n in enumerate(ns))
        angle = C.real("angle")
        v = C.fn(f"{TB}:localize_tightly_bound_wavepacket_idx")(w, x, angle)
        _, _, phi = position(C, v)
        s = [C.int(f"s{k}", 0, l.n - 1) for k, l in enumerate(lb._axes)]
        # phi e^{i k x} = |psi| e^{i angle}, written without dividing by the phase of psi
        C.equal("phase", phi(*s, *x) * bloch_phase(C, lb, ns, x, s) * C.unit(psi(*s, *x)), psi(*s, *x) * C.expi(angle))
        d = dims_of(w["basis"][1])
        a, b = (C.at(z["data"], dims_of(lb) + d) for z in (w, v))
        k, q = ([C.int(f"{m}{j}", 0, n - 1) for j, n in enumerate(d)] for m in "kq")
        C.equal("products", b(*s, *k) * C.conj(b(*s, *q)), a(*s, *k) * C.conj(a(*s, *q)))


def largest(C, w):
    """The point of the large cell where the state of the first sample is largest."""
    s = C.fn("state_vector.conversion:convert_state_vector_to_position_basis")(C.fn(f"{GE}:get_wavepacket_state_vector")(w, 0))
    b = s["basis"]
    at = C.at(s["data"], dims_of(b))
    return unflat(C, C.argmax(C.lam([flat(b)], lambda *j: C.abs(at(*j)), "f")), dims_of(b))


@contract(f"{TB}:localize_tightly_bound_wavepacket_max_point", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "F"), ("t", "r"), ("tt", "tt"))])
class ltbm:
    """Localised at the largest point of the first state, wrapped about the origin of the unit cell."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk), C.real("angle"))

    def result(C, wavepacket, angle=0):
        ns = dims_of(fund_pos(C, wavepacket["basis"][1]))
        i = largest(C, wavepacket)
        x = [wrapped(C, a, n, 0) if k < 2 else a for k, (a, n) in enumerate(zip(i, ns))]
        return localized_to(C, wavepacket, x, angle)


def two_points(C, w, offset):
    ns = dims_of(fund_pos(C, w["basis"][1]))
    o = [n * q for n, q in zip(ns, (*offset, 0))]
    wrap = lambda i: tuple(wrapped(C, a, n, q) for a, n, q in zip(i, ns, o))
    i = wrap(largest(C, w))
    return i, wrap((i[1], i[0], *i[2:]))


POINTS = [dict(lk=a, sk=b, o=o) for a, b, o in (("tt", "tt", 0), ("tt", "rF", 1), ("ttt", "ttt", 1))]


@contract(f"{TB}:get_wavepacket_two_points", ["P27"], cases=POINTS)
class gwtp:
    """The largest point of the first state, and its mirror image, each in the unit cell around the offset."""

    def inputs(C, lk, sk, o):
        w = wavepacket(C, lk, sk)
        return (w, (C.int("a", -2, 2), C.int("b", -2, 2))) if o else (w,)

    def result(C, wavepacket, offset=(0, 0)):
        return two_points(C, wavepacket, offset)


@contract(f"{TB}:localize_tightly_bound_wavepacket_two_point_max", ["P27"], cases=[dict(lk=a, sk=b, o=o) for a, b, o in (("tt", "rF", 1),)])
class ltb2:
    """The phase at the two points is shared between them."""

    def inputs(C, lk, sk, o):
        w = wavepacket(C, lk, sk)
        return (w, (C.int("a", -2, 2), C.int("b", -2, 2)) if o else (0, 0), C.real("angle"))

    def result(C, wavepacket, offset=(0, 0), angle=0):
        lb, sb, psi = position(C, wavepacket)
        ns = dims_of(sb)
        pts = two_points(C, wavepacket, offset)

        def fix(*s):
            phi = [C.angle(psi(*s, *[C.mod_(i, n) for i, n in zip(x, ns)])) + 2 * C.pi * bloch_turns(C, lb, ns, x, s) for x in pts]
            half = (C.rem(phi[1] - phi[0] + C.pi / 2, C.pi) - C.pi / 2) / 2
            return C.expi(angle - phi[0] - half)

        return rephased(C, wavepacket, fix)


# ---------------------------------------------------------------- projection onto a list of states
SUP = [dict(lk=a, sk=b, more=m) for a, b in (("t", "t"), ("t", "F"), ("t", "r"), ("tt", "tr")) for m in ("bands", "projections") if a == "t" or m == "bands"]


def banded(C, lk, sk, more):
    """Fewer bands than states of the cell (the overlaps have full rank), and fewer projections than bands or the other way around."""
    lb, sb = mk_list(C, lk), mk_pos2(C, sk)
    hi = 1
    for d in dims_of(sb):
        hi = hi * d
    b = bb(C).FundamentalBasis(C.size("B", hi=hi))
    w = {"basis": C.tuple_basis(C.tuple_basis(b, lb), sb), "data": C.array("w", [(b.n, *dims_of(lb), *dims_of(sb))])}
    return w, C.size("W", hi=b.n) if more == "bands" else C.size("W", lo=b.n)


def projections(C, w, m=None, name="P"):
    """States of the large cell, on its fundamental momentum or position states."""
    lb, sb = w["basis"][0] if m is None else w["basis"][0][1], w["basis"][1]
    cell = supercell(C, fund_tr(C, lb), fund_mom(C, sb))
    if m is None:
        return {"basis": cell, "data": C.array(name, [tuple(dims_of(cell))])}
    m = bb(C).FundamentalBasis(m)
    return {"basis": C.tuple_basis(m, cell), "data": C.array(name, [(m.n, *dims_of(cell))])}


def overlaps(C, w, p):
    """Entry (sample, band, projection): <band | projection>; the frequency of the large cell is that of the sample plus those of the cell."""
    lb, sb, at = fundamental_list(C, w)
    m, cell = p["basis"]
    big = C.tuple_basis(*[bb(C).FundamentalTransformedPositionBasis(x.delta_x, x.fundamental_n) for x in cell._axes])
    pa = C.at(S.conv(C, split2(C, p["data"], m, cell), cell, big, 1), [m.n] + dims_of(big))
    ns, nk = dims_of(lb), dims_of(sb)

    def fn(s, b, j):
        f = lambda k: [C.mod_(k[a] * ns[a] + signed(C, s[a], ns[a]), ns[a] * nk[a]) for a in range(len(ns))]
        return C.sum(tuple(nk), lambda *k: C.conj(at(b, *s, *k)) * pa(j, *f(k)))

    return lb, sb, fn


def fundamental_list(C, w):
    bands, lb = w["basis"][0]
    sb = fund_mom(C, w["basis"][1])
    v = S.conv(C, split2(C, w["data"], w["basis"][0], w["basis"][1]), w["basis"][1], sb, 1)
    return lb, sb, C.at(v, [bands.n] + dims_of(lb) + dims_of(sb))


@contract(f"{PR}:get_localization_operator_for_projections", ["P27"], cases=SUP)
class glop:
    """For each sample the unitary factor of the overlaps of the bands with the projections."""

    def inputs(C, lk, sk, more):
        w, m = banded(C, lk, sk, more)
        return (w, projections(C, w, m))

    def result(C, wavepackets, projections):
        bands, lb = wavepackets["basis"][0]
        L = projections["basis"][0]
        _, _, o = overlaps(C, wavepackets, projections)

        def fn(*r):
            s, j, b = r[:-2], r[-2], r[-1]
            u, _, v = C.svd(C.lam([bands.n, L.n], lambda b, j: o(s, b, j)))
            ua, va = C.at(u), C.at(v)
            return C.sum((v.shape[0],), lambda k: ua(b, k) * va(k, j))

        return {"basis": C.tuple_basis(lb, C.tuple_basis(L, bands)), "data": C.lam([(*dims_of(lb), L.n, bands.n)], fn)}


@lemma("the matrix of the projection localization is unitary, and makes the overlaps hermitian", ["P27"], cases=[dict(more=m) for m in ("bands", "projections", "same")])
class pol:
    """Shown of the product of the two factors of any matrix of overlaps."""

    def body(C, more):
        B = C.size("B")
        W = B if more == "same" else C.size("W", hi=B) if more == "bands" else C.size("W", lo=B)
        a = C.array("A", [B, W])
        u, s, v = C.svd(a)
        A, U, V, sg = C.at(a), C.at(u), C.at(v), C.at(s)
        K = v.shape[0]
        q = C.lam([B, W], lambda b, j: C.sum((K,), lambda k: U(b, k) * V(k, j)))
        Q = C.at(q)
        if more != "projections":
            C.equal("orthonormal states", C.lam([W, W], lambda i, j: C.sum((B,), lambda b: C.conj(Q(b, i)) * Q(b, j))), C.lam([W, W], lambda i, j: C.ite([C.eq(i, j)], lambda: 1, 0)))
        if more != "bands":
            C.equal("complete", C.lam([B, B], lambda i, j: C.sum((W,), lambda b: C.conj(Q(i, b)) * Q(j, b))), C.lam([B, B], lambda i, j: C.ite([C.eq(i, j)], lambda: 1, 0)))
        p = C.lam([W, W], lambda i, j: C.sum((B,), lambda b: C.conj(Q(b, i)) * A(b, j)))
        P_ = C.at(p)
        C.equal("non-negative", p, C.lam([W, W], lambda i, j: C.sum((K,), lambda k: C.conj(V(k, i)) * sg(k) * V(k, j))))
        C.equal("hermitian", p, C.lam([W, W], lambda i, j: C.conj(P_(j, i))))


@contract(f"{PR}:localize_wavepacket_projection", ["P27"], cases=[c for c in SUP if c["sk"] != "F" and c["lk"] == "t"])
class lwp:
    """The bands of each sample are combined by the localization operator of the projections."""

    inputs = glop.inputs

    def result(C, wavepackets, projections):
        o = C.fn(f"{PR}:get_localization_operator_for_projections")(wavepackets, projections)
        return C.fn(f"{LO}:get_localized_wavepackets")(wavepackets, o)


def single_projection(C, w, p):
    """Each bloch state multiplied by the phase of its overlap with the projection."""
    lb, sb = w["basis"]
    one = bb(C).FundamentalBasis(1)
    W = {"basis": C.tuple_basis(C.tuple_basis(one, lb), sb), "data": w["data"]}
    _, _, o = overlaps(C, W, {"basis": C.tuple_basis(one, p["basis"]), "data": p["data"]})
    return rephased(C, w, lambda *s: C.unit(o(s, 0, 0)))


@contract(f"{PR}:localize_single_band_wavepacket_projection", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("t", "F"), ("t", "r"), ("tt", "tr"))])
class lsbp:
    """Each bloch state is multiplied by the phase of its overlap with the projection, so that the overlap becomes positive."""

    def inputs(C, lk, sk):
        w = wavepacket(C, lk, sk)
        return (w, projections(C, w))

    def result(C, wavepacket, projection):
        return single_projection(C, wavepacket, projection)


@contract(f"{PR}:get_single_point_state_for_wavepacket", ["P27"], cases=[dict(lk=a, sk=b, o=o) for a, b in (("t", "F"), ("tt", "tr")) for o in (0, 1)])
class gsps:
    """One at the origin (by default where the state of the sample is largest), zero elsewhere."""

    def inputs(C, lk, sk, o):
        w = wavepacket(C, lk, sk)
        return (w, 0, tuple(C.int(f"o{k}") for k in range(len(lk)))) if o else (w,)

    def result(C, wavepacket, idx=0, origin=None):
        lb, sb = wavepacket["basis"]
        cell = fund_pos(C, supercell(C, fund_tr(C, lb), fund_mom(C, sb)))
        ns = dims_of(cell)
        x = [C.mod_(i, n) for i, n in zip(origin, ns)] if origin is not None else largest(C, wavepacket)
        return {"basis": cell, "data": C.lam([flat(cell)], lambda *i: C.ite([C.eq(a, b) for a, b in zip(i, x)], lambda: 1, 0))}


@contract(f"{PR}:localize_single_point_projection", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "F"), ("t", "r"))])
class lspp:
    """Every bloch state is given the phase zero at the largest point."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk),)

    def result(C, wavepacket, idx=0):
        return single_projection(C, wavepacket, gsps.result(C, wavepacket, idx))


def profile(C, w, x0, width):
    """exp(- squared distance from the point in unit cells times width), normalised over the large cell."""
    lb, sb = w["basis"]
    cell = fund_pos(C, supercell(C, fund_tr(C, lb), fund_mom(C, sb)))
    ns, N = dims_of(fund_pos(C, sb)), dims_of(cell)
    x0 = [wrapped(C, a, n, 0) for a, n in zip(x0, ns)]

    def fn(*i):
        r = 0
        for a in range(len(N)):
            d = (wrapped(C, i[a], N[a], x0[a]) - x0[a]) / ns[a]
            r = r - d * d * width
        return C.exp(r)

    norm = C.sqrt(C.sum(tuple(N), lambda *i: fn(*i) * fn(*i)))
    return cell, C.lam([flat(cell)], lambda *i: C.cplx(fn(*i) / norm))


@contract(f"{PR}:get_exponential_state", ["P27"], cases=[dict(lk=a, sk=b, o=o) for a, b in (("t", "F"), ("tt", "tr")) for o in (0, "tuple", "flat") if o or a == "t"])
class gexs:
    """Falls off with the squared distance in unit cells from the origin (by default where the state of the sample is largest), periodic over the large cell."""

    def inputs(C, lk, sk, o):
        w = wavepacket(C, lk, sk)
        N = dims_of(fund_pos(C, supercell(C, fund_tr(C, w["basis"][0]), fund_mom(C, w["basis"][1]))))
        return (w, 0, point(C, len(lk), o, N)) if o else (w,)

    def result(C, wavepacket, idx=0, origin=None):
        lb, sb = wavepacket["basis"]
        N = dims_of(supercell(C, fund_tr(C, lb), fund_mom(C, sb)))
        cell, data = profile(C, wavepacket, unflat(C, origin, N) if origin is not None else largest(C, wavepacket), 1)
        return {"basis": cell, "data": data}


@contract(f"{PR}:get_gaussian_states", ["P27"], cases=[dict(lk=a, sk=b, o=o) for a, b in (("t", "F"), ("tt", "tr")) for o in (0, "tuple", "flat")])
class ggst:
    """A gaussian about the origin with the width of a unit cell, periodic over the large cell."""

    inputs = gexs.inputs

    def inputs(C, lk, sk, o):
        a = gexs.inputs(C, lk, sk, o)
        return (a[0], a[2]) if o else a

    def result(C, wavepacket, origin=0):
        lb, sb = wavepacket["basis"]
        N = dims_of(supercell(C, fund_tr(C, lb), fund_mom(C, sb)))
        cell, data = profile(C, wavepacket, unflat(C, origin, N), 0.5)
        return {"basis": C.tuple_basis(bb(C).FundamentalBasis(1), cell), "data": data}


@contract(f"{PR}:localize_wavepacket_gaussian_projection", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "F"), ("t", "r"))])
class lwgp:
    """The overlap with a gaussian at the origin becomes positive."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk),)

    def result(C, wavepacket):
        g = ggst.result(C, wavepacket)
        return single_projection(C, wavepacket, {"basis": g["basis"][1], "data": g["data"]})


def decay_state(C, w):
    e = gexs.result(C, w)
    s = C.fn("state_vector.conversion:convert_state_vector_to_position_basis")(C.fn(f"{GE}:get_wavepacket_state_vector")(w, 0))
    N = dims_of(e["basis"])
    a, b = C.at(e["data"], N), C.at(s["data"], N)
    norm = C.sqrt(C.sum(tuple(N), lambda *i: C.abs2(a(*i) * b(*i))))
    return {"basis": e["basis"], "data": C.lam([flat(e["basis"])], lambda *i: a(*i) * b(*i) / norm)}


@contract(f"{PR}:_get_exponential_decay_state", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "F"), ("t", "r"))])
class geds:
    """The state of the first sample times the exponential state about its largest point, normalised."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk),)

    def result(C, wavepacket):
        return decay_state(C, wavepacket)


@contract(f"{PR}:localize_exponential_decay_projection", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "F"), ("t", "r"))])
class ledp:
    """The overlap with the state of the first sample, cut off about its largest point, becomes positive."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk),)

    def result(C, wavepacket):
        return single_projection(C, wavepacket, decay_state(C, wavepacket))


@contract(f"{PR}:localize_tight_binding_projection", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "F"), ("tt", "tt"))])
class ltbp:
    """The overlap with the tight binding state becomes positive."""

    bounded = "the tight binding state is written through an array of computed indices, which the engine does not follow"

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk),)

    def result(C, wavepacket):
        return single_projection(C, wavepacket, C.fn(f"{GE}:get_tight_binding_state")(wavepacket))


@contract(f"{PR}:get_localization_operator_tight_binding_projections", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "F"), ("tt", "tt"))])
class glotp:
    """The unitary factor of the overlaps with the tight binding state of each band."""

    bounded = ltbp.bounded

    def inputs(C, lk, sk):
        return (banded(C, lk, sk, "bands")[0],)

    def result(C, wavepackets):
        (bands, lb), sb = wavepackets["basis"]
        at = C.at(wavepackets["data"], [bands.n, lb.n * sb.n])
        one = lambda i: {"basis": C.tuple_basis(lb, sb), "data": C.lam([lb.n * sb.n], lambda k: at(i, k))}
        s = [C.fn(f"{GE}:get_tight_binding_state")(one(i)) for i in range(bands.n)]
        p = {"basis": C.tuple_basis(bands, s[0]["basis"]), "data": C.lam([(bands.n, s[0]["basis"].n)], lambda i, k: s[i]["data"][k])}
        return glop.result(C, wavepackets, p)


@contract(f"{PR}:get_evenly_spaced_points", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "F"), ("t", "r"), ("tt", "tr"))])
class gesp:
    """State (i, j, ..) is one at the point N i / s of the large cell, rounded down."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk)["basis"], tuple(C.size(f"S{k}") for k in range(len(lk))))

    def result(C, basis, shape):
        lb, sb = basis
        cell = fund_pos(C, supercell(C, fund_tr(C, lb), fund_mom(C, sb)))
        N, nd = dims_of(cell), len(shape)
        return {"basis": C.tuple_basis(C.tuple_basis(*[bb(C).FundamentalBasis(s) for s in shape]), cell),
                "data": C.lam([(*shape, *N)], lambda *i: C.ite([C.eq(i[nd + k], C.div(N[k] * i[k], shape[k])) for k in range(nd)], lambda: 1, 0))}


@contract(f"{LO}:get_identity_operator", ["P24", "P27"], cases=[dict(lk=a) for a in ("t", "T", "tt")])
class gid:
    """Each state is left as it is."""

    def inputs(C, lk):
        return (C.tuple_basis(bb(C).FundamentalBasis(C.size("B")), mk_list(C, lk)),)

    def result(C, basis):
        bands, lb = basis
        return {"basis": C.tuple_basis(lb, C.tuple_basis(bands, bands)), "data": C.lam([(*dims_of(lb), bands.n, bands.n)], lambda *r: C.ite([C.eq(r[-2], r[-1])], lambda: 1, 0))}


SU = "state_vector.util"


@contract(f"{SU}:get_single_point_state_vector_excact", ["P27"], cases=[dict(k=k) for k in ("F", "T", "FT")])
class gspe:
    """One at the index, zero elsewhere."""

    def inputs(C, k):
        b = mk(C, k, "A")
        return (b, C.int("i", 0, b.n - 1))

    def result(C, basis, idx):
        return {"basis": basis, "data": C.lam([basis.n], lambda i: C.ite([C.eq(i, idx)], lambda: 1, 0))}


@contract(f"{SU}:get_most_localized_free_state_vectors", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "F"), ("t", "r"), ("tt", "tr"))])
class gmlf:
    """State b is the plane wave that falls on the fraction b of the cell, with norm one over the frequencies of the bands of each sample."""

    def inputs(C, lk, sk):
        w = wavepacket(C, lk, sk)["basis"]
        return (w, tuple(C.size(f"S{k}", hi=d) for k, d in enumerate(dims_of(fund_pos(C, w[1])))))

    def result(C, basis, shape):
        lb, sb = basis
        nl = [x.fundamental_n for x in lb._axes]
        nk = [x.fundamental_n for x in sb._axes]
        out = C.tuple_basis(*[bb(C).TransformedPositionBasis(x.delta_x * n, n * s, n * k) for x, n, s, k in zip(sb._axes, nl, shape, nk)])
        nd, tot = len(shape), 1
        for n, s in zip(nl, shape):
            tot = tot * n * s

        def fn(*i):
            p = 1
            for k in range(nd):
                p = p * C.cis(-signed(C, i[k], shape[k]) * i[nd + k], nl[k] * shape[k])
            return p / C.sqrt(tot)

        return {"basis": C.tuple_basis(C.tuple_basis(*[bb(C).FundamentalBasis(s) for s in shape]), out),
                "data": C.lam([(*shape, *[n * s for n, s in zip(nl, shape)])], fn)}


def cell_points(C, basis):
    """The first coordinate of each point of the cell."""
    N = dims_of(basis)
    return C.lam([flat(basis)], lambda *i: sum(x.delta_x[0] * i[k] / N[k] for k, x in enumerate(basis._axes)), "f")


@contract(f"{OP}:_get_position_operator", ["P27"], cases=[dict(sk=k) for k in ("F", "t", "r", "FF")])
class gpo:
    """The first coordinate of each point, as an operator of the basis."""

    def inputs(C, sk):
        return (mk_pos2(C, sk),)

    def result(C, basis):
        p = fund_pos(C, basis)
        x = C.at(cell_points(C, p), dims_of(p))
        n = len(dims_of(p))
        o = {"basis": C.tuple_basis(p, p), "data": C.lam([(*dims_of(p), *dims_of(p))], lambda *i: C.ite([C.eq(a, b) for a, b in zip(i[:n], i[n:])], lambda: C.cplx(x(*i[:n])), 0))}
        return C.fn("operator.conversion:convert_operator_to_basis")(o, C.tuple_basis(basis, basis))


@contract(f"{OP}:_get_operator_between_states", ["P27"], cases=[dict(k=k) for k in ("F", "FT")])
class gobs:
    """Entry (i, j) is <i| O |j>."""

    def inputs(C, k):
        b = mk(C, k, "A")
        m = C.size("M")
        v = C.array("v", [m, b.n])
        return (C.list_of(m, lambda i: {"basis": b, "data": v[i]}), op(C, b, b))

    def result(C, states, operator):
        m, el = C.items(states)
        b = operator["basis"]._axes[0]
        d = dims_of(b)
        n = len(d)
        A = C.at(operator["data"], d + d)
        at = lambda i: C.at(el(i)["data"], d)
        fb = bb(C).FundamentalBasis(m)
        return {"basis": C.tuple_basis(fb, fb), "data": C.lam([m, m], lambda i, j: C.sum(tuple(d + d), lambda *k: C.conj(at(i)(*k[:n])) * A(*k) * at(j)(*k[n:])))}


def between(C, w, o):
    """<i| O |j> of the bloch states of the samples."""
    m, el = C.items(C.fn(f"{GE}:get_all_eigenstates")(w))
    conv = lambda i: C.fn("state_vector.conversion:convert_state_vector_to_basis")(el(i), o["basis"][0])
    return C.fn(f"{OP}:_get_operator_between_states")(C.list_of(m, conv), o)


def check_localized(C, out, w, o):
    """The states of the list are those combinations of the bloch states which are the eigenstates of the operator between them."""
    lb, sb = w["basis"]
    M = between(C, w, o)
    m, el = C.items(out)
    C.equal("number", m, lb.n)
    i = C.int("i", 0, lb.n - 1)
    C.equal("basis", el(i)["basis"], w["basis"])
    C.equal("energies", el(i)["eigenvalue"], w["eigenvalue"])
    at = C.at(w["data"], [lb.n, sb.n])
    if C.mode == "sym":
        v = C.at(C.fn("state_vector.eigenstate_calculation:calculate_eigenvectors_hermitian")(M)["data"], [lb.n, lb.n])
        C.equal("data", el(i)["data"], C.lam([(lb.n, sb.n)], lambda s, k: at(s, k) * v(i, s)))
    else:
        import numpy as np

        a = w["data"].reshape(lb.n, sb.n)
        c = np.array([[np.vdot(a[s], e["data"].reshape(lb.n, sb.n)[s]) / np.vdot(a[s], a[s]) for s in range(lb.n)] for e in out])
        C.equal("multiples", np.einsum("js,sk->jsk", c, a), np.array([e["data"].reshape(lb.n, sb.n) for e in out]))
        d = np.einsum("is,st,jt->ij", c.conj(), M["data"].reshape(lb.n, lb.n), c)
        C.equal("orthonormal", c.conj() @ c.T, np.eye(lb.n))
        C.equal("eigenstates", d, np.diag(np.diag(d)))
        C.ensure("in order", bool(np.all(np.diff(np.diag(d).real) > -1e-8)))


@contract(f"{OP}:localize_position_operator", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("t", "F"), ("t", "r"))])
class lpo:
    """One wavepacket for each eigenvalue of the position, in order."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk, eig=True),)

    def ensures(C, out, wavepacket):
        lb, sb = wavepacket["basis"]
        cell = fund_pos(C, supercell(C, fund_tr(C, lb), fund_mom(C, sb)))
        check_localized(C, out, wavepacket, C.fn(f"{OP}:_get_position_operator")(cell))


def check_combined(C, out, states, X):
    """Numerically: the states of the list are those unitary combinations of the given ones that are the eigenstates of the operator between them."""
    import numpy as np

    a, o = np.array([s["data"] for s in states]), np.array([s["data"] for s in out])
    for s in out:
        C.equal("basis", s["basis"], states[0]["basis"])
    c = np.linalg.lstsq(a.T, o.T, rcond=None)[0].T
    C.equal("combinations", c @ a, o)
    C.equal("orthonormal", c.conj() @ c.T, np.eye(len(states)))
    d = c.conj() @ (a.conj() @ X @ a.T) @ c.T
    C.equal("eigenstates", d, np.diag(np.diag(d)))
    C.ensure("in order", bool(np.all(np.diff(np.diag(d).real) > -1e-8)))


def position_matrix(C, basis):
    import numpy as np

    return np.diag(np.asarray(cell_points(C, basis)).ravel())


def different_bands(C, lk, sk):
    """Wavepackets on the same bases, no more of them than states of the cell, so that their states are independent."""
    w, out = wavepacket(C, lk, sk, eig=True), []
    m = min(C.size("m", hi=3), w["basis"][1].n)
    return [w, *[{"basis": w["basis"], "data": C.array(f"w{i}", [w["data"].size]), "eigenvalue": w["eigenvalue"]} for i in range(1, m)]]


@contract(f"{OP}:localize_position_operator_many_band", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "f"), ("t", "t"))])
class lpom:
    """The eigenstates of position among the bloch states of all the bands."""

    bounded = "the states of several lists of symbolic length are collected in one list"

    def inputs(C, lk, sk):
        return (different_bands(C, lk, sk),)

    def ensures(C, out, wavepackets):
        lb, sb = wavepackets[0]["basis"]
        cell = fund_pos(C, supercell(C, fund_tr(C, lb), fund_mom(C, sb)))
        s = [C.fn("state_vector.conversion:convert_state_vector_to_basis")(x, cell) for w in wavepackets for x in C.fn(f"{GE}:get_all_eigenstates")(w)]
        check_combined(C, out, s, position_matrix(C, cell))


@contract(f"{OP}:localize_position_operator_many_band_individual", ["P27"], cases=[dict(lk=a, sk=b) for a, b in (("t", "f"), ("t", "t"))])
class lpoi:
    """The eigenstates of position among one localised state of each band."""

    bounded = lpom.bounded

    def inputs(C, lk, sk):
        return (different_bands(C, lk, sk),)

    def ensures(C, out, wavepackets):
        import numpy as np

        k = wavepackets[0]["basis"][0].n // 4
        s = [C.fn("wavepacket.eigenstate_conversion:unfurl_wavepacket")(C.fn(f"{OP}:localize_position_operator")(w)[k]) for w in wavepackets]
        b = s[0]["basis"]
        x = C.fn(f"{OP}:_get_position_operator")(b)
        check_combined(C, out, s, np.asarray(x["data"]).reshape(b.n, b.n))


@lemma("TunnellingSimulationBandsBasis.from_wavepackets", ["P26", "P27"], cases=[dict(lk=a, sk=b, nb=n) for a, b, n in (("tt", "tt", 2), ("tt", "rF", 1), ("ttt", "ttt", 1))])
class fwp:
    """Each band is located in the middle of the two largest points of its states, as a fraction of the unit cell."""

    def body(C, lk, sk, nb):
        w = wavepacket(C, lk, sk, nb=bb(C).FundamentalBasis(nb))
        out = C.mod("dynamics.tunnelling_basis").TunnellingSimulationBandsBasis.from_wavepackets(w)
        sb = fund_pos(C, w["basis"][1])
        C.equal("n", out.n, w["basis"][0][0].n)
        for i in range(2):
            for c in range(2):
                C.equal(f"cell {i} {c}", out.unit_cell[i][c], sb._axes[i].delta_x[c])
        ns = dims_of(sb)
        at = C.at(out.locations)
        for j in range(nb):
            p, q = two_points(C, band(C, w, j), (0, 0))
            for k in range(2):
                C.equal(f"location {j} {k}", C.lam([1], lambda i: at(k, j)), C.lam([1], lambda i: (p[k] + q[k]) / (2 * ns[k])))
