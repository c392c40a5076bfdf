"""Bloch wavefunctions: one state of the unit cell for each sample of the Brillouin zone."""
from contracts._common import *
from contracts.basis_points import lattice, nonsingular, recip
from contracts.hamiltonian import mk_pos2

WP = "wavepacket.wavepacket"
WC = "wavepacket.conversion"
WE = "wavepacket.eigenstate_conversion"
GE = "wavepacket.get_eigenstate"


def bb(C):
    return C.mod("basis.basis")


def mk_list(C, kinds, name="l"):
    """Sample bases: T abstract, C abstract with as many states as points, t fundamental, r truncated."""
    B = bb(C)
    ax = []
    for k, c in enumerate(kinds):
        N = C.size(f"{name}N{k}")
        if c == "C":
            ax.append(C.abs_basis(f"{name}{k}", "T", n=N, fn=N))
        elif c in "TF":
            ax.append(C.abs_basis(f"{name}{k}", c, fn=N))
        elif c == "t":
            ax.append(B.FundamentalTransformedBasis(N))
        elif c == "f":
            ax.append(B.FundamentalBasis(N))
        else:
            ax.append(B.TransformedBasis(C.size(f"{name}n{k}", hi=N), N))
    return C.tuple_basis(*ax)


def wavepacket(C, lk, sk, name="w", eig=False, nb=None):
    lb, sb = mk_list(C, lk), mk_pos2(C, sk)
    if nb is None:
        w = {"basis": C.tuple_basis(lb, sb), "data": C.array(name, [tuple(dims_of(lb)) + tuple(dims_of(sb))])}
        if eig:
            w["eigenvalue"] = C.array("E", [flat(lb)])
        return w
    b = nb if not isinstance(nb, str) else bb(C).FundamentalBasis(C.size(nb))
    w = {"basis": C.tuple_basis(C.tuple_basis(b, lb), sb), "data": C.array(name, [(b.n, *dims_of(lb), *dims_of(sb))])}
    if eig:
        w["eigenvalue"] = C.array("E", [(b.n, *dims_of(lb))])
    return w


def fund_tr(C, b):
    return C.tuple_basis(*[bb(C).FundamentalTransformedBasis(x.fundamental_n) for x in b._axes])


def convert2(C, w, lb, sb):
    """The data of a wavepacket in another list and state basis, one axis for each part of each."""
    v = split2(C, w["data"], w["basis"][0], w["basis"][1])
    v = S.conv(C, v, w["basis"][0], lb, 0)
    return S.conv(C, v, w["basis"][1], sb, 1)


def fundamental(C, w):
    lb, sb = fund_tr(C, w["basis"][0]), fund_mom(C, w["basis"][1])
    v = convert2(C, w, lb, sb)
    return lb, sb, C.at(v, dims_of(lb) + dims_of(sb))


def signed(C, i, n):
    """Signed frequency of slot i, as an integer."""
    return i - n * C.div(i + C.div(n, 2), n)


def unfurled(C, w):
    """Frequency ns k + q of the large cell is frequency k of sample q."""
    lb, sb, at = fundamental(C, w)
    nd = len(lb._axes)
    ns, nk = dims_of(lb), dims_of(sb)

    def fn(*m):
        s = [C.mod_(m[a], ns[a]) for a in range(nd)]
        k = [C.mod_(C.div(m[a] - signed(C, s[a], ns[a]), ns[a]), nk[a]) for a in range(nd)]
        return at(*s, *k)

    return fn


def supercell(C, lb, sb, cls="FundamentalTransformedPositionBasis"):
    return C.tuple_basis(*[bb(C).__dict__[cls](_times(C, x.delta_x, l.fundamental_n), l.fundamental_n * x.fundamental_n) for l, x in zip(lb._axes, sb._axes)])


def _times(C, d, n):
    return d * n


SHAPES = [dict(lk=a, sk=b) for a, b in (("t", "t"), ("T", "F"), ("r", "r"), ("tt", "tt"))]


@contract(f"{WP}:get_fundamental_unfurled_basis", ["P23"], cases=SHAPES + [dict(lk="TTt", sk="FrT")])
class gfub:
    """The large cell has as many unit cells along each axis as there are samples."""

    def inputs(C, lk, sk):
        return (C.tuple_basis(mk_list(C, lk), mk_pos2(C, sk)),)

    def result(C, basis):
        return supercell(C, basis[0], basis[1])


@contract(f"{WP}:get_fundamental_sample_basis", ["P23"], cases=SHAPES)
class gfsb:
    inputs = gfub.inputs

    def result(C, basis):
        return C.tuple_basis(*[bb(C).FundamentalTransformedPositionBasis(x.delta_x * l.fundamental_n, l.fundamental_n) for l, x in zip(basis[0]._axes, basis[1]._axes)])


@contract(f"{WE}:unfurl_wavepacket", ["P23"], cases=SHAPES)
class uw:
    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk),)

    def result(C, wavepacket):
        lb, sb = wavepacket["basis"]
        fn = unfurled(C, wavepacket)
        ns = [x.fundamental_n for x in lb._axes]
        out = supercell(C, lb, sb)
        t = 1
        for n in ns:
            t = t * n

        return {"basis": out, "data": C.lam([flat(out)], lambda *m: fn(*m) / C.sqrt(t))}


@contract(f"{WE}:unfurl_wavepacket_list", ["P23"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("T", "F"), ("tt", "tt"))])
class uwl:
    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk, nb="B"),)

    def result(C, wavepackets):
        (bands, lb), sb = wavepackets["basis"]
        out = supercell(C, lb, sb)
        B = bands.n
        ns = [x.fundamental_n for x in lb._axes]
        nd = len(ns)
        at = C.at(wavepackets["data"], [B, *dims_of(lb), *dims_of(sb)])
        t = 1
        for n in ns:
            t = t * n

        def fn(b, *m):
            one = {"basis": C.tuple_basis(lb, sb), "data": C.lam([tuple(dims_of(lb)) + tuple(dims_of(sb))], lambda *i: at(b, *i))}
            return unfurled(C, one)(*m) / C.sqrt(t)

        return {"basis": C.tuple_basis(bands, out), "data": C.lam([(B, *dims_of(out))], fn)}


@contract(f"{WP}:get_fundamental_unfurled_sample_basis_momentum", ["P23"], cases=[dict(lk=a, sk=b, off=o) for a, b in (("t", "t"), ("rT", "FT")) for o in (0, 1)])
class gfus:
    """Every ns-th frequency of the large cell, from the frequency of the sample."""

    def inputs(C, lk, sk, off):
        return (C.tuple_basis(mk_list(C, lk), mk_pos2(C, sk)), tuple(C.int(f"o{k}", -3, 3) for k in range(len(lk))) if off else None)

    def result(C, basis, offsets=None):
        E = C.mod("basis.evenly_spaced_basis").EvenlySpacedTransformedPositionBasis
        o = [0] * len(basis[0]._axes) if offsets is None else offsets
        return C.tuple_basis(*[E(x.delta_x * l.fundamental_n, n=x.fundamental_n, step=l.fundamental_n, offset=q) for l, x, q in zip(basis[0]._axes, basis[1]._axes, o)])


@contract(f"{WP}:get_wavepacket_sample_fractions", ["P23"], cases=[dict(lk=a) for a in ("t", "r", "T", "tt", "rt")])
class gwsf:
    """The signed frequency of each sample over the number of samples."""

    def inputs(C, lk):
        return (mk_list(C, lk),)

    def result(C, list_basis):
        lb = fund_tr(C, list_basis)
        ns = dims_of(lb)
        nd = len(ns)
        f = C.lam([nd, flat(lb)], lambda a, *i: _pick(C, a, [S.ft_index(C, i[k], ns[k]) / ns[k] for k in range(nd)]))
        v = S.conv(C, C.cplx(f), lb, list_basis, 1)
        at = C.at(v, [nd, *dims_of(list_basis)])
        return C.lam([nd, flat(list_basis)], lambda a, *i: C.re(at(a, *i)), "f")


def _pick(C, a, vals):
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = C.ite(C.eq(a, k), lambda k=k: vals[k], (lambda r=r: r))
    return r


@contract(f"{WP}:get_wavepacket_fundamental_sample_frequencies", ["P23"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("T", "F"), ("tt", "tt"), ("rT", "Fr"))])
class gwff:
    """The wave vectors of the samples: signed frequencies of the reciprocal lattice of the large cell."""

    inputs = gfub.inputs

    def requires(C, basis):
        nonsingular(C, lattice(C, basis[1]))

    def result(C, basis):
        lb, sb = basis
        ns = [x.fundamental_n for x in lb._axes]
        nd = len(ns)
        L = recip(C, sb)

        def fn(d, *i):
            w = [S.ft_index(C, i[a], ns[a]) / ns[a] for a in range(nd)]
            return _pick(C, d, [sum(w[a] * L[a][e] for a in range(nd)) for e in range(nd)])

        return C.lam([nd, tuple(ns)], fn, "f")


def idx_of(C, lb, flat_):
    ns = [x.fundamental_n for x in lb._axes]
    ix = [C.int(f"i{k}", 0, n - 1) for k, n in enumerate(ns)]
    if not flat_:
        return tuple(ix)
    r = 0
    for i, n in zip(ix, ns):
        r = r * n + i
    return r


@contract(f"{GE}:get_wavepacket_state_vector", ["P23"], cases=[dict(lk=a, sk=b, fl=f) for a, b in (("t", "t"), ("T", "F"), ("tt", "tt")) for f in (0, 1)])
class gwsv:
    """The state of one sample, on the frequencies of the large cell that belong to it."""

    def inputs(C, lk, sk, fl):
        w = wavepacket(C, lk, sk)
        return (w, idx_of(C, w["basis"][0], fl))

    def ensures(C, out, wavepacket, idx):
        lb, sb, at = fundamental(C, wavepacket)
        ns, nd = dims_of(lb), len(lb._axes)
        if isinstance(idx, tuple):
            i = list(idx)
        else:
            i, r = [], idx
            for n in reversed(ns):
                i.insert(0, C.mod_(r, n))
                r = C.div(r, n)
        E = C.mod("basis.evenly_spaced_basis").EvenlySpacedTransformedPositionBasis
        for a in range(nd):
            x = out["basis"][a]
            C.ensure(f"axis {a}", type(x).__name__ == "EvenlySpacedTransformedPositionBasis")
            C.equal(f"cell {a}", x.delta_x, sb[a].delta_x * ns[a])
            C.equal(f"states {a}", x.n, sb[a].n)
            C.equal(f"step {a}", x.step, ns[a])
            C.equal(f"offset {a}", x.offset, signed(C, i[a], ns[a]))
        C.equal("data", out["data"], C.lam([flat(sb)], lambda *k: at(*i, *k)))


@lemma("the state of a sample is the part of the unfurled wavepacket at its frequencies", ["P23"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("tt", "tt"))])
class swl:
    def body(C, lk, sk):
        w = wavepacket(C, lk, sk)
        lb, sb = w["basis"]
        ns, nk = dims_of(lb), dims_of(sb)
        idx = idx_of(C, lb, 0)
        v = C.fn(f"{GE}:get_wavepacket_state_vector")(w, idx)
        u = C.fn(f"{WE}:unfurl_wavepacket")(w)
        big = u["basis"]
        got = C.fn("state_vector.conversion:convert_state_vector_to_basis")(v, big)
        at = C.at(u["data"], dims_of(big))
        t = 1
        for n in ns:
            t = t * n
        C.equal("part", got["data"], C.lam([flat(big)], lambda *m: C.ite([C.eq(C.mod_(m[a], ns[a]), idx[a]) for a in range(len(ns))], lambda: at(*m) * C.sqrt(t), 0)))


# ---------------------------------------------------------------- conversions
CASES2 = [dict(lk=a, sk=b, to=t, st=s) for a, b, t, s in (("F", "F", "T", "T"), ("F", "F", None, "T"), ("T", "F", "F", None), ("t", "f", None, None), ("FT", "FT", "TF", "TF"))]


def like(C, b, kinds, name):
    if kinds is None:
        return None
    return C.tuple_basis(*[C.abs_basis(f"{name}{k}", c, fn=x.fundamental_n) for k, (c, x) in enumerate(zip(kinds, b._axes))])


def flat2(b0, b1):
    return [tuple(dims_of(b0)) + tuple(dims_of(b1))]


@contract(f"{WC}:convert_wavepacket_to_basis", ["P23"], cases=CASES2 + [dict(lk="T", sk="F", to="F", st="T", nb="B"), dict(lk="TT", sk="tt", to="FF", st=None, nb="B")])
class cwb:
    """The same Bloch states for the same samples, in the requested bases."""

    has_kwargs = True

    def inputs(C, lk, sk, to, st, nb=None):
        w = wavepacket(C, lk, sk, nb=nb)
        lb = w["basis"][0] if nb is None else w["basis"][0][1]
        to = like(C, lb, to, "a")
        if nb is not None and to is not None:
            to = C.tuple_basis(w["basis"][0][0], to)
        return ((w,), dict(list_basis=to, basis=like(C, w["basis"][1], st, "b")))

    def requires(C, wavepacket, *, list_basis=None, basis=None):
        for b, x in zip(wavepacket["basis"], (list_basis, basis)):
            if x is not None:
                C.require(S.same(C, b, x))

    def result(C, wavepacket, *, list_basis=None, basis=None):
        lb = wavepacket["basis"][0] if list_basis is None else list_basis
        sb = wavepacket["basis"][1] if basis is None else basis
        return {"basis": C.tuple_basis(lb, sb), "data": flatten(C, convert2(C, wavepacket, lb, sb))}


@contract(f"{WC}:convert_wavepacket_to_position_basis", ["P23"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("T", "F"), ("FT", "fr"))])
class cwp:
    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk),)

    def result(C, wavepacket):
        return cwb.result(C, wavepacket, basis=fund_pos(C, wavepacket["basis"][1]))


@contract(f"{WC}:convert_wavepacket_to_fundamental_momentum_basis", ["P23"], cases=[dict(lk=a, sk=b, to=t) for a, b, t in (("t", "t", None), ("T", "F", "F"), ("FT", "fr", None))])
class cwm:
    has_kwargs = True

    def inputs(C, lk, sk, to):
        w = wavepacket(C, lk, sk)
        return ((w,), dict(list_basis=like(C, w["basis"][0], to, "a")))

    def requires(C, wavepacket, *, list_basis=None):
        if list_basis is not None:
            C.require(S.same(C, wavepacket["basis"][0], list_basis))

    def result(C, wavepacket, *, list_basis=None):
        return cwb.result(C, wavepacket, list_basis=list_basis, basis=fund_mom(C, wavepacket["basis"][1]))


@contract(f"{WC}:convert_wavepacket_with_eigenvalues_to_basis", ["P23"], cases=CASES2)
class cwe:
    """Converting the states leaves the energies alone."""

    has_kwargs = True

    def inputs(C, lk, sk, to, st):
        w = wavepacket(C, lk, sk, nb="B", eig=True)
        return ((w,), dict(list_basis=like(C, w["basis"][0][1], to, "a"), basis=like(C, w["basis"][1], st, "b")))

    def ensures(C, out, wavepacket, *, list_basis=None, basis=None):
        bands, l0 = wavepacket["basis"][0]
        lb = l0 if list_basis is None else list_basis
        sb = wavepacket["basis"][1] if basis is None else basis
        C.equal("basis", out["basis"], C.tuple_basis(C.tuple_basis(bands, lb), sb))
        want = convert2(C, wavepacket, C.tuple_basis(bands, lb), sb)
        C.equal("states", out["data"], flatten(C, want))
        if list_basis is None:
            C.equal("energies", out["eigenvalue"], C.cplx(wavepacket["eigenvalue"]))


@contract(f"{WC}:convert_wavepacket_to_shape", ["P23"], cases=[dict(nd=n) for n in (1, 2)])
class cws:
    """Every k-th sample is kept."""

    def inputs(C, nd):
        m = [C.size(f"m{i}") for i in range(nd)]
        s = [C.size(f"s{i}") for i in range(nd)]
        lb = C.tuple_basis(*[bb(C).FundamentalTransformedBasis(a * b) for a, b in zip(m, s)])
        sb = mk_pos2(C, "Ft"[:nd])
        return ({"basis": C.tuple_basis(lb, sb), "data": C.array("w", flat2(lb, sb))}, tuple(s))

    def ensures(C, out, wavepacket, shape):
        lb, sb = wavepacket["basis"]
        at = C.at(wavepacket["data"], dims_of(lb) + dims_of(sb))
        nd = len(shape)
        C.equal("samples", tuple(x.n for x in out["basis"][0]._axes), tuple(shape))
        C.equal("states basis", out["basis"][1], sb)
        C.equal("data", out["data"].reshape(-1), C.lam([tuple(shape) + tuple(dims_of(sb))], lambda *i: at(*[i[a] * C.div(lb[a].n, shape[a]) for a in range(nd)], *i[nd:])))


# ---------------------------------------------------------------- bands
class Once:
    """An iterable that can be iterated once, as a generator."""

    def __init__(self, xs):
        self.all = xs
        self.it = iter(xs)

    def __iter__(self):
        return self.it


def nb_of(b):
    n = b.n
    return n if type(n) is int else int(str(n).strip("<>"))


def band(C, w, j):
    (bands, lb), sb = w["basis"]
    at = C.at(w["data"], [bands.n, *dims_of(lb), *dims_of(sb)])
    return {"basis": C.tuple_basis(lb, sb), "data": C.lam(flat2(lb, sb), lambda *i: at(j, *i))}


BANDS = [dict(lk=a, sk=b) for a, b in (("t", "t"), ("T", "F"), ("FT", "tr"))]


@contract(f"{WP}:get_wavepacket_basis", ["P23"], cases=BANDS)
class gwb:
    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk, nb="B")["basis"],)

    def result(C, basis):
        return C.tuple_basis(basis[0][1], basis[1])


@contract(f"{WP}:get_wavepacket", ["P23"], cases=BANDS)
class gw:
    """The wavepacket of one band."""

    def inputs(C, lk, sk):
        w = wavepacket(C, lk, sk, nb="B")
        return (w, C.int("j", 0, w["basis"][0][0].n - 1))

    def requires(C, wavepackets, idx):
        C.require(idx < wavepackets["basis"][0][0].n)

    def result(C, wavepackets, idx):
        return band(C, wavepackets, idx)


@contract(f"{WP}:get_wavepacket_at_band", ["P23"], cases=BANDS)
class gwab:
    def inputs(C, lk, sk):
        w = wavepacket(C, lk, sk, nb="B", eig=True)
        return (w, C.int("j", 0, w["basis"][0][0].n - 1))

    def requires(C, wavepackets, idx):
        C.require(idx < wavepackets["basis"][0][0].n)

    def result(C, wavepackets, idx):
        lb = wavepackets["basis"][0][1]
        e = C.at(wavepackets["eigenvalue"], [wavepackets["basis"][0][0].n, *dims_of(lb)])
        return {**band(C, wavepackets, idx), "eigenvalue": C.lam([flat(lb)], lambda *i: e(idx, *i))}


@contract(f"{WP}:wavepacket_list_into_iter", ["P23"], cases=BANDS)
class wli:
    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk, nb="B"),)

    def ensures(C, out, wavepackets):
        n, el = C.items(out)
        C.equal("number", n, wavepackets["basis"][0][0].n)
        j = C.int("j", 0, wavepackets["basis"][0][0].n - 1)
        C.equal("band", el(j), band(C, wavepackets, j))


for _eig in (False, True):
    def _mks(eig):
        @contract(f"{WP}:get_wavepackets{'_with_eigenvalues' * eig}", ["P23"], cases=[dict(lk=a, sk=b, nb=n, sl=s) for a, b, n, s in (("t", "t", 4, (1, 3, None)), ("FT", "tr", 5, (None, None, 2)), ("T", "F", 3, (None, 2, None)), ("t", "t", 2, (1, None, None)))])
        class gws:
            """The chosen bands, in order."""

            def inputs(C, lk, sk, nb, sl):
                return (wavepacket(C, lk, sk, nb=bb(C).FundamentalBasis(nb), eig=eig), slice(*sl))

            def result(C, wavepackets, idx):
                (bands, lb), sb = wavepackets["basis"]
                rows = range(*[int(x) for x in idx.indices(nb_of(bands))])
                at = C.at(wavepackets["data"], [bands.n, *dims_of(lb), *dims_of(sb)])
                row = lambda j: j * rows.step + rows.start
                out = {"basis": C.tuple_basis(C.tuple_basis(bb(C).FundamentalBasis(len(rows)), lb), sb),
                       "data": C.lam([(len(rows), *dims_of(lb), *dims_of(sb))], lambda j, *i: at(row(j), *i))}
                if eig:
                    e = C.at(wavepackets["eigenvalue"], [bands.n, *dims_of(lb)])
                    out["eigenvalue"] = C.lam([(len(rows), *dims_of(lb))], lambda j, *i: e(row(j), *i))
                return out
    _mks(_eig)


@contract(f"{WP}:as_wavepacket_list", ["P23"], cases=[dict(m=m, it=i) for m, i in ((1, 0), (2, 0), (3, 0), (2, 1))])
class awl:
    """The wavepackets become the bands of the list, in order."""

    def inputs(C, m, it):
        lb, sb = mk_list(C, "T"), mk_pos2(C, "F")
        ws = [{"basis": C.tuple_basis(lb, sb), "data": C.array(f"w{i}", flat2(lb, sb))} for i in range(m)]
        return (Once(ws) if it else ws,)

    def result(C, wavepackets):
        m, el = C.items(getattr(wavepackets, "all", wavepackets))
        lb, sb = el(0)["basis"]
        ats = [C.at(el(i)["data"], dims_of(lb) + dims_of(sb)) for i in range(m)]
        return {"basis": C.tuple_basis(C.tuple_basis(bb(C).FundamentalBasis(m), lb), sb),
                "data": C.lam([(m, *dims_of(lb), *dims_of(sb))], lambda j, *k: sum(C.ite(C.eq(j, i), lambda i=i: ats[i](*k), 0) for i in range(m)))}


@contract(f"{WP}:get_average_eigenvalues", ["P23"], cases=[dict(lk=a) for a in ("t", "FT")])
class gae:
    """The mean energy of each band over the samples."""

    def inputs(C, lk):
        return (wavepacket(C, lk, "F" * len(lk), nb="B", eig=True),)

    def ensures(C, out, wavepackets):
        bands, lb = wavepackets["basis"][0]
        e = C.at(wavepackets["eigenvalue"], [bands.n, *dims_of(lb)])
        C.equal("basis", out["basis"], C.tuple_basis(bands, bands))

        def mean(j):
            r = C.sum(tuple(dims_of(lb)), lambda *i: e(j, *i))
            for n in dims_of(lb):
                r = r / n
            return r

        C.equal("mean", out["data"], C.lam([bands.n], mean))


# ---------------------------------------------------------------- states
@contract(f"{GE}:get_bloch_state_vector", ["P23"], cases=[dict(lk=a, sk=b, fl=f) for a, b in (("t", "t"), ("T", "F"), ("FT", "tr")) for f in (0, 1)])
class gbsv:
    """The stored Bloch state of one sample."""

    def inputs(C, lk, sk, fl):
        w = wavepacket(C, lk, sk)
        ix = [C.int(f"i{k}", 0, x.n - 1) for k, x in enumerate(w["basis"][0]._axes)]
        r = 0
        for i, x in zip(ix, w["basis"][0]._axes):
            r = r * x.n + i
        return (w, r if fl else tuple(ix))

    def ensures(C, out, wavepacket, idx):
        lb, sb = wavepacket["basis"]
        at = C.at(wavepacket["data"], dims_of(lb) + dims_of(sb))
        C.equal("state", out, {"basis": sb, "data": C.lam([flat(sb)], lambda *k: at(*unflat(C, idx, dims_of(lb)), *k))})


def unflat(C, idx, ns):
    if isinstance(idx, tuple):
        return list(idx)
    i, r = [], idx
    for n in reversed(ns):
        i.insert(0, C.mod_(r, n))
        r = C.div(r, n)
    return i


def check_sampled(C, name, b, lb, sb, i):
    ns = [x.fundamental_n for x in lb._axes]
    for a in range(len(ns)):
        x = b[a]
        C.ensure(f"{name} axis {a}", type(x).__name__ == "EvenlySpacedTransformedPositionBasis")
        C.equal(f"{name} cell {a}", x.delta_x, sb[a].delta_x * ns[a])
        C.equal(f"{name} states {a}", x.n, sb[a].fundamental_n)
        C.equal(f"{name} step {a}", x.step, ns[a])
        # the offset is only relevant modulo the number of frequencies
        q = signed(C, i[a], ns[a])
        C.equal(f"{name} offset {a}", x.offset, q)


for _fn, _e in (("get_all_wavepacket_states", False), ("get_all_eigenstates", True)):
    def _mka(fn_, eig):
        @contract(f"{GE}:{fn_}", ["P23"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("tt", "tt"), ("t", "r"))])
        class gaw:
            """One state for each sample, in order, at the frequencies of the sample."""

            def inputs(C, lk, sk):
                return (wavepacket(C, lk, sk, eig=eig),)

            def ensures(C, out, wavepacket):
                lb, sb, at = fundamental(C, wavepacket)
                ns = dims_of(lb)
                n, el = C.items(out)
                tot = 1
                for x in ns:
                    tot = tot * x
                C.equal("number", n, tot)
                ix = [C.int(f"i{k}", 0, x - 1) for k, x in enumerate(ns)]
                r = 0
                for i, x in zip(ix, ns):
                    r = r * x + i
                v = el(r)
                check_sampled(C, "state", v["basis"], lb, sb, ix)
                C.equal("data", v["data"], C.lam([flat(sb)], lambda *k: at(*ix, *k)))
                if eig:
                    C.equal("energy", v["eigenvalue"], C.at(wavepacket["eigenvalue"], ns)(*ix))
    _mka(_fn, _e)


def decompressed(C, w):
    """Entry (band, sample, frequency of the large cell) of the Bloch states."""
    (bands, lb0), sb0 = w["basis"]
    lb, sb = fund_tr(C, lb0), fund_mom(C, sb0)
    v = split2(C, w["data"], w["basis"][0], w["basis"][1])
    v = S.conv(C, v, w["basis"][0], C.tuple_basis(bands, lb), 0)
    v = S.conv(C, v, sb0, sb, 1)
    at = C.at(v, [bands.n] + dims_of(lb) + dims_of(sb))
    nd = len(lb._axes)
    ns, nk = dims_of(lb), dims_of(sb)

    def fn(b, *i):
        s, m = i[:nd], i[nd:]
        k = [C.mod_(C.div(m[a] - signed(C, s[a], ns[a]), ns[a]), nk[a]) for a in range(nd)]
        return C.ite([C.eq(C.mod_(m[a], ns[a]), s[a]) for a in range(nd)], lambda: at(b, *s, *k), 0)

    return lb, sb, fn


@contract(f"{GE}:get_bloch_states", ["P23"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("C", "F"), ("t", "r"), ("tt", "tt"))])
class gbss:
    """Every Bloch state on all the frequencies of the large cell: zero away from those of its sample."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk, nb="B"),)

    def requires(C, wavepackets):
        for x in wavepackets["basis"][0][1]._axes:
            C.require(C.eq(x.n, x.fundamental_n))

    def result(C, wavepackets):
        bands = wavepackets["basis"][0][0]
        lb, sb, fn = decompressed(C, wavepackets)
        out = supercell(C, lb, sb)
        return {"basis": C.tuple_basis(C.tuple_basis(bands, lb), out), "data": C.lam([(bands.n, *dims_of(lb), *dims_of(out))], fn)}


# ---------------------------------------------------------------- the basis of Bloch states
def bloch_parts(C, b):
    w = b._wavefunctions
    (bands, lb0), sb0 = w["basis"]
    lb, sb = fund_tr(C, lb0), fund_mom(C, sb0)
    v = split2(C, w["data"], w["basis"][0], sb0)
    v = S.conv(C, v, sb0, sb, 1)
    at = C.at(v, [bands.n] + dims_of(lb) + dims_of(sb))
    return bands, lb, sb, at, supercell(C, lb, sb)


def bloch_into(C, v, b, axis):
    """sum over bands and samples of the coefficients times the Bloch states."""
    bands, lb, sb, at, cell = bloch_parts(C, b)
    ns, nk = dims_of(lb), dims_of(sb)
    nd = len(ns)
    shape = list(v.shape)
    va = C.at(C.regroup(v, axis, [bands.n] + ns))

    def fn(*i):
        pre, m, post = i[:axis], i[axis:axis + nd], i[axis + nd:]
        s = [C.mod_(m[a], ns[a]) for a in range(nd)]
        k = [C.mod_(C.div(m[a] - signed(C, s[a], ns[a]), ns[a]), nk[a]) for a in range(nd)]
        return C.sum((bands.n,), lambda j: va(*pre, j, *s, *post) * at(j, *s, *k))

    shape[axis] = tuple(dims_of(cell))
    return S.into_fundamental(C, C.lam(shape, fn), cell, axis)


def bloch_from(C, v, b, axis):
    """Inner products with the Bloch states."""
    bands, lb, sb, at, cell = bloch_parts(C, b)
    ns, nk = dims_of(lb), dims_of(sb)
    nd = len(ns)
    f = S.from_fundamental(C, v, cell, axis)
    shape = list(f.shape)
    fa = C.at(C.regroup(f, axis, dims_of(cell)))

    def fn(*i):
        pre, j, s, post = i[:axis], i[axis], i[axis + 1:axis + 1 + nd], i[axis + 1 + nd:]
        m = lambda k: [C.mod_(k[a] * ns[a] + signed(C, s[a], ns[a]), ns[a] * nk[a]) for a in range(nd)]
        return C.sum(tuple(nk), lambda *k: C.conj(at(j, *s, *k)) * fa(*pre, *m(k), *post))

    shape[axis] = (bands.n, *ns)
    return C.lam(shape, fn)


S.EXTRA["BlochBasis"] = (bloch_into, bloch_from)


def bloch_basis(C, lk, sk):
    return C.mod(GE).BlochBasis(wavepacket(C, lk, sk, nb="B"))


@contract("basis.basis_like:convert_vector", ["P23"], name="convert_vector[bloch]",
          cases=[dict(lk=a, sk=b, nd=n, axis=x, into=i) for a, b in (("t", "t"), ("C", "F"), ("t", "r"), ("tt", "tt")) for n, x in ((1, -1), (2, 0)) for i in (0, 1) if n == 1 or a == "t" == b])
class cvb:
    """Coefficients in the basis of Bloch states."""

    def inputs(C, lk, sk, nd, axis, into):
        e = bloch_basis(C, lk, sk)
        b = C.basis("FundamentalBasis")(e.fundamental_n)
        b1, b2 = (e, b) if into else (b, e)
        dims = [C.size("m"), C.size("p")][:nd]
        dims[axis] = b1.n
        return (C.array("v", dims), b1, b2, axis)

    def requires(C, vector, initial_basis, final_basis, axis=-1):
        C.require(S.same(C, initial_basis, final_basis))

    def result(C, vector, initial_basis, final_basis, axis=-1):
        return S.conv(C, vector, initial_basis, final_basis, axis)


@contract(f"{GE}:get_fundamental_wavepacket", ["P23"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("C", "F"), ("t", "r"), ("tt", "tr"))])
class gfw:
    """The same list of Bloch states in the fundamental momentum basis."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk, nb="B"),)

    def result(C, wavepackets):
        w = wavepackets
        lb, sb = C.tuple_basis(w["basis"][0][0], fund_tr(C, w["basis"][0][1])), fund_mom(C, w["basis"][1])
        return {"basis": C.tuple_basis(lb, sb), "data": flatten(C, convert2(C, w, lb, sb))}


def stacked_idx(C, b, idx, mode=None):
    if isinstance(idx, tuple):
        return [C.mod_(i, x.n) for i, x in zip(idx, b._axes)] if mode else list(idx)
    i = []
    for x in reversed(b._axes):
        i.insert(0, C.mod_(idx, x.n))
        idx = C.div(idx, x.n)
    return i


def per_sample(C, w, i, sb):
    """Entry (band, state) of the sample i."""
    bands, lb = w["basis"][0]
    v = S.conv(C, split2(C, w["data"], w["basis"][0], w["basis"][1]), w["basis"][1], sb, 1)
    at = C.at(v, [bands.n] + dims_of(lb) + dims_of(sb))
    return C.lam([(bands.n, *dims_of(sb))], lambda b, *k: at(b, *i, *k))


@contract(f"{GE}:get_states_at_bloch_idx", ["P23"], cases=[dict(lk=a, sk=b, fl=f) for a, b in (("t", "t"), ("t", "F"), ("t", "r"), ("tt", "tt")) for f in (0, 1)])
class gsab:
    """The states of every band at one sample, on the frequencies of that sample."""

    def inputs(C, lk, sk, fl):
        w = wavepacket(C, lk, sk, nb="B")
        return (w, idx_of(C, w["basis"][0][1], fl))

    def ensures(C, out, wavepackets, idx):
        bands, lb = wavepackets["basis"][0]
        sb = fund_mom(C, wavepackets["basis"][1])
        i = stacked_idx(C, lb, idx)
        C.equal("bands", out["basis"][0], bands)
        check_sampled(C, "state", out["basis"][1], lb, sb, i)
        C.equal("data", out["data"], per_sample(C, wavepackets, i, sb))


@contract(f"{GE}:BlochBasis.vectors_at_bloch_k", ["P23"], cases=[dict(lk=a, sk=b, fl=f) for a, b in (("t", "t"), ("C", "F"), ("tt", "tr")) for f in (0, 1)])
class vabk:
    """The states of every band at one sample, as stored."""

    def inputs(C, lk, sk, fl):
        e = bloch_basis(C, lk, sk)
        lb = e._wavefunctions["basis"][0][1]
        return (e, idx_of(C, lb, fl) if fl else tuple(C.int(f"i{k}") for k in range(len(lk))))

    def result(C, self, idx):
        w = self._wavefunctions
        return {"basis": C.tuple_basis(w["basis"][0][0], w["basis"][1]), "data": per_sample(C, w, stacked_idx(C, w["basis"][0][1], idx, "wrap"), w["basis"][1])}


@contract(f"{GE}:BlochBasis.basis_at_bloch_k", ["P23"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("tt", "tr"))])
class babk:
    """The basis of the states of one sample."""

    def inputs(C, lk, sk):
        return (bloch_basis(C, lk, sk), tuple(C.int(f"i{k}") for k in range(len(lk))))

    def ensures(C, out, self, idx):
        C.ensure("class", type(out).__name__ == "ExplicitStackedBasisWithLength")
        C.equal("vectors", out.vectors, vabk.result(C, self, idx))


@contract(f"{GE}:get_bloch_hamiltonian", ["P23"], cases=[dict(lk=a, sk=b) for a, b in (("T", "F"), ("tt", "tr"))])
class gbh:
    """The band energies, as a list of diagonal operators."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk, nb="B", eig=True),)

    def result(C, wavepackets):
        bands, lb = wavepackets["basis"][0]
        return {"basis": C.tuple_basis(bands, C.tuple_basis(lb, lb)), "data": wavepackets["eigenvalue"]}


@contract(f"{GE}:get_full_bloch_hamiltonian", ["P23"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("tt", "tr"))])
class gfbh:
    """Diagonal in the basis of Bloch states, with the band energies."""

    def inputs(C, lk, sk):
        return (wavepacket(C, lk, sk, nb="B", eig=True),)

    def ensures(C, out, wavefunctions):
        for k in (0, 1):
            C.ensure("class", type(out["basis"][k]).__name__ == "BlochBasis")
            w = out["basis"][k].wavefunctions
            bands, lb = wavefunctions["basis"][0]
            C.equal("wavefunctions", w["data"], wavefunctions["data"])
            C.equal("list", w["basis"][0], C.tuple_basis(bands, fund_tr(C, lb)))
            C.equal("states", w["basis"][1], wavefunctions["basis"][1])
        C.equal("energies", out["data"], wavefunctions["eigenvalue"])


# ---------------------------------------------------------------- band structures
def ham_generator(C, nd, b):
    """H(k): hermitian, a polynomial in the bloch fractions."""
    from contracts.eigen import herm

    hs = [herm(C, b, f"H{j}") for j in range(nd + 2)]
    ats = [C.at(h["data"], [b.n, b.n]) for h in hs]

    def gen(k):
        q = [k[d] for d in range(nd)]

        def fn(i, j):
            r = ats[0](i, j) + q[0] * q[0] * ats[nd + 1](i, j)
            for d in range(nd):
                r = r + q[d] * ats[d + 1](i, j)
            return r
        return {"basis": C.tuple_basis(b, b), "data": C.ungroup(C.lam([b.n, b.n], fn), 0, 2)}
    return gen


def mk_bands(C, kind, b):
    if kind == "fund":
        return bb(C).FundamentalBasis(C.size("B", hi=b.n))
    n, s, o = C.size("Bn"), C.size("Bs"), C.int("Bo", lo=0)
    C.require(C.le(o + s * (n - 1), b.n - 1))
    return C.mod("basis.evenly_spaced_basis").EvenlySpacedBasis(n, s, o)


def check_bands(C, out, gen, fractions, m, band, b):
    nb = band.n
    off, step = (band.offset, band.step) if type(band).__name__ == "EvenlySpacedBasis" else (0, 1)
    i, a = C.int("i", 0, m - 1), C.int("a", 0, nb - 1)
    h = gen(fractions(i))
    full = C.fn("state_vector.eigenstate_calculation:calculate_eigenvectors_hermitian")(h)
    c = off + step * a
    C.equal("energy", C.at(out["eigenvalue"], [nb, m])(a, i), C.at(full["eigenvalue"])(c))
    data = C.at(out["data"], [nb, m, b.n])
    if C.mode == "sym":
        fa = C.at(full["data"], [b.n, b.n])
        C.equal("state", C.lam([b.n], lambda k: data(a, i, k)), C.lam([b.n], lambda k: fa(c, k)))
    else:  # (follows from the two above and the contract of calculate_eigenvectors_hermitian)
        hm, e = C.at(h["data"], [b.n, b.n]), C.at(out["eigenvalue"], [nb, m])(a, i)
        C.equal("eigenvalue equation", C.lam([b.n], lambda r: C.sum((b.n,), lambda k: hm(r, k) * data(a, i, k))), C.lam([b.n], lambda r: e * data(a, i, r)))
    a2 = C.int("a2", 0, nb - 1)
    C.equal("orthonormal", C.sum((b.n,), lambda k: C.conj(data(a, i, k)) * data(a2, i, k)), C.delta(a, a2))


@contract(f"{WP}:generate_uneven_wavepacket", ["P23"], cases=[dict(nd=n, band=b) for n in (1, 2) for b in ("fund", "even")])
class guw:
    """For every sample the requested eigenstates, in order of energy, of the hamiltonian at that bloch k."""

    def inputs(C, nd, band):
        b = C.tuple_basis(*[bb(C).FundamentalBasis(C.size(f"S{k}")) for k in range(nd)])
        f = C.array("f", [nd, C.size("m")], dt="f")
        lb = C.mod("basis.block_fraction_basis").ExplicitBlockFractionBasis(f)
        return (ham_generator(C, nd, b), lb, mk_bands(C, band, b))

    def ensures(C, out, hamiltonian_generator, list_basis, band_basis):
        b = out["basis"][1]
        C.equal("list", out["basis"][0][0], band_basis)
        C.ensure("samples", out["basis"][0][1] is list_basis)
        f = list_basis.bloch_fractions
        check_bands(C, out, hamiltonian_generator, lambda i: f[:, i], list_basis.n, band_basis, b)


@contract(f"{WP}:generate_wavepacket", ["P23"], cases=[dict(lk=l, band=b) for l in ("t", "tt", "r") for b in ("fund", "even")])
class gw:
    """For every sample of the Brillouin zone the requested eigenstates of the hamiltonian at that bloch k."""

    def inputs(C, lk, band):
        b = C.tuple_basis(*[bb(C).FundamentalBasis(C.size(f"S{k}")) for k in range(len(lk))])
        return (ham_generator(C, len(lk), b), mk_list(C, lk), mk_bands(C, band, b))

    def ensures(C, out, hamiltonian_generator, list_basis, band_basis):
        b = out["basis"][1]
        C.equal("list", out["basis"][0], C.tuple_basis(band_basis, list_basis))
        f = C.fn(f"{WP}:get_wavepacket_sample_fractions")(list_basis)
        check_bands(C, out, hamiltonian_generator, lambda i: f[:, i], list_basis.n, band_basis, b)


@contract(f"{GE}:get_tight_binding_state", ["P23"], cases=[dict(lk=a, sk=b, o=o) for a, b in (("t", "t"), ("t", "r"), ("tt", "tt")) for o in (0, 1)])
class gtbs:
    """The state of one sample in the unit cell around the origin (by default where it is largest), zero elsewhere."""

    bounded = "the cells are written through an array of computed indices, which the engine does not follow"

    def inputs(C, lk, sk, o):
        w = wavepacket(C, lk, sk)
        idx = idx_of(C, w["basis"][0], 0)
        return (w, idx, tuple(C.int(f"o{k}") for k in range(len(lk)))) if o else (w, idx)

    def ensures(C, out, wavepacket, idx=0, origin=None):
        import numpy as np

        lb, sb = wavepacket["basis"]
        cell = fund_pos(C, sb)
        s = C.fn(f"{GE}:get_wavepacket_state_vector")(wavepacket, idx)
        s = C.fn("state_vector.conversion:convert_state_vector_to_position_basis")(s)
        dims = [x.fundamental_n for x in s["basis"]._axes]
        data = s["data"].reshape(dims)
        got = out["data"].reshape(dims)
        keep = np.nonzero(got)
        C.equal("basis", out["basis"], s["basis"])
        C.equal("values", got[keep], data[keep])
        big = np.array(np.unravel_index(np.argmax(abs(data)), dims))
        nk = [x.n for x in cell._axes]
        for a in range(len(dims)):
            o = origin[a] if origin is not None else (big[a] + nk[a] // 2) % nk[a] - nk[a] // 2
            want = (np.arange(nk[a]) + o - nk[a] // 2) % dims[a]
            used = np.unique(keep[a])
            C.ensure("cell", set(used) <= set(want))
            C.ensure("all of it", len(used) == len(set(want)) or np.isclose(np.take(data, list(want), a), 0).any())
