"""Localisation by Wannier90: what the program is given describes the wavepackets, and what it returns is read as the operator.

The formats are those of the user guide of Wannier90: M_mn = <u_m k | u_n k+b> with m running fastest, A_mn = <psi_m k | g_n>,
U_mn with m running fastest; lengths in angstrom, k points in fractions of the reciprocal lattice."""
import pathlib
import re
import tempfile
from unittest import mock

from contracts._common import *
from contracts.localization import banded, fundamental_list, overlaps, projections
from contracts.hamiltonian import mk_pos2
from contracts.wavepacket import bb, mk_list, signed

W9 = "wavepacket.localization._wannier90"
TEXT = "files of text: read back at sampled wavepackets"


@contract(f"{W9}:_get_offset_bloch_state", ["P30"], cases=[dict(k=k) for k in ("t", "tt", "ttt", "F", "FT")])
class gob:
    """The periodic part of the state whose wavevector is larger by the reciprocal lattice vector: its coefficients move down by it."""

    def inputs(C, k):
        b = mk_pos2(C, k)
        return ({"basis": b, "data": C.array("v", [tuple(dims_of(b))])}, tuple(C.int(f"o{i}") if i < len(k) else 0 for i in range(3)))

    def result(C, state, offset):
        d = dims_of(state["basis"])
        at = C.at(state["data"], d)
        return {"basis": state["basis"], "data": C.lam([tuple(d)], lambda *i: at(*[C.mod_(x + o, n) for x, o, n in zip(i, offset, d)]))}


def stacked_of(C, idx, shape):
    out = []
    for n in reversed(shape):
        out.insert(0, C.mod_(idx, n))
        idx = C.div(idx, n)
    return out


def flat_of(C, ix, shape):
    r = 0
    for i, n in zip(ix, shape):
        r = r * n + C.mod_(i, n)
    return r


@contract(f"{W9}:x0_symmetry_op", ["P30"], cases=[dict(nd=n, axis=a) for n in (1, 2, 3) for a in range(n)])
class xso:
    """The point mirrored along the axis."""

    def inputs(C, nd, axis):
        shape = tuple(C.size(f"n{k}") for k in range(nd))
        return (flat_of(C, [C.int(f"i{k}", 0, n - 1) for k, n in enumerate(shape)], shape), shape, axis)

    def result(C, idx, shape, axis):
        s = stacked_of(C, idx, shape)
        s[axis] = -s[axis]
        return flat_of(C, s, shape)


@contract(f"{W9}:x0x1_symmetry_op", ["P30"], cases=[dict(nd=n, axes=a) for n, a in ((2, (0, 1)), (2, (1, 0)), (3, (0, 1)), (3, (2, 0)), (3, (1, 2)))])
class xxso:
    """The point with its coordinates along the two axes exchanged."""

    def inputs(C, nd, axes):
        shape = tuple(C.size(f"n{k}") for k in range(nd))
        return (flat_of(C, [C.int(f"i{k}", 0, n - 1) for k, n in enumerate(shape)], shape), shape, axes)

    def result(C, idx, shape, axes):
        s = stacked_of(C, idx, shape)
        s[axes[0]], s[axes[1]] = s[axes[1]], s[axes[0]]
        return flat_of(C, s, shape)


# ---------------------------------------------------------------- an independent reader of the files
def numbers(C, rows):
    return [[C.number(x) for x in r.split()] for r in rows]


def between(text, name):
    m = re.search(rf"^\s*begin\s+{name}\s*$(.*?)^\s*end\s+{name}\s*$", text, re.S | re.M | re.I)
    return [x for x in m.group(1).strip().splitlines() if x.strip()]


def keyword(text, name):
    """The value of a keyword (':' , '=' or blanks between the two), None when it is not given"""
    m = re.findall(rf"^\s*{name}\s*[:=]?\s*(.+?)\s*$", text, re.M | re.I)
    return m[-1] if m else None


def check_lattice(C, text, sb):
    """The vectors of the cell in angstrom, one for each line; further ones are orthogonal to them."""
    got = numbers(C, between(text, "unit_cell_cart"))
    nd = len(dims_of(sb))
    for k, x in enumerate(sb._axes):
        for j in range(nd):
            C.equal(f"lattice vector {k} {j}", got[k][j], x.delta_x[j] * 10 ** 10)
    for k in range(nd, 3):
        for j in range(nd):
            C.equal("other vectors", (got[k][j], got[j][k]), (0.0, 0.0))
        C.equal("other vectors are not zero", repr(float(got[k][k]) != 0), "True")


def check_points(C, text, lb):
    """The k points are the fractions of the samples, in the order of the samples."""
    ns = dims_of(lb)
    C.equal("grid", keyword(text, "mp_grid").split(), [str(int(n)) for n in [*ns, 1, 1][:max(3, len(ns))]])
    got = numbers(C, between(text, "kpoints"))
    tot = 1
    for n in ns:
        tot = tot * n
    C.equal("number of points", (len(got), len(got[0])), (tot, 3))
    for k in range(tot):
        s = stacked_of(C, k, ns)
        for a in range(3):
            C.equal(f"k point {k} {a}", got[k][a], signed(C, s[a], ns[a]) / ns[a] if a < len(ns) else 0.0)


@contract(f"{W9}:_build_real_lattice_block", ["P30"], cases=[dict(nd=n) for n in (1, 2, 3)])
class brl:
    """The vectors of the cell in angstrom."""

    text = True

    def inputs(C, nd):
        C.vars_sb = mk_pos2(C, "f" * nd)
        return (C.vars_sb.delta_x_stacked,)

    def ensures(C, out, delta_x):
        check_lattice(C, out, C.vars_sb)


LISTS = [dict(lk=a, sk=b) for a, b in (("t", "t"), ("t", "F"), ("tt", "tr"), ("tt", "FT"), ("ttt", "ttt"))]


@contract(f"{W9}:_build_k_points_block", ["P30"], cases=[dict(lk=a) for a in ("t", "tt", "ttt")])
class bkp:
    """The fractions of the samples, in their order, and the shape of the grid."""

    bounded = TEXT

    def inputs(C, lk):
        return (mk_list(C, lk),)

    def ensures(C, out, list_basis):
        check_points(C, out, list_basis)


def options(C, projection, **kw):
    return C.mod(W9).Wannier90Options(projection=projection, **kw)


def bands_only(C, n):
    return {"basis": C.tuple_basis(bb(C).FundamentalBasis(n))}


def check_win(C, text, w, o, setup):
    (bands, lb), sb = w["basis"]
    check_lattice(C, text, sb)
    check_points(C, text, lb)
    true = lambda v: v is not None and v.strip().lower() in (".true.", "true", "t")
    given = o.projection.get("data", None) is not None
    C.equal("only sets up", repr(true(keyword(text, "postproc_setup"))), repr(setup))
    C.equal("guess from the projections", repr((true(keyword(text, "auto_projections")), true(keyword(text, "use_bloch_phases")))), repr((given, not given)))
    C.equal("matrices are written", repr(true(keyword(text, "write_u_matrices"))), "True")
    C.equal("number of states", keyword(text, "num_wann"), str(int(bands.n)))
    C.equal("iterations", (float(keyword(text, "num_iter")), float(keyword(text, "conv_window")), float(keyword(text, "conv_tol"))), (float(o.num_iter), float(o.convergence_window), float(o.convergence_tolerance)))


@contract(f"{W9}:_build_win_file", ["P30"], cases=[dict(c, setup=s, given=g) for c in LISTS[:3] for s in (0, 1) for g in (0, 1)])
class bwf:
    """The input describes the lattice, the samples, the number of states and the options."""

    bounded = TEXT
    has_kwargs = True

    def inputs(C, lk, sk, setup, given):
        w, _ = banded(C, lk, sk, "bands")
        n = w["basis"][0][0].n
        p = projections(C, w, n) if given else bands_only(C, n)
        o = options(C, p, num_iter=C.size("iter"), convergence_window=C.size("window"), convergence_tolerance=C.real("tol", pos=True))
        return (w,), dict(postproc_setup=bool(setup), options=o)

    def ensures(C, out, wavepackets, *, postproc_setup=False, options):
        check_win(C, out, wavepackets, options, postproc_setup)


def pair(C, ns, name, nd=3):
    """Two samples and a reciprocal lattice vector."""
    point = lambda a: 1 + flat_of(C, [C.int(f"{name}{a}{k}", 0, n - 1) for k, n in enumerate(ns)], ns)
    return (point("k"), point("l"), *[C.int(f"{name}_{a}", *((-2, 2) if C.mode == "con" else ())) if a < nd else 0 for a in range(3)])


def nnkp_of(n, ks):
    rows = "\n".join("  ".join(f"{x}" for x in k) for k in ks)
    other = "begin kpoints\n     1\n  0.00000000  0.00000000  0.00000000\nend kpoints\n"
    return f"File written on  1Jan2020 at 10:00:00\n\ncalc_only_A  :  F\n\n{other}\nbegin nnkpts\n   {n}\n{rows}\nend nnkpts\n\nbegin exclude_bands\n   0\nend exclude_bands\n"


def nnkp(C, nk, name="g", nd=3):
    """The file of neighbours Wannier90 writes, with any points and reciprocal lattice vectors."""
    n = C.size(f"{name}nn")
    ks = [(k + 1, C.int(f"{name}k{k}_{j}", 1, nk), *[C.int(f"{name}{k}_{j}_{a}", -2, 2) if a < nd else 0 for a in range(3)]) for k in range(nk) for j in range(n)]
    rows = "\n".join("".join(f"{x:6d}" if i < 2 else f"{x:4d}" for i, x in enumerate(k)) for k in ks)
    other = "begin kpoints\n     1\n  0.00000000  0.00000000  0.00000000\nend kpoints\n"
    return n, ks, f"File written on  1Jan2020 at 10:00:00\n\ncalc_only_A  :  F\n\n{other}\nbegin nnkpts\n{n:4d}\n{rows}\nend nnkpts\n\nbegin exclude_bands\n   0\nend exclude_bands\n"


@contract(f"{W9}:_parse_nnk_points_file", ["P30"], cases=[dict(nd=n) for n in (1, 2, 3)])
class pnk:
    """The number of neighbours of a point, and the pairs of points with the reciprocal lattice vector between them."""

    text = True

    def inputs(C, nd):
        n, ks = C.size("nn"), [tuple(C.int(f"{j}_{a}") for a in range(5)) for j in range(2 * nd)]
        C.vars_nn = (n, ks, nnkp_of(n, ks))
        return (C.vars_nn[2],)

    def ensures(C, out, nnk_points_file):
        C.equal("neighbours", (out[0], [tuple(k) for k in out[1]]), (C.vars_nn[0], C.vars_nn[1]))


def check_mmn(C, text, w, nn, ignore=()):
    """M_mn = <u_m k1 | u_n k2 + G> for each pair of neighbours, m running fastest."""
    n, ks, _ = nn
    lb, bands = w["basis"][0][1], w["basis"][0][0]
    tot = 1
    for x in dims_of(lb):
        tot = tot * x
    rows = text.splitlines()[1:]
    for got, want in zip(rows[0].split(), [bands.n, tot, n], strict=True):
        C.equal("header of the overlaps", C.number(got), want)
    rows = [r for r in rows[1:] if r.strip()]
    size = 1 + bands.n * bands.n
    C.equal("number of overlaps", len(rows), size * len(ks))
    for j, k in enumerate(ks):
        check_block(C, f"pair {j}", rows[j * size:(j + 1) * size], w, k, ignore)


def check_block(C, name, block, w, k, ignore):
    lb, sb, at = partly(C, w, ignore)
    n = w["basis"][0][0].n
    ns, nk = dims_of(lb), dims_of(sb)
    C.equal(f"{name}: number", len(block), 1 + n * n)
    for got, want in zip(block[0].split(), k, strict=True):
        C.equal(f"{name}: samples", C.number(got), want)
    s, t = stacked_of(C, k[0] - 1, ns), stacked_of(C, k[1] - 1, ns)
    G = [0 if a in ignore else k[2 + a] for a in range(len(nk))]
    got = numbers(C, block[1:])
    for b in range(n):
        for a in range(n):
            m = C.sum(tuple(nk), lambda *g: C.conj(at(a, *s, *g)) * at(b, *t, *[C.mod_(x + o, q) for x, o, q in zip(g, G, nk)]))
            r = got[b * n + a]
            C.equal(f"{name}: overlap {a} {b}", r[0] + 1j * r[1], m)


def partly(C, w, ignore):
    """The coefficients of the periodic parts: by wavevector, except along the axes which are ignored."""
    bands, lb = w["basis"][0]
    sb = w["basis"][1]
    mom = fund_mom(C, sb)
    sb2 = C.tuple_basis(*[a if i in ignore else b for i, (a, b) in enumerate(zip(sb._axes, mom._axes))])
    v = S.conv(C, split2(C, w["data"], w["basis"][0], sb), sb, sb2, 1)
    return lb, sb2, C.at(v, [bands.n] + dims_of(lb) + dims_of(sb2))


def check_amn(C, text, w, p):
    """A_mn = <psi_m k | g_n>."""
    bands, lb = w["basis"][0]
    ns = dims_of(lb)
    _, _, o = overlaps(C, w, p)
    tot = 1
    for x in ns:
        tot = tot * x
    m = p["basis"][0].n
    rows = text.splitlines()[1:]
    C.equal("header of the projections", [int(x) for x in rows[0].split()], [int(x) for x in (bands.n, tot, m)])
    got = {}
    for r in rows[1:]:
        if r.strip():
            r = r.split()
            got[tuple(int(x) for x in r[:3])] = float(r[3]) + 1j * float(r[4])
    C.equal("number of projections", len(got), bands.n * tot * m)
    for k in range(tot):
        s = stacked_of(C, k, ns)
        for b in range(bands.n):
            for j in range(m):
                C.equal(f"projection {b} {j} {k}", got[b + 1, j + 1, k + 1], o(s, b, j))


MOMENTUM = [dict(lk=a, sk=b) for a, b in (("t", "t"), ("tt", "tt"))]


BLOCKS = [dict(lk=a, sk=b, nb=n, ignore=i) for a, b, n, i in (("t", "t", 1, ()), ("t", "t", 3, ()), ("tt", "tt", 1, ()), ("tt", "tt", 2, ()), ("tt", "tf", 2, (1,)), ("ttt", "ttt", 1, ()), ("ttt", "ttf", 2, (2,)))]


def of_bands(C, lk, sk, nb):
    lb, sb = mk_list(C, lk), mk_pos2(C, sk)
    return {"basis": C.tuple_basis(C.tuple_basis(bb(C).FundamentalBasis(nb), lb), sb), "data": C.array("w", [(nb, *dims_of(lb), *dims_of(sb))])}


@contract(f"{W9}:_build_mmn_file_block", ["P30"], cases=BLOCKS)
class bmfb:
    """The overlaps of the periodic parts of two neighbouring samples, <u_m k1 | u_n k2 + G> with m running fastest."""

    text = True
    has_kwargs = True

    def inputs(C, lk, sk, nb, ignore):
        w = of_bands(C, lk, sk, nb)
        return (w, pair(C, dims_of(w["basis"][0][1]), "g", len(lk))), dict(options=options(C, bands_only(C, nb), ignore_axes=ignore))

    def ensures(C, out, wavepackets, k, *, options):
        check_block(C, "pair", out.splitlines(), wavepackets, k, options.ignore_axes)


@contract(f"{W9}:_build_mmn_file", ["P30"], cases=BLOCKS)
class bmf:
    """The overlaps of the periodic parts of neighbouring samples (two pairs)."""

    text = True
    has_kwargs = True

    def inputs(C, lk, sk, nb, ignore):
        w = of_bands(C, lk, sk, nb)
        n, ks = C.size("nn"), [pair(C, dims_of(w["basis"][0][1]), x, len(lk)) for x in "gh"]
        C.vars_nn = (n, ks, nnkp_of(n, ks))
        return (w, C.vars_nn[2]), dict(options=options(C, bands_only(C, nb), ignore_axes=ignore))

    def ensures(C, out, wavepackets, nnk_points_file, *, options):
        check_mmn(C, out, wavepackets, C.vars_nn, options.ignore_axes)


@contract(f"{W9}:_build_amn_file", ["P30"], cases=[dict(c, more=m) for c in MOMENTUM for m in ("bands", "projections")])
class baf:
    """The overlaps of the bloch states of each sample with the projections."""

    bounded = TEXT
    samples = 6

    def inputs(C, lk, sk, more):
        w, m = banded(C, lk, sk, more)
        return (w, projections(C, w, m))

    def ensures(C, out, wavepackets, projections):
        check_amn(C, out, wavepackets, projections)


def umat(C, lb, n, m, name="U"):
    """The file of matrices Wannier90 writes, with any matrices: U(k, band, state)."""
    ns = dims_of(lb)
    u = C.array(name, [(*ns, m, n)])
    at = C.at(u, [*ns, m, n])
    tot = 1
    for x in ns:
        tot = tot * x
    out = [" written on  1Jan2020 at 10:00:00", f"{tot:12d}{n:12d}{m:12d}"]
    for k in range(tot):
        s = stacked_of(C, k, ns)
        out += ["", "".join(f"{float(signed(C, x, y) / y) + 0.0:15.10f}" for x, y in zip(s, ns)) + f"{0.0:15.10f}" * (3 - len(ns))]
        for j in range(n):
            for b in range(m):
                x = complex(at(*s, b, j))
                out.append(f"{x.real:25.17e}{x.imag:25.17e}")
    return "\n".join(out) + "\n", lambda s, b, j: at(*s, b, j)


def operator_of(C, lb, L, bands, u):
    return {"basis": C.tuple_basis(lb, C.tuple_basis(L, bands)), "data": C.lam([(*dims_of(lb), L.n, bands.n)], lambda *r: u(r[:-2], r[-1], r[-2]))}


@contract(f"{W9}:_get_localization_operator_from_u_mat_file", ["P30"], cases=[dict(lk=a) for a in ("t", "tt", "ttt")])
class glu:
    """The matrix of each sample, from the bands to the localised states."""

    bounded = TEXT

    def inputs(C, lk):
        lb = mk_list(C, lk)
        n = C.size("B")
        C.vars_u = umat(C, lb, n, n)
        return (C.tuple_basis(bb(C).FundamentalBasis(n), lb), bb(C).FundamentalTransformedBasis(n), C.vars_u[0])

    def result(C, wavepackets_basis, projection_basis, u_matrix_file):
        return operator_of(C, wavepackets_basis[1], projection_basis, wavepackets_basis[0], C.vars_u[1])


class Program:
    """Stands in for Wannier90 in the directory it is run in: reads what it is given, writes what it would answer."""

    def __init__(self, C, check, nn, u):
        self.C, self.check, self.nn, self.u, self.runs = C, check, nn, u, 0

    def __call__(self, command, *a, cwd=None, **kw):
        assert command[0] == "wannier90.x", command
        d = pathlib.Path(cwd)
        seed = command[1].removesuffix(".win")
        text = (d / f"{seed}.win").read_text()
        self.runs += 1
        if self.runs % 2:
            self.check("setup", text, None, None, self.runs // 2)
            (d / f"{seed}.nnkp").write_text(self.nn[2])
        else:
            amn = d / f"{seed}.amn"
            self.check("run", text, (d / f"{seed}.mmn").read_text(), amn.read_text() if amn.exists() else None, self.runs // 2 - 1)
            (d / f"{seed}_u.mat").write_text(self.u[self.runs // 2 - 1][0])
        return mock.DEFAULT


def running(C, check, nn, us, f, *a, **kw):
    p = Program(C, check, nn, us)
    with mock.patch("subprocess.run", p), mock.patch("builtins.input", side_effect=AssertionError("asks the user to run wannier90")), tempfile.TemporaryDirectory() as d, mock.patch.object(tempfile, "tempdir", d):
        out = f(*a, **kw)
    C.equal("runs", p.runs, 2 * len(us))
    return out


def given_to(C, w, o, nn, p):
    def check(stage, win, mmn, amn, j):
        check_win(C, win, w, o, stage == "setup")
        if stage == "run":
            check_mmn(C, mmn, w, nn, o.ignore_axes)
            C.equal("projections given", repr(amn is not None), repr(p is not None))
            if p is not None:
                check_amn(C, amn, w, p)
    return check


def setting(C, lk, sk, given, ignore):
    w, _ = banded(C, lk, sk, "bands")
    bands, lb = w["basis"][0]
    tot = 1
    for x in dims_of(lb):
        tot = tot * x
    nn = nnkp(C, tot, nd=len(lk))
    p = projections(C, w, bands.n) if given else None
    o = options(C, p if given else bands_only(C, bands.n), ignore_axes=ignore)
    return w, nn, p, o, umat(C, lb, bands.n, bands.n)


CASES = [dict(lk=a, sk=b, given=g, ignore=i) for a, b, g, i in (("t", "t", 1, ()), ("t", "F", 0, ()), ("t", "F", 1, ()), ("tt", "tr", 1, ()), ("tt", "FT", 0, ()), ("tt", "tf", 0, (1,)), ("tt", "Ft", 0, (0,)))]


@lemma("Wannier90[operator]", ["P30"], cases=[dict(c, options=o) for c in CASES for o in (1, 0) if o or not c["given"] and not c["ignore"]])
class w90op:
    """The program is given the wavepackets it localises, and the matrices it finds are the operator (for whatever it finds)."""

    bounded = TEXT
    samples = 5

    def body(C, lk, sk, given, ignore, options):
        w, nn, p, o, u = setting(C, lk, sk, given, ignore)
        f = C.fn(f"{W9}:get_localization_operator_wannier90")
        out = running(C, given_to(C, w, o, nn, p), nn, [u], f, w, **(dict(options=o) if options else {}))
        (bands, lb) = w["basis"][0]
        if options:
            C.equal("operator", out, operator_of(C, lb, o.projection["basis"][0], bands, u[1]))
        else:
            C.equal("number of localised states", out["basis"][1][0].n, bands.n)
            C.equal("operator", out, operator_of(C, lb, out["basis"][1][0], bands, u[1]))


@lemma("Wannier90[wavepackets]", ["P30"], cases=CASES)
class w90w:
    """The localised wavepackets are the sums over the bands with the matrices found."""

    bounded = TEXT
    samples = 4

    def body(C, lk, sk, given, ignore):
        w, nn, p, o, u = setting(C, lk, sk, given, ignore)
        out = running(C, given_to(C, w, o, nn, p), nn, [u], C.fn(f"{W9}:localize_wavepacket_wannier90"), w, options=o)
        (bands, lb), sb = w["basis"]
        L = o.projection["basis"][0]
        nd = len(dims_of(lb))
        at = C.at(w["data"], [bands.n] + dims_of(lb) + dims_of(sb))
        C.equal("wavepackets", out, {"basis": C.tuple_basis(C.tuple_basis(L, lb), sb),
                                     "data": C.lam([(L.n, *dims_of(lb), *dims_of(sb))], lambda j, *r: C.sum((bands.n,), lambda b: u[1](r[:nd], b, j) * at(b, *r)))})


@lemma("Wannier90[individual bands]", ["P30"], cases=[dict(lk=a, sk=b) for a, b in (("t", "t"), ("tt", "tr"), ("ttt", "ttf"))])
class w90i:
    """Each band is localised by itself: the operator is diagonal, with the phases found for each band."""

    bounded = TEXT
    samples = 4

    def body(C, lk, sk):
        w, _ = banded(C, lk, sk, "bands")
        (bands, lb), sb = w["basis"]
        tot = 1
        for x in dims_of(lb):
            tot = tot * x
        nn = nnkp(C, tot, nd=len(lk))
        ns = dims_of(lb)
        at = C.at(w["data"], [bands.n] + ns + dims_of(sb))
        one = bb(C).FundamentalBasis(1)
        us = [umat(C, lb, 1, 1, f"U{b}") for b in range(bands.n)]

        def check(stage, win, mmn, amn, j):
            v = {"basis": C.tuple_basis(C.tuple_basis(one, lb), sb), "data": C.lam([(1, *ns, *dims_of(sb))], lambda _, *r: at(j, *r))}
            check_lattice(C, win, sb)
            check_points(C, win, lb)
            C.equal("one state", keyword(win, "num_wann"), "1")
            if stage == "run":
                check_mmn(C, mmn, v, nn, (2,))

        out = running(C, check, nn, us, C.fn(f"{W9}:get_localization_operator_wannier90_individual_bands"), w)
        C.equal("operator", out, {"basis": C.tuple_basis(lb, C.tuple_basis(bands, bands)),
                                  "data": C.lam([(*ns, bands.n, bands.n)], lambda *r: us[int(r[-1])][1](r[:-2], 0, 0) if C.mode != "sym" and r[-1] == r[-2] else 0)})
