"""Periodic displacements between the points of a grid, and the isotropic kernels made of functions of them."""
from contracts._common import *
from contracts.kernel import iso_full, tup2

OB = "operator.build"
KB = "kernel.build"
KG = "kernel.gaussian"


def length(C, v):
    at = C.at(v)
    n = len(v)
    s = 0
    for i in range(n):
        s = s + at(i) * at(i)
    return C.sqrt(s)


def line(C, nd, name="x", kind="f"):
    """An axis with a lattice vector in nd dimensions."""
    B = C.mod("basis.basis")
    d = C.const_array([C.real(f"{name}d{i}", pos=(nd == 1)) for i in range(nd)])
    N = C.size(f"{name}N")
    return B.FundamentalPositionBasis(d, N) if kind == "f" else B.TransformedPositionBasis(d, C.size(f"{name}n", hi=N), N)


def ortho(C, kinds, name="p"):
    """A stacked basis of a rectangular cell aligned with the axes of space."""
    B = C.mod("basis.basis")
    nd = len(kinds)
    ax = []
    for k, kind in enumerate(kinds):
        d = C.const_array([C.real(f"{name}d{k}", pos=True) if i == k else 0.0 for i in range(nd)])
        N = C.size(f"{name}N{k}")
        ax.append(B.FundamentalPositionBasis(d, N) if kind == "f" else B.TransformedPositionBasis(d, C.size(f"{name}n{k}", hi=N), N))
    return C.tuple_basis(*ax)


def no_ties(C, o, ns):
    """Samples without points exactly half a cell apart, where rounding decides between -L/2 and L/2 (the proof is exact)."""
    if C.mode == "con" and not o:
        for n in ns:
            C.require(n % 2 == 1)


def wrapped(C, x, L):
    """the representative of x modulo L in [-L/2, L/2)"""
    return C.rem(x + L / 2, L) - L / 2


def fbasis(C, b):
    B = C.mod("basis.basis")
    return B.FundamentalPositionBasis(b.delta_x, b.fundamental_n)


@contract(f"{OB}:get_displacements_matrix_nx", ["P20"], cases=[dict(k=k) for k in ("F", "f", "t", "r", "ff")])
class dmn:
    """n_i - n_j around the cell: the representative in [-n/2, n/2)."""

    def inputs(C, k):
        return (mk(C, k, "A"),)

    def result(C, basis):
        n = basis.fundamental_n
        off = C.div(n, 2)
        return C.lam([n, n], lambda i, j: C.mod_(i - j + off, n) - off, dt="i")


@contract(f"{OB}:get_displacements_matrix_x", ["P20"], cases=[dict(nd=n, kind=k, o=o) for n in (1, 2, 3) for k in "fr" for o in (0, 1)])
class dmx:
    """Entry i, j is the distance along the axis from point j to point i, less the origin, around the cell."""

    def inputs(C, nd, kind, o):
        b = line(C, nd, kind=kind)
        no_ties(C, o, [b.fundamental_n])
        return (b, C.real("o")) if o else (b,)

    def result(C, basis, origin=0.0):
        n, L = basis.fundamental_n, length(C, basis.delta_x)
        b = fbasis(C, basis)
        return {"basis": C.tuple_basis(b, b), "data": C.lam([n, n], lambda i, j: wrapped(C, (i - j) * L / n - origin, L))}


@contract(f"{OB}:get_displacements_x", ["P20"], cases=[dict(kind=k) for k in "fr"])
class dx1:
    def inputs(C, kind):
        return (line(C, 1, kind=kind), C.real("o"))

    def ensures(C, out, basis, origin):
        n, L = basis.fundamental_n, length(C, basis.delta_x)
        C.equal("basis", out["basis"], fbasis(C, basis))
        C.equal("data", C.lam([n], C.at(out["data"], [n])), C.lam([n], lambda i: wrapped(C, i * L / n - origin, L)))


@contract(f"{OB}:get_displacements_x_stacked", ["P20"], cases=[dict(k=k) for k in ("f", "ff", "rf", "frf")])
class dxs:
    """For each direction, the displacement of every grid point of a rectangular cell from the origin."""

    def inputs(C, k):
        b = ortho(C, k)
        return (b, tuple(C.real(f"o{i}") for i in range(len(k))))

    def result(C, basis, origin):
        fb = fund_pos(C, basis)
        n = dims_of(fb)
        L = [length(C, b.delta_x) for b in fb._axes]
        return tuple({"basis": fb, "data": C.lam([tuple(n)], lambda *i, a=a: wrapped(C, i[a] * L[a] / n[a] - origin[a], L[a]))} for a in range(len(n)))


@contract(f"{OB}:get_displacements_matrix_x_stacked", ["P20"], cases=[dict(k=k, o=o) for k in ("f", "ff", "rf") for o in (0, 1)])
class dms:
    def inputs(C, k, o):
        b = ortho(C, k)
        no_ties(C, o, fns_of(b))
        return (b, tuple(C.real(f"o{i}") for i in range(len(k))) if o else None)

    def result(C, basis, origin):
        fb = fund_pos(C, basis)
        n = dims_of(fb)
        m = len(n)
        L = [length(C, b.delta_x) for b in fb._axes]
        origin = [0] * m if origin is None else origin
        parts = [C.at(C.lam([(*n, *n)], lambda *x, a=a: wrapped(C, (x[a] - x[a + m]) * L[a] / n[a] - origin[a], L[a]))) for a in range(m)]
        N = 1
        for q in n:
            N = N * q
        data = C.lam([(m, N * N)], lambda a, i: _pick(C, a, [lambda p=p: p(i) for p in parts]))
        return {"basis": C.tuple_basis(C.basis("FundamentalBasis")(m), C.tuple_basis(fb, fb)), "data": data}


def _pick(C, a, fs):
    r = fs[-1]()
    for k in range(len(fs) - 2, -1, -1):
        r = C.ite([C.eq(a, k)], fs[k], (lambda r=r: r))
    return r


@contract(f"{OB}:get_total_displacements_matrix_x_stacked", ["P20"], cases=[dict(k=k, o=o) for k in ("f", "ff", "rf") for o in (0, 1)])
class dmt:
    """The length of the shortest separation of two points of a rectangular cell."""

    def inputs(C, k, o):
        b = ortho(C, k)
        no_ties(C, o, fns_of(b))
        return (b, tuple(C.real(f"o{i}") for i in range(len(k))) if o else None)

    def result(C, basis, origin=None):
        fb = fund_pos(C, basis)
        n = dims_of(fb)
        m = len(n)
        L = [length(C, b.delta_x) for b in fb._axes]
        origin = [0] * m if origin is None else origin

        def fn(*x):
            s = 0
            for a in range(m):
                d = wrapped(C, (x[a] - x[a + m]) * L[a] / n[a] - origin[a], L[a])
                s = s + d * d
            return C.sqrt(s)
        return {"basis": C.tuple_basis(fb, fb), "data": C.lam([(*n, *n)], fn)}


# ---------------------------------------------------------------- kernels of functions of the displacement
@contract(f"{KB}:build_isotropic_kernel_from_function", ["P20"], cases=[dict(nd=n, kind=k) for n in (1, 2) for k in "fr"])
class bik:
    """beta(x - x') for any function of the signed displacement along the axis: K[i, j] = beta(x_i - x_j)."""

    def inputs(C, nd, kind):
        b = line(C, nd, kind=kind)
        no_ties(C, 0, [b.fundamental_n])
        return (b, lambda x: x * x * x + 2 * x)

    def result(C, basis, fn):
        n, L = basis.fundamental_n, length(C, basis.delta_x)
        return {"basis": fbasis(C, basis), "data": C.lam([n], lambda i: fn(wrapped(C, i * L / n, L)))}


@contract(f"{KB}:build_isotropic_kernel_from_function_stacked", ["P20"], cases=[dict(k=k) for k in ("f", "ff", "rf")])
class bis:
    """beta of the distance between two points."""

    def inputs(C, k):
        b = ortho(C, k)
        no_ties(C, 0, fns_of(b))
        return (b, lambda x: x * x * x * x + 2 * x * x)

    def result(C, basis, fn):
        fb = fund_pos(C, basis)
        n = dims_of(fb)
        L = [length(C, b.delta_x) for b in fb._axes]

        def val(*i):
            s = 0
            for a in range(len(n)):
                d = wrapped(C, i[a] * L[a] / n[a], L[a])
                s = s + d * d
            return fn(C.sqrt(s))
        return {"basis": fb, "data": C.lam([tuple(n)], val)}


@contract(f"{KB}:build_axis_kernel_from_function_stacked", ["P20"], cases=[dict(k=k) for k in ("f", "ff", "rf")])
class bas:
    """One kernel for each axis."""

    def inputs(C, k):
        b = ortho(C, k)
        no_ties(C, 0, fns_of(b))
        return (b, lambda x: x * x * x + 2 * x)

    def result(C, basis, fn):
        fb = fund_pos(C, basis)
        return tuple({"basis": b, "data": C.lam([b.n], lambda i, b=b: fn(wrapped(C, i * length(C, b.delta_x) / b.n, length(C, b.delta_x))))} for b in fb._axes)


@contract(f"{KG}:get_gaussian_noise_kernel", ["P20"], cases=[dict(k=k) for k in ("f", "ff", "rf")])
class ggk:
    """a^2 exp(-|x - x'|^2 / (2 lambda^2)) of the periodic distance of two points."""

    def inputs(C, k):
        b = ortho(C, k)
        return (b, C.real("a", pos=True), C.real("l", pos=True))

    def result(C, basis, a, lambda_):
        fb = fund_pos(C, basis)
        n = dims_of(fb)
        m = len(n)
        L = [length(C, b.delta_x) for b in fb._axes]

        def val(*i):
            s = 0
            for k in range(m):
                d = wrapped(C, (i[k] - i[k + m]) * L[k] / n[k], L[k])
                s = s + d * d
            return a * a * C.exp(-s / (2 * lambda_ * lambda_))
        return {"basis": tup2(C, fb), "data": C.lam([(*n, *n)], val)}


@contract(f"{KG}:get_gaussian_axis_noise_kernel", ["P20"], cases=[dict(k=k) for k in ("f", "ff")])
class gga:
    """The kernels of the axes of a rectangular cell multiply to a^(2 (d - 1)) times the gaussian kernel."""

    def inputs(C, k):
        return (ortho(C, k), C.real("a", pos=True), C.real("l", pos=True))

    def result(C, basis, a, lambda_):
        fb = fund_pos(C, basis)

        def val(b):
            L = length(C, b.delta_x)

            def f(i):
                d = wrapped(C, i * L / b.n, L)
                return a * a * C.exp(-d * d / (2 * lambda_ * lambda_))
            return f
        return tuple({"basis": b, "data": C.lam([b.n], val(b))} for b in fb._axes)


@contract("kernel.lorentzian:get_lorentzian_isotropic_noise_kernel", ["P20"], cases=[dict(k=k) for k in ("f", "ff", "rf")])
class lik:
    """a^2 lambda^2 / ((x - x')^2 + lambda^2) of the periodic distance."""

    def inputs(C, k):
        return (ortho(C, k), C.real("a", pos=True), C.real("l", pos=True))

    def result(C, basis, a, lambda_):
        fb = fund_pos(C, basis)
        n = dims_of(fb)
        L = [length(C, b.delta_x) for b in fb._axes]

        def val(*i):
            s = 0
            for k in range(len(n)):
                d = wrapped(C, i[k] * L[k] / n[k], L[k])
                s = s + d * d
            return a * a * lambda_ * lambda_ / (s + lambda_ * lambda_)
        return {"basis": fb, "data": C.lam([tuple(n)], val)}


for _m, _h, _s in (("gaussian", 1, "s"), ("lorentzian", 2, "")):
    def _mke(m, h, suffix):
        @lemma(f"get_effective_{m}_parameters", ["P20"], cases=[dict(k=k) for k in ("f", "ff", "rf")])
        class _e:
            """(A / lambda)^2 = 2 eta k T / hbar^2, lambda the smallest side of the cell (half of it) over the factor."""

            def body(C, k):
                b = ortho(C, k)
                L = length(C, b._axes[0].delta_x)
                for x in b._axes[1:]:
                    L = C.ite(C.lt(length(C, x.delta_x), L), length(C, x.delta_x), lambda L=L: L)
                eta, T, q = C.real("eta", pos=True), C.real("T", pos=True), C.real("q", pos=True)
                a, l = C.fn(f"kernel.{m}:get_effective_{m}_parameter{suffix}")(b, eta, T, lambda_factor=q)
                one = lambda x: C.lam([1], lambda i: x)
                C.equal("lambda", one(l), one(L / (h * q)))
                C.equal("A", one(a * a), one(l * l * 2 * eta * C.const("Boltzmann") * T / (C.const("hbar") * C.const("hbar"))))
    _mke(_m, _h, _s)


# ---------------------------------------------------------------- built on the gaussian kernel
def _effective(C, basis, eta, T, q):
    return C.fn(f"{KG}:get_effective_gaussian_parameters")(basis, eta, T, lambda_factor=q)


@lemma("get_effective_gaussian_noise_kernel", ["P20"], cases=[dict(k=k) for k in ("f", "ff", "rf")])
class egk:
    """The gaussian kernels with the effective parameters."""

    def body(C, k):
        b = ortho(C, k)
        eta, T, q = C.real("eta", pos=True), C.real("T", pos=True), C.real("q", pos=True)
        a, l = _effective(C, b, eta, T, q)
        C.equal("kernel", C.fn(f"{KG}:get_effective_gaussian_noise_kernel")(b, eta, T, lambda_factor=q), C.fn(f"{KG}:get_gaussian_noise_kernel")(b, a, l))
        C.equal("isotropic", C.fn(f"{KG}:get_effective_gaussian_isotropic_noise_kernel")(b, eta, T, lambda_factor=q), C.fn(f"{KG}:get_gaussian_isotropic_noise_kernel")(b, a, l))


@lemma("get_gaussian_noise_operators_periodic", ["P20"], cases=[dict(k=k, e=e) for k in ("f", "ff", "rf") for e in (0, 1)])
class gop:
    """All the operators give the gaussian kernel back."""

    def body(C, k, e):
        b = ortho(C, k)
        if e:
            eta, T = C.real("eta", pos=True), C.real("T", pos=True)
            a, l = C.fn(f"{KG}:get_effective_gaussian_parameters")(b, eta, T)
            ops = C.fn(f"{KG}:get_effective_gaussian_noise_operators_periodic")(b, eta, T)
        else:
            a, l = C.real("a", pos=True), C.real("l", pos=True)
            ops = C.fn(f"{KG}:get_gaussian_noise_operators_periodic")(b, a, l)
        C.equal("kernel", C.fn("kernel.kernel:get_diagonal_kernel_from_diagonal_operators")(ops), C.fn(f"{KG}:get_gaussian_noise_kernel")(b, a, l))


@lemma("get_temperature_corrected_gaussian_noise_operators", ["P20"], cases=[dict(k=k, e=e) for k in ("f", "ff") for e in (0, 1)])
class tcg:
    """The gaussian operators with the low temperature correction, in the basis of the hamiltonian."""

    def body(C, k, e):
        b = ortho(C, k)
        H = {"basis": C.tuple_basis(b, b), "data": C.array("H", [tuple(dims_of(b) * 2)])}
        T, p, q = C.real("T", pos=True), C.real("p", pos=True), C.real("q", pos=True)
        if e:
            out = C.fn(f"{KG}:get_temperature_corrected_effective_gaussian_noise_operators")(H, p, T)
            ops = C.fn(f"{KG}:get_effective_gaussian_noise_operators_periodic")(b, p, T)
        else:
            out = C.fn(f"{KG}:get_temperature_corrected_gaussian_noise_operators")(H, p, q, T)
            ops = C.fn(f"{KG}:get_gaussian_noise_operators_periodic")(b, p, q)
        want = C.fn(f"{KB}:get_temperature_corrected_diagonal_noise_operators")(H, ops, T)
        want = C.fn("kernel.conversion:convert_noise_operator_list_to_basis")(want, H["basis"])
        C.equal("operators", out, want)


def series(C, kind, a, l, L, n):
    """a^2 exp(-x^2 / (2 l^2)), or a^2 l^2 / (x^2 + l^2), in powers of the square of 2 pi x / L"""
    from contracts.kernel import fact
    l = 2 * C.pi * l / L
    out, t = [], a * a
    for i in range(n):
        out.append(t / fact(i) if kind == "g" else t)
        t = t * (-1 / (2 * l * l)) if kind == "g" else t * (-1 / (l * l))
    return C.const_array(out)


@lemma("get_linear_gaussian_noise_operators_explicit_taylor", ["P20"], cases=[dict(k=k, n=n) for k in "fr" for n in (1, 2, 4)])
class lgt:
    def body(C, k, n):
        b = line(C, 1, kind=k)
        a, l = C.real("a", pos=True), C.real("l", pos=True)
        out = C.fn(f"{KG}:get_linear_gaussian_noise_operators_explicit_taylor")(b, a, l, n_terms=n)
        want = C.fn("kernel.solve._taylor:get_linear_noise_operators_explicit_taylor_expansion")(fbasis(C, b), series(C, "g", a, l, length(C, b.delta_x), n), n_terms=n)
        C.equal("operators", out, want)


@lemma("taylor operators[periodic]", ["P20"], cases=[dict(k=k, n=n) for k in "gl" for n in (None, 1, 2, 3)])
class pgt:
    """bounded: the cosine series with the expansion of the gaussian or the lorentzian"""

    bounded = "the series stops at the first coefficient that is close to zero"

    def body(C, k, n):
        b = ortho(C, "f")
        ax = b._axes[0]
        a, l = C.real("a", pos=True), C.real("l", pos=True)
        C.require(C.le(2, ax.n))
        C.require(C.le(ax.n, 7))
        L = length(C, ax.delta_x)
        ex = "kernel.solve._taylor:get_periodic_noise_operators_explicit_taylor_expansion"
        m = ax.n // 2 if n is None else n
        if k == "g":
            out = C.fn(f"{KG}:get_periodic_gaussian_operators_explicit_taylor")(ax, a, l, n_terms=n)
            want = C.fn(ex)(ax, series(C, k, a, l, L, m), n_terms=m)
        else:
            out = C.fn("kernel.lorentzian:get_lorentzian_operators_explicit_taylor")(a, l, b, n_terms=n)
            want = C.fn(ex)(b, series(C, k, a, l, L, m), n_terms=m)
        C.equal("operators", out, want)


@lemma("taylor operators[stacked]", ["P20"], cases=[dict(k=k, s=s, p=p) for k in ("f", "ff") for s in (0, 1) for p in ("periodic_gaussian", "linear_gaussian")])
class sgt:
    """bounded: the products of the operators of the axes"""

    bounded = "the series stops at the first coefficient that is close to zero"

    def body(C, k, s, p):
        b = ortho(C, k)
        a, l = C.real("a", pos=True), C.real("l", pos=True)
        for x in b._axes:
            C.require(C.le(2, x.n))
        shape = tuple(2 + i for i in range(len(k))) if s else None
        out = C.fn(f"{KG}:get_{p}_operators_explicit_taylor_stacked")(b, a, l, shape=shape)
        f = C.fn(f"{KG}:get_{p}_operators_explicit_taylor" if p[0] == "p" else f"{KG}:get_linear_gaussian_noise_operators_explicit_taylor")
        ops = [f(x, a, l, n_terms=shape[i] if s else None) for i, x in enumerate(b._axes)]
        C.equal("operators", out, C.fn("kernel.kernel:get_diagonal_noise_operators_from_axis")(tuple(ops)))


@contract(f"{OB}:get_displacements_matrix_nx_stacked", ["P20"], cases=[dict(k=k) for k in ("f,", "r,", "FT", "tr", "frf")])
class dmns:
    """For each direction n_i - n_j around the cell: the representative in [-n/2, n/2)."""

    def inputs(C, k):
        return (mk(C, k, "A"),)

    def result(C, basis):
        ns = [x.fundamental_n for x in basis._axes]
        m = len(ns)
        return tuple(C.lam([tuple(ns), tuple(ns)], lambda *i, a=a: C.mod_(i[a] - i[a + m] + C.div(ns[a], 2), ns[a]) - C.div(ns[a], 2), dt="i") for a in range(m))


@contract("basis.util:get_twice_average_nx", ["P20"], cases=[dict(k=k) for k in ("f,", "r,", "FT", "tr")])
class tan:
    """n_i + n_j for points up to half the cell apart (the middle between them, times two), and the other side of the cell for points further apart."""

    bounded = "angles of averages of points on the circle"

    def inputs(C, k):
        return (mk(C, k, "A"),)

    def result(C, basis):
        ns = [x.fundamental_n for x in basis._axes]
        m = len(ns)

        def val(a, *i):
            x, y, n = i[a], i[a + m], ns[a]
            far = 2 * abs(x - y) > n
            return (x + y + (n if far else 0)) % (2 * n)
        return tuple(C.lam([tuple(ns), tuple(ns)], lambda *i, a=a: val(a, *i), dt="i") for a in range(m))
