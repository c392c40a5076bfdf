"""Noise kernels: their diagonal, isotropic and per-axis forms, and the kernel of a list of noise operators."""
from contracts._common import *
from contracts.operators import diag_full, doplist, mat, mat3, oplist, uav

K = "kernel.kernel"
KC = "kernel.conversion"


def kern(C, b0, b1, b2, b3, name="K"):
    """Full kernel, indices (i j)(k l)."""
    return {"basis": C.tuple_basis(C.tuple_basis(b0, b1), C.tuple_basis(b2, b3)),
            "data": C.array(name, [tuple(x for b in (b0, b1, b2, b3) for x in dims_of(b))])}


def dkern(C, b0, b2, name="D"):
    """Diagonal kernel, indices i k."""
    return {"basis": C.tuple_basis(C.tuple_basis(b0, b0), C.tuple_basis(b2, b2)), "data": C.array(name, [tuple(dims_of(b0) + dims_of(b2))])}


def tup2(C, b):
    t = C.tuple_basis(b, b)
    return C.tuple_basis(t, t)


def iso_full(C, data, b, stacked):
    """K[i, j] = d[i - j], the difference taken around the cell: of the flat index, or of each stacked index."""
    n = dims_of(b) if stacked else [b.n]
    k = len(n)
    at = C.at(data, n)
    return C.lam([tuple(n + n)], lambda *i: at(*[C.mod_(i[a] - i[a + k], n[a]) for a in range(k)]))


@contract(f"{K}:as_full_kernel_from_diagonal", ["P16"], cases=[dict(a=a, b=b) for a, b in (("F", "F"), ("F", "T"), ("FT", "F"), ("r", "FF"))])
class afk:
    """beta[i j, k l] = D[i, k] for i = j and k = l, zero elsewhere."""

    def inputs(C, a, b):
        return (dkern(C, mk(C, a, "A"), mk(C, b, "B")),)

    def result(C, diagonal):
        b0, b2 = (t._axes[0] for t in diagonal["basis"]._axes)
        m, n = b0.n, b2.n
        at = C.at(split2(C, diagonal["data"], b0, b2)) if 0 else C.at(C.regroup(diagonal["data"], 0, [m, n]))
        return {"basis": diagonal["basis"], "data": C.lam([(m, m, n, n)], lambda i, j, k, l: C.ite([C.eq(i, j), C.eq(k, l)], lambda: at(i, k), 0))}


@contract(f"{K}:as_diagonal_kernel_from_full", ["P16"], cases=[dict(a=a, b=b) for a, b in (("F", "F"), ("F", "T"), ("FT", "F"), ("r", "FF"))])
class adk:
    """D[i, k] = beta[i i, k k]."""

    def inputs(C, a, b):
        b0, b2 = mk(C, a, "A"), mk(C, b, "B")
        return (kern(C, b0, b0, b2, b2),)

    def result(C, kernel):
        b0, b2 = (t._axes[0] for t in kernel["basis"]._axes)
        at = C.at(C.regroup(kernel["data"], 0, [b0.n, b0.n, b2.n, b2.n]))
        return {"basis": kernel["basis"], "data": C.lam([(b0.n, b2.n)], lambda i, k: at(i, i, k, k))}


ISO = [dict(k=k) for k in ("F", "T", "r", "f", "FT")]
ISOS = [dict(k=k) for k in ("F,", "FT", "rf", "FTF")]

for _nm, _st, _cs in (("", 0, ISO), ("_stacked", 1, ISOS)):
    def _mk(nm, st, cs):
        @contract(f"{K}:as_diagonal_kernel_from_isotropic{nm}", ["P16"], cases=cs)
        class _a:
            """The kernel of two states depends on the difference of their indices around the cell only."""

            def inputs(C, k):
                return (vec(C, mk(C, k, "A")),)

            def result(C, kernel):
                b = kernel["basis"]
                return {"basis": tup2(C, b), "data": iso_full(C, kernel["data"], b, st)}

        @contract(f"{K}:as_isotropic_kernel_from_diagonal{nm}", ["P16"], cases=[dict(c, chk=x) for c in cs for x in (True, False)])
        class _b:
            """The inverse of as_diagonal_kernel_from_isotropic: of every isotropic kernel, symmetric or not; and its own check passes on them."""

            has_kwargs = True
            asserts = True

            def inputs(C, k, chk):
                b = mk(C, k, "A")
                d = C.array("d", [flat(b)])
                return (({"basis": tup2(C, b), "data": iso_full(C, d, b, st)},), dict(assert_isotropic=chk))

            def result(C, kernel, *, assert_isotropic=True):
                b = kernel["basis"]._axes[0]._axes[0]
                n = dims_of(b)
                at = C.at(kernel["data"], n * 2)
                return {"basis": b, "data": C.lam([flat(b)], lambda *i: at(*i, *([0] * len(n))))}
    _mk(_nm, _st, _cs)


@contract(f"{K}:as_isotropic_kernel_from_axis", ["P16"], cases=[dict(k=k) for k in ("F", "FT", "rf", "FTF")])
class aia:
    """The product of the kernels of the axes."""

    def inputs(C, k):
        bs = mk(C, k + ",", "A")._axes
        return (tuple(vec(C, b, f"v{i}") for i, b in enumerate(bs)),)

    def result(C, kernels):
        bs = [k["basis"] for k in kernels]
        ats = [C.at(k["data"]) for k in kernels]

        def fn(*i):
            r = 1
            for a, x in zip(ats, i):
                r = r * a(x)
            return r
        return {"basis": C.tuple_basis(*bs), "data": C.lam([tuple(b.n for b in bs)], fn)}


@contract(f"{K}:get_full_kernel_from_operators", ["P16"], cases=[dict(a=a, b=b) for a, b in (("F", "F"), ("F", "T"), ("r", "f"))])
class gfk:
    """beta[i j, k l] = sum_a lambda_a conj(L_a[j, i]) L_a[k, l]."""

    def inputs(C, a, b):
        L = mk(C, "f", "L")
        b0 = mk(C, a, "A")
        b1 = b0 if a == b else mk(C, b, "B", [b0.fundamental_n])
        if a != b:
            C.require(S.same(C, b0, b1))
        return ({**oplist(C, L, b0, b0), "eigenvalue": C.array("w", [L.n])},)

    def result(C, operators):
        L, bb = operators["basis"]._axes
        m, k = bb._axes[0].n, bb._axes[1].n
        at = C.at(mat3(C, operators))
        w = C.at(operators["eigenvalue"])
        return {"basis": C.tuple_basis(bb, bb), "data": C.lam([(m, k, m, k)], lambda i, j, p, q: C.sum((L.n,), lambda a: w(a) * C.conj(at(a, j, i)) * at(a, p, q)))}


@contract(f"{K}:get_diagonal_kernel_from_diagonal_operators", ["P16"], cases=[dict(a=a) for a in ("F", "T", "FT", "r")])
class gdk:
    """D[i, k] = sum_a lambda_a conj(L_a[i]) L_a[k]."""

    def inputs(C, a):
        L, b = mk(C, "f", "L"), mk(C, a, "A")
        return ({**doplist(C, L, b), "eigenvalue": C.array("w", [L.n])},)

    def result(C, operators):
        L, bb = operators["basis"]._axes
        n = bb._axes[0].n
        at = C.at(C.regroup(flatten(C, operators["data"]), 0, [L.n, n]))
        w = C.at(operators["eigenvalue"])
        return {"basis": C.tuple_basis(bb, bb), "data": C.lam([(n, n)], lambda i, k: C.sum((L.n,), lambda a: w(a) * C.conj(at(a, i)) * at(a, k)))}


@lemma("kernels[diagonal and full agree]", ["P16"], cases=[dict(a=a) for a in ("F", "FT")])
class kdf:
    """Embedding a diagonal kernel and taking the diagonal again gives the kernel back, and the kernel of diagonal
    operators is the diagonal of the kernel of their matrices, which is diagonal."""

    def body(C, a):
        b = mk(C, a, "A")
        d = dkern(C, b, b)
        C.equal("round trip", C.fn(f"{K}:as_diagonal_kernel_from_full")(C.fn(f"{K}:as_full_kernel_from_diagonal")(d)), d)
        L = mk(C, "f", "L")
        ops = {**doplist(C, L, b), "eigenvalue": C.array("w", [L.n])}
        D = C.fn(f"{K}:get_diagonal_kernel_from_diagonal_operators")(ops)
        full = C.fn(f"{K}:as_noise_operators_from_diagonal")(ops)
        C.equal("full kernel", C.fn(f"{K}:get_full_kernel_from_operators")(full), C.fn(f"{K}:as_full_kernel_from_diagonal")(D))
        C.equal("diagonal", C.fn(f"{K}:get_diagonal_kernel_from_operators")(full), D)
        C.equal("operators", C.fn(f"{K}:as_diagonal_noise_operators_from_full")(full), ops)


@contract(f"{K}:get_diagonal_noise_operators_from_axis", ["P16"], cases=[dict(k=k) for k in ("F", "FT", "FTF")])
class gda:
    """The list of all products of an operator of each axis, with the product of their eigenvalues."""

    def inputs(C, k):
        bs = mk(C, k + ",", "A")._axes
        r = []
        for i, b in enumerate(bs):
            L = mk(C, "f", f"L{i}")
            r.append({**doplist(C, L, b, f"D{i}"), "eigenvalue": C.array(f"w{i}", [L.n])})
        return (tuple(r),)

    def result(C, operators_list):
        ls = [o["basis"]._axes[0] for o in operators_list]
        bs = [o["basis"]._axes[1]._axes[0] for o in operators_list]
        ats = [C.at(C.regroup(o["data"], 0, [l.n, b.n])) for o, l, b in zip(operators_list, ls, bs)]
        ws = [C.at(o["eigenvalue"]) for o in operators_list]
        k = len(ls)

        def prod(xs):
            r = 1
            for x in xs:
                r = r * x
            return r
        t = C.tuple_basis(*bs)
        return {"basis": C.tuple_basis(C.tuple_basis(*ls), C.tuple_basis(t, t)),
                "data": C.lam([tuple([l.n for l in ls] + [b.n for b in bs])], lambda *i: prod(ats[a](i[a], i[a + k]) for a in range(k))),
                "eigenvalue": C.lam([tuple(l.n for l in ls)], lambda *i: prod(ws[a](i[a]) for a in range(k)))}


# ---------------------------------------------------------------- noise operators of a kernel
SV = "kernel.solve._eigenvalue"
SF = "kernel.solve._fft"


def hkern(C, b, name="K"):
    """A kernel sum_a lambda_a conj(L_a) L_a with real lambda: beta[i j, k l] = conj(beta[l k, j i])."""
    n = dims_of(b)
    k = len(n)
    at = C.at(C.array(name, [tuple(n * 4)]), n * 4)

    def fn(*x):
        i, j, p, q = (x[a * k:(a + 1) * k] for a in range(4))
        return (at(*j, *i, *p, *q) + C.conj(at(*p, *q, *j, *i))) / 2
    t = C.tuple_basis(b, b)
    return {"basis": C.tuple_basis(t, t), "data": C.lam([tuple(n * 4)], fn)}


def hdkern(C, b, name="D"):
    n = dims_of(b)
    k = len(n)
    at = C.at(C.array(name, [tuple(n * 2)]), n * 2)
    return {"basis": tup2(C, b), "data": C.lam([tuple(n * 2)], lambda *x: (at(*x) + C.conj(at(*x[k:], *x[:k]))) / 2)}


@lemma("noise operators[eigenvalue]", ["P19"], cases=[dict(k=k) for k in ("F", "T", "FT")])
class noe:
    """The operators found for a hermitian kernel have real eigenvalues, are orthonormal, and give the kernel back."""

    asserts = True

    def body(C, k):
        b = mk(C, k, "A")
        n = b.n
        K0 = hkern(C, b)
        ops = C.fn(f"{SV}:get_periodic_noise_operators_eigenvalue")(K0)
        N = n * n
        C.equal("basis", ops["basis"], C.tuple_basis(C.basis("FundamentalBasis")(N), C.tuple_basis(b, b)))
        C.equal("kernel", C.fn(f"{K}:get_full_kernel_from_operators")(ops), K0)
        C.equal("eigenvalues", C.lam([N], lambda a: C.im(C.at(ops["eigenvalue"])(a))), C.lam([N], lambda a: 0))


@lemma("noise operators[diagonal eigenvalue]", ["P19"], cases=[dict(k=k) for k in ("F", "T", "FT")])
class nod:
    asserts = True

    def body(C, k):
        b = mk(C, k, "A")
        n = b.n
        K0 = hdkern(C, b)
        ops = C.fn(f"{SV}:get_periodic_noise_operators_diagonal_eigenvalue")(K0)
        C.equal("basis", ops["basis"], C.tuple_basis(C.basis("FundamentalBasis")(n), C.tuple_basis(b, b)))
        C.equal("kernel", C.fn(f"{K}:get_diagonal_kernel_from_diagonal_operators")(ops), K0)
        C.equal("eigenvalues", C.lam([n], lambda a: C.im(C.at(ops["eigenvalue"])(a))), C.lam([n], lambda a: 0))


@lemma("noise operators[isotropic fft]", ["P19"], cases=[dict(k=k, s=s) for k, s in (("F", 0), ("T", 0), ("r", 0), ("F,", 1), ("FT", 1), ("ff", 1), ("ffF", 1))])
class nof:
    """The Fourier operators of an isotropic kernel, symmetric or not, give the kernel back."""

    def body(C, k, s):
        b = mk(C, k, "A")
        d = vec(C, b, "d")
        if s:
            ops = C.fn(f"{SF}:get_periodic_noise_operators_isotropic_stacked_fft")(d)
            iso = C.fn(f"{K}:as_diagonal_kernel_from_isotropic_stacked")(d)
        else:
            ops = C.fn(f"{SF}:get_periodic_noise_operators_isotropic_fft")(d)
            iso = C.fn(f"{K}:as_diagonal_kernel_from_isotropic")(d)
        C.equal("kernel", C.fn(f"{K}:get_diagonal_kernel_from_diagonal_operators")(ops), iso)


@lemma("noise operators[isotropic fft, fewer]", ["P19"], cases=[dict(k=k, s=s) for k, s in (("f", 0), ("f,", 1), ("ff", 1))])
class noff:
    """With fewer operators than points (a divisor along every axis) they give the kernel cut to that many separations, nearest zero, and repeated."""

    asserts = True
    timeout = 300

    def body(C, k, s):
        ms = [C.size(f"m{i}") for i in range(len(k.strip(",")))]
        bs = [C.basis("FundamentalBasis")(C.size(f"c{i}") * m) for i, m in enumerate(ms)]
        b = C.tuple_basis(*bs) if s else bs[0]
        n = [x.n for x in bs]
        d = vec(C, b, "d")
        if s:
            ops = C.fn(f"{SF}:get_periodic_noise_operators_isotropic_stacked_fft")(d, fundamental_shape=tuple(ms))
        else:
            ops = C.fn(f"{SF}:get_periodic_noise_operators_isotropic_fft")(d, fundamental_n=ms[0])
        cut = C.at(C.fn("util.interpolation:pad_ft_points")(C.regroup(d["data"], 0, n), tuple(ms), tuple(range(len(ms)))))
        C.equal("basis", ops["basis"], C.tuple_basis(C.tuple_basis(*[C.basis("FundamentalBasis")(m) for m in ms]) if s else C.basis("FundamentalBasis")(ms[0]), C.tuple_basis(b, b)))
        data = C.lam([tuple(n + n)], lambda *i: cut(*[C.mod_(x - y, m) for x, y, m in zip(i[:len(n)], i[len(n):], ms)]))
        C.equal("kernel", C.fn(f"{K}:get_diagonal_kernel_from_diagonal_operators")(ops), {"basis": tup2(C, b), "data": data})


@lemma("convert_kernel_to_basis", ["P19"], cases=[dict(a=a, b=b) for a, b in (("F", "F"), ("F", "T"), ("f", "r"))])
class ckb:
    """A kernel transforms as the products of operators it is made of: U on i and k, conj(U) on j and l."""

    def body(C, a, b):
        b0 = mk(C, a, "A")
        b1 = mk(C, b, "B", fns_of(b0))
        K0 = hkern(C, b0)
        out = C.fn(f"{KC}:convert_kernel_to_basis")(K0, C.tuple_basis(b1, b1))
        v = C.regroup(K0["data"], 0, [b0.n] * 4)
        for ax in range(4):
            v = C.conj_array(S.conv(C, C.conj_array(v), b0, b1, ax)) if ax % 2 else S.conv(C, v, b0, b1, ax)
        t = C.tuple_basis(b1, b1)
        C.equal("kernel", out, {"basis": C.tuple_basis(t, t), "data": C.ungroup(v, 0, 4)})


@contract(f"{KC}:convert_isotropic_kernel_to_basis", ["P19"], cases=[dict(a=a, b=b) for a, b in (("F", "T"), ("f", "r"), ("FT", "TF"))])
class cib:
    def inputs(C, a, b):
        b0 = mk(C, a, "A")
        b1 = mk(C, b, "B", fns_of(b0))
        C.require(S.same(C, b0, b1))
        return (vec(C, b0), b1)

    def result(C, kernel, basis):
        return {"basis": basis, "data": S.conv(C, kernel["data"], kernel["basis"], basis)}


@lemma("noise operators[real isotropic fft]", ["P19"], cases=[dict(k=k) for k in ("F", "r")])
class nor:
    """The cosine and sine operators of a real symmetric isotropic kernel give the kernel back."""

    asserts = True

    def body(C, k):
        b = mk(C, k, "A")
        n = b.n
        r = C.at(C.array("d", [n], dt="f"))
        d = {"basis": b, "data": C.lam([n], lambda i: (r(i) + r(C.mod_(-i, n))) / 2)}
        ops = C.fn(f"{SF}:get_periodic_noise_operators_real_isotropic_fft")(d)
        iso = C.fn(f"{K}:as_diagonal_kernel_from_isotropic")(d)
        C.equal("kernel", C.fn(f"{K}:get_diagonal_kernel_from_diagonal_operators")(ops), iso)


@lemma("noise operators[real isotropic fft, fewer]", ["P19"])
class norf:
    """With 2 n + 1 operators, a divisor of the number of points, they give the same kernel as the complex ones
    (see above: the kernel cut to that many separations, and repeated)."""

    bounded = "the two halves of the sum over the operators are not recombined by the engine"

    def body(C):
        m = C.size("m")
        C.require(C.eq(C.rem(m, 2), 1))
        n = m // 2
        b = C.basis("FundamentalBasis")(C.size("c") * m)
        r = C.at(C.array("d", [b.n], dt="f"))
        d = {"basis": b, "data": C.lam([b.n], lambda i: (r(i) + r(C.mod_(-i, b.n))) / 2)}
        ops = C.fn(f"{SF}:get_periodic_noise_operators_real_isotropic_fft")(d, n=n)
        full = C.fn(f"{SF}:get_periodic_noise_operators_isotropic_fft")(d, fundamental_n=m)
        kern = C.fn(f"{K}:get_diagonal_kernel_from_diagonal_operators")
        C.equal("kernel", kern(ops), kern(full))


@contract(f"{SF}:get_periodic_operators_for_real_isotropic_noise", ["P19"], cases=[dict(k=k, **o) for k in ("F", "r", "ff") for o in ({}, dict(n=0), dict(n=0, f=0), dict(f=1), dict(f=1, n=0))])
class pon:
    has_kwargs = True
    """cos(2 pi m x / M) for m = 0 .. n - 1 and then sin(2 pi m x / M) for m = n - 1 .. 1, over the root of the number of
    points; M (by default all the points) points are a period, and n is by default the half of them."""

    def inputs(C, k, n=1, f=None):
        kw = {} if n else {"n": C.size("n")}
        if f is not None:
            M = kw["fundamental_n"] = C.size("M", lo=2)
        if f:
            b = C.basis("FundamentalBasis")(C.size("c") * M)
        else:
            b = mk(C, k, "A")
            if f == 0:
                kw["assert_periodic"] = False
        if n:
            C.require(C.le(2, M if f is not None else b.n))
        return (b,), kw

    def ensures(C, out, basis, *, n=None, fundamental_n=None, **_):
        N = basis.n if fundamental_n is None else fundamental_n
        n = N // 2 if n is None else n
        C.equal("basis", out["basis"], C.tuple_basis(C.basis("FundamentalBasis")(2 * n - 1), C.tuple_basis(basis, basis)))
        nk = C.at(C.mod("basis.util").BasisUtil(basis).nk_points)
        k = lambda m, x: 2 * C.pi * m * nk(x) / N
        C.equal("data", C.ungroup(out["data"], 0, 2) if out["data"].ndim == 2 else out["data"],
                C.lam([(2 * n - 1, basis.n)], lambda m, x: C.ite(C.lt(m, n), lambda: C.cos(k(m, x)), lambda: C.sin(k(2 * n - 1 - m, x))) / C.sqrt(basis.n)))


for _f, _diag in (("get_temperature_corrected_noise_operators", 0), ("get_temperature_corrected_diagonal_noise_operators", 1)):
    def _mkt(f, diag):
        @lemma(f, ["P19"], cases=[dict(k=k) for k in ("FF", "FT", "ff")])
        class _t:
            """L - [H, L] / (4 k T): the low temperature form of the Caldeira-Leggett operators, eigenvalues unchanged."""

            def body(C, k):
                if k == "FF":
                    a = b = mk(C, "F", "A")
                else:
                    a = C.abs_basis("A", k[0], complete=True) if k != "ff" else mk(C, "f", "A")
                    b = C.abs_basis("B", k[1], n=a.n, fn=a.fundamental_n, complete=True) if k != "ff" else mk(C, "f", "B", fns_of(a))
                L = mk(C, "f", "L")
                H = {"basis": C.tuple_basis(a, a), "data": C.array("H", [(a.n, a.n)])}
                T = C.real("T", pos=True)
                w = C.array("w", [L.n])
                ops = {**(doplist if diag else oplist)(C, L, b, *(() if diag else (b,)), "x"), "eigenvalue": w}
                out = C.fn(f"kernel.build:{f}")(H, ops, T)
                full = C.fn("operator.operator_list:diagonal_operator_list_as_full")(ops) if diag else ops
                if diag:
                    h, ch, cb = C.at(uav(C, mat(C, H), a, b, a, b), [b.n, b.n]), b, C.tuple_basis(b, b)
                    y = C.at(mat3(C, full), [L.n, b.n, b.n])
                else:
                    h, ch, cb = C.at(mat(C, H), [a.n, a.n]), a, H["basis"]
                    y = C.at(uav(C, mat3(C, full), b, a, b, a, (1, 2)), [L.n, a.n, a.n])
                s = 1 / (4 * C.const("Boltzmann") * T)
                n = ch.n
                C.equal("operators", {"basis": out["basis"], "data": out["data"]}, {"basis": C.tuple_basis(L, cb), "data": C.lam([(L.n, n, n)], lambda m, i, k: y(m, i, k) - s * C.sum(n, lambda j: h(i, j) * y(m, j, k) - y(m, i, j) * h(j, k)))})
                C.equal("eigenvalue", out["eigenvalue"], w)
    _mkt(_f, _diag)


@lemma("as_axis_kernel_from_isotropic", ["P16"], cases=[dict(k=k) for k in ("F,", "FF", "fff")])
class axk:
    """The axis kernels of a separable kernel multiply to the kernel, and split its value at zero evenly."""

    def body(C, k):
        bs = mk(C, k, "A")
        parts = [C.at(C.array(f"d{i}", [b.n], dt="f", pos=True)) for i, b in enumerate(bs._axes)]

        def val(*i):
            r = 1
            for p, j in zip(parts, i):
                r = r * p(j)
            return r
        d = {"basis": bs, "data": C.lam([tuple(dims_of(bs))], val)}
        out = C.fn(f"{K}:as_axis_kernel_from_isotropic")(d)
        for i, b in enumerate(bs._axes):
            C.equal(f"basis[{i}]", out[i]["basis"], b)
        at = [C.at(o["data"]) for o in out]

        def prod(*i):
            r = 1
            for p, j in zip(at, i):
                r = r * p(j)
            return r
        C.equal("product", C.lam([tuple(dims_of(bs))], prod), d["data"])
        for i in range(1, len(at)):
            C.equal(f"zero[{i}]", C.lam([1], lambda q: at[i](0)), C.lam([1], lambda q: at[0](0)))


# ---------------------------------------------------------------- truncation and conversion of operator lists
KB = "kernel.build"


def _trunc(C, w, n, magnitude):
    """Position of the operator with the k-th largest eigenvalue (magnitude)."""
    at = C.at(w)
    order = C.at(C.argsort(C.lam([n], lambda i: abs(at(i))) if magnitude else w))
    return lambda k: order(n - 1 - k)


for _f, _diag in (("truncate_noise_operator_list", 0), ("truncate_diagonal_noise_operator_list", 1)):
    def _mktr(f, diag):
        @contract(f"{KB}:{f}", ["P19"], cases=[dict(k=k, t=t) for k in ("F", "FT") for t in ("some", "range")])
        class _tr:
            """The operators of the chosen ranks in order of decreasing eigenvalue, with their eigenvalues."""

            def inputs(C, k, t):
                L, b = mk(C, "F", "L"), mk(C, k, "A")
                w = C.array("w", [L.n], dt="f")
                ops = {**(doplist if diag else oplist)(C, L, b, *(() if diag else (b,)), "x"), "eigenvalue": w}
                if t == "range":
                    n = C.size("k")
                    C.require(C.le(n, L.n))
                    return (ops, C.range(n))
                return (ops, (0, L.n - 1, 0))

            def result(C, operators, truncation):
                L, b = operators["basis"]._axes
                w = C.at(operators["eigenvalue"])
                if isinstance(truncation, tuple):
                    n, pick = 3, lambda f, i: C.ite(C.eq(i, 1), lambda: f(p(L.n - 1)), lambda: f(p(0)))
                else:
                    n, pick = C.len(truncation), lambda f, i: f(p(i))
                p = _trunc(C, operators["eigenvalue"], L.n, diag)
                m = b._axes[0].n * (1 if diag else b._axes[1].n)
                x = C.at(C.regroup(operators["data"], 0, [L.n, m]))
                return {"basis": C.tuple_basis(C.basis("FundamentalBasis")(n), b),
                        "data": C.lam([n, m], lambda i, j: pick(lambda q: x(q, j), i)), "eigenvalue": C.lam([n], lambda i: pick(w, i))}
    _mktr(_f, _diag)


for _f, _diag in (("truncate_noise_kernel", 0), ("truncate_diagonal_noise_kernel", 1)):
    def _mktk(f, diag):
        @lemma(f, ["P19"], cases=[dict(k=k, t=t) for k in ("F", "FT") for t in ("first", "all")])
        class _tk:
            """The kernel of the operators of the chosen ranks; all of them give the kernel back."""

            asserts = True

            def body(C, k, t):
                b = mk(C, k, "A")
                K0 = (hdkern if diag else hkern)(C, b)
                n = b.n if diag else b.n * b.n
                out = C.fn(f"{KB}:{f}")(K0, C.range(n) if t == "all" else C.range(1))
                if t == "all":
                    C.equal("kernel", out, K0)
                    return
                ops = C.fn(f"{SV}:get_periodic_noise_operators_{'diagonal_' if diag else ''}eigenvalue")(K0)
                w = C.at(ops["eigenvalue"])
                m = b.n if diag else b.n * b.n
                p = _trunc(C, ops["eigenvalue"], n, diag)(0)
                x = C.at(C.regroup(ops["data"], 0, [n, m]) if ops["data"].ndim == 1 else ops["data"], [n, m])
                C.equal("kernel", out, {"basis": K0["basis"], "data": C.lam([(m, m)], lambda i, j: w(p) * C.conj(x(p, i)) * x(p, j) if diag else 0)} if diag else
                        {"basis": K0["basis"], "data": C.lam([(b.n,) * 4], lambda i, j, k, l: w(p) * C.conj(x(p, j * b.n + i)) * x(p, k * b.n + l))})
    _mktk(_f, _diag)


@lemma("convert_diagonal_noise_operator_list_to_basis", ["P19"], cases=[dict(l=l, a=a, b=b) for l, a, b in (("F", "F", "T"), ("f", "FT", "TF"))])
class cdn:
    """The full operators in the new basis, each with the eigenvalue it had."""

    def body(C, l, a, b):
        L, b0 = mk(C, l, "L"), mk(C, a, "A")
        b1, b2 = mk(C, b, "B", fns_of(b0)), mk(C, b, "D", fns_of(b0))
        w = C.array("w", [L.n])
        ops = {**doplist(C, L, b0, "x"), "eigenvalue": w}
        out = C.fn(f"{KC}:convert_diagonal_noise_operator_list_to_basis")(ops, C.tuple_basis(b1, b2))
        full = C.fn("operator.operator_list:diagonal_operator_list_as_full")(ops)
        C.equal("eigenvalue", out["eigenvalue"], w)
        C.equal("operators", {"basis": out["basis"], "data": out["data"]}, {"basis": C.tuple_basis(L, C.tuple_basis(b1, b2)), "data": C.ungroup(uav(C, mat3(C, full), b0, b1, b0, b2, (1, 2)), 0, 3)})


@lemma("convert_diagonal_kernel_to_basis", ["P19"], cases=[dict(a=a, b=b) for a, b in (("F", "F"), ("F", "T"), ("f", "r"))])
class cdk:
    """The full kernel of a diagonal kernel, in the new basis."""

    def body(C, a, b):
        b0 = mk(C, a, "A")
        b1 = mk(C, b, "B", fns_of(b0))
        K0 = hdkern(C, b0)
        out = C.fn(f"{KC}:convert_diagonal_kernel_to_basis")(K0, C.tuple_basis(b1, b1))
        full = C.fn(f"{K}:as_full_kernel_from_diagonal")(K0)
        v = C.regroup(full["data"], 0, [b0.n] * 4)
        for ax in range(4):
            v = C.conj_array(S.conv(C, C.conj_array(v), b0, b1, ax)) if ax % 2 else S.conv(C, v, b0, b1, ax)
        t = C.tuple_basis(b1, b1)
        C.equal("kernel", out, {"basis": C.tuple_basis(t, t), "data": C.ungroup(v, 0, 4)})


# ---------------------------------------------------------------- taylor expansions
ST = "kernel.solve._taylor"


def pick(C, k, xs):
    r = xs[-1]
    for q in range(len(xs) - 1):
        r = C.ite(C.eq(k, q), xs[q], r)
    return r


def fact(n):
    r = 1
    for k in range(2, n + 1):
        r *= k
    return r


@contract(f"{ST}:get_periodic_noise_operators_explicit_taylor_expansion", ["P19"], cases=[dict(k=k, n=n, p=p) for k in ("F", "f") for n, p in ((None, None), (1, 1), (2, 2), (4, 4), (2, 4), (4, 2))])
class ptx:
    """bounded: cosines and sines whose sum_m c_m cos(m x) has the expansion sum_i p_i x^(2 i)"""

    bounded = "the series stops at the first coefficient that is close to zero"
    has_kwargs = True

    def inputs(C, k, n, p):
        b = mk(C, k, "A")
        if n is None:
            C.require(C.le(2, b.n))
            C.require(C.le(b.n, 9))
        coef = C.array("p", [b.n // 2 if n is None else p], dt="f", pos=True)
        return (b, coef), ({} if n is None else {"n_terms": n})

    def ensures(C, out, basis, p, n_terms=None):
        N, n = basis.n, basis.n // 2 if n_terms is None else n_terms
        ops = C.fn(f"{SF}:get_periodic_operators_for_real_isotropic_noise")(basis, n=n)
        C.equal("operators", {"basis": out["basis"], "data": out["data"]}, ops)
        c = C.at(out["eigenvalue"], [2 * n - 1])
        C.equal("sine", C.lam([n - 1], lambda m: c(n + m)), C.lam([n - 1], lambda m: c(n - 1 - m)))
        at = C.at(p)
        q = min(n, len(p))
        got = [sum(c(m) / N * (-1) ** i * m ** (2 * i) / fact(2 * i) for m in range(n)) for i in range(q)]
        C.equal("series", C.const_array(got), C.const_array([at(i) for i in range(q)]))


@contract(f"{ST}:get_linear_noise_operators_explicit_taylor_expansion", ["P19"], cases=[dict(k=k, n=n) for k in ("f", "ff") for n in (1, 2, 4)])
class ltx:
    """The powers of the displacement from the middle of the cell, in units in which the cell is 2 pi long."""

    has_kwargs = True

    def inputs(C, k, n):
        b = mk(C, k, "A")
        return (b, C.array("p", [n], dt="f")), {"n_terms": n}

    def result(C, basis, p, n_terms):
        N = basis.n

        def x(i):
            return 2 * C.pi * (C.mod_(N // 2 - i + N // 2, N) - N // 2) / N
        return {"basis": C.tuple_basis(C.basis("FundamentalBasis")(n_terms), C.tuple_basis(basis, basis)),
                "data": C.lam([n_terms, N], lambda k, i: pick(C, k, [x(i) ** q for q in range(n_terms)])), "eigenvalue": p}


@lemma("noise operators[taylor expansion]", ["P19"], cases=[dict(k=k) for k in ("f", "r", "ff", "fff")])
class tey:
    """bounded: the polynomial fitted to a symmetric kernel at all its points gives the kernel back"""

    bounded = "the coefficients are found by a least squares fit"

    def body(C, k):
        FP = C.mod("basis.basis").FundamentalPositionBasis
        ax = [FP(C.const_array([C.real(f"x{i}", pos=True) if i == j else 0.0 for j in range(len(k))]), C.size(f"N{i}")) for i in range(len(k))]
        bs = ax[0] if k in "fr" else C.tuple_basis(*ax)
        n = [b.n for b in ax]
        rs = [C.at(C.array(f"d{i}", [b.n], dt="f", pos=True)) for i, b in enumerate(ax)]
        for b in ax:
            C.require(C.le(2, b.n))

        def val(*i):
            r = 1
            for p, j, m in zip(rs, i, n):
                r = r * (p(j) + p(C.mod_(-j, m)))
            return r
        d = {"basis": bs, "data": C.lam([tuple(n)], val)}
        f = C.fn(f"{ST}:get_periodic_noise_operators_real_isotropic_{'' if k in 'fr' else 'stacked_'}taylor_expansion")
        iso = C.fn(f"{K}:as_diagonal_kernel_from_isotropic{'' if k in 'fr' else '_stacked'}")(d)
        if k == "r":
            d = C.fn(f"{KC}:convert_isotropic_kernel_to_basis")(d, C.mod("basis.basis").TransformedPositionBasis(bs.delta_x, bs.n, bs.n))
        C.equal("kernel", C.fn(f"{K}:get_diagonal_kernel_from_diagonal_operators")(f(d)), iso)


@lemma("isotropic kernels of operators", ["P16"], cases=[dict(k=k, f=f) for k in ("F", "FT", "ff") for f in ("diagonal_operators", "diagonal_operators_stacked", "operators")])
class iko:
    """sum_a lambda_a conj(L_a[i]) L_a[0], L_a[i] the diagonal of the operator."""

    def body(C, k, f):
        L, b = mk(C, "f", "L"), mk(C, k, "A")
        n = b.n
        w = C.array("w", [L.n])
        ops = {**(oplist(C, L, b, b) if f == "operators" else doplist(C, L, b)), "eigenvalue": w}
        out = C.fn(f"{K}:get_isotropic_kernel_from_{f}")(ops, assert_isotropic=False)
        if f == "operators":
            at = C.at(mat3(C, ops))
            x = lambda a, i: at(a, i, i)
        else:
            x = C.at(C.regroup(ops["data"], 0, [L.n, n]))
        wt = C.at(w)
        C.equal("basis", out["basis"], b)
        C.equal("kernel", out["data"], C.lam([n], lambda i: C.sum((L.n,), lambda a: wt(a) * C.conj(x(a, i)) * x(a, 0))))


KS = "kernel.sample"


@lemma("noise samples split by operator", ["P16"], cases=[dict(k=k, m=m) for k in ("F", "FT") for m in (1, 3)])
class nss:
    """The parts of each operator, and their sum: the sample."""

    def body(C, k, m):
        s, b = C.basis("FundamentalBasis")(C.size("s")), mk(C, k, "A")
        L = C.basis("FundamentalBasis")(m)
        d = {"basis": C.tuple_basis(C.tuple_basis(L, s), C.tuple_basis(b, b)), "data": C.array("x", [(m, s.n, *dims_of(b))])}
        at = C.at(C.regroup(d["data"], 0, [m, s.n, b.n]))
        want = C.tuple_basis(s, C.tuple_basis(b, b))
        C.equal("sum", C.fn(f"{KS}:diagonal_operator_list_from_diagonal_split")(d), {"basis": want, "data": C.lam([(s.n, b.n)], lambda i, j: C.sum((m,), lambda a: at(a, i, j)))})
        parts = C.fn(f"{KS}:get_diagonal_split_noise_components")(d)
        C.ensure("parts", len(parts) == m)
        for a in range(m):
            C.equal(f"part[{a}]", parts[a], {"basis": want, "data": C.lam([(s.n, b.n)], lambda i, j: at(a, i, j))})
