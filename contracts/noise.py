"""Sampled noise: the expectation over the random numbers is taken exactly, every number drawn is an unknown of its own."""
from contracts._common import *
from contracts.operators import *

KS = "kernel.sample"
K = "kernel.kernel"


def noise_ops(C, l, b, diag=True):
    L = mk(C, l, "L")
    B = mk(C, b, "B")
    n = C.array("w", [L.n], dt="f", pos=True)
    ops = doplist(C, L, B) if diag else oplist(C, L, B, B)
    return {**ops, "eigenvalue": n}


@lemma("sample_noise_from_diagonal_operators", ["P29"], cases=[dict(l=l, b=b) for l, b in (("F", "F"), ("f", "r"), ("FT", "F"), ("F", "FT"))])
class snd:
    """Each sample has mean zero; E[conj N(x) N(y)] is hbar times the kernel of the operators, E[N(x) N(y)] is zero and different samples are independent."""

    def body(C, l, b):
        ops = noise_ops(C, l, b)
        B = ops["basis"]._axes[1]
        N = B._axes[0].n
        S_ = C.size("S")
        seen = []

        def draw():
            out = C.fn(f"{KS}:sample_noise_from_diagonal_operators")(ops, n_samples=S_)
            seen.append(out["basis"])
            return out["data"]
        m, mean = C.second_moment(draw, [S_, N])
        C.equal("basis", seen[0], C.tuple_basis(C.basis("FundamentalBasis")(S_), B))
        C.equal("mean", mean, C.lam([(S_, N)], lambda s, i: 0))
        kern = C.at(C.regroup(C.fn(f"{K}:get_diagonal_kernel_from_diagonal_operators")(ops)["data"], 0, [N, N]))
        C.equal("variance", m, C.lam([(S_, N, S_, N)], lambda s, i, t, j: C.ite(C.eq(s, t), lambda: C.const("hbar") * kern(j, i), lambda: 0)))
        m, _ = C.second_moment(draw, [S_, N], conj=False)
        C.equal("phase", m, C.lam([(S_, N, S_, N)], lambda s, i, t, j: 0))


@lemma("sample_noise_from_diagonal_operators_split", ["P29"], cases=[dict(l=l, b=b) for l, b in (("F", "F"), ("f", "r"), ("FT", "F"), ("F", "FT"))])
class sns:
    """The parts of different operators are independent, each with the kernel of its operator."""

    def body(C, l, b):
        ops = noise_ops(C, l, b)
        L, B = ops["basis"]._axes
        N = B._axes[0].n
        S_ = C.size("S")
        seen = []

        def draw():
            out = C.fn(f"{KS}:sample_noise_from_diagonal_operators_split")(ops, n_samples=S_)
            seen.append(out["basis"])
            return out["data"]
        m, mean = C.second_moment(draw, [L.n, S_, N])
        C.equal("basis", seen[0], C.tuple_basis(C.tuple_basis(L, C.basis("FundamentalBasis")(S_)), B))
        C.equal("mean", mean, C.lam([(L.n, S_, N)], lambda a, s, i: 0))
        w, d = C.at(ops["eigenvalue"]), C.at(C.regroup(ops["data"], 0, [L.n, N]))
        C.equal("variance", m, C.lam([(L.n, S_, N) * 2], lambda a, s, i, b, t, j: C.ite(C.eq(a, b), lambda: C.ite(C.eq(s, t), lambda: C.const("hbar") * w(a) * d(a, i) * C.conj(d(a, j)), lambda: 0), lambda: 0)))


@lemma("split noise", ["P29"], cases=[dict(l=l, b=b) for l, b in (("F", "F"), ("f", "r"), ("F", "FT"))])
class spn:
    """The noise is the sum of the parts of each operator; each part is given on its own."""

    def body(C, l, b):
        L, B = mk(C, l, "L"), mk(C, b, "B")
        S_ = C.size("S")
        F = C.basis("FundamentalBasis")(S_)
        N = B.n
        BB = C.tuple_basis(B, B)
        split = {"basis": C.tuple_basis(C.tuple_basis(L, F), BB), "data": C.array("D", [(L.n, S_, N)])}
        d = C.at(C.regroup(split["data"], 0, [L.n, S_, N]))
        C.equal("sum", C.fn(f"{KS}:diagonal_operator_list_from_diagonal_split")(split), {"basis": C.tuple_basis(F, BB), "data": C.lam([(S_, N)], lambda s, i: C.sum((L.n,), lambda a: d(a, s, i)))})
        n, part = C.items(C.fn(f"{KS}:get_diagonal_split_noise_components")(split))
        C.equal("number", n, L.n)
        k = C.int("k", 0, L.n - 1)
        C.equal("part", part(k), {"basis": C.tuple_basis(F, BB), "data": C.lam([(S_, N)], lambda s, i: d(k, s, i))})


@lemma("sample_noise_from_operators", ["P29"], cases=[dict(l=l, b=b) for l, b in (("F", "F"), ("f", "r"), ("FT", "F"))])
class sno:
    """E[conj N(i, j) N(k, l)] is hbar times the kernel of the operators."""

    def body(C, l, b):
        ops = noise_ops(C, l, b, diag=False)
        B = ops["basis"]._axes[1]
        N = B._axes[0].n * B._axes[1].n
        L = ops["basis"]._axes[0].n
        S_ = C.size("S")
        seen = []

        def draw():
            out = C.fn(f"{KS}:sample_noise_from_operators")(ops, n_samples=S_)
            seen.append(out["basis"])
            return out["data"]
        m, mean = C.second_moment(draw, [S_, N])
        C.equal("basis", seen[0], C.tuple_basis(C.basis("FundamentalBasis")(S_), B))
        C.equal("mean", mean, C.lam([(S_, N)], lambda s, i: 0))
        w, d = C.at(ops["eigenvalue"]), C.at(C.regroup(ops["data"], 0, [L, N]))
        C.equal("variance", m, C.lam([(S_, N, S_, N)], lambda s, i, t, j: C.ite(C.eq(s, t), lambda: C.const("hbar") * C.sum((L,), lambda a: w(a) * d(a, i) * C.conj(d(a, j))), lambda: 0)))
        m, _ = C.second_moment(draw, [S_, N], conj=False)
        C.equal("phase", m, C.lam([(S_, N, S_, N)], lambda s, i, t, j: 0))


@lemma("sample_noise_from_diagonal_kernel", ["P29"], cases=[dict(k=k, t=t) for k in ("F", "f") for t in (0, 1)])
class snk:
    """Noise sampled from a kernel has that kernel; with a truncation that of the operators that are kept."""

    bounded = "the engine does not know that the eigenvalues of a positive matrix are positive"

    def body(C, k, t):
        B = mk(C, k, "B")
        N = B.n
        a = C.at(C.array("A", [N, N]))
        kern = {"basis": C.tuple_basis(C.tuple_basis(B, B), C.tuple_basis(B, B)), "data": C.lam([(N, N)], lambda i, j: C.sum((N,), lambda s: C.conj(a(s, i)) * a(s, j)))}
        keep = None
        want = kern
        if t:
            keep = list(range(0, N, 2))
            ops = C.fn("kernel.solve._eigenvalue:get_periodic_noise_operators_diagonal_eigenvalue")(kern)
            want = C.fn(f"{K}:get_diagonal_kernel_from_diagonal_operators")(C.fn(f"kernel.build:truncate_diagonal_noise_operator_list")(ops, keep))
        S_ = C.size("S")
        m, _ = C.second_moment(lambda: C.fn(f"{KS}:sample_noise_from_diagonal_kernel")(kern, n_samples=S_, truncation=keep)["data"], [S_, N])
        w = C.at(C.regroup(want["data"], 0, [N, N]))
        C.equal("variance", m, C.lam([(S_, N, S_, N)], lambda s, i, t, j: C.ite(C.eq(s, t), lambda: C.const("hbar") * w(j, i), lambda: 0)))
