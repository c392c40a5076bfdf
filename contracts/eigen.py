"""Eigenstates, functions of operators, and time evolution in the eigenbasis."""
from contracts._common import *
from contracts.operators import mat, op

EC = "state_vector.eigenstate_calculation"
O = "operator.operator"
SS = "dynamics.schrodinger.solve"
OP = "operator.operations"
TB = "basis.time_basis_like"


def herm(C, b, name="H", unit=1):
    """hermitian operator in basis b (unit: a positive constant, so that samples have a sensible magnitude)"""
    n = dims_of(b)
    k = len(n)
    at = C.at(C.array(name, [tuple(n + n)]), n + n)
    return {"basis": C.tuple_basis(b, b), "data": C.lam([tuple(n + n)], lambda *i: unit * (at(*i) + C.conj(at(*i[k:], *i[:k]))) / 2)}


def omat(C, o):
    """operator data as a matrix with flat indices"""
    b0, b1 = o["basis"]._axes
    return C.regroup(o["data"], 0, [b0.n, b1.n])


@contract(f"{EC}:calculate_eigenvectors_hermitian", ["P17"], cases=[dict(k=k, sub=s) for k in ("F", "T", "FT") for s in (0, 1)])
class ceh:
    """The eigenstates are orthonormal; with their eigenvalues they make up the operator, and they are complete.
    With subset_by_index they are the chosen ones among them."""

    def inputs(C, k, sub):
        b = mk(C, k, "A")
        s = None
        if sub:
            lo = C.int("lo", lo=0, hi=b.n - 1)
            s = (lo, C.int("hi", lo=lo, hi=b.n - 1))
        return (herm(C, b), s)

    def ensures(C, out, operator, subset_by_index=None):
        b = operator["basis"]._axes[0]
        n = b.n
        m = n if subset_by_index is None else subset_by_index[1] - subset_by_index[0] + 1
        C.equal("basis", out["basis"], C.tuple_basis(C.basis("FundamentalBasis")(m), b))
        v = C.regroup(out["data"], 0, [m, n])
        at, e = C.at(v), C.at(out["eigenvalue"])
        C.equal("orthonormal", C.lam([m, m], lambda k, l: C.sum((n,), lambda i: C.conj(at(k, i)) * at(l, i))), C.lam([m, m], lambda k, l: C.delta(k, l)))
        C.equal("real", C.lam([m], lambda k: C.im(e(k))), C.lam([m], lambda k: 0))
        if subset_by_index is None:
            C.equal("makes up the operator", C.lam([n, n], lambda i, j: C.sum((n,), lambda k: at(k, i) * e(k) * C.conj(at(k, j)))), omat(C, operator))
            C.equal("complete", C.lam([n, n], lambda i, j: C.sum((n,), lambda k: at(k, i) * C.conj(at(k, j)))), C.lam([n, n], lambda i, j: C.delta(i, j)))
        else:
            lo = subset_by_index[0]
            full = C.fn(f"{EC}:calculate_eigenvectors_hermitian")(operator)
            fe = C.at(full["eigenvalue"])
            C.equal("chosen", out["eigenvalue"], C.lam([m], lambda k: fe(k + lo)))
            if C.mode == "sym":
                fa = C.at(C.regroup(full["data"], 0, [n, n]))
                C.equal("chosen states", v, C.lam([m, n], lambda k, i: fa(k + lo, i)))


@lemma("operator_from_eigenstates[round trip]", ["P17"], cases=[dict(k=k, h=h) for k in ("F", "T", "FT") for h in (0, 1)])
class ofe:
    """The operator made from the eigenstates of a (diagonalisable) operator is the operator."""

    def body(C, k, h):
        b = mk(C, k, "A")
        o = herm(C, b) if h else op(C, b, b)
        st = C.fn(f"{EC}:" + ("calculate_eigenvectors_hermitian" if h else "calculate_eigenvectors"))(o)
        C.equal("operator", C.fn(f"{EC}:operator_from_eigenstates")(st), o)


@contract(f"{O}:apply_function_to_operator", ["P17"], cases=[dict(k=k) for k in ("F", "FT")])
class afo:
    """f applied to the eigenvalues, with the same eigenvectors."""

    def inputs(C, k):
        b = mk(C, k, "A")
        return (op(C, b, b), lambda x: x * x + 3 * x.conj())

    def result(C, operator, fn):
        b = operator["basis"]._axes[0]
        l, v = C.eig(omat(C, operator))
        w = C.at(C.inv(v))
        f, v = C.at(fn(l)), C.at(v)
        return {"basis": operator["basis"], "data": C.lam([(b.n, b.n)], lambda i, j: C.sum((b.n,), lambda k: v(i, k) * f(k) * w(k, j)))}


@lemma("apply_function_to_operator[functional calculus]", ["P17"], cases=[dict(k=k) for k in ("F", "FT")])
class afc:
    """The identity function gives the operator, a constant the unit operator, and products of functions products of operators."""

    def body(C, k):
        b = mk(C, k, "A")
        o = op(C, b, b)
        f = C.fn(f"{O}:apply_function_to_operator")
        mm = C.fn(f"{O}:matmul_operator")
        C.equal("identity", f(o, lambda x: x), o)
        C.equal("unit", f(o, lambda x: 0 * x + 1), {"basis": o["basis"], "data": C.lam([(b.n, b.n)], lambda i, j: C.delta(i, j))})
        C.equal("product", mm(f(o, lambda x: x + 2), f(o, lambda x: x * x)), f(o, lambda x: (x + 2) * x * x))


@lemma("exp_operator", ["P17"], cases=[dict(k=k) for k in ("F", "FT")])
class exo:
    """exp(A) exponentiates the eigenvalues and keeps the eigenvectors."""

    def body(C, k):
        b = mk(C, k, "A")
        o = op(C, b, b)
        e = C.fn(f"{OP}:exp_operator")(o)
        C.equal("exp", e, C.fn(f"{O}:apply_function_to_operator")(o, lambda x: C.exp_array(x)))


def times_basis(C, kind, name="t"):
    T = C.mod(TB)
    if kind == "E":
        return T.ExplicitTimeBasis(C.array(name, [C.size(f"{name}_n")], dt="f"))
    n, s = C.size(f"{name}_n"), C.size(f"{name}_s")
    return T.EvenlySpacedTimeBasis(n, s, C.int(f"{name}_o", lo=-3 if C.mode == "con" else None, hi=3 if C.mode == "con" else None), C.real(f"{name}_dt", pos=True))


def phase(C, e, t):
    """exp(-i e t / hbar)"""
    return C.expi(-e * t / C.const("hbar"))


@contract(f"{SS}:get_state_vector_decomposition", ["P18"], cases=[dict(k=k) for k in ("F", "T", "FT")])
class gsd:
    """The components of a state in orthonormal eigenstates."""

    def inputs(C, k):
        b, L = mk(C, k, "A"), mk(C, "f", "L")
        return (vec(C, b), {**lst(C, L, b), "eigenvalue": C.array("e", [L.n])})

    def result(C, initial_state, eigenstates):
        L, b = eigenstates["basis"]._axes
        at, ps = C.at(eigenstates["data"], [L.n, b.n]), C.at(initial_state["data"], [b.n])
        return {"basis": C.tuple_basis(L, L), "data": C.lam([L.n], lambda k: C.sum((b.n,), lambda i: C.conj(at(k, i)) * ps(i)))}


@contract(f"{SS}:solve_schrodinger_equation_decomposition", ["P18"], cases=[dict(k=k, t=t) for k in ("F", "T", "FT") for t in "EV"])
class ssd:
    """psi(t) = exp(-i H t / hbar) psi(0) at each of the times."""

    asserts = True

    def inputs(C, k, t):
        b = mk(C, k, "A")
        return (vec(C, b), times_basis(C, t), herm(C, b, unit=C.const("hbar")))

    def ensures(C, out, initial_state, times, hamiltonian):
        b = initial_state["basis"]
        n = b.n
        e, u = C.eigh(omat(C, hamiltonian))
        e, u, ps, tt = C.at(e), C.at(u), C.at(initial_state["data"], [n]), C.at(times.times)
        C.equal("basis", out["basis"], C.tuple_basis(times, b))
        C.equal("states", C.lam([times.n, n], C.at(out["data"], [times.n, n])),
                C.lam([times.n, n], lambda t, i: C.sum((n, n), lambda k, j: u(i, k) * phase(C, e(k), tt(t)) * C.conj(u(j, k)) * ps(j))))


@lemma("solve_schrodinger_equation_decomposition[unitary]", ["P18"], cases=[dict(k=k) for k in ("F", "FT")])
class ssu:
    """Evolution starts from the initial state, conserves every inner product, and is reversed by going back in time;
    the expectation of the hamiltonian is conserved."""

    def body(C, k):
        b = mk(C, k, "A")
        n = b.n
        h, p, q = herm(C, b, unit=C.const("hbar")), vec(C, b, "p"), vec(C, b, "q")
        ev = C.fn(f"{SS}:solve_schrodinger_equation_decomposition")
        T = C.mod(TB)
        s = C.real("s")
        at_s = T.ExplicitTimeBasis(C.const_array([s]))
        back = T.ExplicitTimeBasis(C.const_array([-s]))

        def run(x, tb):
            r = ev(x, tb, h)
            return {"basis": b, "data": C.lam([n], lambda i: C.at(r["data"], [1, n])(0, i))}

        C.equal("start", C.lam([n], C.at(run(p, T.ExplicitTimeBasis(C.const_array([0 * s])))["data"])), C.lam([n], C.at(p["data"], [n])))
        ps, qs = run(p, at_s), run(q, at_s)
        dot = lambda x, y: C.sum((n,), lambda i: C.conj(C.at(x["data"], [n])(i)) * C.at(y["data"], [n])(i))
        C.equal("inner products", dot(ps, qs), dot(p, q))
        C.equal("reversed", run(ps, back)["data"], C.lam([n], C.at(p["data"], [n])))
        H = C.at(omat(C, h))
        e, u = C.eigh(omat(C, h))
        e, u = C.at(e), C.at(u)
        en = lambda x: C.sum((n, n, n), lambda i, k, j: C.conj(C.at(x["data"], [n])(i)) * u(i, k) * e(k) * C.conj(u(j, k)) * C.at(x["data"], [n])(j))
        C.equal("energy", en(ps), en(p))


@contract(f"{SS}:solve_schrodinger_equation_diagonal", ["P18"], cases=[dict(a=a, b=b, t=t) for a, b in (("F", "F"), ("F", "T"), ("FT", "TF")) for t in "EV"])
class sdg:
    """In the eigenbasis each coefficient turns by exp(-i E t / hbar)."""

    def inputs(C, a, b, t):
        b1 = mk(C, b, "B")
        b0 = b1 if a == b else mk(C, a, "A", fns_of(b1))
        if a != b:
            C.require(S.same(C, b0, b1))
        E = C.at(C.array("E", [flat(b1)], dt="f"), dims_of(b1))
        return (vec(C, b0), times_basis(C, t), {"basis": C.tuple_basis(b1, b1), "data": C.lam([flat(b1)], lambda *i: C.const("hbar") * E(*i))})

    def ensures(C, out, initial_state, times, hamiltonian):
        b = hamiltonian["basis"]._axes[0]
        n = b.n
        v = C.at(S.conv(C, initial_state["data"], initial_state["basis"], b), [n])
        e, tt = C.at(hamiltonian["data"], [n]), C.at(times.times)
        C.equal("basis", out["basis"], C.tuple_basis(times, b))
        C.equal("states", C.lam([times.n, n], C.at(out["data"], [times.n, n])), C.lam([times.n, n], lambda t, i: v(i) * phase(C, e(i), tt(t))))


@contract(f"{SS}:solve_schrodinger_equation", ["P18"], cases=[dict(k=k) for k in ("F", "FT")])
class sqt:
    """The numerical solution is the state exp(-i H t / hbar) psi(0) at each of the times."""

    bounded = "the equation is integrated by qutip: compared at sampled hamiltonians, states and times"
    atol = 2e-4

    def inputs(C, k):
        b = mk(C, k, "A")
        # the step of the times is the largest number of steps of the integrator
        times = C.mod(TB).EvenlySpacedTimeBasis(C.size("t_n") + 1, 2000, C.int("t_o", lo=0, hi=2), C.real("t_dt", pos=True))
        return (vec(C, b), times, herm(C, b, unit=C.const("hbar")))

    ensures = ssd.ensures


def basis_of_eigenstates(fn, cls):
    @contract(f"{EC}:{fn}", ["P17"], cases=[dict(k=k, sub=s) for k in ("F", "FT") for s in (0, 1)])
    class ebh:
        """The basis of the (chosen) eigenstates of a hermitian operator."""

        inputs = ceh.inputs

        def ensures(C, out, hamiltonian, subset_by_index=None):
            ceh.ensures(C, out.vectors, hamiltonian, subset_by_index)
            C.ensure("class", type(out).__name__ == cls)


basis_of_eigenstates("get_eigenstate_basis_from_hamiltonian", "ExplicitBasis")
basis_of_eigenstates("get_eigenstate_basis_stacked_from_hamiltonian", "ExplicitStackedBasisWithLength")
