"""State vectors and lists of state vectors."""
from contracts._common import *

CV = "state_vector.conversion"
SV = "state_vector.state_vector"
SL = "state_vector.state_vector_list"

PAIRS = [("F", "F"), ("F", "T"), ("T", "F"), ("FT", "TF"), ("ff", "rt"), ("F,", "T,")]


def conv_pair(C, a, b):
    b1 = mk(C, a, "A")
    return b1, mk(C, b, "B", fns_of(b1))


@contract(f"{CV}:convert_state_vector_to_basis", ["P11"], cases=[dict(a=a, b=b) for a, b in PAIRS])
class csv:
    """The converted state carries the target basis and the converted coefficients."""

    def inputs(C, a, b):
        b1, b2 = conv_pair(C, a, b)
        return (vec(C, b1), b2)

    def requires(C, state_vector, basis):
        C.require(S.same(C, state_vector["basis"], basis))

    def result(C, state_vector, basis):
        return {"basis": basis, "data": S.conv(C, state_vector["data"], state_vector["basis"], basis)}


@contract(f"{CV}:convert_state_dual_vector_to_basis", ["P11"], cases=[dict(a=a, b=b) for a, b in PAIRS])
class csd:
    inputs, requires = csv.inputs, csv.requires

    def result(C, state_vector, basis):
        return {"basis": basis, "data": C.conj_array(S.conv(C, C.conj_array(state_vector["data"]), state_vector["basis"], basis))}


@contract(f"{CV}:convert_state_vector_list_to_basis", ["P11"], cases=[dict(l=l, a=a, b=b) for l, a, b in (("f", "F", "T"), ("f", "F", "F"), ("ff", "T", "F"), ("f", "FT", "TF"), ("ff", "ff", "rt"))])
class csl:
    """Every state of the list is converted, in order."""

    def inputs(C, l, a, b):
        b1, b2 = conv_pair(C, a, b)
        return (lst(C, mk(C, l, "L"), b1), b2)

    def requires(C, state_vector, basis):
        C.require(S.same(C, state_vector["basis"]._axes[1], basis))

    def result(C, state_vector, basis):
        b0, b1 = state_vector["basis"]._axes
        v = S.conv(C, split2(C, state_vector["data"], b0, b1), b1, basis, 1)
        return {"basis": C.tuple_basis(b0, basis), "data": flatten(C, v)}


for _dual in (False, True):
    for _to in ("position", "momentum"):
        def _mk(dual, to):
            @contract(f"{CV}:convert_state_{'dual_' if dual else ''}vector_to_{to}_basis", ["P11"], cases=[dict(k=k) for k in ("f", "t", "r", "fr", "tt")])
            class _c:
                """The state on the full position (momentum) grid of its own cell."""

                def inputs(C, k):
                    return (vec(C, mk_pos(C, k)),)

                def result(C, state_vector):
                    b = state_vector["basis"]
                    f = (fund_pos if to == "position" else fund_mom)(C, b)
                    return (csd if dual else csv).result(C, state_vector, f)
        _mk(_dual, _to)


@contract(f"{CV}:interpolate_state_vector_momentum", ["P11"], cases=[dict(k=k, axes=a) for k, a in (("f", (0,)), ("fr", (0, 1)), ("ff", (1, 0)), ("ff", (1,)), ("ff", (0,)), ("fff", (2, 0)))])
class ism:
    """The interpolated state has the same Fourier series, so the same value at every point of the original grid."""

    def inputs(C, k, axes):
        b = mk_pos(C, k)
        return (vec(C, b), tuple(C.size(f"s{i}", lo=b._axes[a].fundamental_n) for i, a in enumerate(axes)), axes)

    def result(C, state_vector, shape, axes):
        b = state_vector["basis"]
        B = C.mod("basis.basis")
        m = fund_mom(C, b)
        out, scale = [], 1
        for k, x in enumerate(m._axes):
            if k in axes:
                s = shape[axes.index(k)]
                out.append(B.TransformedPositionBasis(x.delta_x, x.n, s))
                scale = scale * C.sqrt(s) / C.sqrt(x.n)
            else:
                out.append(x)
        v = S.conv(C, state_vector["data"], b, m)
        at = C.at(v, dims_of(m))
        return {"basis": C.tuple_basis(*out), "data": C.lam([tuple(dims_of(m))], lambda *i: scale * at(*i))}


for _n in ("as_vector", "as_dual_vector"):
    def _mkd(n):
        @contract(f"{SV}:{n}", ["P11"])
        class _c:
            """A vector and its dual are related by complex conjugation."""

            def inputs(C):
                return (vec(C, mk(C, "F", "A")),)

            def result(C, vector):
                return {"basis": vector["basis"], "data": C.conj_array(vector["data"])}
    _mkd(_n)


@contract(f"{SV}:calculate_normalization", ["P11"], cases=[dict(k=k) for k in ("F", "FT")])
class cn:
    """The norm is the sum of squared moduli."""

    def inputs(C, k):
        return (vec(C, mk(C, k, "A")),)

    def result(C, state):
        b = state["basis"]
        at = C.at(state["data"], dims_of(b))
        return C.sum(tuple(dims_of(b)), lambda *i: C.abs2(at(*i)))


@contract(f"{SV}:calculate_inner_product", ["P11"], cases=[dict(k=k) for k in ("F", "FT")])
class cip:
    def inputs(C, k):
        b = mk(C, k, "A")
        return (vec(C, b, "v"), vec(C, b, "w"))

    def result(C, state_0, state_1):
        d = dims_of(state_0["basis"])
        x, y = C.at(state_0["data"], d), C.at(state_1["data"], d)
        return C.sum(tuple(d), lambda *i: x(*i) * y(*i))


@contract(f"{SL}:calculate_inner_products", ["P11"], cases=[dict(l=l, m=m, a=a, b=b) for l, m, a, b in (("f", "f", "F", "F"), ("f", "f", "F", "T"), ("ff", "f", "T", "F"), ("f", "f", "FT", "TF"), ("ff", "ff", "F", "F"))])
class cips:
    """Entry (i, j) is <state_0 i | state_1 j>, whatever bases the two lists are stored in."""

    def inputs(C, l, m, a, b):
        b1, b2 = conv_pair(C, a, b)
        return (lst(C, mk(C, l, "L"), b1, "x"), lst(C, mk(C, m, "M"), b2, "y"))

    def requires(C, state_0, state_1):
        C.require(S.same(C, state_0["basis"]._axes[1], state_1["basis"]._axes[1]))

    def result(C, state_0, state_1):
        (a0, a1), (b0, b1) = state_0["basis"]._axes, state_1["basis"]._axes
        x = split2(C, state_0["data"], a0, a1)
        y = S.conv(C, split2(C, state_1["data"], b0, b1), b1, a1, 1)
        nx, ny = len(dims_of(a0)), len(dims_of(b0))
        X, Y = C.at(x, dims_of(a0) + dims_of(a1)), C.at(y, dims_of(b0) + dims_of(a1))
        return {"basis": C.tuple_basis(a0, b0),
                "data": C.lam([tuple(dims_of(a0) + dims_of(b0))], lambda *i: C.sum(tuple(dims_of(a1)), lambda *k: C.conj(X(*i[:nx], *k)) * Y(*i[nx:], *k)))}


@contract(f"{SL}:calculate_inner_products_elementwise", ["P11"], cases=[dict(l=l, a=a, b=b) for l, a, b in (("f", "F", "F"), ("f", "F", "T"), ("ff", "T", "F"), ("f", "FT", "TF"))])
class cipe:
    """Entry i is <state_0 i | state_1 i>."""

    def inputs(C, l, a, b):
        b1, b2 = conv_pair(C, a, b)
        L = mk(C, l, "L")
        return (lst(C, L, b1, "x"), lst(C, L, b2, "y"))

    requires = cips.requires

    def result(C, state_0, state_1):
        (a0, a1), (b0, b1) = state_0["basis"]._axes, state_1["basis"]._axes
        x = split2(C, state_0["data"], a0, a1)
        y = S.conv(C, split2(C, state_1["data"], b0, b1), b1, a1, 1)
        X, Y = C.at(x, dims_of(a0) + dims_of(a1)), C.at(y, dims_of(b0) + dims_of(a1))
        return {"basis": a0, "data": C.lam([flat(a0)], lambda *i: C.sum(tuple(dims_of(a1)), lambda *k: C.conj(X(*i, *k)) * Y(*i, *k)))}


@contract(f"{SL}:calculate_inner_products_eigenvalues", ["P11"], cases=[dict(l=l, a=a) for l, a in (("f", "F"), ("f", "FT"))])
class cipv:
    def inputs(C, l, a):
        b = mk(C, a, "A")
        L, M = mk(C, l, "L"), mk(C, l, "M")
        return (dict(lst(C, L, b, "x"), eigenvalue=C.array("e", [flat(L)])), dict(lst(C, M, b, "y"), eigenvalue=C.array("f", [flat(M)])))

    def result(C, state_0, state_1):
        (a0, a1), (b0, b1) = state_0["basis"]._axes, state_1["basis"]._axes
        X, Y = C.at(state_0["data"], dims_of(a0) + dims_of(a1)), C.at(state_1["data"], dims_of(b0) + dims_of(a1))
        e, f = C.at(state_0["eigenvalue"]), C.at(state_1["eigenvalue"])
        return {"basis": C.tuple_basis(a0, b0), "data": C.lam([(a0.n, b0.n)], lambda i, j: C.conj(e(i)) * f(j) * C.sum(tuple(dims_of(a1)), lambda *k: C.conj(X(i, *k)) * Y(j, *k)))}


@contract(f"{SL}:get_state_vector", ["P11"], cases=[dict(l=l, a=a, idx=i) for l, a, i in (("f", "F", 0), ("f", "FT", 0), ("ff", "F", 0), ("ff", "F", 1), ("fff", "T", 1))])
class gsv:
    """The state at a flat index, or at a stacked index (taken modulo the shape)."""

    def inputs(C, l, a, idx):
        L = mk(C, l, "L")
        if idx:
            i = tuple(C.int(f"i{k}") for k in range(len(l)))
        else:
            i = 0
            for k, n in enumerate(dims_of(L)):
                i = i * n + C.int(f"i{k}", 0, n - 1)
        return (lst(C, L, mk(C, a, "A")), i)

    def result(C, state_list, idx):
        b0, b1 = state_list["basis"]._axes
        d = dims_of(b0)
        if isinstance(idx, tuple):
            ix = [C.mod_(i, n) for i, n in zip(idx, d)]
        else:
            ix = []
            for n in reversed(d):
                ix.append(C.mod_(idx, n))
                idx = C.div(idx, n)
            ix = list(reversed(ix))
        at = C.at(state_list["data"], d + dims_of(b1))
        return {"basis": b1, "data": C.lam([flat(b1)], lambda *k: at(*ix, *k))}


@contract(f"{SL}:get_state_dual_vector", ["P11"], cases=[dict(l=l, a=a, idx=0) for l, a in (("f", "F"), ("ff", "F"), ("f", "FT"))])
class gsdv:
    inputs = gsv.inputs

    def result(C, state_list, idx):
        r = gsv.result(C, state_list, idx)
        return {"basis": r["basis"], "data": C.conj_array(r["data"])}


@contract(f"{SL}:get_weighted_state_vector", ["P11"], cases=[dict(l=l, a=a) for l, a in (("f", "F"), ("ff", "F"), ("f", "FT"))])
class gwsv:
    """The superposition sum_i w_i |state i>."""

    def inputs(C, l, a):
        L = mk(C, l, "L")
        return (lst(C, L, mk(C, a, "A")), vec(C, L, "w"))

    def result(C, state_list, weights):
        b0, b1 = state_list["basis"]._axes
        at, w = C.at(state_list["data"], dims_of(b0) + dims_of(b1)), C.at(weights["data"], dims_of(b0))
        return {"basis": b1, "data": C.lam([flat(b1)], lambda *k: C.sum(tuple(dims_of(b0)), lambda *i: w(*i) * at(*i, *k)))}


@contract(f"{SL}:as_state_vector_list", ["P11"], cases=[dict(m=m, a=a) for m in (1, 2, 3) for a in ("F", "FT")])
class asvl:
    def inputs(C, m, a):
        b = mk(C, a, "A")
        return ([vec(C, b, f"v{i}") for i in range(m)],)

    def result(C, states):
        m, el = C.items(states)
        b = el(0)["basis"]
        if type(m) is int:
            ats = [C.at(el(i)["data"], dims_of(b)) for i in range(m)]
            return {"basis": C.tuple_basis(C.basis("FundamentalBasis")(m), b),
                    "data": C.lam([tuple([m] + dims_of(b))], lambda j, *k: sum(C.ite(C.eq(j, i), lambda: ats[i](*k), 0) for i in range(m)))}
        return {"basis": C.tuple_basis(C.basis("FundamentalBasis")(m), b),
                "data": C.lam([tuple([m] + dims_of(b))], lambda j, *k: C.at(el(j)["data"], dims_of(b))(*k))}


@contract(f"{SL}:get_basis_states", ["P11"], cases=[dict(a=a) for a in ("F", "FT")])
class gbs:
    """State i is the i-th basis state."""

    def inputs(C, a):
        return (mk(C, a, "A"),)

    def result(C, basis):
        d = dims_of(basis)
        return {"basis": C.tuple_basis(C.basis("FundamentalBasis")(basis.n), basis),
                "data": C.lam([tuple(d + d)], lambda *k: C.delta(*[x for i in range(len(d)) for x in (k[i], k[i + len(d)])]))}


@contract(f"{SL}:average_state_vector", ["P11"], cases=[dict(l=l, axis=a, w=w) for l, a, w in (("f,", None, 0), ("ff", None, 0), ("ff", (0,), 0), ("ff", (1,), 0), ("fff", (2, 0), 0), ("ff", (0,), 1), ("fff", (1,), 1))])
class asv:
    """The (weighted) mean over the chosen axes of the list."""

    def inputs(C, l, axis, w):
        L = mk(C, l, "L")
        return ((lst(C, L, mk(C, "F", "A")), axis), dict(weights=C.array("w", [dims_of(L)[axis[0]]], pos=True) if w else None))

    has_kwargs = True

    def result(C, probabilities, axis=None, *, weights=None):
        b0, b1 = probabilities["basis"]._axes
        d = dims_of(b0)
        axis = tuple(range(len(d))) if axis is None else axis
        keep = [k for k in range(len(d)) if k not in axis]
        at = C.at(probabilities["data"], d + [b1.n])
        w = C.at(weights) if weights is not None else None
        tot = C.sum(d[axis[0]], lambda i: w(i)) if w else None
        if not w:
            tot = 1
            for k in axis:
                tot = tot * d[k]

        def fn(*j):
            def term(*a):
                full = [None] * len(d)
                for k, v in zip(keep, j):
                    full[k] = v
                for k, v in zip(axis, a):
                    full[k] = v
                return at(*full, j[-1]) * (w(a[0]) if w else 1)
            return C.sum(tuple(d[k] for k in axis), term) / tot

        return {"basis": C.tuple_basis(C.tuple_basis(*[b0._axes[k] for k in keep]), b1), "data": C.lam([tuple([d[k] for k in keep] + [b1.n])], fn)}


@contract(f"{SL}:get_state_along_axis", ["P11"], cases=[dict(l=l, axes=a, idx=i) for l, a, i in (("ff", (0,), 0), ("ff", (1,), 1), ("fff", (0, 2), 1), ("fff", (2, 0), 1), ("ff", (1, 0), 0), ("fff", (1,), 1))])
class gsaa:
    """The sub-list along the chosen axes (in that order) with the other indices fixed."""

    def inputs(C, l, axes, idx):
        L = mk(C, l, "L")
        d = dims_of(L)
        return (lst(C, L, mk(C, "F", "A")), axes, tuple(C.int(f"i{k}", 0, d[k] - 1) for k in range(len(d)) if k not in axes) if idx else None)

    def result(C, states, axes=(0,), idx=None):
        b0, b1 = states["basis"]._axes
        d = dims_of(b0)
        rest = [k for k in range(len(d)) if k not in axes]
        idx = (0,) * len(rest) if idx is None else idx
        at = C.at(states["data"], d + [b1.n])

        def fn(*j):
            full = [None] * len(d)
            for k, v in zip(rest, idx):
                full[k] = v
            for k, v in zip(axes, j):
                full[k] = v
            return at(*full, j[-1])

        return {"basis": C.tuple_basis(C.tuple_basis(*[b0._axes[k] for k in axes]), b1), "data": C.lam([tuple([d[k] for k in axes] + [b1.n])], fn)}


@lemma("state lists[iterate]", ["P11"], cases=[dict(m=m) for m in (1, 2, 3)])
class sli:
    """Taking a list apart and putting it together again gives the list back."""

    def body(C, m):
        B = C.basis("FundamentalBasis")
        l = lst(C, B(m), mk(C, "F", "A"))
        parts = C.fn(f"{SL}:state_vector_list_into_iter")(l)
        C.equal("count", len(list(parts)), m)
        C.equal("list", C.fn(f"{SL}:as_state_vector_list")(list(parts)), l)


@lemma("state conversion[isometry]", ["P11", "P01"], cases=[dict(k=k) for k in "FT"])
class iso:
    """Converting to a complete basis and back returns the state; norms are preserved."""

    def body(C, k):
        b1 = C.abs_basis("A", "F")
        b2 = C.abs_basis("B", k, n=b1.fundamental_n, fn=b1.fundamental_n, complete=True)
        v = vec(C, b1)
        f = C.fn(f"{CV}:convert_state_vector_to_basis")
        w = f(v, b2)
        C.equal("back", f(w, b1), v)
        n = C.fn(f"{SV}:calculate_normalization")
        C.equal("norm", n(w), n(v))
