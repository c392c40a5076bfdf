"""Probability vectors and lists of them."""
from contracts._common import *

PV = "probability_vector.probability_vector"
PC = "probability_vector.conversion"


@contract(f"{PV}:from_state_vector", ["P14"], cases=[dict(k=k) for k in ("F", "FT")])
class fsv:
    """The probabilities are the squared moduli of the coefficients."""

    def inputs(C, k):
        return (vec(C, mk(C, k, "A")),)

    def result(C, state):
        at = C.at(state["data"])
        return {"basis": state["basis"], "data": C.lam(state["data"].shape, lambda *i: C.abs2(at(*i)))}


@contract(f"{PV}:from_state_vector_list", ["P14"], cases=[dict(l=l, k=k) for l, k in (("f", "F"), ("ff", "FT"))])
class fsl:
    def inputs(C, l, k):
        return (lst(C, mk(C, l, "L"), mk(C, k, "A")),)

    def result(C, states):
        at = C.at(states["data"])
        return {"basis": states["basis"], "data": C.lam(states["data"].shape, lambda *i: C.abs2(at(*i)))}


@contract(f"{PV}:get_probability", ["P14"], cases=[dict(l=l, k=k, i=i) for l, k, i in (("f", "F", None), ("f", "FT", "flat"), ("ff", "F", "flat"), ("ff", "FT", "tuple"), ("fff", "F", "tuple"))])
class gp:
    """The idx-th probability vector of the list (the first by default)."""

    def inputs(C, l, k, i):
        L = mk(C, l, "L")
        d = dims_of(L)
        idx = {None: None, "flat": C.int("i", 0, L.n - 1), "tuple": tuple(C.int(f"i{j}", 0, x - 1) for j, x in enumerate(d))}[i]
        return (lst(C, L, mk(C, k, "A")), idx)

    def result(C, probabilities, idx=None):
        b0, b1 = probabilities["basis"]._axes
        if isinstance(idx, tuple):
            f = 0
            for i, n in zip(idx, dims_of(b0)):
                f = f * n + i
            idx = f
        at = C.at(split2(C, probabilities["data"], b0, b1))
        return {"basis": b1, "data": C.lam([b1.n], lambda j: at(0 if idx is None else idx, j))}


@contract(f"{PV}:get_probability_along_axis", ["P14"], cases=[dict(l=l, axes=a, idx=i) for l, a, i in (("ff", (0,), 0), ("ff", (1,), 1), ("fff", (0, 2), 1), ("fff", (2, 0), 1), ("ff", (1, 0), 0), ("fff", (1,), 1))])
class gpaa:
    """The sub-list along the chosen axes (in that order) with the other indices fixed."""

    def inputs(C, l, axes, idx):
        L = mk(C, l, "L")
        d = dims_of(L)
        return (lst(C, L, mk(C, "F", "A")), axes, tuple(C.int(f"i{k}", 0, d[k] - 1) for k in range(len(d)) if k not in axes) if idx else None)

    def result(C, probabilities, axes=(0,), idx=None):
        b0, b1 = probabilities["basis"]._axes
        d = dims_of(b0)
        rest = [k for k in range(len(d)) if k not in axes]
        idx = (0,) * len(rest) if idx is None else idx
        at = C.at(probabilities["data"], d + [b1.n])

        def fn(*j):
            full = [None] * len(d)
            for k, v in zip(rest, idx):
                full[k] = v
            for k, v in zip(axes, j):
                full[k] = v
            return at(*full, j[-1])

        return {"basis": C.tuple_basis(C.tuple_basis(*[b0._axes[k] for k in axes]), b1), "data": C.lam([tuple([d[k] for k in axes] + [b1.n])], fn)}


def over(C, at, n, axes, w=None, mean=False, post=0, pre=0):
    """fn(kept indices): the sum (mean, weighted mean) of at over the given axes among n."""
    keep = [i for i in range(len(n)) if i not in axes]

    def fn(*j):
        head, j, tail = j[:pre], j[pre:len(j) - post], j[len(j) - post:]

        def term(*a):
            full = [None] * len(n)
            for i, v in zip(keep, j):
                full[i] = v
            for i, v in zip(axes, a):
                full[i] = v
            return at(*head, *full, *tail) * (w(*a) if w else 1)
        r = C.sum(tuple(n[i] for i in axes), term)
        if w:
            return r / C.sum((n[axes[0]],), lambda i: w(i))
        if mean:
            for i in axes:
                r = r / n[i]
        return r
    return keep, fn


@contract(f"{PV}:sum_probability", ["P14"], cases=[dict(k=k, axis=a) for k, a in (("FT", (0,)), ("FT", (1,)), ("FFF", (2, 0)), ("FFF", (0, 1)), ("FFF", (1, 2)), ("FFF", (0, 2)), ("FTF", (1,)), ("FT", None), ("F,", None))])
class sp:
    """The marginal over the remaining parts of the basis."""

    def inputs(C, k, axis):
        b = mk(C, k, "A")
        return ({"basis": b, "data": C.array("p", [tuple(dims_of(b))])}, axis)

    def result(C, probability, axis):
        b = probability["basis"]
        n = dims_of(b)
        axis = tuple(range(len(n))) if axis is None else axis
        keep, fn = over(C, C.at(probability["data"], n), n, axis)
        return {"basis": C.tuple_basis(*[b._axes[i] for i in keep]), "data": C.lam([tuple(n[i] for i in keep)] if keep else [1], fn if keep else (lambda _i: fn()))}


@contract(f"{PV}:sum_probabilities", ["P14"], cases=[dict(k=k, axis=a) for k, a in (("FT", (0,)), ("FT", (1,)), ("FFF", (2, 0)), ("FFF", (0, 1)), ("FFF", (1, 2)), ("FFF", (0, 2)), ("FFF", (1,)), ("FT", None), ("FFF", None), ("F,", None))])
class sps:
    """The marginal of every member of the list."""

    def inputs(C, k, axis):
        return (lst(C, mk(C, "f", "L"), mk(C, k, "A")), axis)

    def result(C, probabilities, axis=None):
        L, b = probabilities["basis"]._axes
        n = dims_of(b)
        axis = tuple(range(len(n))) if axis is None else axis
        keep, fn = over(C, C.at(probabilities["data"], [L.n] + n), n, axis, pre=1)
        return {"basis": C.tuple_basis(L, C.tuple_basis(*[b._axes[i] for i in keep])), "data": C.lam([tuple([L.n] + [n[i] for i in keep])], fn)}


@contract(f"{PV}:average_probabilities", ["P14"], cases=[dict(l=l, axis=a, w=w) for l, a, w in (("f", None, 0), ("ff", (0,), 0), ("ff", (1,), 0), ("fff", (2, 0), 0), ("fff", (0, 1), 0), ("fff", (1, 2), 0), ("fff", (0, 2), 0), ("ff", (0,), 1), ("fff", (1,), 1))])
class ap:
    """The (weighted) mean over the chosen axes of the list; over the whole list by default."""

    has_kwargs = True

    def inputs(C, l, axis, w):
        L = mk(C, l, "L")
        return ((lst(C, L, mk(C, "F", "A")), axis), dict(weights=C.array("w", [dims_of(L)[axis[0]]], pos=True)) if w else {})

    def result(C, probabilities, axis=None, *, weights=None):
        b0, b1 = probabilities["basis"]._axes
        if axis is None:
            keep, fn = over(C, C.at(split2(C, probabilities["data"], b0, b1)), [b0.n], (0,), mean=True, post=1)
            return {"basis": b1, "data": C.lam([b1.n], fn)}
        d = dims_of(b0)
        keep, fn = over(C, C.at(probabilities["data"], d + [b1.n]), d, axis, w=C.at(weights) if weights is not None else None, mean=True, post=1)
        return {"basis": C.tuple_basis(C.tuple_basis(*[b0._axes[k] for k in keep]), b1), "data": C.lam([tuple([d[k] for k in keep] + [b1.n])], fn)}


@lemma("probability[marginals]", ["P14"], cases=[dict(k=k) for k in ("FT", "FFF")])
class marg:
    """Summing over one axis and then over the rest is summing over all; the total is the squared norm of the state."""

    def body(C, k):
        b = mk(C, k, "A")
        v = vec(C, b)
        p = C.fn(f"{PV}:from_state_vector")(v)
        s = C.fn(f"{PV}:sum_probability")
        once = s(p, (1,))
        allax = tuple(range(len(dims_of(b)) - 1))
        C.equal("total", s(once, allax)["data"], s(p, tuple(range(len(dims_of(b)))))["data"])
        n = C.fn("state_vector.state_vector:calculate_normalization")(v)
        C.equal("norm", C.at(s(p, tuple(range(len(dims_of(b)))))["data"])(0), n)


for _n, _to in (("convert_probability_vector_to_basis", None), ("convert_probability_vector_to_position_basis", "pos"), ("convert_probability_vector_to_momentum_basis", "mom")):
    def _mk(_n, _to):
        @contract(f"{PC}:{_n}", ["P14"], cases=[dict(a=a, b=b) for a, b in ((("F", "T"), ("FT", "TF")) if _to is None else (("f", None), ("fr", None), ("ft", None)))])
        class _c:
            """The vector is converted as any other vector."""

            def inputs(C, a, b):
                if _to is not None:
                    p = mk_pos(C, a, "A")
                    return ({"basis": p, "data": C.array("v", [tuple(x.n for x in p._axes)])},)
                fns = [C.size(f"N{i}") for i in range(len(a))]
                return (vec(C, mk(C, a, "A", fns)), mk(C, b, "B", fns))

            def result(C, probability_vector, basis=None):
                b = probability_vector["basis"]
                if _to is not None:
                    basis = (fund_pos if _to == "pos" else fund_mom)(C, b)
                return {"basis": basis, "data": S.conv(C, probability_vector["data"], b, basis, -1)}
    _mk(_n, _to)


@contract(f"{PC}:convert_probability_vector_list_to_basis", ["P14"], cases=[dict(l=l, a=a, b=b) for l, a, b in (("f", "F", "T"), ("ff", "FT", "TF"))])
class cpl:
    """Every member is converted."""

    def inputs(C, l, a, b):
        fns = [C.size(f"N{i}") for i in range(len(a))]
        return (lst(C, mk(C, l, "L"), mk(C, a, "A", fns)), mk(C, b, "B", fns))

    def result(C, probability_vector, basis):
        b0, b1 = probability_vector["basis"]._axes
        v = S.conv(C, split2(C, probability_vector["data"], b0, b1), b1, basis, 1)
        return {"basis": C.tuple_basis(b0, basis), "data": flatten(C, v)}
