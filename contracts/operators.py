"""Operators, lists of operators, their products and their action on states."""
from contracts._common import *

O = "operator.operator"
OL = "operator.operator_list"
OC = "operator.conversion"
OP = "operator.operations"


def op(C, b0, b1, name="A", **kw):
    return {"basis": C.tuple_basis(b0, b1), "data": C.array(name, [tuple(dims_of(b0) + dims_of(b1))], **kw)}


def dop(C, b, name="D", **kw):
    """diagonal operator in basis b"""
    return {"basis": C.tuple_basis(b, b), "data": C.array(name, [flat(b)], **kw)}


def oplist(C, L, b0, b1, name="A"):
    return {"basis": C.tuple_basis(L, C.tuple_basis(b0, b1)), "data": C.array(name, [tuple(dims_of(L) + dims_of(b0) + dims_of(b1))])}


def doplist(C, L, b, name="D"):
    return {"basis": C.tuple_basis(L, C.tuple_basis(b, b)), "data": C.array(name, [tuple(dims_of(L) + dims_of(b))])}


def mat(C, o):
    """operator data as a two axis array"""
    b0, b1 = o["basis"]._axes
    return split2(C, o["data"], b0, b1)


def mat3(C, o):
    L, bb = o["basis"]._axes
    parts = [dims_of(L), dims_of(bb._axes[0]), dims_of(bb._axes[1])]
    v = C.regroup(flatten(C, o["data"]), 0, [x for p in parts for x in p])
    for k, p in enumerate(parts):
        v = C.ungroup(v, k, len(p))
    return v


def uav(C, m, i0, f0, i1, f1, ax=(0, 1)):
    """U A V^dagger on two axes."""
    v = S.conv(C, m, i0, f0, ax[0])
    return C.conj_array(S.conv(C, C.conj_array(v), i1, f1, ax[1]))


def diag_full(C, d, b):
    """full matrix (grouped axes) of diagonal data"""
    n = dims_of(b)
    at = C.at(d, n)
    k = len(n)
    return C.lam([flat(b), flat(b)], lambda *i: C.ite([C.eq(i[a], i[a + k]) for a in range(k)], lambda: at(*i[:k]), 0))


@contract(f"{O}:as_operator", ["P12"], cases=[dict(k=k) for k in ("F", "FT")])
class aso:
    """The matrix with the given diagonal, and zero elsewhere."""

    def inputs(C, k):
        return (dop(C, mk(C, k, "A")),)

    def result(C, operator):
        b = operator["basis"]._axes[0]
        return {"basis": operator["basis"], "data": flatten(C, diag_full(C, operator["data"], b))}


@contract(f"{O}:as_diagonal_operator", ["P12"], cases=[dict(k=k) for k in ("F", "FT")])
class asdo:
    def inputs(C, k):
        b = mk(C, k, "A")
        return (op(C, b, b),)

    def result(C, operator):
        b = operator["basis"]._axes[0]
        at = C.at(operator["data"], dims_of(b) * 2)
        return {"basis": operator["basis"], "data": C.lam([flat(b)], lambda *i: at(*i, *i))}


def _over_axes(C, b, data, axes, weights, mean, lead):
    """(remaining basis, its dimensions, entry) of the sum or mean over some of the parts of a basis."""
    wt = C.at(weights) if weights is not None else None
    parts = [dims_of(x) for x in b._axes]
    axes = tuple(range(len(parts))) if axes is None else axes
    keep = [i for i in range(len(parts)) if i not in axes]
    at = C.at(data, lead + dims_of(b))
    dims = tuple(lead) + tuple(d for i in keep for d in parts[i])
    over = tuple(d for i in axes for d in parts[i])

    def fn(*j):
        l, j = j[:len(lead)], j[len(lead):]

        def term(*a):
            full = [None] * len(parts)
            p = 0
            for i in keep:
                full[i] = list(j[p:p + len(parts[i])])
                p += len(parts[i])
            p = 0
            for i in axes:
                full[i] = list(a[p:p + len(parts[i])])
                p += len(parts[i])
            return at(*l, *(x for f in full for x in f)) * (wt(*a) if wt else 1)

        r = C.sum(over, term)
        if wt:
            r = r / C.sum(over, lambda i: wt(i))
        elif mean:
            for d in over:
                r = r / d
        return r

    return C.tuple_basis(*[b._axes[i] for i in keep]), dims, fn


for _cls in ("sum", "avg"):
    def _mk(kind):
        @contract(f"{O}:" + {"sum": "sum_diagonal_operator_over_axes", "avg": "average_eigenvalues"}[kind], ["P12"],
                  cases=[dict(k=k, axes=a) for k, a in (("FT", (0,)), ("FT", (1,)), ("FFF", (2, 0)), ("FTF", (1,)), ("N", (1,)), ("N", (0,)))] + ([dict(k=k, axes=None) for k in ("FT", "F,", "FFF")] + [dict(k=k, axes=a, w=1) for k, a in (("FT", (0,)), ("FTF", (1,)))] if kind == "avg" else []))
        class _c:
            """Sum (mean) of the diagonal over the chosen parts of the basis; the others are kept in order."""

            has_kwargs = True

            def inputs(C, k, axes, w=0):
                b = mk(C, k, "A") if k != "N" else C.tuple_basis(mk(C, "F", "A"), mk(C, "FT", "B"))
                return ((dop(C, b), axes), dict(weights=C.array("w", [dims_of(b)[axes[0]]], pos=True)) if w else {})

            def result(C, operator, axes=None, weights=None):
                b = operator["basis"]._axes[0]
                t, dims, fn = _over_axes(C, b, operator["data"], axes, weights, kind == "avg", [])
                return {"basis": C.tuple_basis(t, t), "data": C.lam([dims] if dims else [1], fn if dims else (lambda _i: fn()))}
    _mk(_cls)


@contract(f"{O}:average_eigenvalues_list", ["P12"], cases=[dict(k=k, axes=a) for k, a in (("FT", (0,)), ("FT", (1,)), ("FFF", (2, 0)), ("FT", None), ("FFF", None), ("N", (1,)))] + [dict(k=k, axes=a, w=1) for k, a in (("FT", (0,)), ("FTF", (1,)))])
class avl:
    has_kwargs = True

    def inputs(C, k, axes, w=0):
        b = mk(C, k, "A") if k != "N" else C.tuple_basis(mk(C, "F", "A"), mk(C, "FT", "B"))
        return ((doplist(C, mk(C, "f", "L"), b), axes), dict(weights=C.array("w", [dims_of(b)[axes[0]]], pos=True)) if w else {})

    def result(C, eigenvalues, axis=None, *, weights=None):
        L, bb = eigenvalues["basis"]._axes
        t, dims, fn = _over_axes(C, bb._axes[0], eigenvalues["data"], axis, weights, True, [L.n])
        return {"basis": C.tuple_basis(L, C.tuple_basis(t, t)), "data": C.lam([dims], fn)}


@contract(f"{O}:matmul_operator", ["P12"], cases=[dict(k=k) for k in ("F", "FT")])
class mmo:
    """(AB)_ik = sum_j A_ij B_jk."""

    def inputs(C, k):
        a, b, c = mk(C, k, "A"), mk(C, k, "B"), mk(C, "F", "C")
        return (op(C, a, b, "x"), op(C, b, c, "y"))

    def result(C, lhs, rhs):
        (a, b), (_b, c) = lhs["basis"]._axes, rhs["basis"]._axes
        x, y = C.at(lhs["data"], dims_of(a) + dims_of(b)), C.at(rhs["data"], dims_of(b) + dims_of(c))
        na = len(dims_of(a))
        return {"basis": C.tuple_basis(a, c), "data": C.lam([tuple(dims_of(a) + dims_of(c))], lambda *i: C.sum(tuple(dims_of(b)), lambda *j: x(*i[:na], *j) * y(*j, *i[na:])))}


for _f in ("add_operator", "subtract_operator"):
    def _mka(f):
        @contract(f"{O}:{f}", ["P12"])
        class _c:
            def inputs(C):
                a, b = mk(C, "F", "A"), mk(C, "T", "B")
                return (op(C, a, b, "x"), op(C, a, b, "y"))

            def result(C, a, b):
                p, q = a["basis"]._axes
                x, y = C.at(a["data"], dims_of(p) + dims_of(q)), C.at(b["data"], dims_of(p) + dims_of(q))
                return {"basis": a["basis"], "data": C.lam([tuple(dims_of(p) + dims_of(q))], lambda *i: x(*i) + (1 if f[0] == "a" else -1) * y(*i))}
    _mka(_f)


for _f in ("get_commutator", "get_anti_commutator"):
    def _mkc(f):
        @contract(f"{OP}:{f}", ["P12"])
        class _c:
            """AB - BA (AB + BA)."""

            def inputs(C):
                a = mk(C, "F", "A")
                return (op(C, a, a, "x"), op(C, a, a, "y"))

            def result(C, lhs, rhs):
                a = lhs["basis"]._axes[0]
                x, y = C.at(lhs["data"], [a.n] * 2), C.at(rhs["data"], [a.n] * 2)
                s = 1 if "anti" in f else -1
                return {"basis": lhs["basis"], "data": C.lam([(a.n, a.n)], lambda i, k: C.sum(a.n, lambda j: x(i, j) * y(j, k)) + s * C.sum(a.n, lambda j: y(i, j) * x(j, k)))}
    _mkc(_f)


@lemma("operators[combine]", ["P12"])
class comb:
    """Products, sums and commutators can be used as operands of one another."""

    def body(C):
        a = mk(C, "F", "A")
        x, y, z = (op(C, a, a, n) for n in "xyz")
        mm, add, com, sub = (C.fn(q) for q in (f"{O}:matmul_operator", f"{O}:add_operator", f"{OP}:get_commutator", f"{O}:subtract_operator"))
        C.equal("distributive", mm(x, add(y, z)), add(mm(x, y), mm(x, z)))
        C.equal("associative", mm(mm(x, y), z), mm(x, mm(y, z)))
        C.equal("leibniz", com(x, mm(y, z)), add(mm(com(x, y), z), mm(y, com(x, z))))
        C.equal("jacobi", add(com(x, com(y, z)), add(com(y, com(z, x)), com(z, com(x, y)))), sub(x, x))


@contract(f"{OC}:convert_operator_to_basis", ["P06", "P12"], cases=[dict(a=a, b=b, c=c, d=d) for a, b, c, d in (("F", "T", "F", "F"), ("F", "F", "T", "F"), ("FT", "TF", "F", "T"), ("ff", "rt", "ff", "rt"))])
class coc:
    """U A V^dagger with the conversions of the two bases, stored flat with the new basis."""

    def inputs(C, a, b, c, d):
        b1, d1 = mk(C, a, "A"), mk(C, c, "C")
        return (op(C, b1, d1), C.tuple_basis(mk(C, b, "B", fns_of(b1)), mk(C, d, "D", fns_of(d1))))

    def requires(C, operator, basis):
        for x, y in zip(operator["basis"]._axes, basis._axes):
            C.require(S.same(C, x, y))

    def result(C, operator, basis):
        (a, c), (b, d) = operator["basis"]._axes, basis._axes
        return {"basis": basis, "data": flatten(C, uav(C, mat(C, operator), a, b, c, d))}


@contract(f"{OC}:convert_diagonal_operator_to_basis", ["P06", "P12"], cases=[dict(a=a, b=b, d=d) for a, b, d in (("F", "T", "F"), ("FT", "TF", "TT"))])
class cdoc:
    def inputs(C, a, b, d):
        b1 = mk(C, a, "A")
        return (dop(C, b1), C.tuple_basis(mk(C, b, "B", fns_of(b1)), mk(C, d, "D", fns_of(b1))))

    requires = coc.requires

    def result(C, operator, basis):
        (a, c), (b, d) = operator["basis"]._axes, basis._axes
        return {"basis": basis, "data": flatten(C, uav(C, diag_full(C, operator["data"], a), a, b, a, d))}


@contract(f"{OC}:convert_operator_list_to_basis", ["P06", "P12"], cases=[dict(l=l, a=a, b=b, c=c, d=d) for l, a, b, c, d in (("f", "F", "T", "F", "F"), ("ff", "F", "F", "T", "F"), ("f", "FT", "TF", "F", "T"))])
class colc:
    def inputs(C, l, a, b, c, d):
        b1, d1 = mk(C, a, "A"), mk(C, c, "C")
        return (oplist(C, mk(C, l, "L"), b1, d1), C.tuple_basis(mk(C, b, "B", fns_of(b1)), mk(C, d, "D", fns_of(d1))))

    def requires(C, operator, basis):
        for x, y in zip(operator["basis"]._axes[1]._axes, basis._axes):
            C.require(S.same(C, x, y))

    def result(C, operator, basis):
        L, bb = operator["basis"]._axes
        (a, c), (b, d) = bb._axes, basis._axes
        return {"basis": C.tuple_basis(L, basis), "data": flatten(C, uav(C, mat3(C, operator), a, b, c, d, (1, 2)))}


def dl_full(C, o):
    L, bb = o["basis"]._axes
    b = bb._axes[0]
    n, nl = dims_of(b), dims_of(L)
    at = C.at(o["data"], nl + n)
    k, l = len(n), len(nl)
    return C.lam([flat(L), flat(b), flat(b)], lambda *i: C.ite([C.eq(i[l + a], i[l + a + k]) for a in range(k)], lambda: at(*i[:l + k]), 0))


@contract(f"{OC}:convert_diagonal_operator_list_to_basis", ["P06", "P12"], cases=[dict(l=l, a=a, b=b, d=d) for l, a, b, d in (("f", "F", "T", "F"), ("ff", "FT", "TF", "TT"))])
class cdolc:
    def inputs(C, l, a, b, d):
        b1 = mk(C, a, "A")
        return (doplist(C, mk(C, l, "L"), b1), C.tuple_basis(mk(C, b, "B", fns_of(b1)), mk(C, d, "D", fns_of(b1))))

    requires = colc.requires

    def result(C, operator, basis):
        L, bb = operator["basis"]._axes
        a = bb._axes[0]
        b, d = basis._axes
        return {"basis": C.tuple_basis(L, basis), "data": flatten(C, uav(C, dl_full(C, operator), a, b, a, d, (1, 2)))}


@contract(f"{OL}:diagonal_operator_list_as_full", ["P12"], cases=[dict(l=l, a=a) for l, a in (("f", "F"), ("ff", "FT"))])
class dlf:
    def inputs(C, l, a):
        return (doplist(C, mk(C, l, "L"), mk(C, a, "A")),)

    def result(C, diagonal_list):
        return {"basis": diagonal_list["basis"], "data": flatten(C, dl_full(C, diagonal_list))}


@contract(f"{OL}:operator_list_as_diagonal", ["P12"], cases=[dict(l=l, a=a) for l, a in (("f", "F"), ("ff", "FT"))])
class fld:
    def inputs(C, l, a):
        b = mk(C, a, "A")
        return (oplist(C, mk(C, l, "L"), b, b),)

    def result(C, operators):
        L, bb = operators["basis"]._axes
        b = bb._axes[0]
        at = C.at(operators["data"], dims_of(L) + dims_of(b) * 2)
        k, l = len(dims_of(b)), len(dims_of(L))
        return {"basis": operators["basis"], "data": C.lam([tuple(dims_of(L) + dims_of(b))], lambda *i: at(*i, *i[l:]))}


for _f in ("select_operator", "select_diagonal_operator", "as_diagonal_operator"):
    def _mks(f):
        @contract(f"{OL}:{f}", ["P12"], cases=[dict(l=l, a=a) for l, a in (("f", "F"), ("ff", "F"), ("f", "FT"))])
        class _c:
            """The operator at a flat index of the list."""

            def inputs(C, l, a):
                L = mk(C, l, "L")
                i = 0
                for k, n in enumerate(dims_of(L)):
                    i = i * n + C.int(f"i{k}", 0, n - 1)
                b = mk(C, a, "A")
                return (oplist(C, L, b, mk(C, "T", "B")) if f == "select_operator" else doplist(C, L, b), i)

            def result(C, operator_list, idx):
                L, bb = operator_list["basis"]._axes
                d = dims_of(bb._axes[0]) + (dims_of(bb._axes[1]) if f == "select_operator" else [])
                ix = []
                for n in reversed(dims_of(L)):
                    ix.append(C.mod_(idx, n))
                    idx = C.div(idx, n)
                at = C.at(operator_list["data"], dims_of(L) + d)
                return {"basis": bb, "data": C.lam([tuple(d)], lambda *k: at(*reversed(ix), *k))}
    _mks(_f)


@contract(f"{OL}:operator_list_from_iter", ["P12"], cases=[dict(m=m) for m in (1, 2, 3)])
class olfi:
    def inputs(C, m):
        a, b = mk(C, "F", "A"), mk(C, "T", "B")
        return ([op(C, a, b, f"x{i}") for i in range(m)],)

    def result(C, iters):
        bb = iters[0]["basis"]
        d = dims_of(bb)
        ats = [C.at(x["data"], d) for x in iters]
        return {"basis": C.tuple_basis(C.basis("FundamentalBasis")(len(iters)), bb),
                "data": C.lam([tuple([len(iters)] + d)], lambda j, *k: sum(C.ite(C.eq(j, i), lambda: ats[i](*k), 0) for i in range(len(iters))))}


@lemma("operator lists[iterate]", ["P12"], cases=[dict(m=m) for m in (1, 2, 3)])
class oli:
    def body(C, m):
        l = oplist(C, C.basis("FundamentalBasis")(m), mk(C, "F", "A"), mk(C, "T", "B"))
        parts = list(C.fn(f"{OL}:operator_list_into_iter")(l))
        C.equal("count", len(parts), m)
        C.equal("list", C.fn(f"{OL}:operator_list_from_iter")(parts), l)


@contract(f"{OL}:as_flat_operator", ["P12"])
class afo:
    def inputs(C):
        return (oplist(C, mk(C, "f", "L"), mk(C, "F", "A"), mk(C, "T", "B")),)

    def result(C, operator_list):
        L, bb = operator_list["basis"]._axes
        t = C.tuple_basis(L, *bb._axes)
        return {"basis": C.tuple_basis(t, t), "data": operator_list["data"]}


# ---------------------------------------------------------------- products with lists
def opmul_cases():
    return [dict(a=a, b=b, l=l) for a, b, l in (("F", "F", "f"), ("F", "T", "f"), ("FT", "TF", "f"), ("F", "T", "ff"))]


@contract(f"{OP}:matmul_list_operator", ["P12"], cases=opmul_cases())
class mlo:
    """Every operator of the list times the operator; the second factor is first brought to the shared basis."""

    def inputs(C, a, b, l):
        x = mk(C, a, "A")
        return (oplist(C, mk(C, l, "L"), mk(C, "F", "C"), x, "x"), op(C, mk(C, b, "B", fns_of(x)), mk(C, "T", "D"), "y"))

    def requires(C, lhs, rhs):
        C.require(S.same(C, lhs["basis"]._axes[1]._axes[1], rhs["basis"]._axes[0]))

    def result(C, lhs, rhs):
        L, bb = lhs["basis"]._axes
        c, a = bb._axes
        b, d = rhs["basis"]._axes
        y = uav(C, mat(C, rhs), b, a, d, d)
        x, y = C.at(lhs["data"], dims_of(L) + dims_of(c) + dims_of(a)), C.at(y, dims_of(a) + dims_of(d))
        k = len(dims_of(L)) + len(dims_of(c))
        return {"basis": C.tuple_basis(L, C.tuple_basis(c, d)),
                "data": C.lam([tuple(dims_of(L) + dims_of(c) + dims_of(d))], lambda *i: C.sum(tuple(dims_of(a)), lambda *j: x(*i[:k], *j) * y(*j, *i[k:])))}


@contract(f"{OP}:matmul_operator_list", ["P12"], cases=opmul_cases())
class mol:
    """The operator times every operator of the list."""

    def inputs(C, a, b, l):
        x = mk(C, a, "A")
        return (op(C, mk(C, "F", "C"), x, "x"), oplist(C, mk(C, l, "L"), mk(C, b, "B", fns_of(x)), mk(C, "T", "D"), "y"))

    def requires(C, lhs, rhs):
        C.require(S.same(C, lhs["basis"]._axes[1], rhs["basis"]._axes[1]._axes[0]))

    def result(C, lhs, rhs):
        L, bb = rhs["basis"]._axes
        b, d = bb._axes
        c, a = lhs["basis"]._axes
        y = uav(C, mat3(C, rhs), b, a, d, d, (1, 2))
        x, y = C.at(lhs["data"], dims_of(c) + dims_of(a)), C.at(y, dims_of(L) + dims_of(a) + dims_of(d))
        l, k = len(dims_of(L)), len(dims_of(c))
        return {"basis": C.tuple_basis(L, C.tuple_basis(c, d)),
                "data": C.lam([tuple(dims_of(L) + dims_of(c) + dims_of(d))], lambda *i: C.sum(tuple(dims_of(a)), lambda *j: x(*i[l:l + k], *j) * y(*i[:l], *j, *i[l + k:])))}


@contract(f"{OP}:matmul_diagonal_list_operator", ["P12"], cases=opmul_cases())
class mdlo:
    def inputs(C, a, b, l):
        x = mk(C, a, "A")
        return (doplist(C, mk(C, l, "L"), x, "x"), op(C, mk(C, b, "B", fns_of(x)), mk(C, "T", "D"), "y"))

    requires = mlo.requires

    def result(C, lhs, rhs):
        L, bb = lhs["basis"]._axes
        a = bb._axes[1]
        b, d = rhs["basis"]._axes
        y = C.at(uav(C, mat(C, rhs), b, a, d, d), dims_of(a) + dims_of(d))
        x = C.at(lhs["data"], dims_of(L) + dims_of(a))
        l, k = len(dims_of(L)), len(dims_of(a))
        return {"basis": C.tuple_basis(L, C.tuple_basis(bb._axes[0], d)),
                "data": C.lam([tuple(dims_of(L) + dims_of(a) + dims_of(d))], lambda *i: x(*i[:l + k]) * y(*i[l:]))}


@contract(f"{OP}:matmul_operator_diagonal_list", ["P12"], cases=opmul_cases())
class modl:
    def inputs(C, a, b, l):
        x = mk(C, a, "A")
        return (op(C, mk(C, "F", "C"), mk(C, b, "B", fns_of(x)), "x"), doplist(C, mk(C, l, "L"), x, "y"))

    requires = mol.requires

    def result(C, lhs, rhs):
        L, bb = rhs["basis"]._axes
        a = bb._axes[0]
        c, b = lhs["basis"]._axes
        x = C.at(uav(C, mat(C, lhs), c, c, b, a), dims_of(c) + dims_of(a))
        y = C.at(rhs["data"], dims_of(L) + dims_of(a))
        l, k = len(dims_of(L)), len(dims_of(c))
        return {"basis": C.tuple_basis(L, C.tuple_basis(c, bb._axes[1])),
                "data": C.lam([tuple(dims_of(L) + dims_of(c) + dims_of(a))], lambda *i: x(*i[l:]) * y(*i[:l], *i[l + k:]))}


for _f in ("subtract_list_list", "add_list_list"):
    def _mkl(f):
        @contract(f"{OP}:{f}", ["P12"], cases=[dict(l=l, a=a, b=b) for l, a, b in (("f", "F", "F"), ("f", "F", "T"), ("ff", "FT", "TF"))])
        class _c:
            def inputs(C, l, a, b):
                L = mk(C, l, "L")
                x, z = mk(C, a, "A"), mk(C, "F", "C")
                return (oplist(C, L, x, z, "x"), oplist(C, L, mk(C, b, "B", fns_of(x)), z, "y"))

            def requires(C, lhs, rhs):
                for x, y in zip(lhs["basis"]._axes[1]._axes, rhs["basis"]._axes[1]._axes):
                    C.require(S.same(C, x, y))

            def result(C, lhs, rhs):
                L, bb = lhs["basis"]._axes
                r = rhs["basis"]._axes[1]._axes
                d = dims_of(L) + dims_of(bb._axes[0]) + dims_of(bb._axes[1])
                y = C.at(uav(C, mat3(C, rhs), r[0], bb._axes[0], r[1], bb._axes[1], (1, 2)), d)
                x = C.at(lhs["data"], d)
                return {"basis": lhs["basis"], "data": C.lam([tuple(d)], lambda *i: x(*i) + (1 if f[0] == "a" else -1) * y(*i))}
    _mkl(_f)


@contract(f"{OP}:get_commutator_operator_list", ["P12"], cases=[dict(b=b) for b in "FT"])
class gcol:
    """[A, B_m] for every operator of the list, in the basis of A."""

    def inputs(C, b):
        a = mk(C, "F", "A")
        bb = mk(C, b, "B", fns_of(a))
        return (op(C, a, a, "x"), oplist(C, mk(C, "f", "L"), bb, bb, "y"))

    def requires(C, lhs, rhs):
        for x, y in zip(lhs["basis"]._axes, rhs["basis"]._axes[1]._axes):
            C.require(S.same(C, x, y))

    def result(C, lhs, rhs):
        L, bb = rhs["basis"]._axes
        a = lhs["basis"]._axes[0]
        y = C.at(uav(C, mat3(C, rhs), bb._axes[0], a, bb._axes[1], a, (1, 2)), [L.n, a.n, a.n])
        x = C.at(lhs["data"], [a.n, a.n])
        return {"basis": C.tuple_basis(L, lhs["basis"]), "data": C.lam([(L.n, a.n, a.n)], lambda m, i, k: C.sum(a.n, lambda j: x(i, j) * y(m, j, k) - y(m, i, j) * x(j, k)))}


@contract(f"{OP}:get_commutator_diagonal_operator_list", ["P12"], cases=[dict(b=b) for b in ("same", "Fc")])
class gcdl:
    """[A, D_m] for every diagonal operator of the list (A in the basis of A, the list in a complete basis)."""

    def inputs(C, b):
        a = mk(C, "F", "A") if b == "same" else C.abs_basis("A", "F")
        return (op(C, a, a, "x"), doplist(C, mk(C, "f", "L"), a if b == "same" else C.abs_basis("B", "F", n=a.fundamental_n, fn=a.fundamental_n, complete=True), "y"))

    requires = gcol.requires

    def result(C, lhs, rhs):
        L, bb = rhs["basis"]._axes
        a, b = lhs["basis"]._axes[0], bb._axes[0]
        # A D in (a, b), D A in (b, a) converted to (a, b)
        d = C.at(rhs["data"], [L.n, b.n])
        x1 = C.at(uav(C, mat(C, lhs), a, a, a, b), [a.n, b.n])
        x2 = C.at(uav(C, mat(C, lhs), a, b, a, a), [b.n, a.n])
        da = C.lam([L.n, b.n, a.n], lambda m, i, k: d(m, i) * x2(i, k))
        da = C.at(uav(C, da, b, a, a, b, (1, 2)), [L.n, a.n, b.n])
        return {"basis": C.tuple_basis(L, C.tuple_basis(a, bb._axes[1])), "data": C.lam([(L.n, a.n, b.n)], lambda m, i, k: x1(i, k) * d(m, k) - da(m, i, k))}


for _f in ("scale_operator_list", "scale_operator"):
    def _mksc(f):
        @contract(f"{OP}:{f}", ["P12"])
        class _c:
            def inputs(C):
                a, b = mk(C, "F", "A"), mk(C, "T", "B")
                return (C.complex("c"), op(C, a, b, "x") if f == "scale_operator" else oplist(C, mk(C, "f", "L"), a, b, "x"))

            def result(C, factor, operator):
                at = C.at(operator["data"])
                return {"basis": operator["basis"], "data": C.lam(operator["data"].shape, lambda *i: factor * at(*i))}
    _mksc(_f)


# ---------------------------------------------------------------- action on states
@contract(f"{O}:apply_operator_to_state", ["P13"], cases=[dict(a=a, b=b) for a, b in (("F", "F"), ("F", "T"), ("FT", "TF"))])
class aos:
    """A|s> scaled to norm one, with its norm."""

    def inputs(C, a, b):
        x = mk(C, a, "A")
        return (op(C, mk(C, "F", "C"), x), vec(C, mk(C, b, "B", fns_of(x))))

    def requires(C, lhs, state):
        C.require(S.same(C, lhs["basis"]._axes[1], state["basis"]))

    def result(C, lhs, state):
        c, a = lhs["basis"]._axes
        A = C.at(lhs["data"], dims_of(c) + dims_of(a))
        v = C.at(S.conv(C, state["data"], state["basis"], a), dims_of(a))

        def w(*i):
            return C.sum(tuple(dims_of(a)), lambda *k: A(*i, *k) * v(*k))

        norm = C.sqrt(C.sum(tuple(dims_of(c)), lambda *i: C.abs2(w(*i))))
        return {"basis": c, "data": C.lam([flat(c)], lambda *i: w(*i) / norm), "eigenvalue": norm}


@contract(f"{OP}:apply_operator_to_states", ["P13"], cases=[dict(l=l, a=a, b=b) for l, a, b in (("f", "F", "F"), ("f", "F", "T"), ("ff", "FT", "TF"))])
class aoss:
    def inputs(C, l, a, b):
        x = mk(C, a, "A")
        return (op(C, mk(C, "F", "C"), x), lst(C, mk(C, l, "L"), mk(C, b, "B", fns_of(x))))

    def requires(C, lhs, states):
        C.require(S.same(C, lhs["basis"]._axes[1], states["basis"]._axes[1]))

    def result(C, lhs, states):
        c, a = lhs["basis"]._axes
        L, b = states["basis"]._axes
        A = C.at(lhs["data"], dims_of(c) + dims_of(a))
        v = C.at(S.conv(C, split2(C, states["data"], L, b), b, a, 1), dims_of(L) + dims_of(a))
        l = len(dims_of(L))

        def w(*i):
            return C.sum(tuple(dims_of(a)), lambda *k: A(*i[l:], *k) * v(*i[:l], *k))

        def norm(*i):
            return C.sqrt(C.sum(tuple(dims_of(c)), lambda *j: C.abs2(w(*i, *j))))

        return {"basis": C.tuple_basis(L, c), "data": C.lam([tuple(dims_of(L) + dims_of(c))], lambda *i: w(*i) / norm(*i[:l])), "eigenvalue": C.lam([flat(L)], norm)}


EC = "state_vector.eigenstate_calculation"


@contract(f"{EC}:calculate_expectation", ["P13"], cases=[dict(a=a, b=b) for a, b in (("F", "F"), ("F", "T"), ("FT", "TF"))])
class cex:
    """<s|A|s> with A brought to the basis of the state."""

    def inputs(C, a, b):
        x = mk(C, a, "A")
        return (op(C, x, x), vec(C, mk(C, b, "B", fns_of(x))))

    def requires(C, operator, state):
        for x in operator["basis"]._axes:
            C.require(S.same(C, x, state["basis"]))

    def result(C, operator, state):
        a, c = operator["basis"]._axes
        b = state["basis"]
        n = dims_of(b)
        A = C.at(uav(C, mat(C, operator), a, b, c, b), n + n)
        v = C.at(state["data"], n)
        k = len(n)
        return C.sum(tuple(n + n), lambda *i: C.conj(v(*i[:k])) * A(*i) * v(*i[k:]))


@contract(f"{EC}:calculate_expectation_list", ["P13"], cases=[dict(l=l, a=a, b=b) for l, a, b in (("f", "F", "F"), ("f", "F", "T"), ("ff", "FT", "TF"))])
class cexl:
    def inputs(C, l, a, b):
        x = mk(C, a, "A")
        return (op(C, x, x), lst(C, mk(C, l, "L"), mk(C, b, "B", fns_of(x))))

    def requires(C, operator, states):
        for x in operator["basis"]._axes:
            C.require(S.same(C, x, states["basis"]._axes[1]))

    def result(C, operator, states):
        a, c = operator["basis"]._axes
        L, b = states["basis"]._axes
        n = dims_of(b)
        A = C.at(uav(C, mat(C, operator), a, b, c, b), n + n)
        v = C.at(states["data"], dims_of(L) + n)
        k = len(n)
        return {"basis": L, "data": C.lam([flat(L)], lambda *l: C.sum(tuple(n + n), lambda *i: C.conj(v(*l, *i[:k])) * A(*i) * v(*l, *i[k:])))}


@contract(f"{EC}:calculate_expectation_diagonal", ["P13"], cases=[dict(a=a, b=b) for a, b in (("F", "F"), ("F", "T"), ("FT", "TF"))])
class cexd:
    def inputs(C, a, b):
        x = mk(C, a, "A")
        return (dop(C, x), vec(C, mk(C, b, "B", fns_of(x))))

    requires = cex.requires

    def result(C, operator, state):
        a = operator["basis"]._axes[0]
        n = dims_of(a)
        v = C.at(S.conv(C, state["data"], state["basis"], a), n)
        d = C.at(operator["data"], n)
        return C.sum(tuple(n), lambda *i: C.abs2(v(*i)) * d(*i))


@contract(f"{EC}:calculate_operator_inner_product", ["P13"], cases=[dict(a=a, b=b) for a, b in (("F", "T"), ("FT", "F"))])
class coip:
    def inputs(C, a, b):
        x, y = mk(C, a, "A"), mk(C, b, "B")
        return (vec(C, x, "u"), op(C, x, y), vec(C, y, "v"))

    def result(C, dual_vector, operator, vector):
        a, b = operator["basis"]._axes
        u, A, v = C.at(dual_vector["data"], dims_of(a)), C.at(operator["data"], dims_of(a) + dims_of(b)), C.at(vector["data"], dims_of(b))
        k = len(dims_of(a))
        return C.sum(tuple(dims_of(a) + dims_of(b)), lambda *i: u(*i[:k]) * A(*i) * v(*i[k:]))
