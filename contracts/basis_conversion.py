"""Changing the basis of a vector, and the resampling it is built from."""
from contracts._common import *



@contract("util.interpolation:pad_ft_points", ["P03", "P01"], cases=product_cases(nd=[1, 2, 3], axis=[0, 1, 2, -1, -2]) and [
    dict(nd=n, axis=a) for n in (1, 2, 3) for a in range(-n, n)])
class pad1:
    """Resizing a Fourier series keeps the coefficient of each common frequency, zero for new ones."""

    def inputs(C, nd, axis):
        dims = [C.size(f"d{k}") for k in range(nd)]
        return (C.array("a", dims), (C.size("s"),), (axis,))

    def applies(C, array, s, axes):
        return len(s) == 1

    def result(C, array, s, axes):
        if len(s) != 1:
            return pad_many(C, array, s, axes)
        return pad_axis(C, array, s[0], int(axes[0]))


def pad_axis(C, array, s, axis):
    ax = axis % array.ndim
    n = array.shape[ax]
    dims = list(array.shape)
    dims[ax] = s
    at = C.at(array)

    def fn(*idx):
        k = idx[ax]
        pos = [C.lt(k, C.div(s + 1, 2)), C.lt(k, C.div(n + 1, 2))]
        negs = [C.le(C.div(s + 1, 2), k), C.le(C.div(n + 1, 2), k - s + n)]
        lo, hi = list(idx), list(idx)
        hi[ax] = k - s + n
        return C.ite(pos, lambda: at(*lo), lambda: C.ite(negs, lambda: at(*hi), 0))

    return C.lam(dims, fn)


def pad_many(C, array, s, axes):
    for n, a in zip(s, axes):
        array = pad_axis(C, array, n, int(a))
    return array


@contract("util.interpolation:pad_ft_points", ["P03"], name="pad_ft_points[2 axes]",
          cases=lambda tier: [dict(nd=2, axes=(0, 1)), dict(nd=3, axes=(-1, -2))] + ([dict(nd=2, axes=(1, 0)), dict(nd=3, axes=(0, 2))] if tier == "thorough" else []))
class pad2:
    def inputs(C, nd, axes):
        dims = [C.size(f"d{k}") for k in range(nd)]
        return (C.array("a", dims), (C.size("s0"), C.size("s1")), axes)

    def result(C, array, s, axes):
        return pad_many(C, array, s, axes)


@contract("basis.basis_like:convert_vector", ["P01", "P02"], cases=product_cases(k1="FT", k2="FT", nd=[1, 2], dt="cf"))
class cv:
    """Any basis given only through the basis interface."""

    def inputs(C, k1, k2, nd, dt):
        N = C.size("N")
        b1 = C.abs_basis("A", k1, fn=N)
        b2 = C.abs_basis("B", k2, fn=N)
        dims = [b1.n] if nd == 1 else [C.size("m"), b1.n]
        return (C.array("v", dims, dt=dt), b1, b2)

    def requires(C, vector, initial_basis, final_basis, axis=-1):
        C.require(S.same(C, initial_basis, final_basis))

    def result(C, vector, initial_basis, final_basis, axis=-1):
        return S.conv(C, vector, initial_basis, final_basis, axis)


PRIM = ["fund", "ftrans", "trans", "trunc", "even", "event"]


@contract("basis.basis_like:convert_vector", ["P01", "P02", "P03", "P04"], name="convert_vector[repository bases]",
          cases=lambda tier: [dict(k1=a, k2=b, nd=n, axis=ax, same=0, dt="c") for a in PRIM for b in [*PRIM, "F", "T"] for n, ax in ((1, -1), (2, 0), (3, 1))
                              if tier == "thorough" or n == 1 or b in "FT" and n == 3 or a == b and n == 2]
          + [dict(k1=a, k2=a, nd=n, axis=ax, same=1, dt=t) for a in PRIM for n, ax in ((1, -1), (2, 0)) for t in "cf"]
          + [dict(k1=a, k2=b, nd=1, axis=-1, same=0, dt="f") for a in PRIM for b in PRIM if a != b or tier == "thorough"])
class cvr:
    """The bases of the repository, against their defining matrices."""

    def inputs(C, k1, k2, nd, axis, same, dt):
        if same:
            b1 = mk_basis(C, k1, "A")
            b2 = b1
        elif k2 in ("even", "event"):
            b2 = mk_basis(C, k2, "B")
            b1 = mk_basis(C, k1, "A", fn=b2.fundamental_n) if k1 not in ("even", "event") else mk_basis(C, k1, "A", like=b2)
        else:
            b1 = mk_basis(C, k1, "A")
            b2 = mk_basis(C, k2, "B", fn=b1.fundamental_n)
        dims = [C.size("m"), C.size("p"), C.size("q")][:nd]
        dims[axis] = b1.n
        return (C.array("v", dims, dt=dt), b1, b2, axis)

    requires = cv.requires
    result = cv.result


def mk_tuple(C, kinds, name, fns):
    out = []
    for k, (kind, fn) in enumerate(zip(kinds, fns)):
        kk = {"F": "F", "T": "T", "f": "fund", "t": "ftrans", "r": "trans", "u": "trunc"}[kind]
        out.append(mk_basis(C, kk, f"{name}{k}", fn=fn))
    return C.tuple_basis(*out)


@contract("basis.basis_like:convert_vector", ["P01", "P05"], name="convert_vector[stacked]",
          cases=[dict(k1=a, k2=a, pre=p, post=q, dt=t, same=1) for a in ("FF", "fr") for p, q in ((0, 0), (1, 1)) for t in "cf"] + [dict(k1=a, k2=b, pre=p, post=q, dt="cf"[a == "FF" or a == "fr"], same=0) for a, b in (("F", "T"), ("FF", "TT"), ("FT", "TF"), ("TT", "FT"), ("fr", "tf"), ("FTF", "TFF"), ("ff", "ff")) for p, q in ((0, 0), (1, 1), (2, 0))])
class cvt:
    """A stacked basis converts every axis independently (tensor product), along any axis of the array."""

    recursive = True

    def inputs(C, k1, k2, pre, post, dt, same):
        fns = [C.size(f"N{k}") for k in range(len(k1))]
        b1 = mk_tuple(C, k1, "A", fns)
        b2 = C.tuple_basis(*b1._axes) if same else mk_tuple(C, k2, "B", fns)
        n1 = tuple(b.n for b in b1._axes)
        dims = [C.size(f"p{k}") for k in range(pre)] + [n1] + [C.size(f"q{k}") for k in range(post)]
        return (C.array("v", dims, dt=dt), b1, b2, pre if post else -1)

    requires = cv.requires
    result = cv.result


@contract("basis.basis_like:convert_vector", ["P01", "P05"], name="convert_vector[stacked-flat]",
          cases=[dict(k1=a, k2=b) for a, b in (("FT", "F"), ("FT", "T"), ("fr", "F"), ("FF", "f"), ("F", "FT"), ("T", "FT"), ("f", "ff"), ("t", "ft"))])
class cvtf:
    """Between a stacked basis and a flat basis on the same fundamental grid."""

    recursive = True

    def inputs(C, k1, k2):
        k = max(len(k1), len(k2))
        fns = [C.size(f"N{i}") for i in range(k)]
        flat = fns[0]
        for f in fns[1:]:
            flat = flat * f
        b1 = mk_tuple(C, k1, "A", fns) if len(k1) > 1 else mk_tuple(C, k1, "A", [flat])[0]
        b2 = mk_tuple(C, k2, "B", fns) if len(k2) > 1 else mk_tuple(C, k2, "B", [flat])[0]
        d = tuple(b.n for b in b1._axes) if len(k1) > 1 else b1.n
        return (C.array("v", [C.size("m"), d]), b1, b2)

    requires = cv.requires
    result = cv.result


@contract("basis.basis_like:convert_dual_vector", ["P06"], cases=product_cases(k1="FT", k2="FT", axis=[0, 1], dt="cf"))
class cdv:
    """Dual vectors transform with the conjugate of the vector conversion."""

    def inputs(C, k1, k2, axis, dt):
        N = C.size("N")
        b1, b2 = C.abs_basis("A", k1, fn=N), C.abs_basis("B", k2, fn=N)
        dims = [C.size("m"), C.size("p")]
        dims[axis] = b1.n
        return (C.array("v", dims, dt=dt), b1, b2, axis)

    def requires(C, co_vector, initial_basis, final_basis, axis=-1):
        C.require(S.same(C, initial_basis, final_basis))

    def result(C, co_vector, initial_basis, final_basis, axis=-1):
        return C.conj_array(S.conv(C, C.conj_array(co_vector), initial_basis, final_basis, axis))


@contract("basis.basis_like:convert_matrix", ["P06"], cases=product_cases(k="FT", axes=[(0, 1), (1, 0), (0, 2), (-2, -1)], dt="cf"))
class cm:
    """A matrix transforms as U A U-dagger along the two given axes."""

    def inputs(C, k, axes, dt):
        N, K = C.size("N"), C.size("K")
        b1, b2 = C.abs_basis("A", k, fn=N), C.abs_basis("B", "F", fn=N)
        d1, d2 = C.abs_basis("D", "F", fn=K), C.abs_basis("E", k, fn=K)
        nd = 3 if max(axes) == 2 else 2
        dims = [C.size(f"p{i}") for i in range(nd)]
        dims[axes[0]], dims[axes[1]] = b1.n, d1.n
        return {"matrix": C.array("v", dims, dt=dt), "initial_basis": b1, "final_basis": b2, "initial_dual_basis": d1, "final_dual_basis": d2, "axes": axes}

    def requires(C, matrix, initial_basis, final_basis, initial_dual_basis, final_dual_basis, *, axes=(0, 1)):
        C.require(S.same(C, initial_basis, final_basis))
        C.require(S.same(C, initial_dual_basis, final_dual_basis))

    def result(C, matrix, initial_basis, final_basis, initial_dual_basis, final_dual_basis, *, axes=(0, 1)):
        v = S.conv(C, matrix, initial_basis, final_basis, axes[0])
        return C.conj_array(S.conv(C, C.conj_array(v), initial_dual_basis, final_dual_basis, axes[1]))
