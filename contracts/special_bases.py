"""Explicit bases, time bases, bloch fraction bases."""
from contracts._common import *

E = "basis.explicit_basis"
TB = "basis.time_basis_like"
BF = "basis.block_fraction_basis"


def explicit(C, vb, name="x", cls="ExplicitBasis", via=None):
    n = C.size(f"{name}_n")
    states = {"basis": C.tuple_basis(C.basis("FundamentalBasis")(n), vb), "data": C.array(f"{name}_v", [(n, *dims_of(vb))])}
    c = getattr(C.mod("basis.explicit_basis"), cls)
    return c.from_state_vectors(states) if via else c(states)


@contract("basis.basis_like:convert_vector", ["P15"], name="convert_vector[explicit]",
          cases=[dict(a=a, v=v, nd=n, axis=x, into=i) for a, v in (("F", "F"), ("F", "T"), ("T", "f"), ("F", "r"), ("F", "FT"), ("T", "FF")) for n, x in ((1, -1), (2, 0), (3, 1)) for i in (0, 1)])
class cve:
    """An explicit basis stands for the vectors it is given: coefficients expand in them, and are the inner products with them."""

    def inputs(C, a, v, nd, axis, into):
        vb = mk(C, v, "V")
        e = explicit(C, vb)
        b = mk(C, a, "A", [e.fundamental_n])
        b1, b2 = (b, e) if into else (e, b)
        dims = [C.size("m"), C.size("p"), C.size("q")][:nd]
        dims[axis] = b1.n
        return (C.array("v", dims), b1, b2, axis)

    def requires(C, vector, initial_basis, final_basis, axis=-1):
        C.require(S.same(C, initial_basis, final_basis))

    def result(C, vector, initial_basis, final_basis, axis=-1):
        return S.conv(C, vector, initial_basis, final_basis, axis)


@lemma("convert_vector[between explicit bases]", ["P15"], cases=[dict(k=k) for k in ("F", "T", "r")])
class cee:
    """Between two explicit bases with vectors on the same basis the coefficients are the overlaps, when that basis is complete."""

    def body(C, k):
        b = C.basis({"F": "FundamentalBasis", "T": "FundamentalTransformedBasis", "r": "FundamentalBasis"}[k])(C.size("N"))
        x, y = explicit(C, b, "x"), explicit(C, b, "y", via=1)
        v = C.array("c", [x.n])
        r = C.fn("basis.basis_like:convert_vector")(v, x, y)
        ax, ay, at = C.at(C.regroup(x._vectors["data"], 0, [x.n, b.n])), C.at(C.regroup(y._vectors["data"], 0, [y.n, b.n])), C.at(v)
        C.equal("overlaps", r, C.lam([y.n], lambda j: C.sum((x.n, b.n), lambda i, f: C.conj(ay(j, f)) * ax(i, f) * at(i))))


@lemma("explicit[shape]", ["P15"], cases=[dict(k=k, cls=c) for k, c in (("F", "ExplicitBasis"), ("FT", "ExplicitBasis"))])
class es:
    def body(C, k, cls):
        vb = mk(C, k, "V")
        e = explicit(C, vb, cls=cls)
        C.equal("n", e.n, e._vectors["basis"]._axes[0].n)
        C.equal("fundamental_n", e.fundamental_n, vb.fundamental_n)
        at = C.at(C.ungroup(C.regroup(e._vectors["data"], 0, [e.n] + dims_of(vb)), 1, len(dims_of(vb))))
        C.equal("vectors", e._raw_vectors, C.lam([e.n, vb.n], at))
        C.equal("fundamental vectors", e.fundamental_raw_vectors, S.into_fundamental(C, C.lam([e.n, flat(vb)], lambda i, *j: C.at(C.regroup(e._vectors["data"], 0, [e.n] + dims_of(vb)))(i, *j)), vb, 1))


@lemma("explicit[from_basis]", ["P15"], cases=[dict(k=k) for k in ("F", "T", "r", "u", "FT")])
class efb:
    """The explicit basis of the states of a basis is that basis."""

    def body(C, k):
        b = mk(C, k, "V")
        e = C.mod("basis.explicit_basis").ExplicitBasis.from_basis(b)
        v = C.array("c", [C.size("m"), flat(b)])
        C.equal("n", e.n, b.n)
        f = C.basis("FundamentalBasis")(b.fundamental_n)
        cv = C.fn("basis.basis_like:convert_vector")
        C.equal("same", cv(v, e, f, 1), S.conv(C, v, b, f, 1))


@lemma("explicit with length", ["P15"], cases=[dict(k=k) for k in ("f", "ft", "rt")])
class ewl:
    """Explicit bases report the unit cell (and shape) of the basis of their vectors."""

    def body(C, k):
        b = mk_pos(C, k, "P")
        n = C.size("n")
        L = C.basis("FundamentalBasis")(n)
        ex = C.mod("basis.explicit_basis")
        s = ex.ExplicitStackedBasisWithLength.from_state_vectors({"basis": C.tuple_basis(L, b), "data": C.array("v", [(n, *dims_of(b))])})
        C.equal("delta_x_stacked", s.delta_x_stacked, C.const_array([list(C.seq(x.delta_x)) for x in b._axes]) if hasattr(C, "seq") else b.delta_x_stacked)
        C.equal("n", s.n, n)
        for i, x in enumerate(b._axes):
            C.equal(f"shape{i}", s.shape[i], x.n)
            C.equal(f"fundamental_shape{i}", s.fundamental_shape[i], x.fundamental_n)
        x = b._axes[0]
        e = ex.ExplicitBasisWithLength({"basis": C.tuple_basis(L, x), "data": C.array("w", [(n, x.n)])})
        C.equal("delta_x", e.delta_x, x.delta_x)


def time_basis(C, kind, anywhere=False):
    m = C.mod("basis.time_basis_like")
    T = C.real("T", pos=True)
    n = C.size("n")
    if kind == "fund":
        return m.FundamentalTimeBasis(n, T), n, 1, 0, T
    s = C.size("s")
    o = C.int("o") if anywhere else C.int("o", 0, s - 1)
    return m.EvenlySpacedTimeBasis(n, s, o, T), n, s, o, T


@lemma("time bases", ["P15"], cases=[dict(kind=k) for k in ("fund", "even")])
class tb:
    """A time basis of period T divides it in equal steps; its times are every step-th fundamental time."""

    def body(C, kind):
        b, n, s, o, T = time_basis(C, kind)
        C.equal("n", b.n, n)
        C.equal("fundamental_n", b.fundamental_n, n * s)
        C.equal("delta_t", b.delta_t, T)
        C.equal("fundamental_dt", b.fundamental_dt, T / (n * s))
        C.equal("dt", b.dt, T / n)
        ft = b.fundamental_times
        C.equal("fundamental_times", ft, C.lam([n * s], lambda i: T * i / (n * s)))
        C.equal("times", b.times, C.lam([n], lambda i: T * (i * s + o) / (n * s)))
        at = C.at(ft)
        C.equal("subset", b.times, C.lam([n], lambda i: at(i * s + o)))
        v = C.array("v", [n])
        f = C.basis("FundamentalBasis")(n * s)
        C.equal("conversion", C.fn("basis.basis_like:convert_vector")(v, b, f), S.conv(C, v, b, f))


@lemma("time bases[offset]", ["P15"])
class tbo:
    """An offset of any size or sign moves the times by that many fundamental steps: no time wraps round."""

    def body(C):
        b, n, s, o, T = time_basis(C, "even", True)
        C.equal("times", b.times, C.lam([n], lambda i: T * (i * s + o) / (n * s)))


@lemma("explicit time basis", ["P15"])
class etb:
    def body(C):
        n = C.size("n", lo=2)
        t = C.array("t", [n], dt="f")
        b = C.mod("basis.time_basis_like").ExplicitTimeBasis(t)
        C.equal("n", b.n, n)
        C.equal("times", b.times, t)
        C.equal("fundamental_times", b.fundamental_times, t)
        C.equal("delta_t", b.delta_t, C.at(t)(1) - C.at(t)(0))


@lemma("bloch fraction bases", ["P15"], cases=[dict(kind=k) for k in ("fund", "even", "explicit")])
class bf:
    """Bloch fractions form a real (dimension, n) array; the evenly spaced ones divide [-1/2, 1/2)."""

    def body(C, kind):
        m = C.mod("basis.block_fraction_basis")
        n = C.size("n")
        if kind == "explicit":
            d = C.size("d")
            a = C.array("f", [d, n], dt="f")
            b = m.ExplicitBlockFractionBasis(a)
            C.equal("fractions", b.bloch_fractions, a)
            C.equal("ndim", b.ndim, d)
            C.equal("n", b.n, n)
            return
        s, o = (1, 0) if kind == "fund" else (C.size("s"), None)
        if o is None:
            o = C.int("o", 0, s - 1)
        b = m.FundamentalBlockFractionBasis(n) if kind == "fund" else m.EvenlySpacedBlockFractionBasis(n, s, o)
        C.equal("n", b.n, n)
        C.equal("ndim", b.ndim, 1)
        C.equal("fractions", b.bloch_fractions, C.lam([1, n], lambda _d, i: C.rat(-1, 2) + (i * s + o) / (n * s) if hasattr(C, "rat") else (i * s + o) / (n * s) - 1 / 2))
