"""Interpolation of points on a periodic grid through their Fourier series."""
from contracts._common import *
from contracts.basis_conversion import pad_axis

U = "util.interpolation"


def interp_axis(C, v, s, ax):
    """The trigonometric interpolation of v on s points: common frequencies kept."""
    n = v.shape[ax]
    ft = C.linear_op(v, n, n, ax, lambda f, i: C.cis(-i * f, n) / n)
    return C.linear_op(pad_axis(C, ft, s, ax), s, s, ax, lambda f, i: C.cis(i * f, s))


@contract(f"{U}:interpolate_points_fftn", ["P03"], cases=[dict(nd=n, axes=a, dt=d) for n, a, d in (
    (1, (0,), "c"), (2, (1,), "c"), (2, (-2,), "f"), (3, (1,), "c"), (2, (0, 1), "c"), (2, (1, 0), "c"), (1, None, "c"), (2, None, "c"), (3, None, "c"))])
class ipf:
    """The Fourier series of the points, evaluated on a grid with another number of points along each of the axes."""

    def inputs(C, nd, axes, dt):
        v = C.array("a", [C.size(f"d{k}") for k in range(nd)], dt=dt)
        m = len(axes) if axes else min(nd, 2)
        s = tuple(C.size(f"s{k}") for k in range(m))
        return (v, s, axes)

    def result(C, points, s, axes=None):
        axes = tuple(range(points.ndim - len(s), points.ndim)) if axes is None else axes
        out = C.cplx(points)
        for n, a in zip(s, axes):
            out = interp_axis(C, out, n, a % points.ndim)
        return out


@contract(f"{U}:pad_ft_points_real_axis", ["P03"], cases=[dict(nd=n, axis=a) for n in (1, 2, 3) for a in range(-n, n)])
class pra:
    """The frequencies 0..n//2 of a real series; new ones are zero."""

    def inputs(C, nd, axis):
        return (C.array("a", [C.size(f"d{k}") for k in range(nd)]), C.size("s"), axis)

    def result(C, array, n, axis=-1):
        ax = axis % array.ndim
        dims = list(array.shape)
        m, dims[ax] = dims[ax], C.div(n, 2) + 1
        at = C.at(array)
        return C.lam(dims, lambda *i: C.ite([C.lt(i[ax], m)], lambda: at(*i), lambda: 0))


def real_axis(C, v, s, ax):
    """Series of the real points v from its non negative frequencies.  A series of an odd number of points is
    resampled exactly (see the lemma); the highest frequency of an even number counts once, as in numpy."""
    n = v.shape[ax]
    ft = C.linear_op(v, n, C.div(n, 2) + 1, ax, lambda f, i: C.cis(-i * f, n) / n)
    m = C.div(s, 2) + 1
    return pos_axis(C, ft, s, ax)


def pos_axis(C, ft, s, ax):
    """The real series whose non negative frequencies are ft: c(-k) = conj c(k)."""
    m = ft.shape[ax]
    at = C.at(ft)
    dims = list(ft.shape)
    dims[ax] = s

    def coeff(*idx):
        def c(k):
            j = list(idx)
            j[ax] = k
            return C.ite([C.lt(k, m)], lambda: at(*j), lambda: 0)

        k = idx[ax]
        pos = lambda: C.ite([C.eq(k, 0)], lambda: C.re(c(k)), lambda: C.ite([C.eq(2 * k, s)], lambda: C.re(c(k)), lambda: c(k)))
        return C.ite([C.le(2 * k, s)], pos, lambda: C.conj(c(s - k)))

    return C.linear_op(C.lam(dims, coeff), s, s, ax, lambda f, i: C.cis(i * f, s))


@contract(f"{U}:interpolate_points_rfft", ["P03"], cases=[dict(nd=n, axis=a) for n, a in ((1, 0), (1, -1), (2, 0), (2, 1), (3, 1))])
class irf:
    """bounded: the branch for symmetric points depends on the values of the points"""

    bounded = True
    samples = 40

    def inputs(C, nd, axis):
        dims = [C.size(f"d{k}") for k in range(nd)]
        at = C.at(C.array("a", dims, dt="f"))
        sym = C.int("symmetric", lo=0, hi=1)
        ax = axis % nd

        def mir(i):
            j = list(i)
            j[ax] = C.mod_(-i[ax], dims[ax])
            return at(*j)

        return (C.lam(dims, lambda *i: at(*i) + sym * mir(i)), C.size("s"), axis)

    def result(C, points, n, axis=-1):
        return real_axis(C, points, n, axis % points.ndim)


@contract(f"{U}:interpolate_points_rfftn", ["P03"], cases=[dict(nd=n, axes=a) for n, a in ((1, (0,)), (2, (0, 1)), (2, (1, 0)), (3, (0, 1)), (2, None), (3, None))])
class irn:
    """Real points: complex series along all but the last of the axes, half a series along the last."""

    def inputs(C, nd, axes):
        m = len(axes) if axes else min(nd, 2)
        return (C.array("a", [C.size(f"d{k}") for k in range(nd)], dt="f"), tuple(C.size(f"s{k}") for k in range(m)), axes)

    def result(C, points, s, axes=None):
        axes = tuple(range(points.ndim - len(s), points.ndim)) if axes is None else axes
        axes = [a % points.ndim for a in axes]
        n = points.shape[axes[-1]]
        out = C.linear_op(points, n, C.div(n, 2) + 1, axes[-1], lambda f, i: C.cis(-i * f, n) / n)
        for k, a in zip(s[:-1], axes[:-1]):
            out = interp_axis(C, out, k, a)
        return pos_axis(C, out, s[-1], axes[-1])


@lemma("interpolate_points[through the points]", ["P03"], cases=[dict(which=w) for w in ("fftn", "fftn2", "rfftn")])
class ipl:
    """Interpolating on r times as many points keeps every one of the original points
    (for real interpolation: an odd number of points)."""

    def body(C, which):
        n, r = C.size("n"), C.size("r")
        if which == "rfftn":
            C.require(C.eq(C.rem(n, 2), 1))
        if which == "fftn2":
            m = C.size("m")
            v = C.array("v", [n, m])
            out = C.at(C.fn(f"{U}:interpolate_points_fftn")(v, (r * n, m), (0, 1)))
            C.equal("points", C.lam([n, m], lambda i, j: out(r * i, j)), v)
            return
        v = C.array("v", [n], dt="f" if which == "rfftn" else "c")
        out = C.at(C.fn(f"{U}:interpolate_points_{which}")(v, (r * n,), (0,)))
        C.equal("points", C.lam([n], lambda i: out(r * i)), C.lam([n], C.at(v)))


def spline(C, data, old, n, ax):
    """The cubic spline through the points (not a knot at the ends) at n evenly spaced coordinates from the first to the last."""
    from scipy.interpolate import CubicSpline

    import numpy as np

    new = [old[0] + (old[-1] - old[0]) * k / (n - 1) for k in range(n)] if n > 1 else [old[0]]
    return CubicSpline(np.array(old), np.array(data), axis=ax, bc_type="not-a-knot")(np.array(new))


def rising(C, name, n):
    """n coordinates in increasing order"""
    out = [C.real(f"{name}0")]
    for k in range(1, n):
        out.append(out[-1] + 0.3 + C.real(f"{name}{k}", pos=True))
    return C.const_array(out)


@contract(f"{U}:interpolate_points_along_axis_spline", ["P03"], cases=[dict(nd=n, axis=a) for n in (1, 2, 3) for a in range(-n, n)])
class ips:
    """Along the axis, each row of points is replaced by the values of the cubic spline through it."""

    bounded = "splines are fitted by scipy: compared at sampled points and coordinates"

    def inputs(C, nd, axis):
        dims = [C.size(f"d{k}") for k in range(nd)]
        dims[axis] = dims[axis] + 3
        return (C.array("a", dims, dt="f"), rising(C, "z", dims[axis]), C.size("n"), axis)

    def result(C, data, old_coords, n, axis=-1):
        return spline(C, data, old_coords, n, axis)
