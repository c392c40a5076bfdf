"""Wrapping of indices and distances, paths, projections, slices."""
from contracts._common import *
from contracts.basis_points import det, lattice, mk_stacked, nonsingular, pts, recip, util

W = "stacked_basis.util"


@contract(f"{W}:_wrap_index", ["P09"])
class wi:
    """The wrapped index is congruent to the index and within half a period of the origin."""

    def inputs(C):
        return (C.int("d"), C.size("L"), C.int("o"))

    def applies(C, distance, length, origin=0):
        return not any(getattr(x, "ndim", 0) for x in (distance, length, origin))

    def result(C, distance, length, origin=0):
        return wrapped(C, distance, length, origin)

    def ensures(C, out, distance, length, origin=0):
        C.ensure("congruent", C.eq(C.mod_(out - distance, length), 0))
        C.ensure("at or above", C.le(origin - C.div(length, 2), out))
        C.ensure("below", C.lt(out, origin - C.div(length, 2) + length))


def wrapped(C, d, L, o):
    h = C.div(L, 2)
    return C.mod_(d - o + h, L) + o - h


@contract(f"{W}:wrap_index_around_origin", ["P09"], cases=[dict(nd=n, origin=o, axes=a, arr=r) for n in (1, 2, 3) for o, a, r in ((None, None, 0), ("t", None, 0), ("f", None, 0), ("t", (0,), 0), (None, None, 1), ("t", (n - 1,), 1))])
class wiao:
    """Every selected axis is wrapped around the origin, the others are returned unchanged."""

    def inputs(C, nd, origin, axes, arr):
        b = mk_stacked(C, nd, "trans")[0]
        m = C.size("m")
        idx = tuple(C.array(f"i{k}", [m], dt="i") if arr else C.int(f"i{k}") for k in range(nd))
        o = [C.int(f"o{k}", 0, b._axes[k].n - 1) for k in range(nd)] if origin == "f" else [C.int(f"o{k}") for k in range(nd)]
        if origin == "f":
            f = 0
            for i, x in zip(o, b._axes):
                f = f * x.n + i
            o = f
        elif origin is None:
            o = None
        else:
            o = tuple(o)
        return {"basis": b, "idx": idx, "origin": o, "axes": axes}

    def result(C, basis, idx, *, origin=None, axes=None):
        nd = len(basis._axes)
        if origin is None:
            origin = (0,) * nd
        elif not isinstance(origin, tuple):
            out = []
            for x in reversed(basis._axes):
                out.append(C.mod_(origin, x.n))
                origin = C.div(origin, x.n)
            origin = tuple(reversed(out))

        def one(k):
            if axes is not None and k not in axes:
                return idx[k]
            if hasattr(idx[k], "ndim") and idx[k].ndim:
                at = C.at(idx[k])
                return C.lam(idx[k].shape, lambda *j: wrapped(C, at(*j), basis._axes[k].n, origin[k]), dt="i")
            return wrapped(C, idx[k], basis._axes[k].n, origin[k])

        return tuple(one(k) for k in range(nd))


@contract(f"{W}:calculate_distances_along_path", ["P09"], cases=[dict(nd=n, wrap=w) for n in (1, 2, 3) for w in (False, True)])
class cdp:
    """Steps of a path, wrapped to the nearest equivalent step if asked."""

    def inputs(C, nd, wrap):
        b = mk_stacked(C, nd)[0]
        return {"basis": b, "path": C.array("p", [nd, C.size("L", lo=2)], dt="i"), "wrap_distances": wrap}

    def result(C, basis, path, *, wrap_distances=False):
        at = C.at(path)

        def fn(a, j):
            d = at(a, j) - at(a, j + 1)
            if not wrap_distances:
                return d
            out = 0
            for k, x in enumerate(basis._axes):
                out = out + C.ite(C.eq(a, k), lambda: wrapped_half(C, d, x.n), 0)
            return out

        return C.lam([path.shape[0], path.shape[1] - 1], fn, dt="i")


def wrapped_half(C, d, L):
    """d modulo L in [-L/2, L/2)."""
    return d - L * C.div(2 * d + L, 2 * L)


def path_spec(C, vecs, steps, L):
    at = C.at(steps)
    n = len(vecs)

    def step(j):
        return C.sqrt(sum(sum(vecs[a][d] * at(a, j) for a in range(n)) ** 2 for d in range(n)))

    return C.lam([L], lambda l: C.sum(l, step), dt="f")


for _f in ("x", "k"):
    def _mk(f):
        @contract(f"{W}:calculate_cumulative_{f}_distances_along_path", ["P09"], cases=[dict(nd=n, wrap=w) for n in (1, 2, 3) for w in (False, True)])
        class _c:
            """Entry j is the summed length of the first j steps."""

            def inputs(C, nd, wrap):
                b = mk_stacked(C, nd)[0]
                return {"basis": b, "path": C.array("p", [nd, C.size("L", lo=2)], dt="i"), "wrap_distances": wrap}

            def requires(C, basis, path, *, wrap_distances=False):
                nonsingular(C, lattice(C, basis))

            def result(C, basis, path, *, wrap_distances=False):
                steps = cdp.result(C, basis, path, wrap_distances=wrap_distances)
                v = recip(C, basis) if f == "k" else [[x / b.fundamental_n for x in r] for r, b in zip(lattice(C, basis), basis._axes)]
                return path_spec(C, v, steps, path.shape[1])
    _mk(_f)


@contract("util.util:calculate_cumulative_distances_along_path", ["P09"], cases=[dict(nd=n) for n in (1, 2, 3)])
class ccd:
    def inputs(C, nd):
        N = [C.size(f"N{k}") for k in range(nd)]
        L = C.size("L", lo=2)
        return (tuple(C.array(f"p{k}", [L], dt="i", lo=0, hi=N[k] - 1) for k in range(nd)), C.array("x", [C.size("D"), *N], dt="f"))

    def result(C, path, coordinates):
        at = C.at(coordinates)
        ps = [C.at(p) for p in path]
        L = path[0].shape[0]

        def step(j):
            return C.sqrt(C.sum(coordinates.shape[0], lambda d: (at(d, *[p(j) for p in ps]) - at(d, *[p(j + 1) for p in ps])) ** 2))

        return C.lam([L], lambda l: C.sum(l, step), dt="f")


@contract("util.util:get_data_in_axes", ["P10"], cases=[dict(nd=n, axes=a) for n in (1, 2, 3, 4) for k in range(1, n + 1) for a in __import__("itertools").permutations(range(n), k) if n < 4 or k == 2])
class gdia:
    """The selected axes in the order asked for, at the given position along all the others."""

    def inputs(C, nd, axes):
        dims = [C.size(f"d{k}") for k in range(nd)]
        idx = tuple(C.int(f"i{k}", 0, dims[k] - 1) for k in range(nd) if k not in axes)
        return (C.array("a", dims), axes, idx)

    def result(C, data, axes, idx):
        at = C.at(data)
        rest = [k for k in range(data.ndim) if k not in axes]

        def fn(*j):
            full = [None] * data.ndim
            for k, v in zip(rest, idx):
                full[k] = v
            for k, v in zip(axes, j):
                full[k] = v
            return at(*full)

        return C.lam([data.shape[a] for a in axes], fn)


@lemma("slice_along_axis", ["P10"], cases=[dict(nd=n, axis=a) for n in (1, 2, 3) for a in range(-n, n)])
class saa:
    """Indexing with the slice selects along the given axis only."""

    def body(C, nd, axis):
        dims = [C.size(f"d{k}") for k in range(nd)]
        a = C.array("a", dims)
        i = C.int("i", 0, dims[axis] - 1)
        out = a[C.fn("util.util:slice_along_axis")(i, axis)]
        at = C.at(a)
        ax = axis % nd
        C.equal("index", out, C.lam([d for k, d in enumerate(dims) if k != ax], lambda *j: at(*j[:ax], i, *j[ax:])) if nd > 1 else at(i))
        out = a[C.fn("util.util:slice_along_axis")(slice(1, None), axis)]
        nd2 = list(dims)
        nd2[ax] = dims[ax] - 1
        C.equal("slice", out, C.lam(nd2, lambda *j: at(*j[:ax], j[ax] + 1, *j[ax + 1:])))


def gram_schmidt(C, vecs):
    out = []
    for v in vecs:
        for e in out:
            p = sum(x * y for x, y in zip(e, v))
            v = [a - p * b for a, b in zip(v, e)]
        n = C.sqrt(sum(a * a for a in v))
        out.append([a / n for a in v])
    return out


for _f in ("x", "k"):
    def _mkp(f):
        @contract(f"{W}:project_{f}_points_along_axes", ["P10"], cases=[dict(nd=n, axes=a) for n in (1, 2, 3) for k in (1, 2) for a in __import__("itertools").permutations(range(n), k) if f == "x" or (n, k) != (3, 2)])
        class _c:
            """Coordinates along the orthonormal frame built from the chosen axes."""

            timeout = 40

            def inputs(C, nd, axes):
                b = mk_stacked(C, nd)[0]
                return (C.array("p", [nd, C.size("m")], dt="f"), b, axes)

            def requires(C, points, basis, axes):
                nonsingular(C, lattice(C, basis))

            def result(C, points, basis, axes):
                v = lattice(C, basis)
                if f == "k":
                    v = [[b.n * x for x in r] for r, b in zip(recip(C, basis), basis._axes)]
                e = gram_schmidt(C, [v[a] for a in axes])
                at = C.at(points)
                n = len(v)
                return C.lam([len(axes), points.shape[1]], lambda i, j: sum(C.ite(C.eq(i, k), lambda: sum(e[k][d] * at(d, j) for d in range(n)), 0) for k in range(len(axes))), dt="f")
    _mkp(_f)


for _f in ("x", "k"):
    def _mkc(f):
        @contract(f"{W}:get_{f}_coordinates_in_axes", ["P10"], cases=[dict(nd=n, axes=a, idx=i) for n in (1, 2, 3) for k in (1, 2) for a in __import__("itertools").permutations(range(n), k) for i in (0, 1) if n < 3 or a in ((1,), *(((0, 1), (2, 0)) if f == "x" else ()))])
        class _c:
            timeout = 40

            def inputs(C, nd, axes, idx):
                b = mk_stacked(C, nd)[0]
                return (b, axes, tuple(C.int(f"i{k}", 0, b._axes[k].n - 1) for k in range(nd) if k not in axes) if idx else None)

            def requires(C, basis, axes, idx):
                nonsingular(C, lattice(C, basis))

            def result(C, basis, axes, idx):
                v = lattice(C, basis)
                n = len(v)
                if f == "k":
                    v = [[b.n * x for x in r] for r, b in zip(recip(C, basis), basis._axes)]
                e = gram_schmidt(C, [v[a] for a in axes])
                dims = [b.n for b in basis._axes]
                rest = [k for k in range(n) if k not in axes]
                idx = (0,) * len(rest) if idx is None else idx
                small = [[x / b.n for x in r] for r, b in zip(v, basis._axes)]

                def fn(i, *j):
                    full = [None] * n
                    for k, x in zip(rest, idx):
                        full[k] = x
                    for k, x in zip(axes, j):
                        full[k] = x
                    if f == "k":
                        full = [S.ft_index(C, x, d) for x, d in zip(full, dims)]
                    return sum(C.ite(C.eq(i, k), lambda: sum(e[k][d] * small[a][d] * full[a] for d in range(n) for a in range(n)), 0) for k in range(len(axes)))

                return C.lam([len(axes), *[dims[a] for a in axes]], fn, dt="f")
    _mkc(_f)
