"""Run-time checking of the same contracts on the unmodified code with concrete inputs.

Used to replay counterexamples, to find failing inputs, and as the labelled bounded
stand-in where the symbolic engine has no model.  This process imports the real
package and the real numpy; no shim is installed.
"""
from __future__ import annotations

import json
import math
import os
import random
import sys
import traceback
import warnings
import zlib

import numpy as np

from .contract import PKG, REG, Common, Contract, is_basis, make_abs_basis

warnings.simplefilter("ignore")


class Skip(Exception):
    pass


class UnitRng:
    """The k-th number drawn is 1, the others are 0."""

    def __init__(self, k):
        self.k, self.i = k, 0

    def standard_normal(self, size=None):
        n = math.prod(size) if isinstance(size, (tuple, list)) else 1 if size is None else int(size)
        x = np.zeros(n)
        if self.k is not None and 0 <= self.k - self.i < n:
            x[self.k - self.i] = 1
        self.i += n
        return x[0] if size is None else x.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


class ConC(Common):
    mode = "con"

    def __init__(self, con, case, seed, overrides=None, span=3):
        self.contract, self.case = con, case
        self.rng = np.random.default_rng(seed)
        self.over = overrides or {}
        self.span = span
        self.fail: list = []
        self.ok: list = []
        self.vals: dict = {}
        self.frame: list = []

    # ---- inputs
    def size(self, name, lo=1, hi=None):
        lo = int(lo)
        if name in self.over:
            v = max(int(self.over[name]), lo)
        elif isinstance(self.vals.get(name), int):
            v = self.vals[name]
        else:
            top = lo + self.span - 1 if hi is None else min(int(hi), lo + self.span - 1)
            if top < lo:
                raise Skip
            v = int(self.rng.integers(lo, top + 1))
        if hi is not None and v > int(hi):
            raise Skip
        self.vals[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        if name in self.over:
            v = int(self.over[name])
        elif isinstance(self.vals.get(name), int):
            v = self.vals[name]
        else:
            a = -2 * self.span if lo is None else int(lo)
            b = a + 4 * self.span if hi is None else int(hi)
            if lo is None and hi is not None:
                a = b - 4 * self.span
            if b < a:
                raise Skip
            v = int(self.rng.integers(a, b + 1))
        if (lo is not None and v < int(lo)) or (hi is not None and v > int(hi)):
            raise Skip
        self.vals[name] = v
        return v

    def real(self, name, pos=False):
        v = self.vals[name] if isinstance(self.vals.get(name), float) else float(self.rng.uniform(0.5, 2.0)) if pos else float(self.rng.normal())
        self.vals[name] = v
        return v

    def complex(self, name):
        v = complex(self.rng.normal(), self.rng.normal())
        self.vals[name] = str(v)
        return v

    def _dims(self, dims):
        out = []
        for d in dims:
            if isinstance(d, tuple):
                out.append(math.prod(int(x) for x in d))
            else:
                out.append(int(d))
        return tuple(out)

    def _track(self, name, a):
        self.frame.append((name, a, a.copy()))
        if name not in self.vals:
            self.vals[name] = f"random array of shape {a.shape}"
        return a

    def array(self, name, dims, dt="c", pos=False, lo=None, hi=None):
        sh = self._dims(dims)
        if dt == "i":
            a = 0 if lo is None else int(lo)
            b = a + 5 if hi is None else int(hi)
            if b <= a:
                raise Skip
            return self._track(name, self.rng.integers(a, b, size=sh))
        if pos:
            return self._track(name, self.rng.uniform(0.5, 2.0, size=sh))
        r = self.rng.normal(size=sh)
        if dt == "f":
            return self._track(name, r)
        return self._track(name, r + 1j * self.rng.normal(size=sh))

    def vector(self, name, n, pos=False):
        v = np.array([self.real(f"{name}{i}", pos) for i in range(n)])
        return self._track(name, v)

    def matrix(self, name, n, m):
        v = np.array([[self.real(f"{name}{i}{j}") for j in range(m)] for i in range(n)])
        if n == m:
            v = v + 2.5 * np.eye(n)
        return self._track(name, v)

    def const_array(self, vals, dt="f"):
        return np.array(vals)

    def list_of(self, n, fn):
        return [fn(i) for i in range(n)]

    def second_moment(self, draw, dims, conj=True):
        """The function draws from a normal distribution and is linear in the numbers drawn: one call for each of them."""
        n = math.prod(int(x) for d in dims for x in (d if isinstance(d, tuple) else (d,)))
        dims = [int(x) for d in dims for x in (d if isinstance(d, tuple) else (d,))]
        real = np.random.default_rng

        def call(k):
            rng = UnitRng(k)
            np.random.default_rng = lambda *_a, **_k: rng
            try:
                return np.asarray(draw()).reshape(n).copy(), rng.i
            finally:
                np.random.default_rng = real
        mean, N = call(None)
        out = np.zeros((n, n), dtype=complex)
        for k in range(N):
            x = call(k)[0] - mean
            out += np.outer(x, x.conj() if conj else x)
        out += np.outer(mean, mean.conj() if conj else mean)
        return out.ravel(), mean.ravel()

    def number(self, text):
        return float(text)

    def items(self, x, key=None):
        x = list(x)
        return len(x), lambda i: x[i]

    def abs_basis(self, name, kind="F", n=None, fn=None, complete=False, delta_x=None, real=False):
        n = self.size(f"{name}_n", hi=fn) if n is None else int(n)
        if fn is None:
            fn = n if complete else self.size(f"{name}_N", lo=n)
        if n > fn:
            raise Skip
        a = self.rng.normal(size=(fn, fn)) + (0 if real else 1j) * self.rng.normal(size=(fn, fn))
        q = np.linalg.qr(a)[0][:n]
        return make_abs_basis(self, name, kind, n, fn, lambda i, f: q[i, f], delta_x)

    def linear_op(self, v, n_in, n_out, axis, kernel):
        v = np.asarray(v)
        if v.shape[axis] != int(n_in):
            raise ValueError(f"vector axis has length {v.shape[axis]}, basis has {n_in} states")
        k = np.array([[complex(kernel(i, o)) for o in range(int(n_out))] for i in range(int(n_in))], dtype=np.complex128).reshape(int(n_in), int(n_out))
        return np.moveaxis(np.tensordot(v, k, axes=([axis], [0])), -1, axis)

    def cplx(self, v):
        return np.asarray(v).astype(np.complex128)

    def conj_array(self, v):
        return np.conj(v)

    def hermitian(self, name, n):
        a = self.array(name, [n, n])
        return (a + a.conj().T) / 2

    def rem(self, x, m):
        return np.remainder(x, m)

    def exp_array(self, x):
        return np.exp(x)

    def eig(self, m):
        return np.linalg.eig(m)

    def eigh(self, m):
        return np.linalg.eigh(m)

    def inv(self, m):
        return np.linalg.inv(m)

    def svd(self, m):
        return np.linalg.svd(m, full_matrices=False)

    def unit(self, x):
        return np.exp(1j * np.angle(x))

    def angle(self, x):
        return np.angle(x)

    def regroup(self, v, ax, sizes):
        v = np.asarray(v)
        return v.reshape(*v.shape[:ax], *[int(x) for x in sizes], *v.shape[ax + 1:])

    def ungroup(self, v, ax, k):
        v = np.asarray(v)
        return v.reshape(*v.shape[:ax], math.prod(v.shape[ax:ax + k]), *v.shape[ax + k:])

    # ---- spec language
    def lam(self, dims, fn, dt="c"):
        flat = []
        for d in dims:
            flat += list(d) if isinstance(d, tuple) else [d]
        flat = [int(x) for x in flat]
        out = np.empty(flat, dtype={"c": np.complex128, "f": np.complex128, "i": np.int64, "b": bool}[dt])
        for idx in np.ndindex(*flat):
            out[idx] = fn(*idx)
        if dt == "f":
            out = out.real if np.allclose(out.imag, 0) else out
        return out.reshape(self._dims(dims))

    def at(self, arr, dims=None, split=False):
        a = np.asarray(arr)
        if dims is not None:
            a = a.reshape(tuple(int(d) for d in dims))

        def acc(*idx):
            idx = tuple(int(i) for i in idx)
            if len(idx) != a.ndim or any(not 0 <= i < s for i, s in zip(idx, a.shape)):
                raise IndexError(f"spec index {idx} of array with shape {a.shape}")
            return a[idx]

        return acc

    def sum(self, n, fn):
        if not isinstance(n, (tuple, list)):
            n = (n,)
        tot = 0
        for idx in np.ndindex(*[int(x) for x in n]):
            tot = tot + fn(*idx)
        return tot

    def cis(self, num, den=1):
        return complex(np.exp(2j * np.pi * (int(num) % int(den)) / int(den)))

    def expi(self, x):
        return complex(np.exp(1j * x))

    def ite(self, cond, a, b):
        conds = cond if isinstance(cond, (list, tuple)) else [cond]
        x = a if all(bool(c) for c in conds) else b
        return x() if callable(x) else x

    def eq(self, a, b):
        return a == b

    def ne(self, a, b):
        return a != b

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def mod_(self, a, n):
        return int(a) % int(n)

    def div(self, a, n):
        return int(a) // int(n)

    def sqrt(self, x):
        return np.sqrt(x)

    def exp(self, x):
        return np.exp(x)

    def min(self, a):
        return np.min(a)

    def max(self, a):
        return np.max(a)

    def argsort(self, a):
        return np.argsort(a)

    def range(self, n):
        return range(n)

    def len(self, x):
        return len(x)

    def argmax(self, a):
        return np.argmax(a)

    def argmin(self, a):
        return np.argmin(a)

    def log(self, x):
        return np.log(x)

    def pow(self, x, k):
        return x**k

    def cos(self, x):
        return np.cos(x)

    def sin(self, x):
        return np.sin(x)

    def conj(self, x):
        return np.conj(x)

    def re(self, x):
        return np.real(x)

    def abs(self, x):
        return np.abs(x)

    def im(self, x):
        return np.imag(x)

    def abs2(self, x):
        return abs(x) ** 2

    I = 1j
    pi = math.pi

    def isclose(self, a, b):
        return 1.0 if np.isclose(a, b) else 0.0

    def integral(self, fn, a, b):
        """Gauss-Legendre on 60 pieces"""
        x, w = np.polynomial.legendre.leggauss(10)
        e = np.linspace(a, b, 61)
        return sum((h - l) / 2 * sum(wi * fn((h - l) / 2 * xi + (h + l) / 2) for xi, wi in zip(x, w)) for l, h in zip(e[:-1], e[1:]))

    def function(self, name, real=False):
        """A function of one real number about which nothing is known"""
        p, q, r = self.real(name + "p"), self.real(name + "q"), self.real(name + "r")
        return (lambda x: p + q * np.cos(r * np.asarray(x))) if real else (lambda x: (p + q * np.asarray(x)) * np.exp(1j * r * np.asarray(x)))

    def const(self, name):
        import scipy.constants

        return getattr(scipy.constants, name)

    def frac(self, a, b):
        return a / b

    # ---- logic
    def require(self, cond):
        if not bool(cond):
            raise Skip

    def branch(self, cond):
        return bool(cond)

    def _record(self, name, ok, detail=""):
        (self.ok if ok else self.fail).append((name, str(detail)[:600]))

    def ensure(self, name, cond):
        self._record(name, bool(cond), "condition is false")

    def equal(self, name, actual, expected):
        self._equal(name, actual, expected)

    def zero(self, name, e):
        self._equal(name, e, 0)

    def _equal(self, name, a, b):
        if isinstance(b, dict):
            if not isinstance(a, dict) or set(a) != set(b):
                self._record(name, False, f"{type(a).__name__} with keys {list(a) if isinstance(a, dict) else ''} != {list(b)}")
                return
            for k in b:
                self._equal(f"{name}.{k}", a[k], b[k])
            return
        if is_basis(b):
            r = self._same_basis(a, b)
            self._record(name, r is None, r)
            return
        if isinstance(b, str) or b is None:
            self._record(name, a == b, f"{a!r} != {b!r}")
            return
        if type(b) in (tuple, list) and type(a) in (tuple, list):
            if len(a) != len(b):
                self._record(name, False, f"length {len(a)} != {len(b)}")
                return
            for k, (x, y) in enumerate(zip(a, b)):
                self._equal(f"{name}[{k}]", x, y)
            return
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            self._record(f"{name}.shape", False, f"shape {x.shape} != expected {y.shape}")
            return
        if x.size == 0:
            self._record(name, True)
            return
        if not np.all(np.isfinite(y)):
            self._record(name, True)
            return
        if not np.all(np.isfinite(x)):
            self._record(name, False, f"got {np.array2string(x, precision=5, threshold=12)} expected {np.array2string(y, precision=5, threshold=12)}")
            return
        scale = max(1e-300, float(np.max(np.abs(y))), float(np.max(np.abs(x))))
        d = np.max(np.abs(x - y))
        tol = getattr(self.contract.cls, "tol", 1e-7)
        self._record(name, bool(d <= tol * scale + getattr(self.contract.cls, "atol", 1e-9)), f"got {np.array2string(x, precision=5, threshold=12)} expected {np.array2string(y, precision=5, threshold=12)} (max difference {d})")

    def _same_basis(self, a, b):
        if a is b:
            return None
        if type(a).__name__ != type(b).__name__:
            return f"basis type {type(a).__name__} != {type(b).__name__}"
        if getattr(b, "_spa_abs", False):
            return "different basis objects"
        if hasattr(b, "_axes"):
            if len(a._axes) != len(b._axes):
                return f"{len(a._axes)} axes != {len(b._axes)}"
            for x, y in zip(a._axes, b._axes):
                r = self._same_basis(x, y)
                if r:
                    return r
            return None
        for attr in ("n", "fundamental_n", "offset", "step", "_offset", "_step", "delta_x", "delta_x_stacked", "delta_t", "dt", "_delta_t", "_dt"):
            if hasattr(b, attr):
                u, v = np.asarray(getattr(a, attr)), np.asarray(getattr(b, attr))
                if u.shape != v.shape or not np.allclose(u, v):
                    return f"{type(b).__name__}.{attr}: {u} != {v}"
        return None

    def check_frame(self):
        for name, a, old in self.frame:
            if name in self.contract.mutates:
                continue
            same = a.shape == old.shape and np.array_equal(a, old, equal_nan=True)
            self._record(f"frame:{name}", same, f"argument {name} was modified by the call")


def run_once(con: Contract, case, seed, overrides=None, span=3):
    import copy
    import inspect

    C = ConC(con, case, seed, overrides, span)
    cls = con.cls
    rs = random.Random(seed)
    np.random.seed(seed % 2**32)
    if con.kind == "lemma":
        try:
            cls.body(C, **case)
        except Skip:
            return None
        except Exception as e:  # noqa: BLE001
            C._record("no-exception", False, f"{type(e).__name__}: {e} {_where(e)}")
            return C
        C.check_frame()
        return C
    try:
        args = cls.inputs(C, **case)
        kwargs = {}
        if isinstance(args, dict):
            args, kwargs = (), args
        elif len(args) == 2 and isinstance(args, tuple) and isinstance(args[0], tuple) and isinstance(args[1], dict) and getattr(cls, "has_kwargs", False):
            args, kwargs = args
        f = C.fn(con.target)
        ba = inspect.signature(f).bind(*args, **kwargs)
        ba.apply_defaults()
        if hasattr(cls, "requires"):
            cls.requires(C, *ba.args, **ba.kwargs)
    except Skip:
        return None
    pre = copy.copy(ba)
    pre.arguments = {k: _fz(v) for k, v in ba.arguments.items()}
    try:
        out = f(*args, **kwargs)
    except Skip:
        return None
    except Exception as e:  # noqa: BLE001
        if con.expect_raise and con.expect_raise(C, *pre.args, **pre.kwargs):
            C._record("raises", True)
            return C
        C._record("no-exception", False, f"{type(e).__name__}: {e} {_where(e)}")
        return C
    try:
        if hasattr(cls, "result"):
            C.equal("result", out, cls.result(C, *pre.args, **pre.kwargs))
        if hasattr(cls, "ensures"):
            cls.ensures(C, out, *pre.args, **pre.kwargs)
    except Skip:
        return None
    except (ValueError, IndexError, TypeError, KeyError, AttributeError) as e:
        C._record("postcondition", False, f"result does not have the specified structure: {type(e).__name__}: {e} {_where(e)}")
    C.check_frame()
    return C


def _fz(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: _fz(v) for k, v in x.items()}
    if type(x) in (tuple, list):
        return type(x)(_fz(v) for v in x)
    return x


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f"{f.filename.split(PKG + '/')[-1]}:{f.lineno}" for f in tb if PKG in f.filename]
    if not fr:
        fr = [f"{f.filename}:{f.lineno}" for f in tb][-2:]
    return f"(at {fr[-1]})"


def run_case(con, case, samples, seed=1, overrides=None, time_limit=20.0):
    """-> dict with counts and the first failing input."""
    import time

    t0 = time.time()
    done = checks = skipped = 0
    failing = None
    base = zlib.crc32(repr((con.name, sorted(case.items(), key=str), seed)).encode())
    k = 0
    while done < samples and k < samples * 12 and time.time() - t0 < time_limit:
        span = (1, 2, 3, 3, 4, 5)[k % 6]
        s = (base + k * 7919) & 0x7FFFFFFF
        k += 1
        try:
            C = run_once(con, case, s, overrides, span)
        except Exception as e:  # noqa: BLE001
            return {"error": f"{type(e).__name__}: {e} {traceback.format_exc()[-1500:]}", "samples": done, "checks": checks}
        if C is None:
            skipped += 1
            continue
        done += 1
        checks += len(C.ok) + len(C.fail)
        if C.fail:
            failing = {"contract": con.name, "case": {a: str(b) for a, b in case.items()}, "case_index": None, "seed": s, "span": span, "overrides": overrides, "inputs": {a: str(b) for a, b in C.vals.items()}, "failures": C.fail[:4]}
            break
    return {"samples": done, "checks": checks, "skipped": skipped, "failing": failing, "wall": time.time() - t0}


def natural_units():
    """The samples use units in which no quantity is tiny: an error in a term of order hbar^2 would be lost in rounding."""
    import scipy.constants as c

    c.hbar, c.Boltzmann, c.electron_mass, c.elementary_charge = 0.83, 1.27, 0.91, 1.61
    c.epsilon_0 = 0.71
    c.h, c.k, c.m_e, c.e = 2 * math.pi * c.hbar, c.Boltzmann, c.electron_mass, c.elementary_charge


def main():
    """Worker: JSON lines {contract, case_index, tier, samples, seed, overrides?, time_limit?}."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.path.insert(0, os.environ.get("SPA_REPO", "/repo"))
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import matplotlib as mpl

    mpl.use("Agg")
    from . import load_contracts

    natural_units()
    load_contracts()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        con = REG[job["contract"]]
        case = con.case_list(job["tier"])[job["case_index"]]
        r = run_case(con, case, job["samples"], job["seed"], job.get("overrides"), job.get("time_limit", 20))
        if r.get("failing"):
            r["failing"].update(case_index=job["case_index"], tier=job["tier"])
        r.update(contract=job["contract"], case_index=job["case_index"])
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
