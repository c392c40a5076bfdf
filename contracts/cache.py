"""Cached functions: the files are real ones in a scratch directory, the cached values are opaque objects."""
import os
import pathlib
import tempfile

from contracts._common import *

D = "util.decorators"
TOKENS: list = []


class Token:
    """An object nothing is known of, which can be saved."""

    def __init__(self, name, savable=True):
        self.name, self.savable = name, savable
        TOKENS.append(self)

    def __reduce__(self):
        if not self.savable:
            raise ValueError("cannot be saved")
        return _token, (TOKENS.index(self),)

    def __repr__(self):
        return f"<{self.name}>"


def _token(i):
    return TOKENS[i]


class Failed(Exception):
    pass


class NotThere(Failed, FileNotFoundError):
    """A file the function itself needs is not there."""


FAILS = {"raises": Failed, "misses a file": NotThere}


class Recorder:
    """A function of which only the calls and the results are known."""

    def __init__(self, result, fails=None):
        self.result, self.fails, self.calls = result, fails, []

    def __call__(self, *args, **kw):
        """What it does."""
        self.calls.append((args, tuple(sorted(kw.items()))))
        if self.fails:
            raise self.fails
        return self.result

    __name__ = "recorder"
    __qualname__ = "Recorder.recorder"


def outcome(f, *args, **kw):
    try:
        return "returned", f(*args, **kw)
    except Failed:
        return "raised", None
    except Exception as e:  # noqa: BLE001
        return "error", e


def listing(d):
    return {f: (pathlib.Path(d) / f).read_bytes() for f in sorted(os.listdir(d))}


CALLS = ("call_uncached", "call_cached", "load_or_call_uncached", "load_or_call_cached")
ARGS = ((Token("x"), 3), {"key": Token("y")})


def where(d, kind, name="a"):
    p = pathlib.Path(d) / name
    seen = []

    def path(*args, **kw):
        seen.append((args, tuple(sorted(kw.items()))))
        return None if kind == "never" else p
    return p, seen, {"const": p, "callable": path, "none": None, "never": path}[kind]


@lemma("cached[step]", ["P28"], cases=[dict(call=c, via=v, path=p, present=s, does=f)
       for c in CALLS for v in ("default", "attribute", *CALLS) for p in ("const", "callable", "none", "never") for s in (0, 1) for f in ("returns", "returns nothing", "raises", "misses a file", "unsavable")
       if not (s and p in ("none", "never"))])
class cachedstep:
    """From any content of the cache, any call, with any outcome of the function: the value returned, how often the function ran, and the content afterwards.

    Every history of calls is a sequence of such steps."""

    def body(C, call, via, path, present, does):
        m = C.mod(D)
        with tempfile.TemporaryDirectory() as d:
            old, new = Token("old"), Token("new", savable=does != "unsavable")
            p, seen, arg = where(d, path)
            (pathlib.Path(d) / "b").write_bytes(b"another file")
            if present:
                m.CachedFunction(Recorder({"v": old} if does != "returns nothing" else {}), arg).call_cached(*ARGS[0], **ARGS[1])
            before = listing(d)
            C.equal("files before", repr(sorted(before)), repr(["a", "b"] if present else ["b"]))
            value = {"v": new} if does != "returns nothing" else {}
            f = Recorder(value, fails=FAILS.get(does))
            if via == "default":
                g = m.cached(arg, default_call=call)(f)
            else:
                g = m.cached(arg, default_call=via)(f) if via in CALLS else m.cached(arg)(f)
                if via == "attribute":
                    g.default_call = call
            del seen[:]
            k, r = outcome(getattr(g, call) if via in CALLS else g, *ARGS[0], **ARGS[1])
            after = listing(d)
            expected_call = (ARGS[0], tuple(sorted(ARGS[1].items())))
            C.equal("path of the call", repr([c == expected_call for c in seen]), repr([True for _ in seen]))
            if present and call.startswith("load"):
                C.equal("loaded", repr((k, r is not None and (r == {} if does == "returns nothing" else r["v"] is old))), repr(("returned", True)))
                C.equal("calls", repr(len(f.calls)), "0")
                C.equal("files", repr(after == before), "True")
                return
            C.equal("calls", repr((len(f.calls), f.calls[:1] == [expected_call])), repr((1, True)))
            saves = call.endswith("call_cached") and path in ("const", "callable")
            if does in FAILS:
                C.equal("raised", k, "raised")
                C.equal("files", repr(after == before), "True")
                return
            if saves and does == "unsavable":
                C.equal("unsaved", repr(k == "error" or r is value), "True")
                C.equal("files", repr(after == before), "True")
                return
            C.equal("returned", repr((k, r is value)), repr(("returned", True)))
            if not saves:
                C.equal("files", repr(after == before), "True")
                return
            C.equal("files", repr((sorted(after), after["b"] == before["b"])), repr((["a", "b"], True)))
            other = Recorder({"v": Token("other")})
            back = m.CachedFunction(other, arg).load_or_call_uncached(*ARGS[0], **ARGS[1])
            C.equal("saved", repr((len(other.calls), back == {} if does == "returns nothing" else back["v"] is new)), repr((0, True)))


@lemma("cached[defaults]", ["P28"])
class cacheddef:
    """By default a cached function loads what was saved and otherwise saves; it keeps the name and documentation of the function; arguments with different paths do not meet."""

    def body(C):
        m = C.mod(D)
        with tempfile.TemporaryDirectory() as d:
            values = {n: {"v": Token(n)} for n in "ab"}
            count = []

            def compute(name, *, scale=1):
                """Compute it."""
                count.append((name, scale))
                return values[name]
            f = m.cached(lambda name, *, scale=1: pathlib.Path(d) / f"{name}{scale}")(compute)
            C.equal("name", repr((f.__name__, f.__doc__, isinstance(f, m.CachedFunction))), repr(("compute", "Compute it.", True)))
            out = [f(n, scale=s)["v"].name for n, s in (("a", 1), ("b", 1), ("a", 1), ("b", 2), ("b", 1), ("a", 2))]
            C.equal("values", repr(out), repr(["a", "b", "a", "b", "b", "a"]))
            C.equal("calls", repr(count), repr([("a", 1), ("b", 1), ("b", 2), ("a", 2)]))
            C.equal("files", repr(sorted(listing(d))), repr(["a1", "a2", "b1", "b2"]))


def payload(C, kind):
    n, m = C.size("n"), C.size("m")
    return {"scalar": lambda: C.real("s"), "complex": lambda: C.complex("z"), "int": lambda: C.array("k", [n], dt="i", lo=0, hi=5), "vector": lambda: C.array("v", [n], dt="f"), "matrix": lambda: C.array("w", [n, m])}[kind]()


@lemma("npy_cached[step]", ["P28"], cases=[dict(kind=k, path=p, name=n, present=s, does=f)
       for k in ("scalar", "complex", "int", "vector", "matrix") for p, n in (("const", "a.npy"), ("const", "a"), ("callable", "a.npy"), ("callable", "a.dat"), ("none", ""), ("never", "")) for s in (0, 1) for f in ("returns", "raises", "misses a file")
       if not (s and p in ("none", "never"))])
class npystep:
    """The result is what the function returns, or what it returned when the file at the path was saved; the function then does not run again."""

    def body(C, kind, path, name, present, does):
        m = C.mod(D)
        with tempfile.TemporaryDirectory() as d:
            p, seen, arg = where(d, path, name or "unused")
            v = payload(C, kind)
            if present:
                C.equal("first", m.npy_cached(arg)(Recorder(v))(*ARGS[0], **ARGS[1]), v)
                C.equal("files before", repr(sorted(listing(d))), repr([name]))
            before = listing(d)
            f = Recorder("another" if present else v, fails=FAILS.get(does))
            g = m.npy_cached(arg)(f)
            C.equal("name", repr((g.__name__, g.__doc__)), repr(("recorder", f.__doc__)))
            del seen[:]
            k, r = outcome(g, *ARGS[0], **ARGS[1])
            call = (ARGS[0], tuple(sorted(ARGS[1].items())))
            C.equal("path of the call", repr([c == call for c in seen]), repr([True for _ in seen]))
            if present or does == "returns":
                C.equal("outcome", k, "returned")
                C.equal("value", r, v)
            else:
                C.equal("outcome", k, "raised")
            C.equal("calls", repr(f.calls == ([] if present else [call])), "True")
            saved = present or (does == "returns" and path in ("const", "callable"))
            C.equal("files", repr(sorted(listing(d))), repr([name] if saved else []))
            if present:
                C.equal("unchanged", repr(listing(d) == before), "True")


@lemma("npy_cached[objects]", ["P28"], cases=[dict(save=s, load=x) for s in (0, 1) for x in (0, 1)])
class npyobj:
    """Objects are only saved, and only loaded, when that is allowed; what may not or cannot be saved leaves no file."""

    def body(C, save, load):
        import numpy as np
        m = C.mod(D)
        with tempfile.TemporaryDirectory() as d:
            p = pathlib.Path(d) / "a.npy"
            for savable in (True, False):
                t = Token("t", savable=savable)
                v = np.empty(1, dtype=object)
                v[0] = t
                f = Recorder(v)
                g = m.npy_cached(p, load_pickle=bool(load), save_pickle=bool(save))(f)
                k, r = outcome(g)
                if save and savable:
                    C.equal("first", repr((k, r is not None and r[0] is t)), repr(("returned", True)))
                    k, r = outcome(g)
                    C.equal("second", repr((k, k == "returned" and r[0] is t, len(f.calls))), repr(("returned", True, 1) if load else ("error", False, 1)))
                    C.equal("files", repr(sorted(listing(d))), repr(["a.npy"]))
                    p.unlink()
                else:
                    C.equal("files", repr(sorted(listing(d))), repr([]))


@lemma("timed", ["P28"], cases=[dict(does=f) for f in ("returns", "raises")])
class timed:
    """A timed function is the function; the time is reported either way."""

    def body(C, does):
        import contextlib
        import io
        m = C.mod(D)
        v = Token("v")
        f = Recorder(v, fails=FAILS.get(does))
        g = m.timed(f)
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            k, r = outcome(g, *ARGS[0], **ARGS[1])
        C.equal("outcome", repr((k, r is v)), repr(("returned", True) if does == "returns" else ("raised", False)))
        C.equal("calls", repr(f.calls == [(ARGS[0], tuple(sorted(ARGS[1].items())))]), "True")
        C.equal("name", g.__name__, f.__name__)
        C.equal("reported", repr(("recorder" in s.getvalue(), s.getvalue().count("\n"))), repr((True, 1)))
