"""Mutation testing by samples: python3 tools/mutall.py [-n PER_FUNCTION] [-j JOBS] [-s SEED] [MODULE_SUBSTRING ...]

First records which functions of the package every contract case runs (on samples), then changes one operator,
constant, axis or call at a time in a scratch copy and runs the samples of the cases which run that function.
Prints SURVIVED for each change no sample notices (equivalent, or a weak contract), UNCALLED for functions no contract runs.
"""
import argparse
import ast
import copy
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import threading
import time
from queue import Empty, Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("SPA_REPO", "/repo")
PKG = "surface_potential_analysis"
W = "/tmp/mutall"


def trace(part, parts):
    """Which functions every case runs."""
    sys.path.insert(0, SRC)
    import matplotlib as mpl

    mpl.use("Agg")
    from spaverify import load_contracts
    from spaverify.concrete import natural_units, run_case
    from spaverify.contract import REG

    natural_units()
    load_contracts()
    base = os.path.join(SRC, PKG) + "/"
    out = {}
    jobs = [(c.name, i) for c in REG.values() for i in range(len(c.case_list("quick")))]
    for name, i in jobs[part::parts]:
        seen = set()

        def prof(frame, event, _arg, seen=seen):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(base):
                    seen.add((co.co_filename[len(base):], co.co_qualname.split(".<locals>")[0]))
        con = REG[name]
        t = time.time()
        sys.setprofile(prof)
        try:
            run_case(con, con.case_list("quick")[i], 4, 1, None, 10)
        finally:
            sys.setprofile(None)
        out[(name, i)] = (seen, time.time() - t)
    with open(f"{W}/map.{part}", "wb") as f:
        pickle.dump(out, f)


def one(jobfile):
    """Run the listed cases; the first that fails is printed."""
    sys.path.insert(0, os.environ["SPA_REPO"])
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    import matplotlib as mpl

    mpl.use("Agg")
    try:
        from spaverify import load_contracts
        from spaverify.concrete import natural_units, run_case
        from spaverify.contract import REG

        natural_units()
        load_contracts()
    except Exception as e:  # noqa: BLE001
        print("RESULT killed import", e)
        return
    t = time.time()
    for name, i in json.load(open(jobfile)):
        con = REG[name]
        r = run_case(con, con.case_list("quick")[i], 8, 1, None, 10)
        if r.get("failing") or r.get("error"):
            print("RESULT killed", name, i)
            return
        if time.time() - t > 60:
            break
    print("RESULT survived")


def main():
    from mutate import Mut, find, functions, strip

    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=6)
    ap.add_argument("-j", type=int, default=7)
    ap.add_argument("-s", type=int, default=0)
    ap.add_argument("--cases", type=int, default=40)
    ap.add_argument("mods", nargs="*")
    a = ap.parse_args()
    os.makedirs(W, exist_ok=True)
    ps = [subprocess.Popen([sys.executable, "-W", "ignore", __file__, "--trace", str(k), str(a.j)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for k in range(a.j)]
    for p in ps:
        p.wait()
    calls, cost = {}, {}
    for k in range(a.j):
        for key, (seen, t) in pickle.load(open(f"{W}/map.{k}", "rb")).items():
            cost[key] = t
            for f in seen:
                calls.setdefault(f, []).append(key)
    weight = {k: 0 for k in cost}
    for ks in calls.values():
        for k in ks:
            weight[k] += 1
    rng = random.Random(a.s)
    jobs, total = Queue(), 0
    for dp, _, fs in sorted(os.walk(os.path.join(SRC, PKG))):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(dp, f), os.path.join(SRC, PKG))
            if not f.endswith(".py") or "plot" in f or (a.mods and not any(m in rel for m in a.mods)):
                continue
            text = open(os.path.join(dp, f)).read()
            tree = ast.parse(text)
            for qual in functions(tree):
                ks = calls.get((rel, qual))
                if not ks:
                    print("UNCALLED", rel, qual, flush=True)
                    continue
                # the most specific cases first: those running the fewest functions, one per contract
                ks = sorted(ks, key=lambda k: (weight[k], k))
                by = {}
                for k in ks:
                    by.setdefault(k[0], []).append(k)
                order = []
                while len(order) < a.cases and by:
                    for nme in list(by):
                        order.append(by[nme].pop(0))
                        if not by[nme]:
                            del by[nme]
                order = order[: a.cases]
                fn = find(tree, qual)
                node = copy.deepcopy(fn)
                if strip(node) is not None:
                    node.body = node.body[1:]
                m = Mut()
                m.visit(copy.deepcopy(node))
                pick = list(range(m.n))
                rng.shuffle(pick)
                for k in pick[: a.n]:
                    t2 = copy.deepcopy(tree)
                    node = find(t2, qual)
                    doc = strip(node)
                    if doc is not None:
                        node.body = node.body[1:]
                    mm = Mut(k)
                    mm.visit(node)
                    if doc is not None:
                        node.body.insert(0, doc)
                    ast.fix_missing_locations(t2)
                    jobs.put((rel, qual, mm.what, ast.unparse(t2), order))
                    total += 1
    print(total, "mutants", flush=True)
    lock, counts = threading.Lock(), {"killed": 0, "survived": 0, "other": 0}

    def loop(slot):
        base = f"{W}/{slot}"
        shutil.rmtree(base, ignore_errors=True)
        shutil.copytree(os.path.join(SRC, PKG), os.path.join(base, PKG), ignore=shutil.ignore_patterns("__pycache__"))
        while True:
            try:
                rel, qual, what, text, order = jobs.get_nowait()
            except Empty:
                break
            p = os.path.join(base, PKG, rel)
            orig = open(p).read()
            open(p, "w").write(text)
            json.dump(order, open(f"{W}/{slot}.json", "w"))
            try:
                r = subprocess.run([sys.executable, "-W", "ignore", __file__, "--one", f"{W}/{slot}.json"], env={**os.environ, "SPA_REPO": base, "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True, timeout=200, cwd="/tmp", check=False)
                res = next((ln for ln in r.stdout.splitlines() if ln.startswith("RESULT")), "RESULT other")
            except subprocess.TimeoutExpired:
                res = "RESULT killed timeout"
            finally:
                open(p, "w").write(orig)
            with lock:
                s = res.split()[1]
                counts[s] += 1
                if s != "killed":
                    print("SURVIVED" if s == "survived" else "OTHER", rel, qual, what, flush=True)
        shutil.rmtree(base, ignore_errors=True)

    ths = [threading.Thread(target=loop, args=(k,)) for k in range(a.j)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    print(counts)


if __name__ == "__main__":
    if sys.argv[1:2] == ["--trace"]:
        trace(int(sys.argv[2]), int(sys.argv[3]))
    elif sys.argv[1:2] == ["--one"]:
        one(sys.argv[2])
    else:
        main()
