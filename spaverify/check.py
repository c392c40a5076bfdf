"""Decide one property: python -m spaverify.check P01 [--tier quick|thorough].

Every obligation generated from the current source of /repo is (re)proved; the same
contracts are also evaluated on the unmodified code with concrete inputs, which gives
the failing input of a violation and cross-checks the proof engine.
"""
from __future__ import annotations

import argparse
import hashlib
import json
import os
import subprocess
import sys
import threading
import time
from queue import Empty, Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


class Proc:
    """A line-protocol worker process with a hard deadline per job."""

    def __init__(self, module):
        self.module = module
        self.p = None
        self.info = {}

    def start(self):
        env = dict(os.environ, PYTHONPATH=ROOT, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([PY, "-W", "ignore", "-m", self.module], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=ROOT, env=env)
        self.q: Queue = Queue()
        self.err: list = []
        threading.Thread(target=self._read, args=(self.p, self.q), daemon=True).start()
        threading.Thread(target=self._read_err, args=(self.p, self.err), daemon=True).start()
        self.info = self._get(120)

    @staticmethod
    def _read(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    @staticmethod
    def _read_err(p, err):
        for line in p.stderr:
            err.append(line)
            del err[:-40]

    def _get(self, timeout):
        try:
            line = self.q.get(timeout=timeout)
        except Empty:
            self.stop()
            return {"error": "timeout"}
        if line is None:
            self.stop()
            time.sleep(0.05)
            return {"error": "worker died: " + "".join(self.err)[-1500:]}
        return json.loads(line)

    def stop(self):
        p, self.p = self.p, None
        if p is not None:
            p.kill()
            p.wait()

    def run(self, job, timeout):
        for _ in range(2):
            if self.p is None:
                self.start()
                if self.p is None:
                    return {"error": self.info.get("error", "worker failed to start")}
            try:
                self.p.stdin.write(json.dumps(job) + "\n")
                self.p.stdin.flush()
                break
            except (BrokenPipeError, OSError):
                self.stop()
        else:
            return {"error": "worker could not be started"}
        return self._get(timeout)


class Pool:
    def __init__(self, module, n):
        self.jobs: Queue = Queue()
        self.done: Queue = Queue()
        self.procs = [Proc(module) for _ in range(n)]
        self.pending = 0
        for pr in self.procs:
            threading.Thread(target=self._loop, args=(pr,), daemon=True).start()

    def _loop(self, pr):
        while True:
            key, job, timeout = self.jobs.get()
            if job is None:
                pr.stop()
                return
            try:
                r = pr.run(job, timeout)
            except Exception as e:  # noqa: BLE001
                r = {"error": f"{type(e).__name__}: {e}"}
            r["_info"] = pr.info
            self.done.put((key, job, r))

    def submit(self, key, job, timeout):
        self.pending += 1
        self.jobs.put((key, job, timeout))

    def close(self):
        for pr in self.procs:
            self.jobs.put((None, None, None))
        for pr in self.procs:
            pr.stop()


# ---------------------------------------------------------------- known findings
def load_findings():
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [x for x in json.load(open(f))["findings"] if x.get("status") == "known"]


def match_finding(findings, contract, case, what):
    for f in findings:
        if f["contract"] != contract:
            continue
        if any(str(case.get(k)) != str(v) for k, v in f.get("case", {}).items()):
            continue
        if f.get("obligations") and not any(what == o or what.startswith(o) for o in f["obligations"]):
            continue
        return f
    return None


def select(prop, tier):
    from .contract import REG

    return [c for c in REG.values() if prop in c.props and (tier == "thorough" or not c.thorough_only)]


def decide(prop, tier, seed, only=None, verbose=False):
    from . import load_contracts
    from .contract import BY_TARGET, REG

    load_contracts()
    t0 = time.time()
    limit = float(os.environ.get("SPA_LIMIT", "420" if tier == "quick" else "3000"))
    ncpu = os.cpu_count() or 4
    symp = Pool("spaverify.worker", max(2, ncpu - 2))
    conp = Pool("spaverify.concrete", max(2, ncpu - 4))
    findings = load_findings()
    state: dict = {}

    def add(con):
        if only and not any(o in con.name for o in only):
            return
        for k, case in enumerate(con.case_list(tier)):
            key = (con.name, k)
            if key in state:
                continue
            state[key] = {"con": con, "case": {a: str(b) for a, b in case.items()}, "sym": None, "con_runs": [], "con_left": 0}
            to = con.timeout * (3 if tier == "thorough" else 1)
            symp.submit(key, {"contract": con.name, "case_index": k, "tier": tier, "timeout": to}, to + 45)
            conc(key, con.samples if tier == "quick" else con.samples * 6)

    def conc(key, samples, overrides=None, tl=None, seed_off=0):
        st = state[key]
        st["con_left"] += 1
        tl = tl or (12 if tier == "quick" else 60)
        conp.submit(key, {"contract": key[0], "case_index": key[1], "tier": tier, "samples": samples, "seed": seed + seed_off, "overrides": overrides, "time_limit": tl}, tl + 60)

    sel = select(prop, tier)
    if not sel:
        print(f"no contracts for {prop}")
        return 2
    for con in sel:
        add(con)
    missing, broken = set(), set()
    symdone = 0
    timed_out = False
    while True:
        if symp.pending == 0 and conp.pending == 0:
            break
        if time.time() - t0 > limit:
            timed_out = True
            break
        try:
            key, job, r = symp.done.get(timeout=0.02)
            symp.pending -= 1
            symdone += 1
            info = r.pop("_info", {})
            missing |= set(info.get("missing", ()))
            broken |= set(info.get("broken", ()))
            st = state[key]
            if "error" in r:
                r = {"ok": 0, "names": [], "failures": [], "unsupported": f"engine: {r['error']}", "used": [], "wall": 0, "stats": {}, "paths": 0, "models": []}
            st["sym"] = r
            if verbose:
                tag = "FAIL" if r["failures"] else ("UNSUP" if r["unsupported"] else "ok")
                print(f"  {tag:5} {key[0]} {st['case']} n={r['ok']} paths={r['paths']} {r['wall']:.2f}s {[ (f['what'], f['detail'][:700], f['model']) for f in r['failures']]} {r['unsupported'] or ''}", flush=True)
            for u in r["used"]:
                add(REG[u])
            if r["failures"]:
                for f in r["failures"][:2]:
                    if f["model"] and all(v < 60 for v in f["model"].values()):
                        conc(key, 10, f["model"], seed_off=1)
                conc(key, 80, None, 25, seed_off=2)
            elif r["unsupported"] or r["ok"] == 0:
                conc(key, 60 if tier == "quick" else 300, None, 25, seed_off=3)
        except Empty:
            pass
        try:
            while True:
                key, job, r = conp.done.get_nowait()
                conp.pending -= 1
                st = state[key]
                st["con_left"] -= 1
                st["con_runs"].append(r)
                if verbose and (r.get("failing") or r.get("error")):
                    print(f"  CONC {key[0]} {st['case']} {json.dumps(r.get('failing') or r.get('error'))[:1500]}", flush=True)
                if r.get("error") == "timeout":
                    pass
        except Empty:
            pass
    symp.close()
    conp.close()
    # ---- verdict
    violations, known, bounded = [], {}, []
    tot = ok = 0
    errors = []
    for key, st in state.items():
        s = st["sym"] or {"ok": 0, "names": [], "failures": [], "unsupported": "time limit of the check reached", "used": [], "wall": 0, "stats": {}, "models": []}
        st["sym"] = s
        tot += s["ok"] + len(s["failures"])
        ok += s["ok"]
        fails = [r["failing"] for r in st["con_runs"] if r.get("failing")]
        for r in st["con_runs"]:
            if r.get("error"):
                errors.append(f"{key}: {r['error'][:400]}")
        nsamp = sum(r.get("samples", 0) for r in st["con_runs"])
        entries = []
        for f in fails:
            for what, detail in f["failures"]:
                entries.append((what, detail, f))
        for f in s["failures"]:
            entries.append((f["what"], f["detail"], fails[0] if fails else None))
        new = []
        for what, detail, inp in entries:
            k = match_finding(findings, key[0], st["case"], what)
            if k:
                known[k["id"]] = k
            else:
                new.append((what, detail, inp))
        if new:
            new.sort(key=lambda e: e[2] is None)
            violations.append((key, st, new))
        elif not s["failures"] and (s["unsupported"] or s["ok"] == 0):
            bounded.append({"contract": key[0], "case": st["case"], "reason": (s["unsupported"] or "no obligations generated")[:300], "bound": f"{nsamp} random inputs, sizes up to 5 above their minimum"})
            if nsamp == 0 and not fails:
                errors.append(f"{key}: neither proved nor sampled ({s['unsupported']})")
    # a public function that a contract names must exist
    for m in sorted(missing):
        if any(m == st["con"].target for st in state.values()):
            priv = m.split(":")[1].split(".")[-1].startswith("_")
            if not priv and not any(v[0][0] == m for v in violations):
                key = next(k for k, st in state.items() if st["con"].target == m)
                violations.append((key, state[key], [("exists", f"function {m} is missing", None)]))
    os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
    lines = []
    violations.sort(key=lambda v: v[2][0][2] is None)
    for key, st, new in violations:
        what, detail, inp = new[0]
        tag = hashlib.sha1(repr((key, st["case"])).encode()).hexdigest()[:8]
        path = os.path.join(ROOT, "replay", f"{prop}-{tag}.json")
        json.dump(
            {
                "property": prop, "contract": key[0], "target": st["con"].target, "case": st["case"], "case_index": key[1], "tier": tier,
                "failed_obligations": [{"what": w, "detail": d} for w, d, _ in new],
                "failing_input": inp, "verifier_output": st["sym"]["failures"],
                "rerun": f"cd {ROOT} && {PY} -W ignore -m spaverify.check --replay {path}" if inp else None,
            },
            open(path, "w"), indent=1)
        print(f"  obligation {what} of {key[0]} {st['case']} fails: {detail[:500]}")
        if inp:
            print(f"    failing input: {json.dumps(inp['inputs'])[:500]}")
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if inp else " no-failing-input-found"))
    # ---- evidence
    wall = time.time() - t0
    funcs = sorted({st["con"].target or f"(composed) {st['con'].name}" for st in state.values()})
    proved = [k for k, st in state.items() if st["sym"]["ok"] and not st["sym"]["failures"] and not st["sym"]["unsupported"]]
    models = sorted({m for st in state.values() for m in st["sym"].get("models", ())})
    z3q = sum(st["sym"]["stats"].get("z3_queries", 0) for st in state.values())
    z3s = sum(st["sym"]["stats"].get("z3_s", 0) for st in state.values())
    quick = sum(st["sym"]["stats"].get("quick", 0) for st in state.values())
    nsamp = sum(r.get("samples", 0) for st in state.values() for r in st["con_runs"])
    nchk = sum(r.get("checks", 0) for st in state.values() for r in st["con_runs"])
    from .trust import ASSUMPTIONS, TRUSTED

    level = MANIFEST_LEVEL.get(prop, "proof")
    cov = {
        "obligations": tot, "discharged": ok,
        "checker_cmd": f"{PY} -W ignore -m spaverify.check {prop} --tier {tier}",
        "trusted_base": TRUSTED + [f"numpy/scipy model: {m}" for m in models],
        "functions_under_contract": funcs,
        "contract_cases": len(state), "contract_cases_proved": len(proved),
        "bounded_standins": bounded,
        "backends": {"tensor normaliser (spaverify.simp)": ok, "z3 integer/real queries": z3q, "index queries decided without z3": quick},
        "solver_time_s": round(z3s, 3), "symbolic_time_s": round(sum(st["sym"].get("wall", 0) for st in state.values()), 3),
        "concrete_samples": nsamp, "concrete_checks": nchk,
        "evaluations": nsamp, "distinct_nontrivial": nsamp,
        "rule": "random concrete inputs meeting each contract's precondition, run on the unmodified code; every sample has fresh data, sizes grow from 1",
        "samples": [{"contract": k[0], "case": st["case"], "obligations": st["sym"]["names"]} for k, st in list(state.items())[:4]],
        "explanation": "obligations are generated by symbolic execution of the functions in /repo against their contracts (callees replaced by their contracts); bounded_standins were only sampled and are not counted as proved",
        "missing_targets": sorted(missing), "modules_not_importable": sorted(broken), "known_findings": sorted(known),
        "errors": errors[:10],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(
        {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(violations)},
        open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    for k in known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for l in lines:
        print(l)
    print(f"{prop}: {len(state)} contract cases, {ok}/{tot} obligations discharged, {len(proved)} cases proved, {len(bounded)} bounded, {nsamp} samples, {wall:.1f}s" + (" (time limit)" if timed_out else ""))
    for b in bounded[:30] if verbose else []:
        print("   bounded:", b["contract"], b["case"], b["reason"])
    for e in errors[:5]:
        print("   error:", e)
    if lines:
        return 1
    if not ok and level == "proof" or errors:
        return 2
    return 0


def replay(path):
    """Re-run a recorded failing input on the current tree."""
    sys.path.insert(0, os.environ.get("SPA_REPO", "/repo"))
    from . import load_contracts
    from .concrete import natural_units, run_once
    from .contract import REG

    natural_units()
    load_contracts()
    d = json.load(open(path))
    f = d["failing_input"]
    con = REG[d["contract"]]
    C = run_once(con, con.case_list(d["tier"])[d["case_index"]], f["seed"], f["overrides"], f["span"])
    for w, x in C.fail:
        print("FAILS", w, x)
    return 1 if C.fail else 0


MANIFEST_LEVEL: dict = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", action="append")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    try:
        for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]:
            MANIFEST_LEVEL[c["property"]] = c["level"]
    except (OSError, ValueError):
        pass
    rc = decide(a.prop, a.tier, a.seed, a.only, a.v)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
