"""Symbolic worker: reads JSON lines {contract, case_index, tier, timeout}, writes JSON lines."""
from __future__ import annotations

import json
import os
import resource
import sys
import warnings

warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # nothing the code under test prints reaches the protocol
    from . import load_contracts, loader
    from . import contract as K

    loader.install()
    broken = loader.import_all()
    load_contracts()
    missing = K.install_dispatch()
    out.write(json.dumps({"ready": True, "broken": [str(b) for b in broken], "missing": missing}) + "\n")
    out.flush()
    from . import npshim

    for line in sys.stdin:
        job = json.loads(line)
        con = K.REG[job["contract"]]
        case = con.case_list(job["tier"])[job["case_index"]]
        npshim.USED.clear()
        K.Current.C = None
        if con.bounded:
            r = K.CaseResult()
            r.unsupported = "declared bounded: " + (con.bounded if isinstance(con.bounded, str) else con.doc)
        else:
            try:
                r = K.verify_case(con, case, job["timeout"])
            except MemoryError:
                r = K.CaseResult()
                r.unsupported = "MemoryError"
        res = {
            "contract": con.name, "case_index": job["case_index"], "case": {a: str(b) for a, b in case.items()},
            "ok": r.ok, "names": sorted(set(r.names)), "unsupported": r.unsupported, "paths": r.paths,
            "failures": [{"what": f.what, "detail": f.detail[:3000], "model": f.model} for f in r.failures],
            "used": sorted(r.used), "wall": r.wall, "stats": r.stats, "models": sorted(map(str, npshim.USED)),
        }
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
