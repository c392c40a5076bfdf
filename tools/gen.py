#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, HOW

root = os.path.dirname(here)
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        mech = [{"name": n, "where": w} for n, w in p["mech"]]
        files = sorted({w.split(":")[0] for _, w in p["mech"]})
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["st"],
                            "quantifier": {"over": p.get("over", ["inputs", "configurations"]), "text": p["q"]},
                            "why_tests_cant": p["why"], "anchors": {"files": files, "mechanism": mech}}) + "\n")
PY = "/opt/venv/bin/python -W ignore -m spaverify.check"
TECH = "contract-based deductive verification: modular symbolic execution of the repository's functions against contracts, obligations discharged by a tensor-expression normaliser and z3"
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore -m spaverify.selftest",
       "hooks": {"guard": "SPAVERIFY_HOOKS", "enable": "no hooks are added to /repo; the checks load its modules as they are"},
       "checks": [{"property": p["id"], "quick_cmd": f"{PY} {p['id']} --tier quick", "thorough_cmd": f"{PY} {p['id']} --tier thorough",
                   "technique": p.get("tech", TECH), "level": p.get("level", "proof"), "level_note": p["note"]} for p in PROPS if p["id"] not in NA],
       "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
       "notes": "Engine in spaverify/, contracts in contracts/. See DESIGN.md."}
for c in man["checks"]:
    c["evidence_file"] = f"evidence/{c['property']}.json"
json.dump(man, open(f"{root}/MANIFEST.json", "w"), indent=1)

# ---- DESIGN.md
import glob
rows = []
for p in PROPS:
    ev = {}
    try:
        ev = json.load(open(f"{root}/evidence/{p['id']}.json"))["coverage"]
    except Exception:
        pass
    rows.append(f"### {p['id']} {p['title']}\n\n{p['st']}\n\n*Decided by:* {p.get('how', HOW)} {p.get('bounds', '')}\n")
bugs = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(f"{root}/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    bugs.append(f"| {i} | {m['property']} | {m['needs']} (breaks: {m['what_it_breaks']}) | {m.get('caught_by', m['property'] + ' (failing input found)')} |")
t = open(f"{root}/tools/design.md").read().replace("PROPERTY_TABLE", "\n".join(rows)).replace("BUG_TABLE", "\n".join(bugs))
if NA:
    t += "\n## Not applicable\n\n" + "\n".join(f"* {k}: {v}" for k, v in NA.items()) + "\n"
open(f"{root}/DESIGN.md", "w").write(t)
