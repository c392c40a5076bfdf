"""Lines of the repository's functions that no contract sample executes (a map of what is still out of reach).
usage: SPA_REPO=... python tools/linecov.py [module substring]"""
import ast, os, sys
sys.path.insert(0, "/verif")
REPO = os.environ.get("SPA_REPO", "/repo")
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter("ignore")
import matplotlib as mpl
mpl.use("Agg")
seen = {}
mon = sys.monitoring
ROOT = os.path.join(REPO, "surface_potential_analysis") + "/"
mon.use_tool_id(1, "cov")
def line(code, no):
    if code.co_filename.startswith(ROOT):
        seen.setdefault(code.co_filename, set()).add(no)
    return mon.DISABLE
mon.register_callback(1, mon.events.LINE, line)
mon.set_events(1, mon.events.LINE)
from spaverify import load_contracts, concrete
load_contracts()
from spaverify.contract import REG
for con in REG.values():
    for case in con.case_list("quick"):
        concrete.run_case(con, case, 2, time_limit=3)
want = sys.argv[1] if len(sys.argv) > 1 else ""
for d, _, fs in sorted(os.walk(ROOT)):
    for f in sorted(fs):
        p = os.path.join(d, f)
        if not f.endswith(".py") or "plot" in f or want not in p:
            continue
        out = []
        for n in ast.walk(ast.parse(open(p).read())):
            if isinstance(n, ast.FunctionDef):
                body = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                if not body:
                    continue
                ls = {s.lineno for b in body for s in ast.walk(b) if isinstance(s, ast.stmt) and not isinstance(s, (ast.FunctionDef,))}
                miss = sorted(ls - seen.get(p, set()))
                if miss:
                    out.append(f"{n.name}:{'ALL' if len(miss) == len(ls) else ','.join(map(str, miss))}")
        if out:
            print(p[len(ROOT):], " ".join(out))
