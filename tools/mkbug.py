"""mkbug.py SPECFILE : writes /verif/seeded/<id>/ for each bug of a python list BUGS (id, property, file, [(old,new)...], demo, needs, breaks)."""
import sys, os, subprocess, json, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    touched = []
    try:
        for f, old, new in b["edits"]:
            p = f"{os.environ.get("MKBUG_REPO","/repo")}/surface_potential_analysis/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], s.count(old), old)
            open(p, "w").write(s.replace(old, new))
            touched.append(p)
        diff = subprocess.run(["git", "-C", os.environ.get("MKBUG_REPO","/repo"), "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", os.environ.get("MKBUG_REPO","/repo"), "checkout", "--", "."])
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write("import sys, os\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n" + b["demo"])
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
