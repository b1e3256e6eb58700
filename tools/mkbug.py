"""mkbug.py SPEC.py: write seeded/<id>/ from a list BUGS of dicts (id, property, needs, breaks, edits, demo)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    d = f"{V}/seeded/{b['id']}"
    tmp = tempfile.mkdtemp(prefix="mkbug_")
    r = f"{tmp}/repo"
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", r], check=True)
    for f, old, new in b["edits"]:
        p = f"{r}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True, check=True).stdout
    shutil.rmtree(tmp)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(b["demo"].lstrip())
    open(f"{d}/demo.sh", "w").write(
        '#!/bin/bash\n# run in the root of the repository\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print(b["id"])
