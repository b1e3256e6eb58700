"""catch.py [-p PROP,...] [id...]: run checks against planted bugs in scratch copies (default: each bug's own property)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props = None
tier = "quick"
if args and args[0] == "-t":
    tier = "thorough"
    args = args[1:]
if args and args[0] == "-p":
    props = args[1].split(",")
    args = args[2:]
ids = args or sorted(os.listdir(f"{V}/seeded"))


def one(job):
    i, p = job
    tmp = tempfile.mkdtemp(prefix="catch_")
    try:
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", f"{tmp}/repo"], check=True)
        a = subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=f"{tmp}/repo", capture_output=True, text=True)
        if a.returncode:
            return i, p, "PATCH FAILS " + a.stderr[:200]
        e = {**os.environ, "VERIF_REPO": f"{tmp}/repo", "VERIF_EVIDENCE": f"{tmp}/ev", "VERIF_SEED": "1"}
        r = subprocess.run(["./run", p, tier], cwd=V, env=e, capture_output=True, text=True)
        lines = [x for x in r.stdout.splitlines() if x.strip()]
        what = {0: "MISSED", 1: "caught"}.get(r.returncode, f"BROKEN {r.returncode} {r.stderr[-300:]}")
        return i, p, what + "  " + (lines[0].strip()[:110] if lines else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


jobs = []
for i in ids:
    own = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    jobs += [(i, p) for p in (props or [own])]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, jobs):
        print(*r, flush=True)
