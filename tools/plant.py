"""plant.py <id>...: confirm planted bugs in scratch copies of /repo (tests pass, demo tells the trees apart)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def stable():
    for k in ("stable", "passed", "tests", "pass"):
        if k in BASE:
            return set(BASE[k])
    raise SystemExit(BASE.keys())


def sh(cmd, cwd, **env):
    e = {k: v for k, v in os.environ.items() if k not in ("VERIF_SEED", "VERIF_TIER")}
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env={**e, **env})


def one(i):
    d = f"{V}/seeded/{i}"
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        r = f"{tmp}/repo"
        sh(f"cp -a /repo {r}", "/")
        demo = f"{tmp}/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = {"PYTHONPATH": r, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": f"{tmp}/pyc"}
        a = sh(f"bash {demo}/demo.sh", r, **env)
        p = sh(f"git apply {d}/patch.diff", r)
        if p.returncode:
            return i, "patch does not apply: " + p.stderr
        b = sh(f"bash {demo}/demo.sh", r, **env)
        if a.returncode or not b.returncode:
            return i, f"demo: clean {a.returncode}, patched {b.returncode}\n{a.stderr[-1500:]}{b.stdout[-500:]}"
        t = open("/opt/vp/test.sh").read().replace("/repo", r).replace("-n 8", "-n 4")
        t = t.replace("unset PYTEST_ADDOPTS PYTHONPATH CI", f"unset PYTEST_ADDOPTS CI; export PYTHONPATH={r}")
        t = t.replace("PYTHONPATH=/opt/vp/plugins", f"PYTHONPATH=/opt/vp/plugins:{r}")
        open(f"{tmp}/test.sh", "w").write(t)
        out = sh(f"bash {tmp}/test.sh {tmp}/out.json", r)
        res = json.load(open(f"{tmp}/out.json"))
        ok = set(res.get("passed") or res.get("pass"))
        missing = sorted(stable() - ok)
        if missing:
            return i, f"{len(missing)} stable tests fail: {missing[:5]}"
        return i, "ok: " + (b.stderr or b.stdout).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


with ThreadPoolExecutor(4) as ex:
    for i, msg in ex.map(one, sys.argv[1:]):
        print(i, msg, flush=True)
