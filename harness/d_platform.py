"""Different surroundings (C22)."""

import json
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

import core
import fk
import gen
from d_heap import digest
from drivers import any_opts, driver, fix, outcome, pick_prefixes, rand_obj
from fk import CLASSES, PYCLASS

KINDS = ("write", "read", "file", "date", "geometry", "find", "compare", "repr", "validate")
BIG = ["KML", "Document", "Folder", "Placemark"]
MANY = 8        # what the model does once is done with so many objects or documents
PLAIN = {"hash": "0", "mode": "", "lib": "lxml", "enc": "utf8", "zone": "UTC"}


def task(rnd, kind):
    """Something to do: what it takes is JSON."""
    cls = rnd.choice(BIG) if rnd.random() < 0.5 else rnd.choice(list(CLASSES))
    o = rand_obj(rnd, cls, full=kind != "write" or rnd.random() < 0.5, depth=rnd.choice([0, 1, 2]))
    if kind == "write":
        return {"o": o, "p": rnd.choice([None, 0, 2, 5])}
    if kind == "read":
        g = gen.DocGen(rnd, fill=rnd.choice([0.15, 0.4, 0.8]), depth=rnd.choice([0, 1, 2]), noise=0.2, bad=rnd.choice([0, 0, 0.05, 0.3]),
                       lenient=rnd.random() < 0.3)
        n = g.node(cls)
        return {"cls": cls, "n": n, "text": fk.xml_of(n, prefixes=pick_prefixes(rnd, n), rnd=rnd, opts=any_opts(rnd)), "strict": rnd.random() < 0.5}
    if kind == "file":
        n = gen.DocGen(rnd, fill=rnd.choice([0.15, 0.4]), depth=2, noise=0.2).node("KML")
        return {"o": rand_obj(rnd, "KML", depth=2), "pretty": rnd.random() < 0.5, "strict": rnd.random() < 0.5,
                "text": fk.xml_of(n, prefixes=pick_prefixes(rnd, n), rnd=rnd, opts=any_opts(rnd))}
    if kind == "date":
        text = gen.date_text(rnd, rnd.choice(["T", "T", "YMDT"])) if rnd.random() < 0.9 else rnd.choice(["2000-13", "x", "", "2000-02-30", "10:00"])
        if "T" in text and rnd.random() < 0.5:      # no zone
            text = text.split("T")[0] + "T" + re.split("[-+Z]", text.split("T")[1])[0]
        return {"text": text, "tok": gen.pick_date(rnd, rnd.choice(["T", "YMDT"]))}
    if kind == "geometry":
        return {"o": rand_obj(rnd, rnd.choice(["Placemark", "Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Track", "MultiTrack"]), depth=2)}
    if kind == "find":
        return {"o": rand_obj(rnd, rnd.choice(BIG), depth=2), "types": rnd.sample(list(CLASSES), 5) + ["Placemark", "Data"]}
    if kind == "compare":
        return {"o": o, "other": o if rnd.random() < 0.4 else rand_obj(rnd, cls, depth=1)}
    if kind == "validate":
        n = gen.DocGen(rnd, fill=rnd.choice([0.05, 0.15, 0.4]), depth=1, noise=0, shuffle=rnd.random() < 0.5, bad=rnd.choice([0, 0, 0.1])).node("KML")
        return {"o": o, "text": fk.xml_of(n, prefixes={"kml": "", "gx": "gx", "atom": "atom", "x": "x"}), "strict": rnd.random() < 0.5,
                "validate": rnd.choice([None, True, False])}
    return {"o": o}


class Runner:
    def __init__(self, ctx):
        self.dir = tempfile.mkdtemp(prefix="surround", dir=ctx.scratch)

    def run(self, job):
        """Carry out a behaviour in a process of its own."""
        b, d = job["begin"], tempfile.mkdtemp(dir=self.dir)
        os.mkdir(os.path.join(d, "other"))
        src, dst = os.path.join(d, "job.json"), os.path.join(d, "result.json")
        with open(src, "w", encoding="ascii") as fh:
            json.dump(job, fh)
        env = {"PATH": os.environ.get("PATH", ""), "HOME": d, "PYTHONHASHSEED": b["hash"], "TZ": b["zone"], "VERIF_REPO": fk.REPO,
               "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": os.path.join(d, "pyc"),
               **({"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"} if b["enc"] == "ascii" else {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"})}
        flags = {"": [], "-Xdev": ["-X", "dev"]}.get(b["mode"], [b["mode"]])
        p = subprocess.run([sys.executable, *flags, os.path.join(os.path.dirname(os.path.abspath(__file__)), "surround.py"), src, dst],
                           cwd=d, env=env, capture_output=True, timeout=600)
        if not os.path.exists(dst):
            return p.stderr.decode("utf-8", "replace")[-1500:]
        with open(dst) as fh:
            return json.load(fh)


@driver("C22")
def c22(ctx):
    rnd = ctx.rnd
    ctx.model("KmlPlatform", cfg="KmlPlatform1" if ctx.quick else "KmlPlatform2")
    run = ctx.model("KmlPlatform", cfg="KmlPlatform3", env={"EMIT": "1"}, simulate=True,
                    extra=["-simulate", f"num={ctx.n(60, 600)}", "-depth", "16", "-seed", str(ctx.seed)])
    # behaviours that differ in the last step only count once
    behs = {}
    for b in sorted(run.prints("BEH ")):
        b = fix(json.loads(b))
        behs[json.dumps([b["begin"], b["did"][:-1]])] = b
    behs = [behs[k] for k in sorted(behs)]
    ctx.notes["behaviours_of_the_model"] = len(behs)
    if len(behs) < 100:
        raise core.Broken(f"{len(behs)} behaviours")
    behs = rnd.sample(behs, min(len(behs), ctx.n(160, 3000)))

    pool = {k: [task(rnd, k) for _ in range(ctx.n(40, 400))] for k in KINDS}
    runner = Runner(ctx)

    # -- what everything gives in plain surroundings, and what that should be
    want = {}
    jobs = [(lib, k) for lib in ("lxml", "none") for k in KINDS]

    def plain(job):
        lib, k = job
        return runner.run({"begin": {**PLAIN, "lib": lib}, "did": [{"a": "do", "k": k, "task": t} for t in pool[k]]})

    with ThreadPoolExecutor(8) as ex:
        for (lib, k), res in zip(jobs, ex.map(plain, jobs)):
            if isinstance(res, str):
                ctx.violation("a process in plain surroundings ended without a result", {"lib": lib, "kind": k, "err": res})
                return
            want[lib, k] = res
    for k in KINDS:
        for i, t in enumerate(pool[k]):
            a, b = want["lxml", k][i], want["none", k][i]
            if k in ("date", "geometry", "find", "compare", "repr", "read"):
                same = [json.dumps(nameless(json.loads(x)), sort_keys=True) for x in (a, b)]
                ctx.event("same", what=f"{k} without lxml", a=same[0], b=same[1], info=t)
            if k == "write":
                for lib, res in (("lxml", a), ("none", b)):
                    o, *texts = json.loads(res)
                    for v, s in zip(("terse", "terse", "normal", "normal", "verbose", "verbose"), texts):
                        e = fk.parse_xml(s)
                        p = -1 if t["p"] is None else t["p"]
                        ctx.event("write", o=o, v=v, p=p, e=e, tab=fk.tables([e], fk.num_tokens(o) if p >= 0 else ()),
                                  info={"lib": lib, "xml": s[:3000]})
            if k == "read":
                r = json.loads(a)
                n = t["n"]
                ctx.event("read", cls=t["cls"], e=n, ns=n["n"].split(":")[0] if ":" in n["n"] else "", strict=t["strict"], tab=fk.tables([n]),
                          r={"ok": True, "o": r[1]} if r[0] == "ok" else {"ok": False, "exc": r[1]}, info=t["text"][:3000])

    # -- behaviours of the model
    def prepare(beh):
        two = {k: rnd.sample(range(len(pool[k])), 2 * MANY) for k in KINDS}
        did = []
        for s in beh["did"]:
            if s["a"] == "do":
                did += [{**s, "i": i} for i in two[s["k"]][(s["v"] - 1) * MANY:s["v"] * MANY]]
            else:
                did.append(s)
        return {"begin": beh["begin"], "did": did}

    def carry_out(b):
        return runner.run({"begin": b["begin"], "did": [{**s, "task": pool[s["k"]][s["i"]]} if s["a"] == "do" else s for s in b["did"]]})

    jobs = [prepare(b) for b in behs]
    with ThreadPoolExecutor(8) as ex:
        for b, res in zip(jobs, ex.map(carry_out, jobs)):
            if isinstance(res, str):
                ctx.violation("a process ended without a result", {"behaviour": b, "err": res})
                continue
            odd = False
            for j, (s, got) in enumerate(zip(b["did"], res)):
                if s["a"] == "set":
                    odd = odd or s["k"] == "prefixes"
                    continue
                ref = want[b["begin"]["lib"], s["k"]][s["i"]]
                if odd and s["k"] in ("write", "file", "date", "validate"):
                    got, ref = (json.dumps(nameless(json.loads(x)), sort_keys=True) for x in (got, ref))
                if got == ref:
                    got = ref = digest(ref)
                ctx.event("same", what=f"{s['k']} in other surroundings", a=ref, b=got, info=None if got == ref else {
                    "begin": b["begin"], "did": b["did"][:j + 1], "task": pool[s["k"]][s["i"]]})
    ctx.notes["processes"] = len(jobs) + 2 * len(KINDS)


def nameless(v):
    """Documents whatever prefixes they use."""
    if isinstance(v, list):
        return [nameless(x) for x in v]
    if isinstance(v, str) and v.lstrip().startswith("<"):
        st, e = fk.call(fk.parse_xml, v)  # (may be text that only looks like a document)
        return e if st == "ok" else v
    return v
