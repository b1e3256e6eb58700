"""Running the specification: TLC as model checker, generator and judge."""

import collections
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NSHARDS = 8
SCALE = {"C01": 4, "C02": 5, "C03": 4, "C04": 4, "C05": 4, "C06": 5, "C07": 3, "C08": 2, "C11": 2, "C12": 2, "C13": 3,
         "C14": 3, "C15": 3, "C16": 3, "C18": 2, "C19": 5}


class Broken(Exception):
    """The machinery itself failed: no verdict."""


class TlcRun:
    """Result of one run of TLC."""

    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            self.generated = self.distinct = int(m.group(1))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.printed = [ln for ln in out.splitlines() if ln.startswith('"')]

    def prints(self, tag):
        """Payloads of PrintT(tag \\o text) lines."""
        pre = f'"{tag}'
        res = []
        for ln in self.printed:
            if ln.startswith(pre):
                res.append(json.loads(_fix(ln))[len(tag):])
        return res


def _fix(ln):
    # TLC prints TLA+ strings with \" and \\ escapes, which are JSON escapes too
    return ln.replace("\t", "\\t")


def tlc(module, *, cfg=None, env=None, workers=8, extra=(), timeout=800, scratch=None):
    tmp = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xss64m", "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-cp", JARS,
        "tlc2.TLC", "-workers", str(workers), "-metadir", tmp, "-noGenerateSpecTE",
        "-config", (cfg or module) + ".cfg", *extra, module + ".tla",
    ]
    t = time.time()
    try:
        p = subprocess.run(
            cmd, cwd=SPEC, env={**os.environ, **(env or {})}, capture_output=True, timeout=timeout,
        )
    except subprocess.TimeoutExpired as exc:
        raise Broken(f"TLC timed out on {module}") from exc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace") + p.stderr.decode("utf-8", "replace")
    return TlcRun(out, p.returncode, time.time() - t)


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rnd = random.Random(f"{prop}:{seed}")
        self.quick = tier == "quick"
        self.events = []
        self.notes = {}
        self.info = {}
        self.models = []          # model-checking runs of the specification
        self.violations = []      # (message, payload)
        self.ops = collections.Counter()
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        self.assumptions = []

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def n(self, quick, thorough):
        """How many: sample sizes of the cheaper checks are scaled up to what a quick run may take."""
        if not self.quick:
            return thorough
        return min(thorough, quick * SCALE.get(self.prop, 1)) if thorough >= 8 * quick else quick

    # -- events for the judge
    def event(self, op, info=None, **fields):
        i = len(self.events) + 1
        self.events.append({"id": i, "op": op, **fields})
        if info is not None:
            self.info[i] = info
        self.ops[op] += 1
        return i

    def guard(self, fn, *args, **kwargs):
        """Run one experiment; whatever escapes from it is an event to judge too."""
        try:
            return fn(*args, **kwargs)
        except Broken:
            raise
        except RecursionError as exc:
            self.violations.append((f"experiment ended with {type(exc).__name__}", {"args": repr(args)[:2000]}))
        except Exception as exc:  # noqa: BLE001
            import traceback

            self.violations.append((
                f"experiment ended with {type(exc).__name__}: {exc}",
                {"args": repr(args)[:2000], "traceback": traceback.format_exc()[-3000:]},
            ))
        return None

    def fork(self, fn, argss, workers=8):
        """Run each experiment in a process of its own: it may change the library's global state."""
        jobs = [(f"{self.rnd.random()}", args) for args in argss]
        sys.stdout.flush()
        pids = []
        for w in range(workers):
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    for i in range(w, len(jobs), workers):
                        sub = os.fork()
                        if sub == 0:
                            try:
                                self._alone(i, jobs[i], fn)
                            finally:
                                os._exit(0)
                        os.waitpid(sub, 0)
                    rc = 0
                finally:
                    os._exit(rc)
            pids.append(pid)
        for pid in pids:
            os.waitpid(pid, 0)
        for i, (_, args) in enumerate(jobs):
            path = os.path.join(self.scratch, f"job{i}")
            if not os.path.exists(path):
                self.violations.append(("experiment ended without an answer", {"args": repr(args)[:2000]}))
                continue
            with open(path) as fh:
                events, info, violations = json.load(fh)
            os.remove(path)
            for ev in events:
                k = str(ev.pop("id"))
                self.event(ev.pop("op"), info=info.get(k), **ev)
            self.violations += [tuple(v) for v in violations]

    def _alone(self, i, job, fn):
        self.rnd.seed(job[0])
        self.events, self.info, self.violations = [], {}, []
        self.guard(fn, *job[1])
        path = os.path.join(self.scratch, f"job{i}")
        with open(path + ".part", "w") as fh:
            json.dump([self.events, self.info, self.violations], fh, default=repr)
        os.rename(path + ".part", path)

    def violation(self, msg, payload=None):
        self.violations.append((msg, payload))

    def judge(self, module="KmlTrace"):
        """Let TLC decide the events recorded so far."""
        todo, base = self.events, 0
        self.judged = 0
        chunk = 40000
        while base < len(todo):
            part = todo[base:base + chunk]
            base += len(part)
            path = os.path.join(self.scratch, "trace.ndjson")
            with open(path, "w") as fh:
                for ev in part:
                    fh.write(json.dumps(ev, ensure_ascii=True))
                    fh.write("\n")
            run = tlc(module, env={"TRACE": path}, scratch=self.scratch)
            for ln in run.prints("BAD "):
                i, clause = ln.split(" ", 1)
                self.violations.append((clause, {"event": todo[int(i) - 1], "info": self.info.get(int(i))}))
            if "Model checking completed. No error" not in run.out:
                if "java.lang.OutOfMemoryError" in run.out or "StackOverflow" in run.out:
                    raise Broken(run.out[-3000:])
                # the specification has no interpretation for what the library did
                tail = run.out[run.out.find("Error"):][:3000]
                self.violations.append(("what the library did is not in the specification's domain", {"tlc": tail}))
                self.models.append(("judge " + module, run))
                return
            if run.distinct != len(part) + NSHARDS:
                raise Broken(f"judged {run.distinct - NSHARDS} of {len(part)} events")
            self.judged += len(part)
            self.models.append(("judge " + module, run))

    # -- models of the specification itself
    def model(self, module, *, cfg=None, env=None, extra=(), workers=8, simulate=False):
        run = tlc(module, cfg=cfg, env=env, extra=extra, workers=workers, scratch=self.scratch)
        if not simulate and "Model checking completed. No error" not in run.out:
            raise Broken(f"the specification fails its own check: {module} {cfg}\n{run.out[-4000:]}")
        if simulate and ("Error:" in run.out):
            raise Broken(f"simulation failed: {module} {cfg}\n{run.out[-4000:]}")
        self.models.append((f"{module}/{cfg or module}", run))
        return run


def distinct(events):
    seen = set()
    for ev in events:
        k = {a: b for a, b in ev.items() if a != "id"}
        seen.add(hashlib.md5(json.dumps(k, sort_keys=True).encode()).hexdigest())
    return len(seen)


def load_known(prop):
    """Open findings of a property: 'known: property=<id> match=<regex> <what fails>'."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", ln.strip())
            if m and m.group(1) == prop:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def finish(ctx, level="model_checking"):
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    known = load_known(ctx.prop)
    new, seen_known = [], set()
    for msg, payload in ctx.violations:
        text = msg + " " + json.dumps(payload, default=repr)
        hit = next((k for k in known if k[0].search(text)), None)
        if hit:
            seen_known.add(hit[1])
        else:
            new.append((msg, payload))
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={ctx.prop} {k}")
    states = sum(r.distinct for _, r in ctx.models)
    trans = sum(r.generated for _, r in ctx.models)
    samples = []
    step = max(1, len(ctx.events) // 3)
    for ev in ctx.events[::step][:3]:
        s = json.dumps(ev)
        samples.append(s[:1500])
    samples += ctx.notes.pop("samples", [])
    cov = {
        "states": states,
        "transitions": trans,
        "traces_validated_against_impl": getattr(ctx, "judged", 0) + ctx.notes.get("behaviours_replayed", 0),
        "events_by_kind": dict(ctx.ops),
        "distinct_events": distinct(ctx.events),
        "models": [
            {"model": name, "distinct_states": r.distinct, "states_generated": r.generated, "depth": r.depth,
             "wall_s": round(r.wall, 2)}
            for name, r in ctx.models
        ],
        "samples": samples or ["none"],
        **ctx.notes,
    }
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
        "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new), "assumptions": ctx.assumptions,
    }
    with open(os.path.join(evd, f"{ctx.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if not new:
        if os.path.exists(os.path.join(evd, f"replay_{ctx.prop}.json")):
            os.remove(os.path.join(evd, f"replay_{ctx.prop}.json"))
        print(f"{ctx.prop}: held on {len(ctx.events)} events, {states} states, {ev['wall_s']} s")
        return 0
    path = os.path.join(evd, f"replay_{ctx.prop}.json")
    with open(path, "w") as fh:
        json.dump({"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier,
                   "violations": [{"what": m, "case": p} for m, p in new[:25]]}, fh, indent=1, default=repr)
    for m, _ in new[:10]:
        print(f"  {m}"[:400])
    print(f"VIOLATION property={ctx.prop} replay={path}")
    return 1


def main(drivers):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    try:
        drivers[prop](ctx)
        if ctx.events:
            ctx.judge()
        return finish(ctx)
    except Broken as exc:
        print(f"BROKEN {exc}", file=sys.stderr)
        return 2
    finally:
        ctx.close()
