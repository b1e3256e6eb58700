"""Operations in progress at the same time (C20).

Behaviours of KmlSchedule are replayed in real threads: a trace function stops a thread
at a line of the library and hands over to the next thread of the behaviour.
"""

import json
import os
import sys
import threading
import zipfile
from pathlib import Path

import fk
import gen
from drivers import LEVELS, PREFIXES, any_opts, driver, fix, outcome, pick_prefixes, rand_obj
from fk import CLASSES, PYCLASS

LIB = os.path.join(os.path.realpath(fk.REPO), "fastkml") + os.sep
LIMIT = 60


class Together:
    """Run thunks in threads, one at a time, switching at lines of the library."""

    def __init__(self, thunks):
        self.thunks = thunks
        n = len(thunks)
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.lines = [0] * n
        self.until = [float("inf")] * n
        self.chance = None
        self.result = [None] * n
        self.stuck = False

    def _tracer(self, i):
        def local(_frame, event, _arg):
            if event == "line":
                self.lines[i] += 1
                if self.lines[i] >= self.until[i]:
                    self.back.release()
                    self.go[i].acquire()
            return local

        def enter(frame, _event, _arg):
            return local if os.path.realpath(frame.f_code.co_filename).startswith(LIB) else None

        return enter

    def _body(self, i):
        self.go[i].acquire()
        sys.settrace(self._tracer(i))
        try:
            r = ("ok", self.thunks[i]())
        except Exception as exc:  # noqa: BLE001
            r = ("exc", exc)
        finally:
            sys.settrace(None)
        self.result[i] = r
        self.back.release()

    def run(self, plan):
        """plan: (thread, number of lines it may have done when it stops)..."""
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(len(self.thunks))]
        for t in ts:
            t.start()
        for i, upto in plan:
            if self.result[i] is not None or self.lines[i] >= upto:
                continue
            self.until[i] = upto
            self.go[i].release()
            # a thread that waits for another one does not come back: go on without it
            self.back.acquire(timeout=0.5)
        for i in range(len(ts)):
            self.until[i] = float("inf")
        for i in range(len(ts)):
            self.go[i].release()
            if self.result[i] is None:
                self.back.acquire(timeout=0.5)
        for t in ts:
            t.join(LIMIT)
        self.stuck = any(t.is_alive() for t in ts)
        return self.result


def alone(thunk):
    """Result of an operation on its own, and how many lines of the library it takes."""
    one = Together([thunk])
    res = one.run([])
    return res[0], one.lines[0]


class Job:
    """One operation: what to call, and how to look at what came out."""

    def __init__(self, kind, call, show, judge=None):
        self.kind, self.call, self.show, self.judge = kind, call, show, judge

    def seen(self, r):
        st, v = r
        return ["exc", fk.exc_name(v)] if st == "exc" else ["ok", self.show(v)]


def text(v):
    return json.dumps(v, sort_keys=True)


def new_object(rnd, big=False):
    cls = rnd.choice(["KML", "Document", "Folder", "Placemark", "Placemark"]) if big or rnd.random() < 0.6 else rnd.choice(list(CLASSES))
    a = rand_obj(rnd, cls, depth=rnd.choice([1, 2]))
    return fk.build(a)


def make_job(ctx, kind, o):
    rnd = ctx.rnd
    if kind == "write":
        v, p, pretty = rnd.choice(LEVELS), rnd.choice([-1, -1, 0, 2, 5]), rnd.random() < 0.5
        kw = {"verbosity": fk.Verbosity[v]}
        if p >= 0:
            kw["precision"] = p
        a = fk.project(o)

        def judge(s, info):
            e = fk.parse_xml(s) if isinstance(s, str) else fk.node(s)
            ctx.event("write", o=a, v=v, p=p, e=e, tab=fk.tables([e], fk.num_tokens(a) if p >= 0 else ()), info=info)

        if isinstance(o, PYCLASS["KML"]) and rnd.random() < 0.5:
            path = Path(ctx.scratch) / f"w{rnd.random()}{rnd.choice(['.kml', '.kmz'])}"

            def to_file():
                o.write(path, prettyprint=pretty, **kw)
                if path.suffix == ".kmz":
                    with zipfile.ZipFile(path) as z:
                        return z.read("doc.kml").decode("utf-8")
                return path.read_bytes().decode("utf-8")

            return Job(kind, to_file, str, judge)
        if rnd.random() < 0.3:
            return Job(kind, lambda: o.etree_element(**kw), lambda e: text(fk.node(e)), judge)
        return Job(kind, lambda: o.to_string(prettyprint=pretty, **kw), str, judge)
    if kind == "read":
        cls = fk.NAME_OF[type(o)]
        g = gen.DocGen(rnd, fill=rnd.choice([0.15, 0.4, 0.8]), depth=rnd.choice([0, 1, 2]), noise=0.1,
                       bad=rnd.choice([0.0, 0.0, 0.05, 0.3]), lenient=rnd.random() < 0.3)
        n = g.node(cls)
        doc = fk.xml_of(n, prefixes=pick_prefixes(rnd, n), rnd=rnd, opts=any_opts(rnd))
        strict = rnd.random() < 0.5

        def judge(r, info):
            ctx.event("read", cls=cls, e=n, ns=n["n"].split(":")[0] if ":" in n["n"] else "", strict=strict,
                      tab=fk.tables([n]), r=outcome("exc" if isinstance(r, Exception) else "ok", r), info={**info, "xml": doc[:3000]})

        if cls == "KML" and n["n"] == "kml:kml" and rnd.random() < 0.5:
            path = os.path.join(ctx.scratch, f"r{rnd.random()}.kml")
            with open(path, "w", encoding="utf-8", newline="") as fh:
                fh.write(doc)
            return Job(kind, lambda: PYCLASS[cls].parse(path, strict=strict, validate=False), lambda r: text(fk.project(r)), judge)
        return Job(kind, lambda: PYCLASS[cls].from_string(doc, strict=strict), lambda r: text(fk.project(r)), judge)
    if kind == "compare":
        other = fk.build(fk.project(o)) if rnd.random() < 0.6 else new_object(rnd)
        return Job(kind, lambda: [o == other, other == o, o != other], text)
    if kind == "find":
        from fastkml.utils import find, find_all

        t = rnd.choice([tuple(PYCLASS.values()), PYCLASS["Point"], PYCLASS["Placemark"], PYCLASS["Data"]])
        return Job(kind, lambda: [list(find_all(o, of_type=t)), find(o, of_type=t)],
                   lambda r: text([[id(x) for x in r[0]], id(r[1])]))
    if kind == "repr":
        return Job(kind, lambda: [repr(o), str(o)], text)
    if kind == "view":
        names = [k for k in dir(type(o)) if isinstance(getattr(type(o), k, None), property)]
        if not names or rnd.random() < 0.5:
            a = rand_obj(rnd, rnd.choice(list(CLASSES)), depth=1)
            return Job(kind, lambda: fk.build(a), lambda r: text(fk.project(r)))

        def look():
            return [repr(getattr(o, k)) for k in names]

        return Job(kind, look, text)
    if kind == "validate":
        if rnd.random() < 0.4:
            return Job(kind, o.validate, repr)
        from fastkml.validator import validate

        path = os.path.join(ctx.scratch, f"v{rnd.random()}.kml")
        n = gen.DocGen(rnd, fill=rnd.choice([0.15, 0.4, 0.8]), depth=2, noise=0.0, bad=rnd.choice([0.0, 0.1, 0.3, 0.3]),
                       shuffle=rnd.random() < 0.3).node(rnd.choice(["KML", "Document", "Folder"]))
        for k in fk.walk(n):
            k["x"] = {a: v for a, v in k["x"].items() if ":" not in a}
        with open(path, "w", encoding="utf-8", newline="") as fh:
            fh.write(fk.xml_of(n, prefixes=PREFIXES[0] if rnd.random() < 0.7 else PREFIXES[1]))
        if rnd.random() < 0.5:
            return Job(kind, lambda: validate(file_to_validate=path), repr)
        e = fk.lxml_etree.parse(path).getroot()
        return Job(kind, lambda: validate(element=e), repr)
    if kind == "change":
        a = fk.project(o)
        parts = [fk.build(rand_obj(rnd, "Placemark", depth=1)) for _ in range(3)]

        def change():
            c = fk.build(a)
            for p in parts:
                if hasattr(c, "append"):
                    c.append(p)
                c.id = "changed"
                c.target_id = None
            return c

        return Job(kind, change, lambda r: text(fk.project(r)))
    raise AssertionError(kind)


@driver("C20")
def c20(ctx):
    rnd = ctx.rnd
    behs = []
    for c in ("", "b"):
        run = ctx.model("KmlSchedule", cfg=("KmlSchedule1" if ctx.quick else "KmlSchedule2") + c, env={"EMIT": "1"})
        q = sorted(run.prints("BEH "))
        ctx.notes["interleavings_of_the_model" + c] = len(q)
        behs += [fix(json.loads(b)) for b in rnd.sample(q, min(len(q), ctx.n(350, 6000)))]

    def together(jobs, plan_of, info):
        before = [alone(j.call) for j in jobs]
        plan = plan_of([n for _, n in before])
        t = Together([j.call for j in jobs])
        res = t.run(plan)
        if t.stuck:
            ctx.violation("operations in progress together do not come back", info)
            return
        for j, b, r in zip(jobs, before, res):
            ctx.event("same", what=f"result of {j.kind} in progress with others", a=j.seen(b[0]), b=j.seen(r), info=info)
            if j.judge and (r[0] == "ok" or j.kind == "read"):
                j.judge(r[1], info)
        for j, b in zip(jobs, before):
            ctx.event("same", what=f"result of {j.kind} afterwards", a=j.seen(b[0]), b=j.seen(alone(j.call)[0]), info=info)

    def setting(specs):
        shared = new_object(rnd, big=True)
        jobs = []
        for s in specs:
            o = shared if s["shared"] else new_object(rnd, big=s["k"] in ("change", "find"))
            jobs.append(make_job(ctx, s["k"], o))
        return jobs

    # -- the interleavings of the model
    def replay(beh):
        fk.use("lxml" if rnd.random() < 0.7 else "stdlib")
        jobs = setting(beh["jobs"])
        steps = beh["order"].count(1)

        def plan_of(total):
            # where each thread stops at the end of each of its steps
            cuts = [sorted(rnd.randint(1, max(1, n)) for _ in range(steps - 1)) + [float("inf")] for n in total]
            at = [0] * len(jobs)
            plan = []
            for w in beh["order"]:
                plan.append((w - 1, cuts[w - 1][at[w - 1]]))
                at[w - 1] += 1
            return plan

        together(jobs, plan_of, {"behaviour": beh})

    def batches(fn, q, size):
        ctx.fork(lambda part: [ctx.guard(fn, *args) for args in part], [(q[i:i + size],) for i in range(0, len(q), size)])

    batches(replay, [(b,) for b in behs], 25)

    # -- switching every few lines
    def dense(k):
        fk.use("lxml" if rnd.random() < 0.7 else "stdlib")
        kinds = ["write", "read", "read", "write", "compare", "find", "repr", "view", "validate", "change"]
        same = rnd.random() < 0.4
        first = rnd.choice(kinds)
        specs = [{"k": first if same else rnd.choice(kinds)} for _ in range(k)]
        for s in specs:
            s["shared"] = s["k"] != "change" and rnd.random() < 0.4
        jobs = setting(specs)
        seed = rnd.random()

        def plan_of(total):
            at, plan = [0] * k, []
            gap = rnd.choice([1, 2, 5, 20])
            while any(a < n for a, n in zip(at, total)) and len(plan) < 4000:
                w = rnd.randrange(k)
                at[w] += rnd.randint(1, 2 * gap)
                plan.append((w, at[w]))
            return plan

        together(jobs, plan_of, {"jobs": specs, "seed": seed})

    batches(dense, [(rnd.choice([2, 2, 3]),) for _ in range(ctx.n(200, 4000))], 10)

    # -- one operation stopped at every line, another one done meanwhile
    def sweep(kinds, shared):
        fk.use("lxml" if rnd.random() < 0.7 or "validate" in kinds else "stdlib")
        jobs = setting([{"k": k, "shared": shared and k != "change"} for k in kinds])
        (first, n), (second, _) = alone(jobs[0].call), alone(jobs[1].call)
        if n == 0:
            return
        points = range(1, n + 1) if n <= ctx.n(70, 400) else sorted(rnd.sample(range(1, n + 1), ctx.n(70, 400)))
        seen = [set(), set()]
        for k in points:
            t = Together([j.call for j in jobs])
            res = t.run([(0, k), (1, float("inf"))])
            if t.stuck:
                ctx.violation("operations in progress together do not come back", {"kinds": kinds, "at": k})
                return
            for i in (0, 1):
                seen[i].add(text(jobs[i].seen(res[i])))
        for j, w, r in zip(jobs, (first, second), seen):
            ctx.event("same", what=f"result of {j.kind} in progress with another", a=[text(j.seen(w))], b=sorted(r), info={"kinds": kinds})

    kinds = ["write", "read", "compare", "find", "repr", "view", "validate", "change"]
    pairs = [((k, k), shared) for k in kinds for shared in (True, False)] * ctx.n(4, 40)
    pairs += [((rnd.choice(kinds), rnd.choice(kinds)), rnd.random() < 0.4) for _ in range(ctx.n(64, 800))]
    batches(sweep, pairs, 2)

    # -- an operation within an operation, from a registered extension
    def nested(kind_out, kind_in):
        from fastkml.base import _XMLObject
        from fastkml.registry import RegistryItem, registry

        fk.use("lxml" if rnd.random() < 0.7 else "stdlib")
        outer = make_job(ctx, kind_out, new_object(rnd, big=True))
        inner = make_job(ctx, kind_in, new_object(rnd))
        want_out, want_in = alone(outer.call)[0], alone(inner.call)[0]
        level, got = [0], []

        def hook():
            if level[0] == 0 and len(got) < 12:
                level[0] = 1
                try:
                    got.append(("ok", inner.call()))
                except Exception as exc:  # noqa: BLE001
                    got.append(("exc", exc))
                finally:
                    level[0] = 0

        def get_kwarg(**_kw):
            hook()
            return {}

        def set_element(*_a, **_kw):
            hook()

        registry.register(_XMLObject, RegistryItem(ns_ids=("kml", ""), classes=(str,), attr_name="nested", get_kwarg=get_kwarg,
                                                   set_element=set_element, node_name="nested"))
        r = fk.call(outer.call)
        info = {"outer": kind_out, "inner": kind_in, "times": len(got)}
        ctx.event("same", what=f"result of {kind_out} with {kind_in} in it", a=outer.seen(want_out), b=outer.seen(r), info=info)
        if outer.judge and (r[0] == "ok" or kind_out == "read"):
            outer.judge(r[1], info)
        for g in got:
            ctx.event("same", what=f"result of {kind_in} within {kind_out}", a=inner.seen(want_in), b=inner.seen(g), info=info)

    ctx.fork(nested, [(rnd.choice(["read", "write"]), rnd.choice(["read", "write", "read", "write", "compare", "find", "view", "validate"]))
                      for _ in range(ctx.n(120, 2000))])
    ctx.notes["pairs_swept_line_by_line"] = len(pairs)
    ctx.notes["behaviours_replayed"] = len(behs)
    fk.use("lxml")
