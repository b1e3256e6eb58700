"""What each check does with the real library.  The verdicts are in /verif/spec."""

import copy
import json

import core
import fk
import gen
from fk import CLASSES, PYCLASS

DRIVERS = {}


def driver(prop):
    def deco(fn):
        DRIVERS[prop] = fn
        return fn

    return deco


LEVELS = ("terse", "normal", "verbose")


def fix(v):
    """TLC prints the empty function as an empty sequence."""
    if isinstance(v, dict):
        if set(v) == {"cls", "ns", "f"} and v["f"] == []:
            return {"cls": v["cls"], "ns": v["ns"], "f": {}}
        if set(v) == {"n", "x", "t", "c"} and v["x"] == []:
            v = {**v, "x": {}}
        return {k: fix(x) for k, x in v.items()}
    if isinstance(v, list):
        return [fix(x) for x in v]
    return v


def spec_objects(ctx, sample=None):
    """Objects enumerated by the specification (all states of KmlObjects)."""
    cfg = "KmlObjects1" if ctx.quick else "KmlObjects2"
    run = ctx.model("KmlObjects", cfg=cfg, env={"EMIT": "1"})
    cases = sorted(run.prints("CASE "))
    if len(cases) != run.distinct:
        raise core.Broken(f"{len(cases)} cases for {run.distinct} states")
    ctx.notes["objects_enumerated_by_the_model"] = len(cases)
    out = [fix(json.loads(c)) for c in cases]
    if sample is not None and len(out) > sample:
        out = ctx.rnd.sample(out, sample)
    return out


def rand_obj(rnd, cls, full=True, depth=None, **kw):
    g = gen.Gen(rnd, fill=rnd.choice([0.1, 0.3, 0.6, 0.95]), depth=rnd.choice([0, 1, 2]) if depth is None else depth,
                full=full, **kw)
    return g.obj(cls)


def outcome(status, value, env=fk.STD):
    if status == "ok":
        return {"ok": True, "o": fk.project(value, env)}
    return {"ok": False, "exc": fk.exc_name(value)}


def read(cls, text, env=fk.STD, **kw):
    return outcome(*fk.call(PYCLASS[cls].from_string, text, **kw), env)


def to_node(o, env=fk.STD, **kw):
    """The document of an object, looked at with lxml."""
    return fk.parse_xml(o.to_string(**kw), env)


def pick_impl(rnd):
    impl = rnd.choice(["lxml", "lxml", "stdlib"])
    fk.use(impl)
    return impl


# ------------------------------------------------------------------ C01


@driver("C01")
def c01(ctx):
    gen.LENGTHY = 0.3
    gen.AGAIN = 0.15
    fk.SHARING = 0.3
    rnd = ctx.rnd

    def one(a):
        impl = pick_impl(rnd)
        o = fk.build(a, rnd=rnd)
        ctx.event("same", what="constructed object", a=a, b=fk.project(o), info=impl)
        v = rnd.choice(["normal", "normal", "normal", "terse", "verbose"])
        pretty = rnd.random() < 0.5
        s = o.to_string(prettyprint=pretty, verbosity=fk.Verbosity[v])
        ctx.event("trip", o=a, v=v, r=read(a["cls"], s), info={"impl": impl, "xml": s[:3000]})

    for a in spec_objects(ctx):
        ctx.guard(one, a)
    for _ in range(ctx.n(14, 150)):
        for cls in CLASSES:
            ctx.guard(one, rand_obj(rnd, cls))
    for _ in range(ctx.n(40, 600)):
        ctx.guard(one, rand_obj(rnd, rnd.choice(["KML", "Document", "Folder", "Placemark"]), depth=rnd.choice([3, 4])))


# ------------------------------------------------------------------ C02


def doc_event(ctx, cls, n, strict, env=fk.STD, prefixes=None, opts=(), op="read", impl=None, **kw):
    rnd = ctx.rnd
    impl = impl or pick_impl(rnd)
    text = fk.xml_of(n, env, prefixes, rnd, opts=opts)
    r = read(cls, text, env, strict=strict, **kw)
    return ctx.event(op, cls=cls, e=n, ns=n["n"].split(":")[0] if ":" in n["n"] else "", strict=strict,
                     tab=fk.tables([n]), r=r, info={"impl": impl, "xml": text[:4000]})


PREFIXES = [
    {"kml": "", "gx": "gx", "atom": "atom", "x": "x"},
    {"kml": "kml", "gx": "gx", "atom": "atom", "x": "x"},
    {"kml": "k", "gx": "ext", "atom": "a", "x": ""},
    {"kml": "gx", "gx": "kml", "atom": "", "x": "atom"},
    {"kml": "ns0", "gx": "ns1", "atom": "ns2", "x": "ns3"},
]


def any_opts(rnd):
    return [o for o in ("space", "comments", "cdata") if rnd.random() < 0.4] + (["entities"] if rnd.random() < 0.1 else [])


def pick_prefixes(rnd, n):
    """Prefixes that can express the document: names without namespace and prefixed
    attributes exclude the default prefix."""
    pf = rnd.choice(PREFIXES)
    bare = any(":" not in m["n"] for m in fk.walk(n))
    used = {k.split(":")[0] for m in fk.walk(n) for k in m["x"] if ":" in k}
    if bare and "" in pf.values() or not all(pf.get(u, u) for u in used):
        pf = rnd.choice([PREFIXES[1], PREFIXES[4]])
    return pf


@driver("C02")
def c02(ctx):
    gen.LENGTHY = 0.3
    gen.AGAIN = 0.15
    rnd = ctx.rnd

    def one(cls, depth=None, fill=None):
        g = gen.DocGen(rnd, fill=fill or rnd.choice([0.15, 0.4, 0.8]), depth=rnd.choice([0, 1, 2]) if depth is None else depth,
                       noise=rnd.choice([0.0, 0.2, 0.5]), shuffle=rnd.random() < 0.7)
        n = g.node(cls)
        doc_event(ctx, cls, n, rnd.random() < 0.6, prefixes=pick_prefixes(rnd, n), opts=any_opts(rnd))

    for _ in range(ctx.n(45, 450)):
        for cls in CLASSES:
            ctx.guard(one, cls)
    for _ in range(ctx.n(120, 1200)):
        ctx.guard(one, rnd.choice(["KML", "Document", "Folder", "Placemark"]), depth=3, fill=0.4)


# ------------------------------------------------------------------ C03


@driver("C03")
def c03(ctx):
    gen.LENGTHY = 0.3
    gen.AGAIN = 0.15
    fk.SHARING = 0.3
    rnd = ctx.rnd

    def one(a):
        impl = pick_impl(rnd)
        o = fk.build(a, rnd=rnd)
        p = fk.project(o)
        s = o.to_string(prettyprint=rnd.random() < 0.5)
        e = fk.parse_xml(s)
        ctx.event("write", o=p, v="normal", p=-1, e=e, tab=fk.tables([e]), info={"impl": impl, "xml": s[:4000]})
        t = fk.node(o.etree_element())
        ctx.event("samedoc", a=e, b=t, what="etree_element and to_string", info=impl)

    for a in spec_objects(ctx):
        ctx.guard(one, a)
    for _ in range(ctx.n(10, 120)):
        for cls in CLASSES:
            ctx.guard(one, rand_obj(rnd, cls, full=True))
            ctx.guard(one, rand_obj(rnd, cls, full=False))
    for _ in range(ctx.n(40, 600)):
        ctx.guard(one, rand_obj(rnd, rnd.choice(["KML", "Document", "Folder", "Placemark"]), full=rnd.random() < 0.5, depth=3))


# ------------------------------------------------------------------ C04


@driver("C04")
def c04(ctx):
    gen.AGAIN = 0.15
    fk.SHARING = 0.3
    rnd = ctx.rnd

    def one(a):
        impl = pick_impl(rnd)
        o = fk.build(a, rnd=rnd)
        p = fk.project(o)
        for v in LEVELS:
            s = o.to_string(verbosity=fk.Verbosity[v])
            e = fk.parse_xml(s)
            ctx.event("write", o=p, v=v, p=-1, e=e, tab=fk.tables([e]), info={"impl": impl, "xml": s[:4000]})
            if p == a:
                ctx.event("trip", o=p, v=v, r=read(a["cls"], s), info={"impl": impl, "xml": s[:4000]})

    for a in spec_objects(ctx, None if not ctx.quick else 700):
        ctx.guard(one, a)
    for _ in range(ctx.n(7, 80)):
        for cls in CLASSES:
            ctx.guard(one, rand_obj(rnd, cls, full=rnd.random() < 0.8, default_bias=rnd.choice([0.2, 0.6, 0.95])))
    for _ in range(ctx.n(20, 300)):
        ctx.guard(one, rand_obj(rnd, rnd.choice(["KML", "Document", "Folder", "Placemark"]), depth=3,
                                default_bias=rnd.choice([0.2, 0.6, 0.95])))


# ------------------------------------------------------------------ C05

SPECIAL_NUMBERS = [
    "0.0", "-0.0", "0.5", "1.5", "2.5", "-0.5", "-1.5", "0.05", "0.15", "0.25", "0.125", "0.375", "2.675", "1.005",
    "9.9999999", "99.95", "-99.995", "0.1", "1e-07", "-1e-07", "1e-15", "4.9e-324", "1e+16", "123456789.123456789",
    "-179.99999999999997", "180.0", "0.0001220703125", "8.5", "1e+22", "0.045", "1.0000000000000002", "-0.001",
    "12345.6789", "0.30000000000000004", "1.45", "6.5", "7.5",
]


def spread_numbers(rnd, a, p=0.5):
    """Put special numbers into the coordinates of an abstract object."""
    for v in a["f"].values():
        if isinstance(v, dict):
            spread_numbers(rnd, v, p)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    spread_numbers(rnd, x, p)
                elif isinstance(x, list):
                    for i in range(len(x)):
                        if rnd.random() < p:
                            x[i] = rnd.choice(SPECIAL_NUMBERS)


COORD_CLASSES = ["Coordinates", "Point", "LineString", "LinearRing", "OuterBoundaryIs", "InnerBoundaryIs", "Polygon",
                 "MultiGeometry", "Track", "MultiTrack", "Placemark", "Folder", "Document", "KML", "PhotoOverlay"]


@driver("C05")
def c05(ctx):
    gen.AGAIN = 0.15
    fk.SHARING = 0.3
    rnd = ctx.rnd
    run = ctx.model("KmlRounding", cfg="KmlRounding1" if ctx.quick else "KmlRounding2", env={"EMIT": "1"})
    enumerated = sorted(set(run.prints("NUM ")))
    ctx.notes["numbers_enumerated_by_the_model"] = len(enumerated)

    def one(a, precs):
        impl = pick_impl(rnd)
        o = fk.build(a, rnd=rnd)
        before = fk.project(o)
        plain = None
        for p in precs:
            v = rnd.choice(LEVELS)
            kw = {"verbosity": fk.Verbosity[v]}
            if p >= 0:
                kw["precision"] = p
            if rnd.random() < 0.5:
                s = o.to_string(**kw)
                e = fk.parse_xml(s)
            else:
                e = fk.node(o.etree_element(**kw))
                s = None
            ctx.event("write", o=before, v=v, p=p, e=e, tab=fk.tables([e], fk.num_tokens(before)),
                      info={"impl": impl, "precision": p, "xml": (s or "")[:3000]})
        ctx.event("same", what="object after writing", a=before, b=fk.project(o))

    def numbers(cls, toks):
        """One object holding all these numbers."""
        dim = rnd.choice([2, 3])
        toks = toks + toks[: (-len(toks)) % dim]
        tuples = [toks[i:i + dim] for i in range(0, len(toks), dim)]
        if cls == "Track":
            a = {"cls": "Track", "ns": "gx", "f": {"whens": ["Y:2001"] * len(tuples), "coords": tuples,
                                                  "angles": [[t[0], t[-1], t[0]] for t in tuples]}}
        else:
            a = {"cls": "LineString", "ns": "kml", "f": {"kml_coordinates": {
                "cls": "Coordinates", "ns": "kml", "f": {"coords": tuples}}}}
        return a

    # every number of the model, at every precision, exactly
    def replay(i):
        part = [repr(float(x)) for x in enumerated[i:i + 30]]
        for p in range(0, ctx.n(8, 16)):
            one(numbers(rnd.choice(["Track", "LineString"]), list(part)), [p])

    for i in range(0, len(enumerated), 30):
        ctx.guard(replay, i)
    for _ in range(ctx.n(25, 300)):
        for cls in COORD_CLASSES:
            a = rand_obj(rnd, cls, depth=rnd.choice([1, 2, 3]))
            spread_numbers(rnd, a, rnd.choice([0.0, 0.5, 0.9]))
            precs = [-1, rnd.choice([0, 1, 2, 3]), rnd.randint(0, 17)]
            ctx.guard(one, a, precs)
    for _ in range(ctx.n(3, 30)):
        for cls in CLASSES:
            if cls not in COORD_CLASSES:
                ctx.guard(one, rand_obj(rnd, cls), [rnd.randint(0, 6)])


# ------------------------------------------------------------------ C06


@driver("C06")
def c06(ctx):
    gen.LENGTHY = 0.3
    gen.AGAIN = 0.15
    rnd = ctx.rnd
    n_bad = 0

    def both(cls, n, impl=None):
        pf, opts = pick_prefixes(rnd, n), any_opts(rnd)
        for strict in (True, False):
            doc_event(ctx, cls, n, strict, prefixes=pf, opts=opts, impl=impl)

    def one(cls, depth=None, bad=None):
        nonlocal n_bad
        g = gen.DocGen(rnd, fill=rnd.choice([0.15, 0.4, 0.8]), depth=rnd.choice([0, 1, 2]) if depth is None else depth,
                       noise=0.1, bad=rnd.choice([0.02, 0.1, 0.5]) if bad is None else bad, lenient=rnd.random() < 0.4)
        n = g.node(cls)
        n_bad += bool(g.injected)
        both(cls, n)

    # every typed property of every class with every kind of wrong text, one at a time
    def single(cls, fd, text):
        g = gen.DocGen(rnd, fill=0.2, depth=0, noise=0.0, shuffle=False, pad=0.0)
        n = g.node(cls)
        k = fd["node"]
        n["c"] = [c for c in n["c"] if c["n"].split(":")[-1] != k]
        n["x"] = {a: v for a, v in n["x"].items() if a.split(":")[-1] != k}
        if fd["kind"] in ("iattr", "fattr", "eattr"):
            n["x"][k] = text
        elif fd["kind"] == "coordinates":
            n["t"] = text
        elif fd["kind"] in ("dates", "nums"):
            m = rnd.randint(0, 3)        # good ones around it
            good = [" ".join(gen.pick_tuple(rnd, 3)) if fd["kind"] == "nums" else gen.date_text(rnd) for _ in range(m)]
            at = rnd.randint(0, m)
            q = good[:at] + [text] + good[at:]
            n["c"] += [{"n": f"{fd['ns'][0]}:{k}", "x": {}, "t": t, "c": []} for t in q]
            if rnd.random() < 0.7 and cls == "Track":
                for k2, ns2 in (("when", "kml"), ("coord", "gx")):
                    if k2 != k:
                        n["c"] = [c for c in n["c"] if c["n"].split(":")[-1] != k2]
                        n["c"] += [{"n": f"{ns2}:{k2}", "x": {}, "c": [],
                                    "t": gen.date_text(rnd) if k2 == "when" else " ".join(gen.pick_tuple(rnd, 3))} for _ in range(m)]
        else:
            n["c"].insert(rnd.randint(0, len(n["c"])), {"n": f"{fd['ns'][0]}:{k}", "x": {}, "t": text, "c": []})
        both(cls, n)

    WRONG = {"bool": gen.BAD_BOOL + gen.LENIENT_BOOL, "int": gen.BAD_INT, "iattr": gen.BAD_INT, "float": gen.BAD_FLOAT,
             "fattr": gen.BAD_FLOAT, "enum": gen.BAD_ENUM, "eattr": gen.BAD_ENUM, "date": gen.BAD_DATE,
             "dates": gen.BAD_DATE, "nums": gen.BAD_NUMS, "coordinates": gen.BAD_COORDS}
    props = 0
    for cls, c in CLASSES.items():
        for fd in c["fields"]:
            texts = WRONG.get(fd["kind"])
            if not texts:
                continue
            props += 1
            if fd["kind"] in ("enum", "eattr"):
                vals = gen.ENUMS[fd["types"][0]]
                texts = texts + [v.upper() for v in vals] + [v.lower() for v in vals] + [v + " " for v in vals]
                texts = [t for t in texts if fd["kind"] == "enum" or t == t.strip()]
            for t in (texts * 2 if fd["kind"] in ("dates", "nums") else rnd.sample(texts, min(len(texts), 3)) if ctx.quick else texts):
                ctx.guard(single, cls, fd, t)
    for _ in range(ctx.n(12, 200)):
        for cls in CLASSES:
            ctx.guard(one, cls)
    for _ in range(ctx.n(60, 800)):
        ctx.guard(one, rnd.choice(["KML", "Document", "Folder", "Placemark"]), depth=3, bad=0.02)
    ctx.notes["typed_properties_with_faults"] = props
    ctx.notes["documents_with_random_faults"] = n_bad
