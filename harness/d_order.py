"""Documents that conform to the schema (C19)."""

import json

import core
import fk
import gen
from d_files import Tidy, oracle
from drivers import LEVELS, driver, fix, pick_impl, rand_obj
from fk import CLASSES, PYCLASS


class Tame(Tidy):
    """Values that the schema allows, and lists with nothing twice that may be there once."""

    def scalar(self, fd):
        r = self.r
        if fd["kind"] in ("float", "fattr"):
            if fd["dflt"] and r.random() < self.default_bias:
                return fd["dflt"]
            return r.choice(["0.0", "1.0", "0.5", "80.0", repr(round(r.uniform(0, 80), 6))])
        v = super().scalar(fd)
        if fd["kind"] in ("int", "iattr") and abs(int(v)) > 2**31 - 1:
            return "2147483647"
        return v

    def obj(self, cls, depth=None, only=None, path=(), fields=None):
        a = super().obj(cls, depth, only, path, fields)
        f = a["f"]
        if cls == "IconStyle" and "icon" in f and self.r.random() < 0.9:
            f["icon"]["f"] = {k: v for k, v in f["icon"]["f"].items() if k in ("id", "target_id", "href")}
        if cls == "Style" and "styles" in f:
            f["styles"] = list({x["cls"]: x for x in f["styles"]}.values())
        if cls == "KML" and "features" in f and self.r.random() < 0.9:
            q = f["features"]
            f["features"] = [x for x in q if x["cls"] == "NetworkLinkControl"][:1] + [x for x in q if x["cls"] != "NetworkLinkControl"][:1]
        return a


class TameDoc(gen.DocGen):
    """Documents in the order of the properties, with values that the schema allows."""

    def value(self, fd, parent):
        if fd["kind"] in ("text", "tattr", "self", "float", "fattr"):
            return Tame(self.r, default_bias=0.1).scalar(fd)
        return super().value(fd, parent)


def judged(text):
    """Does the document conform, and if not, why."""
    e = fk.lxml_etree.fromstring(text.encode("utf-8"))
    s = oracle()
    if s.validate(e):
        return True, ""
    return False, str(s.error_log[0].message)[:300]


@driver("C19")
def c19(ctx):
    gen.REPEAT = 0.0   # ids are unique
    rnd = ctx.rnd
    run = ctx.model("KmlOrderModel", cfg="KmlOrderModel1" if ctx.quick else "KmlOrderModel2", env={"EMIT": "1"})
    cases = sorted(run.prints("CASE "))
    if len(cases) != run.distinct:
        raise core.Broken(f"{len(cases)} cases for {run.distinct} states")
    ctx.notes["objects_enumerated_by_the_model"] = len(cases)
    count = {"conforming": 0, "not": 0}

    def writes(a, tame, levels=LEVELS):
        impl = pick_impl(rnd)
        o = fk.build(a)
        for v in levels:
            s = o.to_string(verbosity=fk.Verbosity[v], prettyprint=rnd.random() < 0.5)
            valid, why = judged(s)
            count["conforming" if valid else "not"] += 1
            ctx.event("conform", o=a, v=v, e=fk.parse_xml(s), tame=tame, valid=valid, why=why, info={"impl": impl, "xml": s[:3000]})

    for a in [fix(json.loads(c)) for c in cases]:
        ctx.guard(writes, a, False, LEVELS if ctx.quick else [rnd.choice(LEVELS)])
    for _ in range(ctx.n(12, 200)):
        for cls in CLASSES:
            a = Tame(rnd, fill=rnd.choice([0, 0.1, 0.3, 0.6, 0.95]), depth=rnd.choice([0, 1, 2])).obj(cls)
            ctx.guard(writes, a, True, [rnd.choice(LEVELS)])
            ctx.guard(writes, rand_obj(rnd, cls, full=rnd.random() < 0.5), False, [rnd.choice(LEVELS)])
    for _ in range(ctx.n(60, 1500)):
        a = Tame(rnd, fill=rnd.choice([0.1, 0.3, 0.6]), depth=3).obj(rnd.choice(["KML", "Document", "Folder", "Placemark"]))
        ctx.guard(writes, a, True, [rnd.choice(LEVELS)])

    # -- conforming documents, read and written again
    def again(cls, depth):
        g = TameDoc(rnd, fill=rnd.choice([0.05, 0.1, 0.3, 0.6]), depth=depth, noise=rnd.choice([0, 0, 0.05]), shuffle=False, pad=0.1)
        n = g.node(cls)
        for k in fk.walk(n):
            k["x"] = {a: v for a, v in k["x"].items() if ":" not in a}
        text = fk.xml_of(n, prefixes={"kml": "", "gx": "gx", "atom": "atom", "x": "x"})
        if not judged(text)[0]:
            return
        impl = pick_impl(rnd)
        st, o = fk.call(PYCLASS[cls].from_string, text, strict=rnd.random() < 0.8)
        if st != "ok":
            ctx.event("same", what="reading a document that conforms", a="an object", b=fk.exc_name(o), info=text[:3000])
            return
        if cls == "Data" and not o.value:
            return      # an empty value counts as none
        for v in LEVELS:
            pick_impl(rnd)
            if v == "verbose" and "IconStyle" in text:
                continue    # see known_findings.txt
            s = o.to_string(verbosity=fk.Verbosity[v])
            valid, why = judged(s)
            ctx.event("conform2", v=v, valid=valid, why=why, info={"impl": impl, "before": text[:3000], "after": s[:3000]})

    for _ in range(ctx.n(10, 150)):
        for cls in CLASSES:
            ctx.guard(again, cls, rnd.choice([0, 1, 2]))
    for _ in range(ctx.n(150, 3000)):
        ctx.guard(again, rnd.choice(["KML", "KML", "Document", "Folder", "Placemark"]), rnd.choice([2, 3]))
    ctx.notes["documents_by_the_schema"] = count
    fk.use("lxml")
