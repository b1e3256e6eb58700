"""Requests that are refused (C21)."""

import json
import os
import tempfile
import zipfile
from pathlib import Path

import fk
import pygeoif
from d_heap import digest
from drivers import LEVELS, driver, fix, rand_obj
from fk import CLASSES, PYCLASS

BAD_DOC = ('<kml xmlns="http://www.opengis.net/kml/2.2"><Document><Placemark><visibility>maybe</visibility>'
           "<name>{}</name></Placemark></Document></kml>")
MISSING = object()
DIRS = ("sub.kml", "sub.kmz")


def raw(x):
    """All there is in an object, whatever it is."""
    name = fk.NAME_OF.get(type(x))
    if name is None:
        return [raw(i) for i in x] if isinstance(x, (list, tuple)) else repr(x)
    return [name, {fd["attr"]: raw(getattr(x, fd["attr"], None)) for fd in CLASSES[name]["fields"]}]


def some_points(rnd, n, dim=2):
    return [tuple(round(rnd.uniform(-80, 80), 3) for _ in range(dim)) for _ in range(n)]


class Session:
    """Requests to real objects and files, and what there is after each of them."""

    def __init__(self, ctx):
        self.ctx, self.rnd = ctx, ctx.rnd
        r = self.rnd
        self.impl = r.choice(["lxml", "lxml", "stdlib"])
        fk.use(self.impl)
        self.dir = tempfile.mkdtemp(prefix="session", dir=ctx.scratch)
        for n in DIRS:
            os.mkdir(os.path.join(self.dir, n))
        self.names = {"f1": r.choice(["f1.kml", "f1.xml", "f 1"]), "z1": r.choice(["z1.kmz", "z 1.kmz"])}
        self.obj = {"k": PYCLASS["KML"](), "f": PYCLASS["Folder"](), "p1": PYCLASS["Placemark"](), "p2": PYCLASS["Placemark"]()}
        self.flaw = {"p1": False, "p2": False}
        self.start = {p: self.value(p) for p in ("p1", "p2")}
        self.h = []
        self.info = []
        self.bytes = self.files()
        self.set = self.settings()
        self.ok = True

    # -- what there is
    def value(self, p):
        o = self.obj[p]
        if self.flaw[p]:
            return {"cls": "Placemark", "ns": "kml", "f": {"name": digest(raw(o))}}
        return fk.project(o)

    def containers(self):
        name = {id(v): k for k, v in self.obj.items()}
        return {c: [name.get(id(x), "?") for x in self.obj[c].features] for c in ("k", "f")}

    def files(self):
        back = {v: k for k, v in self.names.items()}
        return {back.get(n, n): Path(self.dir, n).read_bytes() if Path(self.dir, n).is_file() else b""
                for n in os.listdir(self.dir) if n not in DIRS or not Path(self.dir, n).is_dir() or os.listdir(Path(self.dir, n))}

    def settings(self):
        from fastkml.registry import registry

        return [fk.config.etree.__name__, dict(fk.config.NAME_SPACES), str(fk.config.KMLNS),
                {n: len(registry.get(c)) for n, c in PYCLASS.items()}]

    # -- requests
    def request(self, req):
        req = {**req}
        before = self.bytes
        self.untouched = True
        # what was given to the library must be as it was, too
        got, more = getattr(self, "do_" + req["a"])(req)
        if req["a"] == "put":
            req["o"] = self.value(req["c"])
            req["flaw"] = self.flaw[req["c"]]
        else:
            req.pop("o", None)
        self.bytes = self.files()
        step = {**req, "got": got, "vals": {p: self.value(p) for p in ("p1", "p2")}, "has": self.containers(),
                "changed": sorted(n for n in {*before, *self.bytes} if before.get(n) != self.bytes.get(n)),
                "files": sorted(self.bytes), "same": self.untouched and self.settings() == self.set, **more}
        self.h.append(step)
        return got

    @staticmethod
    def named(st, v):
        if st == "ok":
            return "ok"
        return "OSError" if isinstance(v, OSError) else fk.exc_name(v)

    def do_put(self, req):
        r, p = self.rnd, req["c"]
        o = self.obj[p]
        new = fk.build(rand_obj(r, "Placemark", depth=r.choice([0, 1, 2])))
        for fd in CLASSES["Placemark"]["fields"]:
            setattr(o, fd["attr"], getattr(new, fd["attr"]))
        self.flaw[p] = bool(req["flaw"])
        if req["flaw"]:
            self.info.append(self.spoil(o))
        return "ok", {}

    def spoil(self, o):
        """Put a value somewhere that no document can have."""
        r = self.rnd
        from d_find import places

        spots = [(path, x, fd) for path, x in places(o) for fd in CLASSES[fk.NAME_OF[type(x)]]["fields"]]
        have = [s for s in spots if getattr(s[1], s[2]["attr"], None) not in (None, [])]
        path, x, fd = r.choice(have if have and r.random() < 0.5 else spots)
        kind = fd["kind"]
        if kind in ("self", "text", "tattr"):
            v = r.choice([5, 5, "\ud800", "a\udfffb" * 300, "\x01"])
        elif kind == "bool":
            v = r.choice(["maybe", "yes"])
        elif kind in ("xmls", "dates"):
            v = [*(getattr(x, fd["attr"]) or [])]
            v.insert(r.randint(0, len(v)), r.choice([5, "x", MISSING]))
        else:
            v = r.choice(["x", object, MISSING, PYCLASS["KML"]])
        try:
            setattr(x, fd["attr"], v)
        except Exception:  # noqa: BLE001
            o.name = 5
            return "name"
        return [*path, fd["attr"], ascii(v)[:60]]

    def do_append(self, req):
        return self.named(*fk.call(self.obj[req["c"]].append, self.obj[req["d"]])), {}

    def options(self):
        r, kw = self.rnd, {}
        if r.random() < 0.5:
            kw["prettyprint"] = r.random() < 0.5
        return kw

    def do_write(self, req):
        r, d = self.rnd, req["c"]
        path = os.path.join(self.dir, self.names[d])
        if not req["place"]:
            ext = "kmz" if d == "z1" else "kml"
            ways = [os.path.join(self.dir, "none", "x." + ext), os.path.join(self.dir, "a" * 300 + "." + ext), os.path.join(self.dir, "sub." + ext)]
            if self.bytes:
                n = r.choice(sorted(self.bytes))
                ways.append(os.path.join(self.dir, self.names.get(n, n), "x." + ext))
            path = r.choice(ways)
        st, v = fk.call(self.obj["k"].write, r.choice([path, Path(path)]), **self.options())
        if st != "ok":
            return self.named(st, v), {}
        if d == "z1":
            with zipfile.ZipFile(path) as z:
                text = z.read("doc.kml")
        else:
            text = Path(path).read_bytes()
        e = fk.node(fk.lxml_etree.fromstring(text, parser=fk.lxml_etree.XMLParser(huge_tree=True, recover=any(self.flaw.values()))))
        return "ok", {"e": e, "tab": fk.tables([e])}

    def do_text(self, req):
        kw = {**self.options(), "verbosity": fk.Verbosity[self.rnd.choice(LEVELS)]}
        if self.rnd.random() < 0.2:
            kw["precision"] = 3
        return self.named(*fk.call(self.obj[req["c"]].to_string, **kw)), {}

    def do_parse(self, req):
        path = os.path.join(self.dir, self.names[req["c"]])
        kw = {"strict": req["strict"], "validate": False}
        if self.rnd.random() < 0.3:
            given = {"kml": "{http://www.opengis.net/kml/2.2}"}
            kw["name_spaces"] = given
            res = fk.call(PYCLASS["KML"].parse, path, **kw)
            self.untouched = given == {"kml": "{http://www.opengis.net/kml/2.2}"}
            return self.named(*res), {}
        return self.named(*fk.call(PYCLASS["KML"].parse, path, **kw)), {}

    def do_foreign(self, req):
        Path(self.dir, self.names[req["c"]]).write_text(BAD_DOC.format(self.rnd.random()))
        return "ok", {}

    def do_remove(self, req):
        os.remove(os.path.join(self.dir, self.names[req["c"]]))
        return "ok", {}

    def do_make(self, req):
        r, c, both = self.rnd, req["c"], req["both"]
        pt = pygeoif.Point(1, 2)
        ring = [(0, 0), (1, 0), (1, 1), (0, 0)]
        co = PYCLASS["Coordinates"](coords=some_points(r, 1))
        cos = PYCLASS["Coordinates"](coords=ring)
        lr = PYCLASS["LinearRing"](kml_coordinates=cos)
        one, two = {
            "Point": ({"geometry": pt}, {"kml_coordinates": co}),
            "LineString": ({"geometry": pygeoif.LineString(ring)}, {"kml_coordinates": cos}),
            "LinearRing": ({"geometry": pygeoif.LinearRing(ring)}, {"kml_coordinates": cos}),
            "Polygon": ({"geometry": pygeoif.Polygon(ring)}, {"outer_boundary": PYCLASS["OuterBoundaryIs"](kml_geometry=lr)}),
            "OuterBoundaryIs": ({"geometry": pygeoif.LinearRing(ring)}, {"kml_geometry": lr}),
            "InnerBoundaryIs": ({"geometry": pygeoif.LinearRing(ring)}, {"kml_geometry": lr}),
            "MultiGeometry": ({"geometry": pygeoif.MultiPoint([(1, 2)])}, {"kml_geometries": [PYCLASS["Point"](kml_coordinates=co)]}),
            "Placemark": ({"geometry": pt}, {"kml_geometry": PYCLASS["Point"](kml_coordinates=co)}),
            "Track": ({"track_items": [fk.fastkml.gx.TrackItem(fk.tok_date("Y:2000"), pt, None)]},
                      {"whens": [fk.tok_date("Y:2000")], "coords": [(1.0, 2.0)]}),
            "Schema": ({"name": "n"}, {"id": "s"}),
        }[c]
        if c == "Schema":
            kw = r.choice([one, {}, {**one, "id": ""}, {"id": None}]) if both else {**one, **two}
        else:
            kw = {**one, **two} if both else r.choice([one, two])
        keys = list(kw)
        r.shuffle(keys)
        kw = {k: kw[k] for k in keys}
        kw["name_spaces"] = {"kml": "{http://www.opengis.net/kml/2.2}"}
        before = digest(repr({k: raw(v) for k, v in kw.items()}))
        res = fk.call(PYCLASS[c], **kw)
        self.untouched = before == digest(repr({k: raw(v) for k, v in kw.items()}))
        return self.named(*res), {}

    def do_narrow(self, req):
        r = self.rnd
        dim = r.choice([1, 4, 5]) if req["both"] else r.choice([2, 3])
        co = PYCLASS["Coordinates"](coords=some_points(r, r.choice([1, 3]), dim))
        cls = r.choice(["Coordinates", "Point", "LineString", "LinearRing"])
        o = co if cls == "Coordinates" else PYCLASS[cls](kml_coordinates=co)
        before = raw(co)
        kw = {"precision": r.choice([0, 3, 8])} if r.random() < 0.4 else {}
        res = fk.call(o.to_string if r.random() < 0.6 else o.etree_element, **kw)
        self.untouched = raw(co) == before
        return self.named(*res), {}

    def do_check(self, req):
        kw = {}
        if req["c"] == "two":
            e = self.obj["f"] if self.flaw["p1"] or self.flaw["p2"] else self.obj["k"]
            e = PYCLASS["KML"]() if any(self.flaw.values()) else e
            path = os.path.join(self.dir, self.rnd.choice([*self.names.values(), "none"]))
            kw = {"element": e.etree_element(), "file_to_validate": Path(path)}
        return self.named(*fk.call(fk.fastkml.validator.validate, **kw)), {}

    def done(self, **info):
        self.ctx.event("session", h=self.h, vals=self.start, info={"impl": self.impl, "spoilt": self.info, **info})
        return len([s for s in self.h if s["got"] != "ok"])


def req(a, c="", d="", **kw):
    return {"a": a, "c": c, "d": d, "place": True, "strict": True, "both": False, "flaw": False, **kw}


MADE = ["Point", "LineString", "LinearRing", "Polygon", "OuterBoundaryIs", "InnerBoundaryIs", "MultiGeometry", "Placemark", "Track", "Schema"]


def rand_req(s):
    r = s.rnd
    a = r.choice(["put", "put", "put", "append", "append", "write", "write", "write", "text", "parse", "foreign", "remove", "make", "make",
                  "narrow", "check"])
    if a == "put":
        return req(a, r.choice(["p1", "p2"]), flaw=r.random() < 0.35)
    if a == "append":
        c = r.choice(["k", "f"])
        d = r.choice(["p1", "p2", "f", "k", "p1", "p2"] if c == "k" else ["p1", "p2", "f"])
        if c != d and len(s.containers()[c]) >= 4:
            return None
        return req(a, c, d)
    if a == "write":
        return req(a, r.choice(["f1", "z1"]), place=r.random() < 0.8)
    if a == "text":
        return req(a, r.choice(["k", "f"]))
    if a == "parse":
        return req(a, "f1", strict=r.random() < 0.5)
    if a == "foreign":
        return req(a, "f1")
    if a == "remove":
        q = sorted(n for n in s.bytes if n in s.names)
        return req(a, r.choice(q)) if q else None
    if a == "make":
        return req(a, r.choice(MADE), both=r.random() < 0.7)
    if a == "narrow":
        return req(a, both=r.random() < 0.7)
    return req(a, r.choice(["neither", "two"]))


def finish(s):
    """Afterwards everything can be used as if nothing had been refused."""
    r = s.rnd
    for p in ("p1", "p2"):
        s.request(req("put", p))
    for d in ("f", "p1"):
        s.request(req("append", "k", d))
    s.request(req("append", "f", "p2"))
    q = [req("write", "f1"), req("write", "z1"), req("text", "k"), req("text", "f")]
    r.shuffle(q)
    for x in q:
        s.request(x)
    s.request(req("parse", "f1"))


@driver("C21")
def c21(ctx):
    rnd = ctx.rnd
    run = ctx.model("KmlRefuseModel", cfg="KmlRefuseModel1" if ctx.quick else "KmlRefuseModel2", env={"EMIT": "1"}, workers=1)
    behs = sorted(run.prints("BEH "))
    ctx.notes["behaviours_of_the_model"] = len(behs)
    refused = [0]

    def replay(beh):
        s = Session(ctx)
        for x in beh:
            if x["a"] == "make":
                x = {**x, "c": x["c"] if rnd.random() < 0.3 else rnd.choice(MADE)}
            s.request({k: v for k, v in x.items() if k != "o"})
        if rnd.random() < 0.5:
            finish(s)
        refused[0] += s.done()

    for b in rnd.sample(behs, min(len(behs), ctx.n(250, 12000))):
        ctx.guard(replay, fix(json.loads(b)))

    def long(n):
        s = Session(ctx)
        if rnd.random() < 0.8:
            for c, d in rnd.sample([("k", "f"), ("f", "p1"), ("k", "p2"), ("k", "p1")], 3):
                s.request(req("append", c, d))
        while len(s.h) < n:
            x = rand_req(s)
            if x:
                s.request(x)
                if x["a"] == "put" and x["flaw"] and rnd.random() < 0.7:
                    s.request(req("write", rnd.choice(["f1", "z1"])) if rnd.random() < 0.7 else req("text", rnd.choice(["k", "f"])))
                    s.request(rnd.choice([req("write", "f1"), req("write", "z1"), req("put", x["c"])]))
        finish(s)
        refused[0] += s.done()

    for _ in range(ctx.n(80, 3000)):
        ctx.guard(long, rnd.choice([8, 15, 25, 40]))
    ctx.notes["requests_refused"] = refused[0]
    fk.use("lxml")
