"""Namespaces (C16)."""

import io
import json
import os

import fk
import gen
from drivers import LEVELS, driver, fix, pick_impl, rand_obj
from fk import CLASSES, PYCLASS

STD = {k: v[1:-1] for k, v in fk.STD_NS.items()}
EARTH = ["http://earth.google.com/kml/2.0", "http://earth.google.com/kml/2.1", "http://earth.google.com/kml/2.2"]


def brace(uri):
    return "{" + uri + "}" if uri else ""


class Raw(fk.Env):
    """Namespaces as they are; parts may get mappings of their own."""

    raw = True

    def __init__(self, *givens, rnd=None):
        super().__init__()
        self.givens, self.rnd = givens, rnd

    @property
    def over(self):
        g = self.givens[0] if len(self.givens) == 1 else self.rnd.choice(self.givens) if self.givens else {}
        return {k: brace(v) for k, v in g.items()}

    @over.setter
    def over(self, value):
        pass

    def nsid(self, ns):
        return ns[1:-1] if isinstance(ns, str) and ns.startswith("{") else ns if isinstance(ns, str) else f"?{ns!r}"

    def qname(self, tag):
        if tag.startswith("{"):
            uri, local = tag[1:].split("}", 1)
            return f"{uri}:{local}"
        return tag


RAW = Raw()


def raw_doc(n, place):
    """The document with its names as URI and local name."""
    def split(name):
        if ":" not in name:
            return "", name
        i, local = name.split(":", 1)
        return place.get(i, f"urn:{i}"), local

    u, local = split(n["n"])
    return {"u": u, "l": local, "t": n["t"], "c": [raw_doc(k, place) for k in n["c"]],
            "x": [{"u": split(k)[0], "l": split(k)[1], "v": v} for k, v in n["x"].items()]}


def uris_in(e, attrs=False):
    if not attrs:
        yield e["u"]
    yield from (a["u"] for a in e["x"])
    for k in e["c"]:
        yield from uris_in(k, attrs)


def raw_xml(e, rnd):
    used = sorted(set(uris_in(e)))
    needs = set(uris_in(e, attrs=True))
    free = [u for u in used if u and u not in needs]
    plain = "" if "" in set(elements(e)) else rnd.choice([*free, *free, None]) if free else None
    names = rnd.sample(["a", "kml", "gx", "atom", "ns0", "Q", "p_1", "k.m", "x-y"], 9)
    prefix = {u: names[i] for i, u in enumerate(u for u in used if u and u != plain)}

    def qn(u, local):
        return f"{prefix[u]}:{local}" if u in prefix else local

    def ser(k, decl=""):
        atts = "".join(f' {qn(a["u"], a["l"])}="{fk._esc(a["v"], quote=True)}"' for a in k["x"])
        name = qn(k["u"], k["l"])
        return f'<{name}{decl}{atts}>{fk._esc(k["t"])}{"".join(ser(c) for c in k["c"])}</{name}>'

    decl = "".join(f' xmlns:{p}="{u}"' for u, p in prefix.items()) + (f' xmlns="{plain}"' if plain else "")
    return ser(e, decl)


def elements(e):
    yield e["u"]
    for k in e["c"]:
        yield from elements(k)


def homeless(a):
    if a["ns"] == "":
        return True
    return any(homeless(x) for v in a["f"].values() for x in (v if isinstance(v, list) else [v]) if isinstance(x, dict))


def rand_map(rnd):
    return rnd.choice([
        {}, {}, {"kml": rnd.choice(EARTH)}, {"kml": rnd.choice(EARTH)}, {"kml": rnd.choice(EARTH), "gx": "urn:gx"},
        {"kml": rnd.choice(EARTH), "atom": "urn:atom", "gx": "urn:gx2"}, {"atom": "urn:atom"}, {"gx": "urn:gx"},
        {"kml": ""}, {"my": "urn:my"}, {"kml": STD["kml"], "my": "urn:my"}, {"kml": "urn:k", "gx": "urn:g", "atom": "urn:a"},
    ])


def children_docs(rnd, cls, depth=1, **kw):
    return gen.DocGen(rnd, fill=rnd.choice([0.3, 0.7]), depth=depth, **kw).node(cls)


@driver("C16")
def c16(ctx):
    rnd = ctx.rnd
    import fastkml
    from fastkml import KML

    run = ctx.model("KmlNamesModel", cfg="KmlNamesModel1" if ctx.quick else "KmlNamesModel2", env={"EMIT": "1"}, workers=1)
    behs = [fix(json.loads(b)) for b in run.prints("BEH ")]
    ctx.notes["transitions_of_the_model"] = len(behs)
    count = [0]

    def result(st, o):
        return {"ok": True, "o": fk.project(o, RAW)} if st == "ok" else {"ok": False, "exc": fk.exc_name(o)}

    def as_file(text):
        """The document as something KML.parse takes."""
        r = rnd.random()
        if r < 0.3:
            return io.BytesIO(text.encode())
        count[0] += 1
        path = os.path.join(ctx.scratch, f"d{count[0] % 20}.kml")
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(text)
        return path

    # -- reading
    def reads(cls, place=None, given=None):
        impl = pick_impl(rnd)
        if given is None:
            given = rand_map(rnd)
        if place is None:
            place = {**STD, **given} if rnd.random() < 0.7 else {**STD, **rand_map(rnd)}
        n = children_docs(rnd, cls, depth=rnd.choice([1, 1, 2]), noise=rnd.choice([0.0, 0.15]), bad=rnd.choice([0.0, 0.0, 0.05]))
        e = raw_doc(n, place)
        text = raw_xml(e, rnd)
        arg = {k: brace(v) for k, v in given.items()}
        before = dict(arg)
        strict = rnd.random() < 0.6
        kw = {"strict": strict}
        if given or rnd.random() < 0.3:
            kw["name_spaces"] = arg
        ns = "*"
        how = "file" if cls == "KML" and rnd.random() < 0.7 else "text"
        if rnd.random() < 0.15:
            ns = rnd.choice([place[CLASSES[cls]["nsid"]], place[CLASSES[cls]["nsid"]], "", EARTH[1]])
            kw["ns"] = brace(ns)
        if how == "text":
            st, o = fk.call(PYCLASS[cls].from_string, text, **kw)
        else:
            st, o = fk.call(KML.parse, as_file(text), validate=False, **kw)
        ctx.event("nsread", how=how, cls=cls, e=e, given=given, ns=ns, strict=strict, tab=fk.tables([n]), r=result(st, o),
                  info={"impl": impl, "xml": text[:3000]})
        ctx.event("same", what="mapping given by the caller", a=before, b=arg)
        if st == "ok" and not (cls == "Schema" and not o.id):
            writes(o, impl)

    def writes(o, impl, v=None):
        v = v or rnd.choice(LEVELS)
        s = o.to_string(verbosity=fk.Verbosity[v], prettyprint=rnd.random() < 0.5)
        e = fk.parse_xml(s, RAW)
        a = fk.project(o, RAW)
        if a["cls"] == "KML" and a["ns"] and homeless(a):
            return s        # parts without namespace under a root with one: up to the XML library
        ctx.event("nswrite", o=a, v=v, e=e, tab=fk.tables([e]), info={"impl": impl, "xml": s[:3000]})
        return s

    # -- objects made with mappings; parts with the same or with their own
    def makes(cls, given, mixed):
        impl = pick_impl(rnd)
        env = Raw(*([given, rand_map(rnd), {}] if mixed else [given]), rnd=rnd)
        a = rand_obj(rnd, cls)
        o = fk.build(a, env)
        if not mixed:
            ctx.event("nsmade", o=fk.project(o, RAW), given=given, ns="*", info={"impl": impl})
        v = "normal" if rnd.random() < 0.6 else rnd.choice(LEVELS)
        s = writes(o, impl, v)
        if v == "normal" and not mixed and not (cls == "KML" and given.get("kml") == ""):
            # and back, with the same mapping
            st, b = fk.call(PYCLASS[cls].from_string, s, name_spaces={k: brace(v) for k, v in given.items()})
            ctx.event("same", what="object with a mapping read back", a=fk.project(o, RAW),
                      b=fk.project(b, RAW) if st == "ok" else {"exc": fk.exc_name(b)}, info=s[:2000])

    # -- parts that objects create themselves
    def shortcuts():
        impl = pick_impl(rnd)
        from pygeoif import geometry as geo
        from fastkml import geometry as G

        given = rand_map(rnd)
        arg = {k: brace(v) for k, v in given.items()}
        ns = rnd.choice(["*", "*", "*", "", EARTH[0]])
        kw = {} if ns == "*" else {"ns": brace(ns)}
        if given or rnd.random() < 0.5:
            kw["name_spaces"] = arg
        ring = [(0, 0), (4, 0), (4, 4), (0, 0)]
        hole = [(1, 1), (2, 1), (2, 2), (1, 1)]
        point, line = geo.Point(1, 2), geo.LineString([(1, 2), (3, 4)])
        poly = geo.Polygon(ring, [hole])
        geoms = [point, line, geo.LinearRing(ring), poly, geo.MultiPoint([(1, 2), (3, 4)]), geo.MultiLineString([[(1, 2), (3, 4)]]),
                 geo.MultiPolygon([(ring, [hole])]), geo.GeometryCollection([point, poly, geo.GeometryCollection([line, point])])]
        kind = {"Point": G.Point, "LineString": G.LineString, "LinearRing": G.LinearRing, "Polygon": G.Polygon}
        g = rnd.choice(geoms)
        r = rnd.random()
        if r < 0.3:
            o = fastkml.Placemark(geometry=g, **kw)
        elif r < 0.5:
            o = G.create_kml_geometry(g, **kw)
        elif r < 0.75:
            o = kind.get(g.geom_type, G.MultiGeometry)(geometry=g, **kw)
        elif r < 0.85:
            o = rnd.choice([G.OuterBoundaryIs, G.InnerBoundaryIs])(geometry=geo.LinearRing(ring), **kw)
        else:
            o = fastkml.IconStyle(icon_href="http://ex.org/i.png", **kw)
        ctx.event("nsmade", o=fk.project(o, RAW), given=given, ns=ns, info={"impl": impl, "made": type(o).__name__})
        if ns in ("*", ""):
            writes(o, impl)

    # -- programs of the model
    def doc(u, top, feature):
        def el(local, c="", uri=u):
            return f'<{local} xmlns="{uri}">{c}</{local}>'

        pm = el("Placemark", el("name", "n") + el("TimeStamp", el("when", "2000"))
                + el("Point", f'<altitudeMode xmlns="{STD["gx"]}">clampToSeaFloor</altitudeMode>' + el("coordinates", "1,2")))
        author = el("author", el("name", "me", STD["atom"]), STD["atom"])
        body = author + el("Folder", el("name", "inner") + pm) if feature else ""
        if top == "kml":
            return el("kml", el("Folder", el("name", "f") + body))
        return el(top, el("name", "f") + body)

    def parts(o):
        for k in list(vars(o).values()):
            for x in k if isinstance(k, list) else [k]:
                if isinstance(x, fastkml.base._XMLObject):
                    yield x
                    yield from parts(x)

    def look(o):
        if o is None:
            return {"ns": "none", "own": "none", "parts": "none", "full": False}
        fk.use("lxml")
        below = list(parts(o))
        e = fk.parse_xml(o.to_string(), RAW)
        found = {n["n"].rsplit(":", 1)[0] for n in fk.walk(e)} - {STD["gx"], STD["atom"]}
        ns = RAW.nsid(o.ns)
        kmls = sorted({RAW.nsid(p.name_spaces.get("kml")) for p in below})
        full = any(type(p).__name__ == "Placemark" for p in below)
        return {"ns": ns if found == {ns} else f"{ns} but {sorted(found)}", "own": RAW.nsid(o.name_spaces.get("kml")),
                "parts": kmls[0] if len(kmls) == 1 else repr(kmls), "full": full}

    def replay(beh):
        dicts = {"d1": {}, "d2": {}}
        for d in dicts.values():
            if rnd.random() < 0.5:
                d["kml"] = brace(STD["kml"])
        objs = {"o1": None, "o2": None}
        h = []
        for act in beh:
            pick_impl(rnd)
            a = act["a"]
            if a in ("make", "plain"):
                kw = {"name_spaces": dicts[act["d"]]} if a == "make" else {}
                ts = fastkml.TimeStamp(timestamp=fk.tok_date("Y:2000"), **kw)
                from pygeoif import geometry as geo
                pm = fastkml.Placemark(name="n", geometry=geo.Point(1, 2), times=ts, **kw)
                au = fastkml.atom.Author(name="me", **kw)
                objs[act["o"]] = fastkml.Folder(name="f", features=[pm], atom_author=au, **kw)
            elif a == "text":
                objs[act["o"]] = fastkml.Folder.from_string(doc(act["u"], "Folder", True), name_spaces=dicts[act["d"]])
            elif a == "file":
                objs[act["o"]] = KML.parse(as_file(doc(act["u"], "kml", True)), validate=False)
            elif a == "change":
                dicts[act["d"]]["kml"] = brace(act["u"])
            elif a == "own":
                objs[act["o"]].name_spaces["kml"] = brace(act["u"])
            seen = {"things": {k: look(o) for k, o in objs.items()},
                    "dicts": {k: RAW.nsid(d.get("kml", brace(STD["kml"]))) for k, d in dicts.items()},
                    "fresh": RAW.nsid(fastkml.Folder().ns)}
            h.append({**act, "seen": seen})
        ctx.event("nshist", h=h)

    longest = max((len(b) for b in behs), default=0)
    full = [b for b in behs if len(b) == longest]
    for beh in rnd.sample(full, min(len(full), ctx.n(500, 12000))):
        ctx.guard(replay, beh)
    for _ in range(ctx.n(7, 80)):
        for cls in CLASSES:
            ctx.guard(reads, cls)
        for cls in CLASSES:
            given = rand_map(rnd)
            ctx.guard(makes, cls, given, rnd.random() < 0.4)
    for _ in range(ctx.n(250, 4000)):
        ctx.guard(reads, "KML")
        ctx.guard(shortcuts)
    # whole documents: in each namespace, read as files
    for _ in range(ctx.n(60, 800)):
        given = rand_map(rnd)
        ctx.guard(reads, "KML", {**STD, **given, "kml": rnd.choice([*EARTH, STD["kml"], "urn:other"])}, {k: v for k, v in given.items() if k != "kml"})
