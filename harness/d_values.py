"""Dates, geometries and tracks (C08, C09, C10)."""

import datetime as dtm
import json

import core
import fk
import gen
from drivers import any_opts, doc_event, driver, fix, outcome, pick_impl, pick_prefixes, rand_obj, read, to_node  # noqa: F401
from fk import KmlDateTime, RES

# ------------------------------------------------------------------ C08


def leaf(n, t):
    return {"n": n, "x": {}, "t": t, "c": []}


def node(n, *kids, **x):
    return {"n": n, "x": x, "t": "", "c": list(kids)}


@driver("C08")
def c08(ctx):
    rnd = ctx.rnd
    run = ctx.model("KmlDates", cfg="KmlDates1" if ctx.quick else "KmlDates2", env={"EMIT": "1"})
    texts = sorted(set(run.prints("DATE ")))
    ctx.notes["date_texts_enumerated_by_the_model"] = len(texts)

    def parse(t):
        st, v = fk.call(KmlDateTime.parse, t)
        if st == "ok":
            st2, s = fk.call(str, v)
            r = {"ok": True, "tok": fk.date_tok(v), "text": s if st2 == "ok" else f"?!{s!r}"}
        else:
            r = {"ok": False, "exc": fk.exc_name(v)}
        ctx.event("date", t=t, r=r)

    for t in texts:
        ctx.guard(parse, t)
    for _ in range(ctx.n(3000, 40000)):
        ctx.guard(parse, gen.date_text(rnd))
    for t in gen.BAD_DATE:
        ctx.guard(parse, t)

    # dates made in the program
    def make(y, m, d, t, res):
        dt = dtm.date(y, m, d) if t is None else dtm.datetime(y, m, d, *t)
        of = f"D:{dt.isoformat()}" if t is None else f"T:{dt.isoformat()}"
        o = KmlDateTime(dt, RES[res]) if res else KmlDateTime(dt)
        ctx.event("datemake", of=of, res=res, tok=fk.date_tok(o), text=str(o))
        # the same date in an object: what is written and read back
        p = fk.project(fastkml_timestamp(o))
        s = fastkml_timestamp(o).to_string()
        e = fk.parse_xml(s)
        ctx.event("write", o=p, v="normal", p=-1, e=e, tab=fk.tables([e]), info=s)

    def fastkml_timestamp(o):
        return fk.PYCLASS["TimeStamp"](timestamp=o)

    zones = [None, dtm.timezone.utc, dtm.timezone(dtm.timedelta(hours=5, minutes=30)),
             dtm.timezone(-dtm.timedelta(hours=3, minutes=30)), dtm.timezone(dtm.timedelta(hours=14))]
    for y in (1, 33, 999, 1000, 1970, 2000, 2024, 9999):
        for m, d in ((1, 1), (12, 31), (2, 28), (6, 15)):
            for t in (None, (0, 0, 0, 0, None), (0, 0, 0, 0, zones[1]), (23, 59, 59, 999999, rnd.choice(zones)),
                      (12, 30, 0, 0, rnd.choice(zones)), (1, 2, 3, 4, rnd.choice(zones))):
                for res in ("", "Y", "M", "D", "T"):
                    ctx.guard(make, y, m, d, t, res)

    # everywhere a date can occur, valid and invalid, strict and lenient
    def place(which, t, t2):
        k = lambda n, x: leaf("kml:" + n, x)  # noqa: E731
        g = lambda n, x: leaf("gx:" + n, x)   # noqa: E731
        strict = rnd.random() < 0.5
        ts, sp = node("kml:TimeStamp", k("when", t), id="ts"), node("kml:TimeSpan", k("begin", t), k("end", t2))
        cls, n = {
            "ts": ("TimeStamp", ts),
            "tsgx": ("TimeStamp", node("kml:TimeStamp", g("when", t))),
            "sp": ("TimeSpan", sp),
            "end": ("TimeSpan", node("kml:TimeSpan", k("end", t2), id="x")),
            "pm": ("Placemark", node("kml:Placemark", k("name", "n"), ts)),
            "doc": ("Document", node("kml:Document", node("kml:Folder", sp, node("kml:Placemark", ts)))),
            "nlc": ("NetworkLinkControl", node("kml:NetworkLinkControl", k("expires", t), k("cookie", "c"))),
            "trk": ("Track", node("gx:Track", k("when", t), k("when", t2), g("coord", "1 2 3"), g("coord", "4 5 6"))),
            "mt": ("MultiTrack", node("gx:MultiTrack", node("gx:Track", k("when", t), g("coord", "1 2 3")))),
            "pmtrk": ("Placemark", node("kml:Placemark", node("gx:Track", k("when", t), g("coord", "1 2 3")))),
        }[which]
        impl = pick_impl(rnd)
        text = fk.xml_of(n)
        st, v = fk.call(fk.PYCLASS[cls].from_string, text, strict=strict)
        ctx.event("read", cls=cls, e=n, ns=n["n"].split(":")[0], strict=strict, tab=fk.tables([n]), r=outcome(st, v),
                  info={"impl": impl, "xml": text})
        if st == "ok":
            s = v.to_string()
            e = fk.parse_xml(s)
            ctx.event("write", o=fk.project(v), v="normal", p=-1, e=e, tab=fk.tables([e]), info=s)
            ctx.event("trip", o=fk.project(v), v="normal", r=read(cls, s), info=s)

    places = ["ts", "tsgx", "sp", "end", "pm", "doc", "nlc", "trk", "mt", "pmtrk"]
    good = [t for t in texts]
    for w in places:
        for _ in range(ctx.n(120, 1500)):
            ctx.guard(place, w, rnd.choice(good), rnd.choice([rnd.choice(good), gen.date_text(rnd)]))
    for _ in range(ctx.n(40, 400)):
        for cls in ("TimeStamp", "TimeSpan", "Track", "MultiTrack", "NetworkLinkControl"):
            a = rand_obj(rnd, cls)
            o = fk.build(a)
            ctx.event("trip", o=a, v="normal", r=read(cls, o.to_string()))


# ------------------------------------------------------------------ C09

from pygeoif import geometry as geo  # noqa: E402


def g_json(g):
    """Projection of a pygeoif geometry: [] if there is none."""
    if g is None or not g:
        return []
    return [g_one(g)]


def g_one(g):
    t = type(g).__name__
    if t in ("Point", "LineString", "LinearRing"):
        return {"t": t, "c": [fk.nums(c) for c in g.coords], "g": []}
    if t == "Polygon":
        return {"t": t, "c": [], "g": [g_one(g.exterior), *(g_one(r) for r in g.interiors)]}
    return {"t": t, "c": [], "g": [g_one(x) for x in g.geoms]}


def g_build(j):
    cs = [tuple(float(x) for x in c) for c in j["c"]]
    t = j["t"]
    if t == "Point":
        return geo.Point(*cs[0])
    if t in ("LineString", "LinearRing"):
        return getattr(geo, t)(cs)
    if t == "Polygon":
        rings = [[tuple(float(x) for x in c) for c in r["c"]] for r in j["g"]]
        return geo.Polygon(rings[0], rings[1:])
    ms = [g_build(m) for m in j["g"]]
    if t == "MultiPoint":
        return geo.MultiPoint.from_points(*ms)
    if t == "MultiLineString":
        return geo.MultiLineString.from_linestrings(*ms)
    if t == "MultiPolygon":
        return geo.MultiPolygon.from_polygons(*ms)
    return geo.GeometryCollection(ms)


class Interface:
    """A foreign geometry: only __geo_interface__."""

    def __init__(self, g):
        self.__geo_interface__ = g.__geo_interface__


def pick_xyz(rnd, dim):
    while True:
        c = gen.pick_tuple(rnd, dim)
        if "-0.0" not in c:
            return c


def g_rand(rnd, depth=2):
    dim = rnd.choice([2, 3])

    def path(lo, hi):
        out = []
        for _ in range(rnd.randint(lo, hi)):
            out.append(list(out[-1]) if out and rnd.random() < 0.1 else pick_xyz(rnd, dim))
        return out

    def ring():
        c = path(3, 6)
        if c[0] != c[-1] and rnd.random() < 0.8:
            c.append(list(c[0]))
        return {"t": "LinearRing", "c": c, "g": []}

    def simple(t):
        if t == "Point":
            return {"t": t, "c": path(1, 1), "g": []}
        if t == "LineString":
            return {"t": t, "c": path(2, 6), "g": []}
        if t == "LinearRing":
            return ring()
        return {"t": t, "c": [], "g": [ring() for _ in range(rnd.randint(1, 4))]}

    t = rnd.choice(["Point", "LineString", "LinearRing", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon",
                    "GeometryCollection", "GeometryCollection"])
    if t.startswith("Multi"):
        return {"t": t, "c": [], "g": [simple(t[5:]) for _ in range(rnd.randint(1, 4))]}
    if t == "GeometryCollection":
        ms = [g_rand(rnd, depth - 1) if depth > 0 else simple(rnd.choice(["Point", "LineString", "Polygon", "LinearRing"]))
              for _ in range(rnd.randint(1, 4))]
        if rnd.random() < 0.5:   # in document order
            ms.sort(key=lambda m: ["Point", "LineString", "Polygon", "LinearRing"].index(m["t"])
                    if not m["t"].startswith(("Multi", "Geo")) else 9)
        return {"t": t, "c": [], "g": ms}
    return simple(t)


def g_options(rnd):
    from fastkml.enums import AltitudeMode

    opt, kw = {}, {}
    for a in ("extrude", "tessellate"):
        if rnd.random() < 0.4:
            kw[a] = rnd.random() < 0.6
            opt[a] = "T" if kw[a] else "F"
    if rnd.random() < 0.5:
        kw["altitude_mode"] = rnd.choice(list(AltitudeMode))
        opt["altitude_mode"] = kw["altitude_mode"].value
    for a in ("id", "target_id"):
        if rnd.random() < 0.3:
            kw[a] = opt[a] = rnd.choice(gen.IDS)
    return opt, kw


@driver("C09")
def c09(ctx):
    fk.SHARING = 0.3
    rnd = ctx.rnd
    from fastkml.geometry import create_kml_geometry

    run = ctx.model("KmlGeometryModel", cfg="KmlGeometryModel1" if ctx.quick else "KmlGeometryModel2", env={"EMIT": "1"})
    lines = sorted(set(run.prints("GEO ")))
    ctx.notes["geometries_enumerated_by_the_model"] = len(lines)
    cls_of = {"Point": "Point", "LineString": "LineString", "LinearRing": "LinearRing", "Polygon": "Polygon"}

    def convert(j):
        impl = pick_impl(rnd)
        g = g_build(j)
        have = g_json(g)
        if not have:
            return
        have = have[0]
        opt, kw = g_options(rnd)
        env = fk.STD
        ns = "kml"
        if rnd.random() < 0.15:
            env = fk.Env(kml=rnd.choice(["{http://earth.google.com/kml/2.1}", "{urn:my-kml}"]))
            kw["name_spaces"] = dict(env.over)
        elif rnd.random() < 0.15:
            ns = rnd.choice(["", "gx"])
            kw["ns"] = env.uri.get(ns, "")
        how = rnd.choice(["create", "create", "dict", "iface", "ctor", "placemark"])
        if how == "placemark" and (set(opt) or ns):
            opt, kw = {}, {k: v for k, v in kw.items() if k in ("ns", "name_spaces")}
        before = repr(g)
        if how == "create":
            k = create_kml_geometry(g, **kw)
        elif how == "dict":
            d = g.__geo_interface__
            was = repr(d)
            k = create_kml_geometry(d, **kw)
            if repr(d) != was:
                ctx.violation("conversion changed the mapping it was given", {"was": was, "is": repr(d)})
        elif how == "iface":
            k = create_kml_geometry(Interface(g), **kw)
        elif how == "ctor":
            k = fk.PYCLASS[cls_of.get(have["t"], "MultiGeometry")](geometry=g, **kw)
        else:
            pm = fk.PYCLASS["Placemark"](geometry=rnd.choice([g, g, Interface(g)]), name="n", **kw)
            k = pm.kml_geometry
            ctx.event("geoview", o=fk.project(pm, env), r=g_json(pm.geometry), info=repr(g))
        if repr(g) != before:
            ctx.violation("conversion changed the geometry it was given", {"was": before, "is": repr(g)})
        p = fk.project(k, env)
        info = {"how": how, "kw": repr(kw), "geometry": repr(g), "impl": impl}
        ctx.event("geomake", g=have, opt=opt, ns=ns, o=p, info=info)
        ctx.event("geotrip", g=j, r=g_json(k.geometry), info=info)
        # and through a document
        if ns == "kml" and env is fk.STD:
            pretty = rnd.random() < 0.5
            if rnd.random() < 0.5:
                s = k.to_string(prettyprint=pretty)
                k2 = type(k).from_string(s, strict=rnd.random() < 0.5)
                ctx.event("geodoc", g=j, o=p, r=g_json(k2.geometry), info={**info, "xml": s[:2000]})
            else:
                s = fk.PYCLASS["Placemark"](kml_geometry=k, name="x").to_string(prettyprint=pretty)
                k2 = fk.PYCLASS["Placemark"].from_string(s, strict=rnd.random() < 0.5)
                ctx.event("geodoc", g=j, o=p, r=g_json(k2.geometry), info={**info, "xml": s[:2000]})

    for ln in (rnd.sample(lines, min(len(lines), 2500)) if ctx.quick else lines):
        ctx.guard(convert, json.loads(ln))
    for _ in range(ctx.n(2000, 30000)):
        ctx.guard(convert, g_rand(rnd))

    # geometry of whatever has one, complete or not
    VIEW = ["Point", "LineString", "LinearRing", "OuterBoundaryIs", "InnerBoundaryIs", "Polygon", "MultiGeometry", "Track",
            "MultiTrack", "Location", "Model", "Placemark"]

    def scrub(a, ragged):
        """No negative zeros; sometimes no sensible positions at all."""
        for v in a["f"].values():
            if isinstance(v, dict):
                scrub(v, ragged)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        scrub(x, ragged)
                    elif isinstance(x, list):
                        x[:] = ["0.0" if y == "-0.0" else y for y in x]
        if a["cls"] == "Coordinates" and "coords" in a["f"] and ragged:
            q = a["f"]["coords"]
            how = rnd.choice(["long", "short", "mixed", "four", "empty", "dup", "one"])
            if how == "short":
                q[rnd.randrange(len(q))][:] = ["1.0"]
            elif how == "four":
                q[rnd.randrange(len(q))][:] = ["1.0", "2.0", "3.0", "4.0"]
            elif how == "mixed":
                i = rnd.randrange(len(q))
                q[i] = q[i][:2] if len(q[i]) == 3 else q[i] + ["5.5"]
            elif how == "long":
                q += [list(q[0]), ["1.5", "2.5"][:len(q[0])] + ["7.0"] * (len(q[0]) - 2)]
            elif how == "empty":
                del a["f"]["coords"]
            elif how == "dup":
                q.insert(0, list(q[0]))
            else:
                del q[1:]
        for k in ("longitude", "latitude", "altitude"):
            if a["f"].get(k) == "-0.0":
                a["f"][k] = "0.0"

    def view(cls):
        pick_impl(rnd)
        a = rand_obj(rnd, cls, full=rnd.random() < 0.5, depth=3)
        scrub(a, rnd.random() < 0.4)
        o = fk.build(a, rnd=rnd)
        p = fk.project(o)
        st, g = fk.call(lambda: o.geometry)
        ctx.event("geoview", o=p, r=g_json(g) if st == "ok" else [f"?!{g!r}"], info=repr(o)[:2000])
        if st == "ok":
            ctx.event("same", what="object after asking for its geometry", a=p, b=fk.project(o))

    for _ in range(ctx.n(200, 3000)):
        for cls in VIEW:
            ctx.guard(view, cls)

    # both a geometry and its KML form
    P = fk.PYCLASS
    pt, ln, rg = geo.Point(1, 2), geo.LineString([(1, 2), (3, 4)]), geo.LinearRing([(0, 0), (1, 0), (1, 1), (0, 0)])
    pg, mp = geo.Polygon([(0, 0), (1, 0), (1, 1)]), geo.MultiPoint([(1, 2), (3, 4)])
    co = lambda n: P["Coordinates"](coords=[(float(i), 1.0) for i in range(n)])  # noqa: E731
    ring = lambda: P["LinearRing"](geometry=rg)  # noqa: E731
    both = [
        ("Point", "GeometryError", dict(geometry=pt, kml_coordinates=co(1))),
        ("LineString", "GeometryError", dict(geometry=ln, kml_coordinates=co(2))),
        ("LinearRing", "GeometryError", dict(geometry=rg, kml_coordinates=co(4))),
        ("OuterBoundaryIs", "GeometryError", dict(geometry=rg, kml_geometry=ring())),
        ("InnerBoundaryIs", "GeometryError", dict(geometry=rg, kml_geometry=ring())),
        ("Polygon", "GeometryError", dict(geometry=pg, outer_boundary=P["OuterBoundaryIs"](geometry=rg))),
        ("Polygon", "GeometryError", dict(geometry=pg, outer_boundary=P["OuterBoundaryIs"](geometry=rg),
                                          inner_boundaries=[P["InnerBoundaryIs"](geometry=rg)])),
        ("MultiGeometry", "GeometryError", dict(geometry=mp, kml_geometries=[P["Point"](geometry=pt)])),
        *[("Placemark", "ValueError", dict(geometry=g, kml_geometry=create_kml_geometry(h)))
          for g in (pt, ln, rg, pg, mp) for h in (pt, ln, rg, pg, mp)],
    ]
    for cls, want, kw in both:
        for more in ({}, {"ns": ""}, {"name_spaces": {"kml": "{urn:x}"}}):
            st, v = fk.call(P[cls], **kw, **more)
            ctx.event("refused", what=f"{cls} with both a geometry and its KML form", ok=st == "ok",
                      exc=fk.exc_name(v) if st != "ok" else "", want=[want])


# ------------------------------------------------------------------ C10


def items_json(track):
    out = []
    for it in track.track_items:
        p = g_json(it.coord)
        out.append({"w": fk.date_tok(it.when), "c": p[0]["c"][0] if p else ["?!none"],
                    "a": [] if it.angle is None else [fk.nums((it.angle.heading, it.angle.tilt, it.angle.roll))]})
    return out


def rand_items(rnd, n, angles=None):
    """Items as JSON; angles: "all", "none", "some"."""
    angles = angles or rnd.choice(["all", "none", "some"])
    same = rnd.random() < 0.6
    dim = rnd.choice([2, 3])
    out = []
    for _ in range(n):
        a = angles == "all" or (angles == "some" and rnd.random() < 0.5)
        c = pick_xyz(rnd, dim if same else rnd.choice([2, 3]))
        if out and rnd.random() < 0.15:
            c = list(out[-1]["c"])
        ang = ["0.0"] * 3 if rnd.random() < 0.15 else pick_xyz(rnd, 3)
        out.append({"w": gen.pick_date(rnd) if rnd.random() < 0.9 or not out else out[-1]["w"], "c": c, "a": [ang] if a else []})
    return out


def real_item(it):
    from fastkml.gx import Angle, TrackItem

    kw = {"angle": Angle(*(float(x) for x in it["a"][0]))} if it["a"] else {}
    return TrackItem(when=fk.tok_date(it["w"]), coord=geo.Point(*(float(x) for x in it["c"])), **kw)


@driver("C10")
def c10(ctx):
    rnd = ctx.rnd
    Track, MultiTrack = fk.PYCLASS["Track"], fk.PYCLASS["MultiTrack"]
    lines = []
    for part in ("", "b"):
        run = ctx.model("KmlTracksModel", cfg=f"KmlTracksModel{1 if ctx.quick else 2}{part}", env={"EMIT": "1"})
        lines += run.prints("TRK ")
    lines = sorted(set(lines))
    ctx.notes["track_documents_enumerated_by_the_model"] = len(lines)

    def doc(n, strict, prefixes=None, opts=()):
        impl = pick_impl(rnd)
        text = fk.xml_of(n, prefixes=prefixes, rnd=rnd, opts=opts)
        st, v = fk.call(Track.from_string, text, strict=strict)
        ctx.event("trackread", e=n, ns="gx", strict=strict, tab=fk.tables([n]), r=outcome(st, v),
                  items=items_json(v) if st == "ok" else [], info={"impl": impl, "xml": text})
        if st == "ok" and v:
            again(v)

    def again(t):
        """Write and read a track; its document and its items."""
        p = fk.project(t)
        s = t.to_string(prettyprint=rnd.random() < 0.5)
        e = fk.parse_xml(s)
        ctx.event("write", o=p, v="normal", p=-1, e=e, tab=fk.tables([e]), info=s)
        st, t2 = fk.call(Track.from_string, s)
        ctx.event("trackread", e=e, ns="gx", strict=True, tab=fk.tables([e]), r=outcome(st, t2),
                  items=items_json(t2) if st == "ok" else [], info=s)

    for ln in lines:
        n = fix(json.loads(ln))
        if ctx.quick:
            ctx.guard(doc, n, rnd.random() < 0.5)
        else:
            ctx.guard(doc, n, True)
            ctx.guard(doc, n, False)

    # longer ones, with other elements between, other prefixes, other namespaces
    def long_doc():
        its = rand_items(rnd, rnd.randint(0, 7))
        whens = [leaf(rnd.choice(["kml:when"] * 8 + ["gx:when", "when"]), fk_date_text(i["w"])) for i in its]
        if len({w["n"] for w in whens}) > 1:
            for w in whens:
                w["n"] = whens[0]["n"]
        coords = [leaf("gx:coord", rnd.choice(["", " ", "\n"]) + rnd.choice([" ", "  ", "\n"]).join(i["c"])) for i in its]
        angles = [leaf("gx:angles", " ".join(i["a"][0])) for i in its if i["a"]]
        if rnd.random() < 0.3 and whens:
            del rnd.choice([whens, coords, angles or whens])[0]
        noise = [leaf("gx:speed", "5"), node("kml:ExtendedData", node("kml:Data", leaf("kml:value", "v"), name="n")),
                 leaf("kml:altitudeMode", "absolute"), leaf("gx:interpolate", "1")]
        how = rnd.choice(["blocks", "items", "shuffle"])
        if how == "blocks":
            kids = whens + coords + angles
        elif how == "items":
            kids = []
            q = [list(whens), list(coords), list(angles)]
            while any(q):
                kids += [x.pop(0) for x in q if x]
        else:
            q = [list(whens), list(coords), list(angles)]
            kids = []
            while any(q):
                kids.append(rnd.choice([x for x in q if x]).pop(0))
        for x in noise:
            if rnd.random() < 0.2:
                kids.insert(rnd.randint(0, len(kids)), x)
        n = {"n": "gx:Track", "x": {"id": "t"} if rnd.random() < 0.3 else {}, "t": "", "c": kids}
        doc(n, rnd.random() < 0.5, pick_prefixes(rnd, n), any_opts(rnd))

    def fk_date_text(tok):
        s = str(fk.tok_date(tok))
        return s

    for _ in range(ctx.n(1500, 20000)):
        ctx.guard(long_doc)

    # tracks made from items and from lists, changed afterwards, in multi-tracks
    def made():
        its = rand_items(rnd, rnd.randint(0, 6))
        how = rnd.choice(["items", "items", "lists", "iter"])
        impl = pick_impl(rnd)
        kw = {}
        extra = {}
        if how == "lists" and its:
            g = [i["a"][0] if i["a"] else [] for i in its]
            while g and not g[-1]:
                g.pop()
            if rnd.random() < 0.2:
                g = g[: rnd.randint(0, len(g))]
            extra["lists"] = {"w": [i["w"] for i in its], "c": [i["c"] for i in its], "a": g}
            kw = dict(whens=[fk.tok_date(i["w"]) for i in its],
                      coords=[tuple(float(x) for x in i["c"]) for i in its],
                      angles=[tuple(float(x) for x in a) for a in g])
            if rnd.random() < 0.3:
                kw = {k: tuple(v) for k, v in kw.items()}
            if not kw["angles"] and rnd.random() < 0.5:
                del kw["angles"]
        else:
            q = [real_item(i) for i in its]
            kw = dict(track_items=iter(q) if how == "iter" and q else q)
        t = Track(**kw)
        if "lists" not in extra:
            ctx.event("same", what="items of a track made from items", a=its, b=items_json(t))
        ctx.event("track", o=fk.project(t), items=items_json(t), g=g_json(t.geometry), info=[impl, how, repr(kw)[:1500]], **extra)
        if t:
            again(t)
        # the items change, the views follow
        if rnd.random() < 0.5:
            more = rand_items(rnd, rnd.randint(1, 3))
            if rnd.random() < 0.5:
                t.track_items = [real_item(i) for i in more]
                want = more
            else:
                want = items_json(t) + more
                t.track_items.extend(real_item(i) for i in more)
            ctx.event("same", what="items of a track after a change", a=want, b=items_json(t))
            ctx.event("track", o=fk.project(t), items=want, g=g_json(t.geometry), info="changed")
            again(t)

    def multi():
        impl = pick_impl(rnd)
        group = [rand_items(rnd, rnd.choice([0, 1, 2, 3])) for _ in range(rnd.randint(0, 4))]
        ts = [Track(track_items=[real_item(i) for i in its]) for its in group]
        m = MultiTrack(tracks=rnd.choice([ts, tuple(ts)]), interpolate=rnd.choice([None, True, False]))
        ctx.event("same", what="items of the tracks of a multi-track", a=[g for g in group if g],
                  b=[items_json(t) for t in m.tracks], info=impl)
        p = fk.project(m)
        ctx.event("geoview", o=p, r=g_json(m.geometry), info=repr(m)[:2000])
        s = m.to_string()
        e = fk.parse_xml(s)
        ctx.event("write", o=p, v="normal", p=-1, e=e, tab=fk.tables([e]), info=s)
        st, m2 = fk.call(MultiTrack.from_string, s)
        ctx.event("read", cls="MultiTrack", e=e, ns="gx", strict=True, tab=fk.tables([e]), r=outcome(st, m2), info=s)
        pm = fk.PYCLASS["Placemark"](kml_geometry=rnd.choice([m, ts[0] if ts else m]))
        p = fk.project(pm)
        ctx.event("geoview", o=p, r=g_json(pm.geometry), info=repr(pm)[:2000])
        s = pm.to_string()
        ctx.event("read", cls="Placemark", e=fk.parse_xml(s), ns="kml", strict=True, tab=fk.tables([fk.parse_xml(s)]),
                  r=read("Placemark", s), info=s)

    for _ in range(ctx.n(1200, 15000)):
        ctx.guard(made)
    for _ in range(ctx.n(500, 6000)):
        ctx.guard(multi)
    it = real_item(rand_items(rnd, 1)[0])
    w, c = [fk.tok_date("Y:2001")], [(1.0, 2.0)]
    for kw in (dict(whens=w, coords=c), dict(whens=w), dict(coords=c), dict(whens=w, coords=c, angles=[(1.0, 2.0, 3.0)])):
        st, v = fk.call(Track, track_items=[it], **kw)
        ctx.event("refused", what="a track with both items and lists", ok=st == "ok",
                  exc=fk.exc_name(v) if st != "ok" else "", want=["ValueError"])
