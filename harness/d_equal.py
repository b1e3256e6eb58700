"""Equality and representation (C14)."""

import copy
import datetime
import json

import fk
import gen
from d_find import places
from drivers import driver, fix, pick_impl, rand_obj
from fk import CLASSES, PYCLASS

SCALARS = ("self", "text", "tattr", "bool", "int", "iattr", "float", "fattr", "enum", "eattr", "date")
EXTRAS = [{}, {"x_note": "a"}, {"x_note": "b"}, {"x_note": "a", "x_more": 1}, {"x_note": ""}, {"x_more": 0}, {"x_note": "b", "x_more": False}]


def eval_names():
    import fastkml
    import fastkml.network_link_control  # noqa: F401
    from dateutil.tz import tzfile, tzutc
    from fastkml import enums
    from fastkml.gx import Angle, TrackItem
    from pygeoif import geometry as geo

    names = {n: getattr(geo, n) for n in ("Point", "LineString", "LinearRing", "Polygon", "MultiPoint", "MultiLineString",
                                          "MultiPolygon", "GeometryCollection")}
    names.update({n: getattr(enums, n) for n in dir(enums) if n[0].isupper()})
    names.update(fastkml=fastkml, Angle=Angle, TrackItem=TrackItem, datetime=datetime, tzutc=tzutc, tzfile=tzfile)
    return names


def sub(a, path):
    """The part of an abstract object at a place."""
    i = 0
    while i < len(path):
        v = a["f"][path[i]]
        i += 1
        if isinstance(v, list):
            v = v[int(path[i]) - 1]
            i += 1
        a = v
    return a


@driver("C14")
def c14(ctx):
    rnd = ctx.rnd
    run = ctx.model("KmlEqualModel", cfg="KmlEqualModel1" if ctx.quick else "KmlEqualModel2", env={"EMIT": "1"})
    pairs = [fix(json.loads(t)) for t in sorted(run.prints("PAIR "))]
    ctx.notes["pairs_enumerated_by_the_model"] = len(pairs)
    names = eval_names()
    g = gen.Gen(rnd)
    touched = set()

    def compare(x, y, xa=None, xb=None, info=None):
        ctx.event("equal", a=fk.project(x), b=fk.project(y), eq=x == y, qe=y == x, ne=x != y,
                  xa=json.dumps(xa or {}, sort_keys=True), xb=json.dumps(xb or {}, sort_keys=True), info=info)

    def replay(p):
        pick_impl(rnd)
        compare(fk.build(p["a"]), fk.build(p["b"]))

    def represent(o):
        if any(fk.NAME_OF[type(x)] == "Schema" and not x.id for _, x in places(o)):
            return  # no constructor call gives a schema without an id
        st, r = fk.call(lambda: eval(repr(o), {}, names))  # noqa: S307
        if st == "ok":
            ctx.event("repr", o=fk.project(o), r={"ok": True, "o": fk.project(r)}, eq=bool(r == o and o == r), info=repr(o)[:2000])
        else:
            ctx.event("repr", o=fk.project(o), r={"ok": False, "exc": fk.exc_name(r)}, eq=False, info=repr(o)[:2000])

    def near_value(k, old):
        """A value that differs from this one by as little as possible."""
        if k in ("self", "text", "tattr"):
            near = [old + " x", old[:-1], old[1:], old.swapcase(), old.replace(" ", "  "), old + "0", old + "\u0301"]
            return rnd.choice([v for v in near if v and v == v.strip() and v != old] or [None])
        if k in ("int", "iattr"):
            return rnd.choice([old + 1, old - 1, -old - 1])
        if k in ("float", "fattr"):
            return rnd.choice([old + 1e-6, old - 0.5, old + 1, -old or 1.0])
        if k == "date":
            if isinstance(old.dt, datetime.datetime):
                return fk.KmlDateTime(rnd.choice([old.dt.replace(microsecond=old.dt.microsecond ^ 1), old.dt.replace(second=old.dt.second ^ 1),
                                                  old.dt.replace(day=old.dt.day - 1 or 2), old.dt.date()]))
            y, m, d = old.dt.year, old.dt.month, old.dt.day
            toks = [f"Y:{y:04}", f"M:{y:04}-{m:02}", f"D:{y:04}-{m:02}-{d:02}", f"M:{y:04}-{m % 12 + 1:02}", f"D:{y:04}-{m:02}-{d % 28 + 1:02}"]
            return fk.tok_date(rnd.choice([t for t in toks if fk.date_tok(old) != t]))
        return None

    def other_value(fd, old, x):
        """A value for a property that differs from the one it has; also none."""
        k = fd["kind"]
        if old is not None and old != "" and k in SCALARS and rnd.random() < 0.4:
            v = near_value(k, old)
            if v is not None:
                return v
        if k in SCALARS:
            for _ in range(20):
                tok = g.scalar(fd)
                if k == "date" and isinstance(old, fk.KmlDateTime) and tok[2:6] == f"{old.dt.year:04}":
                    continue
                v = fk.tok_value(fd, tok)
                if old is None or v != old:
                    return v
            return None
        if k == "coordinates":
            q = [list(t) for t in old]
            r = rnd.random()
            if r < 0.5 and q:
                i = rnd.randrange(len(q))
                q[i][rnd.randrange(len(q[i]))] += rnd.choice([1.5, -3.0, 0.25])
            elif r < 0.7 and len(q) > 1:
                i = rnd.randrange(len(q) - 1)
                q[i], q[i + 1] = q[i + 1], q[i]
            elif r < 0.85:
                q.append([q[-1][j] + 1.0 for j in range(len(q[-1]))])
            else:
                q = [list(t[:2]) + ([7.0] if len(t) == 2 else []) for t in q]
            return [tuple(t) for t in q]
        if k == "xml":
            if old is None or rnd.random() < 0.3:
                return None
            return fk.build(rand_obj(rnd, fk.NAME_OF[type(old)], depth=1))
        if k == "xmls":
            q = list(old or ())
            r = rnd.random()
            if q and r < 0.3:
                q.pop(rnd.randrange(len(q)))
            elif len(q) > 1 and r < 0.6:
                i = rnd.randrange(len(q) - 1)
                q[i], q[i + 1] = q[i + 1], q[i]
            elif q:
                q.insert(rnd.randrange(len(q) + 1), fk.build(rand_obj(rnd, fk.NAME_OF[type(rnd.choice(q))], depth=1)))
            return q
        raise AssertionError(k)

    def mutate(x, y, path, n):
        """Change one property of a part n of y and back."""
        cls = fk.NAME_OF[type(n)]
        if cls == "Track" and rnd.random() < 0.6 and n.track_items:
            attr, old = "track_items", n.track_items
            items = list(old)
            i = rnd.randrange(len(items))
            it = items[i]
            from fastkml.gx import Angle, TrackItem
            r = rnd.random()
            if r < 0.3:
                items[i] = TrackItem(when=fk.tok_date("Y:1871"), coord=it.coord, angle=it.angle)
            elif r < 0.6:
                items[i] = TrackItem(when=it.when, coord=type(it.coord)(it.coord.x + 1.0, it.coord.y), angle=it.angle)
            elif r < 0.8 and it.angle is not None:
                items[i] = TrackItem(when=it.when, coord=it.coord,
                                     angle=Angle(it.angle.heading, it.angle.tilt + 1.0, it.angle.roll))
            else:
                items.append(it)
            new, fdn = items, "track_items"
        else:
            fds = [fd for fd in CLASSES[cls]["fields"] if fd["attr"] not in ("whens", "angles")
                   and not (cls == "Track" and fd["attr"] == "coords")]
            fd = rnd.choice(fds)
            attr = fdn = fd["attr"]
            old = getattr(n, attr, None)
            if rnd.random() < 0.04:
                attr, old = "ns", n.ns
                new = fk.STD_NS["gx"] if old != fk.STD_NS["gx"] else fk.STD_NS["kml"]
            elif fd["kind"] in SCALARS and old is not None and old != "" and rnd.random() < 0.15:
                new = "" if attr in ("id", "target_id") else None
            elif fd["kind"] == "coordinates" and not old:
                return
            else:
                new = other_value(fd, old, n)
        touched.add((cls, attr))
        setattr(n, attr, new)
        info = {"at": path, "property": attr, "old": repr(old)[:300], "new": repr(new)[:300]}
        compare(x, y, info=info)
        if rnd.random() < 0.2:
            represent(y)
        setattr(n, attr, old)
        compare(x, y, info={**info, "restored": True})

    def one(cls, depth=None, full=True, n_mut=4):
        impl = pick_impl(rnd)
        a = rand_obj(rnd, cls, full=full, depth=depth)
        x, y = fk.build(a), fk.build(copy.deepcopy(a))
        compare(x, y, info=impl)
        represent(x)
        nodes = places(y)
        for _ in range(n_mut):
            mutate(x, y, *rnd.choice(nodes))
        if rnd.random() < 0.3:
            s = x.to_string()
            st, z = fk.call(type(x).from_string, s)
            if st == "ok":
                compare(x, z, info="read back")
        if rnd.random() < 0.3:
            ka, kb = rnd.choice(EXTRAS), rnd.choice(EXTRAS)
            compare(PYCLASS[cls](**fk.kwargs_of(a), **ka), PYCLASS[cls](**fk.kwargs_of(a), **kb), ka, kb, info="extras")
            represent(PYCLASS[cls](**fk.kwargs_of(a), **ka))
        if rnd.random() < 0.3:
            # a part of the same kind elsewhere in the tree, and of another kind
            (_, p), (_, q) = rnd.choice(nodes), rnd.choice(nodes)
            compare(p, q, info="two parts")
            same = [q for _, q in nodes if type(q) is type(p)]
            compare(p, rnd.choice(same), info="two parts of a kind")

    for p in pairs if len(pairs) <= ctx.n(1500, 30000) else rnd.sample(pairs, ctx.n(1500, 30000)):
        ctx.guard(replay, p)
    for _ in range(ctx.n(8, 100)):
        for cls in CLASSES:
            ctx.guard(one, cls)
    # kinds that share all their properties
    def kinds(c1, c2):
        a = rand_obj(rnd, c1, depth=rnd.choice([0, 1, 2]), full=rnd.random() < 0.6)
        a["f"] = {k: v for k, v in a["f"].items() if k in {fd["attr"] for fd in CLASSES[c2]["fields"]}}
        b = {**copy.deepcopy(a), "cls": c2}
        compare(fk.build(a), fk.build(b), info="kinds")

    for _ in range(ctx.n(10, 100)):
        for c1, c2 in (("Link", "Icon"), ("Icon", "Link"), ("Folder", "Document"), ("LineString", "LinearRing"),
                       ("LinearRing", "LineString"), ("OverlayXY", "ScreenXY"), ("RotationXY", "Size"), ("Author", "Contributor"),
                       ("OuterBoundaryIs", "InnerBoundaryIs"), ("Placemark", "NetworkLink"), ("LineStyle", "PolyStyle")):
            ctx.guard(kinds, c1, c2)
    for _ in range(ctx.n(80, 1500)):
        ctx.guard(one, rnd.choice(["KML", "Document", "Folder", "Placemark"]), depth=rnd.choice([2, 3]), n_mut=8)
    ctx.notes["properties_changed"] = len(touched)
