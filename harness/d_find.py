"""Searching and comparing (C13, C14)."""

import copy
import json

import fk
import gen
from d_heap import FD, full_value
from drivers import driver, fix, pick_impl, rand_obj
from fk import CLASSES, PYCLASS

# ------------------------------------------------------------------ C13


def places(o):
    """Places of all parts of a real object: path -> object."""
    out = []

    def walk(x, path):
        out.append((path, x))
        for fd in CLASSES[fk.NAME_OF[type(x)]]["fields"]:
            v = getattr(x, fd["attr"], None)
            if fd["kind"] == "xml" and v is not None:
                walk(v, path + [fd["attr"]])
            elif fd["kind"] == "xmls":
                for i, c in enumerate(v or ()):
                    walk(c, path + [fd["attr"], str(i + 1)])

    walk(o, [])
    return out


# values of these properties also exist on things that are no KML objects
AMBIGUOUS = {"heading", "tilt", "roll", "x", "y", "z"}
SEARCHABLE = ("self", "text", "tattr", "bool", "int", "iattr", "float", "fattr", "enum", "eattr", "date")


def crit_value(fd, tok):
    return fk.tok_value(fd, tok)


def rand_crit(rnd, nodes, g):
    """A criterion that something meets, or nearly, or not: (JSON, python value)."""
    r = rnd.random()
    path, x = rnd.choice(nodes)
    cls = fk.NAME_OF[type(x)]
    p = fk.project(x)
    fds = [fd for fd in CLASSES[cls]["fields"] if fd["kind"] in SEARCHABLE]
    if r < 0.12 and hasattr(type(x), "time_stamp") or (r < 0.25 and cls == "IconStyle"):
        k = "icon_href" if cls == "IconStyle" else rnd.choice(["time_stamp", "begin", "end"])
        v = getattr(x, k, None)
        if v is None:
            return {"k": k, "kind": "date", "v": []}, None
        return {"k": k, "kind": "text" if k == "icon_href" else "date", "v": [v if k == "icon_href" else fk.date_tok(v)]}, v
    if not fds:
        fds = [fd for fd in CLASSES["Placemark"]["fields"] if fd["kind"] in SEARCHABLE]
    have = [fd for fd in fds if fd["attr"] in p["f"]]
    fd = rnd.choice(have if have and r < 0.75 else fds)
    if fd["attr"] in p["f"] and r < 0.8:
        tok = p["f"][fd["attr"]]
    elif r < 0.9 and fd["attr"] not in ("id", "target_id"):
        return {"k": fd["attr"], "kind": fd["kind"], "v": []}, None
    else:
        tok = g.scalar(fd)
    if tok == "-0.0":
        tok = "0.5"
    return {"k": fd["attr"], "kind": fd["kind"], "v": [tok]}, crit_value(fd, tok)


@driver("C13")
def c13(ctx):
    rnd = ctx.rnd
    from fastkml.utils import find, find_all, has_attribute_values

    run = ctx.model("KmlFindModel", cfg="KmlFindModel1" if ctx.quick else "KmlFindModel2", env={"EMIT": "1"})
    trees = [fix(json.loads(t)) for t in sorted(run.prints("TREE "))]
    ctx.notes["trees_enumerated_by_the_model"] = len(trees)
    g = gen.Gen(rnd)

    def search(o, p, nodes, alias, types, crit, values):
        kw = {c["k"]: v for c, v in zip(crit, values)}
        if len(kw) != len(crit):
            return
        if not types and any(k in AMBIGUOUS for k in kw):
            return
        at = {}
        for path, x in nodes:
            at.setdefault(id(x), path)
        cls = tuple(PYCLASS[t] for t in types)
        of = {"of_type": cls if len(cls) != 1 or rnd.random() < 0.3 else cls[0]} if types else {}
        found = [x for x in find_all(o, **of, **kw) if type(x) in fk.NAME_OF]
        r = [at.get(id(x), ["?" + type(x).__name__]) for x in found]
        first = find(o, **of, **kw)
        # without a type anything that has the values may come first
        if types:
            f = [] if first is None else [at.get(id(first), ["?"])]
        else:
            f = r[:1]
        ctx.event("find", o=p, types=types, crit=crit, r=r, first=f, alias=alias, info=repr(kw))

    def ask(o, n_search):
        pick_impl(rnd)
        p = fk.project(o)
        nodes = places(o)
        seen, alias = {}, []
        for path, x in nodes:
            if id(x) in seen:
                alias.append({"at": path, "as": seen[id(x)]})
            else:
                seen[id(x)] = path
        kinds = sorted({fk.NAME_OF[type(x)] for _, x in nodes})
        for _ in range(n_search):
            q = rnd.random()
            types = [] if q < 0.25 else rnd.sample(kinds, min(len(kinds), rnd.choice([1, 1, 2, 3])))
            if types and rnd.random() < 0.2:
                types += [rnd.choice(["LineString", "Link", "Placemark", "Style", "Icon"])]
            pairs = [rand_crit(rnd, nodes, g) for _ in range(rnd.choice([0, 1, 1, 1, 2, 2, 3]) or (0 if types else 1))]
            if len(pairs) > 1 and rnd.random() < 0.5:
                # two values of the same object
                _, x = rnd.choice(nodes)
                pairs = [rand_crit(rnd, [([], x)], g) for _ in pairs]
            search(o, p, nodes, alias, types, [c for c, _ in pairs], [v for _, v in pairs])
        for path, x in rnd.sample(nodes, min(3, len(nodes))):
            c, v = rand_crit(rnd, rnd.choice([nodes, [(path, x)]]), g)
            cs = {c["k"]: (c, v)}
            c, v = rand_crit(rnd, [(path, x)], g)
            cs[c["k"]] = (c, v)
            xp = fk.project(x)
            if any(a[0]["v"] == ["-0.0"] for a in cs.values()):
                continue
            ctx.event("matches", o=xp, crit=[a for a, _ in cs.values()],
                      r=has_attribute_values(x, **{k: b for k, (_, b) in cs.items()}))
            for k in ("time_stamp", "begin", "end", "icon_href", "normal", "highlight"):
                if not hasattr(type(x), k):
                    continue
                v = getattr(x, k)
                if k in ("normal", "highlight"):
                    r = next((path for path, y in places(x) if y is v), ["?"]) if v is not None else []
                elif v is None:
                    r = []
                else:
                    r = [v if k == "icon_href" else fk.date_tok(v)]
                ctx.event("access", o=xp, k=k, r=r)
        if type(o) is PYCLASS["Document"]:
            ids = sorted({getattr(x, "id", None) or "" for _, x in nodes} | {"nope", "a"})
            for _ in range(4):
                i = rnd.choice(ids)
                url = rnd.choice(["#", "#", "http://example.com/x.kml#", "file.kml#", "http://e.org/a?b=c&d#", ""]) + i
                st = o.get_style_by_url(url)
                r = [] if st is None else [next((path for path, x in nodes if x is st), ["?"])]
                ctx.event("style", o=p, url=url, r=r)

    for t in (rnd.sample(trees, min(len(trees), 400)) if ctx.quick else trees[:12000]):
        ctx.guard(lambda t=t: ask(fk.build(t), ctx.n(4, 6)))

    def rich(cls, depth):
        a = rand_obj(rnd, cls, full=rnd.random() < 0.7, depth=depth)
        o = fk.build(a)
        if rnd.random() < 0.25:
            # the same object in several places
            nodes = places(o)
            styles = [x for _, x in nodes if type(x) is PYCLASS["Style"]]
            feats = [x for _, x in nodes if hasattr(x, "styles") and type(x).__name__ != "Style"]
            if styles and feats:
                s = rnd.choice(styles)
                for f in rnd.sample(feats, min(3, len(feats))):
                    f.styles.append(s)
        if rnd.random() < 0.3 and cls in ("Document", "Folder", "KML"):
            # two equal ones
            a2 = fk.project(o)
            if o.features:
                o.features.append(fk.build(a2["f"]["features"][0]))
        ask(o, 8)

    for _ in range(ctx.n(350, 5000)):
        ctx.guard(rich, rnd.choice(["Document", "Document", "KML", "Folder", "Placemark"]), rnd.choice([1, 2, 3]))
    for _ in range(ctx.n(6, 60)):
        for cls in CLASSES:
            ctx.guard(rich, cls, rnd.choice([0, 1, 2]))
