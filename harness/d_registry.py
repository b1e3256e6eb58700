"""Registered extensions (C15)."""

import copy
import importlib
import json

import fk
import gen
from d_names import homeless
from drivers import LEVELS, any_opts, driver, fix, outcome, pick_impl, pick_prefixes, rand_obj
from fk import CLASSES, PYCLASS

ABSTRACT = {"_BaseObject": "kml_base", "_Feature": "features", "_Overlay": "overlays", "_Container": "containers",
            "_ColorStyle": "styles", "_AbstractView": "views", "_XMLObject": "base"}
CHILDREN = ["Alias", "Scale", "Orientation", "Lod", "Size", "SimpleField", "ViewVolume", "Data", "HotSpot"]


def python_class(name):
    if name in PYCLASS:
        return PYCLASS[name]
    return getattr(importlib.import_module("fastkml." + ABSTRACT[name]), name, None)


def item(fd):
    """The registry item for a property."""
    from fastkml import enums, helpers as h
    from fastkml.registry import RegistryItem
    from fastkml.times import KmlDateTime

    get, put, classes = {
        "text": (h.subelement_text_kwarg, h.text_subelement, (str,)),
        "tattr": (h.attribute_text_kwarg, h.text_attribute, (str,)),
        "bool": (h.subelement_bool_kwarg, h.bool_subelement, (bool,)),
        "int": (h.subelement_int_kwarg, h.int_subelement, (int,)),
        "iattr": (h.attribute_int_kwarg, h.int_attribute, (int,)),
        "float": (h.subelement_float_kwarg, h.float_subelement, (float,)),
        "fattr": (h.attribute_float_kwarg, h.float_attribute, (float,)),
        "enum": (h.subelement_enum_kwarg, h.enum_subelement, None),
        "eattr": (h.attribute_enum_kwarg, h.enum_attribute, None),
        "date": (h.datetime_subelement_kwarg, h.datetime_subelement, (KmlDateTime,)),
        "xml": (h.xml_subelement_kwarg, h.xml_subelement, None),
        "xmls": (h.xml_subelement_list_kwarg, h.xml_subelement_list, None),
    }[fd["kind"]]
    if classes is None:
        classes = tuple(PYCLASS[t] if fd["kind"].startswith("xml") else getattr(enums, t) for t in fd["types"])
    return RegistryItem(ns_ids=tuple(fd["ns"]), classes=classes, attr_name=fd["attr"], get_kwarg=get, set_element=put,
                        node_name=fd["node"], default=fk.tok_value(fd, fd["dflt"]) if fd["dflt"] else None)


def rand_fd(rnd, k, used=()):
    g = gen.Gen(rnd, default_bias=0.0)
    kind = rnd.choice(["text", "text", "tattr", "bool", "int", "iattr", "float", "fattr", "enum", "eattr", "date", "xml", "xmls"])
    fd = {"kind": kind, "attr": f"ext_{k}", "node": f"ext{k}", "types": [], "dflt": ""}
    if kind in ("tattr", "iattr", "fattr", "eattr"):
        fd["ns"] = rnd.choice([[""], ["", "kml"], ["kml", ""]])
    else:
        fd["ns"] = rnd.choice([["kml", ""], ["kml"], ["gx", "kml"], ["", "kml"], ["kml", "gx", ""]])
    if kind in ("enum", "eattr"):
        fd["types"] = [rnd.choice(["RefreshMode", "ColorMode", "Units", "AltitudeMode"])]
    if kind in ("xml", "xmls"):
        free = [c for c in CHILDREN if c not in used]
        if not free:
            return rand_fd(rnd, k, used)
        fd["types"] = rnd.sample(free, min(len(free), 1 if kind == "xml" else rnd.choice([1, 2])))
        fd["node"] = ",".join(fd["types"])
        fd["ns"] = rnd.choice([["kml", ""], ["kml"]])
    elif kind != "date" and rnd.random() < 0.4:
        fd["dflt"] = g.scalar(fd)
    return fd


def derive(base, rnd, shape):
    """Classes that inherit from base: name -> (class, chain of the derived ones, most general first)."""
    def new(name, *bases):
        return type(name, bases, {})

    if shape == "diamond":
        x1 = new("X1", base)
        x2, x3 = new("X2", x1), new("X3", x1)
        x4 = new("X4", x2, x3)
        return {"X1": (x1, ["X1"]), "X2": (x2, ["X1", "X2"]), "X3": (x3, ["X1", "X3"]), "X4": (x4, ["X1", "X3", "X2", "X4"])}
    if shape == "line":
        x1 = new("X1", base)
        x2 = new("X2", x1)
        x3 = new("X3", x2)
        return {"X1": (x1, ["X1"]), "X2": (x2, ["X1", "X2"]), "X3": (x3, ["X1", "X2", "X3"])}
    x1, x2 = new("X1", base), new("X2", base)
    return {"X1": (x1, ["X1"]), "X2": (x2, ["X2"])}


@driver("C15")
def c15(ctx):
    rnd = ctx.rnd
    from fastkml.base import _XMLObject
    from fastkml.registry import Registry

    run = ctx.model("KmlRegistryModel", cfg="KmlRegistryModel1" if ctx.quick else "KmlRegistryModel2", env={"EMIT": "1"}, workers=1)
    behs = [fix(json.loads(b)) for b in run.prints("BEH ")]
    ctx.notes["transitions_of_the_model"] = len(behs)
    names5 = ["K1", "K2", "K3", "K4", "K5"]

    # -- histories of the model on a registry
    def replay(beh):
        k1 = type("K1", (_XMLObject,), {})
        k2, k3 = type("K2", (k1,), {}), type("K3", (k1,), {})
        cls = {"K1": k1, "K2": k2, "K3": k3, "K4": type("K4", (k2, k3), {}), "K5": type("K5", (_XMLObject,), {})}
        reg = Registry()
        lists, h, n = {}, [], 0
        for act in beh:
            if act["a"] == "register":
                fd = rand_fd(rnd, act["it"][1:])
                reg.register(cls[act["c"]], item({**fd, "attr": act["it"]}))
            elif act["a"] == "look":
                lists[act["c"]] = reg.get(cls[act["c"]])
            else:
                q = lists.pop(act["c"])
                r = rnd.random()
                if not isinstance(q, list):
                    pass
                elif r < 0.4:
                    q.clear()
                elif r < 0.7:
                    q.append(item(rand_fd(rnd, 99)))
                else:
                    q.reverse()
            seen = {c: [i.attr_name for i in reg.get(cls[c])] for c in names5}
            h.append({**act, "seen": seen})
        ctx.event("registry", h=h)

    # -- extensions of the library's classes
    def experiment(cls):
        from fastkml.registry import registry

        base = PYCLASS[cls]
        kinds = derive(base, rnd, rnd.choice(["diamond", "line", "pair"]))
        regs, k = {}, 0
        places = [p for p in (*ABSTRACT, "Link", "LineString") if python_class(p) in base.__mro__[1:]]
        targets = list(kinds) + [cls] + (places if rnd.random() < 0.6 else [])
        other = rnd.choice([c for c in CLASSES if PYCLASS[c] not in base.__mro__ and c not in ("Icon", "LinearRing")])
        targets.append("other")
        olds = []       # objects that exist already
        used = {t for fd in CLASSES[cls]["fields"] for t in fd["types"]}
        deeper = {t for c in parts_of(cls) for fd in CLASSES[c]["fields"] for t in fd["types"]}
        inner = parts_of(cls) | set(CHILDREN)

        def chain_of(name):
            return kinds[name][1] if name in kinds else []

        def fds_of(name):
            """All additional properties of a class, for projection only (order does not matter)."""
            out = []
            for t, fds in regs.items():
                if t in chain_of(name) or t == cls or t in places:
                    out += fds
            return out

        def value(name):
            ext = fds_of(name)
            fields = CLASSES[cls]["fields"] + ext
            g = gen.Gen(rnd, fill=rnd.choice([0.2, 0.6]), depth=1, default_bias=0.4)
            a = g.obj(cls, fields=fields)
            for fd in ext:
                if fd["attr"] not in a["f"] and fd["kind"] not in ("xml", "xmls") and rnd.random() < 0.6:
                    a["f"][fd["attr"]] = g.scalar(fd)
            return a, fields

        def write(o, name):
            fields = CLASSES[cls]["fields"] + fds_of(name)
            a = fk.project_as(o, cls, fields)
            v = rnd.choice(LEVELS)
            if name == cls:
                tag = CLASSES[cls]["tag"]
            else:
                tag = type(o).get_tag_name()
            s = o.to_string(verbosity=fk.Verbosity[v], prettyprint=rnd.random() < 0.5)
            e = fk.parse_xml(s)
            ctx.event("extwrite", o=a, tag=tag, chain=chain_of(name), regs=copy.deepcopy(regs), v=v, e=e, tab=fk.tables([e]),
                      info={"impl": impl, "class": name, "xml": s[:3000]})
            return s, v, a

        def read(name):
            fields = CLASSES[cls]["fields"] + fds_of(name)
            g = gen.DocGen(rnd, fill=rnd.choice([0.3, 0.7]), depth=1, noise=rnd.choice([0.0, 0.2]), bad=rnd.choice([0.0, 0.0, 0.1]))
            n = g.node(cls, fields=fields)
            strict = rnd.random() < 0.6
            text = fk.xml_of(n, prefixes=pick_prefixes(rnd, n), rnd=rnd, opts=any_opts(rnd))
            kl = kinds[name][0] if name in kinds else base
            st, o = fk.call(kl.from_string, text, strict=strict)
            r = {"ok": True, "o": fk.project_as(o, cls, fields)} if st == "ok" else {"ok": False, "exc": fk.exc_name(o)}
            ctx.event("extread", cls=cls, chain=chain_of(name), regs=copy.deepcopy(regs), e=n,
                      ns=CLASSES[cls]["nsid"], strict=strict, tab=fk.tables([n]), r=r,
                      info={"impl": impl, "class": name, "xml": text[:3000], "kind": type(o).__name__})
            if st == "ok":
                ctx.event("same", what="class of the object read", a=kl.__name__, b=type(o).__name__)
                if rnd.random() < 0.4 and not (cls == "Schema" and not o.id) and not (
                    cls == "KML" and homeless(fk.project_as(o, cls, fields))
                ):
                    write(o, name)

        for _ in range(rnd.randint(4, 9)):
            impl = pick_impl(rnd)
            r = rnd.random()
            if r < 0.45:
                t = rnd.choice(targets)
                k += 1
                goal = PYCLASS[other] if t == "other" else kinds[t][0] if t in kinds else python_class(t)
                deep = any(issubclass(PYCLASS[c], goal) for c in inner)
                fd = rand_fd(rnd, k, used | deeper if deep else used)
                used.update(fd["types"])
                if deep:
                    fd["dflt"] = ""     # it holds for parts of the object too: leave them as they are
                registry.register(goal, item(fd))
                if t != "other":
                    regs.setdefault(t, []).append(fd)
                if rnd.random() < 0.3:
                    q = registry.get(rnd.choice([base, *[c for c, _ in kinds.values()]]))
                    if isinstance(q, list):
                        rnd.choice([q.clear, q.reverse, lambda: q.append(item(rand_fd(rnd, 77)))])()
            elif r < 0.6 and cls != "KML" or r < 0.5:
                name = rnd.choice([*kinds, cls])
                a, fields = value(name)
                kl = kinds[name][0] if name in kinds else base
                o = kl(**fk.kwargs_of(a, fields=fields))
                olds.append((o, name))
                s, v, p = write(o, name)
                home = CLASSES[cls]["nsid"]
                if v == "normal" and p == a and all(
                    "attr" in fd["kind"][1:] or (home in fd["ns"] and ("AltitudeMode" not in fd["types"] or "gx" in fd["ns"]))
                    for fd in fds_of(name)
                ):
                    st, b = fk.call(kl.from_string, s)
                    ctx.event("same", what="object with registered properties read back", a=p,
                              b=fk.project_as(b, cls, fields) if st == "ok" else {"exc": fk.exc_name(b)}, info=s[:2000])
            elif r < 0.75 and olds:
                o, name = rnd.choice(olds)
                late = [fd for fd in fds_of(name) if not fd["kind"].startswith("xml")]
                if late and rnd.random() < 0.7:
                    fd = rnd.choice(late)
                    setattr(o, fd["attr"], fk.tok_value(fd, gen.Gen(rnd, default_bias=0.3).scalar(fd)))
                write(o, name)
            else:
                read(rnd.choice([*kinds, cls]))
        # the other classes are as ever (those that can contain this one only where they do not)
        subs = {n for n, c in PYCLASS.items() if any(issubclass(c, python_class(t)) for t in regs if t not in kinds)}
        free = [c for c in CLASSES if c not in subs and c != other and c not in ("Icon",) and not parts_of(c) & (subs | {other})]
        for c in rnd.sample(free, min(2, len(free))):
            a = rand_obj(rnd, c)
            o = fk.build(a)
            e = fk.parse_xml(o.to_string())
            ctx.event("write", o=fk.project(o), v="normal", p=-1, e=e, tab=fk.tables([e]), info="unrelated class")
            n = gen.DocGen(rnd, depth=1).node(c)
            text = fk.xml_of(n, prefixes=pick_prefixes(rnd, n), rnd=rnd)
            st, o = fk.call(PYCLASS[c].from_string, text)
            ctx.event("read", cls=c, e=n, ns=CLASSES[c]["nsid"], strict=True, tab=fk.tables([n]), r=outcome(st, o), info="unrelated class")

    def parts_of(c, seen=None):
        """The classes of which objects can be inside an object of this class."""
        seen = set() if seen is None else seen
        for fd in CLASSES[c]["fields"]:
            if fd["kind"] in ("xml", "xmls"):
                for t in fd["types"]:
                    if t not in seen:
                        seen.add(t)
                        parts_of(t, seen)
        return seen

    # one process for one experiment: registrations are for ever
    some = ["Placemark", "Document", "KML", "GroundOverlay", "Folder", "Point", "LinearRing"]
    ctx.fork(experiment, [(c,) for c in CLASSES] * ctx.n(5, 60) + [(rnd.choice(some),) for _ in range(ctx.n(80, 1500))])

    # only the longest histories: the others are their beginnings
    longest = max((len(b) for b in behs), default=0)
    full = [b for b in behs if len(b) >= longest - 1]
    for beh in rnd.sample(full, min(len(full), ctx.n(1500, 40000))):
        ctx.guard(replay, beh)
