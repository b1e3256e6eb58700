"""Histories over objects that refer to each other (C11, C12)."""

import copy
import hashlib
import json

import core
import fk
import gen
from drivers import driver, fix, pick_impl, rand_obj  # noqa: F401
from fk import CLASSES, PYCLASS

FD = {c: {fd["attr"]: fd for fd in CLASSES[c]["fields"]} for c in CLASSES}
# every list of parts there is: (class, attribute)
COLLECTIONS = [(c, fd["attr"]) for c in CLASSES for fd in CLASSES[c]["fields"] if fd["kind"] == "xmls"]
UNSET = {"id": "", "target_id": ""}  # what an object without an id has (None otherwise)
METHOD = {("KML", "features"): "append", ("Document", "features"): "append", ("Folder", "features"): "append",
          ("Schema", "fields"): "append", ("SchemaData", "data"): "append_data"}
FIXED = ("dates", "nums")     # views of the items of a track


def digest(x):
    return hashlib.md5(repr(x).encode("utf-8", "surrogatepass")).hexdigest()[:12]


def full_value(cls, rnd, **kw):
    return rand_obj(rnd, cls, full=True, **kw)


class History:
    """Runs operations on the real library and records what they did."""

    def __init__(self, rnd):
        self.rnd = rnd
        self.objs, self.names, self.lists = {}, {}, {}
        self.steps, self.keep = [], []
        self.last = {"heap": {}, "lists": {}}
        self.impl = pick_impl(rnd)

    # -- projection
    def name(self, o):
        return self.names.get(id(o), f"?{type(o).__name__}")

    def register(self, name, o):
        old = self.objs.get(name)
        if old is not None:
            self.names.pop(id(old), None)
            self.keep.append(old)
        self.objs[name] = o
        self.names[id(o)] = name

    def register_tree(self, name, o):
        """Name an object and all its parts after their places."""
        self.register(name, o)
        for fd in CLASSES[fk.NAME_OF[type(o)]]["fields"]:
            v = getattr(o, fd["attr"], None)
            if fd["kind"] == "xml" and v is not None:
                self.register_tree(f"{name}.{fd['attr']}", v)
            elif fd["kind"] == "xmls" and v:
                for i, c in enumerate(v):
                    self.register_tree(f"{name}.{fd['attr']}.{i + 1}", c)

    def shape(self, o):
        cls = fk.NAME_OF.get(type(o), f"?{type(o).__name__}")
        s, p, ll = {}, {}, {}
        for fd in CLASSES[cls]["fields"]:
            v, k, a = getattr(o, fd["attr"], None), fd["kind"], fd["attr"]
            if k == "xml":
                if v is not None:
                    p[a] = self.name(v)
            elif k == "xmls":
                if v:
                    ll[a] = [self.name(x) for x in v]
            elif k in ("nums", "coordinates"):
                q = [fk.nums(t) for t in (v if v is not None else ())]
                if q:
                    s[a] = q
            elif k == "dates":
                q = [fk.date_tok(d) for d in (v or ())]
                if q:
                    s[a] = q
            else:
                t = fk.scalar_tok(k, fd["types"], v)
                if t is not None:
                    s[a] = t
        return {"cls": cls, "ns": fk.STD.nsid(o.ns), "s": s, "p": p, "l": ll}

    def observe(self):
        now = {"heap": {n: self.shape(o) for n, o in self.objs.items()},
               "lists": {n: [self.name(x) for x in q] for n, q in self.lists.items()}}
        ch = {part: {n: v for n, v in now[part].items() if self.last[part].get(n) != v} for part in now}
        self.last = now
        return ch

    # -- operations
    def do(self, act, fn, register=None):
        st, v = fk.call(fn)
        ok = st == "ok"
        ans = ""
        if not ok:
            ans = fk.exc_name(v)
        elif register:
            register(v)
        elif act["a"] == "look":
            ans = v
        ch = self.observe()
        self.steps.append({"act": act, "ok": ok, "ans": ans, "ch": ch})
        return ok

    def make(self, name, value):
        return self.do({"a": "make", "o": name, "v": value}, lambda: fk.build(value),
                       lambda o: self.register_tree(name, o))

    def source(self, src):
        if src["from"] == "list":
            q = self.lists[src["n"]]
            return self.rnd.choice([lambda: q, lambda: q, lambda: tuple(q), lambda: iter(list(q))])()
        if src["from"] == "of":
            return getattr(self.objs[src["n"]], src["k"])
        return self.rnd.choice([[self.objs[n] for n in src["q"]]] + ([None] if not src["q"] else []))

    def new(self, name, cls, s, p, ll):
        def run():
            kw = fk.kwargs_of({"cls": cls, "ns": CLASSES[cls]["nsid"], "f": s})
            kw.update({k: self.objs[r] for k, r in p.items()})
            kw.update({k: v for k, v in ((k, self.source(src)) for k, src in ll.items()) if v is not None})
            return PYCLASS[cls](**kw)

        return self.do({"a": "new", "o": name, "cls": cls, "ns": CLASSES[cls]["nsid"], "s": s, "p": p, "l": ll}, run,
                       lambda o: self.register(name, o))

    def copy(self, name, of):
        o = self.objs[of]
        return self.do({"a": "copy", "o": name, "of": of}, lambda: type(o).from_string(o.to_string()),
                       lambda c: self.register_tree(name, c))

    def set(self, name, k, tok):
        o = self.objs[name]
        fd = FD[fk.NAME_OF[type(o)]][k]
        if tok is None:
            return self.do({"a": "unset", "o": name, "k": k}, lambda: setattr(o, k, UNSET.get(k)))
        v = [tuple(float(x) for x in t) for t in tok] if fd["kind"] == "coordinates" else fk.tok_value(fd, tok)
        return self.do({"a": "set", "o": name, "k": k, "v": tok}, lambda: setattr(o, k, v))

    def setp(self, name, k, r):
        return self.do({"a": "setp", "o": name, "k": k, "r": r},
                       lambda: setattr(self.objs[name], k, self.objs[r] if r else None))

    def setl(self, name, k, src):
        def run():
            v = self.source(src)
            setattr(self.objs[name], k, list(v or []))

        return self.do({"a": "setl", "o": name, "k": k, "q": src}, run)

    def append(self, name, k, r):
        o = self.objs[name]
        m = METHOD.get((fk.NAME_OF[type(o)], k))
        direct = not m or (self.rnd.random() < 0.2 and r != name)
        return self.do({"a": "append", "o": name, "k": k, "r": r},
                       lambda: (getattr(o, k).append if direct else getattr(o, m))(self.objs[r]))

    def pop(self, name, k):
        return self.do({"a": "pop", "o": name, "k": k}, lambda: getattr(self.objs[name], k).pop() and None)

    def lnew(self, n):
        self.lists[n] = []
        return self.do({"a": "lnew", "n": n}, lambda: None)

    def lappend(self, n, r):
        return self.do({"a": "lappend", "n": n, "r": r}, lambda: self.lists[n].append(self.objs[r]))

    def lclear(self, n):
        return self.do({"a": "lclear", "n": n}, lambda: self.lists[n].clear())

    def use(self, impl):
        fk.use(impl)
        self.impl = impl
        return self.do({"a": "use", "what": impl}, lambda: None)

    def look(self, name, what, fn):
        """An operation that only looks; an exception is an answer, too."""

        def run():
            st, v = fk.call(fn, self.objs[name])
            return digest(v) if st == "ok" else "exc " + fk.exc_name(v)

        return self.do({"a": "look", "o": name, "what": f"{what} {self.impl}"}, run)

    # -- what refers to what
    def reach(self, name):
        out, todo = set(), [name]
        while todo:
            n = todo.pop()
            if n in out or n not in self.last["heap"]:
                continue
            out.add(n)
            th = self.last["heap"][n]
            todo += list(th["p"].values()) + [x for q in th["l"].values() for x in q]
        return out

    def event(self, ctx, **info):
        ctx.event("heap", h=self.steps, info=info or None)


# ---------------------------------------------------------------- looking


def _plain(v):
    """Something comparable and stable for an answer."""
    if isinstance(v, (str, bytes, int, float, bool, type(None))):
        return repr(v)
    return repr(v)


LOOKS = {
    "to_string": lambda o: o.to_string(),
    "plain": lambda o: o.to_string(prettyprint=False),
    "terse": lambda o: o.to_string(verbosity=fk.Verbosity.terse),
    "verbose": lambda o: o.to_string(verbosity=fk.Verbosity.verbose, precision=2),
    "precision": lambda o: o.to_string(precision=0),
    "etree": lambda o: json.dumps(fk.node(o.etree_element())),
    "repr": lambda o: repr(o),
    "str": lambda o: str(o),
    "bool": lambda o: bool(o),
    "eq": lambda o: o == o,
    "eq other": lambda o: o == PYCLASS["Placemark"](name="x"),
    "find": lambda o: [type(x).__name__ for x in _find()(o) if type(x) in fk.NAME_OF],
    "find id": lambda o: [type(x).__name__ for x in _find()(o, id="a") if type(x) in fk.NAME_OF],
    "find type": lambda o: [type(x).__name__ for x in _find()(o, of_type=PYCLASS["Style"])],
    "geometry": lambda o: repr(getattr(o, "geometry", None)),
    "tag": lambda o: o.get_tag_name(),
    "accessors": lambda o: [repr(getattr(o, a)) for a in ("time_stamp", "begin", "end", "icon_href", "normal", "highlight",
                                                          "whens", "coords", "angles") if hasattr(type(o), a)],
    "validate": lambda o: o.validate(),
    "style": lambda o: repr(o.get_style_by_url("#style_1")) if hasattr(o, "get_style_by_url") else None,
}


def _find():
    from fastkml.utils import find_all

    return find_all


# ---------------------------------------------------------------- behaviours of the model


def container_extra(cls):
    return {"id": "sch"} if cls == "Schema" else {}


def replay(ctx, cls, attr, beh):
    """One behaviour of KmlHeapModel with real classes for its containers and members."""
    rnd = ctx.rnd
    fd = FD[cls][attr]
    h = History(rnd)
    types = fd["types"]
    order = [t for t in types if t not in ("MultiGeometry", "Document", "Folder")] or types
    t1, t2 = rnd.choice(order), rnd.choice(order)
    v1 = full_value(t1, rnd, depth=rnd.choice([0, 0, 1]))
    # m2 is equal to m1, or it is not
    v2 = copy.deepcopy(v1) if rnd.random() < 0.5 else full_value(t2, rnd, depth=0)
    h.make("m1", v1)
    h.make("m2", v2)
    h.make("m3", full_value(t2, rnd, depth=0))
    h.lnew("L")
    for act in beh:
        a = act["a"]
        if a == "new":
            src = {k: v for k, v in act["l"]["items"].items()}
            if src["from"] == "of":
                src["k"] = attr
            h.new(act["o"], cls, container_extra(cls), {}, {attr: src})
        elif a == "append":
            h.append(act["o"], attr, act["r"])
        elif a == "pop":
            h.pop(act["o"], attr)
        elif a == "setl":
            h.setl(act["o"], attr, act["q"])
        elif a == "lappend":
            h.lappend(act["n"], act["r"])
        elif a == "lclear":
            h.lclear(act["n"])
        elif a == "look":
            for w in rnd.sample(sorted(LOOKS), 4):
                if w != "validate":
                    h.look(act["o"], w, LOOKS[w])
        elif a == "copy":
            h.copy("c3", act["of"])
        if h.steps[-1]["ok"] is False and not (a == "append" and act["r"] == act["o"]):
            break
    h.event(ctx, cls=cls, attr=attr, impl=h.impl)
    return h


def suits(cls, attr, beh):
    nest = any(a["a"] == "append" and a["o"] == "c1" and a["r"] == "c2" for a in beh)
    self_ = any(a["a"] == "append" and a["o"] == a["r"] for a in beh)
    if self_ and METHOD.get((cls, attr)) != "append" or (self_ and cls == "Schema"):
        return False
    return not nest or cls in FD[cls][attr]["types"]


def written(ctx, h, name):
    """The document of an object, as it is now."""
    o = h.objs.get(name)
    if o is None:
        return
    p = fk.project(o)
    s = o.to_string()
    e = fk.parse_xml(s)
    ctx.event("write", o=p, v="normal", p=-1, e=e, tab=fk.tables([e]), info={"impl": h.impl, "xml": s[:3000]})


@driver("C12")
def c12(ctx):
    rnd = ctx.rnd
    run = ctx.model("KmlHeapModel", cfg="KmlHeapModel1" if ctx.quick else "KmlHeapModel2", env={"EMIT": "1"}, workers=1)
    behs = [fix(json.loads(b)) for b in run.prints("BEH ")]
    ctx.notes["transitions_of_the_model"] = len(behs)
    main = [k for k in COLLECTIONS if k in METHOD]
    kinds = [k for k in COLLECTIONS if k not in METHOD]
    n_replayed = 0

    def one(cls, attr, beh):
        nonlocal n_replayed
        h = replay(ctx, cls, attr, beh)
        n_replayed += 1
        for c in ("c1", "c2", "c3"):
            if rnd.random() < 0.3:
                written(ctx, h, c)

    for cls, attr in main:
        for beh in rnd.sample(behs, min(len(behs), ctx.n(320, 8000))):
            if suits(cls, attr, beh):
                ctx.guard(one, cls, attr, beh)
    for cls, attr in kinds:
        for beh in rnd.sample(behs, min(len(behs), ctx.n(40, 1500))):
            if suits(cls, attr, beh):
                ctx.guard(one, cls, attr, beh)

    # long histories on each kind of container
    def long(cls, attr):
        h = History(rnd)
        types = FD[cls][attr]["types"]
        pool = []
        for i in range(6):
            t = rnd.choice([t for t in types if t not in ("MultiGeometry", "Document", "Folder")] or types)
            h.make(f"m{i}", full_value(t, rnd, depth=0) if not pool or rnd.random() < 0.7 else
                   copy.deepcopy(rnd.choice(pool)))
            pool.append(h.steps[-1]["act"]["v"])
        h.lnew("L")
        h.new("c1", cls, container_extra(cls), {}, {})
        h.new("c2", cls, container_extra(cls), {}, {attr: {"from": "literal", "q": ["m0", "m1"]}})
        for _ in range(rnd.randint(5, 25)):
            c = rnd.choice(["c1", "c2"])
            r = rnd.random()
            if r < 0.6:
                h.append(c, attr, f"m{rnd.randrange(6)}")
            elif r < 0.7:
                h.lappend("L", f"m{rnd.randrange(6)}")
            elif r < 0.75:
                h.new(c, cls, container_extra(cls), {}, {attr: {"from": "list", "n": "L"}})
            elif r < 0.8:
                h.setl(c, attr, {"from": "list", "n": "L"})
            elif r < 0.85 and getattr(h.objs[c], attr):
                h.pop(c, attr)
            elif r < 0.9 and METHOD.get((cls, attr)) == "append" and cls != "Schema":
                h.append(c, attr, c)
            elif r < 0.95:
                h.look(c, "to_string", LOOKS["to_string"])
            else:
                h.use(rnd.choice(["lxml", "stdlib"]))
        h.event(ctx, cls=cls, attr=attr, impl=h.impl)
        for c in ("c1", "c2"):
            written(ctx, h, c)

    for cls, attr in main:
        for _ in range(ctx.n(40, 500)):
            ctx.guard(long, cls, attr)
    for cls, attr in kinds:
        for _ in range(ctx.n(6, 100)):
            ctx.guard(long, cls, attr)
    ctx.notes["behaviours_replayed"] = n_replayed
    ctx.notes["collection_kinds"] = len(COLLECTIONS)


# ------------------------------------------------------------------ C11


def settable(cls):
    return [fd for fd in CLASSES[cls]["fields"] if fd["kind"] not in ("xml", "xmls", *FIXED)]


def with_kind(cls, *kinds):
    return [fd for fd in CLASSES[cls]["fields"] if fd["kind"] in kinds]


def rand_history(ctx, rnd, roots, n_steps):
    h = History(rnd)
    g = gen.Gen(rnd, fill=0.3, depth=1)
    for i, cls in enumerate(roots):
        h.make(f"t{i}", full_value(cls, rnd, depth=rnd.choice([0, 1, 2])))
    h.lnew("L")
    looks = []
    undo = []
    k = 0

    def cls_of(n):
        return h.last["heap"][n]["cls"]

    def pick(pred=lambda n: True):
        q = [n for n in h.objs if pred(n)]
        return rnd.choice(q) if q else None

    for _ in range(n_steps):
        r = rnd.random()
        if r < 0.45 or not h.objs:
            if looks and rnd.random() < 0.5:
                n, w = rnd.choice(looks)
            else:
                n, w = pick(), rnd.choice(sorted(LOOKS))
                looks.append((n, w))
            h.look(n, w, LOOKS[w])
        elif r < 0.60:
            if undo and rnd.random() < 0.5:
                n, a, old = undo.pop()
                h.set(n, a, old)
                continue
            n = pick(lambda n: settable(cls_of(n)))
            if not n:
                continue
            fd = rnd.choice(settable(cls_of(n)))
            undo.append((n, fd["attr"], h.last["heap"][n]["s"].get(fd["attr"])))
            if fd["kind"] == "coordinates":
                h.set(n, fd["attr"], gen.pick_coords(rnd, 1, 4))
            else:
                h.set(n, fd["attr"], None if rnd.random() < 0.2 else g.scalar(fd))
        elif r < 0.68:
            n = pick(lambda n: with_kind(cls_of(n), "xml"))
            if not n:
                continue
            fd = rnd.choice(with_kind(cls_of(n), "xml"))
            part = pick(lambda m: cls_of(m) in fd["types"] and n not in h.reach(m)) if rnd.random() < 0.8 else ""
            if part is not None:
                h.setp(n, fd["attr"], part)
        elif r < 0.80:
            n = pick(lambda n: with_kind(cls_of(n), "xmls"))
            if not n:
                continue
            fd = rnd.choice(with_kind(cls_of(n), "xmls"))
            q = rnd.random()
            if q < 0.6:
                part = pick(lambda m: cls_of(m) in fd["types"] and n not in h.reach(m))
                if part:
                    h.append(n, fd["attr"], part)
            elif q < 0.8 and h.last["heap"][n]["l"].get(fd["attr"]):
                h.pop(n, fd["attr"])
            else:
                m = pick(lambda m: cls_of(m) in fd["types"] and n not in h.reach(m))
                h.setl(n, fd["attr"], {"from": "literal", "q": [m] if m else []})
        elif r < 0.90:
            # something new that shares parts with what there is
            k += 1
            cls = cls_of(pick(lambda n: True))
            if cls == "Track":
                continue
            s = {}
            for fd in settable(cls):
                if rnd.random() < 0.3 and fd["kind"] != "coordinates":
                    s[fd["attr"]] = g.scalar(fd)
            if cls == "Schema":
                s["id"] = "sch"
            p, ll = {}, {}
            for fd in with_kind(cls, "xml"):
                m = pick(lambda m: cls_of(m) in fd["types"]) if rnd.random() < 0.6 else None
                if m:
                    p[fd["attr"]] = m
            for fd in with_kind(cls, "xmls"):
                donor = pick(lambda m: cls_of(m) == cls)
                if rnd.random() < 0.5 and cls not in ("ExtendedData", "MultiTrack"):
                    ll[fd["attr"]] = {"from": "of", "n": donor, "k": fd["attr"]}
            h.new(f"n{k}", cls, s, p, ll)
            if not h.steps[-1]["ok"]:
                break
        elif r < 0.95:
            k += 1
            n = pick()
            h.copy(f"k{k}", n)
            if not h.steps[-1]["ok"]:
                break
        elif r < 0.98:
            h.make(f"x{k}", full_value(rnd.choice(roots), rnd, depth=0)) if f"x{k}" not in h.objs else None
        else:
            h.use(rnd.choice(["lxml", "stdlib"]))
    h.event(ctx, impl=h.impl, roots=roots)
    return h


def defaults():
    """What objects made later depend on."""
    from fastkml import config, registry

    reg = {}
    for name, cls in PYCLASS.items():
        reg[name] = [(i.attr_name, i.node_name, tuple(i.ns_ids), tuple(c.__name__ for c in i.classes), repr(i.default))
                     for i in registry.registry.get(cls)]
    probes = {}
    for name, cls in PYCLASS.items():
        st, o = fk.call(cls, **({"id": "x"} if name == "Schema" else {}))
        probes[name] = [st, repr(o), fk.project(o) if st == "ok" else "", sorted(getattr(o, "name_spaces", {}).items())]
    return {"name_spaces": sorted(config.NAME_SPACES.items()), "registry": digest(reg),
            "probes": {k: digest(v) for k, v in probes.items()}}


WAYS_TO_LOOK = [
    ("write", lambda o: o.to_string()), ("str", str), ("repr", repr), ("element", lambda o: o.etree_element()),
    ("terse", lambda o: o.to_string(verbosity=fk.Verbosity.terse, precision=2)), ("verbose", lambda o: o.to_string(verbosity=fk.Verbosity.verbose)),
    ("find", lambda o: list(fk.fastkml.utils.find_all(o, of_type=type(o)))), ("find none", lambda o: fk.fastkml.utils.find(o, of_type=str)),
    ("compare", lambda o: o == o), ("truth", bool), ("geometry", lambda o: o.geometry), ("validate", lambda o: o.validate()),
    ("attributes", lambda o: [getattr(o, n, None) for n in dir(o)]), ("style", lambda o: o.get_style_by_url("#a")),
]


@driver("C11")
def c11(ctx):
    rnd = ctx.rnd
    fk.use("lxml")
    at_start = defaults()
    run = ctx.model("KmlHeapModel", cfg="KmlHeapModel1" if ctx.quick else "KmlHeapModel2", env={"EMIT": "1"}, workers=1)
    behs = [fix(json.loads(b)) for b in run.prints("BEH ")]
    # of these, the ones about sharing and looking
    behs = [b for b in behs if any(a["a"] == "new" and a["l"]["items"]["from"] != "literal" for a in b)
            or b[-1]["a"] in ("look", "copy")]
    ctx.notes["transitions_of_the_model"] = len(behs)
    n_replayed = 0

    def one(cls, attr, beh):
        nonlocal n_replayed
        replay(ctx, cls, attr, beh)
        n_replayed += 1

    for cls, attr in COLLECTIONS:
        for beh in rnd.sample(behs, min(len(behs), ctx.n(45, 2500))):
            if suits(cls, attr, beh):
                ctx.guard(one, cls, attr, beh)
    ctx.notes["behaviours_replayed"] = n_replayed

    names = list(CLASSES)
    big = ["KML", "Document", "Folder", "Placemark", "NetworkLink", "GroundOverlay", "PhotoOverlay", "ScreenOverlay"]

    def free():
        roots = [rnd.choice(big if rnd.random() < 0.6 else names) for _ in range(rnd.choice([1, 2, 2, 3]))]
        if rnd.random() < 0.5:
            roots.append(roots[0])
        h = rand_history(ctx, rnd, roots, ctx.n(22, 40))
        # no answer is stale: the document says what the object is now
        n = rnd.choice(list(h.objs))
        o = h.objs[n]
        if not (fk.NAME_OF[type(o)] == "Schema" and not o.id):
            written(ctx, h, n)

    for _ in range(ctx.n(700, 10000)):
        ctx.guard(free)

    # arguments
    def arguments(cls):
        impl = pick_impl(rnd)
        a = full_value(cls, rnd)
        given = {"my": "{urn:my}"} if rnd.random() < 0.5 else {"gx": fk.STD_NS["gx"], "my": "{urn:my}"}
        args = dict(given)
        kw = fk.kwargs_of(a, rnd=rnd)
        lists = {k: v for k, v in kw.items() if isinstance(v, list)}
        before = {k: list(v) for k, v in lists.items()}
        o = PYCLASS[cls](**kw, name_spaces=args)
        same = all(len(lists[k]) == len(before[k]) and all(x is y for x, y in zip(lists[k], before[k])) for k in lists)
        ctx.event("same", what=f"arguments of {cls}", a=[given, True], b=[args, same], info=impl)
        s = o.to_string()
        ctx.event("same", what="namespaces given, after writing", a=given, b=args)
        o2 = PYCLASS[cls].from_string(s, name_spaces=args, strict=rnd.random() < 0.5)
        ctx.event("same", what="namespaces given for reading", a=given, b=args, info=s[:1000])
        el = fk.config.etree.fromstring(s)
        was = json.dumps(fk.node(el))
        for strict in (True, False):
            PYCLASS[cls].class_from_element(ns=o.ns, name_spaces=args, element=el, strict=strict)
            ctx.event("same", what="element read", a=was, b=json.dumps(fk.node(el)), info=s[:1000])
            ctx.event("same", what="namespaces given for an element", a=given, b=args)
        # the mapping of an object is its own
        maps = []
        todo = [o, o2]
        while todo:
            x = todo.pop()
            maps.append(x.name_spaces)
            for fd in CLASSES[fk.NAME_OF[type(x)]]["fields"]:
                v = getattr(x, fd["attr"], None)
                if fd["kind"] == "xml" and v is not None:
                    todo.append(v)
                elif fd["kind"] == "xmls" and v:
                    todo += v
        maps += [args, fk.config.NAME_SPACES]
        ctx.event("same", what="number of separate namespace mappings", a=len(maps), b=len({id(m) for m in maps}))
        # two objects read from the same text do not hang together
        o3 = PYCLASS[cls].from_string(s)
        ids2, ids3 = parts(o2), parts(o3)
        ctx.event("same", what="parts shared by two objects read from one text", a=0, b=len(ids2 & ids3))

    def parts(o):
        out, todo = set(), [o]
        while todo:
            x = todo.pop()
            out.add(id(x))
            for fd in CLASSES[fk.NAME_OF[type(x)]]["fields"]:
                v = getattr(x, fd["attr"], None)
                if fd["kind"] == "xml" and v is not None:
                    todo.append(v)
                elif fd["kind"] == "xmls":
                    if isinstance(v, list):
                        out.add(id(v))
                    todo += v or []
                elif isinstance(v, list):
                    out.add(id(v))
        return out

    for _ in range(ctx.n(6, 60)):
        for cls in CLASSES:
            ctx.guard(arguments, cls)

    # looking at an object makes it no different from others
    def looks(cls):
        impl = pick_impl(rnd)
        a = full_value(cls, rnd)
        x, y = fk.build(a), fk.build(a)
        was = [x == y, y == x, x != y, repr(x)]
        done = []
        for _ in range(rnd.randint(1, 3)):
            what, do = rnd.choice(WAYS_TO_LOOK)
            st, r = fk.call(do, x)
            done.append(what + ("" if st == "ok" else " " + fk.exc_name(r)))
            ctx.event("same", what="object compared and printed after looking at it", a=was, b=[x == y, y == x, x != y, repr(x)],
                      info=[impl, done, a])

    for _ in range(ctx.n(6, 60)):
        for cls in CLASSES:
            ctx.guard(looks, cls)

    fk.use("lxml")
    at_end = defaults()
    for k in at_start:
        ctx.event("same", what=f"defaults ({k})", a=at_start[k], b=at_end[k])
