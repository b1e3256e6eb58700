"""Two XML libraries (C07)."""

import json

import fk
import gen
from d_names import homeless
from drivers import LEVELS, any_opts, driver, fix, outcome, pick_prefixes, rand_obj
from fk import CLASSES, PYCLASS

LIBS = ("lxml", "stdlib")
HEAD = '<kml:Placemark xmlns:kml="http://www.opengis.net/kml/2.2">'
DOCS = {
    "good": HEAD + "<kml:name>r</kml:name></kml:Placemark>",
    "wrong": HEAD + "<kml:name>r</kml:name><kml:visibility>maybe</kml:visibility></kml:Placemark>",
    "broken": HEAD + "<kml:name>r</kml:Placemark>",
}


def tree(s):
    return fk.lxml_etree.fromstring(s.encode("utf-8"))


def damage(rnd, s):
    """Text that is no XML document."""
    r = rnd.randrange(9)
    if r == 0:
        return s[: rnd.randrange(1, len(s) - 1)]
    if r == 1:
        return s + "<x/>"
    if r == 2:
        i = s.index(">")
        return s[: i + 1] + "&nope;" + s[i + 1:]
    if r == 3:
        i = s.index(">")
        return s[: i + 1] + "\x0b" + s[i + 1:]
    if r == 4:
        i = s.index(" ")
        return s[:i] + ' id="1" id="2"' + s[i:]
    if r == 5:
        return s.replace(">", "><u:x/>", 1)
    if r == 6:
        return "text " + s
    if r == 7:
        return rnd.choice(["", " ", "\n", "nothing", "<", "<a", "<!-- c -->"])
    i = s.index(">")
    return s[: i + 1] + "a < b" + s[i + 1:]


def dress(rnd, s):
    """The same document in other words."""
    r = rnd.random()
    if r < 0.25:
        s = rnd.choice(["", "\ufeff"]) + '<?xml version="1.0" encoding="%s"?>\n' % rnd.choice(["UTF-8", "utf-8", "ISO-8859-1", "US-ASCII"]) + s
    elif r < 0.4:
        s = '<?xml version="1.0" standalone="yes"?>' + s
    elif r < 0.5:
        s = "<!-- head --><?pi x?>\n" + s + "\n<!-- tail -->"
    elif r < 0.6:
        s = s.encode("utf-8")
    elif r < 0.7:
        s = ('<?xml version="1.0" encoding="UTF-16"?>' + s).encode("utf-16")
    elif r < 0.75:
        s = '<!DOCTYPE x [<!ENTITY unused "u">]>' + s
    return s


@driver("C07")
def c07(ctx):
    gen.LENGTHY = 0.3
    gen.AGAIN = 0.15
    fk.SHARING = 0.3
    rnd = ctx.rnd
    run = ctx.model("KmlLibs", cfg="KmlLibs1" if ctx.quick else "KmlLibs2", env={"EMIT": "1"}, workers=1)
    behs = [fix(json.loads(b)) for b in run.prints("BEH ")]
    ctx.notes["transitions_of_the_model"] = len(behs)

    def write_event(o, lib, v="normal", p=-1, pretty=False):
        a = fk.project(o)
        kw = {"verbosity": fk.Verbosity[v]}
        if p >= 0:
            kw["precision"] = p
        s = o.to_string(prettyprint=pretty, **kw)
        e = fk.parse_xml(s)
        ctx.event("write", o=a, v=v, p=p, e=e, tab=fk.tables([e], fk.num_tokens(a) if p >= 0 else ()),
                  info={"impl": lib, "xml": s[:3000]})
        t = fk.node(o.etree_element(**kw))
        ctx.event("samedoc", a=e, b=t, what="etree_element and to_string", info=lib)
        return e

    # -- histories of the model
    def replay(beh):
        lib = "lxml"
        fk.config.set_etree_implementation(fk.IMPLS[lib])
        pool = []
        for act in beh:
            k = act["a"]
            if k == "use":
                lib = act["l"]
                fk.config.set_etree_implementation(fk.IMPLS[lib])
                if rnd.random() < 0.5:
                    fk.config.set_default_namespaces()
            elif k == "make":
                pool.append(fk.build(act["o"]))
                ctx.event("same", what="object made", a=act["o"], b=fk.project(pool[-1]), info=beh)
            elif k == "read":
                st, o = fk.call(PYCLASS["Placemark"].from_string, DOCS[act["d"]], strict=act["strict"])
                if act["d"] == "broken":
                    ctx.event("same", what="acceptance of text that is not XML", a=False, b=st == "ok", info=beh)
                else:
                    e = fk.parse_xml(DOCS[act["d"]])
                    ctx.event("read", cls="Placemark", e=e, ns="kml", strict=act["strict"], tab=fk.tables([e]),
                              r=outcome(st, o), info=beh)
                if st == "ok":
                    pool.append(o)
            elif k == "reread":
                o = pool[act["i"] - 1]
                st, c = fk.call(type(o).from_string, o.to_string())
                ctx.event("trip", o=fk.project(o), v="normal", r=outcome(st, c), info=beh)
                if st != "ok":
                    return
                pool.append(c)
            elif k == "write":
                write_event(pool[act["i"] - 1], lib)
            elif k == "validate":
                st, v = fk.call(pool[act["i"] - 1].validate)
                ctx.event("same", what="validity", a=repr(["ok", lib == "lxml" or None]),
                          b=repr([st, v if st == "ok" else fk.exc_name(v)]),
                          info=beh)
            elif k == "put":
                pool[act["i"] - 1].append(pool[act["j"] - 1])
            elif k == "name":
                pool[act["i"] - 1].name = "changed"

    for beh in rnd.sample(behs, min(len(behs), ctx.n(700, 12000))):
        ctx.guard(replay, beh)

    # -- one object, written under both
    def both_write(cls, depth=None):
        full = rnd.random() < 0.7
        a = rand_obj(rnd, cls, full=full, depth=depth)
        fk.use(rnd.choice(LIBS))
        o = fk.build(a, rnd=rnd)
        v, p, pretty = rnd.choice(LEVELS), rnd.choice([-1, -1, 0, 3]), rnd.random() < 0.5
        es = []
        for lib in rnd.sample(LIBS, 2):
            fk.use(lib)
            es.append(write_event(o, lib, v, p, pretty))
        ctx.event("samedoc", a=es[0], b=es[1], what="documents written under lxml and ElementTree", info=a)

    # -- one document, read under both
    def both_read(cls, depth=None):
        bad = rnd.choice([0.0, 0.0, 0.02, 0.1, 0.3])
        g = gen.DocGen(rnd, fill=rnd.choice([0.15, 0.4, 0.8]), depth=rnd.choice([0, 1, 2]) if depth is None else depth,
                       noise=rnd.choice([0.0, 0.2, 0.5]), shuffle=rnd.random() < 0.7, bad=bad, lenient=rnd.random() < 0.3)
        n = g.node(cls)
        strict = rnd.random() < 0.6
        mixed = rnd.random() < 0.2      # texts with elements inside: whatever they mean, it is the same under both
        text = fk.xml_of(n, prefixes=pick_prefixes(rnd, n), rnd=rnd, opts=any_opts(rnd) + ["mixed"] * mixed)
        rs = []
        form = dress(rnd, text) if not text.startswith("<!") else text
        for lib in rnd.sample(LIBS, 2):
            fk.use(lib)
            st, o = fk.call(PYCLASS[cls].from_string, form, strict=strict)
            rs.append((st, o, outcome(st, o)))
            if not mixed:
                ctx.event("read", cls=cls, e=n, ns=n["n"].split(":")[0] if ":" in n["n"] else "", strict=strict,
                      tab=fk.tables([n]), r=rs[-1][2], info={"impl": lib, "xml": repr(form)[:4000]})
        ctx.event("same", what="object read under lxml and ElementTree", a=rs[0][2], b=rs[1][2], info=repr(form)[:3000])
        # what was read under one is written under the other
        if rs[0][0] == "ok" and rnd.random() < 0.5 and not (cls == "Schema" and not rs[0][1].id):
            o = rs[0][1]
            fk.use(rnd.choice(LIBS))
            if not (cls == "KML" and homeless(fk.project(o))):
                # (parts without namespace under a root with one: up to the XML library)
                write_event(o, "other")
            ctx.event("same", what="equality of objects read under lxml and ElementTree", a=[True, False],
                      b=[o == rs[1][1], o != rs[1][1]], info=repr(form)[:3000])

    # -- text that is no document
    def both_refuse(cls):
        fk.use("lxml")
        s = damage(rnd, fk.build(rand_obj(rnd, cls)).to_string())
        rs = []
        for lib in LIBS:
            fk.use(lib)
            rs.append(fk.call(PYCLASS[cls].from_string, s, strict=rnd.random() < 0.5)[0])
        ctx.event("same", what="refusal of text that is not XML", a=["exc", "exc"], b=rs, info=repr(s)[:3000])

    for _ in range(ctx.n(6, 80)):
        for cls in CLASSES:
            ctx.guard(both_write, cls)
            ctx.guard(both_read, cls)
            if rnd.random() < 0.4:
                ctx.guard(both_refuse, cls)
    for _ in range(ctx.n(60, 800)):
        cls = rnd.choice(["KML", "Document", "Folder", "Placemark"])
        ctx.guard(both_write, cls, 3)
        ctx.guard(both_read, cls, 3)
    fk.use("lxml")
