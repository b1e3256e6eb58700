"""Files (C17) and validation (C18)."""

import gzip
import hashlib
import io
import json
import os
import pathlib
import re
import subprocess
import sys
import tempfile
import zipfile

import core
import fk
import gen
from drivers import LEVELS, driver, fix, pick_impl, pick_prefixes, rand_obj
from fk import CLASSES, PYCLASS

HERE = os.path.dirname(os.path.abspath(__file__))
NARROW = pathlib.Path(HERE) / "narrow.xsd"
_ORACLE = []


def oracle(schema=None):
    """The schema as it was when this was written, without the code under test."""
    if not _ORACLE:
        for path in (os.path.join(HERE, "schema", "ogckml22.xsd"), str(NARROW)):
            _ORACLE.append(fk.lxml_etree.XMLSchema(fk.lxml_etree.parse(path)))
    return _ORACLE[1 if schema == "narrow" else 0]


def conforms(text, schema=None):
    data = text.encode("utf-8") if isinstance(text, str) else text
    return oracle(schema).validate(fk.lxml_etree.fromstring(data, parser=fk.lxml_etree.XMLParser(huge_tree=True)))


class Tidy(gen.Gen):
    """Objects whose documents conform to the schema more often than not."""

    count = 0
    TEXTS = {"email": "a@ex.org", "type": "text/html", "hreflang": "de-CH"}

    def scalar(self, fd):
        r, a, kind = self.r, fd["attr"], fd["kind"]
        if a == "id":
            Tidy.count += 1
            return f"i{Tidy.count}"
        if a == "target_id":
            return r.choice("ab")
        if a in ("color", "bg_color", "text_color"):
            return f"{r.getrandbits(32):08x}"
        if a in self.TEXTS:
            return self.TEXTS[a]
        if a in ("href", "url", "schema_url", "source_href", "target_href", "uri", "rel"):
            return r.choice(["http://ex.org/a?b=1&c=2#f", "#s", "a/b.png", "http://ex.org/\u00fc"])
        if kind in ("float", "fattr") and r.random() < 0.9:
            return r.choice(["0.0", "1.0", "0.5", "89.0", repr(round(r.uniform(0, 90), 6))])
        return super().scalar(fd)


def tidy(rnd, cls, **kw):
    fill = kw.pop("fill", None)
    return Tidy(rnd, fill=rnd.choice([0, 0.1, 0.3, 0.6]) if fill is None else fill, depth=kw.pop("depth", rnd.choice([0, 1, 2])), **kw).obj(cls)


def kml_of(*features):
    return {"cls": "KML", "ns": "kml", "f": {"features": list(features)}}


class Doc:
    """One of the documents of KmlFiles: an object, its document as text and what is read from it."""

    def __init__(self, o=None, text=None, lenient=None):
        self.o, self.text, self.lenient = o, text, lenient


def seen(text, strict=True, **kw):
    """What reading this text gives."""
    st, o = fk.call(fastkml_kml().from_string, text, strict=strict)
    return json.dumps(fk.project(o), sort_keys=True) if st == "ok" else fk.exc_name(o)


def short(s):
    """The text, or a digest of it that differs for texts that differ."""
    return s if len(s) < 30000 else f"{s[:200]}... {len(s)} {hashlib.sha256(s.encode('utf-8', 'backslashreplace')).hexdigest()}"


def fastkml_kml():
    return PYCLASS["KML"]


def lenient_foreign(rnd, text):
    """The document with an invalid value added, and without it."""
    bad = rnd.choice(['<visibility>maybe</visibility>', '<open>2 1</open>', '<altitude>x</altitude>'][:2])
    head, sep, tail = text.partition("Folder>") if "<Folder>" in text else ("", "", "")
    if not sep:
        return None
    return head + sep + bad + tail


DECLS = ["", "", '<?xml version="1.0" encoding="%s"?>', '<?xml version="1.0" encoding="%s"?>\n', "<?xml version='1.0' encoding='%s' standalone='yes'?>"]


def encoded(rnd, text):
    """The text as a file may hold it: bytes and the encoding to open it with."""
    enc = rnd.choice(["utf-8", "utf-8", "UTF-8", "utf-8-sig", "utf-16", "iso-8859-1", "us-ascii"])
    decl = rnd.choice(DECLS)
    if enc in ("iso-8859-1", "us-ascii", "utf-16") and not decl:
        decl = DECLS[2]
    name = "UTF-8" if enc == "utf-8-sig" else enc
    if decl:
        text = decl % name + text
    return text.encode(enc, "xmlcharrefreplace"), enc


def texts_of(rnd, path, enc):
    """A source for KML.parse of a file in this encoding; and what has to be closed."""
    r = rnd.randrange(13)
    data = pathlib.Path(path).read_bytes()
    if r == 0:
        return path, None
    if r == 1:
        return pathlib.Path(path), None
    if r == 2:
        fh = open(path, "rb")
    elif r == 3:
        fh = open(path, "rb", buffering=0)
    elif r == 4:
        fh = open(path, encoding=enc)
    elif r == 5:
        fh = open(path, encoding=enc, newline=rnd.choice(["", "\n"]))
    elif r == 6:
        fh = io.BytesIO(data)
    elif r == 7:
        fh = io.StringIO(data.decode(enc))
    elif r == 8:
        fh = tempfile.SpooledTemporaryFile(mode="w+b")
        fh.write(data)
        fh.seek(0)
    elif r == 9:
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr("doc.kml", data)
        fh = zipfile.ZipFile(buf).open("doc.kml")
    elif r == 10:
        fh = gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(data)))
    elif r == 11:
        fh = io.TextIOWrapper(io.BytesIO(data), encoding=enc)
    else:
        fh = io.BufferedReader(io.BytesIO(data), buffer_size=7)
    return fh, fh


def rel_source(rnd, path):
    """The same path, relative to the working directory."""
    return os.path.relpath(path, os.getcwd())


PLAIN = ["{0}.kml", "{0}.KML", "{0}", "{0}.xml", "{0} with space.kml", "{0}.kmz.kml", ".{0}", "{0}-\u00e4\u6f22.kml", "{0}.kml.bak", "kmz{0}", "{0}%20a&b.kml"]
ZIPS = ["{0}.kmz", "{0} a.kmz", "{0}.kml.kmz", "{0}-\u00e9.kmz", ".{0}.kmz"]


class Play:
    """One behaviour of KmlFilesModel in a directory of its own."""

    def __init__(self, ctx, docs, valid=False):
        self.ctx, self.rnd, self.valid = ctx, ctx.rnd, valid
        self.docs = docs
        self.dir = tempfile.mkdtemp(prefix="play", dir=ctx.scratch)
        self.names = {f: self.rnd.choice(PLAIN if f[0] == "f" else ZIPS).format(f) for f in ("f1", "f2", "z1")}
        self.enc = {}
        self.opts = {}
        self.content = {}       # what reading the content as text gives

    def path(self, f):
        return os.path.join(self.dir, self.names[f])

    def options(self):
        r = self.rnd
        kw = {}
        if r.random() < 0.4:
            kw["prettyprint"] = r.random() < 0.5
        if r.random() < 0.3:
            kw["verbosity"] = fk.Verbosity[r.choice(LEVELS)]
        if r.random() < 0.3:
            kw["precision"] = r.choice([0, 1, 3, 6])
        return kw

    def name_of(self, got, f):
        """Which document this is."""
        return self.content.get((f, got), got if len(got) < 40 else "another object")

    def do(self, act):
        r, a, f, d = self.rnd, act["a"], act["f"], act["d"]
        if a == "use":
            fk.use(d)
            return "ok"
        if a == "write":
            return self.write(f, d)
        if a == "foreign":
            text = self.docs[d].text
            data, self.enc[f] = encoded(r, text)
            pathlib.Path(self.path(f)).write_bytes(data)
            self.content = {k: v for k, v in self.content.items() if k[0] != f}
            self.content[f, seen(text, strict=False)] = "ic" if d == "ib" else d
            return "ok"
        if a == "remove":
            os.remove(self.path(f))
            return "ok"
        if a == "parse":
            kw = {}
            if act["val"] != "":
                kw["validate"] = act["val"] == "yes"
            if not act["strict"] or r.random() < 0.3:
                kw["strict"] = act["strict"]
            path = self.path(f)
            if os.path.exists(path):
                src, fh = texts_of(r, path, self.enc[f])
            else:
                src, fh = r.choice([path, pathlib.Path(path)]), None
            st, o = fk.call(PYCLASS["KML"].parse, src, **kw)
            if fh is not None:
                fh.close()
            if st == "ok":
                return self.name_of(json.dumps(fk.project(o), sort_keys=True), f)
            return "OSError" if isinstance(o, OSError) else fk.exc_name(o)
        if a == "unpack":
            with zipfile.ZipFile(self.path(f)) as z:
                infos = z.infolist()
                if [(i.filename, i.compress_type) for i in infos] != [("doc.kml", zipfile.ZIP_DEFLATED)]:
                    return repr([(i.filename, i.compress_type) for i in infos])
                return self.name_of(seen(z.read("doc.kml").decode("utf-8")), f)
        if a in ("check", "checkfile"):
            kw = {"schema": NARROW} if act["val"] == "narrow" else {}
            if a == "checkfile":
                p = self.path(f)
                st, v = fk.call(fk.fastkml.validator.validate, file_to_validate=r.choice([p, pathlib.Path(p)]), **kw)
            else:
                st, v = self.check(d, kw)
            return repr(v) if st == "ok" else fk.exc_name(v)
        if a in ("neither", "both"):
            kw = {"schema": NARROW} if r.random() < 0.2 else {}
            if a == "both":
                kw.update(element=self.docs["va"].o.etree_element(), file_to_validate=pathlib.Path(self.path("f1")))
            st, v = fk.call(fk.fastkml.validator.validate, **kw)
            return repr(v) if st == "ok" else fk.exc_name(v)
        raise AssertionError(a)

    def check(self, d, kw):
        """Validate a document that is not a file."""
        r, o = self.rnd, self.docs[d].o
        if r.random() < 0.4:
            # always the same object
            if not hasattr(self, "one"):
                self.one = PYCLASS["KML"]()
            self.one.features[:] = o.features
            o = self.one
        if kw or r.random() < 0.4:
            e = o.etree_element()
            if hasattr(e, "getroottree") and r.random() < 0.3:
                e = e.getroottree()
            return fk.call(fk.fastkml.validator.validate, element=e, **kw)
        return fk.call(o.validate)

    def write(self, f, d):
        r = self.rnd
        o, kw, path = self.docs[d].o, self.options(), self.path(f)
        if self.valid and not all(conforms(o.to_string(**kw), s) == conforms(self.docs[d].text, s) for s in (None, "narrow")):
            kw = {}
        target = r.choice([path, pathlib.Path(path)])
        if r.random() < 0.15:
            target = rel_source(r, path)
        o.write(target, **kw)
        text = o.to_string(**kw)
        if f[0] == "f":
            data = pathlib.Path(path).read_bytes()
        else:
            with zipfile.ZipFile(path) as z:
                data = z.read(z.namelist()[0]) if z.namelist() else b""
        try:
            got = data.decode("utf-8")
        except UnicodeDecodeError as exc:
            got = f"not UTF-8: {exc}"
        self.ctx.event("same", what=f"content of the file {self.names[f]}", a=text, b=got, info=repr(kw))
        self.enc[f] = "utf-8"
        self.content = {k: v for k, v in self.content.items() if k[0] != f}
        self.content[f, seen(text)] = d
        return "ok"

    def run(self, beh):
        fk.use("lxml")
        h = []
        for act in beh:
            st, got = fk.call(self.do, act)
            if st != "ok":
                got = f"{type(got).__name__}: {got}"[:300]
            there = [f for f in self.names if os.path.exists(self.path(f))]
            extra = sorted(set(os.listdir(self.dir)) - {self.names[f] for f in there})
            h.append({**{k: v for k, v in act.items() if k != "got"}, "got": got, "there": there + extra})
        self.ctx.event("files", h=h, info={"names": self.names, "docs": {k: d.text[:1500] for k, d in self.docs.items()}})


def behaviours(ctx, which):
    cfg = f"KmlFilesModel{1 if ctx.quick else 2}{which}"
    run = ctx.model("KmlFilesModel", cfg=cfg, env={"EMIT": "1"}, workers=1)
    behs = [fix(json.loads(b)) for b in run.prints("BEH ")]
    ctx.notes["transitions_of_the_model"] = len(behs)
    return behs


def distinct_docs(rnd, *makes):
    """Documents that can be told from each other, also when numbers are rounded."""
    while True:
        docs = [m() for m in makes]
        if len({json.dumps(d, sort_keys=True) for d in docs}) == len(docs):
            return docs


def named(a, name):
    a["f"]["name"] = name
    return a


SPECIAL = ["\u00fc\u00df\u6f22", "a", "\U0001f30d & <x>", "\u00e9\r\nx", "nel\x85\u2028", "\u0416"]


def docs_for(rnd, valid):
    """Documents va, vb, ia and ib; valid: they conform as they should."""
    for _ in range(1000):
        size = rnd.choice([0, 1, 2])
        make = (lambda c, n: named(tidy(rnd, c, depth=size), n)) if valid else (lambda c, n: named(rand_obj(rnd, c, depth=size), n))
        w = rnd.choice(SPECIAL)
        va = kml_of(make("Folder", w + "A"))
        vb = kml_of(make("Document", w + "B"))
        bad = make("Folder", w + "I")
        if valid:
            where = rnd.choice(["id", "label", "email", "twice"])
            if where == "id":
                bad["f"]["id"] = "not an id"
            elif where == "label":
                style = {"cls": "LabelStyle", "ns": "kml", "f": {"color": "red"}}
                bad["f"]["styles"] = [{"cls": "Style", "ns": "kml", "f": {"styles": [style]}}]
            elif where == "email":
                bad["f"]["atom_author"] = {"cls": "Author", "ns": "atom", "f": {"name": "x", "email": "nobody"}}
            else:
                pm = {"cls": "Placemark", "ns": "kml", "f": {"id": "same"}}
                bad["f"]["features"] = [pm, pm]
        ia = kml_of(bad)
        res = {}
        for k, a in (("va", va), ("vb", vb), ("ia", ia)):
            o = fk.build(a)
            res[k] = Doc(o, o.to_string())
        text = lenient_foreign(rnd, res["va"].text.replace("A<", "C<")) or (
            f'<kml xmlns="http://www.opengis.net/kml/2.2"><Folder><name>{w.replace("&", "&amp;").replace("<", "&lt;")}C</name>'
            "<visibility>maybe</visibility></Folder></kml>")
        res["ib"] = Doc(None, text)
        if not valid:
            return res
        ok = {k: (conforms(d.text), conforms(d.text, "narrow")) for k, d in res.items()}
        if ok == {"va": (True, True), "vb": (True, False), "ia": (False, True), "ib": (False, True)}:
            return res
    raise core.Broken("no documents")


ALIEN = r"""
import sys, os, json
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import locale, fastkml, pathlib
from fastkml import KML, config
jobs = json.load(open(sys.argv[2], encoding="ascii"))
if sys.argv[3] == "stdlib":
    import xml.etree.ElementTree as E
    config.set_etree_implementation(E)
    config.set_default_namespaces()
out = []
for j in jobs:
    try:
        if j["a"] == "write":
            KML.from_string(j["text"]).write(j["path"] if j["str"] else pathlib.Path(j["path"]))
            out.append("ok")
        else:
            out.append(KML.parse(j["path"], validate=False).to_string(prettyprint=False))
    except Exception as exc:
        out.append(type(exc).__name__ + ": " + ascii(exc))
json.dump({"out": out, "enc": locale.getpreferredencoding(False)}, open(sys.argv[2], "w", encoding="ascii"))
"""


@driver("C17")
def c17(ctx):
    rnd = ctx.rnd
    behs = behaviours(ctx, "")
    longest = max(len(b) for b in behs)
    full = [b for b in behs if len(b) == longest]

    def replay(beh):
        Play(ctx, docs_for(rnd, valid=False)).run(beh)

    for beh in rnd.sample(full, min(len(full), ctx.n(700, 12000))):
        ctx.guard(replay, beh)
    for beh in rnd.sample(behs, min(len(behs), ctx.n(300, 4000))):
        ctx.guard(replay, beh)

    # -- one object, every way to write and to read it
    def all_ways(a):
        impl = pick_impl(rnd)
        o = fk.build(a)
        d = tempfile.mkdtemp(prefix="ways", dir=ctx.scratch)
        for z in (False, True):
            kw = {"prettyprint": rnd.random() < 0.5, "verbosity": fk.Verbosity[rnd.choice(LEVELS)],
                  "precision": rnd.choice([None, 0, 2, 7])}
            path = os.path.join(d, rnd.choice(ZIPS if z else PLAIN).format("w"))
            if rnd.random() < 0.5:   # something longer was there before
                pathlib.Path(path).write_bytes(rnd.choice([b"x" * 100000, b"", b"PK\x05\x06" + b"\0" * 18]))
            o.write(path, **kw)
            data = pathlib.Path(path).read_bytes()
            if z:
                with zipfile.ZipFile(io.BytesIO(data)) as zf:
                    ctx.event("same", what="entries of the archive", a=["doc.kml deflated"],
                              b=[i.filename + (" deflated" if i.compress_type == zipfile.ZIP_DEFLATED else " stored") for i in zf.infolist()])
                    data = zf.read("doc.kml")
            text = o.to_string(**kw)
            ctx.event("same", what="content of the file", a=short(text), b=short(data.decode("utf-8", "backslashreplace")), info=impl)
        for _ in range(4):
            impl = pick_impl(rnd)
            text = o.to_string()
            raw, enc = encoded(rnd, text)
            path = os.path.join(d, "r.kml")
            pathlib.Path(path).write_bytes(raw)
            src, fh = texts_of(rnd, path, enc)
            strict = rnd.random() < 0.5
            st, b = fk.call(PYCLASS["KML"].parse, src, strict=strict, validate=False)
            ctx.event("same", what=f"reading a {type(src).__name__} in {enc} under {impl}", a=short(seen(text)),
                      b=short(json.dumps(fk.project(b), sort_keys=True)) if st == "ok" else fk.exc_name(b), info=repr(raw)[:3000])
            if fh is not None:
                fh.close()

    for _ in range(ctx.n(150, 2500)):
        a = rand_obj(rnd, "KML", depth=rnd.choice([1, 2, 3]))
        ctx.guard(all_ways, a)
    # files of more than a few buffers
    for _ in range(ctx.n(8, 80)):
        a = rand_obj(rnd, "KML", depth=1)
        chars = rnd.choice(["x", "xy\u00e4\u6f22", "\U0001f30d&", "line\n"])
        n = rnd.choice([4096, 8192, 65536, 70000, 140000, 300000]) // len(chars) + rnd.randint(-2, 2)
        big = {"cls": "Placemark", "ns": "kml", "f": {"description": "a" * rnd.randint(0, 3) + chars * n + "z"}}
        a["f"].setdefault("features", []).insert(0, big)
        ctx.guard(all_ways, a)

    # -- another platform encoding
    def elsewhere(impl):
        fk.use("lxml")
        d = tempfile.mkdtemp(prefix="else", dir=ctx.scratch)
        jobs, texts = [], []
        for i in range(ctx.n(12, 60)):
            o = fk.build(kml_of(named(rand_obj(rnd, "Placemark", depth=1), rnd.choice(SPECIAL) + "\u20ac\u0416")))
            text = o.to_string(prettyprint=False)
            path = os.path.join(d, f"e{i}" + rnd.choice([".kml", ".kml", ".kmz"]))
            jobs.append({"a": "write", "text": text, "path": path, "str": rnd.random() < 0.5})
            raw, _ = encoded(rnd, text)
            other = os.path.join(d, f"p{i}.kml")
            pathlib.Path(other).write_bytes(raw)
            jobs.append({"a": "parse", "path": other})
            texts += [text, text]
        jf = os.path.join(d, "jobs.json")
        with open(jf, "w", encoding="ascii") as fh:
            json.dump(jobs, fh)
        script = os.path.join(d, "alien.py")
        with open(script, "w") as fh:
            fh.write(ALIEN)
        env = {**os.environ, "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LC_ALL": "C", "LANG": "C", "PYTHONIOENCODING": "ascii"}
        p = subprocess.run([sys.executable, script, fk.REPO, jf, impl], env=env, capture_output=True, timeout=300)
        if p.returncode:
            ctx.violation("program on another platform ended badly", {"stderr": p.stderr.decode("utf-8", "replace")[-2000:]})
            return
        with open(jf, encoding="ascii") as fh:
            res = json.load(fh)
        if "utf" in res["enc"].lower():
            raise core.Broken(f"no other encoding: {res['enc']}")
        for j, out, text in zip(jobs, res["out"], texts):
            want = fk.parse_xml(text)
            if j["a"] == "parse":
                if not out.startswith("<"):
                    ctx.event("same", what="reading with another platform encoding", a="an object", b=out, info=j)
                else:
                    ctx.event("samedoc", what="file and what was read from it", a=want, b=fk.parse_xml(out), info=j)
                continue
            ctx.event("same", what="writing with another platform encoding", a="ok", b=out, info=j)
            if out != "ok":
                continue
            data = pathlib.Path(j["path"]).read_bytes()
            if j["path"].endswith(".kmz"):
                with zipfile.ZipFile(io.BytesIO(data)) as zf:
                    data = zf.read("doc.kml")
            try:
                got = data.decode("utf-8")
            except UnicodeDecodeError as exc:
                ctx.event("same", what="encoding of a file written with another platform encoding", a="UTF-8", b=str(exc), info=j)
                continue
            ctx.event("samedoc", what="file written and its object", a=want, b=fk.parse_xml(got), info=j)

    for impl in ("lxml", "stdlib"):
        ctx.guard(elsewhere, impl)
    fk.use("lxml")


@driver("C18")
def c18(ctx):
    gen.REPEAT = 0.0   # ids are unique
    rnd = ctx.rnd
    validate = fk.fastkml.validator.validate
    behs = behaviours(ctx, "b")
    longest = max(len(b) for b in behs)
    full = [b for b in behs if len(b) == longest]
    pool = [docs_for(rnd, valid=True) for _ in range(ctx.n(25, 120))]
    verdicts = {True: 0, False: 0}

    def replay(beh):
        Play(ctx, rnd.choice(pool), valid=True).run(beh)

    for beh in rnd.sample(full, min(len(full), ctx.n(1000, 15000))):
        ctx.guard(replay, beh)
    for beh in rnd.sample(behs, min(len(behs), ctx.n(300, 4000))):
        ctx.guard(replay, beh)

    def verdict(got, text, impl, how, schema=None):
        st, v = got
        valid = conforms(text, schema)
        verdicts[valid] += 1
        ctx.event("verdict", valid=valid, impl=impl, got=repr(v) if st == "ok" else fk.exc_name(v),
                  info={"how": how, "xml": text[:3000] if isinstance(text, str) else repr(text)[:3000]})

    # -- objects of all kinds
    def objects(cls):
        impl = pick_impl(rnd)
        a = tidy(rnd, cls) if rnd.random() < 0.8 else rand_obj(rnd, cls, full=rnd.random() < 0.5)
        if rnd.random() < 0.05:
            a = {"cls": cls, "ns": CLASSES[cls]["nsid"], "f": {"id": "x"} if cls == "Schema" else {}}
        o = fk.build(a)
        text = o.to_string()
        how = rnd.randrange(5)
        if how == 0:
            got = fk.call(validate, element=o.etree_element())
        elif how == 4:
            # a part of a bigger tree, whatever that is
            others = [fk.build(tidy(rnd, "Placemark")).etree_element() for _ in range(rnd.choice([0, 1, 2]))]
            tree = fk.config.etree.Element(rnd.choice(["wrap", fk.STD_NS["kml"] + "kml", fk.STD_NS["kml"] + "Folder"]))
            tree.extend(others)
            tree.insert(rnd.randint(0, len(others)), o.etree_element())
            tree[0].tail = rnd.choice([None, "\n", "x"])
            part = next(c for c in tree if c not in others)
            got = fk.call(validate, element=part)
        elif how == 1:
            path = os.path.join(ctx.scratch, f"v{rnd.randrange(3)}.kml")
            raw, _ = encoded(rnd, text)
            pathlib.Path(path).write_bytes(raw)
            got = fk.call(validate, file_to_validate=rnd.choice([path, pathlib.Path(path)]))
        else:
            got = fk.call(o.validate)
        ids = re.findall(r'\bid="([^"]*)"', text)
        if how == 4 and len(ids) != len(set(ids)):
            return      # whether ids are unique is something libxml2 decides by document
        verdict(got, text, impl, ["element", "file", "object", "object", "part of a tree"][how])

    # -- documents read under all combinations of strict and validate
    def documents():
        impl = pick_impl(rnd)
        if rnd.random() < 0.5:
            text = fk.build(kml_of(tidy(rnd, rnd.choice(["Folder", "Document", "Placemark", "GroundOverlay"])))).to_string()
        else:
            g = gen.DocGen(rnd, fill=rnd.choice([0.05, 0.2]), depth=rnd.choice([0, 1, 2]), noise=rnd.choice([0.0, 0.1]),
                           shuffle=rnd.random() < 0.5, bad=rnd.choice([0.0, 0.2]), pad=0.1)
            n = g.node("KML")
            text = fk.xml_of(n, prefixes=pick_prefixes(rnd, n))
        strict, val = rnd.random() < 0.6, rnd.choice(["", "", "yes", "no"])
        kw = {} if val == "" else {"validate": val == "yes"}
        if not strict or rnd.random() < 0.5:
            kw["strict"] = strict
        if val == "" and rnd.random() < 0.3:
            kw["validate"] = None
        raw, enc = encoded(rnd, text)
        path = os.path.join(ctx.scratch, "g.kml")
        pathlib.Path(path).write_bytes(raw)
        src, fh = texts_of(rnd, path, enc)
        st, o = fk.call(PYCLASS["KML"].parse, src, **kw)
        if fh is not None:
            fh.close()
        got = json.dumps(fk.project(o), sort_keys=True) if st == "ok" else fk.exc_name(o)
        valid = conforms(raw)
        verdicts[valid] += 1
        ctx.event("gate", valid=valid, impl=impl, strict=strict, val=val, got=got, plain=seen(text, strict),
                  info={"xml": text[:3000], "args": repr(kw)})
        if rnd.random() < 0.3:
            verdict(fk.call(validate, file_to_validate=path), raw, impl, "file")
        if rnd.random() < 0.3:
            verdict(fk.call(validate, file_to_validate=path, schema=NARROW), raw, impl, "file, other schema", "narrow")

    for _ in range(ctx.n(14, 250)):
        for cls in CLASSES:
            ctx.guard(objects, cls)
    for _ in range(ctx.n(800, 15000)):
        ctx.guard(documents)
    ctx.notes["conforming_documents"], ctx.notes["other_documents"] = verdicts[True], verdicts[False]
    fk.use("lxml")
