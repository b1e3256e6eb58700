"""Adapter between the specification's values and the real fastkml.

Everything here is projection: real object -> abstract object, element tree ->
abstract node, abstract object -> real object.  No rule about what fastkml should do
lives here; those are in /verif/spec.
"""

import datetime as dtm
import importlib
import json
import logging
import os
import re
import signal
import sys
import xml.etree.ElementTree as stdlib_etree
from decimal import Decimal
from enum import Enum

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

logging.disable(logging.CRITICAL)

try:
    import lxml.etree as lxml_etree  # noqa: E402
except ImportError:      # a process that has to do without (C22)
    lxml_etree = None

import fastkml  # noqa: E402
from fastkml import config  # noqa: E402

assert os.path.realpath(fastkml.__file__).startswith(os.path.realpath(REPO)), fastkml.__file__

with open(os.path.join(VERIF, "spec", "gen", "schema.json")) as fh:
    _S = json.load(fh)
CLASSES = _S["classes"]
ENUMS = _S["enums"]

_MODULES = {
    "atom": "Author Contributor",
    "data": "SimpleField Schema Data SimpleData SchemaData ExtendedData",
    "geometry": "Coordinates Point LineString LinearRing OuterBoundaryIs InnerBoundaryIs Polygon MultiGeometry",
    "times": "TimeStamp TimeSpan",
    "gx": "Track MultiTrack",
    "links": "Link Icon",
    "model": "Location Orientation Scale Alias ResourceMap Model",
    "styles": "StyleUrl HotSpot IconStyle LabelStyle LineStyle PolyStyle BalloonStyle Style Pair StyleMap",
    "views": "Camera LookAt LatLonAltBox Lod Region",
    "features": "Snippet Placemark NetworkLink",
    "overlays": "ViewVolume ImagePyramid PhotoOverlay LatLonBox GroundOverlay OverlayXY ScreenXY RotationXY Size ScreenOverlay",
    "containers": "Folder Document",
    "network_link_control": "NetworkLinkControl",
    "kml": "KML",
}
PYCLASS = {}
for _m, _names in _MODULES.items():
    _mod = importlib.import_module("fastkml." + _m)
    for _n in _names.split():
        PYCLASS[_n] = getattr(_mod, _n)
PYCLASS["AtomLink"] = importlib.import_module("fastkml.atom").Link
NAME_OF = {v: k for k, v in PYCLASS.items()}
assert set(PYCLASS) == set(CLASSES), set(PYCLASS) ^ set(CLASSES)

from fastkml import enums as _enums  # noqa: E402
from fastkml.times import KmlDateTime  # noqa: E402

Verbosity = _enums.Verbosity
RES = {
    "Y": _enums.DateTimeResolution.year,
    "M": _enums.DateTimeResolution.year_month,
    "D": _enums.DateTimeResolution.date,
    "T": _enums.DateTimeResolution.datetime,
}
RES_INV = {v: k for k, v in RES.items()}

STD_NS = {
    "kml": "{http://www.opengis.net/kml/2.2}",
    "atom": "{http://www.w3.org/2005/Atom}",
    "gx": "{http://www.google.com/kml/ext/2.2}",
}

IMPLS = {"lxml": lxml_etree, "stdlib": stdlib_etree}


def use(impl):
    """Select the etree implementation."""
    config.set_etree_implementation(IMPLS[impl])
    if impl == "stdlib":
        # what set_default_namespaces() is for; idempotent
        config.set_default_namespaces()


class Hang(Exception):
    """The code under test did not come back."""


def _alarm(_sig, _frm):
    raise Hang


signal.signal(signal.SIGALRM, _alarm)


def call(fn, *args, **kwargs):
    """Call into the code under test: ("ok", value) or ("exc", exception)."""
    signal.alarm(60)
    try:
        return "ok", fn(*args, **kwargs)
    except Exception as exc:  # noqa: BLE001
        return "exc", exc
    except RecursionError as exc:
        return "exc", exc
    finally:
        signal.alarm(0)


def exc_name(exc):
    """Class of an exception as the contract sees it."""
    from fastkml import exceptions as e

    for cls in (e.KMLParseError, e.KMLWriteError, e.KMLSchemaError, e.GeometryError):
        if isinstance(exc, cls):
            return cls.__name__
    if isinstance(exc, AssertionError):
        return "AssertionError"
    return type(exc).__name__


# ---------------------------------------------------------------- scalars


def ftok(v):
    return repr(float(v))


def date_tok(d):
    """Token of a KmlDateTime."""
    if not isinstance(d, KmlDateTime):
        return f"?!{d!r}"
    r = RES_INV.get(d.resolution)
    dt = d.dt
    isdt = isinstance(dt, dtm.datetime)
    if r == "Y" and not isdt and (dt.month, dt.day) == (1, 1):
        return f"Y:{dt.year:04}"
    if r == "M" and not isdt and dt.day == 1:
        return f"M:{dt.year:04}-{dt.month:02}"
    if r == "D" and not isdt:
        return f"D:{dt.year:04}-{dt.month:02}-{dt.day:02}"
    if r == "T" and isdt:
        return f"T:{dt.isoformat()}"
    return f"?!{r}:{dt!r}"


_TOK_DT = re.compile(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{6}))?(?:([+-])(\d\d):(\d\d))?$")


def tok_date(tok):
    """Build a KmlDateTime from its token, without using the parser under test."""
    r, s = tok[0], tok[2:]
    if r == "T":
        m = _TOK_DT.match(s)
        y, mo, d, h, mi, sec = (int(x) for x in m.groups()[:6])
        us = int(m.group(7) or 0)
        tz = None
        if m.group(8):
            off = dtm.timedelta(hours=int(m.group(9)), minutes=int(m.group(10)))
            tz = dtm.timezone(-off if m.group(8) == "-" else off)
        return KmlDateTime(dtm.datetime(y, mo, d, h, mi, sec, us, tzinfo=tz), RES[r])
    parts = [int(x) for x in s.split("-")] + [1, 1]
    return KmlDateTime(dtm.date(*parts[:3]), RES[r])


LONG = {}       # names of very long texts, which stand for them in events
_NAMES = {}


def long_text(rnd):
    """A very long text; the name that stands for it."""
    words = ["alpha", "Grüße", "<b>", "&", "\n", "x", "0123456789", "\u4f60"]
    n = rnd.choice([4500, 9000, 20000])
    t = "".join(rnd.choice(words) + " " for _ in range(n)) + "end"
    t = "begin " + t
    name = f"LONG{len(t)}x{rnd.randrange(10**6)}"
    LONG[name] = t
    _NAMES[t] = name
    return name


def spelled_out(s):
    """A text with what the names stand for."""
    return re.sub("LONG[0-9]+x[0-9]+", lambda m: LONG.get(m.group(), m.group()), s) if "LONG" in s else s


def named(s):
    """A text with a name instead of what is very long."""
    if len(s) < 9000:
        return s
    core = s.strip()
    return s.replace(core, _NAMES[core]) if core in _NAMES else s


def scalar_tok(kind, types, v):
    """Token of a scalar property value, None if it counts as not set."""
    if kind in ("self", "text", "tattr"):
        if v is None or v == "":
            return None
        return named(v) if isinstance(v, str) else f"?!{v!r}"
    if v is None:
        return None
    if kind == "bool":
        return ("T" if v else "F") if isinstance(v, bool) else f"?!{v!r}"
    if kind in ("int", "iattr"):
        ok = isinstance(v, int) and not isinstance(v, bool)
        return str(v) if ok else f"?!{v!r}"
    if kind in ("float", "fattr"):
        ok = isinstance(v, (int, float)) and not isinstance(v, bool)
        return ftok(v) if ok else f"?!{v!r}"
    if kind in ("enum", "eattr"):
        cls = getattr(_enums, types[0])
        return v.value if isinstance(v, cls) else f"?!{v!r}"
    if kind == "date":
        return date_tok(v)
    raise AssertionError(kind)


def nums(t):
    try:
        return [ftok(c) if isinstance(c, (int, float)) and not isinstance(c, bool) else f"?!{c!r}" for c in t]
    except TypeError:
        return [f"?!{t!r}"]


# ---------------------------------------------------------------- objects


class Env:
    """Which URI stands for which namespace id in one experiment."""

    raw = False

    def __init__(self, **over):
        self.uri = {**STD_NS, **over}
        self.id = {v: k for k, v in self.uri.items()}
        self.id[""] = ""
        self.over = over

    def nsid(self, ns):
        return self.id.get(ns, f"?{ns}")

    def qname(self, tag):
        if tag.startswith("{"):
            uri, local = tag[1:].split("}", 1)
            i = self.id.get("{" + uri + "}")
            return f"{i}:{local}" if i is not None else f"?{uri}:{local}"
        return tag


STD = Env()


def project(o, env=STD):
    """Abstract object of a real one."""
    name = NAME_OF.get(type(o))
    if name is None:
        return {"cls": f"?!{type(o).__name__}", "ns": "", "f": {}}
    return project_as(o, name, CLASSES[name]["fields"], env)


def project_as(o, name, fields, env=STD):
    """Abstract object with these properties."""
    f = {}
    for fd in fields:
        kind, attr = fd["kind"], fd["attr"]
        v = getattr(o, attr, None)
        if kind == "xml":
            if v is not None:
                f[attr] = project(v, env)
        elif kind == "xmls":
            if v is None:
                continue
            q = [project(c, env) for c in v] if isinstance(v, (list, tuple)) else [project(v, env)]
            if q:
                f[attr] = q
        elif kind in ("nums", "coordinates"):
            q = [nums(t) for t in (v if v is not None else ())]
            if q:
                f[attr] = q
        elif kind == "dates":
            q = [date_tok(d) for d in (v or ())]
            if q:
                f[attr] = q
        else:
            t = scalar_tok(kind, fd["types"], v)
            if t is not None:
                f[attr] = t
    res = {"cls": name, "ns": env.nsid(getattr(o, "ns", "?")), "f": f}
    if env.raw:
        res["m"] = {k: env.nsid(v) for k, v in getattr(o, "name_spaces", {}).items()}
    return res


def tok_value(fd, tok, rnd=None):
    kind = fd["kind"]
    if kind == "bool":
        return tok == "T"
    if kind in ("int", "iattr"):
        return int(tok)
    if kind in ("float", "fattr"):
        v = float(tok)
        if rnd is not None and v == int(v) and abs(v) < 1e6 and tok[0] != "-" and rnd.random() < 0.3:
            return int(v)
        return v
    if kind in ("enum", "eattr"):
        return getattr(_enums, fd["types"][0])(tok)
    if kind == "date":
        return tok_date(tok)
    return spelled_out(tok)


def kwargs_of(a, env=STD, rnd=None, fields=None):
    kw = {}
    for fd in fields or CLASSES[a["cls"]]["fields"]:
        attr, kind = fd["attr"], fd["kind"]
        if attr not in a["f"]:
            continue
        v = a["f"][attr]
        if kind == "xml":
            kw[attr] = build(v, env, rnd)
        elif kind == "xmls":
            kw[attr] = [build(c, env, rnd) for c in v]
        elif kind in ("nums", "coordinates"):
            kw[attr] = [tuple(float(x) for x in t) for t in v]
        elif kind == "dates":
            kw[attr] = [tok_date(t) for t in v]
        else:
            kw[attr] = tok_value(fd, v, rnd)
    if env.over:
        kw["name_spaces"] = dict(env.over)
    if a["ns"] != CLASSES[a["cls"]]["nsid"]:
        kw["ns"] = env.uri[a["ns"]] if a["ns"] else ""
    return kw


SHARING = 0.0  # how often parts that are alike become one real object in several places
_parts = []


def build(a, env=STD, rnd=None):
    """Real object of an abstract one, through its public constructor."""
    if SHARING and not _parts and rnd is not None:
        _parts.append({} if rnd.random() < SHARING else None)
        try:
            return PYCLASS[a["cls"]](**kwargs_of(a, env, rnd))
        finally:
            _parts.clear()
    if _parts and _parts[0] is not None:
        key = json.dumps(a, sort_keys=True)
        if key not in _parts[0]:
            _parts[0][key] = PYCLASS[a["cls"]](**kwargs_of(a, env, rnd))
        return _parts[0][key]
    return PYCLASS[a["cls"]](**kwargs_of(a, env, rnd))


# ---------------------------------------------------------------- documents


def node(e, env=STD):
    """Abstract node of an lxml or ElementTree element."""
    kids = [k for k in e if isinstance(k.tag, str)]
    text = e.text or ""
    if kids:
        text = "" if not text.strip() else text
        text += "".join((k.tail or "") for k in kids if (k.tail or "").strip())
    return {
        "n": env.qname(e.tag),
        "x": {env.qname(k): named(v) for k, v in e.attrib.items()},
        "t": named(text),
        "c": [node(k, env) for k in kids],
    }


def parse_xml(text, env=STD):
    """Independent look at a document: always with lxml, whatever fastkml uses."""
    return node(lxml_etree.fromstring(text.encode("utf-8"), parser=lxml_etree.XMLParser(huge_tree=True)), env)


def _esc(s, quote=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    if quote:
        s = s.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
    return s


ENTITIES = {"1": "one", "alpha": "al", "0": "nil", "a": "ay", "true": "yes"}
DOCTYPE = "<!DOCTYPE x [" + "".join(f'<!ENTITY {v} "{k}">' for k, v in ENTITIES.items()) + "]>"


def xml_of(n, env=STD, prefixes=None, rnd=None, root=True, opts=()):
    """Serialise an abstract node; independent of fastkml's writer.

    opts: "space" adds white space, "comments" adds comments and processing
    instructions between elements and in texts, "cdata" uses CDATA sections for some texts,
    "entities" declares entities and uses them in some texts, "mixed" puts foreign elements into texts.
    """
    prefixes = prefixes or {"kml": "", "gx": "gx", "atom": "atom"}

    def qn(name, attr=False):
        if ":" not in name:
            return name
        i, local = name.split(":", 1)
        p = prefixes.get(i, i)
        return f"{p}:{local}" if p else local

    out = [DOCTYPE] if root and "entities" in opts else []
    out += ["<", qn(n["n"])]
    if root:
        for i, p in prefixes.items():
            uri = env.uri.get(i) or f"{{urn:{i}}}"
            if uri:
                out.append(f' xmlns{":" + p if p else ""}="{uri[1:-1]}"')
    for k, v in n["x"].items():
        out.append(f' {qn(k, True)}="{_esc(spelled_out(v), quote=True)}"')
    out.append(">")
    t = spelled_out(n["t"])
    if t:
        parts = [t]
        if "comments" in opts and rnd.random() < 0.15:      # inside of the text
            at = rnd.randint(0, len(t))
            parts = [t[:at], rnd.choice(["<!-- a comment -->", "<?pi some thing?>", "<!---->"]), t[at:]]
        elif "entities" in opts and rnd.random() < 0.3:     # words of the text are entities (see ENTITIES)
            parts = [f"&{ENTITIES[w]};" if i % 2 else w for i, w in enumerate(re.split("(" + "|".join(ENTITIES) + ")", t))]
        for i, part in enumerate(parts):
            if i % 2:
                out.append(part)
            elif "cdata" in opts and rnd.random() < 0.5 and "]]>" not in part and "\r" not in part:
                out.append(f"<![CDATA[{part}]]>")
            else:
                out.append(_esc(part))
    if t and "mixed" in opts and rnd.random() < 0.15:
        out.append(rnd.choice(["<b>more</b> text", "<b/>more", '<z:i xmlns:z="urn:z"> x<u>y</u></z:i>', "<br/>"]))
    for k in n["c"]:
        if "space" in opts:
            out.append(rnd.choice(["\n", "  ", "\n\t", ""]))
        if "comments" in opts and rnd.random() < 0.3:
            out.append(rnd.choice(["<!-- a comment -->", "<?pi some thing?>", "<!-- <name>x</name> -->"]))
        out.append(xml_of(k, env, prefixes, rnd, False, opts))
    out += ["</", qn(n["n"]), ">"]
    return "".join(out)


def walk(n):
    yield n
    for k in n["c"]:
        yield from walk(k)


def tables(nodes, dx_tokens=()):
    """The number tables for the specification (see KmlLex)."""
    fl, il = {}, {}
    seen = set()

    def add(c):
        if c in seen:
            return
        seen.add(c)
        if len(c) > 400:
            return
        try:
            v = float(c)
            fl[c] = repr(v)
        except (ValueError, OverflowError):
            pass
        try:
            il[c] = str(int(c))
        except ValueError:
            pass

    for n in nodes:
        for k in walk(n):
            for t in [k["t"], *k["x"].values()]:
                add(t)
                s = t.strip()
                add(s)
                if len(s) > 40000:
                    continue
                for w in re.sub(r", +", ",", s).split():
                    for c in w.split(","):
                        add(c)
                for w in t.split():
                    add(w)
    dx = {t: format(Decimal(float(t)), "f") for t in dx_tokens}
    return {"fl": fl, "il": il, "dx": dx}


def num_tokens(a):
    """All number tokens in coordinates of an abstract object."""
    out = set()
    for v in a["f"].values():
        if isinstance(v, dict):
            out |= num_tokens(v)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    out |= num_tokens(x)
                elif isinstance(x, list):
                    out |= {y for y in x if not y.startswith("?!")}
    return out
