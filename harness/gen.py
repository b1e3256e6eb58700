"""Seeded generators of abstract objects and documents, driven by the schema."""

import calendar
import copy

from fk import CLASSES, ENUMS, long_text

REPEAT = 0.1  # how often a list holds the same part twice
LENGTHY = 0.0  # how often a big text is very big
AGAIN = 0.0   # how often coordinates hold the same position twice in a row

WORDS = [
    "a", "Name", "Grüße & <Co>", "tab\tinside", "two  spaces", "line\nbreak", "\u4f60\u597d", "0", "false",
    "<b>bold</b>", "]]>", "&amp;", "'quote' \"double\"", "1.5", "#id", "http://ex.org/a?b=1&c=2#f", "\U0001f30d",
    "x" * 60, "None", "%(a)s {b} $[c]", "é", "-", "True", "null", "\\n", "a;b", "ff00ff00", "ffffffff", "/",
    "e\u0301a\u030a\u212b\ufb01\u00bd", "cr\rlf\r\nend", "nel\x85ls\u2028nb\u00a0zw\u200bz", "del\x7f\ue000\ufffd",
]
IDS = ["a", "b1", "p-1", "i.d", "_x", "ü", "style_1", "Z"]
FLOATS = [
    "0.0", "1.0", "-1.0", "0.5", "4.0", "2.5", "-180.0", "180.0", "90.0", "1e-07", "123456.789", "0.1", "-0.3",
    "1e+16", "359.99999999999994", "3.141592653589793", "256.0", "100.0", "2.220446049250313e-16",
]
INTS = ["0", "1", "2", "-1", "256", "128", "99999", "-7", "4096", "1024"]


def pick_float(rnd):
    r = rnd.random()
    if r < 0.5:
        return rnd.choice(FLOATS)
    if r < 0.8:
        return repr(round(rnd.uniform(-180, 180), rnd.randint(0, 12)))
    if r < 0.95:
        return repr(rnd.uniform(-1e4, 1e4))
    return repr(float(rnd.randint(-1000, 1000)))


def pick_coord(rnd):
    r = rnd.random()
    if r < 0.3:
        return repr(rnd.randint(-1440, 1440) / 8)
    if r < 0.6:
        return repr(round(rnd.uniform(-180, 180), rnd.randint(0, 9)))
    if r < 0.7:
        return rnd.choice(["0.0", "-0.0", "1e-07", "0.05", "0.15", "0.25", "2.5", "0.5", "1.5", "-0.5", "99.95", "9.9999999", "-0.001"])
    return repr(rnd.uniform(-180, 180))


def pick_text(rnd):
    r = rnd.random()
    if r < 0.6:
        return rnd.choice(WORDS)
    if r < 0.8:
        return rnd.choice(WORDS) + " " + rnd.choice(WORDS)
    return "t" + str(rnd.randint(0, 10**6))


def pick_date(rnd, kinds="YMDT"):
    k = rnd.choice(kinds)
    y = rnd.choice([1, 33, 999, 1582, 1900, 1970, 1999, 2000, 2004, 2023, 2024, 9999, rnd.randint(1, 9999)])
    m = rnd.choice([1, 2, 12, rnd.randint(1, 12)])
    last = calendar.monthrange(y, m)[1]
    d = rnd.choice([1, last, rnd.randint(1, last)])
    if k == "Y":
        return f"Y:{y:04}"
    if k == "M":
        return f"M:{y:04}-{m:02}"
    if k == "D":
        return f"D:{y:04}-{m:02}-{d:02}"
    h = rnd.choice([0, 23, rnd.randint(0, 23)])
    mi = rnd.choice([0, 59, rnd.randint(0, 59)])
    s = rnd.choice([0, 59, rnd.randint(0, 59)])
    us = rnd.choice([0, 0, 1, 500000, 999999, rnd.randint(0, 999999)])
    z = rnd.choice(["+00:00", "+00:00", "+01:00", "-05:30", "+14:00", "-11:45"])
    f = f".{us:06}" if us else ""
    return f"T:{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{f}{z}"


def pick_tuple(rnd, dim):
    return [pick_coord(rnd) for _ in range(dim)]


def pick_coords(rnd, lo, hi, dim=None):
    dim = dim or rnd.choice([2, 3])
    out = []
    while len(out) < lo or (len(out) < hi and rnd.random() < 0.6):
        t = pick_tuple(rnd, dim)
        if not out or [float(x) for x in t] != [float(x) for x in out[-1]]:
            out.append(t)
    if rnd.random() < AGAIN and hi > 1:
        i = rnd.randrange(len(out))
        out[i:i] = [list(out[i])] * rnd.choice([1, 1, 2])
    return out


def repeated(rnd, *lists):
    """Lists in which, at times, an entry equals the one before it."""
    for q in lists:
        if rnd.random() < 2 * REPEAT:
            for i in range(1, len(q)):
                if rnd.random() < 0.7:
                    q[i] = copy.deepcopy(q[i - 1])
    return lists


BIG_INTS = ["2147483648", "-2147483649", "1000000000000000000", "9223372036854775808"]
BIG_FLOATS = ["1e+308", "-1e+308", "5e-324", "1.7976931348623157e+308", "2.2250738585072014e-308", "-1e+100"]


def pick_outlier(rnd, p):
    """What is unusually large in this object or document, mostly nothing."""
    return rnd.choice(["coords", "list", "text", "number", "deep"]) if rnd.random() < p else ""


def big_text(rnd):
    if rnd.random() < LENGTHY:
        return long_text(rnd)
    return "".join(rnd.choice(WORDS) + rnd.choice(["", " ", "\n"]) for _ in range(rnd.randint(20, 60))).strip() or "t"


def big_coords(rnd, closed=False):
    c = pick_coords(rnd, rnd.choice([17, 33, 65, 101, 120]), 130)
    if closed and c[0] != c[-1]:
        c.append(list(c[0]))
    return c


class Gen:
    """Random abstract objects.

    fill: probability that an optional property is set; full: only objects that a
    document can express completely (see Complete in KmlCodec).
    """

    def __init__(self, rnd, fill=0.4, depth=3, full=True, default_bias=0.3, date_kinds="YMDT", ns=None, outlier=0.04):
        self.r = rnd
        self.out = pick_outlier(rnd, outlier)
        self.fill = fill
        self.depth = depth
        self.full = full
        self.default_bias = default_bias
        self.date_kinds = date_kinds
        self.ns = ns or {}

    # properties an object needs in order to count as present
    NEED = {
        "AtomLink": ["href"], "Author": ["name"], "Contributor": ["name"], "SimpleField": ["name", "type_"],
        "Data": ["name", "value"], "SimpleData": ["name", "value"], "SchemaData": ["data", "schema_url"],
        "ExtendedData": ["elements"], "Coordinates": ["coords"], "Point": ["kml_coordinates"],
        "LineString": ["kml_coordinates"], "LinearRing": ["kml_coordinates"], "OuterBoundaryIs": ["kml_geometry"],
        "InnerBoundaryIs": ["kml_geometry"], "Polygon": ["outer_boundary"], "MultiGeometry": ["kml_geometries"],
        "TimeStamp": ["timestamp"], "Track": ["whens"], "MultiTrack": ["tracks"], "Link": ["href"],
        "Icon": ["href"], "Location": ["latitude", "longitude"], "ResourceMap": ["aliases"],
        "Model": ["link", "location"], "StyleUrl": ["url"], "IconStyle": ["icon"], "Style": ["styles"],
        "Pair": ["key", "style"], "StyleMap": ["pairs"], "LatLonAltBox": ["north", "south", "east", "west"],
        "LatLonBox": ["north", "south", "east", "west"], "Lod": ["min_lod_pixels"], "Region": ["lat_lon_alt_box"],
        "Snippet": ["text"], "NetworkLink": ["link"],
        "ViewVolume": ["left_fov", "right_fov", "bottom_fov", "top_fov", "near"],
        "ImagePyramid": ["max_width", "max_height"], "OverlayXY": ["x", "y"], "ScreenXY": ["x", "y"],
        "RotationXY": ["x", "y"], "Size": ["x", "y"], "Schema": ["id"],
    }
    ONE_OF = {
        "TimeSpan": ["begin", "end"], "Orientation": ["heading", "tilt", "roll"], "Scale": ["x", "y", "z"],
        "Alias": ["target_href", "source_href"], "LineStyle": ["width", "color", "color_mode"],
        "PolyStyle": ["fill", "outline", "color", "color_mode"], "LabelStyle": ["scale", "color", "color_mode"],
        "BalloonStyle": ["bg_color", "text_color", "text", "display_mode"],
    }

    def scalar(self, fd):
        r, kind = self.r, fd["kind"]
        if fd["dflt"] and r.random() < self.default_bias:
            return fd["dflt"]
        if kind == "bool":
            return r.choice("TF")
        if self.out == "number" and r.random() < 0.5 and kind in ("int", "iattr", "float", "fattr"):
            return r.choice(BIG_INTS if kind in ("int", "iattr") else BIG_FLOATS)
        if kind in ("int", "iattr"):
            return r.choice(INTS)
        if kind in ("float", "fattr"):
            return pick_float(r)
        if kind in ("enum", "eattr"):
            return r.choice(ENUMS[fd["types"][0]])
        if kind == "date":
            return pick_date(r, self.date_kinds)
        if fd["attr"] in ("id", "target_id"):
            return r.choice(IDS)
        if self.out == "text" and r.random() < 0.4:
            return big_text(r)
        return pick_text(r)

    def deep(self, cls):
        """An object at the end of a long chain of containers."""
        fd = "kml_geometries" if cls == "MultiGeometry" else "features"
        o = self.obj("Point" if cls == "MultiGeometry" else "Placemark", 1)
        for _ in range(self.r.randint(4, 9)):
            w = self.obj("MultiGeometry" if cls == "MultiGeometry" else self.r.choice(["Folder", "Document"]), 0,
                         only=[a for a in ("name", "id", "visibility") if self.r.random() < 0.3])
            w["f"][fd] = [o]
            o = w
        top = self.obj(cls, 0)
        top["f"][fd] = [o]
        return top

    def obj(self, cls, depth=None, only=None, path=(), fields=None):
        """only: exactly these optional attributes are set (plus what is needed)."""
        r = self.r
        if self.out == "deep" and depth is None and only is None and fields is None:
            self.out = ""
            if cls in ("KML", "Document", "Folder", "MultiGeometry"):
                return self.deep(cls)
        depth = self.depth if depth is None else depth
        need = list(self.NEED.get(cls, ()))
        if cls in self.ONE_OF:
            need.append(r.choice(self.ONE_OF[cls]))
        if not self.full and r.random() < 0.25:
            need = ["id"] if cls == "Schema" else []
        f = {}
        for fd in fields or CLASSES[cls]["fields"]:
            attr, kind = fd["attr"], fd["kind"]
            forced = attr in need
            if only is not None:
                want = forced or attr in only
            else:
                want = forced or r.random() < self.fill
            if not want:
                continue
            if kind == "xml":
                if depth <= 0 and not forced and not (only and attr in only):
                    continue
                f[attr] = self.obj(r.choice(fd["types"]), depth - 1)
            elif kind == "xmls":
                if depth <= 0 and not forced and not (only and attr in only):
                    continue
                q = self.children(fd, depth, cls)
                if q:
                    f[attr] = q
            elif kind in ("dates", "nums"):
                continue
            elif kind == "coordinates":
                f[attr] = big_coords(r) if self.out == "coords" else pick_coords(r, 1, 5)
            else:
                f[attr] = self.scalar(fd)
        if cls == "Track" and "whens" in need:
            n = r.choice([17, 40, 65]) if self.out in ("coords", "list") else r.randint(1, 4)
            f["whens"] = [pick_date(r, self.date_kinds) for _ in range(n)]
            f["coords"] = [pick_tuple(r, r.choice([2, 3])) for _ in range(n)]
            f["angles"] = [pick_tuple(r, 3) for _ in range(n)]
            repeated(r, f["whens"], f["coords"], f["angles"])
        if cls == "Point" and "kml_coordinates" in f and self.full:
            f["kml_coordinates"]["f"]["coords"] = pick_coords(r, 1, 1)
        if cls == "LinearRing" and "kml_coordinates" in f and self.full:
            c = big_coords(r) if self.out == "coords" else pick_coords(r, 3, 5)
            if c[0] != c[-1]:
                c = c + [list(c[0])]
            f["kml_coordinates"]["f"]["coords"] = c
        return {"cls": cls, "ns": self.ns.get(CLASSES[cls]["nsid"], CLASSES[cls]["nsid"]), "f": f}

    def children(self, fd, depth, cls):
        r = self.r
        types = fd["types"]
        if depth <= 1:
            # stay shallow: avoid containers in containers
            types = [t for t in types if t not in ("Document", "Folder", "MultiGeometry")] or types
        n = r.choice([1, 1, 2, 3])
        if self.out == "list":
            self.out, n, depth = "", r.choice([9, 12, 17, 33]), min(depth, 1)
        picks = [r.choice(types) for _ in range(n)]
        if self.full:
            picks.sort(key=fd["types"].index)
        q = [self.obj(t, depth - 1) for t in picks]
        if r.random() < REPEAT:  # the same part again
            i = r.randrange(len(q))
            q.insert(i, copy.deepcopy(q[i]))
        return q


# ---------------------------------------------------------------- documents

GOOD_INT = ["0", "1", "-1", "7", "+5", "007", "256", "99999", "-0", "4096"]
GOOD_FLOAT = ["0", "1", "-1", "1.", ".5", "1e3", "-0", "+2.5", "1E-5", "0.1", "180.0", "-12.25", "359.99999999999994", "00.5"]
BAD_INT = ["x", "1.5", "--1", "1 2", "0x10", "1e3", "one", "1,0", "-"]
BAD_FLOAT = ["abc", "1,5", "1.2.3", "--1", "1 2", "0x1p3", "1e", "N/A", "1.0m", "."]
BAD_BOOL = ["yes", "tru", "nope", "T", "on", "10x", "-", "1 0"]
LENIENT_BOOL = ["TRUE", "False", "True", "FALSE", "tRuE", "2", "1.0", "0.0", "-1", "00"]
BAD_ENUM = ["nope", "x y", "1", "none", "?", "clampTo", "absolutely"]
BAD_DATE = ["2010-13", "2010-00", "2010-02-30", "2011-02-29", "2010-04-31", "0000", "0000-01", "soon", "-", "now",
            "2010-05-06T25:00:00Z", "2010-05-06T01:60:00Z", "2010-13-06T01:00:00Z", "2010-05-32", "1900-02-29",
            "2010-05-06T01:02:03+25:00"]
BAD_COORDS = ["1,2 x,3", "1,,2", "a,b", "1,2;3,4", "lon,lat", "1,2,", "1,2 3,4 5,", "12°", ","]
BAD_NUMS = ["a b c", "1 2 x", "1,2,3", "1;2", "-"]


def date_text(rnd, kinds="YMDT"):
    """A valid date in one of KML's spellings."""
    s = pick_date(rnd, kinds)[2:]
    if "T" in s:
        z = s[-6:]
        body = s[:-6]
        if "." in body and rnd.random() < 0.5:
            head, fr = body.split(".")
            fr = fr[: rnd.randint(1, 6)]
            body = f"{head}.{fr}"
        s = body + rnd.choice([z, z, "Z", ""])
    return s


def coord_text(rnd, lo, hi, dim=None, closed=False):
    cs = pick_coords(rnd, lo, hi, dim)
    if closed:
        cs = cs + [cs[0]]

    def num(x):
        return rnd.choice([x, x, repr(float(x)), "%g" % float(x), "+" + x if x[0] != "-" else x])

    out = []
    for t in cs:
        out.append(rnd.choice([",", ",", ",", ", ", ",  "]).join(num(x) for x in t))
    sep = rnd.choice([" ", " ", "\n", "  \n\t", "\t", "\r\n"])
    return rnd.choice(["", "", "\n", "  "]) + sep.join(out) + rnd.choice(["", "", "\n  ", " "])


class DocGen:
    """Random documents: nodes in the form of KmlCodec, built from the schema.

    bad: probability that a typed value is invalid; lenient: use spellings only
    lenient reading knows; noise: probability of unknown or repeated material.
    """

    def __init__(self, rnd, fill=0.4, depth=2, bad=0.0, lenient=False, noise=0.2, shuffle=True, ns_of=None, pad=0.3, outlier=0.03):
        self.out = pick_outlier(rnd, outlier)
        self.r, self.fill, self.depth = rnd, fill, depth
        self.bad, self.lenient, self.noise, self.shuffle, self.pad = bad, lenient, noise, shuffle, pad
        self.ns_of = ns_of or (lambda nsid: nsid)
        self.injected = 0

    def value(self, fd, parent):
        """Text of a scalar property."""
        r, kind = self.r, fd["kind"]
        wrong = kind not in ("text", "tattr", "self") and r.random() < self.bad
        if wrong:
            self.injected += 1
        if kind == "bool":
            if wrong:
                return r.choice(BAD_BOOL)
            return r.choice(LENIENT_BOOL) if self.lenient and r.random() < 0.5 else r.choice(["0", "1", "true", "false"])
        if kind in ("int", "iattr"):
            return r.choice(BAD_INT if wrong else BIG_INTS if self.out == "number" else GOOD_INT)
        if kind in ("float", "fattr"):
            return r.choice(BAD_FLOAT if wrong else BIG_FLOATS if self.out == "number" else GOOD_FLOAT + [pick_float(r)])
        if kind in ("enum", "eattr"):
            v = r.choice(BAD_ENUM if wrong else ENUMS[fd["types"][0]])
            if self.lenient and not wrong and r.random() < 0.5:
                v = r.choice([v.upper(), v.lower(), v.swapcase(), v.title()])
            return v
        if kind == "date":
            return r.choice(BAD_DATE) if wrong else date_text(r)
        if fd["attr"] in ("id", "target_id"):
            return r.choice(IDS)
        if self.out == "text" and r.random() < 0.4:
            return big_text(r)
        return pick_text(r)

    def padded(self, t):
        r = self.r
        if r.random() < self.pad:
            t = r.choice([" ", "\n", "\t ", ""]) + t + r.choice([" ", "\n  ", "\r\n", ""])
        return t

    def q(self, nsid, name):
        i = self.ns_of(nsid)
        return f"{i}:{name}" if i else name

    def leaf(self, name, text):
        return {"n": name, "x": {}, "t": text, "c": []}

    def deep(self, cls, nsid=None):
        """A node at the end of a long chain of containers."""
        n = self.node("Point" if cls == "MultiGeometry" else "Placemark", 1)
        for _ in range(self.r.randint(4, 9)):
            w = self.node("MultiGeometry" if cls == "MultiGeometry" else self.r.choice(["Folder", "Document"]), 0, only=[])
            w["c"].insert(self.r.randint(0, len(w["c"])), n)
            n = w
        top = self.node(cls, 0, nsid)
        top["c"].insert(self.r.randint(0, len(top["c"])), n)
        return top

    def node(self, cls, depth=None, nsid=None, only=None, fields=None):
        r = self.r
        if self.out == "deep" and depth is None and only is None and fields is None:
            self.out = ""
            if cls in ("KML", "Document", "Folder", "MultiGeometry"):
                return self.deep(cls, nsid)
        depth = self.depth if depth is None else depth
        c = CLASSES[cls]
        nsid = c["nsid"] if nsid is None else nsid
        x, kids, text = {}, [], ""
        need = list(Gen.NEED.get(cls, ()))
        if cls in Gen.ONE_OF:
            need.append(r.choice(Gen.ONE_OF[cls]))
        if r.random() < 0.15:
            need = []
        if cls == "Schema":
            need.append("id")
        for fd in fields or c["fields"]:
            attr, kind = fd["attr"], fd["kind"]
            forced = attr in need or (only is not None and attr in only)
            if not (forced or (only is None and r.random() < self.fill)):
                continue
            # lists of children and the like live in the first namespace of the property, mostly
            ns = fd["ns"][0] if r.random() < 0.9 else r.choice(fd["ns"])
            if kind in ("tattr", "iattr", "fattr", "eattr"):
                ns = "" if r.random() < 0.9 else r.choice(fd["ns"])
                key = self.q(ns, fd["node"]) if ns else fd["node"]
                if cls == "Schema" and attr == "id":
                    key = "id"
                x[key] = self.value(fd, cls)
            elif kind == "self":
                text = self.padded(self.value(fd, cls))
            elif kind == "coordinates":
                if r.random() < self.bad:
                    self.injected += 1
                    text = r.choice(BAD_COORDS)
                else:
                    text = r.choice([coord_text(r, 1, 4), coord_text(r, 3, 4, closed=True)])
                    if self.out == "coords":
                        text = coord_text(r, r.choice([17, 65, 110]), 130, closed=r.random() < 0.5)
            elif kind in ("dates", "nums"):
                continue
            elif kind == "xml":
                if depth <= 0 and not forced:
                    continue
                for _ in range(1 if r.random() > self.noise / 3 else 2):
                    t = r.choice(fd["types"])
                    tns = CLASSES[t]["nsid"] if CLASSES[t]["nsid"] in fd["ns"] else ns
                    kids.append(self.node(t, depth - 1, tns))
            elif kind == "xmls":
                if depth <= 0 and not forced:
                    continue
                types = fd["types"]
                if depth <= 1:
                    types = [t for t in types if t not in ("Document", "Folder", "MultiGeometry")] or types
                k = r.choice([1, 1, 2, 3])
                if self.out == "list":
                    self.out, k = "", r.choice([9, 12, 17, 33])
                    depth = min(depth, 1)
                    types = [t for t in types if t not in ("Document", "Folder", "MultiGeometry")] or types
                for _ in range(k):
                    t = r.choice(types)
                    kids.append(self.node(t, depth - 1, ns if ns in fd["ns"] else fd["ns"][0]))
                    if r.random() < REPEAT / 2:
                        kids.append(copy.deepcopy(kids[-1]))
            else:
                if kind == "enum" and fd["types"][0] == "AltitudeMode":
                    ns = r.choice(fd["ns"]) if r.random() < 0.3 else ns
                kids.append(self.leaf(self.q(ns, fd["node"]), self.padded(self.value(fd, cls))))
                if r.random() < self.noise / 3:      # a second one that does not count
                    kids.append(self.leaf(self.q(ns, fd["node"]), self.value(fd, cls)))
                if r.random() < self.noise / 4:      # blank: counts as absent
                    kids[-1]["t"] = r.choice(["", " ", "\n"])
        if cls == "Track":
            kids += self.track_lists(need)
        if self.shuffle and r.random() < 0.5:
            r.shuffle(kids)
        if r.random() < self.noise:
            kids.insert(r.randint(0, len(kids)), self.unknown())
        if r.random() < self.noise / 2:
            x[r.choice(["unknown", "x:foo", "Name", "hrefs", "xml_id"])] = pick_text(r)
        return {"n": self.q(nsid, c["tag"]), "x": x, "t": text, "c": kids}

    def track_lists(self, need):
        r = self.r
        if "whens" not in need and r.random() < 0.5:
            return []
        k = r.choice([17, 40, 65]) if self.out in ("coords", "list") else r.randint(1, 4)
        w = [date_text(r) for _ in range(k)]
        c = [" ".join(pick_tuple(r, r.choice([2, 3, 3]))) for _ in range(k)]
        a = [" ".join(pick_tuple(r, 3)) for _ in range(r.choice([0, k, k, r.randint(0, k)]))]
        repeated(r, w, c, a)
        if r.random() < self.bad:
            self.injected += 1
            which = r.choice("wcaWCA123")
            if which == "w":
                w[r.randrange(k)] = r.choice(BAD_DATE)
            elif which == "c":
                c[r.randrange(k)] = r.choice(BAD_NUMS)
            elif which == "a":
                a = a + [r.choice(BAD_NUMS)]
            elif which == "1":   # one too many, and it does not count: the others match
                w.insert(r.randint(0, k), r.choice(BAD_DATE))
            elif which == "2":
                c.insert(r.randint(0, k), r.choice(BAD_NUMS))
            elif which == "3":
                a.insert(r.randint(0, len(a)), r.choice(BAD_NUMS))
            elif which == "W":
                w.pop()
            elif which == "C":
                c.append("1 2 3")
            else:
                a = a + ["1 2 3"] * (k + 1)
        out = [self.leaf(self.q("kml", "when"), self.padded(t)) for t in w]
        out += [self.leaf(self.q("gx", "coord"), self.padded(t)) for t in c]
        out += [self.leaf(self.q("gx", "angles"), self.padded(t)) for t in a]
        if r.random() < self.noise / 2:
            out.insert(r.randint(0, len(out)), self.leaf(self.q("kml", "when"), ""))
        return out

    def unknown(self):
        r = self.r
        names = ["kml:unknownElement", "x:other", "gx:name", "atom:visibility", "x:name", "x:Point", "kml:Name",
                 "kml:coordinate", "gx:Placemark", "kml:link"]
        n = {"n": r.choice(names), "x": {}, "t": r.choice(["", "junk", "1"]), "c": []}
        if r.random() < 0.4:
            n["c"] = [self.leaf(self.q("kml", r.choice(["name", "description", "visibility", "coordinates", "href", "Point"])), "hidden")]
        return n
