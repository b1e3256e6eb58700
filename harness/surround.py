"""A process with given surroundings (C22): reads a job, carries it out, writes what came of it.

surround.py JOB RESULT
"""

import datetime
import decimal
import gc
import io
import json
import locale
import logging
import os
import sys
import time
import warnings

job = json.load(open(sys.argv[1], encoding="utf-8"))
if job["begin"]["lib"] == "none":
    sys.modules["lxml"] = None
    sys.modules["lxml.etree"] = None
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import fk  # noqa: E402
from fk import CLASSES, PYCLASS  # noqa: E402

HERE = os.getcwd()
ZONE = os.environ["TZ"]


def text(v):
    return json.dumps(v, sort_keys=True)


def seen(r):
    return ["ok", fk.project(r[1])] if r[0] == "ok" else ["exc", fk.exc_name(r[1])]


def geometry(g):
    return repr(getattr(g, "__geo_interface__", g)) if not isinstance(g, datetime.date) else repr(g)


def do(k, t):
    if k == "write":
        o = fk.build(t["o"])
        return [fk.project(o)] + [o.to_string(verbosity=fk.Verbosity[v], prettyprint=pretty, precision=t["p"]) for v in ("terse", "normal", "verbose")
                for pretty in (True, False)]
    if k == "read":
        return seen(fk.call(PYCLASS[t["cls"]].from_string, t["text"], strict=t["strict"]))
    if k == "file":
        out = []
        for name in ("x.kml", "x.kmz"):
            fk.build(t["o"]).write(name, prettyprint=t["pretty"])
            if name[-1] == "z":
                import zipfile

                with zipfile.ZipFile(name) as z:
                    out.append([(i.filename, i.compress_type) for i in z.infolist()])
                    out.append(z.read("doc.kml").decode("utf-8"))
            else:
                with open(name, "rb") as fh:
                    out.append(fh.read().decode("utf-8"))
                out.append(seen(fk.call(PYCLASS["KML"].parse, name, validate=False, strict=t["strict"])))
            os.remove(name)
        with open("y.kml", "wb") as fh:
            fh.write(t["text"].encode("utf-8"))
        out.append(seen(fk.call(PYCLASS["KML"].parse, "y.kml", validate=False, strict=t["strict"])))
        os.remove("y.kml")
        return out
    if k == "date":
        st, d = fk.call(fk.KmlDateTime.parse, t["text"])
        out = ["exc", fk.exc_name(d)] if st == "exc" else [None if d is None else [fk.date_tok(d), str(d), repr(d)]]
        d = fk.tok_date(t["tok"])
        return [out, fk.date_tok(d), str(d), fk.date_tok(fk.KmlDateTime(d.dt)), str(fk.KmlDateTime(d.dt)),
                PYCLASS["TimeStamp"](timestamp=d).to_string()]
    if k == "geometry":
        from fastkml.geometry import create_kml_geometry
        from pygeoif.factories import shape

        o = fk.build(t["o"])
        g = getattr(o, "geometry", None)
        out = [geometry(g)]
        if g is not None:
            out.append(seen(fk.call(create_kml_geometry, g)))
            out.append(seen(fk.call(create_kml_geometry, shape(g.__geo_interface__))))
        return out
    if k == "find":
        from fastkml.utils import find_all

        o = fk.build(t["o"])
        return [[fk.project(x) for x in find_all(o, of_type=PYCLASS[c])] for c in t["types"]]
    if k == "compare":
        a, b = fk.build(t["o"]), fk.build(t["other"])
        return [a == b, b == a, a != b, a == fk.build(t["o"])]
    if k == "repr":
        return repr(fk.build(t["o"]))
    if k == "validate":
        st, v = fk.call(fk.build(t["o"]).validate)
        out = [repr(v) if st == "ok" else fk.exc_name(v)]
        with open("v.kml", "wb") as fh:
            fh.write(t["text"].encode("utf-8"))
        out.append(seen(fk.call(PYCLASS["KML"].parse, "v.kml", validate=t["validate"], strict=t["strict"])))
        st, v = fk.call(fk.fastkml.validator.validate, file_to_validate="v.kml")
        os.remove("v.kml")
        return [*out, repr(v) if st == "ok" else fk.exc_name(v)]
    raise AssertionError(k)


def change(s, v):
    if s == "zone":
        os.environ["TZ"] = v or ZONE
        time.tzset()
    elif s == "dir":
        os.chdir(os.path.join(HERE, v) if v else HERE)
    elif s == "digits":
        decimal.setcontext(decimal.Context(prec=2) if v == "2" else decimal.Context(rounding=decimal.ROUND_DOWN) if v else decimal.Context())
    elif s == "warn":
        warnings.simplefilter(v or "default")
    elif s == "locale":
        locale.setlocale(locale.LC_ALL, v or "")
    elif s == "log":
        logging.disable(logging.NOTSET if v else logging.CRITICAL)
        logging.getLogger().handlers[:] = [logging.StreamHandler(io.StringIO())]
        logging.getLogger().setLevel(logging.DEBUG)
    elif s == "parser":
        if fk.lxml_etree is not None:
            p = {"": None, "blanks": {"remove_blank_text": True, "remove_comments": True}}[v]
            fk.lxml_etree.set_default_parser(p and fk.lxml_etree.XMLParser(**p))
    elif s == "prefixes":
        uri = [u[1:-1] for u in fk.STD_NS.values()]
        for lib in (fk.lxml_etree, fk.stdlib_etree):
            if lib is not None:
                for i, u in enumerate(uri):
                    lib.register_namespace("odd" + "abc"[i] if v else ("kml", "atom", "gx")[i], u)
    elif s == "memory":
        if v:
            gc.collect()
            gc.disable()
        else:
            gc.enable()
    elif s == "depth":
        sys.setrecursionlimit(5000 if v else 1000)
    else:
        raise AssertionError(s)


out = []
for step in job["did"]:
    if step["a"] == "set":
        change(step["k"], step["v"])
        out.append("")
    else:
        st, r = fk.call(do, step["k"], step["task"])
        out.append(text(r if st == "ok" else ["unexpected", fk.exc_name(r), str(r)[:200]]))
with open(sys.argv[2], "w", encoding="ascii") as fh:
    json.dump(out, fh)
