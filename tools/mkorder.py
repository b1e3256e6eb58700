"""Write spec/gen/order.json: what may be inside what, and in which order, from the KML schema files (run by hand)."""
import json
import os

from lxml import etree

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = "{http://www.w3.org/2001/XMLSchema}"
NS = {"http://www.opengis.net/kml/2.2": "kml", "http://www.google.com/kml/ext/2.2": "gx", "http://www.w3.org/2005/Atom": "atom"}
elements, types, members = {}, {}, {}
for f in ("ogckml22.xsd", "kml22gx.xsd", "atom-author-link.xsd"):
    root = etree.parse(f"{V}/harness/schema/{f}").getroot()
    tns = NS[root.get("targetNamespace")]

    def q(name, root=root, tns=tns):
        if name is None:
            return None
        if ":" in name:
            p, local = name.split(":")
            return f"{p}:{local}"
        return f"xs:{name}"

    for e in root.findall(X + "element"):
        name = f"{tns}:{e.get('name')}"
        t = q(e.get("type"))
        ct = e.find(X + "complexType")
        if ct is not None:
            t = name + " (type)"
            types[t] = (ct, q, tns)
        elements[name] = (t, e.get("abstract") == "true")
        if e.get("substitutionGroup"):
            members.setdefault(q(e.get("substitutionGroup")), []).append(name)
    for t in root.findall(X + "complexType"):
        types[f"{tns}:{t.get('name')}"] = (t, q, tns)


def type_of(name):
    t, _ = elements[name]
    if t is None:
        for head, ms in members.items():
            if name in ms:
                return type_of(head)
    return t


def concrete(name):
    """Elements that may stand for this one."""
    out = [] if elements[name][1] else [name]
    for m in members.get(name, ()):
        out += concrete(m)
    return out


def particles(node, q, tns):
    out = []
    for k in node:
        if k.tag == X + "sequence":
            out += particles(k, q, tns)
        elif k.tag == X + "choice":
            names = {}
            most = k.get("maxOccurs", "1")
            for p in particles(k, q, tns):
                names.update(p["names"])
                if p["max"] == 0:
                    most = "unbounded"
            out.append({"names": names, "max": 0 if most == "unbounded" else 1})
        elif k.tag == X + "element":
            names = {}
            if k.get("ref"):
                r = q(k.get("ref"))
                if r.startswith("xal:"):
                    continue
                names = {n: type_of(n) or "" for n in concrete(r)}
            else:
                names = {f"{tns}:{k.get('name')}": q(k.get("type"))}
            if names:
                out.append({"names": names, "max": 0 if k.get("maxOccurs") == "unbounded" else 1})
    return out


def content(t):
    if t not in types:
        return [], []
    node, q, tns = types[t]
    atts = [a.get("name") or a.get("ref") for a in node.iter(X + "attribute")]
    for g in node.iter(X + "attributeGroup"):
        atts += {"kml:idAttributes": ["id", "targetId"], "kml:objectAttributes": ["id", "targetId"]}.get(g.get("ref"), [f"?{g.get('ref')}"])
    ext = next(iter(node.iter(X + "extension")), None)
    if ext is not None:
        base, base_atts = content(q(ext.get("base")))
        return base + particles(ext, q, tns), base_atts + atts
    return particles(node, q, tns), atts


out = {}
for t in types:
    ps, atts = content(t)
    out[t] = {"parts": [{"names": sorted(p["names"]), "types": {n: ty if ty in types else "" for n, ty in p["names"].items()}, "max": p["max"]} for p in ps],
              "atts": sorted(set(atts))}
roots = {n: t if t in types else "" for n, (t, ab) in elements.items() if not ab for t in [type_of(n)]}
json.dump({"types": out, "roots": roots}, open(f"{V}/spec/gen/order.json", "w"), indent=0, sort_keys=True)
print(len(out), len(roots))
