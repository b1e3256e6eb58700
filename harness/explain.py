"""explain.py <replay file> [n]: a violation next to what the specification expects."""
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

rep = json.load(open(sys.argv[1]))["violations"]
for v in rep[: int(sys.argv[2]) if len(sys.argv) > 2 else 3]:
    print("==", v["what"])
    c = v["case"] or {}
    ev = c.get("event")
    if not ev:
        print(json.dumps(c, indent=1)[:3000])
        continue
    with tempfile.NamedTemporaryFile("w", suffix=".ndjson") as fh:
        fh.write(json.dumps(ev) + "\n")
        fh.flush()
        run = core.tlc("Explain", env={"TRACE": fh.name}, workers=1)
    print("info", c.get("info"))
    print({k: x for k, x in ev.items() if k not in ("tab", "e", "o", "r")})
    print("got ", json.dumps(ev.get("r") or ev.get("e"), sort_keys=True))
    w = run.prints("WANT ")
    print("want", json.dumps(json.loads(w[0]), sort_keys=True) if w else run.out[-1500:])
