"""Write MANIFEST.json from the properties and the drivers (run by hand)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(ln) for ln in open(f"{V}/properties.jsonl")]
NOTES = json.load(open(f"{V}/tools/levels.json"))
have = set(re.findall(r'@driver\("(C\d+)"\)', "".join(open(f"{V}/harness/{f}").read() for f in os.listdir(f"{V}/harness") if f.endswith(".py"))))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i, "quick_cmd": f"./run {i} quick", "thorough_cmd": f"./run {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": NOTES[i]["technique"],
            "level": "model_checking", "level_note": NOTES[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1, "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface of the working tree", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "TLA+ specification in spec/, checked with TLC; harness/ replays its states and behaviours in the real library and lets TLC judge recorded events. ./run <id> <tier>.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
