#!/usr/bin/env python3
"Writes /verif/MANIFEST.json from the check registry and tools/na.json."
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
from sa import registry
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks = registry.all_checks()
na = json.load(open(HERE + "/tools/na.json"))
out = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append({
            "property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": c.technique, "level": "other",
            "level_note": c.explanation + " Assumes: " + " ".join(c.assumptions)})
    else:
        out["not_applicable"].append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump(out, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "claimed;", [x["property"] for x in out["not_applicable"]])
