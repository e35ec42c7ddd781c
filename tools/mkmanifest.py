"""Writes /verif/MANIFEST.json from checks.py (claimed) and NOT_CLAIMED below."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from checks import CHECKS
NOT = {}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run_check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run_check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 run_check.py %s --tier thorough" % i,
                            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT.get(i, "no check built yet in this session; planned, see DESIGN.md")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
