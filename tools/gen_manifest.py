#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from specs/claims.json and specs/units.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(H + "/specs/claims.json")); units = json.load(open(H + "/specs/units.json"))
checks, na = [], []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; c = claims.get(i, {})
    if not units["properties"][i].get("units"):
        na.append({"property": i, "reason": c.get("na", "its functions are not under contract yet")}); continue
    d = {"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"env VERIF_TIER=thorough python3 check.py {i}",
         "technique": c.get("technique", "contracts on the extracted functions, discharged by Verus; bounded replay harness for counterexamples"),
         "level": units["properties"][i].get("level", "proof"), "level_note": c["note"]}
    if c.get("theorems"): d["theorems"] = c["theorems"]
    checks.append(d)
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hook in /repo is needed: the functions are extracted from rustc's expansion of the current tree", "source_commits": []},
     "notes": "DESIGN.md: what is proved, bounded, assumed. Every check rebuilds everything it needs from /repo's working tree."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
