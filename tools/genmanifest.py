#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks the analyser has and the properties."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
have = set()
for f in glob.glob(here + "/checker/*.go"):
    have |= set(re.findall(r'checks\["(C\d+)"\]', open(f).read()))
T = {}   # id -> (technique, level note)
NA = {}
exec(open(here + "/tools/claims.py").read())
m = {"version": 1, "setup_cmd": "bash run.sh setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in have and i not in NA:
        t, n = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No static check has been built for this property yet.")})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print("claimed", len(m["checks"]), "not applicable", len(m["not_applicable"]))
