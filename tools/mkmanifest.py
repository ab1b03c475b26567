#!/usr/bin/env python3
"""writes MANIFEST.json from proofs/checks.json, proofs/not_applicable.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/proofs/checks.json"))
na = json.load(open(V + "/proofs/not_applicable.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
ids = [p["id"] for p in props]
assert set(ids) == set(c) | set(na), (set(ids) ^ (set(c) | set(na)))
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: functions are extracted from the source, executable contracts use the public API", "source_commits": []},
     "checks": [], "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i in na]}
for i in ids:
    if i in c:
        e = {"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
             "technique": c[i].get("technique", "contracts on the extracted real functions, discharged by Verus; executable contracts on the compiled code for replay and for what is out of reach"),
             "level": c[i]["level"], "level_note": c[i]["level_note"]}
        if c[i].get("theorems"):
            e["theorems"] = c[i]["theorems"]
        m["checks"].append(e)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
