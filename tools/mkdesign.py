#!/usr/bin/env python3
"""DESIGN.md from doc/DESIGN.in.md, doc/props/*.md, known_findings.json, seeded/*/meta.json (+ doc/catches.json)"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/doc/DESIGN.in.md").read()
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
na = json.load(open(V + "/proofs/not_applicable.json"))
out = []
for p in props:
    f = V + "/doc/props/%s.md" % p["id"]
    if p["id"] in na:
        continue
    out.append("### %s %s\n%s" % (p["id"], p["title"], open(f).read().strip()))
s = s.replace("@@PROPS@@", "\n\n".join(out))
kf = json.load(open(V + "/known_findings.json"))["findings"]
s = s.replace("@@FINDINGS@@", "\n".join("- %s (%s%s): %s" % (k["property"], k["status"], " " + k["commit"] if k.get("commit") else "", k["what"]) for k in kf))
cat = json.load(open(V + "/doc/catches.json")) if os.path.exists(V + "/doc/catches.json") else {}
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], cat.get(i, "not run")))
s = s.replace("@@SEEDED@@", "\n".join(rows))
s = s.replace("@@NA@@", "\n".join("- %s %s: %s" % (p["id"], p["title"], na[p["id"]]) for p in props if p["id"] in na) or "None.")
open(V + "/DESIGN.md", "w").write(s)
