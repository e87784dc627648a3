#!/usr/bin/env python3
"""Regenerates DESIGN.md from tools/design_head.md, the evidence rules, seeded/*/meta.json and seeded/results.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## How each property is decided", ""]
why = json.load(open(V + "/tools/design_why.json"))
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    ev = json.load(open(V + "/evidence/%s.json" % p["id"]))
    out += ["### %s %s" % (p["id"], p["title"]), "", "Technique: %s." % man[p["id"]]["technique"], "",
            ev["coverage"]["rule"], "", "Monitors (cases per quick run): " + ", ".join("%s" % k for k in sorted(ev["coverage"]["cases_per_monitor"])) + ".", ""]
    if ev.get("assumptions"):
        out += ["Bounds and assumptions: " + "; ".join(ev["assumptions"]) + ".", ""]
    if p["id"] in why:
        out += [why[p["id"]], ""]
out += [open(V + "/tools/design_tail.md").read().rstrip(), "", "## Planted bugs", "",
 "Each was written from the property and the code; `caught by` is the result of running the property's check (and in", "some cases others) with the patch applied.", "",
 "| id | property | needs | caught by |", "|---|---|---|---|"]
res = {}
if os.path.exists(V + "/seeded/results.json"): res = json.load(open(V + "/seeded/results.json"))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|").replace("\n", " "), res.get(i, "not run")))
open(V + "/DESIGN.md", "w").write("\n".join(out).replace("(cases per quick run)", "") + "\n")
