#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.head.md, then one section per property (from properties.jsonl and specs.py), then the planted bugs, repaired defects and tools/design.tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
from specs import SPECS, NOTES, NA
W = json.load(open(os.path.join(V, "tools/design.json")))  # per property: oracle, beyond tests; per planted bug: caught by
o = [open(os.path.join(V, "tools/design.head.md")).read().rstrip(), "", "## The properties, one by one", ""]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    o += ["### %s - %s" % (i, p["title"]), ""]
    if i in NA: o += ["Not applicable: " + NA[i], ""]; continue
    q, t = SPECS[i]("quick"), SPECS[i]("thorough"); w = W["properties"][i]
    o += ["* Technique: %s." % NOTES[i][0], "* Enumerated: %s." % q["rule"], "* Bounds, quick: %s." % q["bounds"], "* Bounds, thorough: %s." % (t["bounds"] if t["bounds"] != q["bounds"] else "the same family, larger grids where the harness has them"),
          "* Oracle: %s" % w["oracle"], "* Beyond the tests: %s" % (w.get("why") or p["why_tests_cant"]), "* Cost: about %s s (quick), harness `%s`." % (w["cost"], w["src"])]
    if q["assumptions"]: o += ["* Assumptions: %s." % "; ".join(q["assumptions"])]
    o += [""]
o += ["## Planted bugs and the checks that catch them", "", "| planted bug | property | needs | caught by (quick) |", "|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, "meta.json"))); o += ["| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), W["seeded"].get(s, m["property"]))]
o += ["", "## Genuine defects repaired", "", "Each line is one `fix:` commit in /repo; the check of the property reported it on the real code first and passes now.", ""]
for l in open(os.path.join(V, "known-findings.txt")):
    if l.startswith("fixed: "): _, pr, c, d = l.strip().split(" ", 3); o += ["* %s (%s): %s" % (pr.split("=")[1], c, d)]
o += ["", open(os.path.join(V, "tools/design.tail.md")).read().rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
