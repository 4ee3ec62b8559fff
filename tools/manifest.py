#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
from specs import SPECS, NOTES, NA
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p not in SPECS: continue
    tech, note = NOTES[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": tech, "level": "model_checking", "level_note": note})
na = [{"property": p, "reason": NA.get(p, "not built yet")} for p in props if p not in SPECS]
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(0)\"", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harnesses compile the unmodified sources. Every check builds its harness afresh under /verif/build from /repo's working tree."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
