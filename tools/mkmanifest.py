#!/usr/bin/env python3-vt
"""MANIFEST.json from properties.jsonl and the modules in bfv/props"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    pid = p["id"]
    if not os.path.exists("%s/bfv/props/%s.py" % (V, pid.lower())):
        na.append({"property": pid, "reason": "no check yet"})
        continue
    m = importlib.import_module("bfv.props." + pid.lower())
    checks.append({"property": pid, "quick_cmd": "python3-vt check.py " + pid,
                   "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": getattr(m, "TECHNIQUE", "property-based testing: generated histories against an independent reference model, with shrinking"),
                   "level": m.LEVEL,
                   "level_note": m.NOTE + (" Assumes: " + "; ".join(m.ASSUMPTIONS) + "." if getattr(m, "ASSUMPTIONS", None) else "")})
out = {"version": 1, "setup_cmd": "python3-vt -m bfv.build", "checks": checks, "not_applicable": na,
       "notes": "check.py ID decides one property; check.py --replay FILE re-executes a counterexample. See DESIGN.md. /repo carries no hooks, only fix commits."}
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
