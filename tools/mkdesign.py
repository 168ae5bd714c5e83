#!/opt/veriftools/pyvenv/bin/python
"""Writes /verif/DESIGN.md from the hand-written parts below, the modules in bfv/props, properties.jsonl, known_findings.json
and the planted bugs, so that it stays in step with them. Run: python3-vt tools/mkdesign.py"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
known = json.load(open(V + "/known_findings.json"))
plants = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    plants.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))

# per property: oracle / bounds / why tests cannot settle it
T = json.load(open(V + "/tools/design.json"))

out = [open(V + "/tools/design_head.md").read().rstrip() + "\n"]
out.append("\n## Properties: how each is decided\n")
for p in ps:
    m = importlib.import_module("bfv.props." + p["id"].lower())
    t = T.get(p["id"], {})
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    out.append("*Level*: %s. %s\n" % (m.LEVEL, m.NOTE))
    out.append("\n*Generated*: %s.\n" % m.RULE)
    for k in ("Oracle", "Bounds", "Reach"):
        if t.get(k):
            out.append("\n*%s*: %s\n" % ({"Reach": "Beyond the tests"}.get(k, k), t[k]))
    out.append("\n*Cost*: " + "; ".join("arm `%s` (executor bfv/ex/%s.py, %s): %d cases quick, %d thorough, %d shards%s"
               % (a.name, a.ex, {"serial": "library under ASan", "py": "Python extension under ASan", "cli": "built tools", "mix": "library, extension and tools",
                                 "threads": "C driver with sanitizer"}.get(a.kind, a.kind.replace("mpi", "MPI ranks: up to ")), a.counts["quick"], a.counts["thorough"], a.shards, ", plus fixed corner cases" if a.corners else "") for a in m.ARMS)
               + ". Each arm stops after %d s (quick) or %d s (thorough) at most.\n" % (max(a.guard["quick"] for a in m.ARMS), max(a.guard["thorough"] for a in m.ARMS)))
    if m.ASSUMPTIONS:
        out.append("\n*Assumes*: " + "; ".join(m.ASSUMPTIONS) + ".\n")
    if plants.get(p["id"]):
        out.append("\n*Planted*: " + "; ".join("`%s` (%s)" % (i, d["what_it_breaks"].rstrip(".")) for i, d in plants[p["id"]]) + ".\n")

out.append("\n" + open(V + "/tools/design_tail.md").read().rstrip() + "\n")
out.append("\n## Defects repaired in /repo\n\nEach is one \"fix:\" commit, listed in known_findings.json; the check passes on the repaired tree and reports the violation again if it returns.\n\n")
for f in known["fixed"]:
    out.append("- " + f.replace("fixed: property=", "") + "\n")
out.append("\nKnown findings not repaired: %s.\n" % ("none" if not known["findings"] else "; ".join(map(str, known["findings"]))))
out.append("\n## Planted bugs (/verif/seeded)\n\nEach was confirmed to build, pass the 30 stable tests, and fail its own demo.sh; each is caught by the check named.\n\n| change | check | needs | breaks |\n|---|---|---|---|\n")
for p in ps:
    for i, d in plants.get(p["id"], []):
        out.append("| %s | %s | %s | %s |\n" % (i, p["id"], d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
open(V + "/DESIGN.md", "w").write("".join(out))
