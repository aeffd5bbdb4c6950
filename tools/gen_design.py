#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + a table generated from engine/checks.py + tools/design_tail.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import checks
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
o = open(V + "/tools/design_head.md").read()
o += "\n## Per property\n\n"
for p in P:
    i = p["id"]
    if i not in checks.CHECKS: continue
    c = checks.CHECKS[i]
    if c.get("kind") == "bmc": how = "CBMC: " + ", ".join(sorted({"cbmc/" + j["harness"] for j in c["jobs"]})) + " (%d jobs)" % len(c["jobs"])
    elif c.get("kind"): how = c.get("how", c["kind"])
    else: how = "symrun: " + ", ".join("harness/%s%s" % (u["harness"], (" " + " ".join(u["defs"])) if u["defs"] else "") for u in c["units"]) + "; budget %d s quick, %d s thorough" % tuple(c["budget"])
    o += "**%s — %s.** %s. Bounds: %s.%s\n\n" % (i, p["title"], how, c["bounds"], (" Assumes: " + "; ".join(c["assume"]) + ".") if c.get("assume") else "")
o += "### Not applicable\n\n"
for p in P:
    if p["id"] not in checks.CHECKS: o += "**%s — %s.** %s\n\n" % (p["id"], p["title"], checks.NA.get(p["id"], "not built"))
o += open(V + "/tools/design_tail.md").read()
open(V + "/DESIGN.md", "w").write(o)
