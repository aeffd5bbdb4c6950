#!/usr/bin/env python3
"""MANIFEST.json from engine/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import checks
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        out["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 engine/run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 engine/run.py " + p,
            "evidence_file": "evidence/%s.json" % p, "technique": c.get("technique", "symbolic execution of the LLVM IR over the reals, Z3 (QF_NRA)"), "level": c.get("level", "model_checking"),
            "level_note": "Bounded: " + c["bounds"] + ". " + c.get("note", "Every real input value within these shapes is covered by the solver; rounding is not modelled; trusts clang 18, the rewriting pass, the runtime and Z3. Counterexamples are reported only when they fail on the real gcc build.")})
    else:
        out["not_applicable"].append({"property": p, "reason": checks.NA.get(p, "check under construction")})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")
