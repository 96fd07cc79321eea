#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import checks as C
NA = getattr(C, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "make -s -j8 -C engine", "checks": [], "not_applicable": []}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in C.CHECKS:
        c = C.CHECKS[p]
        b = c["bounds"]
        b = b["quick"] if isinstance(b, dict) else b
        m["checks"].append({
            "property": p, "quick_cmd": "bin/check.py %s --tier quick" % p, "thorough_cmd": "bin/check.py %s --tier thorough" % p,
            "technique": "bounded symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3); counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "every value within these bounds: " + b + (". " + c["note"] if c.get("note") else "")})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
