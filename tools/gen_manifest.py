#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks as T
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --build-engine", "checks": [], "not_applicable": []}
for i in ids:
    if i in T.CHECKS:
        c = T.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "solver-based checking: symbolic execution of the real code's LLVM IR, Z3, native replay", "level": "model_checking",
            "level_note": "Holds for every input within the bounds: " + c["bounds"] + ". Trusted: the engine in symex/, Z3, clang's IR" + ("; assumed: " + "; ".join(c["assumptions"]) if c["assumptions"] else "") + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": T.NOT_APPLICABLE.get(i, "no check yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
