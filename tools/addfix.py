#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT what...: record a repaired defect in known_findings.json"""
import json, sys
p, c, what = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
f = "/verif/known_findings.json"
k = json.load(open(f))
k["findings"].append({"status": "fixed", "property": p, "commit": c, "what": what, "line": f"fixed: property={p} {c} {what}"})
json.dump(k, open(f, "w"), indent=2)
open(f, "a").write("\n")
