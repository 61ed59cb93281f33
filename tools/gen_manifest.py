#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NA = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
TECH = "explicit-state model checking of the implementation: exhaustive bounded enumeration of inputs/histories executed on the real code, compared step by step with an independent reference model"
checks = []
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="python3 /verif/run.py %s --tier quick" % p,
                           thorough_cmd="python3 /verif/run.py %s --tier thorough" % p,
                           technique=c.get("technique", TECH), level=c.get("level", "model_checking"),
                           level_note=c.get("note", "exhaustive within the bounds listed per family in the evidence file's rule field; real code, no abstraction")))
na = [dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd="sh /verif/setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
