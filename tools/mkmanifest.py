#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import plans
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = getattr(plans, "TECH", {})
NOTE = getattr(plans, "NOTE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plans.PLANS:
        na.append(dict(property=i, reason="check not built yet"))
        continue
    checks.append(dict(
        property=i,
        quick_cmd="python3 bin/check.py %s" % i,
        thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s" % i,
        evidence_file="evidence/%s.json" % i,
        technique=TECH.get(i, "runtime monitoring: online comparison of monitored executions with an executable reference"),
        level="exploration",
        level_note=NOTE.get(i, "Held on every execution observed; no claim beyond them. Trusts: " + "; ".join(plans.PLANS[i]["assumes"]) + "."),
    ))
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed through the public API.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
