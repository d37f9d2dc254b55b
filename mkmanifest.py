#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
import checks
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
out = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out["checks"].append(dict(
            property=i,
            quick_cmd="python3 run.py %s --tier quick" % i,
            thorough_cmd="python3 run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=c["technique"] or "runtime monitoring: randomized workload of the real code under "
            "address/undefined sanitizers, checked online by a reference-model oracle",
            level=c["level"],
            level_note=c["note"] or "Held on the executions explored (counts in the evidence file); "
            "trusts the reference model of the harness, the compiler and its sanitizers."))
    else:
        out["not_applicable"].append(dict(property=i, reason=checks.NA.get(i, "check not built yet")))
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
