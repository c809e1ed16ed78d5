#!/usr/bin/env python3
"""Write MANIFEST.json from analysis/registry.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "analysis"))
import registry
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = ("Static: decided from the MIR of /repo's current tree on every run, for all paths through all server threads "
        "(loops closed by widening, all local calls inlined). Trusts rustc's MIR construction, the models of library "
        "functions in analysis/models.py, and that values decoded from outside are unconstrained.")
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s" % i,
                            "technique": c.get("technique", "path-sensitive dataflow (abstract interpretation of MIR) with per-property rules"),
                            "level": "other", "level_note": c["explain"] + " " + c.get("note", NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NA.get(i, "No check yet.")})
m["notes"] = "Each check extracts MIR from /repo (bin/extract.sh), analyses it (analysis/) and writes evidence/<id>.json."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
