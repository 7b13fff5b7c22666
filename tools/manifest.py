#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "static analysis: trace-partitioned abstract interpretation of the SSA form (value numbering, provenance dataflow, typestate) with repository-specific rules"
NOTE = ("Decides structural necessary conditions of the property on every abstract path of the entry points (rules listed in DESIGN.md and in the evidence file), "
        "not the whole behaviour. Trusts the Go type checker, the SSA builder, the analyzer and the modelled behaviour of the standard library; loops are unrolled a bounded number of times with loop-carried values widened. ")
EXTRA = {}
CLAIM = [f"C{i:02d}" for i in range(1, 19)]
NA = {}
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "other", "level_note": NOTE + EXTRA.get(p, "")} for p in CLAIM],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks: the checks read /repo's source as it is. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
