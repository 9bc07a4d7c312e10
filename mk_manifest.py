#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
built = open(os.path.join(here, "built.txt")).read().split()
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
TECH = {
    "C01": "guarded heap, valgrind memcheck and heap-balance monitors around generated native-library workloads",
    "C02": "bitwise comparison of concurrent and sequential executions of the same generated workloads",
}
DEF = "generated workloads on the real code with independent oracles, run under a guarded heap with overflow and debug assertions"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in built:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, DEF),
            "level": "exploration",
            "level_note": "held on the executions counted in the evidence file; nothing is claimed about inputs the generators never produce",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. known_findings.txt lists repaired defects and open findings."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
