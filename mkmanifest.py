#!/usr/bin/env python3
"""Regenerates MANIFEST.json from scenarios.py and properties.jsonl."""
import json, os
from scenarios import SCENARIOS
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
NA = {
 "N01": "Pure function of the fitted data: no concurrency, time, I/O, allocation-failure or multi-party behaviour takes part; deciding it is numerical analysis of the linear system, not simulation. (The history-dependent part, that a refit interpolates its own knots, is C12.)",
 "N02": "Pure function of coefficients and query time; nothing to schedule or inject.",
 "N03": "Pure function of the knot poses; nothing to schedule or inject, and kindr is not installed.",
 "N04": "Pure algebraic relation between two fits; nothing to schedule or inject.",
 "N05": "Pure function of one number; nothing to schedule or inject.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SCENARIOS:
        sc = SCENARIOS[i]
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: " + sc.get("technique", "seeded search over schedules, histories and faults against an executable reference model, with minimised replay"),
            "level": sc.get("level", "exploration"),
            "level_note": sc.get("note", "Seeded exploration of the real code inside the simulator; assurance is what the evidence counts, no proof. Trusts the simulator, the reference model and the compiler's instrumentation."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the compiler's memory-access callbacks and interposed libc/pthread symbols. Replay: python3 check.py <id> --replay <file> (or --explain)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
