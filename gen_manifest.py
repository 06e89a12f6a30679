#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
from props import PROPS
NA = {
    "C30": "A pure function of its argument: no concurrency, time, I/O or fault for a simulated schedule to decide, so seeded schedule and fault search adds nothing to calling it.",
    "C32": "Pure arithmetic without scheduling, time or I/O.",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick ./check %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real code in one simulated process, with invariants and history checks" + PROPS[i].get("oracle", ""),
            "level": "exploration",
            "level_note": PROPS[i].get("note", "Sampled schedules, fault sequences and workloads; sequentially consistent interleavings plus a happens-before race detector. A clean batch is not a proof."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "Not built yet.")})
json.dump({
    "version": 1,
    "setup_cmd": "./check --build-all",
    "checks": checks,
    "not_applicable": na,
}, open("MANIFEST.json", "w"), indent=1)
