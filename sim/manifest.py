#!/usr/bin/env python3
"""Writes MANIFEST.json from settings.py and properties.jsonl."""
import json
import os

from settings import PROPS, NOTES, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
checks = []
for p in props:
    i = p["id"]
    if i not in PROPS:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick python3 /verif/sim/check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 /verif/sim/check.py " + i,
        "evidence_file": "/verif/evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": PROPS[i]["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 /verif/sim/build.py native py fast",
    "hooks": {"guard": "none", "enable": "none needed: the simulator replaces the compiler's instrumentation calls, OpenMP runtime, heap, clock, random device and file calls at link time", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]} for p in props if p["id"] in NOT_APPLICABLE],
    "notes": NOTES,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
missing = [p["id"] for p in props if p["id"] not in PROPS and p["id"] not in NOT_APPLICABLE]
print("%d checks, %d not applicable, undecided: %s" % (len(checks), len(m["not_applicable"]), missing))
