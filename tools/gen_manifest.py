#!/usr/bin/env python3
"""Rewrites the checks of MANIFEST.json: gen_manifest.py C01 C02 ..."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
m = json.load(open(p))
NOTE = {
    "C03": "seeded random search; interruption at random callbacks of bounded programs",
    "C04": "seeded random search; interruption at random callbacks of bounded programs",
    "C05": "seeded random search; failures at random writes",
    "C06": "seeded random search; bounded streams",
    "C07": "seeded random schedules; at most 4 threads, bounded programs",
    "C08": "seeded random schedules and interruptions; small integers, bounded programs",
    "C10": "seeded random search; large enumerations walked in part",
    "C11": "seeded random search; bounded programs, rounding bound with a safety factor",
}
m["checks"] = [
    {
        "property": i,
        "quick_cmd": f"bash run.sh check {i}",
        "thorough_cmd": f"bash run.sh check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": NOTE.get(i, "seeded random search; bounded programs"),
    }
    for i in sys.argv[1:]
]
json.dump(m, open(p, "w"), indent=1)
open(p, "a").write("\n")
