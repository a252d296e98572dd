#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the not-applicable list."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
           "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection (seeded search over operation schedules and fault sequences, reference model, replayable minimised traces)",
           "level": "exploration", "level_note": PROPS[i]["note"]} for i in ids if i in PROPS]
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": na,
     "notes": "One simulator (sim/sim.h, sim/runner.cpp) and one scenario file per property; python3 check.py --replay FILE replays a violation. No hooks in /repo: the library's own seams (explicit seeds, listeners, generator and test callbacks, operator new, instrumented atomics) are enough."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
