#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the plans"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C19": "Every recorded call of every family is accepted by Footprint.tla (areas placed against unmapped pages on either side, pattern-filled surroundings, all other objects compared byte for byte). Bounded by the generated calls; a read inside the same area but outside the designated part, or of unrelated mapped memory, is not observed.",
    "C20": "Recorded interleaved, nested and instruction-level preempted runs are accepted by Isolation.tla as shuffles of the histories each object has in a process of its own; MC_Isolation checks the specification itself. Single-stepped preemption of one call by complete calls; no multi-core memory model.",
}
DEFAULT = ("The TLA+ specification is model-checked exhaustively at small constants (MC_* modules), and executions of the real library - tours over the model's transitions, "
           "boundary sweeps and seeded random histories, built at -O0 and -O2 - are each accepted or rejected by TLC against the same specification. Assurance: exhaustive for the model, "
           "bounded by the generated executions for the code; trusts TLC and the oracle-free recording driver.")
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
                   "technique": "TLA+ specification checked with TLC; conformance by TLC trace validation of recorded executions" +
                                (" and model-derived test tours" if any(m[2] for m in plans.MODELS.get(i, [])) else ""),
                   "level": "model_checking", "level_note": NOTE.get(i, DEFAULT)})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. Known findings and repairs: known_findings.txt. Rejected traces are kept under replays/ (tools/replay.py PATH runs one again)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
