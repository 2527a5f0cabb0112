#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from hv.checks import CHECKS, NOTES  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification, TLC model checking, replay of its behaviours and trace validation of recorded executions",
                       "level": "model_checking", "level_note": NOTES.get(i, NOTES[""])})
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, TLC). bin/check builds the conformance driver in harness/ against /repo's "
              "working tree in a temporary directory. No hooks in /repo are needed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
