#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties which have a check."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, ROOT + "/tools")
import check
T = ("TLA+ contract checked by TLC: conformance of recorded histories of the real code, run under controlled "
     "schedules from generated environment programs")
NOTE = ("TLC walks every distinct history recorded from the unmodified library sources through spec/Contract.tla "
        "(the guards of this property); histories come from environment programs executed under a deterministic "
        "scheduler with virtual time. Exhaustive on the recorded histories, sampled over schedules and programs.")
checks = []
for l in open(ROOT + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in check.gen.FAMILIES and p not in check.SPECIAL:
        continue
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p,
                   "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": T, "level": "model_checking",
                   "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py && python3 tools/build.py qt",
           "checks": checks, "not_applicable": []}, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
