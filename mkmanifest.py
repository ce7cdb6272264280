#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import checks  # noqa: E402
from vlib.notes import TECHNIQUE, NOTE, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in checks.CHECKS and i not in NOT_APPLICABLE:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s --thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECHNIQUE[i], "level": checks.CHECKS[i][1], "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
