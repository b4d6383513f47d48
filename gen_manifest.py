#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V); sys.dont_write_bytecode = True
import plan
checks, na = [], []
for l in open(f"{V}/properties.jsonl"):
    d = json.loads(l); i = d["id"]
    if i not in plan.Q:
        na.append({"property": i, "reason": plan.NA.get(i, "harness not built yet")}); continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
        "technique": plan.TECH.get(i, "stateless model checking of the real code (exhaustive bounded exploration of operation sequences, schedules and environment answers)"),
        "level": "model_checking", "level_note": plan.NOTE.get(i, "every execution of the closed programs listed in plan.py within their bounds, on the real library; nothing is claimed beyond the bounds")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
