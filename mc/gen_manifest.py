#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry in checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in CHECKS],
     "notes": "No hooks: every check drives the public API of the unmodified sources. run.py builds mc/<id>.cpp against "
              "/repo/src+include and against /repo/single_include and explores both."}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py check %s quick" % p,
                            "thorough_cmd": "python3 run.py check %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": c["technique"],
                            "level": c["level"], "level_note": c["note"]})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
