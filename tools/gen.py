#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and tools/levels.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P
try:
    from levels import CHECKS, NOT_APPLICABLE
except ImportError:
    CHECKS, NOT_APPLICABLE = {}, {}

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

checks = []
na = []
for p in P:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh %s" % i,
            "thorough_cmd": "./run.sh %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks run the real pypsrp from /repo/src with /opt/venv/bin/python; VERIF_TIER selects the workload size. No hooks are needed in /repo.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties", len(checks), "checks", len(na), "not claimed")
