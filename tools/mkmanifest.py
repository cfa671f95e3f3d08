#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and checks.py."""

import json
import os

from checks import CHECKS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 run.py %s --tier quick" % p,
        "thorough_cmd": "python3 run.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "The monitor is not built yet."} for p in props if p not in CHECKS],
    "notes": "No hooks in /repo: the monitors sit at the public store traits and at libc's file system calls.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
