#!/usr/bin/env python3
"""Write MANIFEST.json from tools/config.py."""
import json
import os
import sys

here = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, here)
from config import CONFIG  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(here, "..", "properties.jsonl"))]
checks = []
na = []
for p in props:
    pid = p["id"]
    c = CONFIG.get(pid)
    if not c:
        na.append({"property": pid, "reason": "no check has been built yet"})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s quick" % pid,
        "thorough_cmd": "./check %s thorough" % pid,
        "technique": c.get("technique", "property-based testing: generated inputs (rapid) against an independent model, with shrinking"),
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", "Randomised search over generated cases with an explicit oracle; assurance is limited to the explored cases. "
                                    "Trusts the harness model and the Go toolchain."),
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
