#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py; properties without a check go under not_applicable."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import registry
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        mod, fn, level, tech, note = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no sound monitor has been built for this property yet, so nothing is claimed for it")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the instrumented library from /repo's working tree itself; no hooks are needed in /repo."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
