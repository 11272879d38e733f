#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and properties_config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from properties_config import CONFIG, ASSUMPTIONS, TECHNIQUE, NOTE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in CONFIG: continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECHNIQUE[i],
        "level": CONFIG[i]["level"],
        "level_note": NOTE[i],
    })
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
       "not_applicable": [],
       "notes": "No hooks in /repo are needed: the library is observed through its public API, the files it writes, the allocator's hooks, basic-block "
                "instrumentation added by the compiler and an in-process system-call filter. Every check rebuilds /repo's working tree."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1); f.write("\n")
