#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties listed in CLAIMED (or all)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
import re
src = ''.join(open(os.path.join(here, 'zzv/mc', f)).read() for f in os.listdir(os.path.join(here, 'zzv/mc')) if f.endswith('.go'))
have = set(re.findall(r'ID:\s+"([A-Z]\d\d)"', src))
notes = json.load(open(os.path.join(here, 'tools/levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i not in have:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    n = notes.get(i, {})
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": n.get("technique", "explicit-state exploration of the real code against a reference model"),
        "level": "model_checking",
        "level_note": n.get("note", "Exhaustive within the stated bounds on the real code; trusts the controlled runtime and the in-memory model of the database."),
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are committed to /repo: the checks instrument its working tree through a build overlay."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
