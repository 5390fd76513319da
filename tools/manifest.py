#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand after adding a check."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
# id -> (technique, level, note)
notes = json.load(open(f"{root}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes:
        t, l, n = notes[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": "The check for this property is not built yet."})
m = {"version": 1, "setup_cmd": "./build.sh mc terms repo", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: all properties are observed through public functions, the command line and HTTP."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
