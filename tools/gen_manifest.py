#!/usr/bin/env python3
"""Writes MANIFEST.json. Run from anywhere."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
checks = []
na = []
for p in props:
    i = p["id"]
    if i not in LEVELS:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
        continue
    level, technique, note = LEVELS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": technique, "level": level, "level_note": note,
    })
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
