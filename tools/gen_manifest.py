#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(H, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if n is None:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "technique": n["technique"],
        "level": n.get("level", "model_checking"),
        "level_note": n["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks explore the real svgcleaner code (path dependency on /repo) exhaustively within the bounds stated in DESIGN.md; no hooks in /repo are needed.",
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
