#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and tools/checks.json (ids claimed, level, note)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(f"{root}/properties.jsonl") if l.strip()]
claims = json.load(open(f"{here}/checks.json"))
checks = []
for p in props:
    c = claims.get(p["id"])
    if not c:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    })
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks,
     "not_applicable": claims.get("not_applicable", [])}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks; unclaimed:", [p["id"] for p in props if p["id"] not in claims])
