#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
CHECKS = json.loads((V / "tools" / "checks.json").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
done = CHECKS["checks"]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [],
    "not_applicable": [],
}
if CHECKS.get("hooks"):
    m["hooks"] = CHECKS["hooks"]
for p in props:
    i = p["id"]
    if i in done:
        d = done[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": d["technique"],
            "level": "model_checking",
            "level_note": d["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
m["notes"] = CHECKS.get("notes", "")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
