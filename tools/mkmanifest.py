#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties the harness implements."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
have = subprocess.run([f"{here}/target/debug/vx", "list"], capture_output=True, text=True).stdout.split()
tech = json.load(open(f"{here}/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = tech[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t[0], "level": "exploration", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash vx.sh build", "checks": checks, "not_applicable": na,
     "notes": "All checks drive the real code (library API and command-line binary) built from /repo with overflow and debug assertions on; no hooks in /repo are needed."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
