#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in checks.STAGES:
        out["checks"].append({
            "property": p,
            "quick_cmd": "python3 run.py %s quick" % p,
            "thorough_cmd": "python3 run.py %s thorough" % p,
            "technique": checks.TECHNIQUE.get(p, checks.DEFAULT_TECHNIQUE),
            "level": "model_checking",
            "level_note": checks.NOTE.get(p, checks.DEFAULT_NOTE)})
    else:
        out["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
