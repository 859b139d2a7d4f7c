#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties with a check in checks/ are claimed, the rest are listed as not claimed."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in ids:
    if os.path.exists(os.path.join(ROOT, "checks", p + ".py")):
        m = importlib.import_module("checks." + p)
        checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                       "technique": m.TECHNIQUE, "level": "exploration", "level_note": m.NOTE})
    else:
        na.append({"property": p, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -m vlib.build plain asan", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
