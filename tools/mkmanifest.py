#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/config.py (run by hand when that changes)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from config import PROPS
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = PROPS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique", "TLA+ specification checked with TLC; recorded behaviours of the real code validated against it"),
        "level": "model_checking",
        "level_note": c["note"]})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: instrumentation is generated from the working tree at check time and laid over it with go's -overlay."},
  open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
