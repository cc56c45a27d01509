#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the p_*.py modules present."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import importlib
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "bin", "p_%s.py" % i.lower())):
        m = importlib.import_module("p_" + i.lower())
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet (see DESIGN.md for the plan)"})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "hooks": {"guard": "CPPQED_VERIF", "enable": "none needed: the harnesses use public interfaces only", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
