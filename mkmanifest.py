#!/usr/bin/env python3
"""Writes MANIFEST.json: claims every property which has a check in checks/"""
import json
import os
import mkprops

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
NOTES = {}
NA = {
}
exec(open(os.path.join(HERE, "notes.py")).read())

checks = []
na = []
for p in mkprops.P:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")) and i not in NA:
        t, n = NOTES.get(i, (DEF_T, DEF_N))
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick {PY} run.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough {PY} run.py {i}",
            "technique": t, "level": "model_checking", "level_note": n,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1,
           "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, '.'); import sym.core, sym.build\"",
           "checks": checks, "not_applicable": na,
           "notes": "One symbolic execution engine (sym/), one file per property (checks/); see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
