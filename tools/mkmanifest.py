#!/usr/bin/env python3
"""Writes MANIFEST.json from the specs that exist (python3 tools/mkmanifest.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
    elif os.path.exists(os.path.join(HERE, "specs", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd="python3-vt check.py " + pid,
                           thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + pid,
                           technique="contract-based deductive verification of the real Python source (symbolic execution against contracts, obligations discharged by ring normalisation, z3 and cvc5)",
                           level="proof", level_note=NOTE.get(pid, "")))
    else:
        na.append(dict(property=pid, reason="not claimed yet: contracts planned in DESIGN.md are not finished"))
json.dump(dict(version=1, setup_cmd="python3-vt -c \"import z3, sympy; print('ok')\"", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
