"""Writes MANIFEST.json from meta.py."""
import json
import os

from meta import META

H = os.path.dirname(os.path.abspath(__file__))
checks = []
for p in sorted(META):
    m = META[p]
    checks.append({
        "property": p,
        "quick_cmd": "/opt/veriftools/pyvenv/bin/python3 check.py %s --tier quick" % p,
        "thorough_cmd": "/opt/veriftools/pyvenv/bin/python3 check.py %s --tier thorough" % p,
        "technique": m.get("technique", "contract-based deductive verification (own VC generator, z3) with bounded stand-in"),
        "level": m["level"],
        "level_note": m.get("note", "bounded stand-in only so far"),
    })
man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
