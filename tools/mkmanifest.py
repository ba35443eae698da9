#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from checks import CHECKS, NOT_APPLICABLE  # noqa
V = os.path.dirname(H)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: harness packages are laid over the tree with 'go test -overlay'. See DESIGN.md."}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p,
                            "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
