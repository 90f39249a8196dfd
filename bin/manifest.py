#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NOTE = ("TLC checks the property on the exact-rational TLA+ model within small bounds and exports every behaviour; "
        "these and seeded random sessions are executed on the real library and each recorded event is decided by TLC "
        "against the specification, with computed rounding bounds. Trusts TLC, the rational module override (compared "
        "with its pure TLA+ definition), the recorder, and the bounds of the enumeration and sampling.")
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']} quick",
                 "thorough_cmd": f"python3 bin/check.py {p['id']} thorough",
                 "technique": "TLA+ specification checked with TLC; model behaviours replayed on the library and recorded traces validated against the specification by TLC",
                 "level": "model_checking", "level_note": NOTE} for p in props],
     "not_applicable": [],
     "notes": "No hooks in /repo. See DESIGN.md and known_findings.txt."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
