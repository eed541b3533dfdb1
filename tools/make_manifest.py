#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in registry.PROPS:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
        continue
    c = registry.PROPS[i]
    design = ", ".join(m["module"] for m in c["mc"])
    checks.append({
        "property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
        "technique": "TLA+ specification checked with TLC; real code driven from TLC-generated and random scenarios, recorded traces judged by TLC (%s)" % c["trace"],
        "level": c["level"],
        "level_note": c.get("note") or (
            ("TLC checks the design (%s) exhaustively within small bounds; " % design if design else "") +
            "conformance of the code is checked on every recorded trace against %s. Trusts the projection in drivers/%s.py and java/Rat.java; "
            "inputs outside the generated families are not covered." % (c["trace"], c["driver"]))})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+/TLC. No hooks in /repo are needed: public functions are the observation points."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
