"""Record a repaired defect: fixed.py PROPERTY COMMIT WHAT"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
L = d if isinstance(d, list) else d["findings"]
pid, c, w = sys.argv[1:4]
L.append({"property": pid, "status": "fixed", "commit": c, "what": w, "text": f"fixed: property={pid} {c} {w}"})
json.dump(d, open(p, "w"), indent=1)
