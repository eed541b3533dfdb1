#!/usr/bin/env python3
"""Fill the generated tables of DESIGN.md (between the marker comments)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(os.path.join(V, "known_findings.json")))
res = json.load(open(os.path.join(V, "tools", "bug_results.json")))


def cell(t):
    return t.replace("|", "\\|").replace("\n", " ")


rows = ["| property | status | what |", "|---|---|---|"]
for k in sorted(kf, key=lambda k: (k["status"] == "fixed", k["property"])):
    rows.append("| %s | %s | %s |" % (k["property"], k.get("commit") and "fixed " + k["commit"][:7] or "known (%s)" % k["tag"], cell(k["what"])))
findings = "\n".join(rows)
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (b, m["property"], cell(m["what_it_breaks"]), cell(m["needs"]), res.get(b, "?")))
bugs = "\n".join(rows)
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
for name, t in (("FINDINGS", findings), ("BUGS", bugs)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + t + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
