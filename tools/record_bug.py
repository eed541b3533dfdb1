"""record_bug.py ID PROPERTY RC LINE: note what a check said about a planted bug."""
import json, os, re, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "bug_results.json")
d = json.load(open(p)) if os.path.exists(p) else {}
i, prop, r, line = sys.argv[1:]
c = re.search(r"clauses \[(.*)\]", line)
d[i] = ("%s: %s" % (prop, c.group(1).replace("'", "") if c else "")) if r == "1" else "not caught"
json.dump(d, open(p, "w"), indent=1, sort_keys=True)
