"""addfix.py PROP COMMIT TEXT: records a repaired defect in known_findings.json."""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
n = 1 + max(int(f["id"][1:]) for f in d["findings"])
prop, commit, text = sys.argv[1:]
d["findings"].append({"id": "F%d" % n, "property": prop, "status": "fixed", "commit": commit,
                      "what": "fixed: property=%s %s %s" % (prop, commit, text)})
json.dump(d, open(p, "w"), indent=1)
print("F%d" % n)
