"""finding.py ID PROPERTY COMMIT WHAT: append a fixed entry."""
import json
import os
import sys

F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 "known_findings.json")
try:
    d = json.load(open(F))
except FileNotFoundError:
    d = {"findings": []}
i, p, c, w = sys.argv[1:5]
d["findings"].append({"id": i, "status": "fixed", "property": p,
                      "commit": c,
                      "what": f"fixed: property={p} {c} {w}"})
json.dump(d, open(F, "w"), indent=1)
