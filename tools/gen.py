"""Write properties.jsonl and MANIFEST.json from plist.py and the harnesses."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, VERIF]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from plist import P  # noqa: E402

from sx import runner  # noqa: E402

runner.load_props()
NA = {}
try:
    from na import NA, NOTES  # noqa: E402
except ImportError:
    NOTES = {}

TECH = ("symbolic execution of the repository's Python source over exact "
        "reals, obligations decided by Z3, counterexamples replayed on the "
        "real code")

with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")

checks, na, allb = [], [], {}
for p in P:
    i = p["id"]
    cs = runner.REG.get(i)
    if not cs or i in NA:
        na.append({"property": i,
                   "reason": NA.get(i, "check not built yet")})
        continue
    bounds = []
    for c in cs.values():
        if c.bounds and c.bounds not in bounds:
            bounds.append(c.bounds)
    allb[i] = bounds
    note = "Holds for every value within: " + "; ".join(bounds) + ". "
    note += NOTES.get(i, "")
    note += (" Exact real arithmetic (no rounding); library functions by "
             "their contracts, validated against the real libraries on "
             "sampled constants.")
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} --tier quick",
        "thorough_cmd": f"./check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH,
        "level": "model_checking",
        "level_note": note[:1800],
    })
m = {
    "version": 1,
    "setup_cmd": "./check --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. See DESIGN.md.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
import design  # noqa: E402

design.write(P, allb)
