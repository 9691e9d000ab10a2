"""addcaught.py LOG...: merge results of plant.py into tools/caught.txt."""
import os
import re
import sys

H = os.path.dirname(os.path.abspath(__file__))
F = os.path.join(H, "caught.txt")
S = os.path.join(os.path.dirname(H), "seeded")
d = {}
for f in [F] + sys.argv[1:]:
    for l in open(f) if os.path.exists(f) else ():
        m = re.match(r"(\w+ \[\w+\]): .*?((?:CAUGHT|MISSED) exit=\d+ \d+s)", l)
        if m and os.path.isdir(os.path.join(S, m[1].split()[0])):
            d[m[1]] = m[2]
with open(F, "w") as fh:
    for k in sorted(d):
        fh.write(f"{k}: {d[k]}\n")
