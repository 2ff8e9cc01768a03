#!/usr/bin/env python3
"""mkdesign.py LOG: puts the results of 'seed.py test' into DESIGN.md, below the SEEDS mark."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for l in open(sys.argv[1]):
    p = l.rstrip("\n").split(" ; ")
    if len(p) > 4:
        rows[p[0]] = (p[1], "; ".join(x for x in p[5:] or p[-1:]))
# rows of earlier runs stay where this one has none
t = open(HERE + "/DESIGN.md").read()
old = {l.split("|")[1].strip(): l for l in t[t.index("<!-- SEEDS -->"):].splitlines() if l.startswith("| c")}
out = ["| bug | property | needs | reported by its check as |", "|---|---|---|---|"]
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{d}/meta.json"))
    r = rows.get(d)
    if r is None and d in old:
        out.append(old[d])
        continue
    res = r[1] if r else "(not run)"
    res = res.split("CAUGHT ", 1)[1][:90] if "CAUGHT " in res else "**MISSED** " + res[:60]
    out.append(f"| {d} | {m['property']} | {m['needs']} | {res} |".replace("\n", " "))
p = HERE + "/DESIGN.md"
s = open(p).read()
i = s.index("<!-- SEEDS -->")
open(p, "w").write(s[:i] + "<!-- SEEDS -->\n" + "\n".join(out) + "\n")
print(len(out) - 2, sum("MISSED" in x for x in out))
