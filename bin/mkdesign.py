#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(R, "seeded")
M = {s: json.load(open(os.path.join(D, s, "meta.json"))) for s in os.listdir(D)}
T = ["| change | property, and check that reports it | what it needs |", "|----|----|----|"]
T += ["| %s | %s | %s |" % (s, M[s]["property"], M[s]["needs"]) for s in sorted(M, key=lambda s: (M[s]["property"], s))]
p = os.path.join(R, "DESIGN.md")
t = open(p).read()
mark = "<!-- table -->\n"
open(p, "w").write(t[:t.index(mark)] + mark + "\n".join(T) + "\n")
