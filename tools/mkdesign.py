#!/usr/bin/env python3
"""Appends the table of planted changes to DESIGN.md from seeded/*/meta.json and the output of tools/trybugs.py (a development tool).
mkdesign.py TRYBUGS_OUTPUT..."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for p in sys.argv[1:]:
    for l in open(p, errors="replace"):
        m = re.match(r"(\S+)\s+(C\d\d) (CAUGHT|MISSED)", l)
        if m:
            got.setdefault(m[1], {})[m[2]] = m[3]
rows = ["| change | what it needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{d}/meta.json"))
    c = sorted(k for k, v in got.get(d, {}).items() if v == "CAUGHT")
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "\\|"), ", ".join(c) or "not caught"))
p = HERE + "/DESIGN.md"
t = open(p).read()
a, b = "<!-- planted: begin -->\n", "<!-- planted: end -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
