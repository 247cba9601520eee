#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json and the last
results of `tools/plant.py --check` given on standard input (lines: id property caught|MISSED ...). Not used by any check."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in (sys.stdin if not sys.stdin.isatty() else ()):
    p = line.split()
    if len(p) >= 3 and p[2] in ("caught", "MISSED"):
        res[p[0]] = p[2]
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"),
                                           {"caught": m["property"], "MISSED": "missed"}.get(res.get(i), m["property"])))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- seeded: begin -->\n", "<!-- seeded: end -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "| bug | needs | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(V + "/DESIGN.md", "w").write(s)
