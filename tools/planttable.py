#!/usr/bin/env python3
"""planttable.py CATCH-OUTPUT: writes the table of planted bugs in DESIGN.md
from seeded/*/meta.json and the output of `plant.py catch`."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for l in open(sys.argv[1], errors="replace"):
    m = re.match(r"(\S+) (C\d\d) rc=(\d)", l)
    if m:
        sig = re.search(r"VIOLATION ([\w.+-]+):", l)
        got[m[1]] = ("caught" + (" (`%s`)" % sig[1] if sig else "")) if m[3] == "1" else "MISSED"
rows = ["| change | property | needs | check |", "|---|---|---|---|"]
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
    needs = m["needs"] if isinstance(m["needs"], str) else "; ".join(m["needs"])
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], needs.replace("|", "/").replace("\n", " "), got.get(i, "not run")))
p = HERE + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- plants -->\n", "<!-- /plants -->\n"
if a not in s:
    s = s.rstrip() + "\n\n## Planted bugs\n\nEach was written from a property and the code alone, passes the existing tests, and is run against the\nquick check of its property (C10 and others also catch several more).\n\n" + a + b
x, y = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:x] + "\n".join(rows) + "\n" + s[y:])
