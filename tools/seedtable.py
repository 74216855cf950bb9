#!/usr/bin/env python3
"""Rewrites the table of section 6 of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for i in sorted(os.listdir(V + "/seeded")):
    rows.setdefault(json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"], []).append("`%s`" % i)
t = "".join("| %s | %s |\n" % (p, ", ".join(l)) for p, l in sorted(rows.items()))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"(\| property \| planted changes caught by its check \|\n\|---\|---\|\n)(\|.*\n)+", lambda m: m.group(1) + t, d)
d = re.sub(r"Each of the \d+ changes under", "Each of the %d changes under" % sum(map(len, rows.values())), d)
open(V + "/DESIGN.md", "w").write(d)
