#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | needs in order to manifest | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), m.get("caught_by", m["property"] + " quick")))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
a, rest = s.split("<!-- seeds -->"); _, b = rest.split("<!-- /seeds -->")
open(p, "w").write(a + "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->" + b)
print(len(rows) - 2, "planted bugs")
