#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
text = open(p).read()
mark = "## 6. Planted changes\n"
head = text.split(mark)[0]
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
open(p, "w").write(head + mark + "\nEach is in `seeded/<id>/` with its demonstration and compiles and passes the existing tests.\n\n| id | what it breaks | needs | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
print(len(rows), "planted changes")
