#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
text = "\n".join(["<!-- seeds -->", "| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"] + rows + ["<!-- /seeds -->"])
p = V + "/DESIGN.md"
t = open(p).read()
open(p, "w").write(re.sub("<!-- seeds -->.*<!-- /seeds -->", lambda _: text, t, flags=re.S))
print(len(rows), "planted bugs")
