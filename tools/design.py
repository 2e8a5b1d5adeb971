#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    by = m.get("caught_by", m["property"])
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), by, m["what_it_breaks"], m["needs"]))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s, flags=re.S)
open(p, "w").write(s)
