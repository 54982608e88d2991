#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/")))
p = here + "/DESIGN.md"
s = open(p).read()
head = "| change | caught by | needs |\n|---|---|---|\n"
s = s[: s.index(head)] + head + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows), "planted changes")
