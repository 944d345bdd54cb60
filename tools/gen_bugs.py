#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| bug | needs | what it breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
s = re.sub(r"\| bug \|.*?\n\n", lambda _: "\n".join(rows) + "\n\n", s, count=1, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2)
