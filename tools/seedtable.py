#!/usr/bin/env python3
# Rewrites the table of section 5 of DESIGN.md from seeded/*/meta.json.
import json, glob, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
late = dict(l.split(None, 1) for l in open(os.path.join(H, "tools/seednotes.txt")).read().splitlines() if l.strip())
rows = ["| bug | property | what it breaks | needs | check |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "seeded/b*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); i = os.path.basename(d)
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], late.get(i, m["property"] + " catches it").strip()))
p = os.path.join(H, "DESIGN.md"); s = open(p).read()
s = re.sub(r"(?s)<!-- table -->.*?<!-- /table -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->", s); open(p, "w").write(s)
