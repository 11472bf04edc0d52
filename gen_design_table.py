#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md after the line '## Planted bugs' from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
rows = []
for m in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/").replace("\n", " ")))
p = os.path.join(here, "DESIGN.md")
t = open(p).read().split("## Planted bugs")[0]
t += """## Planted bugs

Each is caught (exit 1, VIOLATION line of its property) by the quick check of the property it is listed under, with
VERIF_SEED=1; patches and demonstrations are in seeded/.

| bug | caught by | what it breaks | what it needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(t)
