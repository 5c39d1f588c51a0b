#!/usr/bin/env python3
"""Writes DESIGN.md from spec/design.md, the planted bugs and spec/caught.lst ('<id> <check> ...' per line)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(V, "spec", "caught.lst")):
    a = l.split()
    if a:
        caught[a[0]] = a[1:]
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/").replace("\n", " "), " ".join(caught.get(i, [])) or "(not run)"))
s = open(os.path.join(V, "spec", "design.md")).read().replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
