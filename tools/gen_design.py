#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
What caught each is in tools/caught.json (written by hand runs of the checks)."""
import glob, json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
caught = json.load(open(os.path.join(here, "caught.json")))
rows = []
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append((m["property"], i, m["needs"], caught.get(i, "not yet run")))
t = "| property | planted bug | needs | what reports it |\n|---|---|---|---|\n" + "".join(
    f"| {p} | {i} | {n} | {c} |\n" for p, i, n, c in sorted(rows))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- planted -->.*<!-- end -->", lambda _: "<!-- planted -->\n" + t + "<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
