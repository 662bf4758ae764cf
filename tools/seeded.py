#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from /verif/seeded."""
import json, glob, os
print("| Planted bug | Check | Needs |\n|---|---|---|")
rows = []
for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"]))
for p, i, n in sorted(rows):
    print("| %s | %s | %s |" % (i, p, n))
