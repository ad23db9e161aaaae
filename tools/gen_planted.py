#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set()  # planted bugs the check of their property does not find
rows = ["| id | property | needs | breaks | found by |", "|---|---|---|---|---|"]
metas = {os.path.basename(os.path.dirname(p)): json.load(open(p)) for p in glob.glob(root + "/seeded/*/meta.json")}
for i, m in sorted(metas.items(), key=lambda x: (x[1]["property"], x[0])):
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {'-' if i in missed else m['property']} |")
p = root + "/DESIGN.md"
s = open(p).read().split("<!-- planted -->")[0].rstrip()
open(p, "w").write(s + "\n\n<!-- planted -->\n" + "\n".join(rows) + "\n")
