#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

rows = []
for f in glob.glob("/verif/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"]))
t = "| caught by | planted bug | what it breaks | needs |\n|---|---|---|---|\n"
t += "".join(f"| {p} | {i} | {b} | {n} |\n" for p, i, b, n in sorted(rows))
d = open("/verif/DESIGN.md").read()
d = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: f"<!-- seeded -->\n{t}<!-- /seeded -->", d, flags=re.S)
open("/verif/DESIGN.md", "w").write(d)
