#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(f"{R}/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json")); rows.append(f"| {d}: {m['what_it_breaks']} | {m['property']} | {m['needs']} |")
s = open(f"{R}/DESIGN.md").read(); t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(f"{R}/DESIGN.md", "w").write(s)
