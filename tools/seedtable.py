#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
rows.sort(key=lambda r: (r.split("|")[2], r))
t = "<!-- seeds -->\n| planted bug | caught by | needs | what breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
d = open(here + "/DESIGN.md").read()
d = re.sub(r"SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->", lambda _: t, d, flags=re.S)
open(here + "/DESIGN.md", "w").write(d)
