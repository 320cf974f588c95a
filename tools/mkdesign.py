#!/usr/bin/env python3
"""Renews the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | check | what it breaks | needs |", "|---|---|---|---|"]
missed = json.load(open(os.path.join(V, "tools", "missed.json"))) if os.path.exists(os.path.join(V, "tools", "missed.json")) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    i = f.split("/")[-2]
    c = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s%s | %s | %s |" % (i, d["property"], " (not caught: %s)" % missed[i] if i in missed else "", c(d["what_it_breaks"]), c(d["needs"])))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- SEEDS -->.*<!-- /SEEDS -->", lambda m: "<!-- SEEDS -->\n" + "\n".join(rows) + "\n<!-- /SEEDS -->", t, flags=re.S)
open(p, "w").write(t)
print(len(rows) - 2, "planted bugs")
