#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
design = os.path.join(here, "DESIGN.md")
rows = ["| planted change | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
s = open(design).read()
head = s.split("<!-- seeded table -->")[0]
open(design, "w").write(head + "<!-- seeded table -->\n\n" + "\n".join(rows) + "\n")
