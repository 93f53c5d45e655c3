#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md (between the markers)"""
import json, glob, os, re
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | caught by | needs |", "|----|----|----|"]
for m in sorted(glob.glob(d + "/seeded/S*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s |" % (m.split("/")[-2], j["property"], j["needs"].replace("|", "/")))
p = d + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"@@SEEDS@@|<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
