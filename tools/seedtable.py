"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "seednotes.json")))
rows = ["| change | needs | caught by | note |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    n = NOTES.get(i, "")
    by, note = (n, "") if isinstance(n, str) else n
    rows.append("| %s | %s | %s | %s |" % (i, d["needs"].replace("|", "/"), by or d["property"], note))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
