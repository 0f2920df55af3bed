"""Fills the lists of repairs and planted bugs into DESIGN.md (between their headings)."""
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = ["- `%s` (%s): %s" % (c, p.replace(",", ", "), w) for p, c, w in
         (l.split(" | ") for l in open(os.path.join(here, "tools", "fixed.txt")).read().splitlines() if l.strip())]
rows = ["| bug | property | what it breaks |", "|---|---|---|"]
sd = os.path.join(here, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append("| %s | %s | %s (%s) |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
s = re.sub(r'(listed in known_findings.jsonl as "fixed"\):\n\n).*?(\n\nRecorded, not repaired)', lambda m: m.group(1) + "\n".join(fixed) + m.group(2), s, flags=re.S)
s = re.sub(r"(caught by their property's quick check:\n\n).*?(\n\nBugs that were planted)", lambda m: m.group(1) + "\n".join(rows) + m.group(2), s, flags=re.S)
open(p, "w").write(s)
