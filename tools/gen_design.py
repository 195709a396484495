"""Writes the tables of findings and of planted bugs into DESIGN.md."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()


def put(tag, lines):
  global s
  s = re.sub("(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag), lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), s, flags=re.S)


k = json.load(open(os.path.join(here, "known_findings.json")))
put("findings", ["| id | property | commit | what failed |", "|---|---|---|---|"] +
    ["| %s | %s | %s | %s |" % (f["id"], f["property"], f.get("commit", "") or "recorded", f["what"].replace("|", "/")) for f in k])
rows = ["| id | property | caught by | what it breaks | needs |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(here, "tools", "caught.json")))
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
  d = json.load(open(m))
  i = os.path.basename(os.path.dirname(m))
  rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], caught.get(i, d["property"]), d["what_it_breaks"], d["needs"]))
put("seeded", rows)
open(p, "w").write(s)
