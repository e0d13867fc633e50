#!/usr/bin/env python3
"""Fills the lists of tools/DESIGN.tmpl.md and writes DESIGN.md (documentation only, no check runs it)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(here + "/tools/DESIGN.tmpl.md").read()
rows = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(here + "/KNOWN_FINDINGS.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        rows.append("| %s | %s | %s |" % m.groups())
t = t.replace("SECTION3", "\n".join(rows))
caught = {}
for l in open(here + "/tools/caught.txt"):
    if l.strip():
        a, b = l.split(None, 1)
        caught[a] = b.strip()
rows = ["| bug | what it breaks | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    n = os.path.basename(d)
    rows.append("| %s | %s | %s |" % (n, m["what_it_breaks"], caught.get(n, "not run")))
t = t.replace("SECTION5", "\n".join(rows))
open(here + "/DESIGN.md", "w").write(t)
