#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs | breaks |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
  d = json.load(open(m))
  rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"] if d.get("caught", True) else "(missed)", d["needs"], d["what_it_breaks"]))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(has a demonstration\.\n\n)(TABLE|(\|.*\n)+)\n?", lambda m: m.group(1) + "\n".join(rows) + "\n\n", s)
open(p, "w").write(s)
