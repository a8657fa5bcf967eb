#!/usr/bin/env python3
"""Refresh the planted-bug table of DESIGN.md from seeded/*/meta.json (between the markers)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seed | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m.get("caught_by", m["property"]), m["what_it_breaks"], m["needs"]))
p = root + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- seeds -->", "<!-- /seeds -->"
s = re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: b + "\n" + "\n".join(rows) + "\n" + e, s, flags=re.S)
open(p, "w").write(s)
