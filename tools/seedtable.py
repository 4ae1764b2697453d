#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md between the markers."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
try: caught = json.load(open(V + "/tools/caught.json"))
except OSError: pass
rows = ["<!-- seeds -->", "| seed | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f)); rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, m["property"])))
rows.append("<!-- /seeds -->")
p = V + "/DESIGN.md"; t = open(p).read(); new = "\n".join(rows)
t = t.replace("@SEEDS@", new) if "@SEEDS@" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: new, t, flags=re.S)
open(p, "w").write(t)
