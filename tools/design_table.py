#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    one = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|").strip()
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), one(m["what_it_breaks"]),
                                          one(m["needs"]), m["property"]))
p = root + "/DESIGN.md"
t = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
assert a in t and b in t
t = t[:t.index(a) + len(a)] + "\n".join(rows) + "\n" + t[t.index(b):]
open(p, "w").write(t)
print(len(rows) - 2, "planted bugs")
