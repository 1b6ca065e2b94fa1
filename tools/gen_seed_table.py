#!/usr/bin/env python3
"""Rewrites the planted-change table at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
rows = []
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (d["property"], os.path.basename(os.path.dirname(m)), d["needs"].replace("|", "/"), d.get("caught", "yes")))
rows.sort()
t = open('/verif/DESIGN.md').read()
a = t.index('<!-- seeds -->')
open('/verif/DESIGN.md', 'w').write(t[:a] + "<!-- seeds -->\n| check | change | needs | caught |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
