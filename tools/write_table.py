#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
and (optional) a file of lines "caught ID Cxx ..." / "MISSED ID ..." of try_seeded.sh."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
os.chdir(root)
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) > 2 and w[0] in ("caught", "MISSED"):
            h = [x for x in w if x.startswith("harness=")]
            got[w[1]] = w[2] + (" " + h[0][8:] if h else "") if w[0] == "caught" else "**missed**"
rows = []
for i in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % i))
    esc = lambda s: " ".join(str(s).split()).replace("|", "/")
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], esc(m["what_it_breaks"])[:120], esc(m["needs"])[:110],
                                                got.get(i, m["property"])))
s = open("DESIGN.md").read()
mark = "<!-- table of planted bugs (tools/write_table.py) -->"
s = s.split(mark)[0].replace("SEEDED_TABLE", "").rstrip() + "\n\n" + mark + "\n\n"
s += "| bug | property | what it breaks | needs | caught by (quick) |\n|----|----|----|----|----|\n" + "\n".join(rows) + "\n"
open("DESIGN.md", "w").write(s)
