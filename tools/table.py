#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from tools/sensitivity.json and seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = json.load(open(os.path.join(root, "tools/sensitivity.json")))
rows = ["| planted bug | check | caught | needs |", "|---|---|---|---|"]
for bug in sorted(os.listdir(os.path.join(root, "seeded"))):
    meta = json.load(open(os.path.join(root, "seeded", bug, "meta.json")))
    got = seen.get(bug)
    word = "not run" if not got else ("yes, %.0f s" % got["secs"] if got["caught"] else "no")
    rows.append("| %s | %s | %s | %s |" % (bug, meta["property"], word, " ".join(meta["needs"].split())))
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
a = text.index("<!-- table begin -->") + len("<!-- table begin -->\n")
b = text.index("<!-- table end -->")
open(path, "w").write(text[:a] + "\n".join(rows) + "\n" + text[b:])
