#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    c = lambda x: x.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (d, c(m["what_it_breaks"]), c(m["needs"]), m["property"]))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
i = s.index("## Planted changes")
j = s.find("\n## ", i + 5)
tail = s[j:] if j > 0 else ""
s = s[:i] + """## Planted changes

`seeded/<id>/` holds them (%d). Each was written from a property's text and the
code, in a scratch copy, with a demonstration; `tools/trybugs.sh` applies each
in turn and runs the check of its property. The last column is the check that
reports it (seed 1, quick tier).

| id | what it breaks | what it needs | caught by |
|----|----|----|----|
""" % len(rows) + "\n".join(rows) + "\n" + tail
open(p, "w").write(s)
