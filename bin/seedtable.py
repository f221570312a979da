#!/usr/bin/env python3
"""Append to DESIGN.md a row for every planted bug that its table does not list yet."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
lines = open(path).read().rstrip("\n").split("\n")
start = next(i for i, l in enumerate(lines) if l.startswith("| planted bug |"))
end = start
while end < len(lines) and lines[end].startswith("|"):
    end += 1
text = "\n".join(lines)
rows = lines[start + 2:end]
notes = dict(a.split("=", 1) for a in sys.argv[1:])
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    if "| " + d + " |" not in text:
        m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], notes.get(d, "caught")))
rows.sort()
open(path, "w").write("\n".join(lines[:start + 2] + rows + lines[end:]) + "\n")
