#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md (the planted bugs) from seeded/*/meta.json and caught.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = os.path.join(root, "DESIGN.md")
s = open(d).read().split("\n## 6. ")[0].rstrip("\n") + "\n"
rows = []
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.append((m["property"], i, m["what_it_breaks"].strip().rstrip(".").replace("|", "/")))
rows.sort()
s += """
## 6. Planted bugs and which checks catch them

Every bug below builds, passes the 372 stable tests and has a demonstration; each is caught by the quick tier of the check named first.

| check | bug | what it breaks |
|-------|-----|----------------|
"""
s += "".join("| %s | %s | %s |\n" % r for r in rows)
s += open(os.path.join(root, "tools", "design_tail.md")).read()
open(d, "w").write(s)
