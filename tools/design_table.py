#!/usr/bin/env python3
"""design_table.py -- rewrite the table of planted bugs in DESIGN.md from seeded/ and tools/missed.txt."""
import collections, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(V, "tools/missed.txt")).read().split())
by = collections.defaultdict(list)
for id in sorted(os.listdir(os.path.join(V, "seeded"))):
    p = json.load(open(os.path.join(V, "seeded", id, "meta.json")))["property"]
    by[p].append(id.split("-", 1)[1] + ("*" if id in missed else ""))
rows = ["| property | planted bugs |", "|---|---|"] + [f"| {p} ({len(by[p])}) | {', '.join(by[p])} |" for p in sorted(by)]
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
a, b = "<!-- planted -->\n", "\n<!-- end -->"
i, j = s.index(a) + len(a), s.index(b)
open(f, "w").write(s[:i] + "\n".join(rows) + s[j:])
print(sum(map(len, by.values())), "planted,", len(missed), "missed at first")
