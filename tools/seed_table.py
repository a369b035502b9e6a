#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, collections
root = pathlib.Path(__file__).resolve().parent.parent
by = collections.defaultdict(list)
for m in sorted((root / "seeded").glob("*/meta.json")):
    j = json.loads(m.read_text())
    by[j["property"]].append((m.parent.name, j["what_it_breaks"]))
rows = ["| check | planted bugs that it catches |", "|---|---|"]
for p in sorted(by):
    rows.append(f"| {p} ({len(by[p])}) | " + "; ".join(f"`{i}`" for i, _ in by[p]) + " |")
d = root / "DESIGN.md"
t = d.read_text()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, k = t.index(a) + len(a), t.index(b)
d.write_text(t[:i] + "\n".join(rows) + "\n" + t[k:])
print(sum(map(len, by.values())), "planted bugs")
