#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (between its two markers) from seeded/*/meta.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for m in sorted(V.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d.get('caught_by', d['property'])} | {d['needs'].replace('|', '/')} |")
f = V / "DESIGN.md"
s = f.read_text()
a, b = "<!-- bugs -->\n", "<!-- end of bugs -->\n"
i, j = s.index(a) + len(a), s.index(b)
f.write_text(s[:i] + "\n".join(rows) + "\n" + s[j:])
