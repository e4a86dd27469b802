#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Bug | Caught by | What it breaks | Needs |", "| --- | --- | --- | --- |"]
metas = []
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json"), encoding="utf-8"))
    metas.append((m["property"], i, m))
for p, i, m in sorted(metas, key=lambda x: x[:2]):
    rows.append(f"| `{i}` | {p} | {m['what_it_breaks']} | {m['needs']} |")
f = os.path.join(V, "DESIGN.md")
s = open(f, encoding="utf-8").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(f, "w", encoding="utf-8").write(s)
