#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, level, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, level=level, note=note))


exec(open(os.path.join(V, "tools", "props.py"), encoding="utf-8").read())
P.sort(key=lambda p: p["id"])

with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3 mc/setup.py",
         checks=[dict(property=p["id"], quick_cmd=f"python3 mc/{p['id'].lower()}.py", thorough_cmd=f"VERIF_TIER=thorough python3 mc/{p['id'].lower()}.py",
                      technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["technique"]],
         not_applicable=[dict(property=p["id"], reason=p["note"]) for p in P if not p["technique"]],
         notes="No hooks: every check drives the public API, the macros, the compiler's verdict or the shipped binaries. The checks build /repo's working tree into /verif/work (git-ignored).")
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write("\n")
print(len(P), "properties")
