#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []  # (id, title, statement, over, text, why, files, mechanism, claim)

def prop(id, title, statement, over, text, why, files, mech, level=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, na=na))

exec(open(os.path.join(here, "properties.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bin/gosipsverif -property " + p["id"],
        "thorough_cmd": "bin/gosipsverif -property " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    } for p in P if p["level"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if not p["level"]],
    "notes": "No hooks: the checks read /repo's source only and never execute it.",
}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
