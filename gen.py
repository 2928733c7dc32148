#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list of properties."""
import json

P = []
NA = []

def prop(id, title, statement, over, quant, why, files, mechanism, note, technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mechanism=mechanism, note=note, technique=technique))

exec(open(__file__.replace("gen.py", "props.py")).read())

with open(__file__.replace("gen.py", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]},
        }) + "\n")
na = {n["property"] for n in NA}
manifest = {
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P if p["id"] not in na],
    "not_applicable": NA,
    "notes": "No hooks: the monitors use public interfaces only. See DESIGN.md; known findings and repairs in known_findings.txt.",
}
with open(__file__.replace("gen.py", "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
