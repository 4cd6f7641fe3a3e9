#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}
def claim(pid, technique, note, level="model_checking"): CLAIMED[pid] = (technique, note, level)
exec(open(os.path.join(HERE, "lib", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=[], not_applicable=[],
         notes="Specification language: TLA+ (TLC). python3 run.py <id> runs one check; see DESIGN.md.")
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n, l = CLAIMED[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="python3 run.py " + i + " thorough",
                                evidence_file="evidence/%s.json" % i, technique=t, level=l, level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT.get(i, "machinery not finished yet")))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
