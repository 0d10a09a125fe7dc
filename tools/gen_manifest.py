#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402
ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
assert set(PROPS) | set(NOT_APPLICABLE) == set(ids), set(ids) ^ (set(PROPS) | set(NOT_APPLICABLE))
assert not set(PROPS) & set(NOT_APPLICABLE)
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE.items()],
     "notes": "No hooks: every seam is a link-time interposition or a stand-in library outside /repo (see DESIGN.md)."}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "deterministic simulation with fault injection: " + PROPS[i]["technique"],
                            "level": PROPS[i].get("level", "exploration"),
                            "level_note": PROPS[i]["note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
