#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bin/setup.sh", checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"bin/check.sh {i}", thorough_cmd=f"bin/check.sh {i} --tier thorough",
                                evidence_file=f"evidence/{i}.json", technique=p["technique"], level=p["level"],
                                level_note=p["note"] + " Assumes: " + "; ".join(p["assumptions"])))
    else:
        m["not_applicable"].append(dict(property=i, reason="check under construction (this entry is removed once it is registered)"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
