#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props.py."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from props import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        P = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": P.get("technique", "explicit-state exploration of the implementation against a reference model (exhaustive within bounds)"),
            "level": "model_checking",
            "level_note": P.get("note", "Exhaustive within the bounds listed in the evidence file; trusts the reference model in the explorer and the reduction argument stated in DESIGN.md."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet (work in progress)"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
