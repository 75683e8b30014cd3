#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry in units.py (developer aid)."""
import json, os
import units
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in units.PROPS:
        p = units.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i, technique=p.get("technique", units.TECH),
                           level="other", level_note=p.get("note", units.NOTE)))
    else:
        na.append(dict(property=i, reason=units.NA.get(i, "no static check claimed (see DESIGN.md)")))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")
