#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props.py."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(
            property=i, quick_cmd=f"cd /verif && ./run.py {i} quick",
            thorough_cmd=f"cd /verif && ./run.py {i} thorough",
            technique=P.get("technique", "property-based testing: generated cases against an explicit oracle, tape shrinking"),
            level="exploration", level_note=P["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check yet: the generator for it is still to be built")))
m = dict(version=1, setup_cmd="cd /verif && ./run.py --setup-tools", checks=checks, not_applicable=na,
         notes="Every check compiles /repo's working tree against the stand-ins in /verif/shim and searches generated cases; see DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
