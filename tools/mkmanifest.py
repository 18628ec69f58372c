#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import checks
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash bin/setup",
         checks=[dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 bin/check " + p["id"],
                      thorough_cmd="VERIF_TIER=thorough python3 bin/check " + p["id"],
                      evidence_file="evidence/%s.json" % p["id"],
                      technique=NOTE[p["id"]]["technique"], level="model_checking", level_note=NOTE[p["id"]]["note"])
                 for p in props if p["id"] in checks.CHECKS],
         not_applicable=[dict(property=p["id"], reason=NOTE.get(p["id"], {}).get("reason", "not built yet: its specification and driver are still being written"))
                         for p in props if p["id"] not in checks.CHECKS])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
