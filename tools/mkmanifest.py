#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
HOOKS = dict(guard="XMM_VERIF", enable="the checks compile the library themselves from /repo's working tree with clang++ (address+undefined or thread sanitizer) into /verif/build; "
             "no hook is needed so far and the guard is unused", source_commits=[])
out = dict(version=1, setup_cmd="python3 check.py setup", hooks=HOOKS,
           checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                        technique="TLA+ specification checked with TLC; generated behaviours executed on the library and the recorded traces validated by TLC",
                        level="model_checking", level_note=checks.NOTE.get(i, "bounded model checking of the specification plus trace validation of sampled behaviours on the real code"))
                   for i in ids if i in checks.CHECKS],
           not_applicable=[dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "check under construction")) for i in ids if i not in checks.CHECKS],
           notes="see DESIGN.md")
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
