#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans there are."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans, notes
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "../properties.jsonl"))]
checks = []
for p in props:
    if p in plans.PLANS:
        checks.append(dict(property=p, quick_cmd="python3 tools/check.py %s quick" % p,
                           thorough_cmd="python3 tools/check.py %s thorough" % p,
                           evidence_file="evidence/%s.json" % p,
                           technique=notes.TECHNIQUE.get(p, notes.MARKET_TECHNIQUE), level="model_checking",
                           level_note=notes.LEVEL.get(p, notes.MARKET_LEVEL)))
na = [dict(property=p, reason=notes.NOT_APPLICABLE.get(p, "no check yet")) for p in props if p not in plans.PLANS]
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks,
         hooks=dict(guard="none", enable="nothing to enable: no instrumentation was added to /repo", source_commits=[]),
         not_applicable=na, notes=notes.NOTES)
json.dump(m, open(os.path.join(os.path.dirname(__file__), "../MANIFEST.json"), "w"), indent=1)
