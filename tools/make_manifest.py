#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, checks.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s --tier quick" % i,
                           thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="exploration",
                           level_note=note))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 tools/check.py --self-test",
         checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check compiles /repo's sources directly (ninja files written by "
               "tools/check.py from tools/checks.py) and uses the public API. Known findings: known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
