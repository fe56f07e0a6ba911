#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NA
from plan import PLAN

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NA:
        continue
    assert p["id"] in PLAN, p["id"]
    checks.append(dict(
        property=p["id"],
        quick_cmd="python3 check.py %s --tier quick" % p["id"],
        thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
        technique=p["technique"], level=p.get("level", "exploration"), level_note=p["level_note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="none", enable="no hooks: the harnesses observe the public C++/C API, a recording memory resource "
                    "registered through it, process-level interposition, and sanitizer instrumentation of the unmodified sources",
                    source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="Every check rebuilds the library from /repo's working tree (content-hashed object cache in /verif/build) with "
               "sanitizers and runs the monitors in harness/. Replays: python3 check.py --replay <file>.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
