#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mc/props.py and mc/checks.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "mc"))
from props import PROPS
from checks import CHECKS, NOT_APPLICABLE
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = json.loads(json.dumps(p))
        q["anchors"]["mechanism"] = [dict(name=m, where=p["anchors"]["files"][0]) for m in p["anchors"]["mechanism"]]
        q["anchors"]["hook_needed"] = None
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 mc/build.py rel asan sched && python3 run.py --list", checks=checks,
    hooks=dict(guard="none", enable="no hooks are compiled into the repository; instrumentation comes from compiler flags and the linker (--wrap)", source_commits=[]),
    not_applicable=na, notes="see DESIGN.md; known_findings.txt lists repaired defects and recorded findings")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
