#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
from checks import CHECKS

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")

TECH = "stateless model checking of the real code (controlled scheduler, bounded exhaustive enumeration)"
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": p.get("technique", TECH),
            "level": CHECKS[i]["level"],
            "level_note": p["level_note"],
        })
    else:
        na.append({"property": i, "reason": p.get("na", "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import shutil,sys; sys.exit(0 if all(shutil.which(x) for x in ('clang++','cmake','ninja')) else 1)\"",
    "hooks": {"guard": "none", "enable": "no source hooks: the checks compile /repo's sources with clang -fsanitize=thread instrumentation "
              "bound to /verif/mc/rt.cpp and interpose libc at link time", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. known-findings.txt lists recorded and repaired defects.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "claimed")
