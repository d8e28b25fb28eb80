#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (one place for the texts)."""
import json, os
from props import PROPS, NOT_APPLICABLE
here = os.path.dirname(os.path.abspath(__file__))
TECH = "explicit-state model checking of the contract binary"
with open(here + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
import re
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    n = len(re.findall(r"[.](?= |$)", p["statement"]))
    if n > 3:
        print(p["id"], "statement has", n, "sentences")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./run.sh %s quick" % p["id"],
        "thorough_cmd": "./run.sh %s thorough" % p["id"],
        "technique": p.get("technique", TECH),
        "level": "model_checking",
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {"guard": "none", "enable": "No hooks: the checks run the unmodified contract binary built from /repo and use its public calls and views only.", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
}
with open(here + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
