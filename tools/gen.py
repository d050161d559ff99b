#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, CLAIMED, LEVELS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
hooks = [l.split(" ")[0] for l in log.splitlines() if "verification hooks" in l]
checks = []
for p in PROPS:
    if p["id"] not in CLAIMED: continue
    i = p["id"]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "technique": "runtime monitoring: " + p["note"],
        "level": LEVELS.get(i, "exploration"),
        "level_note": "Held on the executions produced (counts in evidence/%s.json), seeded by VERIF_SEED; the oracle is independent of the code under test. Says nothing about executions the workload did not drive." % i})
na = [{"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check under construction")} for p in PROPS if p["id"] not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "./setup.sh",
    "hooks": {"guard": "--cfg algorsand_verif", "enable": "RUSTFLAGS=--cfg algorsand_verif (set in env.sh) when building the harness crate against /repo", "source_commits": hooks[::-1]},
    "checks": checks, "not_applicable": na}, open(root + "/MANIFEST.json", "w"), indent=1)
