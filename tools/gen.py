#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
TECH = "symbolic execution of the Go SSA of /repo with an SMT solver (z3) deciding each path condition and assertion; counterexamples replayed on the compiled code"
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {"guard": "verif", "enable": "no hooks: harnesses are laid over /repo with a build overlay"},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./check %s quick" % p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "technique": TECH,
        "level": "model_checking",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
