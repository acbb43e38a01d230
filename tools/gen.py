#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalogue.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalogue import PROPS, NOT_APPLICABLE


def main():
    out = []
    checks, na = [], []
    for p in PROPS:
        out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["quant"]},
                    "why_tests_cant": p["why"],
                    "anchors": {"files": p["files"], "mechanism": p["mechanism"], "state": p.get("state", []),
                                "observe_at": p.get("observe", []), "hook_needed": None}})
        if p["id"] in NOT_APPLICABLE:
            na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
            continue
        cmd = "python3 /verif/check.py --property %s --tier " % p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                       "technique": p["technique"], "level": "other", "level_note": p["note"],
                       "evidence_file": "evidence/%s.json" % p["id"]})
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for o in out:
            f.write(json.dumps(o) + "\n")
    man = {"version": 1, "setup_cmd": "python3 /verif/engine/facts.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: a clang-based extractor, a program model, and rules over flow, guards, must-execution and ownership. See DESIGN.md."}
    json.dump(man, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
