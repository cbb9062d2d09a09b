#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py."""
import json
import os

from meta import META

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for k, m in META.items():
        assert m["statement"].count(". ") <= 2 and m["statement"].endswith("."), k
        f.write(json.dumps({
            "id": k, "title": m["title"], "statement": m["statement"],
            "quantifier": {"over": m["over"], "text": m["text"]},
            "why_tests_cant": m["why"],
            "anchors": {"files": m["files"], "mechanism": m["mechanism"], "hook_needed": None},
        }) + "\n")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./check --setup",
        "checks": [{
            "property": k,
            "quick_cmd": "./check " + k,
            "thorough_cmd": "./check " + k + " --thorough",
            "technique": m["technique"],
            "level": "exploration",
            "level_note": m["note"] + " Trusts: " + " ".join(m["assumptions"]),
        } for k, m in META.items()],
        "not_applicable": [],
        "notes": "No hooks in /repo. The tier comes from --thorough or VERIF_TIER, the seed from VERIF_SEED. A recorded case is run again with ./check <id> --replay <file>.",
    }, f, indent=1)
    f.write("\n")
