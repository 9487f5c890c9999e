#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py; a property is claimed when its check module exists."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P, NA, NOTES  # noqa: E402


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        mod = os.path.join(ROOT, "harness", "props", p["id"].lower() + ".py")
        if not os.path.exists(mod):
            na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
            continue
        tech, level, note = NOTES[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "/opt/venv/bin/python check.py %s quick" % p["id"],
                       "thorough_cmd": "/opt/venv/bin/python check.py %s thorough" % p["id"],
                       "technique": tech, "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/selftest.py",
         "checks": checks, "not_applicable": na,
         "hooks": {"guard": "none", "enable": "no hooks: the checks observe results, in-memory tables, files and session state through the public API", "source_commits": []}}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
