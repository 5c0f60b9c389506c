#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import checks
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/check --prebuild",
     "checks": [{"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "bin/check %s --thorough" % p,
                 "technique": c.technique, "level": c.level, "level_note": c.note}
                for p, c in sorted(checks.CHECKS.items())],
     "not_applicable": [{"property": p, "reason": checks.NOT_APPLICABLE.get(p, "no check built yet")}
                        for p in ids if p not in checks.CHECKS],
     "notes": "No hooks in /repo: everything is reached through public interfaces and link-time interposition."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
