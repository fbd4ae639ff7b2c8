#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (committed; run after editing checks.py)."""
import json, os
from checks import CHECKS, NOT_APPLICABLE, HOOKS
here = os.path.dirname(os.path.abspath(__file__))
m = {"version": 1, "setup_cmd": "python3 run.py --selftest",
     "checks": [{"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"],
                 "level_note": c["note"]} for p, c in sorted(CHECKS.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())]}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
