#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of proofs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import proofs as P
from common import VERIF
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for p in props:
    t, l, n = P.claim(p)
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the verifiers work on functions extracted mechanically from /repo/src on every run, and the inspector and the node harnesses are appended to a scratch copy of it. See DESIGN.md."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
