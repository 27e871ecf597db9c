#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: " + CHECKS[i]["technique"],
                       "level": "exploration", "level_note": CHECKS[i]["note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the seams (heap, scheduler, memory accesses, environment calls, CUDA runtime) are put in place by the compiler's access instrumentation, "
                    "link-time symbol wrapping and replaced operator new/delete. /repo only carries fix: commits, see known_findings.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
