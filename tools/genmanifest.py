#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import plan

NOTE = ("Held on the executions of the run (counts in the evidence file), under seeded schedules and delays; not a proof. "
        "Trusted: the harness' models, the sanitizers, glibc, the kernel. Assumes: ")
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in plan.PROPS:
        s = plan.PROPS[p]
        checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --thorough" % p,
                           technique=plan.TECH.get(p, "runtime monitoring"), level=s["level"],
                           level_note=NOTE + "; ".join(s["assumptions"]) + "."))
    else:
        na.append(dict(property=p, reason="its check is not built yet"))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks compile /repo/src with their own flags and put link-time wrappers around system calls."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
