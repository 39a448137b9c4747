"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))

checks, na = [], []
for ln in open(os.path.join(VERIF, "properties.jsonl")):
    p = json.loads(ln)
    pid = p["id"]
    if not os.path.exists(os.path.join(VERIF, "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "no check yet"})
        continue
    c = importlib.import_module(pid.lower()).Check()
    checks.append({
        "property": pid,
        "quick_cmd": "./check " + pid,
        "thorough_cmd": "VERIF_TIER=thorough ./check " + pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": c.technique,
        "level": c.level,
        "level_note": c.level_note or
        "Random search over generated cases against an independent reference "
        "model and independent readers of the files; no violation found is no "
        "proof. Trusts Python's zlib and hashlib, and that the programs "
        "built here behave as those built by the project's Makefile.",
    })
json.dump({"version": 1,
           "setup_cmd": "python3 lib/build.py plain asan fuzz ftrace",
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Every check takes VERIF_SEED, "
           "VERIF_TIER and, to change its time limit, VERIF_BUDGET (s); "
           "./check Cxx --replay FILE runs a replay file again."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
