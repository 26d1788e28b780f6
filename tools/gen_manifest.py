#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import REGISTRY
from notes import NOTES, NOT_APPLICABLE

VERIF = os.path.dirname(HERE)
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in REGISTRY:
        n = NOTES[p]
        cmd = "python3 tools/check.py " + p
        checks.append({"property": p, "quick_cmd": cmd + " --tier quick",
                       "thorough_cmd": cmd + " --tier thorough",
                       "evidence_file": "evidence/%s.json" % p, "technique": n[0],
                       "level": REGISTRY[p].level, "level_note": n[1]})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none: no hooks in /repo are needed",
               "enable": "checks compile /repo's sources with -fsanitize=thread instrumentation bound to "
                         "/verif/rt, or link them with harness-side interposers", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Specifications in spec/, controlled scheduler in rt/, harnesses in harness/, "
              "known findings in KNOWN_FINDINGS.json."}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
