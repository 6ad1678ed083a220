#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import check as chk
NOTES = {
    "fsm": "Exhaustive TLC run over all transition relations on three states and all call sequences up to a bound; sequences covering every transition of the state graph plus seeded random machines are run in pkg/fsm and every recorded trace is validated by TLC against the same specification. Trusts TLC and the 160-line driver.",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in chk.REGISTRY:
        m = chk.REGISTRY[i]
        mod = __import__("checks." + m, fromlist=["x"])
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                       "technique": getattr(mod, "TECHNIQUE", "TLA+ specification checked with TLC; TLC trace validation of executions of the real code"),
                       "level": "model_checking", "level_note": getattr(mod, "NOTE", NOTES.get(m, ""))})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC. No hooks in /repo: drivers and instrumentation go in through go's -overlay, built from /repo's working tree on every run."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
