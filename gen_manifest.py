#!/usr/bin/env python3
"""Write MANIFEST.json: every property with a module in checks/ is claimed."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
        m = importlib.import_module("checks." + i)
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "technique": getattr(m, "TECHNIQUE", "TLA+ specification checked with TLC; recorded executions of the real code validated against it by TLC"),
                       "level": getattr(m, "LEVEL", "model_checking"),
                       "level_note": getattr(m, "NOTE", "The specification is explored exhaustively within small bounds; the implementation is bound to it by replaying "
                       "the explored histories and seeded random ones on the real code (address sanitizer on) and having TLC accept every recorded event, with exact rational arithmetic. "
                       "Trusts TLC, the rational-number module override, the replay harness and the compiler.")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "hooks": {"guard": "CADTEST_VERIF", "enable": "no hooks are needed: the harness uses the public API and builds /repo/src as it is", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ with TLC. python3 run.py <id> [quick|thorough]; python3 run.py replay <file> re-runs a reported violation."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
