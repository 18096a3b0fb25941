#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN, TRUST
import plan
ROOT = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {"C30": "Which types may cross threads is a fact about trait implementations that the compiler decides; there is no execution, state or schedule to explore, so model checking cannot address it."}
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "cfg(lokky_verif)", "enable": "cargo builds /repo/src/lib.rs through harness/conc/hooked, whose build script passes --cfg lokky_verif", "source_commits": getattr(plan, "HOOKS", [])},
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": PLAN[i]["technique"], "level": "model_checking",
                 "level_note": PLAN[i]["note"] + " " + PLAN[i].get("trust", TRUST).strip()} for i in ids if i in PLAN],
     "not_applicable": [{"property": i, "reason": NA.get(i, "The check is not built yet.")} for i in ids if i not in PLAN]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
