#!/usr/bin/env python3
"""Writes MANIFEST.json from the claimed properties."""
import json, os, sys
sys.dont_write_bytecode = True
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "bin"))
import jobs
NOTE = {}
exec(open(os.path.join(R, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "cfg(yam_verif)", "enable": "RUSTFLAGS='--cfg yam_verif' (set by bin/check.py and bin/setup.sh)", "source_commits": ["0e6106d"]},
     "checks": [{"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {p['id']}",
                 "technique": NOTE[p["id"]][0], "level": "model_checking", "level_note": NOTE[p["id"]][1]} for p in props if p["id"] in jobs.PROPS],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "the part of the specification that decides it is not built yet")} for p in props if p["id"] not in jobs.PROPS],
     "notes": "All checks: TLA+ specifications in spec/ checked with TLC; recorded runs of the real code validated against them. The one hook lets the harness implement the Source trait (C13)."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
