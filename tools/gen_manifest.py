#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the scenarios that exist."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "dst", "scen", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": "deterministic simulation with fault injection: " + NOTES[p][0],
                       "level": "exploration", "level_note": NOTES[p][1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("Guarded simulation hook")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "PARCON_SIM",
               "enable": "the checks set the environment variable PARCON_SIM=1 and install the simulator's loop-order function; nothing is built",
               "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "Every check runs check.py, which imports /repo's working tree from source. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
