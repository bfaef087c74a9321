#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, props.py and the notes in this file."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    s = PROPS.get(i)
    if not s:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "technique": s.get("technique", "runtime monitoring: online comparison of the real code's results with an independent reference under generated and hostile workloads"),
        "level": "exploration",
        "level_note": s.get("note", "Holds for the executions observed; the oracle is an implementation written for the check from the standard and shares no code with the repository."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "verif", "enable": "no hooks are needed: the monitors observe the public interface of the exported packages", "source_commits": []},
     "notes": "check.py builds one monitor program per property from /repo's working tree (replace directive in harness/go.mod) in the build configurations listed in props.py. Findings: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
