#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "lib"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [],
     "notes": "Every check compiles /repo's current sources with sanitizers into /verif/build, runs them under generated workloads with monitors, "
              "and removes its build afterwards. No hooks in /repo are needed: instrumentation is by linker interposition (--wrap) of libc calls."}
for p in props:
    i = p["id"]
    if i not in CHECKS:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
        continue
    c = CHECKS[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 bin/check %s" % i, "thorough_cmd": "python3 bin/check %s --tier thorough" % i,
                        "evidence_file": "evidence/%s.json" % i,
                        "technique": c.get("technique", "runtime monitoring: sanitizers and reference-model oracle over generated executions"),
                        "level": c.get("level", "exploration"), "level_note": c.get("note", "Holds on every execution explored: " + c["rule"])})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [n["property"] for n in m["not_applicable"]])
