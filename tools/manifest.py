#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present (run by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
ASAN = {"C33"}
TECH = {}
exec(open(os.path.join(V, "tools", "tech.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
done = [i for i in ids if os.path.exists(os.path.join(V, "checks", i + ".py"))]
m = {"version": 1,
     "setup_cmd": "python3-vt sim/build.py plain && python3-vt sim/build.py asan",
     "checks": [{"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                 "technique": TECH.get(i, DEFAULT), "level": "exploration", "level_note": NOTE.get(i, NOTE_DEFAULT)} for i in done],
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in done],
     "notes": "jom's unmodified sources are compiled against a simulated Windows machine (sim/) that owns files, processes, time, job tokens and the order of events; checks generate scenarios with Hypothesis and compare the observed trace with reference models or metamorphic relations. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(done), "checks;", [i for i in ids if i not in done])
