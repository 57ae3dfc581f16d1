#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
FAULT = {"C15", "C05"}
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
m = {"version": 1, "setup_cmd": "python3 run.py --build-all", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "props", i + ".cpp")):
        m["not_applicable"].append({"property": i, "reason": "Check not built yet."})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                        "technique": NOTES[i]["technique"], "level": "fault_enumeration" if i in FAULT else "exploration", "level_note": NOTES[i]["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
