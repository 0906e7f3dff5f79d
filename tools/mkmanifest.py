#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from harness/groups and properties.jsonl.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = set()
for l in open(V + "/harness/groups"):
    have |= set(l.split()[1:])
tech = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in have:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t = tech.get(i, {})
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "technique": t.get("technique", "property-based testing: generated cases against an independent reference model, with shrinking"),
        "level": "exploration",
        "level_note": t.get("note", "Searches generated inputs against an independent oracle; finds violations, does not prove their absence. Trusts the reference model in harness/model.cpp and the sanitizer runtime."),
    })
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks compile /repo/src as it is, with sanitizers, outside /repo. known_findings.txt lists repaired defects."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
