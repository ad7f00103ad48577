#!/usr/bin/env python3
# writes MANIFEST.json from tools/props.py and properties.jsonl
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, HARNESSES
NA = {
    "P28": "A pure value conversion: no concurrency, time, I/O, randomness or fault for a simulator to decide; a seed could only choose input values, which is plain generative testing and not this technique.",
    "P29": "A pure, synchronous value conversion without concurrency, time, I/O or faults; there is no schedule or fault sequence for deterministic simulation to search.",
}
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, completions and faults against " + c.get("oracle", "invariants and a reference model"),
            "level": "exploration",
            "level_note": c.get("note", "Sampled schedules and fault sequences of bounded scenarios; nothing is claimed beyond the runs the evidence file counts. Harness: %s." % ", ".join(c["harnesses"])),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet; listed until its harness exists.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Replay a violation with: python3 check.py --replay FILE. Every check rebuilds its harness from /repo's working tree."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
