#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and the list below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS

NA = {
    "C30": "A pure function of its input: no schedule, clock, fault, I/O or history is involved, so there is nothing for a simulator to decide.",
    "C31": "A pure function of its input: no schedule, clock, fault, I/O or history is involved, so there is nothing for a simulator to decide.",
    "C32": "A pure function of its input: no schedule, clock, fault, I/O or history is involved, so there is nothing for a simulator to decide.",
}
PENDING = "No check is built for it yet."
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py",
    "hooks": {"guard": "none", "enable": "No hooks in /repo are needed: the simulator takes the seams the code has (templates over the grid backend, MPI and file-system symbols at link time, the steady clock symbol, compiler instrumentation of memory accesses).", "source_commits": []},
    "checks": [], "not_applicable": [],
    "notes": "Every check rebuilds its harness from /repo's working tree into /verif/build, explores seeded simulated runs on all cores and writes evidence/<id>.json. A violation leaves a minimised replay file in /verif/replays; './check <id> --replay FILE' repeats it exactly.",
}
for i in ids:
    if i in PROPS:
        m["checks"].append({
            "property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
            "technique": PROPS[i].get("technique", "deterministic simulation with fault injection: seeded search over schedules and faults"),
            "level": "exploration", "level_note": PROPS[i]["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
