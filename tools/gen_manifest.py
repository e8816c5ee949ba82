#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property that has a module in vsim/props."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C21": "Not applicable here: there is no CUDA device, driver or compiler in the sandbox, so the GPU implementation cannot be "
           "built or run and there is nothing for a simulator to execute.",
    "C22": "Not applicable: these are pure functions of their input, with no schedule, clock, I/O, randomness or second party for "
           "a simulator to control; what is decisive is the input alone.",
}
NOTE = ("Seeded search over schedules and faults of the real compiled code on a simulated scheduler; every violation is "
        "minimised and replayed in a fresh process. Bounds: workloads of tens of users/items, up to 8 simulated threads, "
        "sequentially consistent memory.")


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "vsim", "props", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                           "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": "deterministic simulation with fault injection (seeded schedule and fault search)",
                           "level": "exploration", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
