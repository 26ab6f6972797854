#!/usr/bin/env python3
"""Writes MANIFEST.json from driver/worlds.json and properties.jsonl."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
W = json.load(open(os.path.join(R, "driver", "worlds.json")))
P = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {
    "C22": "A mesh generator is a pure function of its parameters: no schedule, clock, fault or history takes part (memory faults while generating are C21).",
    "C23": "Shape functions and integration tables are pure functions of their arguments, evaluated without schedule, state or fault.",
    "C24": "Renumbering and reordering are pure functions of their input arrays, single-threaded and stateless.",
    "C25": "Refinement maps are pure functions of two meshes and a field; nothing in them depends on schedules, faults or history (dirty memory and memory exhaustion are C21).",
    "C26": "The tying matrices are a pure function of node pairs and DOF numbers; solving with them under threads and histories is C05, C06 and C20.",
}
checks = []
for p in P:
    i = p["id"]
    if i in W:
        checks.append({
            "property": i,
            "quick_cmd": "python3 driver/check.py %s" % i,
            "thorough_cmd": "python3 driver/check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": W[i].get("technique", "deterministic simulation: seeded schedules and faults, reference model per operation"),
            "level": "exploration",
            "level_note": W[i].get("note", "Seeded search over generated histories, schedules and faults against an independent reference; sampled, not exhaustive.")
            + " Trusts the simulator (scheduling, heap, OpenMP runtime) and the reference arithmetic in harness/.",
        })
    elif i not in NA:
        NA[i] = "Not claimed yet: its simulated world is still being built."
m = {
    "version": 1,
    "setup_cmd": "python3 driver/check.py --build-all",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "No hooks were needed in /repo: the seams are the OpenMP runtime calls, the memory accesses (compiler instrumentation) and the allocator. Replay: python3 driver/check.py --replay FILE. VERIF_REPO selects another tree, VERIF_TIME the seconds of exploration.",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
