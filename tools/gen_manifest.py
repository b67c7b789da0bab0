#!/usr/bin/env python3
"""Writes MANIFEST.json and components.json from the table below and the properties in properties.jsonl."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]

ASSUME = [
    "Memory accesses of different simulated threads are sequentially consistent: reorderings allowed by weaker memory orderings are not simulated.",
    "Simulated threads are coroutines in one OS thread; scheduling points are the memory accesses which the compiler instruments (loads, stores, atomics, block copies) in the crates under test.",
    "Sampling, not enumeration: a clean batch is evidence for the property, not proof.",
    "x86_64, usize of 64 bits.",
]
SCHED_REAL = ["static_alloc::Bump (all entry points)", "alloc_traits::LocalAlloc"]
SCHED_STUB = ["threads: coroutines under the seeded scheduler", "storage placement: guarded arena"]

# id: (technique, note, real, stub, rule, assumptions)
T = {}
def t(id, technique, note, real, stub, rule="", assumptions=()):
    T[id] = (technique, note, real, stub, rule, list(assumptions))

exec(open(os.path.join(HERE, "tools/checks.py")).read())

NA = {
    "C26": "A statement about which programs the compiler accepts. It is decided before any execution exists, there is nothing to simulate.",
}
checks = []
comps = {"assumptions": ASSUME, "properties": {}}
for i in ids:
    if i in T:
        tech, note, real, stub, rule, assume = T[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "exploration", "level_note": note})
        comps["properties"][i] = {"real": real, "stub": stub, "rule": rule, "assumptions": assume}
    elif i not in NA:
        NA[i] = "No check yet: work in progress."
m = {"version": 1, "setup_cmd": "./build_sim.sh",
     "checks": checks, "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "No hooks in /repo are needed: scheduling points come from the compiler's memory access instrumentation (-Zsanitizer=thread with a runtime of our own), all other seams are public traits, caller supplied code and memory, and the global allocator. Repairs of genuine defects are listed in KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
json.dump(comps, open(os.path.join(HERE, "components.json"), "w"), indent=1)
