#!/usr/bin/env python3
"""Writes MANIFEST.json: what is claimed and with what."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = "explicit-state enumeration of the implementation against a reference model"
HIST = "stateless exploration (DFS over all environment choices) of the implementation under a scripted solver"
notes = {
 "C01": (REAL, "Every expression and assignment below the bound, exact comparison of the compiled energy."),
 "C02": (REAL, "Every polynomial below the bound, every assignment, minimised over the auxiliaries; hash seeds (tie-breaks) are covered partially."),
 "C03": (REAL, "Every expression below the bound, every split of the values over both feeding stages, every omission."),
 "C04": (REAL, "Every sequence of operator forms below the bound, all seven numeric types."),
 "C05": (REAL, "Every combination of constraint and penalty terms below the bound."),
 "C06": (REAL, "Every expression below the bound, every single-node change, order of visits monitored."),
 "S01": (REAL, "Every answer of a scripted solver for a list of models: each reported value, key, energy and local field."),
 "S02": (REAL, "Every constraint body below the bound, every assignment."),
 "S03": (HIST, "Every combination of answers for several samples, every completion order of parallel samples, three pool sizes."),
 "S04": (HIST, "Every history of satisfied/violated sets over generations and restarts below the bound; strengths read off the model handed to the solver."),
 "S05": (HIST, "Every history of satisfied/violated sets and objective values below the bound."),
 "S06": (HIST, "Every placement of at most two failures in solver generation and solving."),
 "S07": ("stateless exploration of the implementation under a controlled scheduler (all interleavings, or all preemption points) and of all call sequences", "Every interleaving of small concurrent searches and annealings, every preemption point at label operations of concurrent compilations, every sequence of calls below the bound; compared with the same call alone."),
 "S08": ("exhaustive enumeration of arrangements of searches of the implementation, with the process' source of randomness owned by the checker", "Every combination of samples, rounds, restarts, pool sizes and arrangements of searches below the bound; the streams handed to the solvers are recorded and compared pairwise."),
 "A01": (REAL, "Every sequence of set/push/... operations below the bound against Vec<bool>."),
 "A02": (REAL, "Every sequence of add/get operations below the bound against a map."),
 "A03": (REAL, "Every sequence of operations below the bound against a map."),
 "A04": (REAL, "Every model and state below the bound, each node kind and storage."),
 "A05": (REAL, "Every set of nodes and every order of insertion below the bound."),
 "A06": (REAL, "Every size, prefix and value range below the bound."),
 "A07": (REAL, "Every value of the small types, boundaries of the large ones, every pair of types."),
 "K01": ("co-simulation of the real annealer with a reference Metropolis chain over enumerated random draws", "Every sequence of accept/reject draws on every small model; random source owned by the checker."),
 "K02": ("the inverse temperatures are measured through the real annealer by scripted draws", "Every schedule form, step count and numeric type listed."),
 "K03": (REAL, "Every small model and start state, cold schedules; random source enumerated."),
 "E01": (REAL, "Every small expression of the list, all start states reachable by the seeds."),
 "M01": ("exhaustive execution of small instances of the implementation under Miri and ASan, with panics injected at every callback", "Absence of undefined behaviour and of lost or doubled labels on every enumerated execution."),
}
claimed = [l.strip() for l in open(f"{root}/tools/claimed.txt") if l.strip()]
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything is observed through the public API, by owning the solver, the random source and getrandom.",
}
for p in props:
    i = p["id"]
    if i in claimed:
        t, n = notes[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"./run.sh {i} --tier quick", "thorough_cmd": f"./run.sh {i} --tier thorough",
            "technique": "model checking: " + t, "level": "model_checking", "level_note": n + " Bounds and assumptions are in the evidence file and DESIGN.md.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is still being built"})
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
