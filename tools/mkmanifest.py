"""Writes MANIFEST.json from the properties and the scenarios that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
    "C90": "Geometry values are pure functions of their inputs: no schedule, clock, fault, I/O or shared state for a simulator to decide.",
    "C91": "Tickers are pure functions of a numeric range: no schedule, clock, fault or interleaving.",
    "C92": "Converters and validators are pure functions of one value: nothing for a scheduler or fault injector to vary.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "scenarios", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json",
                           technique="deterministic simulation with fault injection: seeded search over schedules, timings and faults of the real code against a reference model",
                           level="exploration",
                           level_note="Seeded sampling of workloads, schedules and faults over the real code on simulated threads, locks, clocks and storage; evidence, not proof. Trusts CPython's per-bytecode atomicity, the simulator's primitives and the scenario's oracle; every violation is replayed in a fresh process before it is reported."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check has been built yet.")))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0 if sys.version_info[:2] >= (3, 12) else 1)\"", checks=checks, not_applicable=na,
         notes="No hooks in /repo: threads, locks, clocks, event loops, entropy and the collector are reached through the standard library modules the code already uses, patched inside the checking process before /repo is imported; preemption inside the code uses sys.monitoring. python3 check.py --replay FILE re-executes a reported violation.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
