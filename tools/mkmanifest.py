#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "J01": "A pure function of one value: encoding and decoding involve no schedule, clock, fault or other party, so there is nothing for a simulator to decide. (What the pipeline needs of it, that messages decode to what was scraped, is checked in E01; its behaviour on failing attribute sources in A01.)",
 "D01": "A pure function of the constructor's arguments: no schedule, time, fault or history can change the answer.",
 "T01": "A pure function of one integer: no schedule, time, fault or history can change the answer.",
}
EXTRA = {
 "B03": "Timing is exact: time is simulated, so early and late are told apart to the nanosecond.",
 "B09": "Standard output is replaced below os.Stdout, so short writes and write errors are injected at the file level.",
 "E01": "Runs the real runner, ingester, broker, digester, marshaler, store, graph, cache and plan together.",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": "Seeded search over schedules, workloads, configurations and faults of the real code, compiled with every synchronisation operation, shared memory access, timer, context and map iteration under the simulator's scheduler; oracles are written from the property, not from the code. A pass means no violation in the runs counted in the evidence. " + EXTRA.get(i, "") + " Trusted: the instrumenter, the simulated sync/time/context packages and the oracles.",
    })
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "checks": checks,
 "not_applicable": na,
 "notes": "No hooks are committed to /repo: the checks instrument a copy of /repo's working tree at build time (go build -overlay). 'fix:' commits in /repo are listed in known_findings.json under fixed. ./check.sh replay FILE repeats a reported violation.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
