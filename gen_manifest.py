#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the settings of run_check.py."""
import json
import run_check as rc

ps = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in ps:
    i = p["id"]
    o = rc.PROPS[i]
    if i == "C21":
        tech = "Miri, AddressSanitizer and ThreadSanitizer over all workloads and random tours of the safe API"
        note = ("Every undefined behaviour on an executed path is reported by the instruments (Miri: freed and uninitialised memory, "
                "data races, leaks, deadlocks; ASan and TSan: many more executions, fewer kinds). Paths and interleavings not executed "
                "are not covered. Two recorded findings (dangling references of Labels::get and Labels::iter) stay known.")
    else:
        tech = "online monitor comparing every observation with an independent model over generated workloads"
        if o.get("parallel"):
            tech += "; concurrent stress with histories checked offline"
        if o.get("miri"):
            tech += "; seeded schedules under Miri"
        note = ("Held on the cases and schedules that were run (counts in the evidence); trusts the model and the parser of the harness"
                + (", which are independent of the crate. Schedules are sampled, not enumerated." if o.get("parallel") else
                   ", which are independent of the crate."))
    checks.append(dict(property=i, quick_cmd="python3 run_check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + i,
                       evidence_file="evidence/%s.json" % i, technique=tech, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 run_check.py --build", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the monitors observe the public API, the interposed clocks, the allocator and /proc. "
               "Repairs are the fix: commits listed in known_findings.txt.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
