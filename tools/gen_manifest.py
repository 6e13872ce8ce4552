#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, sys, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = {
 "C01": "deterministic simulation of parallel builds: seeded schedules, structural check of every finished tree",
 "C02": "deterministic simulation of parallel builds: seeded schedules, geometric enclosure check of every finished tree",
 "C03": "deterministic simulation: every scheduled build compared with the serial reference build",
 "C04": "deterministic simulation with thread stalls, spurious and reordered wake-ups: deadlock, step bound and leftover thread detection",
 "C05": "deterministic simulation with vector clock race detection and heap red zones on every instrumented access",
 "C06": "deterministic simulation with fault injection: user callback panics, refused threads, stalls; later builds checked",
 "T01": "deterministic simulation of concurrent ray traversals against an exhaustive double precision reference",
 "T02": "deterministic simulation of concurrent packet traversals against an exhaustive double precision reference",
 "M01": "deterministic simulation of conversion races: four-wide tree compared with its binary tree",
 "R01": "deterministic simulation of refit histories with interruptions, compared with a serial reference refit",
 "F01": "deterministic simulation of concurrent C interface calls: history checked against a sequential registry model",
 "F02": "deterministic simulation of handle use during concurrent create and free: stability and freed-memory detection",
 "F03": "deterministic simulation of C interface traversals during registry churn against an exhaustive reference",
 "S01": "deterministic simulation of save and load with failing, short and torn streams",
 "D01": "deterministic simulation of repeated rounds of work with injected panics, refused threads and stream faults: memory and threads left over are traced to the allocation site",
}
NOTE = "seeded search, not exhaustive: a schedule, input or fault combination that no explored seed produced is not covered; sequentially consistent memory only (data races are reported separately)"
NA = json.load(open("tools/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
claimed = [i for i in ids if i in T and i not in NA]
for i in ids:
    assert i in claimed or i in NA, i
m = {
 "version": 1,
 "setup_cmd": "bash sim/build.sh",
 "hooks": {"guard": "rtbvh_sim", "enable": "RUSTFLAGS=\"--cfg rtbvh_sim\" (sim/build.sh)", "source_commits": os.popen("git -C /repo log --format=%H --grep='^hook:'").read().split()},
 "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": NOTE} for i in claimed],
 "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
 "notes": "One simulator binary (sim/) runs the real rtbvh, rtbvh_ffi, rayon, crossbeam, parking_lot and std code, all instrumented, on a deterministic scheduler (sim/rt.c). See DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
