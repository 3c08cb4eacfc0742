#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os
from table import TABLE
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
NA = {
    "N01": "a pure function of one window of samples: no concurrency, time, I/O, history or fault for it to depend on, so a simulator has nothing to decide (C06 compares whole decodes with an independent front end, which is not a decision of this property)",
    "N02": "a pure function of one matrix: no schedule, fault or history is involved",
    "N03": "a numerical bound on a pure function; the schedule- and caller-dependent part of the same code is C12",
    "N04": "the module is compiled but no part of the recogniser calls it, so no simulated execution of the system reaches it",
}
props = [json.loads(l) for l in open(os.path.join(TOP, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        t = TABLE[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation, " + t["tech"], "level": "exploration",
            "level_note": t["note"] + " Sampled, not exhaustive; trusts clang/AddressSanitizer, glibc, OpenBLAS and the simulator.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {
    "version": 1, "setup_cmd": "python3 sim/build.py",
    "checks": checks, "not_applicable": na,
    "notes": "No hooks were added to /repo: every seam is the linker's (--wrap of libc, pthread and allocator symbols) or the compiler's (edge coverage), so the shipped sources are simulated as they are. known_findings.txt lists the repaired defects.",
}
with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
