#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per module in mon/props, everything else not applicable."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PENDING = "a check for this property is being built; not claimed yet"
TECH = {
    "P23": "runtime monitoring: real mpirun and simulated communicators under an exactly-once trace oracle",
    "P33": "runtime monitoring: several ranks as processes on a simulated communicator with injected delays, files and results compared with a serial run",
    "P37": "runtime monitoring: the real lattice run and continuation scripts as processes over an event-recording KMC engine, their files judged by the recorded history",
    "P36": "runtime monitoring: the real run script as processes and real mpirun ranks, exit status, archive, transient and log judged by independent kinetics",
    "P35": "runtime monitoring: hostile requests to the real models, state fingerprints before and after each",
    "P30": "AddressSanitizer/UBSan/LeakSanitizer build of the real C++ under random and hostile inputs, differential oracle",
    "P26": "runtime monitoring with a recording stand-in for the external KMC library and an independent expansion oracle",
    "P27": "runtime monitoring with a recording stand-in for the external KMC library (values received = values given)",
    "P28": "offline trace checking: log of the real plugin against the recorded event history of a simulated run",
    "P29": "offline trace checking: logs of the real plugins against the recorded event history of a simulated run",
}
DEFAULT = "runtime monitoring: real code run on generated workloads, every result judged by an independent online oracle"
NOTE = ("exploration: verdicts cover the executions generated from VERIF_SEED in this tier; counts of what the monitors "
        "observed are in the evidence file, and minimum counts make a run that observed too little inconclusive (exit 3)")

have = {}
for f in sorted(os.listdir(os.path.join(V, "mon", "props"))):
    m = re.match(r"(p\d\d)_\w+\.py$", f)
    if m:
        have[m.group(1).upper()] = f
checks, na = [], []
with open(os.path.join(V, "properties.jsonl")) as f:
    for line in f:
        p = json.loads(line)["id"]
        if p in have:
            checks.append({"property": p,
                           "quick_cmd": "./check.py {} --tier quick".format(p),
                           "thorough_cmd": "./check.py {} --tier thorough".format(p),
                           "technique": TECH.get(p, DEFAULT), "level": "exploration",
                           "level_note": NOTE, "evidence_file": "evidence/{}.json".format(p)})
        else:
            na.append({"property": p, "reason": PENDING})
man = {"version": 1, "setup_cmd": "./check.py --selftest", "checks": checks, "not_applicable": na,
       "notes": "One runner (check.py, mon/core.py), one module per property (mon/props). No hooks in /repo: every monitor observes the public interface."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "pending")
