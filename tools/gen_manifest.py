#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
SIM = ("runtime monitoring: the real server in a deterministic simulation with fault and delay injection, "
       "judged online by trace monitors of an independent client and application")
CORE = "runtime monitoring: reference-model oracle over generated and hostile inputs, with overflow and bounds checks on"
PROC = "runtime monitoring: the real binaries driven as processes by a protocol monitor, with file system and byte-stream oracles"
T = {}
for i in ["C01", "C02", "C03", "C04", "C05", "C07"]:
    T[i] = (CORE, "Held on the generated inputs; trusts the independent reference codec/cipher in harness/src (self-tested against known vectors).")
T["C06"] = ("runtime monitoring: forged streams against the cipher and live connections, oracle on callbacks and connection end",
            "Held on the forgeries tried; trusts the reference cipher.")
for i in ["C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"]:
    T[i] = (SIM, "Held on the executions observed (random schedules, transports, processes); trusts the simulated environment and the independent client.")
for i in ["C22", "C23", "C24", "C25", "C26", "C28"]:
    T[i] = (PROC, "Held on the runs observed of the real binaries; trusts the harness's protocol peer and the kernel.")
T["C27"] = ("sanitizers: Miri (undefined-behaviour interpreter) and AddressSanitizer over the protocol core's safe interface, with overflow checks",
            "No undefined behaviour in the executions observed; covers only the code the workload reaches (reported per operation).")
T["C29"] = ("runtime monitoring: allocation tracking of everything the server allocates, compared at rest and after release",
            "Held on the executions observed; counts memory allocated while the server is polled.")
DONE = os.environ.get("DONE", "").split() or sorted(T)
checks, na = [], []
for i in ids:
    if i in DONE and i in T:
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed at the public boundary. Replays: see the VIOLATION line's file. Tier and seed come from VERIF_TIER and VERIF_SEED."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
