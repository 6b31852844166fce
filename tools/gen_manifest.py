#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "online monitor of the real rotation against an independent closed form, generated workloads",
 "C02": "online monitor of the coordinate functions against independent geometry, generated workloads",
 "C03": "statistical monitors (distribution, independence, isotropy) over fresh chains; residual monitor of the temperature solver",
 "C04": "statistical monitors over the couplings and fields of fresh chains",
 "C05": "reference-model monitor of the reported energies on generated chains",
 "C06": "reference-model monitor plus perturbation of everything outside the subsystem",
 "C07": "reference-model monitor of the drive in energies and in observed spin velocities",
 "C08": "trajectory monitor against an independent integrator, with observed order of convergence",
 "C09": "conservation monitors over recorded trajectories",
 "C10": "metamorphic monitors (reversal, relabelling, rotation, period shift) over pairs of trajectories",
 "C11": "monitor of single updates under a replayed random stream: acceptance thresholds against the energy change; statistics of proposals",
 "C12": "monitor of single updates under a replayed random stream against the effective Hamiltonians; reported energies against them",
 "C13": "statistical monitors of long runs against exact averages and identities",
 "C14": "trajectory monitor of the edge-coupled chain against an independent integrator",
 "C15": "statistical monitors of the edge noise under a replayed random stream and of the resulting ensemble",
 "C16": "reference-model monitor of the reported energy flow, and noise-averaged energy changes",
 "C17": "monitor of configuration files before and after (library and program), generated configurations",
 "C18": "history monitor over sequences of invocations: file snapshots, offsets, settings",
 "C19": "offline monitor over log files: time grid",
 "C20": "offline monitor over log files: rows recomputed and linked by the equations of motion; independence of runs",
 "C21": "offline exactly-once and consistency monitor over sample files, with slow output devices",
 "C22": "offline monitor over profile files: replayed random streams and exact sums; deadlock watch",
 "C23": "offline monitor: averages recomputed from generated and real logs",
 "C24": "offline statistical monitor of the fitted rows against an independent Monte Carlo",
 "C25": "reference-model monitor of the spectrum against a direct Fourier sum",
 "C26": "overflow and assertion instrumented builds under edge workloads of the library and the program, with finite-number, deadlock and runaway watches; ThreadSanitizer and AddressSanitizer builds of both; thorough adds Miri under many schedules",
 "C27": "crash injection at numbered file operations (preloaded shim), file snapshots against an undisturbed run under the same random stream, and a run after the crash",
 "C28": "fault injection into file operations (preloaded shim: short, interrupted, failing writes and opens), files and exit status against an undisturbed run",
 "C29": "metamorphic monitor of the program: pairs of equivalent invocations replayed under one random stream, all data files compared",
 "C30": "resource monitor of the program: CPU time of every thread, open descriptors and peak memory sampled from the kernel's accounts while batches run",
}
NOTE = ("Held on the executions the check produced (counted in the evidence file), judged by an oracle independent of the code; says nothing about "
        "inputs and schedules not produced. Trusts the reference models in harness/src/model.rs and cli/common.py and, for statistical verdicts, "
        "bounds exceeded with a chance below 1e-9 per judgement.")
checks = [{"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
           "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": NOTE} for p, t in T.items()]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: what is observed is public (library items, files, exit status); the random stream is made replayable by a vendored rand crate patched in by the harness alone."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
