#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("simulated kernel records every system call of locked functions under seeded paths, trees, I/O faults and concurrent changes; invariant on touched paths", "No locked call among the explored runs touched anything outside its folder; every effect is seen by the simulated kernel, nothing can bypass it."),
 "C02": ("seeded compositions of function sets, programs and faults; invariant on recorded effects", "Every effect on the simulated kernel is attributed to a function set that was added."),
 "C03": ("seeded contents, chunkings, read faults and concurrent replacement; result compared with the versions the file had during the call", "Reads are compared with the full content history of the simulated files."),
 "C04": ("seeded trees, listing orders, directory faults and concurrent changes; reference listing over the tree's history", "Listings are compared with a reference computed from the simulated tree's versions during the call."),
 "C05": ("seeded folders of good, bad and failing files; each record compared with that file evaluated alone", "The oracle evaluates the complete content of each file in isolation with the real library, without faults."),
 "C06": ("seeded writes with short writes, full disk, I/O errors and crashes at every call; durable tree compared before and after", "The whole simulated tree is compared after success, failure and crash."),
 "C07": ("scripted child programs under seeded schedules, pipe sizes and faults; output compared with what the child printed", "The simulator knows what the child was given and printed."),
 "C08": ("scripted child programs that stream, buffer or stop reading, under seeded schedules and pipe sizes; deadlock detection", "A hang is a simulated deadlock (nobody can run) or livelock (step limit), found without waiting."),
 "C09": ("fault at any system call; resource ledger of the simulated kernel checked when the call returns", "Descriptors, directory streams, processes and threads are all simulated and counted."),
 "C10": ("seeded histories of environment changes by host, templates and other threads; lookups compared with the values at that time", "The environment is simulated and its history is recorded."),
 "C11": ("seeded templates run against a reference interpreter; host call history compared, with failing host calls injected", "Refinement against a small executable model of the language (sim/src/model.rs)."),
 "C12": ("seeded templates with host, lookup and template failures injected at any point, against a reference interpreter", "Refinement against the model; absorption points are the model's."),
 "C13": ("seeded nestings of blocks, bindings and exports with failures injected, against a reference interpreter", "Refinement against the model's scopes."),
 "C14": ("seeded call graphs, redefinition histories and template manager outages, against a reference interpreter", "Refinement against the model."),
 "C15": ("same seeded program re-run under other hash keys, entropy, clock, environment and threads; results compared", "Entropy and hash keys are under the simulator's control."),
 "C16": ("seeded interleavings of threads sharing templates and functions, with faults; each compared with its run alone", "Threads switch at system calls, locks, host callbacks, allocations and sampled edges of the library's code; weak memory orders are not modelled."),
 "C17": ("seeded entropy streams, ranges and lists; every draw checked for range, coverage, independence", "Coverage is statistical over at least 700 draws; the failure probability of a correct draw is below 1e-9 per run."),
 "C18": ("failures of the standard streams at any write; same calls compared with and without", "Standard streams are simulated: closed, broken, full, interrupted."),
 "C19": ("seeded templates with failing exports; front matter compared with a reference evaluation", "Refinement against the model."),
 "C20": ("seeded image files with truncation, chunking and read faults; result compared with the dimensions written into the file", "Formats built by the generator, so the true dimensions are known."),
 "C22": ("failures that stop or never stop, re-entrant and panicking host functions, seeded schedules; a run in which nobody can run (deadlock) or that passes its step bound (livelock) is the violation", "Liveness as progress within 550,000 scheduling steps and 1.5e9 executed edges; the clock and every blocking call are simulated."),
 "C21": ("seeded faults, outages, failing and panicking host functions on repeated calls and renders, then the same without them; compared with a fresh function set", "Differential against a fresh function set on the same simulated system."),
}
NA = {
 "D01": "pure function of one text: no scheduling, time, I/O, randomness or fault for a simulator to decide; seeds over texts would be plain fuzzing",
 "D02": "pure function of its operands; nothing for a simulator to control",
 "D03": "pure function of its operands; nothing for a simulator to control",
 "D04": "pure function of one string; nothing for a simulator to control",
 "D05": "pure conversion of data values; nothing for a simulator to control (the one hidden input, hash order, is claimed as C15)",
 "D06": "pure functions of their argument list; nothing for a simulator to control (those with effects, locks or streams are claimed in C09, C12, C17, C18)",
}
m = {"version": 1,
 "setup_cmd": "cd sim && CARGO_NET_OFFLINE=true cargo build --offline",
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}", "evidence_file": f"evidence/{i}.json",
             "technique": T + t, "level": "exploration",
             "level_note": n + " Sampled, not exhaustive; trusts the simulated kernel's likeness to Linux (sim/src/shim.rs, kernel.rs)."} for i, (t, n) in C.items()],
 "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
 "notes": "No hooks in /repo: the simulator replaces libc's symbols (see DESIGN.md). VERIF_TIER selects quick (25 s of exploration) or thorough (25 min). ./replay.sh <file> repeats a recorded violation."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
