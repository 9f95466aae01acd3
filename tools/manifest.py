#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
common = ("Seeded search over simulated executions, not a proof: it shows the absence of violations only on the executions drawn "
          "(one seed = one execution; seeds derive from VERIF_SEED). ")
fs = ("Real code: all of moledyn, moledyn_proc's expansion, std, chrono, rand. Simulated: every libc file-system, clock, entropy and argument call the process makes, "
      "and thread scheduling. Trusted: the simulated file system, the scheduler and the reference model in harness/src. ")
dyn = ("Real code: all of moledyn, rand, rand_pcg, rand_distr. Simulated: scheduling of concurrent callers at operation granularity and the generator's state, including states forced to deliver extreme draws. "
       "Trusted: the reference model in harness/src/props. ")
n = {
"C01": fs + "Header of 25+ program assemblies with generated values, read back by the real reader under short, interrupted and reordered reads; every prefix cut is drawn, not enumerated.",
"C02": fs + "Reference: records kept by the scenario, grouped by exact values; means and deviations compared to 1e-10 relative.",
"C03": fs + "Reference histogram computed from the records; samples within rounding of an edge may be in either adjacent bin.",
"C04": fs + "One or two failing calls or a full disk per run, at drawn positions of every call class; full results required whenever success is reported.",
"C05": fs + "Up to four concurrent analyses per round at system-call granularity with midnight crossings, leftovers and faults.",
"C06": fs + "Process crashes before, after and inside any call; what write(2) accepted survives (the library never calls fsync, so machine crashes are outside the claim).",
"C07": fs + "Each run alone, then interleaved at step granularity on a machine with other clock, entropy and hash seeds; bytes compared.",
"C08": dyn + "Per-step comparison with the rule; steps landing within a few ulps of a boundary may be accepted or refused. Behaviour of positions after a refused step is not claimed.",
"C09": dyn + "Placement is checked on every draw; evenness is checked by counts of 1500 draws with limits of 7.5 standard errors (false alarm below 1e-12 per count), so a bias of a few per cent can escape one run but not the sweep.",
"C10": dyn + "Displacements compared with the StandardNormal stream of a cloned generator to 8 ulps; generator states compared by their next three outputs.",
"C11": dyn + "Reference clock advanced in lock-step over histories of up to some hundred deliveries. Maxima between 0 and 1e-10 are not claimed.",
"C12": dyn + "Reference: a plain ordered list of live indices. Removals during a pair pass are limited to the second member of the pair just delivered, as stated.",
"C13": dyn + "Reference: integer sizes and size^-alpha to 1e-12. Merging an agent with a different movement kind is not claimed.",
"C14": fs + "Argument vectors of all lengths up to the full list plus three; values compared field by field with the objects built.",
"C15": dyn + "All-pairs reference sums to 1e-10; coincident agents are not claimed.",
"C16": fs + "Feed-report-clear-rebin histories of the three public accumulators through short, interrupted and failing writers and files.",
"C20": fs + "Writers and analyses interleaved at system-call granularity; every prefix between what was acknowledged before the analysis and what was started before its end is accepted. Writes that carry part of a line while the program goes on are not claimed.",
}
tech = {
 "fs": "deterministic simulation: seeded search over schedules, file-system behaviour and injected faults, against a reference model",
 "dyn": "deterministic simulation: seeded search over interleaved operation histories with forced random draws, against a reference model",
}
checks = []
for k in sorted(n):
    kind = "fs" if n[k].startswith(fs) else "dyn"
    checks.append({"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
                   "evidence_file": f"evidence/{k}.json", "technique": tech[kind], "level": "exploration", "level_note": common + n[k]})
na = {
"C17": "A pair force and a pair potential are pure functions of one distance: no concurrency, time, I/O, randomness or history a simulator could control; sampling them would be plain property testing. (C15's sweeps use the closed form of the force as their reference, so a wrong force is seen there.)",
"C18": "Vector arithmetic is pure, stateless computation without scheduling, time, I/O or randomness; there is no execution for a simulator to control.",
"C19": "Printing and parsing of enumerated types is pure text conversion without scheduling, time, I/O or randomness. (The part a user meets, values in a result-file header surviving the file system, is claimed as C01.)",
}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
     "notes": "No hooks in /repo: every source of nondeterminism is reached through libc symbols the harness binary interposes, through argument vectors and through the generator the API takes. See DESIGN.md."}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
open(p, "w").write(json.dumps(m, indent=1) + "\n")
