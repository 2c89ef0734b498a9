#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, subprocess
NA = "pure function of its inputs: no schedule, clock, I/O, fault or second party can influence it, so a simulation decides nothing a plain property-based test would not; "
REASONS = {
 "C20": "a statement about algebra, to be decided by numeric or symbolic oracles over inputs",
 "C21": "a statement about calculus over inputs",
 "C22": "correctness of elimination over inputs (the simulation only uses an independent modular-arithmetic model of linear systems as part of the oracle of C05)",
 "C23": "integer arithmetic, done by boost::multiprecision",
 "C24": "the full grammar is a question about inputs (C12 does compare every simulated parse with an independent parser, but claims no coverage of the grammar)",
 "C25": "round trip over inputs",
 "C26": "algebraic law over inputs",
 "C27": "sign deduction over inputs",
 "C28": "structural law over inputs",
 "C29": "numeric accuracy over inputs",
}
TECH = "deterministic simulation with fault injection (seeded search over histories, schedules and fault points; fresh-process refinement oracle)"
NOTE = ("Seeded exploration, no exhaustiveness: the property held on every simulated run. All tsym code is real; allocator, clock, thread "
        "choice, client callbacks, sinks and memo look-ups are the simulator's. Trusts: the structural walk of the harness and, as reference, "
        "the library's own result of the single expression in a fresh process without memo, faults or threads.")
EXTRA = {}
props = [json.loads(l) for l in open("properties.jsonl")]
sha = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
claimed = [p["id"] for p in props if p["id"] not in REASONS]
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "TSYM_SIM_HOOKS", "enable": "sim/Makefile compiles /repo/src/*.cpp with -DTSYM_SIM_HOOKS", "source_commits": sha[::-1]},
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                 "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "exploration", "level_note": NOTE + EXTRA.get(p, "")} for p in claimed],
     "not_applicable": [{"property": k, "reason": NA + v} for k, v in REASONS.items()],
     "notes": "Replay a violation with: python3 check.py --replay <file>"}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
