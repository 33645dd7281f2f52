#!/usr/bin/env python3
"""Writes checks.json (what check.py needs per property) and MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TIDY_REAL = ["scripts/run-clang-tidy-cached.cc (whole program, unmodified, compiled from the working tree)",
             "libstdc++ streams, std::filesystem, std::regex, std::thread on top of the simulated kernel"]
TIDY_STUB = ["kernel (files, directories, processes, clock, threads): simulator", "/bin/sh: model of quoting, redirection, pipes, cd, && and exec",
             "clang-tidy, bazel: models; findings are a function of file, included headers, configuration, version, arguments"]
BANT_REAL = ["all of bant/ except tests (main program, unmodified, compiled from the working tree)",
             "libstdc++ streams, std::filesystem, std::thread on top of the simulated kernel"]
BANT_STUB = ["kernel (files, directories, processes, clock, threads): simulator", "absl: stand-in headers on the standard library, hash order seeded per run",
             "re2: stand-in on boost::regex"]
RANDOM = "Random cases from a seed: generated workload, scheduler mode and faults; every decision is recorded. "
CHECKS = {}
def check(pid, code, rule, note, quick=60, thorough=600, assumptions=()):
    CHECKS[pid] = {"code": code, "rule": RANDOM + rule, "quick": quick, "thorough": thorough,
                   "real": TIDY_REAL if code == "tidy" else BANT_REAL, "stubs": TIDY_STUB if code == "tidy" else BANT_STUB,
                   "assumptions": list(assumptions), "note": note}
exec(open(os.path.join(V, "tools/checks_def.py")).read())
json.dump(CHECKS, open(os.path.join(V, "checks.json"), "w"), indent=1)
man = {"version": 1, "setup_cmd": "python3 check.py setup",
       "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": "deterministic simulation with fault injection (seeded random schedules, faults and workloads; replayable, minimised)",
                   "level": "exploration", "level_note": c["note"]} for p, c in CHECKS.items()],
       "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
       "notes": "No hooks in /repo: the seam is the libc boundary plus compiler instrumentation (-fsanitize=thread calls answered by the simulator), so the shipped sources are compiled unchanged."}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p not in CHECKS and p not in NA:
        man["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
