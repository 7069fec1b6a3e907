#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a rule in the checker (distcheck rules), the rest not applicable."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
have = {}
for l in subprocess.check_output([here + "/.bin/distcheck", "rules"], text=True).splitlines():
    i, _, t = l.partition("\t")
    have[i] = t
NA = {
 "N01": "Convergence quantifies over data distributions and random draws: it is a statistical statement about runtime values that no static argument in reach bounds.",
 "N02": "A rate over wall-clock time depends on the scheduler and on the duration of user code: the source only shows that the run sleeps between iterations, not what the rate is.",
 "N03": "Bounded termination under every schedule is a liveness property of the request/acknowledge rendezvous and of user code of unknown duration; the static rules C01-C03 and C08 cover its structural causes (locks, waits, unanswered requests), not a time bound. A request sent more than 100 ms after the run ended is known to wait for ever.",
 "N04": "Optimality of the DTW barycenter is a numerical optimisation result about runtime values; the static rules cover the formula that is computed (C23), not that it minimises anything.",
}
TECH = {
 "C01": "lockset typestate over all SSA paths (abstract interpretation)",
 "C02": "lock-order graph and re-acquisition analysis over all SSA paths",
 "C03": "blocking-effect analysis under locksets over all SSA paths",
 "C04": "lockset (guarded-by) analysis with channel hand-over typestate",
 "C05": "points-to and escape analysis of published values",
 "C06": "path-sensitive dataflow: decision table of each control operation",
 "C07": "path-sensitive dataflow: pairing of status writes and notifications",
 "C08": "request/answer typestate automaton over every path of the run",
 "C09": "error and panic flow analysis over every path",
 "C10": "path-sensitive dataflow: effects on counters in each critical section",
 "C11": "path-sensitive dataflow: conditions refuted before each iteration",
 "C12": "path-sensitive dataflow: decision table of Wait, typestate of the timer",
 "C13": "path-sensitive dataflow: every path of constructors and verifications",
 "C14": "abstract interpretation with an inductive invariant of the buffer",
 "C18": "abstract interpretation: partition arithmetic by induction, write footprints, WaitGroup typestate",
 "C20": "points-to and effect analysis",
 "C22": "abstract interpretation: layout and fill order of the matrix, recurrence of each cell",
 "C27": "path-sensitive dataflow of the late initialization; closed forms of density and sample",
 "C29": "taint and provenance analysis of generators, draws and clocks",
 "C30": "value-flow and points-to comparison of new and copied algorithms",
 "C31": "path-sensitive dataflow: every path of Push",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": "static analysis: " + TECH.get(i, "abstract interpretation of the SSA form, loops summarised by induction, results compared as terms"),
            "level": "other",
            "level_note": "Decided from the type-checked SSA of /repo's current source by abstract interpretation of every path (loops by havoc and induction, calls inlined or by contract); no code of the repository is executed. " + have[i][:600]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check is built for this property yet.")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
