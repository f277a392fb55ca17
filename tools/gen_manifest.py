#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that plan.py has jobs for."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import plan
T = "explicit-state / stateless model checking of the implementation: exhaustive enumeration of %s, the library's own code running on a model-checking MPI layer"
ENUM = dict(
 C01="inputs x configurations x completion orders", C02="strided shapes x configurations x completion orders", C03="descriptor lists x configurations x completion orders",
 C04="accumulate cases x configurations x completion orders", C05="all schedules, delivery orders and lock grants of concurrent accumulates", C06="all schedules and completion orders of concurrent read-modify-write programs, with a linearizability oracle",
 C07="all schedules and delivery times around fences and barriers", C08="reuse points x configurations x completion orders", C09="all non-blocking operation sequences up to a depth x completion times",
 C10="all schedules of lock/unlock programs", C11="all allocation/free sequences up to a depth", C12="all group definitions up to a size, and schedules of the non-collective protocol", C13="element types x operators x lengths x groups x reduction trees",
 C14="all programs of sends and receives up to a depth x matching orders", C15="all insertion sequences up to a depth", C16="all initialise/finalise histories up to a depth", C17="all schedules and delivery orders of a put-with-flag and its observers",
 C18="all settings and combinations of settings", C19="all interleavings of two threads of a process within a context bound", C20="MPI-rule monitors over every execution", C21="ranges around every allocation boundary x operation forms x configurations",
 C22="scalar values x locations x configurations", C23="all programs of up to k operations to one location x delivery orders", C24="buffer placements x operation forms x configurations", C25="all topology queries for every process count", C26="all strided shapes up to a bound", C27="all wrong arguments x call forms x configurations at the bound")
NOTE = "Exhaustive within the bounds DESIGN.md gives for this property; every execution runs the unmodified library sources of the working tree. Trusted: the simulated MPI layer (mc/sim.cc, DESIGN.md 'The MPI layer') and the oracle in mc/scen."
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if hasattr(plan, i):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=T % ENUM[i], level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=plan.NOT_YET.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the library sources are compiled unmodified against mc/inc/mpi.h. fix: commits are listed in known-findings.txt.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "without")
