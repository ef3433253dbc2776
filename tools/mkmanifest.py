#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from profiles import PROFILES
TECH = {
 "C01": "seeded simulation of evaluation histories with bad-input and rebinding episodes; reference-model and fresh-rebuild oracles",
 "C02": "seeded simulation of interleaved passes of several expressions; additive-ledger model and frame oracle",
 "C03": "seeded simulation with guarded, shared and overwritten storage; frame oracle over all memory the expression does not own",
 "C04": "seeded thread scheduler preempting real threads at shared memory accesses; equality with solo runs",
 "C05": "seeded simulation with allocation-failure injection at every allocation; recovery, frame and leak oracles",
 "C06": "seeded simulation with throwing user scalar/functors at every operation; recovery, frame and leak oracles",
 "C07": "seeded simulation of placeholder/compound-assignment histories against a sequential reference interpreter",
 "C08": "seeded simulation of branch-flipping histories with poisoned untaken branches; reference-model oracle",
 "C09": "seeded simulation of variable lifetimes (copy, move, assign, containers) with allocation failures; reference model",
 "C10": "seeded simulation of bound-expression lifetimes (copy, move, containers, destruction) with fresh-rebuild differential",
 "C11": "seeded simulation of in/out-of-support episodes of every density; reference-model oracle",
 "C12": "seeded simulation mutating constant sources and streaming view buffers between passes; reference-model oracle",
 "C13": "seeded simulation with an accounting allocator over long pass histories, failures and destruction orders",
 "C14": "seeded replay of each history in perturbed environments (heap fill, stack, placement, unrelated work); bitwise comparison",
 "C15": "seeded simulation of singular/indefinite/non-finite matrix episodes per policy; reference-model and no-write oracles",
}
TECH["C16"] = "seeded simulation of forward-mode histories with aliasing, accumulation, containers and failing arithmetic; dual-number model"
TECH["C17"] = "seeded simulation driving every pass through a different entry point, storage mode and seed form; twin-expression and reference-model oracles"
NOTE = "Explores seeded histories, schedules and faults of the real library code; every run is exactly repeatable from its seed. Not exhaustive. Trusts the independent reference evaluator (long double), clang, the wrapped allocator."
NOTES = {"C04": "Explores seeded thread interleavings at instrumented loads, stores, locks and once-guards of the real code under sequential consistency; equality with solo runs decides. Weak-memory reorderings are not simulated."}
NA = {
 "N01": "pointwise accuracy of one operation is a pure function of one input: no schedule, fault, I/O, time or history for a simulator to control",
 "N03": "decided when a program is compiled, not when one runs: there is no execution to simulate",
 "N04": "a cost claim about generated code: a simulated execution has no meaningful time, and nothing nondeterministic affects it",
}
have = [p for p in sorted(TECH) if p in PROFILES]
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0, 'lib'); import builder, profiles\"",
    checks=[dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough", evidence_file=f"evidence/{p}.json",
                 technique="deterministic simulation with fault injection: " + TECH[p], level="exploration", level_note=NOTES.get(p, NOTE)) for p in have],
    not_applicable=[dict(property=k, reason=v) for k, v in NA.items()] + [dict(property=p, reason="check not built yet") for p in sorted(TECH) if p not in have],
    notes="No hooks in /repo: every seam is outside it (allocator wrapping at link time, caller-supplied storage, template scalar type, compiler-inserted scheduling points in the harness build). fix: commits are listed in known-findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
