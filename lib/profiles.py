"""What each property's check builds and how many runs it makes."""
REAL = ["all of include/fastad_bits reached through the public headers (expression nodes, Var, bind, evaluate, autodiff, densities)", "Eigen's containers and decompositions", "libstdc++ containers and exceptions"]
STUB = ["malloc/free/new/delete: wrapped allocator (counts, fails on schedule, fills fresh memory, checks block ends)",
        "caller-supplied storage: guarded pages, one shared arena, or the expression's own", "the caller: a seeded scheduler issuing every step"]
RULE = ("one evaluation is one simulated run: a seed picks expressions from a catalogue (every node kind x operand shape x variable/constant/view), sizes, "
        "which variables are shared, the storage, and a schedule of 25-260 steps; distinct_nontrivial counts distinct points (hash of the run's sequence of (expression, pass kind, failed or not) so far, with the current regime: in/out of support, finite or not) at which a forward pass was checked")
ASSUME = ["values and gradients are compared with an independent reference at relative tolerance 1e-9 and only where the reference is certain (no value within rounding of a branch point, magnitudes below 1e6); elsewhere only the frame, ledger-free and fresh-rebuild checks apply",
          "single process, x86-64, clang -O0, fixed address-space layout"]
def full(q, t): return [dict(name="full", quick=q, thorough=t)]
def num(q, t): return [dict(name="num", defs="-DNUM_SIM", quick=q, thorough=t)]
def some(name, tags, q, t): return [dict(name=name, tags=tags, quick=q, thorough=t)]
def P(variants, rule=RULE, real=REAL, stub=STUB, assumptions=ASSUME): return dict(variants=variants, rule=rule, real=real, stub=stub, assumptions=assumptions)
KINDS = {}
PROFILES = {
    "C01": P(full(45000, 3000000)),
    "C02": P(full(60000, 3000000)),
    "C03": P(full(50000, 3000000)),
    "C04": P([dict(name="thr", engine="thr", quick=36000, thorough=3000000)],
        rule="one evaluation is one simulated run: 2-4 real threads, each with its own script of 3-30 evaluate/autodiff/set/rebuild/copy/bind steps over shared read-only values, shared prototypes and constants, run one at a time and preempted where the seed says; distinct_nontrivial counts distinct schedules (hash of the sequence of switch points and targets)",
        real=["all of include/fastad_bits reached through the public headers, compiled with memory-access instrumentation", "Eigen's containers and decompositions", "libstdc++ containers and exceptions", "POSIX threads"],
        stub=["the thread scheduler: one thread runs at a time; a switch can happen at every instrumented load or store outside the thread's own stack", "pthread_mutex_lock, rwlock, once, sched_yield, static-initialisation guards: yield instead of blocking", "malloc/free/new/delete: wrapped allocator (fills fresh and freed memory)"],
        assumptions=["sequential consistency: a switch happens between memory accesses, never inside one, and stores are visible at once", "single process, x86-64, clang -O0, fixed address-space layout"]),
    "C05": P(full(60000, 3000000)),
    "C06": P(num(30000, 3000000), real=REAL + ["exception propagation through Eigen and the library with a user scalar type"], stub=STUB + ["user code: a scalar type whose every operation, and functors whose every call, can throw on schedule"]),
    "C07": P(some("seq", "ph,opassign,for_each,glue", 40000, 3000000) + some("found", "finding", 400, 4000)),
    "C08": P(some("cond", "ifelse", 25000, 1500000) + [dict(name="condnum", defs="-DNUM_SIM", tags="ifelse", quick=25000, thorough=1500000)], stub=STUB + ["user code: a scalar type that throws when it touches a marked value"]),
    "C09": P([dict(name="life", engine="life", quick=90000, thorough=6000000)],
        rule="one evaluation is one simulated run: 40-160 steps over 8 recycled variable places, containers, sub-views and expressions; distinct_nontrivial counts distinct (step-kind sequence so far, kinds and states of all places), sampled every fourth step",
        real=["Var and VarView for scalars, vectors and matrices, ad::bind/autodiff over them", "std::vector, list, map, tuple, optional of variables"],
        stub=["malloc/free/new/delete: wrapped allocator (counts, fails on schedule, fills fresh and freed memory)", "the places variables live in: recycled slab cells overwritten on destruction"],
        assumptions=["a moved-from variable is only assigned to or destroyed; sub-views and expressions are followed through copy assignment but not through move assignment or swap (which exchange buffers)"]),
    "C10": P(full(50000, 3000000)),
    "C11": P(some("stat", "stat", 60000, 3000000)),
    "C12": P(some("const", "const,view", 40000, 3000000)),
    "C13": P(full(35000, 2000000)),
    "C14": P(full(35000, 2000000)),
    "C15": P(some("det", "det", 60000, 3000000)),
    "C16": P([dict(name="fwd", engine="fwd", quick=100000, thorough=6000000), dict(name="fwdnum", engine="fwd", defs="-DNUM_SIM", quick=100000, thorough=6000000)],
        rule="one evaluation is one simulated run: 40-200 steps over eight forward-mode variables, a vector and a map of them; distinct_nontrivial counts distinct step-kind sequences, sampled every fourth step",
        real=["forward-mode variables and every operation on them", "std::vector, std::map and the standard algorithms over them", "exception propagation with a user scalar type"],
        stub=["malloc/free/new/delete: wrapped allocator (counts, fails on schedule, fills fresh memory)", "user code (variant fwdnum): a scalar type whose every operation can throw on schedule"],
        assumptions=["each operation is compared at relative tolerance 1e-9 with its formula at the operands' actual values, for operands below 1e3 and clear of singularities; elsewhere only that nothing else changes and that fresh operands give the same", "single process, x86-64, clang -O0"]),
    "C17": P(full(40000, 3000000)),
}
