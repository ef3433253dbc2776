#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
R = "include/fastad_bits/reverse/"
props = []
def P(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

P("C01", "Re-evaluating a bound expression never remembers its past",
  "After any sequence of variable updates, forward and backward passes, non-finite, singular or out-of-domain evaluations, re-bindings to other storage and destroy/rebuild cycles, a forward (and then backward) pass over a bound expression yields the value and gradient that its formula has at the variables' current values. "
  "The result is the same as that of an expression freshly built and bound over the same current values: nothing retained from an earlier pass, valid or not, leaks into a later one.",
  ["histories", "programs", "inputs", "fault_sequences"],
  "for every expression built from the public node vocabulary, every operand shape and mix of variables and constants, and every finite history of updates, passes, bad-input episodes, rebinds and rebuilds",
  "Unit tests evaluate one expression once or twice at fixed valid inputs; state retained inside nodes (constant caches, decompositions, support flags, product caches, assignment caches) only misbehaves after particular earlier evaluations.",
  [R+"core/eval.hpp", R+"core/bind.hpp", R+"core/prod.hpp", R+"core/pow.hpp", R+"core/det.hpp", R+"core/log_det.hpp", R+"core/if_else.hpp", R+"stat/normal.hpp", R+"stat/wishart.hpp", R+"stat/bernoulli.hpp"],
  [("every feval recomputes its whole subtree into its own cache", R+"core/*.hpp feval()"), ("stat nodes refresh parameter caches on each feval unless the argument is constant", R+"stat/*.hpp update_cache()")],
  [("node caches", "values/adjoints of intermediate nodes, decompositions, log-determinants, support flags", R+"core and "+R+"stat node members")])

P("C02", "Adjoints are an exact additive ledger written only by backward passes",
  "Between two resets a variable's adjoint equals the sum, over all backward passes run since on any expressions containing it, of the seed-weighted partial derivatives at the values of the preceding forward pass, linearly in the seed for scalar seeds and per-element array seeds alike, under any interleaving of forward and backward passes of several expressions (placeholders and assignment targets being reset before each backward pass, as documented). "
  "Forward passes change no adjoint, and no pass changes the value or adjoint of a variable its expression does not contain, nor the value of any variable that is not an assignment target.",
  ["histories", "schedules", "programs", "inputs"],
  "for every set of expressions over shared and private variables, every interleaving of their passes, every seed (including 0, negative and array seeds) and every placement of resets",
  "Tests call autodiff once with seed 1 on zeroed adjoints and look only at the variables of that expression.",
  [R+"core/var_view.hpp", R+"core/eval.hpp", R+"core/unary.hpp", R+"core/binary.hpp", R+"core/sum.hpp", R+"core/prod.hpp", R+"core/dot.hpp", R+"core/norm.hpp", R+"stat/cauchy.hpp", R+"stat/normal.hpp", R+"stat/uniform.hpp"],
  [("leaf backward pass adds the seed to the adjoint", R+"core/var_view.hpp beval"), ("every node multiplies its incoming seed by its local partials", R+"core/*.hpp, "+R+"stat/*.hpp beval")])

P("C03", "A bound expression stays inside the storage it was given",
  "Binding an expression to caller-supplied storage consumes exactly the advertised number of value and adjoint slots, and later passes read and write nothing but those slots and the expression's own variables and constants, so expressions laid end to end in one arena never disturb one another. "
  "Results do not depend on the initial contents or position of that storage, and an expression can be re-bound to other storage at any moment between passes.",
  ["programs", "histories", "configurations", "fault_sequences"],
  "for every expression shape and size, every packing of several expressions in one arena, every initial (garbage) content and every history of rebinding, scribbling and passes",
  "Tests bind to generously sized zeroed buffers and compare sizes for a few node types; an overlap or overrun only shows when two particular nodes are adjacent or the buffer is exact.",
  [R+"core/value_adj_view.hpp", R+"core/eq.hpp", R+"core/prod.hpp", R+"core/sum.hpp", R+"core/pow.hpp", R+"core/glue.hpp", R+"core/for_each.hpp", R+"core/bind.hpp", "include/fastad_bits/util/size_pack.hpp", "include/fastad_bits/util/ptr_pack.hpp"],
  [("bind_cache returns the next free pointers after binding children then itself", R+"core/*.hpp bind_cache"), ("bind_cache_size sums the subtree", R+"core/*.hpp bind_cache_size")])

P("C04", "Concurrent evaluation of separate expressions is isolated",
  "Threads that build, evaluate and differentiate their own expressions, with their own assignment targets and adjoints, obtain under every interleaving the results each obtains when run alone. "
  "This holds also when the expressions are copies of one shared unbound prototype, have the same type, or read the same variable values and constants.",
  ["schedules", "programs", "histories"],
  "for every preemptive interleaving, at individual memory accesses, of two to four threads running any mix of expression programs on separate writable state",
  "The tests are single-threaded; hidden shared mutable state shows only when one thread is preempted inside a window of a few instructions.",
  [R+"core/eval.hpp", R+"core/bind.hpp", R+"core/var_view.hpp", R+"core/prod.hpp", R+"core/det.hpp", R+"core/log_det.hpp", R+"stat/normal.hpp", R+"stat/wishart.hpp", "include/fastad_bits/util/numeric.hpp"],
  [("all mutable state lives in the expression object, its bound storage and its variables", R+"core/*.hpp members")])

P("C05", "An allocation failure is reported, leaks nothing and is survivable",
  "If memory allocation fails at any point while variables or expressions are created, copied, bound or evaluated, the failure surfaces to the caller as std::bad_alloc, nothing leaks, and every other variable and expression keeps its values, adjoints and behaviour; a failed forward pass leaves all adjoints untouched. "
  "Once memory is available again, resetting adjoints and (for assignment targets) restoring values is enough for the same objects to evaluate and differentiate correctly.",
  ["fault_sequences", "crash_points", "histories", "programs"],
  "for every allocation site reached by any operation, any set of failing allocations, and every continuation of the history",
  "No test makes an allocation fail.",
  [R+"core/bind.hpp", R+"core/var.hpp", R+"core/for_each.hpp", R+"core/sum.hpp", R+"core/prod.hpp", R+"core/det.hpp", R+"core/log_det.hpp", R+"core/dot.hpp", R+"stat/normal.hpp", R+"stat/wishart.hpp"],
  [("all memory is owned by Eigen matrices and standard containers", R+"core/bind.hpp, "+R+"core/var.hpp, node members")])

P("C06", "An exception from user code leaves everything recoverable",
  "An exception thrown by user code, from a functor passed to an iterated construct while an expression is built or from an arithmetic operation of a user-supplied scalar type anywhere in a build, forward or backward pass, propagates unchanged to the caller and leaks nothing. "
  "Variables outside the interrupted expression keep values and adjoints, and after resetting adjoints and restoring assignment targets the interrupted and all other expressions evaluate and differentiate correctly.",
  ["crash_points", "fault_sequences", "histories", "programs"],
  "for every operation at which user code can throw and every continuation of the history",
  "No test throws from user code; an interrupted pass leaves partial state that only a later pass can reveal.",
  [R+"core/for_each.hpp", R+"core/sum.hpp", R+"core/prod.hpp", R+"core/eq.hpp", R+"core/if_else.hpp", R+"core/unary.hpp", R+"core/binary.hpp", R+"core/eval.hpp"],
  [("a pass recomputes everything it reads, so a half-finished pass is harmless", R+"core/*.hpp feval/beval"), ("functor results are collected into an owned vector", R+"core/for_each.hpp for_each()")])

P("C07", "Placeholders and sequenced statements behave like sequential code",
  "Statements joined by the comma operator or for_each run left to right, each assigned expression exactly once per forward pass; afterwards every placeholder holds its assigned value, and the derivatives flow through placeholders, compound assignments and repeated uses exactly as in the equivalent sequential program. "
  "A backward pass after a compound assignment restores the target's value from before the forward pass, so forward/backward cycles can be repeated, interleaved and nested in iterations without drift.",
  ["programs", "histories", "inputs"],
  "for every program of placeholder assignments, compound assignments (+=, -=, *=, /=), sequencing and iteration, and every history of repeated passes over it",
  "Tests cover a handful of fixed statement lists, evaluated once; rebinding of an assigned expression's root onto the placeholder's storage interacts with every node type and history.",
  [R+"core/eq.hpp", R+"core/glue.hpp", R+"core/for_each.hpp", R+"core/var_view.hpp"],
  [("placeholder storage is shared with the root of the assigned expression", R+"core/eq.hpp EqNode::bind_cache"), ("old value and adjoint are saved and restored", R+"core/eq.hpp OpEqNode")])

P("C08", "A conditional touches only the branch it takes",
  "In each forward pass a conditional expression evaluates its condition and then only the selected branch, and the following backward pass differentiates only that same branch, wherever the conditional stands in a larger expression. "
  "Whatever the other branch contains (invalid values, failing user arithmetic, assignments) affects neither result nor state, and the branch may change from pass to pass.",
  ["programs", "histories", "inputs", "fault_sequences"],
  "for every placement and nesting of conditionals, every history of conditions flipping between passes, and every fault or invalid state confined to the untaken branch",
  "Tests evaluate a stand-alone conditional once per branch; stale or cross-branch effects need flips between passes and faults in the dormant branch.",
  [R+"core/if_else.hpp", R+"core/binary.hpp"],
  [("branch chosen by the condition's value at the last forward pass", R+"core/if_else.hpp feval/beval")])

P("C09", "Variables are independent values through copies, moves and assignments",
  "A copied variable has the same values and adjoints as its source and from then on shares no storage with it; a moved-to variable takes over values and adjoints; assigning to a variable, in any order, chain or container operation, leaves every other variable unchanged, and expressions built over a copy-assigned variable see its new values. "
  "Sub-views (elements, heads, tails) alias exactly their part of the variable they were taken from, and a failed allocation during a copy leaves every other variable intact.",
  ["histories", "fault_sequences"],
  "for every history of constructing, copying, moving, assigning, self-assigning, resizing containers of, viewing and mutating scalar, vector and matrix variables, with allocation failures",
  "Tests copy a variable once; stale self-views appear only after chains of moves, container growth or failed copies.",
  [R+"core/var.hpp", R+"core/var_view.hpp", R+"core/value_adj_view.hpp", R+"core/value_view.hpp"],
  [("owner re-points its view at its own storage after each special member", R+"core/var.hpp rebind()")])

P("C10", "A bound expression owns its storage wherever it is copied or moved",
  "An expression bound by ad::bind keeps working, with its own temporaries, after it is moved (even between a forward and its backward pass), returned from functions, stored in growing and shrinking containers, copied, assigned, swapped, or after the object it was copied or moved from is evaluated elsewhere or destroyed. "
  "Two copies interleave their forward and backward passes without disturbing each other, and results equal those of a freshly bound expression; a copy starts with a forward pass.",
  ["histories", "schedules", "fault_sequences"],
  "for every history of binding, copy- and move-constructing, container growth, destruction and interleaved passes over a family of bound expressions, with allocation failures",
  "Tests use each bound expression in place, in the scope that created it.",
  [R+"core/bind.hpp", R+"core/eval.hpp"],
  [("wrapper owns value and adjoint buffers its expression points into", R+"core/bind.hpp ExprBind")])

P("C11", "Log-densities gate on the current support and recover from any episode",
  "At every evaluation a log-density expression equals negative infinity and contributes nothing to any adjoint when its current sample or parameters are outside the support (in a vector of Bernoulli probabilities, the elements that are in range keep contributing theirs), and otherwise equals the distribution's log-density up to an additive constant with the matching gradient. "
  "This holds for every shape combination and every choice of constant arguments, in any history of episodes in and out of the support (including failed factorisations of covariance or scale matrices).",
  ["histories", "inputs", "programs", "fault_sequences"],
  "for the Bernoulli, Cauchy, normal, uniform and Wishart densities, every scalar/vector/matrix argument combination, every subset of constant arguments, every seed and every history entering and leaving the support (Bernoulli probabilities are clipped into [0,1], as documented in its code)",
  "Tests evaluate each specialisation once, mostly with all-variable or one constant argument, either inside or outside the support, never after a switch, and only with seed 1.",
  [R+"stat/bernoulli.hpp", R+"stat/cauchy.hpp", R+"stat/normal.hpp", R+"stat/uniform.hpp", R+"stat/wishart.hpp"],
  [("support flags and parameter caches refreshed on each forward pass", R+"stat/*.hpp within_range/update_cache"), ("backward pass returns early outside the support", R+"stat/*.hpp beval")])

P("C12", "Constants are snapshots, constant views follow their buffer",
  "A constant given by value (number or matrix) keeps the value it had when the expression was built, whatever later happens to the object it came from, and is never differentiated or written. "
  "A constant view combined with variables is re-read at every forward pass, so streaming new rows through its buffer gives at each step the result of an expression built on that data, and the buffer is never modified.",
  ["histories", "programs", "inputs"],
  "for every expression mixing constants, constant views and variables, and every history of buffer updates, source mutation and passes",
  "Tests use constants whose sources never change after the expression is built.",
  [R+"core/constant.hpp", R+"core/binary.hpp", R+"core/dot.hpp", R+"core/unary.hpp", R+"core/eq.hpp"],
  [("Constant owns a copy, ConstantView maps the caller's buffer", R+"core/constant.hpp"), ("constant-only subexpressions are folded when built", R+"core/*.hpp factory functions")])

P("C13", "Steady-state evaluation does not accumulate memory",
  "Once an expression is bound, any number of forward and backward passes, in any mix with updates, bad-input episodes and interrupted passes, leaves the amount of allocated memory where it was. "
  "Destroying expressions and variables returns everything they allocated, in any order of destruction.",
  ["histories", "fault_sequences", "programs"],
  "for every expression and every history of passes, episodes, failures, copies and destructions",
  "Tests do not count allocations; a leak or growth per pass, per failed factorisation or per copy is invisible to them.",
  [R+"core/bind.hpp", R+"core/var.hpp", R+"core/det.hpp", R+"core/log_det.hpp", R+"stat/normal.hpp", R+"stat/wishart.hpp", R+"core/for_each.hpp"],
  [("value-type nodes own fixed-size members only", R+"core/*.hpp members")])

P("C14", "The same history gives the same bits in every environment",
  "Replaying one history of builds, updates and passes gives bit-for-bit the same values and adjoints whatever the previous contents of heap and stack memory, the (equally aligned) addresses at which objects and storage land, and whatever unrelated expressions were built or evaluated before in the process. "
  "Results are a function of the history alone.",
  ["histories", "configurations", "programs"],
  "for every program and history, every heap/stack fill pattern, every placement of storage and every unrelated prior activity",
  "Tests run in one environment and compare within tolerances; a read of uninitialised or unrelated memory usually happens to read zero there.",
  [R+"core/bind.hpp", R+"core/sum.hpp", R+"core/prod.hpp", R+"core/pow.hpp", R+"core/value_adj_view.hpp", R+"stat/normal.hpp", R+"stat/wishart.hpp", R+"core/log_det.hpp"],
  [("every temporary is written before it is read within a pass", R+"core/*.hpp feval/beval")])

P("C15", "Determinant expressions recover from singular and indefinite episodes",
  "For every decomposition policy, determinant and log-determinant expressions give the value and gradient of the current matrix whenever that matrix suits the policy, regardless of singular, indefinite or non-finite matrices evaluated before. "
  "When the current matrix certainly cannot be factorised (an all-zero row, a clearly negative pivot), the backward pass leaves every adjoint untouched instead of writing results of an earlier factorisation.",
  ["histories", "inputs", "fault_sequences"],
  "for the full-pivot LU, LDLT and LLT policies of det and log_det, every matrix size, and every history of valid, singular, indefinite and non-finite matrices",
  "Tests evaluate each policy on single matrices.",
  [R+"core/det.hpp", R+"core/log_det.hpp"],
  [("validity flag recomputed by each factorisation and consulted before differentiating", R+"core/det.hpp, "+R+"core/log_det.hpp valid()")])

P("C16", "Forward-mode variables carry exact derivatives through any history",
  "A forward-mode variable always holds the value, and the derivative along the current seeds, of the operation that last produced it, computed from its operands as they were then: through any sequence of constructing, seeding, re-seeding, combining, negating, applying functions, accumulating with += (including a variable with itself or with its own operands), copying, and moving through containers. "
  "Reading, combining or copying variables changes none of them but the target, out-of-domain results never influence later computations, and derivatives along several seeds add up. "
  "If an arithmetic operation of a user-supplied scalar type or an allocation fails in the middle, the exception reaches the caller unchanged, every variable other than the target of the interrupted accumulation keeps its value and derivative, and repeating the computation gives the right result.",
  ["histories", "programs", "inputs", "fault_sequences"],
  "for every sequence of forward-mode operations over any number of variables, every aliasing of operands and target, every seed (including 0, negative and fractional), and every point at which user arithmetic may throw",
  "Tests apply each operation once with seed 1 and distinct operands; a derivative that ignores its seed, an aliased accumulation or a result remembered from an earlier call is invisible to them.",
  ["include/fastad_bits/forward/core/forward.hpp", "include/fastad_bits/forward/core/dualnum.hpp"],
  [("every operation builds its result from its operands' values and adjoints", "include/fastad_bits/forward/core/forward.hpp"), ("+= assigns the sum through the binary operator", "include/fastad_bits/forward/core/forward.hpp operator+=")])

P("C17", "Every way of running an expression gives the same result",
  "Whether an expression is evaluated and differentiated by separate forward and backward calls or by one combined call, as a named object or a temporary, through a reference or by value, with the default or an explicit seed, with array seeds held in arrays, viewed in place or given as unevaluated array expressions, and whether it was bound by hand to caller storage or owns its storage, the returned value and the adjoints added are the same. "
  "Entry points can be mixed freely from pass to pass; each runs the forward pass exactly once where it says so and the backward pass exactly once, and never resets or reseeds anything the caller did not ask for.",
  ["histories", "programs", "configurations", "inputs"],
  "for every expression, every sequence of entry points, every form of scalar and array seed, and every way of binding",
  "Tests pick one entry point per test and never switch between entry points on one expression, so an overload that skips, repeats or mis-seeds a pass on the second call is not seen.",
  [R+"core/eval.hpp", R+"core/bind.hpp", R+"core/expr_base.hpp", R+"core/value_adj_view.hpp", R+"core/sum.hpp"],
  [("all overloads forward to one feval and one beval of the expression", R+"core/eval.hpp"), ("a bound expression forwards to the expression it owns", R+"core/bind.hpp")])

P("N01", "Pointwise accuracy of each operation's value and derivative",
  "For every finite input in its domain each elementary operation returns its value and derivative to near machine precision, including extreme magnitudes.",
  ["inputs"], "for every representable input of each operation",
  "Tests sample a few inputs per operation.",
  [R+"core/unary.hpp", R+"core/binary.hpp", R+"core/pow.hpp"], [("closed-form derivative rules", R+"core/unary.hpp")])
P("N03", "Ill-typed expressions are rejected at compile time",
  "Combining operands of incompatible shapes or non-differentiable types is rejected when the program is compiled, and every combination documented as supported compiles.",
  ["programs"], "for every combination of operand kinds and operations",
  "A test binary only contains combinations that compile.",
  ["include/fastad_bits/util/type_traits.hpp", "include/fastad_bits/util/shape_traits.hpp", R+"core/binary.hpp"], [("static_assert and enable_if constraints", "include/fastad_bits/util/type_traits.hpp")])
P("N04", "Evaluation costs no more work than a hand-written gradient",
  "The generated code for a bound expression performs no more passes over the data and no more temporaries than the documented cost model, so that evaluation time stays competitive.",
  ["configurations"], "for every expression, size and compiler configuration",
  "Benchmarks are not tests and have no pass/fail verdict.",
  ["benchmark/ad_benchmark.cpp", R+"core/bind.hpp"], [("expression templates", R+"core/*.hpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(props))
