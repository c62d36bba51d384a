#!/usr/bin/env python3
"""Single source of properties.jsonl (kept as code so that the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A compiled quadratic expression keeps its value at every assignment",
  "For every expression of degree at most two (as written) made of binary variables (0/1), spin variables (-1/+1), numbers, sums, differences, products and powers, the compiled model's energy at any assignment plus the constant it reports equals the arithmetic value of the expression there. Occurrences of one label are one variable (x*x = x, s*s = 1, and a binary and a spin with one label move together). Every label that occurs gets a value in every solution, and no further variables are introduced.",
  ["programs", "inputs", "configurations"],
  "all expressions in the language, all assignments, all seven numeric types and any ordered label type; independent of hash-map iteration order",
  "The tests compile four fixed expressions and look at the one assignment an annealer happens to return; every other expression, assignment, sign pattern and numeric type is unexamined.",
  ["src/expr.rs", "src/expanded.rs", "src/model.rs", "src/compiled.rs"],
  [("translation of an expression to a sum of monomials", "src/expr.rs to_model"), ("monomial sum and product", "src/expanded.rs AddAssign/MulAssign"), ("coefficient folding", "src/expr.rs StaticExpr::simplify"), ("matrix construction", "src/expanded.rs generate_qubo")],
  [("monomial map", "set of variables -> coefficient", "src/expanded.rs Expanded")],
  ["the model handed to the solver generator", "the value and solution returned by SimpleSolver::solve_with_constraints"])

p("C02", "Degree reduction to a quadratic model preserves the objective",
  "For every expression of any degree, and every assignment of its variables, the minimum of the compiled quadratic energy over the auxiliary variables, plus the reported constant, equals the value of the expression at that assignment. This holds whatever the signs of the coefficients, however many high-degree terms share variables, and whichever of several equally good substitutions the compiler picks. Compilation always finishes, and auxiliary variables are never exposed as labels of a solution.",
  ["programs", "inputs", "schedules"],
  "all polynomials with terms of degree above two, all assignments of user variables, all assignments of auxiliaries, all tie-breaks among substitutions (hash order)",
  "No existing test compiles anything of degree above two: the reduction code is never executed by the suite.",
  ["src/compiled.rs", "src/expanded.rs", "src/expr.rs", "src/wrapper.rs"],
  [("choice of the next sub-monomial", "src/compiled.rs reduce_order"), ("replacement formulas per sign", "src/compiled.rs generate_replace"), ("sub-monomial counting", "src/expanded.rs count_qubit_subsets/get_subsets"), ("sign inference", "src/expr.rs StaticExpr::is_positive"), ("fresh auxiliaries", "src/wrapper.rs Builder::ancilla")],
  [("expanded", "monomial map being rewritten until its order is two", "src/compiled.rs CompiledModel")],
  ["the model handed to the solver generator"])

p("C03", "Placeholder values mean the same fed before, after or around compilation",
  "Feeding non-negative values to the placeholders of a compiled model gives, at every assignment, the same energies as writing those numbers into the expression before compiling; feeding an expression reaches every part of it, including the contents of constraints and penalties, and any split of the values between the two stages agrees. Values for unknown names change nothing. A compiled model lists every placeholder that still matters and none that was given a value before; one with a placeholder left without a value is refused, never given a silent default.",
  ["programs", "inputs", "histories"],
  "all expressions with placeholders, all non-negative values, all splits of the dictionary over the two feeding stages, all assignments",
  "No test contains a placeholder at all.",
  ["src/expr.rs", "src/compiled.rs", "src/expanded.rs", "src/model.rs", "src/wrapper.rs"],
  [("expression-level feeding", "src/expr.rs Expr::feed_dict"), ("model-level feeding", "src/compiled.rs CompiledModel::feed_dict"), ("coefficient-level feeding", "src/expr.rs StaticExpr::feed_dict"), ("refusal of unfilled placeholders", "src/wrapper.rs Placeholder::drop_placeholder")],
  (), ["energies of the model handed to the solver generator"])

p("C04", "Every operator form builds the algebraically right expression",
  "For each of the seven numeric types, +, -, *, unary minus and ^ applied to expressions, and to expressions and plain numbers on either side, denote the corresponding arithmetic operation at every assignment, with x^0 = 1. The compound forms (+=, -=, *=, ^=) produce the same expression as the plain operator would, and neither lose, duplicate nor leak the operands.",
  ["programs", "inputs"],
  "all operator forms x operand kinds x numeric types, all operator sequences to a depth, all assignments",
  "One test type-checks a product and never evaluates it; the doc examples use five of the forms with one type; the compound forms, which move values out through uninitialised memory, are never run.",
  ["src/expr.rs"],
  [("operator impls and macros", "src/expr.rs impl_binary_op, impl_assign_op, BitXor"), ("assignment through swap", "src/expr.rs impl_assign_op")],
  (), ["structure of the expression", "energy of the compiled model"])

p("C05", "Constraints and penalties contribute to the energy exactly as written",
  "The energy solved for is the expression's value with each constraint counted as its strength times the value of its body, plus the value of every attached penalty counted once and as written. Products and signs around a penalised expression multiply its value but never its penalty, whereas those around a constraint multiply the constraint's term. Constraints sharing a label share one strength, and a constraint inside a penalty or a penalty beside a constraint obeys the same rules.",
  ["programs", "inputs"],
  "all nestings of constraints and penalties in sums and products, all assignments, all strengths",
  "One doc example and the TSP test contain constraints, neither examines the energy, and no test attaches a penalty.",
  ["src/expr.rs", "src/model.rs", "src/compiled.rs"],
  [("constraint and penalty translation", "src/expr.rs to_model"), ("composition of models", "src/model.rs Add/Mul/add_penalty/add_constraint/to_compiled")],
  [("penalties", "sum kept apart from the objective until compilation", "src/model.rs Model")],
  ["the model handed to the solver generator"])

p("C06", "Rewriting an expression visits every node once and keeps the rest intact",
  "Mapping a function over an expression applies it to each node exactly once, parent before child, including inside sums, products, constraints and penalties, and leaves the shape, labels and order of everything the function returns unchanged. Rewriting with the identity gives an equal expression; replacing a variable by a number everywhere gives the expression's value with that variable fixed.",
  ["programs"],
  "all expression trees to a size, all single-node rewrites",
  "The traversal is public API with no test.",
  ["src/expr.rs"], [("pre-order traversal", "src/expr.rs Expr::map")], (), ["the mapped expression", "the call sequence of the function"])

p("S01", "A returned solution is complete and its numbers agree with its assignment",
  "Whatever assignments the underlying solver answers with, the objective value returned equals the energy of the solved model at the returned assignment plus the model's constant, and is never below the true objective of that assignment. Every label of the model, and nothing else, is listed and has a value; the per-variable local field is the energy change caused by flipping that variable; the solution's own energy is that of the solved model; asking about an unknown label yields nothing rather than an error.",
  ["inputs", "histories"],
  "all sequences of solver answers, all small models, all labels",
  "The tests look at a handful of values of the best answer of a random annealer; no test reads the local field, the solution's energy, the key list, or an unknown label.",
  ["src/solve.rs", "src/solution.rs", "src/compiled.rs", "annealers/src/solution.rs"],
  [("assembling the result", "src/solve.rs solve_with_constraints"), ("label lookup", "src/solution.rs SolutionView")],
  [("qubit map", "label -> position in the solver's state", "src/solve.rs qubit_map")],
  ["SimpleSolver::solve_with_constraints", "SolutionView accessors"])

p("S02", "The reported unsatisfied constraints are exactly the violated ones",
  "For every assignment the solver may answer with, the labels reported alongside the returned solution are exactly the labels of constraints whose body is non-zero there (beyond a tolerance of 1e-4, in either direction), with fed placeholder values taken into account. Satisfied constraints and internal auxiliary conditions are never reported. An empty report means every constraint holds.",
  ["inputs", "programs"],
  "all constraint bodies over the grammar, all assignments, all numeric types",
  "The tests only assert that an annealer's best answer reports no violation; a checker that never reports anything would pass them.",
  ["src/model.rs", "src/expr.rs", "src/compiled.rs", "src/solve.rs"],
  [("satisfaction test", "src/model.rs Constraint::is_satisfied"), ("expression evaluation", "src/expr.rs Expr::calculate"), ("collection of labels", "src/solve.rs solve_with_constraints")],
  (), ["labels returned by SimpleSolver::solve_with_constraints"])

p("S03", "The returned sample is the best of its round, independent of thread timing",
  "In every round the answer carried forward is a sample of least energy among all samples the underlying solvers produced in that round, including several from one solver. The result depends only on what the solvers answered, not on how many worker threads there are or in which order the solvers finish.",
  ["schedules", "inputs"],
  "all answers of all samples in a round, all completion orders of the parallel solvers, several pool sizes",
  "The tests see one random answer set and one schedule per run and only the final optimum.",
  ["src/solve.rs"],
  [("parallel solve and collection", "src/solve.rs par_iter/collect"), ("selection of the minimum", "src/solve.rs solve_with_constraints")],
  (), ["solution returned by SimpleSolver::solve_with_constraints"])

p("S04", "Constraint strengths share the configured total and follow violations",
  "At the start of every restart all distinct constraints have equal, positive strength, and in every round the strengths add up to the configured total (up to rounding in whole-number types). After a round whose best sample violates some constraints, the strength of a violated constraint relative to a satisfied one never falls, and it rises strictly after the first round of a restart. Strengths never go negative and never depend on the labels' order.",
  ["histories", "configurations"],
  "all histories of solver answers over several rounds and restarts, one to three constraints, all numeric types",
  "The tests stop after a round or two and never look at the strengths; whole-number models with two constraints are not tested.",
  ["src/solve.rs", "src/expr.rs"],
  [("violation counting", "src/solve.rs phdict/size"), ("strength computation", "src/solve.rs generate_qubo callback")],
  [("phdict", "per-constraint violation points", "src/solve.rs"), ("size", "sum of the points", "src/solve.rs")],
  ["the models handed to the solver generator in successive rounds"])

p("S05", "The search returns a satisfying best sample when met and respects its budget",
  "The search stops and returns in the first round whose best sample satisfies every constraint, and returns that sample with an empty report; if no round's best does, it runs all restarts times generations rounds and returns some round's best sample with a non-empty report. It asks for exactly the configured number of samples in each round. Without constraints it finishes after one round.",
  ["histories", "configurations"],
  "all histories of solver answers for restarts x generations x samples up to small bounds",
  "The tests run one history chosen by an annealer and end in its first round.",
  ["src/solve.rs"],
  [("round loop, acceptance and early return", "src/solve.rs solve_with_constraints")],
  [("old_energy", "best energy of the restart", "src/solve.rs")],
  ["number of solver generations and solves", "returned labels"])

p("S06", "A failing solver surfaces as an error and never as a result",
  "If creating a solver, or solving with one, fails in a round that is executed, the call returns one of the errors that occurred; it neither panics, nor drops the failure, nor returns a solution from an earlier round. Failures in rounds that are not reached have no effect.",
  ["fault_sequences", "schedules"],
  "all single and double failures over generator and solver calls of a small run",
  "The built-in annealer cannot fail (its error type is uninhabited), so no test can reach these paths.",
  ["src/solve.rs", "annealers/src/solver.rs"],
  [("error propagation", "src/solve.rs collect::<Result<..>>()?")],
  (), ["result of SimpleSolver::solve_with_constraints"])

p("S07", "Calls do not influence each other: repeated, interleaved and concurrent",
  "Compiling, feeding values, searching and annealing depend only on their own inputs. A search on a solver or compiled model that was used before (also by a call that failed or panicked, or with other settings), that is used by others at the same time, that runs beside other searches, however many, or inside the solver of one, hands its solvers the same models and returns the same result as the same call alone with the same answers. An expression compiled, fed or cloned beside or after other work compiles to the same objective. An annealer run with the same random stream from any number of threads, any number of times, ends in the same state.",
  ["schedules", "histories"],
  "all interleavings of two or three searches at solver creation and solver call, of two annealers at every draw, preemptions at every label operation of pairs of compilations; all sequences of up to four calls",
  "Tests call everything once, from one thread.",
  ["src/solve.rs", "src/compiled.rs", "src/expanded.rs", "src/wrapper.rs", "classical_solver/src/sa.rs", "classical_solver/src/algo.rs"],
  [("state of a search", "src/solve.rs solve_with_constraints (strengths, best so far)"), ("numbering of auxiliary variables", "src/wrapper.rs Builder"), ("state of an annealing run", "classical_solver/src/sa.rs solve_with_rng")],
  [("phdict,size,old_energy", "strength bookkeeping of one search", "src/solve.rs"), ("ancillas", "next auxiliary variable of one compilation", "src/wrapper.rs Builder")], ["weights handed to each solver", "results of searches", "energies of compiled models", "final states of annealers"])

p("S08", "Every sample of a search has randomness of its own",
  "The random streams that a search hands to its solvers differ from one another: between the samples of a round, however many, between the rounds and restarts of a search, and between searches that follow one another, run at the same time or one within another, on any number of worker threads. No two samples draw the same numbers, so none merely repeats another.",
  ["configurations", "schedules"],
  "all combinations of samples, generations, restarts, worker threads and arrangements of several searches below the bound, and arrangements of hundreds of thousands of streams",
  "The tests only see answers: with one stream shared by all samples they would pass as long as that one finds the optimum.",
  ["src/solve.rs", "classical_solver/src/sa.rs"],
  [("seeding of the generator of a sample", "src/solve.rs solve_with_constraints")],
  (), ["the generator given to ClassicalSolver::solve_with_rng"])

p("A01", "A binary state behaves as a vector of bits under every operation sequence",
  "For every length and every sequence of construction, set, get, flip, iteration, indexing, cloning, conversion and printing, the packed binary state answers exactly as a plain vector of booleans would; changing one position never changes another. Positions at or beyond the length are refused by every checked operation. A randomly initialised state of length n has n values, each taken from the generator's output, and equal generators give equal states.",
  ["histories", "inputs"],
  "all operation sequences to a depth for all lengths to a bound, plus lengths around byte and word boundaries",
  "No test touches the packed state directly; the solver tests use at most 25 bits.",
  ["annealers/src/repr.rs"],
  [("bit addressing", "annealers/src/repr.rs get_unchecked/set_unchecked/flip_unchecked"), ("bounds checks", "annealers/src/repr.rs get/set/flip")],
  [("state,len", "packed bytes and number of valid bits", "annealers/src/repr.rs BinaryRepr")],
  ["BinaryRepr API"])

p("A02", "The dense quadratic model stores and lists each weight exactly once",
  "After any sequence of weight additions the dense model reports, for every unordered pair including the diagonal, the sum of what was added to it in either index order, and zero where nothing was added. Its listing of products contains each pair of existing variables exactly once for every size including zero and one, its neighbour listing of a variable contains exactly the pairs with that variable, and out-of-range indices are refused without disturbing any weight.",
  ["histories", "inputs"],
  "all sequences of additions to a depth for all sizes to a bound, plus large sizes",
  "One test lists the products for size four; no test covers weights, neighbours, or sizes below two.",
  ["annealers/src/model.rs", "annealers/src/set.rs"],
  [("triangular index", "annealers/src/model.rs get_index"), ("product enumeration", "annealers/src/model.rs Prods"), ("neighbour enumeration", "annealers/src/model.rs Neighbors")],
  [("matrix", "packed triangular weights", "annealers/src/model.rs FixedSingleQuadricModel")],
  ["get_weight, prods, neighbors, nodes, size"])

p("A03", "The sparse model stores and lists exactly the products that were added",
  "After any sequence of weight additions the sparse model lists each distinct product added exactly once, reports for it the sum of what was added, lists as nodes exactly the variables that occur, in ascending order, and as neighbours of a variable exactly the products containing it. This holds for pairwise and for higher-order products, for any gaps in the numbering, and independently of the order of the additions; a clone evolves independently.",
  ["histories", "inputs"],
  "all sequences of additions to a depth over small and gapped index sets, quadratic and high-order",
  "No test constructs a sparse model.",
  ["annealers/src/model.rs", "annealers/src/set.rs"],
  [("accumulation", "annealers/src/model.rs SingleModel::add_weight"), ("listing", "annealers/src/model.rs SingleModel prods/neighbors/nodes")],
  [("inner,nodes", "product -> weight, set of variables", "annealers/src/model.rs SingleModel")],
  ["get_weight, prods, neighbors, nodes, size"])

p("A04", "Energy and local fields of a solution are the model's, for every assignment",
  "The energy of an assignment is the sum over products of weight times the product of the variables' values, where a variable counts 0/1, -1/+1 or the two configured values according to the model's node kind. The local field of a variable is the change of that energy when only it is flipped, and computing either changes nothing in the assignment. A solution that already carries an energy or fields keeps them, and comparing two solutions orders them by energy and yields nothing when one is unknown.",
  ["inputs"],
  "all small dense and sparse models, all node kinds, all assignments, several numeric types",
  "The tests only ever see binary nodes and the energies of annealer answers; local fields are never read.",
  ["annealers/src/solution.rs", "annealers/src/node.rs", "annealers/src/model.rs"],
  [("energy sum", "annealers/src/solution.rs calculate_energy"), ("local field", "annealers/src/solution.rs calculate_local_field"), ("node values", "annealers/src/node.rs get_value/calculate_prod")],
  (), ["with_energy, calculate_energy, with_local_field, compare_energy"])

p("A05", "A product's variable set is canonical and converts without loss",
  "Building a variable set from any ordering of distinct variables, whether from a list or a set, gives one and the same value, equal and hashing alike, that lists its variables in ascending order, knows its size, and contains exactly them. Conversions to list and to set and back are the identity. A set that the representation cannot hold (none, or more than two variables for a pair) is refused rather than truncated.",
  ["inputs"],
  "all subsets of a small range and all their orderings, all three representations",
  "The tests use only pairs produced in ascending order.",
  ["annealers/src/set.rs"],
  [("sorting constructor", "annealers/src/set.rs from_vec"), ("pair representation", "annealers/src/set.rs impl NodeSet for [usize; 2]")],
  (), ["NodeSet API"])

p("A06", "The structured view of a solver offers every pair once and forwards the rest",
  "Viewing an unstructured solver as a structured one lists as nodes exactly 0..size (or all naturals when it has no size limit) and as products every unordered pair of distinct nodes exactly once, each after finitely many steps even when there is no limit; asking again after the end still reports the end. The view forwards solver creation, failures and the value range of the wrapped solver unchanged, and a solver that states no range has one that spans its numeric type.",
  ["inputs", "configurations"],
  "all sizes to a bound and the unlimited case to a prefix, all outcomes of the wrapped generator",
  "One test lists pairs of a three-element iterator and stops at the first end mark; nothing tests the wrapper.",
  ["annealers/src/solver.rs"],
  [("pair enumeration", "annealers/src/solver.rs UnstructuredEdgeIter"), ("adapter", "annealers/src/solver.rs AsStructuredSolverGeneratorWrapper")],
  [("cursor", "position in the triangular enumeration", "annealers/src/solver.rs UnstructuredEdgeIter")],
  ["nodes, prods, generate, value_range of into_structured()"])

p("A07", "Numeric types convert and compare exactly as the native numbers",
  "For every supported numeric type, zero, one, minimum, maximum, absolute value, conversion from a small integer and to a float, and finiteness agree with the native type's arithmetic, and the not-a-number default is a NaN for floating types and the given fallback for whole-number types. Converting to a wider type keeps the value whenever the wider type can represent it; forced conversion follows the native cast; combining two types converts both sides to the wider one.",
  ["inputs"],
  "all values of the 8- and 16-bit types and boundary values of the others, all pairs of types",
  "No test calls any conversion.",
  ["annealers/src/variable.rs"],
  [("Real impls", "annealers/src/variable.rs impl_real_as_f64"), ("conversion tables", "annealers/src/variable.rs impl_all, impl_convert_force")],
  (), ["Real, ConvertForce, ConvertFrom, ConvertTo, ConvertWith"])

p("K01", "Every annealing move follows the Metropolis rule on the true energy change",
  "For every quadratic model over binary variables, dense or sparse, every starting assignment, every schedule and every sequence of random draws, each sweep considers every variable once and flips it exactly when the true change of the model's energy at the current assignment is not positive, or the draw falls below exp(-beta * change). Changes so large that their acceptance probability is negligible (below 1e-18) may be refused without a draw. The bookkeeping of energy changes therefore never drifts from the model, over any number of sweeps.",
  ["histories", "inputs"],
  "all small models over a weight alphabet, all starting states, all accept/reject outcomes of every draw over several sweeps",
  "The suite only checks that random annealing of three models ends in the optimum; a wrong acceptance rule still usually does.",
  ["classical_solver/src/algo.rs"],
  [("initial differences", "classical_solver/src/algo.rs calculate_flip_cost"), ("incremental update", "classical_solver/src/algo.rs simulated_annealing"), ("acceptance test", "classical_solver/src/algo.rs simulated_annealing")],
  [("energy_diffs", "energy change per variable", "classical_solver/src/algo.rs")],
  ["final state of simulated_annealing under a scripted generator", "draws consumed"])

p("K02", "The annealing schedule is well formed for every model and numeric type",
  "An explicit schedule is used as given, each entry for exactly the configured number of sweeps. A schedule given by count and range has that many inverse temperatures rising geometrically from the first to the second bound (a single one lies within the bounds). One generated from the model is finite, positive and non-decreasing, starts so hot that every single-variable flip is accepted with probability at least one half, and ends so cold that a flip costing the largest weight is accepted with probability at most one percent; all this holds equally for whole-number types.",
  ["inputs", "configurations"],
  "all schedule kinds, counts and small models, all numeric types",
  "No test sees a temperature: the generated schedule is private and only random outcomes depend on it.",
  ["classical_solver/src/beta.rs", "classical_solver/src/sa.rs", "classical_solver/src/algo.rs"],
  [("range from the model", "classical_solver/src/beta.rs generate_beta_range"), ("geometric interpolation", "classical_solver/src/beta.rs generate_beta_schedule")],
  [("beta_schedule", "inverse temperatures of the run", "classical_solver/src/sa.rs SimulatedAnnealer")],
  ["acceptance thresholds under a scripted generator"])

p("K03", "A cold annealer ends in a local optimum, deterministically in its draws",
  "For every quadratic model, dense or sparse with any numbering, the annealer returns an assignment holding a value for every variable of the model. If every entry of the schedule is so cold that no uphill move can be accepted, then, whatever the random draws, its energy never exceeds that of the starting assignment and, without zero-cost flips and with enough sweeps, no single flip improves it. The answer is a function of the model, the settings and the draws alone.",
  ["inputs", "histories"],
  "all small models, all starting states delivered by the generator, all constant and scripted draw sequences, models of any size incl. none and one",
  "The annealer's own test is excluded as flaky and the others use one model each with default settings.",
  ["classical_solver/src/sa.rs", "classical_solver/src/algo.rs", "annealers/src/repr.rs"],
  [("random start", "annealers/src/repr.rs new_random"), ("solver entry", "classical_solver/src/sa.rs solve_with_rng")],
  (), ["SimulatedAnnealerGenerator::generate, solve_with_rng"])

p("E01", "The default pipeline solves every single-basin problem, whatever the randomness",
  "For every expression whose compiled energy landscape has a single local optimum under single flips, compiling and solving it with the built-in annealer and a schedule cold enough to refuse all uphill moves returns that optimum, its exact objective value and its constraint report, for every numeric type, number of samples and number of variables including none and one. No choice of random seed or thread timing changes this.",
  ["inputs", "configurations", "schedules"],
  "all small expressions with a single local optimum, several numeric types and settings",
  "The tests run the pipeline on four problems with at least two variables and hope for luck; problems with fewer variables, or whole-number problems beyond toy size, are not run.",
  ["src/solve.rs", "src/compiled.rs", "classical_solver/src/sa.rs", "annealers/src/model.rs"],
  [("end-to-end composition", "src/solve.rs SimpleSolver::new/solve_with_constraints")],
  (), ["SimpleSolver::new(..).solve_with_constraints()"])

p("M01", "Safe calls never cause undefined behaviour or leak operands",
  "No sequence of calls to the safe public functions of the three crates, with any arguments they accept or refuse, reads uninitialised or out-of-bounds memory, creates an invalid value, uses memory after it is freed, races, or leaks or double-frees the labels and expressions given to it.",
  ["histories", "inputs", "schedules"],
  "all operation sequences and inputs of small instances of the other checks, executed under an undefined-behaviour monitor",
  "The tests run natively, where reading uninitialised memory or an invalid intermediate value goes unnoticed, and no test exercises the compound assignments or sizes at byte boundaries.",
  ["annealers/src/repr.rs", "annealers/src/model.rs", "classical_solver/src/algo.rs", "src/expr.rs", "src/solve.rs", "src/expanded.rs"],
  [("unchecked bit access", "annealers/src/repr.rs"), ("unchecked matrix access", "annealers/src/model.rs get_weight_unchecked"), ("unchecked state access", "classical_solver/src/algo.rs"), ("compound assignment", "src/expr.rs impl_assign_op"), ("lifetime extension of the model", "src/solve.rs transmute")],
  (), ["an interpreter that detects undefined behaviour"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P), "properties")
