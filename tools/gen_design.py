import json,glob,os
head = open('/verif/DESIGN.md').read().split('## Properties')[0]
body = r'''## Properties

The evidence file of each property states the exact bounds and counts of the last run.

| id | specified by | enumerated | oracle |
|----|--------------|------------|--------|
| C01 | direct evaluation of the syntax tree | all trees to 4–5 leaves × 7 numeric types, all quadratic polynomials of 3 (4) variables, powers, products, wide and extreme ones | energy + constant equal at every assignment, labels exact, no auxiliaries |
| C02 | the same, minimised over auxiliaries by Gray code | all polynomials of 3 variables, cubic/quartic parts of 4, 2–3 high terms of 5–7, all sets of cubics of 5, monomials to degree 10, coefficients holding placeholders, sums and products of four signed atoms | min over auxiliaries equal at every assignment |
| C03 | evaluation with the values substituted | all trees to 3–4 leaves with 2 placeholders × values × all splits over the two stages × all omissions | equal energies; an omission that matters is refused; what is listed as open |
| C04 | arithmetic on a shadow tree | all sequences of 2–4 of the 28 operator forms × operands × types, numbers that need every bit of a type | equal values; `a op= b` equals `a op b` structurally; no label dropped or leaked |
| C05 | two-component (value, penalties) semantics | all pairs/triples of 15 constraint/penalty terms, all small bodies | equal energies at two strengths |
| C06 | own tree rebuilding | all expressions to 6–7 nodes × every single-node change, leaves distinct and alike | visited once, parents first, rest intact |
| S01 | observed model + reference energy | models × every answer × multi-sample and multi-round histories | value, keys, lookups, local fields, energy |
| S02 | evaluation of constraint bodies | bodies to 3 leaves, floats around the tolerance, penalties around constraints, auxiliaries × every assignment | reported set = violated set |
| S03 | minimum over the answers | all answers of 1–5 samples × completion orders × pool sizes | result is a best one and is the same in all orders |
| S04 | total/monotonicity rules | DFS over all histories of violated sets, G×I below the bound, auxiliaries wrong or right | per-round rules on strengths read off the diagonals |
| S05 | reference of the stopping rule | DFS over histories | stop round, budget, samples per round, report |
| S06 | set of injected failures | every placement of ≤2 failures | result is one of the failures that happened |
| S07 | the same call alone | every interleaving of two or three searches at the solver's calls; every placement of one (two) preemptions at label operations; all sequences of 3 (4) calls out of 24, each also compared with a process of its own; another search, a compilation or a panic in each solver call; up to 8 searches and 16 annealers begun one within another; every interleaving of two annealers at their draws | what each agent sees and returns is unchanged |
| S08 | streams as sets of words | every shape of a search (samples × generations × restarts × pools) and six arrangements of several; 262144 streams in one search | no word in two streams, the system's randomness being owned and never repeating |
| A01–A03, A05–A07 | Vec, maps, sets, native arithmetic | breadth-first operation sequences, all values of the small types | equality of every observer |
| A04 | direct sum over products | all small models × all states × kinds × storages | energy and local fields |
| K01 | reference Metropolis chain | all small models × starts × accept/reject strings, through the annealer and the public sweeps, with every pair of weight and temperature types; cold and wide schedules; periodic decisions to 130 variables | final state equal under one consistent convention |
| K02 | the schedule formula | kinds × counts × types × models, sizes | measured inverse temperatures |
| K03, E01 | brute force | small models × starts × scripted/seeded draws, default settings | local optimum, below start, global optimum for single-basin |
| M01 | Miri's operational semantics, ASan | small instances of all of the above, refused calls, panicking callbacks | no undefined behaviour, no leak |

Why tests cannot reach this: the repository has nine tests, each on one model; the properties
quantify over all expressions, histories, schedules and draws.

### How the annealer is decided (K01–K03, E01; `p_sa.rs`, `p_e2e.rs`)

The annealer is driven through its public interface with a scripted `RngCore`. The reference is a
Metropolis chain on brute-force energies, advanced by the annealer's own draws: at each one the reference knows the
acceptance probability p of the variable under consideration, and the exploration chooses between a draw just
below p (must be accepted), one just above it (must be refused) and, in some families, the two extremes. A
depth-first search over these choices enumerates *every* accept/reject string of a run; the final states
must agree, and the annealer must ask for exactly as many draws. What the property leaves open
(order within a sweep, whether a draw is spent on a downhill or a hopeless move) is tried as one of a fixed set of
conventions, one of which must explain every run from a start. Where p is so close to 1 that no draw can be
told to be above it, only acceptance is judged; changes with 41.4 < βΔ < 60 are not judged.
K02 measures inverse temperatures: on a one-variable model the acceptance threshold of a draw is
bisected by repeated runs and gives β of each entry to 1e-6. K03 and E01 use cold schedules, where no
uphill move is possible, so that *all* draws can be covered by a few representative ones; E01 additionally
enumerates the seeds the default pipeline draws from the operating system through the interposed
`getrandom`.

### How independence of calls is decided (S07; `p_indep.rs`)

A scheduler (`Sched`) runs each agent (one search, one annealing run, one compilation) in its own
thread, of which exactly one is allowed to go at any time. Scheduling points are the calls of the
environment the harness owns: creating and calling a solver, every clone/compare/hash/drop of a label
(the label type is ours), every random draw. Policy `All` explores all interleavings by depth-first
search over the choices; policy `Plan` explores every placement of one (two) preemptions. An agent that
does not reach its next point because the implementation makes it wait for another (a lock is legal)
gives way after a short while, so locks do not raise alarms. Sequences of calls, with failures and
other settings between, cover state that survives from call to call; 70 (300) equal calls cover counters.
The base case is taken from a child process that makes only that one call, so that state left behind by the
harness's own earlier calls cannot hide in both sides of a comparison. Searches and annealers are also begun
inside one another's callbacks (recursion and crowds), and after calls that panicked.

### Sizes (`p_size.rs`)

Most families are small and complete. A second kind runs along a size instead: 27 sizes around powers of
two and byte boundaries (9 … 257, 300, 600, 1025), or every number up to a bound, times every position of what matters
there (the true variable, the best sample, the round that succeeds, the call that fails, the placeholder
fed apart). Expected values come from closed forms or a sum over the terms, weights are compared one by
one where a model is observable weight by weight. Magnitudes run along powers of two in the same way
(2^-1070 … 2^1000, exact in floating point), and factors of opposite magnitude are multiplied. They cover S01–S06, C01–C06, A03–A05 and E01; A01, A02, A06 and
K01–K03 have such families among their own. Degree reduction is limited to degree 20, since
the compiler enumerates all subsets of a product's variables.

### How memory safety is decided (M01; `p_mem.rs`, `ub/`)

`ub/` is a second crate whose instances (states, dense and sparse models, expressions under every operator,
searches with scripted and built-in solvers, inconsistent models, panicking callbacks) are enumerated
completely and executed under two monitors: Miri (tree borrows, quick: a slice of the instances;
thorough: all) and ASan. Debug assertions are off, as in a release build, since they hide what is
behind them. Every label must be dropped exactly once. Miri decides one execution at a time; the
enumeration is over inputs, refused calls and panic points, not over weak-memory schedules, except for
Miri's own seeds.

'''
limits = r'''## Assumptions and limits

* Arithmetic is generated so that no value overflows its type (debug assertions and overflow checks
  are on, so an overflow would show as a panic).
* Outside the properties' domain (the code refuses them explicitly): a constraint or penalty inside a
  constraint's body, negative placeholder values, unsorted two-element index arrays, high-order models in
  the annealer, products absent from a `SingleModel` asked by `get_weight`, zero samples.
* Left open: a list with repeated variables where a pair is expected (e.g. `[3, 3, 5]`); E01 on instances
  with zero-cost flips, or with a violated optimum over several rounds (strengths move).
* Not reachable: `src/anneal.rs` is not part of any module, `src/python.rs` is an empty module; no
  property covers them.

## False alarms met and corrected

* K01 first judged draws where the acceptance probability is about one also for refusal; such a draw is now judged
  only when it was accepted.
* S07 would have taken an agent that waits for a lock held by another for a deadlock; it gives way instead (tried
  with a mutex around the whole search).

## Defects found and repaired

See `known_findings.txt`: 18 defects repaired, each by one `fix:` commit. One is open and is reported as a
`KNOWN-FINDING` of M01: `src/solve.rs` hands `SolverGenerator::generate` a `&'static` reference to a
model that lives only for the round. A generator written in safe code can keep it (or return
it in its error) and read freed memory. Repairing it means changing the trait so that the generator is
generic over the borrow's lifetime (every implementor's signature changes, and the associated
solver type must become generic too); this is an API change, no small repair.

'''
seeded = ['## Seeded changes\n\n',
'Every change is caught by the check of its own property at the quick tier (`tools/trybugs.sh` runs them all).\n',
'Changes marked * were missed when first planted; what the check gained is said below the table.\n\n',
'| change | property | breaks | needs |\n|---|---|---|---|\n']
missed = set(open('/verif/tools/missed.txt').read().split()) if os.path.exists('/verif/tools/missed.txt') else set()
for d in sorted(glob.glob('/verif/seeded/*/')):
    n = os.path.basename(d[:-1]); m = json.load(open(d+'meta.json'))
    seeded.append('| %s%s | %s | %s | %s |\n' % (n, '*' if n in missed else '', m['property'], m['what_it_breaks'].replace('|','/'), m['needs'].replace('|','/')))
seeded.append('\n'+open('/verif/tools/missed_notes.md').read())
open('/verif/DESIGN.md','w').write(head+body+limits+''.join(seeded))
