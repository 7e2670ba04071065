"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


MC = "pydtmc/markov_chain.py"
HM = "pydtmc/hidden_markov_model.py"
ME = "pydtmc/measures.py"
CO = "pydtmc/computations.py"
SI = "pydtmc/simulations.py"
GE = "pydtmc/generators.py"
FI = "pydtmc/fitting.py"
IO = "pydtmc/files_io.py"
AS = "pydtmc/assessments.py"
VA = "pydtmc/validation.py"
UT = "pydtmc/utilities.py"
DE = "pydtmc/decorators.py"
PL = "pydtmc/plotting.py"

prop("C01", "Construction accepts exactly the valid models and stores them faithfully",
     "A Markov chain or hidden Markov model can be constructed from given matrices and labels if and only if they describe a valid model: right dimensions with at least two states (and symbols), finite entries between 0 and 1, rows summing to 1, unique non-blank labels of the right number, state and symbol names disjoint; anything else raises the documented validation error. "
     "The constructed model holds exactly the given numbers and labels, whatever the container they come in (nested lists, arrays of any numeric type, sparse matrices, data frames) and whatever function performs the construction.",
     ["inputs", "programs"],
     "all matrices over a grid of legal and illegal entries up to size 3, all containers, all label lists over an alphabet of legal and illegal labels, all names of the function that performs the construction",
     "The tests construct valid fixture models and a handful of invalid arguments of single validators; they never cross the entry values, containers, label lists and calling functions, and never construct from a function sharing the name of a generator.",
     [MC, HM, VA, UT], [("argument validation in the constructors", VA), ("caller-dependent validation bypass", UT)],
     ["MarkovChain(...)", "HiddenMarkovModel(...)", "p, e, states, symbols, size, n, k"])

prop("C02", "Every generator and transformation yields a valid, re-constructible model",
     "Whatever legal arguments they are given, all the ways of creating a model from parameters, data, random draws or another model either raise a documented error or return a model of the expected size whose matrices contain only finite probabilities between 0 and 1 with rows summing to 1 and whose labels are unique; constructing a new model from those matrices and labels succeeds and gives back the same model.",
     ["inputs", "configurations"],
     "all chains over probability grids up to size 4 for the transformations of a model, all parameter combinations over grids for the parametric families, all transition-count patterns and small matrices for the data-driven constructors",
     "The tests compare a few fixture outputs; the generators bypass the constructor's validation, so nothing re-checks the other inputs.",
     [GE, FI, MC, HM], [("normalisation steps of each generator", GE), ("constructor bypass for generators", MC)],
     ["p, e, states, symbols of the returned models"])

prop("C03", "Queries are pure: no history of calls or mutations changes an answer",
     "The answer of every query on a model depends only on the model's matrices and labels and on the arguments of the query: it is the same whatever queries were made before, in whatever order and however often, it never modifies the arguments passed in, and changing in place a returned object, or an object that was passed in, never changes the model nor any later answer.",
     ["histories"],
     "all ordered pairs of queries, all query/mutate-the-result/query histories, and all construct/mutate-the-argument/query histories, on a set of models covering every structural type",
     "The tests call each query once on a fresh model and never mutate arguments or results.",
     [MC, HM, ME, DE, VA], [("defensive copies", MC), ("memoisation of properties and measures", DE)],
     ["every public property and method of both model classes, the assessment functions and the fitting functions"],
     [("cached values", "memoised property and measure results", MC)])

prop("C04", "Concurrent use of shared models gives the sequential answers",
     "Any number of threads may query the same model, or create models, at the same time: under every schedule each thread gets exactly the answer it would get running alone, no call fails or deadlocks, and memoised properties are computed once per model.",
     ["schedules"],
     "all interleavings of two (and three) threads at source-line granularity up to a preemption bound, over all pairs of representative memoised properties, memoised measures and first-use initialisations",
     "The test suite is single-threaded.",
     [DE, MC, HM], [("lock-protected memoisation", DE), ("lazily initialised class data", MC)],
     ["return values and exceptions of concurrent calls"],
     [("memoised values", "per-instance cache", DE)])

prop("C05", "Structural classification of the states is exact",
     "For every chain the communicating, recurrent, transient and cyclic classes and states, the absorbing states, the adjacency, accessibility, communication and incidence matrices, the periods of the classes, and the absorbing, irreducible, ergodic, regular, aperiodic, canonical, symmetric, doubly stochastic and monotone flags agree with their graph-theoretic or algebraic definitions applied to the transition matrix (a reducible chain counts as aperiodic when all of its recurrent classes are; a class that can be left has period 1 by convention), and the per-state tests agree with them.",
     ["inputs"],
     "all support patterns up to size 4, all sparse patterns of size 5 and 6, exhaustive families of rings with chords and of self-looping chains of large size, with several weightings of each pattern",
     "The tests compare fixtures of a few dozen chains with at most nine states; wrong answers on other patterns or for large state spaces go unnoticed.",
     [MC, CO], [("strongly connected components", MC), ("period computation", CO), ("matrix powers of the adjacency matrix", MC)],
     ["classification properties, is_*_state, is_accessible, are_communicating, textual summary"])

prop("C06", "Stationary distributions and equilibrium quantities are exact",
     "Every chain has exactly one stationary distribution per recurrent class, each non-negative, summing to 1, invariant under the transition matrix and supported exactly on its class, and equal to the exact rational solution; the reversibility flag, the entropy rate (plain and normalised), the topological entropy, the determinant, the rank and the density agree with their definitions, and the entropy rate is undefined exactly when several stationary distributions exist.",
     ["inputs"],
     "all chains over probability grids up to size 4 and weighted support patterns, compared with exact rational arithmetic",
     "The tests check a few dozen fixture chains within loose tolerances.",
     [MC, CO], [("GTH elimination per recurrent class", CO), ("detailed-balance test", MC)],
     ["pi, is_reversible, entropy_rate, entropy_rate_normalized, topological_entropy, determinant, rank, density"])

prop("C07", "Absorption, hitting and visit measures are exact",
     "For every chain and every set of targets the hitting probabilities, the hitting times (infinite exactly when hitting is not certain), the mean number of visits (zero exactly when unreachable, infinite exactly when infinitely many visits have positive probability), and, for absorbing chains, the fundamental matrix, the absorption probabilities, the mean absorption times and the constant derived from the fundamental matrix equal the exact minimal solutions of their defining equations, in the documented state order; outside their domain the measures are undefined.",
     ["inputs"],
     "all chains over probability grids up to size 4 and weighted support patterns, with all non-empty target sets, compared with exact rational arithmetic",
     "The tests check a few fixture chains; reducible chains with several closed classes, targets inside transient or closed classes and degenerate patterns are not crossed.",
     [ME, MC], [("linear systems restricted to states that can reach the targets", ME)],
     ["hitting_probabilities, hitting_times, mean_number_visits, fundamental_matrix, absorption_probabilities, mean_absorption_times, kemeny_constant"])

prop("C08", "Finite-horizon measures equal the sum over all trajectories",
     "For every chain, number of steps, initial distribution, reward vector and set of states, the expected rewards, expected transitions, first passage probabilities and rewards, redistributed distributions, transition and conditional probabilities and sequence probabilities equal the exact values obtained by enumerating every trajectory (for several first passage states, the sum of the individual first passage probabilities), and the predicted walk follows the unique most probable transition at each step and is undefined exactly when there is a tie.",
     ["inputs", "histories"],
     "all chains over probability grids of size 2 and 3, periodic, defective and complex-spectrum chains up to size 5, all initial states and target sets, all horizons up to well beyond the size",
     "The tests check a few fixtures and short horizons; they do not reach the branches for longer horizons with complex or defective spectra.",
     [ME, SI], [("recurrences over powers of the transition matrix", ME), ("spectral shortcut for long horizons", ME)],
     ["expected_rewards, expected_transitions, first_passage_probabilities, first_passage_reward, redistribute, sequence_probability, predict, transition_probability, conditional_probabilities"])

prop("C09", "Ergodic-theory measures are exact and mutually consistent",
     "For every ergodic chain the mean first passage times (to one, several or all targets and between sets of states), the mean recurrence times, the forward and backward committor probabilities and the sensitivity of the stationary distribution satisfy their defining equations with exact values, are mutually consistent, and are undefined exactly when the chain is not ergodic (not irreducible for the sensitivity); the reported mixing time is the first number of iterations after which the distance from equilibrium no longer exceeds the requested cutoff, expressed in steps.",
     ["inputs"],
     "all chains over probability grids up to size 4, all pairs of disjoint state sets, all targets, compared with exact rational arithmetic",
     "The tests check a few fixture chains; periodic, reducible and asymmetric state sets are not crossed.",
     [ME], [("fundamental matrix of ergodic chains", ME), ("linear systems with boundary rows", ME)],
     ["mean_first_passage_times_to, mean_first_passage_times_between, mean_recurrence_times, committor_probabilities, sensitivity, mixing_time"])

prop("C10", "Spectral measures and time correlations and relaxations are exact",
     "For every ergodic chain the spectral gap, relaxation rate, mixing rate and implied timescales are the documented functions of the exact eigenvalue moduli and are undefined exactly when the chain is not ergodic or there is no second non-zero modulus; for every chain with a single stationary distribution, time correlations and time relaxations at any set of time points (reported in increasing order of time) equal the exact values obtained from powers of the transition matrix.",
     ["inputs"],
     "all chains over probability grids of size 2 and 3, chains with complex, repeated and defective spectra up to size 5, all sets of time points up to beyond the size, all short observation sequences",
     "The tests use fixtures whose eigenvalues are real and distinct; the long-horizon branch with complex or defective spectra is not reached.",
     [ME, CO, MC], [("eigenvalue ordering", CO), ("spectral decomposition for long horizons", CO)],
     ["spectral_gap, relaxation_rate, mixing_rate, implied_timescales, time_correlations, time_relaxations"])

prop("C11", "Chain simulation follows exactly the transition law",
     "Under every possible outcome of the random source, a simulated walk or a simulated next state starts from the requested state, has the requested number of steps unless it stops at the first visit to the requested final state, never makes a transition of zero probability, and makes each transition with exactly the probability given by the transition matrix independently of the past; labels and indices describe the same walk, and without an initial state every state is equally likely.",
     ["inputs", "histories"],
     "all outcomes of the random source over a grid matched to the probabilities, for all chains over probability grids of size 2 and 3, all walk lengths up to 4, all initial and final states",
     "The tests compare a few seeded walks.",
     [SI, MC], [("categorical draw per step", SI)],
     ["simulate, next"])

prop("C12", "Seeded operations are reproducible and isolated from global randomness",
     "Every randomised operation called with a seed returns the same result whatever was executed before, whatever the state of the global random generator and in whatever order operations are interleaved, neither reads nor modifies the global generator, and different calls with the same seed agree; called without a seed, it draws only from the global generator, so that seeding that generator reproduces the whole history.",
     ["histories", "inputs"],
     "all interleavings of sequences of seeded and unseeded randomised operations up to a depth, all seeds from a set including the extremes, for all randomised operations",
     "The tests call each operation once with a seed and compare one output.",
     [UT, MC, HM, SI, GE], [("seed-dependent choice of the random generator", UT)],
     ["random, random_distribution, dirichlet_process, simulate, next, plotted random sequences"])

prop("C13", "Transformations produce exactly the chain they promise",
     "For every chain: the canonical form permutes the states so that transient ones precede recurrent ones and keeps all transition probabilities by label; the subchain on some states is the chain restricted to those states and everything reachable from them; the lazy chain mixes the chain with staying put by the given weights; the n-th order chain has the n-step transition probabilities; the bounded chain changes only the boundary states as documented; merging mixes two chains with the given weight; and the closest reversible chain is reversible, equal to the chain itself if that is reversible, and no farther from it (in the requested norm) than any other chain reversible for the given distribution.",
     ["inputs"],
     "all chains over probability grids of size 2 and 3 (support patterns of size 4), all state subsets, weights, orders and boundary conditions over grids, all feasible grid candidates for the closest reversible chain",
     "The tests compare a few fixtures per transformation.",
     [GE, MC], [("index permutation and restriction", GE), ("quadratic programme for the closest reversible chain", GE)],
     ["to_canonical_form, to_subchain, to_lazy_chain, to_nth_order, to_bounded_chain, merge_with, closest_reversible"])

prop("C14", "Lumping and aggregation respect lumpability and stationarity",
     "Lumping a chain over an ordered partition succeeds exactly when the chain is lumpable over it, and then gives the block transition probabilities with the documented labels (those of the block joined by commas, or the default ones if they would not be distinct); the listed lumping partitions are exactly the ordered partitions into at least two and fewer blocks than states over which the chain is lumpable; aggregation of an ergodic chain to a number of states returns exactly that many states, being the chain induced by the stationary distribution on some partition of the states.",
     ["inputs"],
     "all chains over probability grids up to size 4 with all ordered partitions, and all aggregation targets and methods for all ergodic grid chains of size 3 to 5",
     "The tests lump and aggregate a handful of fixtures; probabilities whose floating-point sums round differently and other partitions are not reached.",
     [GE, CO, MC], [("ordinary lumpability test", GE), ("spectral bipartitioning", GE)],
     ["lump, lumping_partitions, aggregate"])

prop("C15", "Saving a model to a file and loading it back is lossless",
     "Writing any Markov chain or hidden Markov model to a csv, json, txt or xml file and reading it back yields an equal model, with the same labels in the same order and bit-identical probabilities, whatever the labels (made of printable characters and ordinary spaces) and whatever was in the file before; rewriting the loaded model produces a byte-identical file.",
     ["inputs", "histories"],
     "all ordered label lists over an alphabet of ordinary and awkward labels, all probability matrices over a set of awkward doubles, all four formats, all sequences of two writes to the same path",
     "The tests write a handful of models with plain labels.",
     [IO, MC, HM], [("format writers and readers", IO)],
     ["to_file, from_file"])

prop("C16", "Corrupted or truncated files never yield an invalid model",
     "Reading any file, including every truncation and every local corruption of a valid file in any of the four formats, either raises one of the documented errors or returns a model with valid probabilities, unique labels and rows summing to 1 that corresponds to what the file says; it never fails in another way, never returns an invalid model, and never modifies the file.",
     ["crash_points", "fault_sequences", "inputs"],
     "all truncation points and all single-token replacements, deletions and duplications in valid files of every format, for both model kinds",
     "The tests read valid files and a few files with invalid names.",
     [IO, MC, HM, VA], [("format and content checks of the readers", IO), ("row sum checks", MC)],
     ["from_file"])

prop("C17", "Dictionary, graph and matrix conversions are faithful in both directions",
     "Converting a model to a dictionary, a graph or matrices represents exactly its labels, order and probabilities, and converting back gives an equal model (exactly for dictionaries, up to the rounding of the normalisation of the rows for graphs and matrices); building from non-normalised matrices or weighted graphs normalises each row to its relative weights (uniform for empty rows) whatever the order of nodes and entries, and an incomplete or inconsistent dictionary or graph is rejected with the documented error.",
     ["inputs"],
     "all chains and hidden models over grids of size 2 and 3, all orders of dictionary entries and graph nodes, all single-entry corruptions",
     "The tests round-trip a few fixture models in their natural order.",
     [MC, HM, UT, VA], [("label lookup when rebuilding matrices", MC)],
     ["to_dictionary, from_dictionary, to_graph, from_graph, to_matrix, from_matrix, to_matrices, from_matrices"])

prop("C18", "Fitting a chain from data gives the exact estimate",
     "Fitting a Markov chain to any observed sequence gives exactly the maximum likelihood estimate (optionally with the documented additive smoothing) or the maximum a posteriori estimate for the given hyperparameters, with uniform rows for states never left; fitting a transition function evaluates it exactly at the nodes of the chosen quadrature rule, which lie in the requested interval and integrate exactly the polynomials the rule is meant for, and normalises the weighted values by row, rejecting functions that do not give finite non-negative values.",
     ["inputs"],
     "all sequences up to length 7 over 2 and 3 states with all small hyperparameter matrices, all quadrature rules, sizes and intervals over grids",
     "The tests fit a few fixture sequences and functions.",
     [FI, MC, VA], [("transition counting", FI), ("quadrature nodes and weights", FI)],
     ["fit_sequence, fit_function"])

prop("C19", "Hidden-state decoding and prediction equal brute-force path enumeration",
     "For every hidden Markov model, observed sequence and initial status, the decoded log probability, posterior, forward and backward probabilities, scaled or not, equal the sums over all hidden paths, the maximum a posteriori prediction is the pointwise maximiser of the posterior, and the maximum likelihood prediction is a path of maximal score over all paths together with that score; both are undefined exactly when the sequence is impossible.",
     ["inputs"],
     "all hidden Markov models over probability grids with 2 states and 2 or 3 symbols (and a set with 3 states), all symbol sequences up to length 4, all initial statuses including deterministic ones",
     "The tests decode a few fixture sequences.",
     [ME, SI, HM], [("scaled forward-backward recursion", ME), ("Viterbi recursion", SI)],
     ["decode, predict"])

prop("C20", "Hidden model estimation and fitting are exact and never decrease likelihood",
     "Estimating a hidden Markov model from labelled sequences gives exactly the relative transition and emission frequencies, uniform where nothing was observed; fitting from symbol sequences performs exactly the re-estimation iterations of the chosen algorithm over all sequences until the documented convergence, gives a valid model or the documented error, and with the expectation-maximisation algorithm the fitted model assigns the observed sequences a likelihood not lower than the initial guess.",
     ["inputs"],
     "all pairs of state and symbol sequences up to length 5; all guesses over probability grids with all symbol sequences up to length 4 and pairs of sequences, for all fitting types",
     "The tests fit a few fixture models.",
     [FI, GE, HM], [("expected counts from forward-backward quantities", FI), ("frequency counting", GE)],
     ["estimate, fit"])

prop("C21", "Hidden model simulation follows exactly the transition and emission laws",
     "Under every possible outcome of the random source, a simulated sequence or step of a hidden Markov model starts from the requested state, has equally many states and symbols, never uses a transition or an emission of zero probability, draws each with exactly the model's probabilities independently of the past, and stops early exactly at the first simulated step whose state or symbol is the requested final one; labels and indices describe the same sequence.",
     ["inputs", "histories"],
     "all outcomes of the random source over a grid matched to the probabilities including its extreme values, for all models over probability grids with 2 or 3 states and symbols, all initial and final states and symbols",
     "The tests compare a few seeded sequences.",
     [SI, HM], [("inverse-CDF draws for states and symbols", SI)],
     ["simulate, next"])

prop("C22", "Hidden model views and restrictions are consistent with its matrices",
     "For every hidden Markov model the transition and emission probabilities, the sizes and the ergodic and regular flags agree with its matrices; restricting it to some states and symbols keeps exactly the selected rows and columns by label, renormalised (uniform where nothing remains), in the original order.",
     ["inputs"],
     "all hidden Markov models over probability grids with 2 to 3 states and 2 to 4 symbols and all pairs of state and symbol subsets",
     "The tests restrict a few fixture models.",
     [HM, GE], [("index selection and renormalisation", GE)],
     ["restrict, emission_probability, transition_probability, is_ergodic, is_regular, n, k, size"])

prop("C23", "Statistical assessments compute exactly their documented statistics",
     "For every sequence (or set of sequences) and every set of possible states, the assessments of the Markov property, first order, homogeneity, stationarity and theoretical compatibility either return the exact test statistic, degrees of freedom and p-value of the documented test, with rejection exactly when the p-value is below the requested significance, or report the test as not computable (no rejection decision, not-a-number statistics); a computable test without degrees of freedom has p-value zero, and an observed transition of zero probability is a certain rejection; they never fail on a legal sequence.",
     ["inputs"],
     "all sequences up to length 8 over 2 states and up to length 6 over 3 states (pairs of shorter sequences for homogeneity), all block counts and significance levels over a set",
     "The tests use a few fixture sequences.",
     [AS, CO], [("contingency tables", AS), ("chi-square statistics", CO)],
     ["assess_markov_property, assess_first_order, assess_homogeneity, assess_stationarity, assess_theoretical_compatibility"])

prop("C24", "Equality, hashing and aliases are consistent",
     "Two models compare equal exactly when they are of the same kind and have the same numbers and the same labels in the same order; equality is reflexive, symmetric and transitive, equal models have equal hashes, hashes and equality never change during the life of a model, and every documented alternative name of a property or method gives the same result as the name it stands for.",
     ["inputs", "histories"],
     "all pairs and triples of models from an exhaustive family differing in single entries, signs of zero, labels and kind; all alternative names on all structural types of chains",
     "The tests compare a few fixtures.",
     [MC, HM, DE], [("hash of raw bytes", MC), ("alias generation", DE)],
     ["__eq__, __hash__, all documented aliases"])

prop("C25", "Renaming or reordering the states only renames or reorders the answers",
     "If the states (and symbols) of a model are renamed or listed in another order, with the matrices permuted accordingly, every answer stays the same up to the same renaming or permutation, states may be denoted interchangeably by label or by index (in lists too, in any order), and outputs requested as indices or as labels correspond; questions about the listing order itself (canonical form, stochastic monotonicity, contiguous lumping partitions, bounded chains) are excepted.",
     ["inputs", "configurations"],
     "all permutations of the states of all chains over probability grids of size 3 and support patterns of size 4, two label sets per permutation, for every deterministic query",
     "The tests use a single order and the default labels for nearly all fixtures.",
     [MC, HM, VA, ME, CO], [("label resolution", VA), ("label-based ordering of classes", MC)],
     ["every deterministic public query"])

prop("C26", "Illegal arguments are always rejected with the documented errors",
     "For every public operation of models, assessments and plots, any single argument that is of the wrong type, out of range, of the wrong size or inconsistent with the model makes the call raise the documented validation error before any effect, naming the offending parameter, while every legal argument, at the limits of its range included, is accepted and never produces an undocumented error.",
     ["inputs", "programs"],
     "the product of all public operations, all their parameters and a catalogue of legal boundary and illegal values, on models of each structural type",
     "The tests exercise the validators one by one, not their wiring into each operation and parameter.",
     [VA, MC, HM, AS, PL], [("validators called at the beginning of each operation", VA)],
     ["exceptions raised by every public operation"])

prop("C27", "Parametric families have exactly their defining transition probabilities",
     "For all parameters in range, the gambler's ruin, birth-death, urn, population genetics, autoregressive approximation and identity chains have exactly the transition probabilities of the processes they are named after, with the documented labels, and their structural properties (absorbing states, reversibility, known stationary distributions, moments of the approximated process) follow.",
     ["inputs"],
     "all sizes up to 12 and all parameters over rational grids including the boundary values, compared with independent exact formulas",
     "The tests compare a few fixture instances.",
     [GE, MC], [("closed-form transition probabilities", GE)],
     ["gamblers_ruin, birth_death, urn_model, population_genetics_model, approximation, identity"])

prop("C28", "Random models honour masks, zeros and supports under every random outcome",
     "Under every possible outcome of the random source, a random chain or hidden Markov model has the fixed probabilities of its masks, exactly the requested number of additional null probabilities, valid rows and the requested labels, or the request is rejected with the documented error when it cannot be met; every admissible arrangement of null probabilities can occur.",
     ["inputs", "configurations"],
     "all masks over a grid up to size 3, all numbers of zeros, all outcomes of the integer choices and permutations of the random source",
     "The tests generate a few seeded models.",
     [GE, MC, HM], [("placement of null and free probabilities", GE)],
     ["random (both model kinds), random_distribution, dirichlet_process"])

prop("C29", "Plots show exactly the data of the model",
     "For every model and every legal combination of plotting options, the comparison, eigenvalues, flow, graph, redistributions, sequence and trellis plots are produced without failing and the plotted data (matrix values, eigenvalues, distributions over the steps, nodes, edges and their labels, simulated walks) are exactly those of the model and of the corresponding queries, without modifying the model.",
     ["inputs", "configurations"],
     "all combinations of options of each plot on models of every structural type of size 2 to 4",
     "The tests only check that plotting does not raise on random fixture options.",
     [PL], [("conversion of query results to drawing primitives", PL)],
     ["plot_comparison, plot_eigenvalues, plot_flow, plot_graph, plot_redistributions, plot_sequence, plot_trellis"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
