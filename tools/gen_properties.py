"""Writes /verif/properties.jsonl (kept as a generator so that text and anchors stay reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


OPT = "mealpy/optimizer.py"
T = "mealpy/utils/"
ALLOPT = "mealpy/*_based/*.py"

p("C01", "Every solution evaluated or returned lies inside the declared search space",
  "During a run of any optimizer on any mix of variable types, every vector handed to the user's objective and every solution returned, kept in the population or recorded in the history is a finite numeric vector of the declared dimension lying within the encoded lower and upper bounds of every variable. Decoding any of them yields, for each variable, a value the user declared legal.",
  ["inputs", "programs", "histories", "configurations"],
  "all optimizers, all variable types and mixes, all bounds, dimensions, seeds, modes, objective shapes and epochs",
  "The tests solve one continuous sphere problem with one configuration per optimizer and only check the type/length of the final answer; intermediate evaluations and other variable types are never looked at.",
  [OPT, T + "problem.py", T + "space.py", ALLOPT],
  [("correct_solution / amend_solution after every move", OPT), ("correct per variable type", T + "space.py"), ("each optimizer's evolve", ALLOPT)],
  ["the objective function boundary", "population at each epoch end", "history lists", "returned agent"])

p("C02", "The reported best solution really has the reported objective value",
  "The agent returned by a run, and every best and worst agent recorded in the run's history, carries objective values exactly equal to the user's function on that very solution, and a fitness equal to their weighted sum. That solution was actually evaluated in the run.",
  ["inputs", "programs", "histories", "configurations"],
  "all optimizers, modes, seeds, objective shapes, directions, weights",
  "A target left attached to a moved solution is invisible to tests that only check types; it needs particular acceptance histories in particular optimizers.",
  [OPT, T + "agent.py", T + "target.py", ALLOPT],
  [("get_target / update_target_for_population", OPT), ("Agent.copy", T + "agent.py"), ("store_initial_best_worst, update_global_best_agent", OPT)],
  ["the objective function boundary", "returned agent", "history lists"])

p("C03", "The global best never gets worse and dominates every population",
  "In the direction of the problem (minimisation or maximisation), the recorded global best never worsens from one epoch to the next, and after every epoch it is at least as good as every agent of the initial population and of every population seen so far. The returned agent is the last recorded global best, and the recorded current best and worst of an epoch are the best and worst agents of that epoch's population.",
  ["inputs", "programs", "histories", "configurations"],
  "all optimizers, both directions, all objective shapes (plateaus, negative, huge), modes and seeds",
  "Tests never look at the sequence of bests and only minimise one easy function, on which an elitism bug still returns an acceptable answer.",
  [OPT, T + "agent.py", ALLOPT],
  [("update_global_best_agent", OPT), ("get_sorted_population / get_better_agent", OPT), ("after_initialization", OPT)],
  ["population at each epoch end", "history lists", "returned agent"])

p("C04", "Each agent's stored fitness matches its stored solution at every epoch end",
  "At the end of initialisation and of every epoch, every agent of the population has objective values exactly equal to the user's function applied to the solution that agent holds, and a fitness equal to their weighted sum.",
  ["inputs", "programs", "histories", "configurations"],
  "all optimizers, modes, directions, spaces, seeds, and every epoch",
  "It is an invariant over the histories of aliased solutions and targets; tests check only the final type of the best agent.",
  [OPT, T + "agent.py", ALLOPT],
  [("Agent.copy / update_agent", T + "agent.py"), ("update_target_for_population keeps order", OPT), ("each optimizer's replacement step", ALLOPT)],
  ["population at each epoch end"])

p("C05", "The same seed reproduces the same run exactly",
  "Two runs of the same optimizer configuration on the same problem with the same seed and mode evaluate the same solutions and produce identical results, whether they run on a fresh or an already used optimizer object, in the same or another process, and whatever the state of the global random generators. A run neither depends on nor disturbs global random state, and different seeds lead to different runs.",
  ["inputs", "histories", "configurations", "programs"],
  "all optimizers, modes, variable types, seeds and prior histories of the process",
  "No test sets a seed at all; non-determinism from a stray global draw appears only when two runs under perturbed ambient state are compared.",
  [OPT, T + "problem.py", T + "space.py", ALLOPT],
  [("generator and rng created from the seed", OPT), ("per-variable generators seeded by the problem", T + "problem.py"), ("all draws go through self.generator / self.rng", ALLOPT)],
  ["sequence of evaluated solutions", "numpy and random global state"])

p("C06", "Parallel modes compute the same thing as the sequential batch mode",
  "For an optimizer that supports parallel execution, a seeded run in thread mode or process mode returns the same best agent, history and evaluated solutions as the same run in swarm mode, whatever the number of workers and the order in which evaluations complete. Every fitness is attached to the agent whose solution produced it, and the evaluation counter agrees between the modes. An optimizer that does not support parallel execution gives the result of its sequential mode whatever mode is asked for.",
  ["schedules", "inputs", "configurations", "programs"],
  "all parallelisable optimizers, worker counts, completion orders of the evaluations, seeds and problems",
  "No test runs any parallel mode, and a mis-binding depends on the completion order of concurrent evaluations.",
  [OPT],
  [("update_target_for_population", OPT), ("generate_population, before_initialization", OPT)],
  ["the objective function boundary with injected delays", "history", "evaluation counter"])

p("C07", "A run stops exactly when, and only when, a stopping criterion is met",
  "Without a termination a run executes exactly the configured number of epochs. With termination criteria (maximum epochs, evaluations, elapsed time, or consecutive epochs without improvement beyond a tolerance), it stops at the end of the first epoch at which any of them is met or the configured epochs are used up, never earlier and never later, however the criteria are supplied or combined and also when a termination object or optimizer is used again.",
  ["inputs", "histories", "configurations"],
  "all combinations of criteria and thresholds, objective/time histories, dict or object form, reuse, all optimizers",
  "Tests never pass a termination; which criterion fires first depends on the history of evaluations, improvements and (virtual) time.",
  [OPT, T + "termination.py", T + "history.py"],
  [("should_terminate", T + "termination.py"), ("check_termination", OPT), ("get_global_repeated_times", T + "history.py")],
  ["epoch begin/end events", "virtual clock", "objective calls", "history of global bests"])

p("C08", "The evaluation counter equals the number of objective calls made",
  "At every epoch end the evaluation counter used by the maximum-evaluations criterion equals the number of times the user's objective has been called in this run so far, including initialisation and starting solutions, in every mode. It starts afresh for each run.",
  ["inputs", "programs", "histories", "configurations"],
  "all optimizers, all modes, starting solutions, repeated runs",
  "Counting mistakes sit on separate paths per mode and per optimizer and no test compares the counter with the calls.",
  [OPT, ALLOPT],
  [("get_target / update_target_for_population counting", OPT), ("reset in check_termination", OPT)],
  ["the objective function boundary", "evaluation counter at each epoch end"])

p("C09", "The history is a complete, consistent, immutable record of the run",
  "After a run of E executed epochs every per-epoch history list has exactly E entries (populations only when requested), fitness lists agree with the recorded agents, runtimes are non-negative, diversity equals the mean absolute deviation from the median of that epoch's population, and exploration and exploitation percentages lie in 0..100 and add up to 100. Entries recorded for an epoch, including saved populations, never change afterwards, neither by later epochs nor by a later run.",
  ["histories", "inputs", "programs", "configurations"],
  "all optimizers, epoch counts, early stops, objective shapes, degenerate populations, later runs on the same object",
  "No test reads the history; aliasing needs later in-place modification of an agent that was recorded earlier.",
  [OPT, T + "history.py", T + "agent.py"],
  [("track_optimize_step / track_optimize_process", OPT), ("duplicate_pop", OPT), ("store_initial_best_worst", T + "history.py")],
  ["history lists at each epoch end and after the run"])

p("C10", "Encoding and decoding of solutions are mutually inverse",
  "For every variable type and mix of distinctly named variables, decoding the encoding of any legal user-level value gives that value back (same values, order and container kind), and a decoded solution is a mapping with one entry per declared variable, taken from that variable's own slice of the vector. Decoding any real vector, inside or outside the bounds, gives a legal value of every variable, the nearest legal value for continuous and integer variables and the cell the coordinate falls in for discrete ones (variables with a transfer function turn other numbers than 0 and 1 into bits at random by design).",
  ["inputs", "configurations"],
  "all variable types, sizes, label sets (mixed types, numeric, strings), orders in the problem and all real vectors",
  "The tests never encode or decode; slicing errors need several variables of differing lengths, label errors need specific label sets and boundary coordinates.",
  [T + "space.py", T + "problem.py"],
  [("encode/decode of each variable", T + "space.py"), ("encode/decode_solution_with_bounds slicing", T + "problem.py"), ("LabelEncoder", T + "space.py")],
  ["public encode/decode of variables and problems"])

p("C11", "Correction projects any vector to a legal one and leaves legal ones alone",
  "Correcting any finite or infinite real vector yields a vector of the same length whose entries lie within the encoded bounds and, for deterministic variable types, correcting again changes nothing and an already legal encoded solution is returned unchanged; an optimizer's own repair may replace an illegal coordinate by any legal value of that variable. Correction never modifies its input and treats each variable's slice independently of the others.",
  ["inputs", "configurations"],
  "all variable types and mixes, all real vectors incl. boundary values and infinities",
  "No test calls correction directly; failures need out-of-range or boundary coordinates of specific types.",
  [T + "space.py", T + "problem.py", OPT],
  [("correct of each variable", T + "space.py"), ("correct_solution_with_bounds", T + "problem.py")],
  ["public correct of variables, problems and optimizers"])

p("C12", "Random generation covers exactly the declared domain, independently",
  "Generated values are always legal, every legal value of a discrete variable and every part of a continuous range is reachable, each with its fair share of probability, and an all-zero vector is never produced where it is declared forbidden (there every other vector stays reachable). Different variables and different agents of an initial population are drawn independently of each other, also under a fixed seed and in every mode.",
  ["inputs", "configurations"],
  "all variable types, domain sizes, seeds, multi-variable problems, modes",
  "Whether a value is unreachable or two variables are correlated is a property of the distribution, not of one sample; tests draw none.",
  [T + "space.py", T + "problem.py", OPT],
  [("generate of each variable", T + "space.py"), ("seeding of the variables", T + "problem.py"), ("generate_population", OPT)],
  ["public generate, initial populations"])

p("C13", "Fitness is the weighted sum of the objectives, everywhere",
  "For an objective function returning a number, list, tuple or array, the stored objectives are exactly those values in order and the fitness is their dot product with the user's weights (all ones when none are given, a scalar weight applies to all), for every agent, copy and history record. Copies are independent of the original, and unsupported return values or weights are rejected rather than misread.",
  ["inputs", "configurations", "histories"],
  "all numbers of objectives, weights, container kinds and numeric types, optimizers and modes",
  "Tests use a single scalar objective only.",
  [T + "target.py", T + "problem.py", T + "agent.py"],
  [("calculate_fitness, set_weights, copy", T + "target.py"), ("get_target", T + "problem.py")],
  ["target objects", "returned agent", "history"])

p("C14", "Supplied starting solutions are used as the initial population",
  "When starting solutions are supplied (as list, tuple or array of positions), the first evaluated solutions of the run are exactly those positions in order, in every mode, and they make up the initial population (optimizers that extend their initial population select from the union); the result is at least as good as the best of them. Wrong sizes are rejected before anything is evaluated, and the caller's arrays are never modified.",
  ["inputs", "configurations", "programs"],
  "all optimizers, container kinds, modes, spaces",
  "No test passes starting solutions.",
  [OPT],
  [("before_initialization", OPT), ("initialization", OPT)],
  ["the objective function boundary", "population before the first epoch", "the caller's arrays"])

p("C15", "Runs are isolated from each other and from the caller's data",
  "A run depends only on the configuration, the problem and the seed: running an optimizer object again, on the same or another problem, gives the same result as a fresh object with the same parameters, results of earlier runs are not altered, and two optimizers or problems used alternately do not influence each other. The user's problem description and termination settings are not modified in a way that changes later runs.",
  ["histories", "inputs", "configurations", "programs"],
  "all optimizers, sequences of runs on different problems/dimensions/directions, interleaved objects",
  "Every test builds a fresh optimizer and runs it once.",
  [OPT, ALLOPT, T + "problem.py"],
  [("check_problem resets", OPT), ("initialize_variables / before_main_loop per optimizer", ALLOPT)],
  ["evaluated solutions and results of successive runs"])

p("C16", "A failing objective aborts the run and leaves the optimizer reusable",
  "If the user's objective raises during initialisation or any epoch, in any mode, the run does not hang, does not swallow the error or return a result, and the original exception reaches the caller (a StopIteration raised in a worker thread arrives as the cause of a RuntimeError, as Python prescribes). Afterwards the same optimizer and problem can be used for a new run, which behaves like a run on fresh objects.",
  ["fault_sequences", "crash_points", "programs", "configurations"],
  "every evaluation index at which the objective fails, all optimizers, all modes",
  "No test makes the objective fail.",
  [OPT, ALLOPT],
  [("executors as context managers, results consumed by map", OPT), ("check_problem resets", OPT)],
  ["exception at the caller", "subsequent run"])

p("C17", "Every accepted configuration runs to completion",
  "Any optimizer that accepts its hyper-parameters at construction completes a run on any valid problem (any number of dimensions from one up, any variable mix, flat, negative, huge or discontinuous finite objectives, both directions) within a bounded number of evaluations, without an internal error.",
  ["inputs", "configurations", "programs"],
  "all optimizers, hyper-parameters within the accepted ranges, problem shapes, seeds",
  "Tests run one default-like configuration with one problem per optimizer.",
  [ALLOPT, OPT],
  [("hyper-parameter validation", T + "validator.py"), ("each optimizer's evolve", ALLOPT)],
  ["exceptions, CPU time and evaluation budget of a run"])

p("C18", "Hyper-parameters are validated and take effect as given",
  "At construction every hyper-parameter value inside its allowed range is accepted and reported back unchanged, and every value outside it, on an excluded end point or of the wrong kind is rejected with an error; parameters changed later through the setter are exactly those used by following runs, unknown names are refused. The reported parameter set of a fresh optimizer is complete, and building a new optimizer from it gives the same behaviour. Every parameter takes effect: there are values of it between which seeded runs differ.",
  ["inputs", "configurations", "programs"],
  "all optimizers, every parameter, values at, just inside and just outside each limit, types",
  "The tests try a couple of values per optimizer for some parameters; end points and the setter are mostly untested.",
  [T + "validator.py", ALLOPT, OPT],
  [("check_int / check_float / ... and is_in_bound", T + "validator.py"), ("set_parameters / get_parameters", OPT)],
  ["constructor outcome", "reported parameters", "runs"])

p("C19", "Maximising a function is the mirror image of minimising its negation",
  "Maximising f and minimising -f are the same problem: for optimizers that use fitness only through comparisons and differences, the two seeded runs evaluate the same solutions (up to rounding in the first epoch where small constants enter), whatever the hyper-parameters, variable mix and mode; selection by proportion of fitness values mirrors as well while the values have both signs.",
  ["inputs", "programs", "configurations"],
  "all optimizers, seeds, tie-free objectives, modes",
  "All tests minimise; an optimizer whose maximising branch selects the worst agents still returns a valid-looking answer.",
  [OPT, T + "agent.py", ALLOPT],
  [("compare_target, get_better_agent, greedy selection with minmax", OPT), ("per-optimizer use of minmax", ALLOPT)],
  ["evaluated solutions, best fitness sequences in both directions"])

p("C20", "Shared operators follow their definition in the direction of the problem",
  "The shared population operators (sorting, best/worst picking, trimming, pairwise and greedy selection, roulette and tournament selection, index sampling with exclusions, grouping) return exactly what a reference definition gives for the direction of the problem, for any population incl. ties, negative and single-agent ones. Sampled indices respect range, count, distinctness and exclusions, every admissible index is reachable, better agents are never less likely than worse ones, and inputs are not modified. Levy steps have the documented shape and follow Mantegna's distribution for the given exponent, multiplier and case; an opposition point is a legal solution on the segment the formula describes.",
  ["inputs", "configurations"],
  "all populations, fitness values, directions, sizes, exclusion lists and seeds",
  "There are no tests for these operators; their faults are masked by the randomness of the search.",
  [OPT, T + "agent.py"],
  [("get_sorted_population ... get_index_kway_tournament_selection", OPT), ("comparison methods", T + "agent.py")],
  ["public static/instance methods of the optimizer base and agent"])

p("C21", "Multitask runs every algorithm on every problem and reports it faithfully",
  "A multitask execution runs each algorithm on each problem for the requested number of trials under the termination and mode assigned to that pair (broadcast from one, per algorithm, per problem or per pair), sequentially or in parallel processes. The exported tables contain for each algorithm, problem and trial exactly the best fitness and convergence sequence that run produced, in the requested file format (ten decimals in JSON); algorithms or problems of the same name are told apart and none is lost.",
  ["configurations", "inputs", "schedules"],
  "all numbers of algorithms, problems, trials, jobs, broadcast shapes, formats",
  "There is no test of the multitask utility.",
  ["mealpy/multitask.py"],
  [("check_input broadcasting", "mealpy/multitask.py"), ("execute", "mealpy/multitask.py")],
  ["solve calls of instrumented optimizers", "exported files"])

p("C22", "The tuner evaluates the whole grid and picks the truly best parameters",
  "The parameter grid enumerates every combination exactly once, its length and indexing agree with iteration, and the tuner runs every combination for the requested number of trials with those parameters in effect, sequentially or in parallel, on a problem given as dictionary or object. The results table holds each run's best fitness, the selected row has the best mean fitness for the direction of the problem (the smaller spread on ties), best parameters and score come from that row, and resolving uses them. A list of grids is searched grid by grid, each combination leaving the other parameters at their defaults.",
  ["configurations", "inputs", "schedules"],
  "all grids, trial and job counts, directions, problem forms, termination",
  "There is no test of the tuner.",
  ["mealpy/tuner.py"],
  [("ParameterGrid", "mealpy/tuner.py"), ("execute ranking", "mealpy/tuner.py"), ("resolve", "mealpy/tuner.py")],
  ["solve calls of instrumented optimizers", "result tables", "exported files"])

p("C23", "Saving and loading a model preserves it",
  "A solved or unsolved optimizer saved to a file and loaded again, also in a new process, reports the same parameters, best agent and history, and a seeded run on the loaded object evaluates the same solutions as on the original. Saving does not change the original, and the path with or without extension names the same file. A save that fails leaves an earlier file of that name intact.",
  ["histories", "inputs", "programs"],
  "all optimizers, before and after runs, path forms",
  "No test saves or loads a model.",
  [T + "io.py", OPT],
  [("save_model / load_model", T + "io.py")],
  ["loaded objects and runs on them"])

p("C24", "Log output goes where, and only where, each run asked for it",
  "The log lines of a run, one per epoch with its true current and global best, go to the destination that run's problem asked for: to the named file when logging to file, to the console when logging to the console, nowhere when logging is off, whatever earlier runs in the process asked for. Every line is written once, and logging never changes the result of the run.",
  ["histories", "configurations", "programs"],
  "all sequences of runs with different destinations, optimizers",
  "Log output is never tested, and the fault needs several runs in one process.",
  [T + "logger.py", OPT, T + "problem.py", T + "history.py"],
  [("create_logger", T + "logger.py"), ("track_optimize_step", OPT)],
  ["log files", "standard error and output"])

p("C25", "Lookups return the optimizer that was asked for",
  "The registry lists every optimizer class of the library exactly once under its class name, looking up any listed name returns that class, an unknown name returns nothing without raising, and every listed optimizer can be constructed with its defaults, reports its own name and describes its parameters as text.",
  ["programs", "inputs"],
  "all optimizer names and modules, unknown names",
  "The tests import classes directly.",
  ["mealpy/__init__.py", OPT],
  [("get_all_optimizers, get_optimizer_by_class, get_optimizer_by_name", "mealpy/__init__.py")],
  ["public lookup functions"])

p("C26", "Transfer, chaotic and fuzzy helpers stay in range and match their formulas",
  "Transfer functions map every real number, however large, to a probability in [0, 1] with the documented shape (v-shaped even and zero at zero, s-shaped increasing), vectorised results agree with elementwise ones; chaotic maps keep every admissible state within their interval for any number of steps and initial value and never return undefined numbers. Transfer variables draw ones with the transfer function's probability. Fuzzy membership values stay in [0, 1], are one at the peak and fall to zero at the feet, and rule weights are continuous and stay between the centres of the sets.",
  ["inputs", "histories"],
  "all real inputs, array shapes, chaotic map parameters and initial values, numbers of steps",
  "No test touches these helpers; failures are overflow or escape after many steps.",
  [T + "transfer.py", T + "chaotic.py", T + "fuzzy.py"],
  [("vstf_*/sstf_*", T + "transfer.py"), ("chaotic maps", T + "chaotic.py"), ("membership functions", T + "fuzzy.py")],
  ["public functions"])

p("C27", "Exported charts show exactly the recorded data",
  "Every chart export of a history writes the requested files and draws exactly the recorded series (global and current best fitness, objectives, diversity, runtime, exploration and exploitation, chosen agents and dimensions of the trajectory), one point per epoch, and refuses impossible requests with an error. Exporting never modifies the history.",
  ["inputs", "configurations"],
  "all optimizers, epoch counts, numbers of objectives, chosen agents and dimensions, file extensions",
  "No test draws a chart.",
  [T + "visualize/", T + "history.py"],
  [("export_* functions", T + "visualize/"), ("save_*_chart", T + "history.py")],
  ["matplotlib draw calls", "written files"])

p("C28", "Every optimizer uses its epochs and gets somewhere",
  "In every run each optimizer evaluates new candidate solutions during its epochs instead of repeating its initial population, and on easy problems, in both directions and for continuous and mixed variables, it improves on its initial population about as reliably and as far as it is known to, and the steps it takes late in a run are neither orders of magnitude smaller nor much larger than known: the search neither freezes early nor fails to settle.",
  ["inputs", "programs", "histories"],
  "all optimizers, both directions, easy problems, seeds, modes",
  "The tests accept any answer of the right type, including the best of the initial population returned unchanged.",
  [ALLOPT, OPT],
  [("each optimizer's evolve", ALLOPT), ("population replacement and elitism", OPT)],
  ["the objective function boundary", "best initial and best final fitness over repeated seeded runs"])

p("C29", "A run never loses the best solution it has evaluated",
  "At the end of every epoch the recorded global best, and at the end of a run the returned best agent, is at least as good as every single objective value the run has computed so far: also those of candidates that were tried, discarded, overwritten or replaced within the epoch and never entered the population.",
  ["inputs", "programs", "histories"],
  "all optimizers, modes, directions, variable kinds, hyper-parameters and epochs",
  "The best is taken from the population after each epoch; whether a better candidate was dropped inside an epoch depends on the random history, and no test compares the result with the calls made.",
  [OPT, ALLOPT],
  [("get_target, best_found, update_global_best_agent", OPT), ("replacement rules in each evolve", ALLOPT)],
  ["the objective function boundary", "recorded global best per epoch"])

p("C30", "Populations keep their size, and greedy replacement never loses ground",
  "Except for the optimizers whose design changes the number of agents, the population has exactly pop_size agents from the initialization to the end of every epoch. The optimizers that replace greedily or keep elites never end an epoch without the best solution found so far in their population, and in those with one-to-one greedy replacement no rank of the sorted population ever gets worse from one epoch to the next.",
  ["inputs", "programs", "histories"],
  "all optimizers, modes, directions, variable kinds, population sizes and hyper-parameters",
  "A population that shrinks, grows, or forgets its elite still returns an agent of the right type, which is all the tests check.",
  [OPT, ALLOPT],
  [("get_better_agent, greedy_selection_population, get_sorted_and_trimmed_population", OPT), ("replacement rules in each evolve", ALLOPT)],
  ["population after every epoch"])

p("C31", "No variable and no agent is left out of the search",
  "On a problem whose variables are all alike, an optimizer tries new values in every variable, none is skipped or hardly ever touched compared with the others. Every place of the population takes part: none keeps its solution while the others move, for odd and even population sizes. In the optimizers that evaluate their whole population, every epoch makes at least one objective call per agent.",
  ["inputs", "programs", "histories"],
  "all optimizers, numbers of variables, population sizes, modes, seeds",
  "A search that never touches the last variable or the last agent still returns a legal agent of the right type; only counts over many epochs show it.",
  [ALLOPT, OPT],
  [("loops over variables and agents, index draws in each evolve", ALLOPT)],
  ["the objective function boundary", "population after every epoch"])

p("C32", "The way a run is set up does not change what it computes",
  "A problem posed as a dictionary, a Problem object or a subclass of Problem, with bounds bare or in a list, tuple or array, with other names and extra keys, with the objective as function, lambda, bound method, partial or callable object returning a number, numpy scalar or one-element sequence; an optimizer given its default parameters implicitly or explicitly, or subclassed by the user; any log target, saved populations or not; a termination that does not strike earlier: all give, for the same seed, exactly the same objective calls, result and history.",
  ["inputs", "configurations"],
  "all optimizers, variable kinds, directions, modes, seeds and ways to set up a run",
  "The tests pose every problem in one way and look only at the type of the result.",
  [OPT, "mealpy/utils/problem.py", "mealpy/utils/termination.py", "mealpy/utils/target.py"],
  [("check_problem, check_termination, solve", OPT), ("Problem.__init__, set_bounds", "mealpy/utils/problem.py")],
  ["the objective function boundary", "history", "returned agent"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
