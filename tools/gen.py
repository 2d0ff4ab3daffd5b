#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run by hand; both outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = "stochopy/optimize/"
S = "stochopy/sample/"
COMMON, DE, CPSO, PSO = O + "_common.py", O + "de/_de.py", O + "cpso/_cpso.py", O + "pso/_pso.py"
DESTRAT, DECONS, CPCONS = O + "de/_strategy.py", O + "de/_constraints.py", O + "cpso/_constraints.py"
CMA, CMACONS, VD, NA = O + "cmaes/_cmaes.py", O + "cmaes/_constraints.py", O + "vdcma/_vdcma.py", O + "na/_na.py"
MCMC, HMC, SCOM = S + "mcmc/_mcmc.py", S + "hmc/_hmc.py", S + "_common.py"
OH, SH, BASE, FACT = O + "_helpers.py", S + "_helpers.py", "stochopy/_common.py", "stochopy/factory/benchmark.py"
ALLOPT = [COMMON, DE, CPSO, PSO, NA, CMA, VD]

PROPS = []


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note="", hook=None):
    PROPS.append(
        dict(
            rec=dict(
                id=id,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(
                    files=files,
                    state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                    mechanism=[dict(name=a, where=b) for a, b in mech],
                    observe_at=list(observe),
                    hook_needed=hook,
                ),
            ),
            technique=technique,
            note=note,
        )
    )


P(
    "P01",
    "The reported optimum is an evaluated point with its true objective value",
    "The solution returned by any optimizer is a point at which the objective was actually called during that run, and the reported function value is exactly what the objective returned there (NaN counting as infinite). With CMA-ES/VD-CMA bound penalisation the reported value is never below the objective at the reported point, and equals it when that point lies strictly inside the bounds.",
    ["inputs", "configurations"],
    "every optimizer, objective (smooth, rough, tied, integer-valued, huge-valued, partly infinite), bounds, population size, initial guess, update mode, constraint option and seed",
    "Tests compare x to a reference on one 2-D function and seed and never look at fun; mixed int/float objectives, x0 populations and large values are never tried.",
    [COMMON, DE, CPSO, NA, CMA, VD, CMACONS],
    [("selection keeps x and fun together", COMMON), ("final result assembled from last generation", CMA)],
    [("gbest/gfit", "best solution and value", DE)],
    ["returned x and fun", "recorded objective calls"],
    technique="property-based testing (Hypothesis) with a recording objective as oracle",
    note="Random structured configurations on all six optimizers; oracle is the log of real objective calls. Sampling, not proof.",
)
P(
    "P02",
    "Optimizers never lose the best solution they are documented to return",
    "DE, PSO, CPSO and NA return the smallest objective value seen over the entire run, and the best value they report after each iteration never increases. CMA-ES and VD-CMA return the smallest (penalised) value of their final generation.",
    ["inputs", "histories"],
    "every objective, configuration and seed; every iteration of the run",
    "Tests look only at the final x of a few seeded Rosenbrock runs; losing the best at a restart, a tie, in one update mode or with huge values does not show there.",
    [COMMON, DE, CPSO, NA, CMA, VD],
    [("greedy selection", COMMON), ("restart spares the best", CPSO), ("argsort of fitness", CMA)],
    [("pbestfit", "personal best values", CPSO)],
    ["returned fun", "callback state.fun", "recorded objective values"],
    technique="property-based testing (Hypothesis), running minimum over the recorded history as reference model",
    note="History invariant checked after every callback and at the end of generated runs. Sampling, not proof.",
)
P(
    "P03",
    "With bound handling on, nothing outside the bounds is ever evaluated or kept",
    "With 'Random' (DE), 'Shrink' (PSO/CPSO), 'Penalize' (CMA-ES/VD-CMA), always for NA, and 'Reject' for samples kept by MCMC/HMC, every point evaluated by an optimizer and every point returned, recorded or passed to a callback lies inside the bounds (for the optimizers up to rounding in the last digits). This holds whenever the initial guess, if any, is inside the bounds.",
    ["inputs", "configurations"],
    "every bounds shape (asymmetric, tiny, huge, fixed coordinates for NA), objectives pulling against the bounds, all coefficients, update modes and seeds",
    "The tests only check recorded points of one symmetric 2-D box whose optimum is interior, and never use 'Reject'.",
    [DECONS, CPCONS, CMACONS, NA, SCOM, DE, CPSO, CMA, VD, MCMC, HMC],
    [("resample", DECONS), ("velocity shrink", CPCONS), ("clip and penalise", CMACONS), ("Voronoi walk clipped to unit cube", NA), ("reject", SCOM)],
    [],
    ["points passed to the objective", "x, xall, callback X"],
    technique="property-based testing (Hypothesis), box-membership invariant over every evaluated and reported point",
    note="Objectives are biased to put the optimum on or beyond the bounds so the handlers are exercised; tolerance is a few ulps of the bound magnitude.",
)
P(
    "P04",
    "Evaluation, iteration and callback counts are exact and bounded",
    "The reported number of evaluations equals the number of times the objective was really called, the reported iteration count never exceeds the requested maximum, and the population optimizers spend exactly population-size evaluations per iteration. The callback is called exactly once per iteration, in order, with counts that match the work done so far.",
    ["inputs", "configurations", "histories"],
    "every method, population size, iteration budget from 1 upwards, tolerance (early stop or not) and update mode",
    "Tests only count callbacks for random budgets 2-9 at default options; no test checks nfev, early stops or a budget of 1.",
    ALLOPT + [HMC, MCMC],
    [("iteration loop", DE), ("iteration loop", CMA), ("call counting wrapper", HMC)],
    [("it", "iteration counter", DE)],
    ["nfev, nit, callback calls", "counted objective calls"],
    technique="property-based testing (Hypothesis), counting objective/callback as oracle",
    note="Exact integer equality against counters in the objective and callback.",
)
P(
    "P05",
    "Termination status, message and success flag tell the truth",
    "Every run ends with a documented status whose message and success flag agree with it: success holds exactly for non-negative statuses, those imply the value tolerance was met, and 'maximum number of iterations' is reported only when the budget was used up. DE, PSO, CPSO and NA report success whenever the best value found meets the value tolerance; every optimizer stops at the end of the first generation (for these four, the initial one excepted) in which it is met. The numerical stop reasons of CMA-ES/VD-CMA are reported when, and only when, they hold.",
    ["inputs", "configurations", "histories"],
    "every objective, tolerance, budget, initial population (including one already at the optimum), update mode and seed",
    "No test reads status, message or success; the seeded runs mostly end by iteration count.",
    [COMMON, DE, CPSO, CMA, VD, NA],
    [("selection status", COMMON), ("converge", CMA)],
    [("status", "termination status", COMMON)],
    ["status, message, success, nit, fun"],
    technique="property-based testing (Hypothesis), status predicates recomputed from the recorded history",
    note="The status conditions that can be decided from outside are recomputed from recorded evaluations.",
)
P(
    "P06",
    "A seeded call is a pure function of its arguments and leaves them untouched",
    "Two calls with equal arguments and the same seed return identical results, whatever was called before (other methods, failing calls, any state of the global random generator). A call made from inside another call's objective or callback gives its usual result and does not disturb the other (given that the objective puts the generator's state back). No call modifies its bounds, initial guess, step size, options or other arguments. Results already returned are not changed by later calls, and no call leaves numpy's error handling or print options or the warning filters changed.",
    ["histories", "inputs"],
    "every sequence of earlier calls in the process and every method/configuration, with arguments given as lists, tuples or arrays that the caller reuses",
    "Tests run each configuration once in a fresh state; aliasing of x0 or step size shows only when the caller reuses the object.",
    ALLOPT + [MCMC, HMC, OH, SH],
    [("seeding before first draw", DE), ("initial guess copied", DE), ("step size scaled out of place", MCMC)],
    [("global RNG", "np.random state", COMMON)],
    ["results of repeated calls", "argument snapshots"],
    technique="stateful property-based testing (Hypothesis call histories) against a fresh-process baseline",
    note="Histories of up to ~8 calls; baseline for each configuration is computed in a separate fresh interpreter for a subset and in-process otherwise.",
)
P(
    "P07",
    "Parallel evaluation never changes the result",
    "For every optimizer, running with worker threads, worker processes or MPI ranks gives exactly the result of the serial run in deferred mode, however the evaluations are scheduled, and requesting parallelism overrides the 'immediate' mode. Under MPI all ranks return the same result, with or without a seed.",
    ["schedules", "configurations", "inputs"],
    "worker counts (including -1), backends, MPI communicator sizes, populations not divisible by the workers, evaluation-time jitter, seeds (or none)",
    "Tests run two workers/one MPI rank for a few DE/PSO/CPSO configurations; never the process backend, several ranks, CMA-ES/VD-CMA/NA, or perturbed evaluation order.",
    [COMMON] + [DE, CPSO, NA, CMA, VD],
    [("backend wrapper", COMMON), ("sync override", DE)],
    [],
    ["returned result per backend and per rank"],
    technique="property-based differential testing: parallel vs serial with generated delays, and real multi-rank mpirun batches",
    note="Schedules are perturbed by input-dependent delays in the objective, not enumerated. MPI runs use real Open MPI ranks on shared memory.",
)
P(
    "P08",
    "Watching a run does not change it",
    "Supplying a callback, asking for the full history or choosing how much of it to keep changes neither the points evaluated nor the result. A smaller kept fraction yields exactly the leading part of each generation of the full history, and fraction zero yields exactly the best member of each generation.",
    ["inputs", "configurations"],
    "every method, history fraction in [0, 1], callback on or off, seed",
    "Tests always record the full history and never compare it with a run that records none or part of it.",
    ALLOPT + [MCMC, HMC],
    [("history arrays", DE), ("history arrays", CMA), ("callback dispatch", NA)],
    [("xall/funall", "recorded history", DE)],
    ["recorded objective calls, x, fun, xall, funall with the options varied"],
    technique="metamorphic property-based testing (Hypothesis): same case run under different observation options",
    note="Exact equality of evaluation sequences and results.",
)
P(
    "P09",
    "The recorded optimisation history is faithful",
    "With full history requested, an optimizer returns one record per iteration with the documented shape, in the caller's coordinates, where every recorded value is the objective (or penalised) value of the recorded point. The first record of DE, PSO, CPSO and NA is the initial population, every recorded point was evaluated during the run, and the best reported value is in the record.",
    ["inputs", "histories"],
    "every optimizer, history fraction, update mode, early stop, objective and seed",
    "The suite checks only that recorded points are inside the bounds for three constraint options.",
    [DE, CPSO, NA, CMA, VD],
    [("history arrays", DE), ("history arrays", NA), ("history arrays", CMA)],
    [("xall/funall", "recorded history", DE)],
    ["xall, funall", "recorded objective calls"],
    technique="property-based testing (Hypothesis), recorded calls and re-evaluation as oracle",
    note="Each (point, value) pair is matched with the recorded call log.",
)
P(
    "P10",
    "Callback reports describe the run as it stands",
    "At every iteration the callback receives the current population in the caller's coordinates and a partial result with the final result's fields: the best so far (population optimizers and samplers) or the best of the current generation (CMA-ES/VD-CMA), the counts, and, if requested, the history up to and including that iteration. The last report agrees with the returned result (the acceptance ratio of a chain's very first sample excepted).",
    ["inputs", "histories"],
    "every method, every iteration, history on/off, early stop, seed",
    "The two callback tests only count the calls.",
    ALLOPT + [MCMC, HMC],
    [("callback state", DE), ("callback state", CMA), ("callback state", MCMC)],
    [],
    ["callback arguments", "returned result"],
    technique="property-based testing (Hypothesis), callback snapshots compared with the recorded history",
    note="Snapshots are copied inside the callback and compared with a model built from objective calls.",
)
P(
    "P11",
    "The initial guess is used exactly as given",
    "For DE, PSO, CPSO and NA the first generation evaluated is exactly the supplied population, and for the samplers the first sample is the supplied point, whether given as list, tuple, integer or float array. For CMA-ES and VD-CMA the supplied point is the mean of the first generation, spread per coordinate by the given fraction of half the bound width.",
    ["inputs"],
    "every method, bounds, container/dtype/memory layout of the guess, spread parameter",
    "Only CMA-ES/VD-CMA are tested with an x0 (one list); no test gives DE, PSO, CPSO, NA or a sampler an initial guess.",
    [DE, CPSO, NA, CMA, VD, MCMC, HMC],
    [("initial population", DE), ("standardised mean", CMA), ("first sample", MCMC)],
    [],
    ["first points passed to the objective"],
    technique="property-based testing (Hypothesis), first-generation points and moments as oracle",
    note="Exact for populations; statistical with wide (>6 sigma) margins for the CMA-ES/VD-CMA spread.",
)
P(
    "P12",
    "Default initial populations are Latin hypercubes over the bounds",
    "Without an initial guess, the first generation of DE, PSO, CPSO and NA has, in every coordinate, exactly one point in each of the population-size equal slices of that coordinate's bounds, all inside the bounds, and coordinates are shuffled independently, with an independent random position in each slice. CMA-ES/VD-CMA start from a mean, and samplers from a sample, drawn uniformly inside the bounds.",
    ["inputs"],
    "every population size, dimension, bounds and seed",
    "No test looks at the initial population; a different stratification only shifts seeded results.",
    [COMMON, DE, CPSO, NA, CMA, VD, MCMC, HMC],
    [("lhs", COMMON)],
    [],
    ["first points passed to the objective"],
    technique="property-based testing (Hypothesis), stratum counting oracle plus pooled uniformity statistics",
    note="Stratification is exact; uniformity of CMA means and sampler starts is a pooled statistic with a very wide margin.",
)
P(
    "P13",
    "Invalid arguments are rejected before any work; documented forms are accepted",
    "A non-callable objective, malformed bounds, an initial guess of the wrong shape, an out-of-range population size or algorithm coefficient, an unknown update mode, unknown strategy, constraint or parallel backend, or a non-callable callback raises an error before the objective is ever called, while the boundary values of every documented range are accepted. Bounds, initial guesses and step sizes may be lists, tuples or arrays, and scalars may be Python or numpy numbers.",
    ["inputs", "configurations"],
    "every parameter of every method, at, just inside and just outside its documented range",
    "No test passes an invalid argument or a boundary value.",
    ALLOPT + [MCMC, HMC, OH, SH],
    [("argument checks", DE), ("argument checks", CPSO), ("argument checks", CMA), ("argument checks", MCMC), ("argument checks", HMC)],
    [],
    ["exception and number of objective calls"],
    technique="property-based testing (Hypothesis): generated range violations and boundary values, error/no-call oracle",
    note="Ranges are taken from the docstrings. For optimizer enumerations (strategy, constraints) any exception before the first evaluation counts as rejection.",
)
P(
    "P14",
    "Each DE generation follows the chosen strategy, crossover and greedy selection",
    "Every trial point equals its parent except on a non-empty set of coordinates, where it is the chosen strategy's combination of the best or uniformly and independently drawn distinct other members of the population at that moment (or, with 'Random', a resampled in-bounds value when that combination is out of bounds); crossover rate 1 takes all coordinates and 0 exactly one, any being as likely; in between, one is taken for sure and each other independently at that rate. A trial replaces its parent if strictly better, never if worse, and no other member changes.",
    ["inputs", "histories"],
    "every strategy, mutation and crossover constant, population size, dimension, update mode, objective and seed, at every generation",
    "Seven seeded Rosenbrock runs compare one final point; wrong member indices, a self-including donor or an altered crossover in some configuration go unnoticed by any other configuration.",
    [DE, DESTRAT, COMMON, DECONS],
    [("mutation strategies", DESTRAT), ("donor selection excluding self", DE), ("crossover mask", DE), ("selection", COMMON)],
    [("X", "population", DE)],
    ["points passed to the objective", "callback population"],
    technique="property-based testing (Hypothesis) against an exhaustive-donor reference model of a DE generation",
    note="All donor tuples are enumerated, so the oracle does not depend on random-number order.",
)
P(
    "P15",
    "Each PSO/CPSO move obeys the velocity rule towards personal and global best",
    "A particle's displacement is inertia times its previous displacement plus attractions, each an independent uniform fraction (per particle, coordinate and move) of its coefficient times the offset, to its own best and to the swarm's best position known at that moment (the generation's start in deferred mode, immediately in immediate mode). With 'Shrink' the displacement is only shortened along its own direction to stay in bounds.",
    ["inputs", "histories"],
    "every inertia/cognition/sociability in range, population, dimension, bounds, update mode, objective, seed and generation",
    "Eight seeded runs compare one final point with default-like coefficients.",
    [CPSO, PSO, CPCONS, COMMON],
    [("velocity update", CPSO), ("shrink", CPCONS), ("selection", COMMON)],
    [("V, pbest, gbest", "velocity, personal and global best", CPSO)],
    ["points passed to the objective"],
    technique="property-based testing (Hypothesis), interval reference model of the velocity rule replayed over recorded evaluations",
    note="Random weights are existentially quantified per coordinate (interval check); their spread is checked statistically.",
)
P(
    "P16",
    "Each NA sample is a random point of the Voronoi cell of one of the best models",
    "In every generation after the first, each new NA sample's nearest neighbour (in bound-normalised coordinates, ignoring fixed coordinates) among all earlier samples is one of the resampled best models, those models share the new samples evenly, and each coordinate in turn, starting from the resampled model, is drawn uniformly over the part of the cell left by the coordinates drawn before it, independently of the other draws. Fixed coordinates keep their bound value exactly.",
    ["inputs", "histories"],
    "every population, resampling fraction, dimension, bounds (including fixed coordinates), objective, seed and generation",
    "One seeded run of a 2-D function checks a final point.",
    [NA],
    [("neighbourhood walk", NA)],
    [("Xall", "all models so far", NA)],
    ["points passed to the objective"],
    technique="property-based testing (Hypothesis), brute-force nearest-neighbour oracle over the recorded history",
    note="Ties within rounding are accepted.",
)
P(
    "P17",
    "Only the ordering of objective values drives the search",
    "Replacing the objective by any strictly increasing transformation of it leaves every point evaluated by DE, PSO, CPSO, NA, and by unpenalised CMA-ES and VD-CMA, unchanged for as long as neither run meets a stopping tolerance. Shifting the objective by a constant leaves the trajectory of MCMC and HMC unchanged up to rounding.",
    ["inputs"],
    "every objective (with ties, negative and very large values), exactly order-preserving transformation, configuration and seed",
    "No test runs the same search on two related objectives.",
    [COMMON, DE, CPSO, NA, CMA, VD, MCMC, HMC],
    [("comparison-based selection", COMMON), ("rank-based recombination", CMA), ("Metropolis difference", MCMC)],
    [],
    ["points passed to the objective"],
    technique="metamorphic property-based testing (Hypothesis): exactly monotone transformed objectives",
    note="Transformations are exact on the generated value sets (integers, powers of two), so equality is exact.",
)
P(
    "P18",
    "Changing units or mirroring the axes changes nothing but the coordinates",
    "Rescaling each coordinate (bounds, guess, objective and gradient argument) by its own power of two rescales every evaluated point and the solution in the same way for DE, PSO, CMA-ES, VD-CMA, NA, MCMC and HMC (finite-difference HMC: one common factor, also for its step). Mirroring a problem whose bounds are symmetric about zero, with the random increments mirrored too, mirrors every evaluated point, so lower and upper bounds are treated alike.",
    ["inputs"],
    "every objective, bounds, coefficient, constraint option, initial guess and seed",
    "All tests use one box, and its reference points cannot reveal a dependence on units or an asymmetry between the two bounds.",
    [DE, CPSO, CPCONS, DECONS, CMA, CMACONS, VD, NA, MCMC, HMC],
    [("standardisation", CMA), ("normalisation", NA), ("step size relative to bounds", MCMC), ("penalty weights", CMACONS)],
    [],
    ["points passed to the objective, x"],
    technique="metamorphic property-based testing (Hypothesis): power-of-two rescaling and mirrored random increments",
    note="Power-of-two scaling is exact in floating point. Mirroring substitutes sign-flipped numpy random increments. CPSO restarts are excluded (radius is absolute by design and pinned by tests).",
)
P(
    "P19",
    "CMA-ES adapts mean, step size and covariance as published",
    "Each CMA-ES generation is sampled from a normal distribution whose mean is the log-weighted recombination of the previous generation's best parents, and whose step size and covariance follow the cited CMA-ES equations for the given population, parent fraction and dimension. The covariance stays symmetric positive definite.",
    ["inputs", "histories"],
    "every dimension, population, parent fraction, initial spread, bounds, objective ranking and number of generations",
    "Four seeded 2-D runs; a changed learning rate that only matters for other dimensions or populations passes.",
    [CMA],
    [("weighted recombination", CMA), ("cumulation and covariance update", CMA), ("step size", CMA)],
    [("xmean, sigma, C, pc, ps", "search distribution", CMA)],
    ["points passed to the objective, related to the seeded stream of normal draws"],
    technique="property-based differential testing (Hypothesis) against an independent CMA-ES reference stepped along the evaluated points",
    note="Inner products of each generation's steps under the reference's inverse covariance must equal those of the seeded normal draws; reference written from the cited tutorial.",
)
P(
    "P20",
    "VD-CMA samples from its restricted covariance model and adapts as published",
    "Each VD-CMA generation is sampled around the log-weighted recombination of the previous generation's best parents with covariance proportional to D(I+vv^T)D, where D stays positive, except for the two injected symmetric samples along the last mean shift from the second generation on. Step size follows the two-point rank comparison of the injected samples, and D and v follow the cited natural-gradient update.",
    ["inputs", "histories"],
    "every dimension, population, parent fraction, initial spread, objective ranking and number of generations",
    "Four seeded 2-D runs, where the covariance model is not even adapted (it only is above five dimensions).",
    [VD],
    [("sampling", VD), ("injection and two-point step-size", VD), ("natural gradient update", VD)],
    [("dvec, vvec, sigma", "search distribution", VD)],
    ["points passed to the objective, related to the seeded stream of normal draws"],
    technique="property-based differential testing (Hypothesis) against an independent VD-CMA reference stepped along the evaluated points",
    note="Reference written from the cited paper with explicit matrices where the code uses closed forms.",
)
P(
    "P21",
    "MCMC is a Metropolis sampler of exp(-objective)",
    "Each step proposes a Gaussian perturbation, with standard deviation the given fraction of half the bound width, of exactly one consecutive block of the stated fraction of coordinates, blocks being visited in turn and covering all coordinates. Proposals that do not increase the objective are always accepted, others with probability exp(-increase), and with 'Reject' infeasible ones never.",
    ["inputs", "histories"],
    "every dimension, block fraction, scalar or per-coordinate step size, bounds, objective and seed",
    "One seeded 2-D chain with all coordinates perturbed is compared at one point.",
    [MCMC, SCOM],
    [("proposal", MCMC), ("acceptance", MCMC), ("feasibility", SCOM)],
    [],
    ["points passed to the objective, xall"],
    technique="property-based testing (Hypothesis), per-step kernel predicates plus pooled acceptance/proposal statistics",
    note="Deterministic parts exact; acceptance frequency and proposal moments pooled over all generated chains with >6 sigma margins.",
)
P(
    "P22",
    "HMC integrates reversible leap-frog dynamics and accepts by energy",
    "Each HMC proposal is the end of a leap-frog trajectory of the requested number of steps with the requested per-coordinate step size, driven by the supplied gradient or by central differences of the objective with the stated step, from a standard-normal momentum. It is always accepted if total energy does not rise, otherwise with probability exp(-rise), and with 'Reject' never when infeasible.",
    ["inputs", "histories"],
    "every dimension, number of steps, step size (scalar or vector), with or without a gradient function and extra arguments, objective and seed",
    "One seeded chain whose proposals are all rejected; the gradient option is never used.",
    [HMC, SCOM],
    [("leap-frog", HMC), ("numerical gradient", HMC), ("acceptance", HMC)],
    [],
    ["points passed to the objective and to the gradient, xall"],
    technique="property-based testing (Hypothesis), Stoermer-Verlet recurrence and energy recomputed from recorded gradient calls",
    note="Positions are recovered from recorded gradient/objective calls, the momentum from the trajectory itself.",
)
P(
    "P23",
    "Sampler chains and summaries are consistent",
    "A sampler returns exactly the requested number of samples, each recorded value is the objective at the recorded sample, every sample is either the previous sample or the proposal just evaluated, and the reported best is the minimum over all samples including the first. The reported acceptance ratio is the number of accepted proposals over the number of samples.",
    ["inputs", "histories"],
    "every sampler, chain length from 1, dimension, constraint option, objective (including chains that never move) and seed",
    "The sampler tests compare only the best point of one seed.",
    [MCMC, HMC],
    [("chain arrays", MCMC), ("chain arrays", HMC)],
    [],
    ["xall, funall, x, fun, nit, accept_ratio, nfev"],
    technique="property-based testing (Hypothesis), chain invariants against recorded objective calls",
    note="Exact matching of chain entries with the call log.",
)
P(
    "P24",
    "Benchmark functions compute their published definitions",
    "Every benchmark function returns the value of its published formula for any real vector of any admissible length, given as list, tuple or array, without modifying it. Each is bounded below by its known global minimum and attains it at the known minimiser.",
    ["inputs"],
    "every vector: any dimension, sign, magnitude, container and numeric type",
    "Tests evaluate each function at the single point (1,...,1), where x, x^2 and x^4 coincide and most terms vanish.",
    [FACT],
    [("formulas", FACT)],
    [],
    ["return values"],
    technique="property-based differential testing against exact/pure-Python reference formulas, plus symmetry and minimum laws",
    note="Reference uses math.fsum per term; relative tolerance 1e-9 of the term magnitudes.",
)
P(
    "P25",
    "Results behave as one dictionary with attribute access",
    "A result object behaves as a dictionary whose keys are also attributes: reads, writes and deletions through either view are seen by the other, reading a missing attribute raises AttributeError, and copying or pickling preserves it. Its printed form lists every field except the recorded history, one after the other with their names aligned.",
    ["histories", "inputs"],
    "every sequence of item/attribute reads, writes, deletes, updates, copies and prints",
    "No test touches the result object beyond reading x and xall.",
    [BASE, OH, SH],
    [("attribute alias", BASE), ("pretty print", BASE)],
    [],
    ["item/attribute access, repr, dir, copy, pickle"],
    technique="stateful property-based testing (Hypothesis) against a plain dict model",
    note="Random operation sequences on real result objects and constructed ones.",
)
P(
    "P26",
    "Front-ends are transparent: dispatch, extra arguments, PSO as CPSO",
    "Calling the generic minimize/sample with a method name and options gives the same result as calling that method directly with those options as keywords, options left out meaning the documented defaults, and extra arguments reach the objective (and gradient) unchanged at every call. PSO equals CPSO with competition switched off.",
    ["configurations", "inputs"],
    "every method, option subset and value, and argument tuple",
    "Tests only go through the generic front-end, with no extra arguments, and always set most options.",
    [OH, SH, PSO, CPSO] + [DE, NA, CMA, VD, MCMC, HMC],
    [("registry", OH), ("registry", SH), ("positional forwarding", PSO)],
    [],
    ["results and objective arguments of paired calls"],
    technique="metamorphic property-based testing (Hypothesis): paired equivalent calls",
    note="Exact equality of evaluation sequences and results; documented defaults are tabulated in the harness.",
)
P(
    "P27",
    "Errors raised by user functions surface and leave the library usable",
    "An exception raised by the objective, gradient or callback at any call reaches the caller unchanged in type and message, after no further evaluation in serial runs, for every method and backend (except StopIteration raised inside a parallel worker, which Python itself turns into RuntimeError). A later identical seeded call behaves as if the failed one had never happened.",
    ["fault_sequences", "configurations"],
    "every method, every call index at which the user function fails, serial, threaded and process execution",
    "No test raises from an objective or callback.",
    ALLOPT + [MCMC, HMC],
    [("backend wrapper", COMMON)],
    [],
    ["exception seen by caller, number of calls, subsequent results"],
    technique="property-based fault injection (Hypothesis-chosen failure point) with a clean-run baseline",
    note="Faults at generated call indices; process backend sampled lightly because of start-up cost.",
)
P(
    "P28",
    "Every optimizer actually optimises",
    "On convex quadratic objectives whose minimum lies inside the bounds, each optimizer with default coefficients improves on its starting generation by orders of magnitude within a moderate budget, wherever the minimum lies and however the bounds are scaled. The samplers concentrate on the low-value region and reproduce the mean and spread of a Gaussian target.",
    ["inputs"],
    "positions of the minimum, dimensions, bounds and seeds",
    "Seeded single-function references would have to be regenerated after any change of random order, and say nothing about other problems.",
    ALLOPT + [MCMC, HMC],
    [("whole algorithms", DE), ("whole algorithms", CMA)],
    [],
    ["fun relative to the starting generation; sample moments"],
    technique="property-based statistical testing: generated quadratics, median improvement against generous thresholds",
    note="Statistical claim on aggregates of many generated problems; thresholds far from observed values.",
)
P(
    "P29",
    "CPSO restarts only the worst particles of a collapsed swarm",
    "CPSO moves differ from the PSO rule only for particles restarted after an iteration in which the swarm had collapsed around its best, at most all but one particle, namely those with the worst personal bests, each restarted at rest at a position drawn uniformly and independently inside the bounds with its memory erased. The swarm's best is never restarted, and with zero or no competitivity nothing is restarted.",
    ["inputs", "histories"],
    "every competitivity, population, budget, bounds, update mode, objective and seed, at every iteration",
    "Four seeded runs; whether or which particles restart is not observed.",
    [CPSO],
    [("restart", CPSO)],
    [("swarm radius, threshold", "collapse detection", CPSO)],
    ["points passed to the objective, callback population"],
    technique="property-based testing (Hypothesis), restart-aware interval reference model over recorded evaluations",
    note="Restarted particles' hidden position is recovered as an interval; restart count and victims are checked against the published rule.",
)
P(
    "P30",
    "Immediate and deferred modes use information exactly when promised",
    "In deferred mode (and for CMA-ES, VD-CMA and NA always) the points of a generation depend only on earlier generations' values, and in every mode no evaluated point depends on values not yet returned. In immediate mode an improvement of the best is used by the very next candidates of the same generation.",
    ["inputs", "histories"],
    "every method, generation, index at which objective values are altered, configuration and seed",
    "Tests never compare runs whose objective differs from some call on.",
    [DE, CPSO, NA, CMA, VD, COMMON],
    [("sync/async iteration", DE), ("sync/async iteration", CPSO)],
    [],
    ["points passed to the objective in paired runs"],
    technique="metamorphic property-based testing (Hypothesis): objective values altered from a generated call index on",
    note="Causality is checked by comparing evaluation prefixes of paired runs.",
)
P(
    "P31",
    "Every admissible configuration runs to completion with finite points",
    "Any configuration whose arguments are within their documented ranges runs to completion without raising and without evaluating the objective at a non-finite point, and returns a solution of the right length with all documented fields. This includes integer-valued or constant objectives, one-dimensional problems, minimal populations and budgets, and coefficients at the ends of their ranges.",
    ["inputs", "configurations"],
    "every admissible combination of method, option values (range ends weighted), bounds, dimension, objective type, budget and seed",
    "Tests use 2-D float-valued Rosenbrock with mid-range coefficients only.",
    ALLOPT + [MCMC, HMC, CPCONS, CMACONS],
    [("parameter handling", CMA), ("parameter handling", DE), ("block proposal", MCMC), ("velocity shrink", CPCONS)],
    [],
    ["exceptions, evaluated points, result fields"],
    technique="property-based robustness fuzzing (Hypothesis) over the documented argument domain",
    note="Grammar-like generator over the documented domain with range ends over-weighted.",
)
P(
    "P32",
    "Bound penalties repair to the nearest bound and never favour infeasibility",
    "With 'Penalize', CMA-ES and VD-CMA evaluate each infeasible sample at its projection onto the bounds, leave feasible samples and their values untouched, and add to a repaired sample's value a non-negative penalty that grows with its squared distance to the bounds. Once the mean is infeasible on either side the penalty becomes positive and is adapted to the spread of the objective.",
    ["inputs", "histories"],
    "every bounds, initial mean and spread, objective pulling outside either bound, dimension, population and seed",
    "Tests check only feasibility of recorded points and one final point for an interior optimum.",
    [CMACONS, CMA, VD],
    [("penalty", CMACONS)],
    [("bnd_weights, dfithist", "penalty weights and value-spread history", CMACONS)],
    ["points passed to the objective, recorded penalised values"],
    technique="property-based testing (Hypothesis), projection and penalty-consistency oracle over recorded values and captured draws",
    note="Unrepaired samples are recovered by an independent CMA-ES reference fed with the same draws where needed.",
)
P(
    "P33",
    "Undefined or infinite values never win",
    "An undefined objective value (NaN) counts as plus infinity: every optimizer behaves exactly as if the objective had returned infinity there, in serial and parallel runs, and so does MCMC when its first sample is defined. Whenever a finite value was obtained (for CMA-ES/VD-CMA in the generation concerned), the best value reported and returned is finite, also under bound penalisation. MCMC and HMC never move from a defined sample to an undefined one, and HMC never accepts a trajectory that overflowed.",
    ["inputs", "configurations"],
    "every method, update mode and constraint option, objectives undefined or infinite on any part of the box (including all of the first generation), HMC step sizes far too long for the objective",
    "No test objective is ever undefined, infinite or steep enough for HMC to diverge.",
    ALLOPT + [BASE, CMACONS, MCMC, HMC],
    [("undefined values made infinite", BASE), ("spread of non-finite values", CMACONS), ("energy test", HMC)],
    [],
    ["results, recorded values and evaluated points with NaN against those with infinity"],
    technique="property-based metamorphic testing (Hypothesis): the same run with NaN and with infinity, plus running-minimum and finiteness invariants",
    note="Undefined regions are half spaces or level sets; HMC divergence is provoked by steep polynomials with an exact gradient.",
)

P(
    "P34",
    "A larger budget or a tighter tolerance only continues the run",
    "The same seeded call with a larger maxiter (for CPSO without competition, whose restarts depend on the progress made) or with smaller ftol and xtol evaluates the same points, makes the same reports and records the same history as long as the shorter run lasts, and then continues it. The best of DE, PSO, CPSO, NA and the samplers is thus never worse, and a run that ended before its budget ends the same way with a larger one.",
    ["inputs", "configurations"],
    "every method, option, objective and seed, every pair of budgets and of tolerances",
    "No test runs one problem with two budgets or tolerances; reference values belong to one maxiter.",
    ALLOPT + [MCMC, HMC],
    [("main loop", DE), ("main loop", CPSO), ("main loop", NA), ("main loop and stopping rules", CMA), ("main loop", VD), ("chain", MCMC), ("chain", HMC)],
    [],
    ["evaluated points, reports, recorded history and results of the two runs"],
    technique="property-based metamorphic testing (Hypothesis): pairs of runs, exact prefix comparison",
    note="CPSO with competition is compared for tolerances only.",
)

NOT_APPLICABLE = {}
CLAIMED = None  # None = all that have a module


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["rec"]["id"]
        if os.path.exists(os.path.join(HERE, "pbt", "props", i.lower() + ".py")):
            checks.append(
                dict(
                    property=i,
                    quick_cmd=f"./check {i} quick",
                    thorough_cmd=f"./check {i} thorough",
                    evidence_file=f"evidence/{i}.json",
                    technique=p["technique"],
                    level="exploration",
                    level_note=p["note"],
                )
            )
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="All checks: ./check <id> quick|thorough; replay with ./check <id> --replay FILE. No hooks in /repo.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
