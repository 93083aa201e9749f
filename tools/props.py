prop("C18", "Each level of the hierarchical search keeps its own precision, noise and archive",
     "Nodes of a level see coordinates cut towards zero to exactly the level's number of mantissa bits: every candidate they evaluate and every individual they return is so cut, with sign, magnitude and input untouched. The error added to an objective value is "
     "two-sided, relative to the value and to the level's error, so that negative values stay negative under small errors and values are exact when the level's error is zero. Values are remembered per level for exactly the vectors evaluated on it: where a driver stores "
     "what it evaluates, a candidate has one value per level, and none is taken from another level or another vector.",
     ["inputs", "histories", "configurations"], "all mantissa prefixes, lengths and exponents up to the bound; value-error-draw combinations; archives over all short vectors; histories of every driver",
     "Tests never look at the precision or noise of a level; rounding faults show for particular mantissas only.",
     ["algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/tools.py", "algorithms/HGS/distributed/actors.py", "algorithms/*/*.py"],
     [("trimming", "algorithms/HGS/tools.py: trim_vector, trim_mantissa"), ("noise", "algorithms/HGS/classic/ClassicHGS.py: blurred_fitnesses; algorithms/HGS/tools.py: blurred_fitnesses"),
      ("archive", "algorithms/HGS/classic/ClassicHGS.py: ResultArchive, Node")],
     "bounded-exhaustive enumeration of inputs through the functions the real search hands to its nodes; exploration of sessions under a controlled random source", "exploration",
     "Complete for the mantissa prefixes and lengths listed; sessions up to one deviation. Distributed nodes share no archive.")
prop("C19", "Benchmark problems and their reference fronts are the published ones",
     "Each of the problems ZDT1-4, ZDT6, UF1-UF10, kursawe, ackley, EWA1 and EWA2 has the published box, and its objective functions give the published values for every vector of the box, its edges included, without changing the vector and the same at every call. "
     "Each reference front consists of objective vectors that solutions in the box attain, none of which another value of the problem dominates (up to sampling resolution for ZDT3 and the tabulated kursawe front), and covers the whole true front without gaps; "
     "for EWA1, EWA2 and ackley it is the ideal point.",
     ["inputs"], "all grid vectors with up to two variables changed from four base vectors, for every value of the leading variables; every member of every reference front",
     "No test looks at the problems; a wrong index set or a front off the true one silently distorts every published comparison.",
     ["problems/*/problem.py"],
     [("definitions", "problems/UF8/problem.py: J1, J2, J3, fit_1"), ("reference fronts", "problems/UF9/problem.py: pareto_front"), ("ZDT family", "problems/ZDT1/problem.py: emoa_fitnesses")],
     "bounded-exhaustive enumeration of inputs on the real code against an independent implementation of the definitions", "exploration",
     "Agreement within 1e-6 (ZDT6 uses a rounded constant). UF11 and UF12 are outside the property: the data here do not settle their definition.")
prop("C20", "Statistics and rankings say what the stored results say",
     "For every list of metric values the analysis gives their mean, deviation, quartile fences, shares of mild and extreme outliers, mean and deviation without them, and as 95% interval the 2.5% and 97.5% quantiles of the means of resamples of two thirds of the values drawn with replacement. "
     "A result counts for a budget when its mean cost is at most 500 over. The ranking names for every problem and metric an algorithm with the best mean (most hypervolume and dominance, least of the others), takes the last result within the largest budget, gives the winner two points, or one to it and each "
     "algorithm within the metric's tolerance; detailed ranking and table follow the same rules. The report has one row per problem, algorithm, budget and metric with the right numbers and marks exactly the outlying values; the summary lists what is stored.",
     ["inputs", "histories", "schedules"], "all short lists of values, all outcomes of resampling as multisets, all cost tables, all stores of three algorithms over small alphabets of values and cost patterns",
     "No test covers the statistics; conclusions rest on boundary cases (ties, outliers, budgets overrun).",
     ["statistic/stats_bootstrap.py", "statistic/ranking.py", "statistic/stats.py", "statistic/summary.py"],
     [("analysis", "statistic/stats_bootstrap.py: yield_analysis, bootstrap"), ("cost rule", "statistic/stats_bootstrap.py: find_acceptable_result_for_budget"),
      ("ranking", "statistic/ranking.py: rank, detailed_rank, table_rank, get_weak_winners"), ("reports", "statistic/stats.py: statistics; statistic/summary.py")],
     "bounded-exhaustive enumeration of inputs and random outcomes on the real code; real reports over enumerated stores against a reference", "exploration",
     "Values from an alphabet of seven; the report stores are a fixed family. Ties may be resolved either way.")
prop("C21", "A simulation depends on its seed and parameters only",
     "With the same random seed, algorithm, problem and budgets a simulation stores the same results, whatever the process did before (other algorithms, other problems, the same one) and whatever other drivers of the same process, built from the same or other "
     "configurations, did between its steps; another seed gives another result. No simulation changes the data others work from.",
     ["histories", "schedules"], "a history covering every ordered pair of listed algorithms, alternating problems of different shape; all interleavings of the steps of two drivers",
     "Tests run one algorithm per process and never compare two runs; shared defaults, class attributes and aliased configuration show only in particular histories.",
     ["simulation/worker.py", "simulation/factory.py", "algorithms/", "problems/", "evotools/random_tools.py"],
     [("seeding", "simulation/worker.py: _init_random_seed"), ("shared configuration", "simulation/factory.py: prepare"), ("state of drivers", "algorithms/*/*.py: __init__")],
     "exhaustive enumeration of pairs of simulations in one process and of interleavings of two drivers' steps, each compared with the run alone", "exploration",
     "Complete for ordered pairs (longer dependencies only as they occur in the walk), with configured sizes scaled down. Messages of the distributed search are delivered oldest first.")

prop("C22", "Random choices have the probabilities they are meant to have",
     "Given uniform draws: polynomial mutation changes each gene independently with the given rate, to the published bounded distribution of the given index; simulated binary crossover happens with the given rate, recombines each differing gene with "
     "probability 1/2 by the published bounded formula, exchanges the two values with probability 1/2 and returns either child equally; both leave their arguments alone. Initial individuals are uniform in the box. Parents: NSGA-II and IBEA "
     "draw two and take the fitter with probability 0.9; SPEA2 takes the fitter of two different archive members; SMS-EMOA takes two different members, NSGA-III any two, uniformly; the rates and indices configured are those applied. OMOPSO mutates the "
     "first third of its swarm uniformly and, once progress is known, the second non-uniformly. A weighted choice picks in proportion to the weights; an emigrant's layer has weight 1/(its number), its member is uniform; the root of a hierarchical "
     "search is a uniform sample; a sprout is its delegate and mutants of it; bootstrap samples are uniform with replacement.",
     ["inputs", "schedules"], "every combination of the draws, each on a grid of cells, hence the exact distribution of outcomes under that grid",
     "A test sees single draws; a wrong probability, bias or a swapped comparison makes every single outcome plausible.",
     ["algorithms/base/drivertools.py", "algorithms/NSGAII/NSGAII.py", "algorithms/IBEA/IBEA.py", "algorithms/SPEA2/SPEA2.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/OMOPSO/OMOPSO.py",
      "algorithms/IMGA/IMGA.py", "algorithms/HGS/", "evotools/random_tools.py", "evotools/ea_utils.py", "statistic/stats_bootstrap.py"],
     [("operators", "algorithms/base/drivertools.py: mutate, crossover"), ("mating selection", "algorithms/*/*.py: step"), ("weighted choice of layers", "algorithms/IMGA/IMGA.py: emigrate; evotools/random_tools.py: weighted_choice"),
      ("initial population", "evotools/ea_utils.py: gen_population"), ("sprouts", "algorithms/HGS/tools.py: population_from_delegate")],
     "exhaustive enumeration of all draws of an operation over a weighted grid, with the distribution of results compared exactly with a reference (discretised probabilistic model checking of the real code)", "model_checking",
     "The grids have 2-60 cells; populations of 2-3, 1-3 genes. Jumping genes, NSLS's local search and OMOPSO's leader choice are not covered.")

prop("C23", "Figures show what the store holds",
     "Whatever (readable) results are stored, the figure commands write their figures and these show exactly the stored results. pictures: per problem and indicator, each algorithm's mean over its runs at each of its times, in order of time, within the axes, "
     "in one style of its own. pictures_summary: each algorithm's score at the budget that counts for it, at the place of its problem, scaled by the problem's best (all but pdi); the selected algorithms are joined by lines. best_fronts: the reference front, and for each "
     "algorithm the front of one of its runs at the budget that counts. violin: under each algorithm's name the minimum, mean, median and maximum of its own runs. Algorithms without results at an acceptable cost, or without a style, are left out, and do not hinder others.",
     ["histories", "inputs"], "all stores over small alphabets of times, values, cost patterns and sets of algorithms; every figure of every command read back",
     "No test draws anything; a shifted label or a missing series looks plausible.",
     ["plots/pictures.py", "plots/best_fronts.py", "plots/violin.py", "statistic/stats_bootstrap.py"],
     [("metrics over time", "plots/pictures.py: pictures_time, plot_results"), ("summary", "plots/pictures.py: pictures_summary, plot_results_summary"), ("fronts", "plots/best_fronts.py: best_fronts"), ("violins", "plots/violin.py: violin")],
     "exhaustive exploration of small stores through the real figure commands, figures intercepted before rendering and compared with an independent computation", "exploration",
     "Complete within the alphabets in the evidence. Rendering itself (matplotlib) and colours are not judged, except that different algorithms of a figure differ.")

prop("C24", "Survivors are chosen by each algorithm's own measure",
     "Among candidates, NSGA-II (and JGBL's last selection) keep whole non-dominated fronts first and of the front that does not fit those with the largest crowding distance (two objectives); SPEA2 keeps the non-dominated, completed by strength fitness plus "
     "density, or truncated by removing, one at a time, the one nearest to others (next nearest on ties); IBEA removes, one at a time, the one with the largest loss by the additive epsilon indicator on scaled objectives; SMS-EMOA removes the least hypervolume contributor "
     "of the last front; NSGA-III (theta) takes the best of every reference vector's cluster, then the next. OMOPSO's particles move by inertia, their own best and a non-dominated leader, stop at the border and turn back. Ties may be resolved either way.",
     ["inputs", "schedules"], "all deviations of the random draws over several steps, and all starting populations over a grid; the set of results the rule allows is computed for every selection",
     "Selection by a wrong measure still yields valid populations which slowly improve; no test looks at which individuals survive.",
     ["algorithms/NSGAII/NSGAII.py", "algorithms/JGBL/JGBL.py", "algorithms/SPEA2/SPEA2.py", "algorithms/IBEA/IBEA.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/OMOPSO/OMOPSO.py"],
     [("rank and crowding", "algorithms/NSGAII/NSGAII.py: _nd_sort, _crowding, _environmental_selection"), ("truncation", "algorithms/SPEA2/SPEA2.py: environmental_selection"), ("indicator", "algorithms/IBEA/IBEA.py: _environmental_selection"),
      ("contribution", "algorithms/SMSEMOA/SMSEMOA.py: reduce_population"), ("theta", "algorithms/NSGAIII/NSGAIII.py: step"), ("velocity", "algorithms/OMOPSO/OMOPSO.py: compute_speed, move")],
     "stateless exploration of the real algorithms under a controlled random source, and exhaustive enumeration of starting populations, against the set of results of a reference of each rule", "exploration",
     "Complete up to the deviation bound, budgets and grids in the evidence. Selections with more than 64 tied results are not judged. NSLS's farthest-candidate selection and OMOPSO's leader archive are not covered.")

NOT_APPLICABLE = []
NOTES = ("All checks run the repository's real code on /opt/venv/bin/python with every random draw, clock, scheduler, "
         "message delivery and file-system step decided by an explorer (mc/). No hooks in /repo.")

prop("C01", "Pareto dominance, layering and non-dominated filtering are exact",
     "For objective vectors of equal length, one vector dominates another exactly when it is no worse in every objective and "
     "better in at least one; the comparison is antisymmetric and transitive. Splitting a collection into layers puts every "
     "member in exactly one layer, the k-th layer being the members not dominated once earlier layers are removed, and the "
     "non-dominated filter returns exactly the first layer with repetitions kept, without changing its input.",
     ["inputs"], "every ordered list of vectors (repetitions, ties, infinities, negative zero, denormals) up to the bound",
     "The unit tests fix two or three hand-picked lists; the guarantee is for every list, in particular ties, duplicates and extreme values.",
     ["evotools/ea_utils.py", "metrics/metrics.py", "metrics/metrics_utils.py"],
     [("pairwise comparison", "evotools/ea_utils.py: domination_cmp, dominates"),
      ("layer peeling", "evotools/ea_utils.py: paretofront_layers"),
      ("filter for metrics", "metrics/metrics.py: filter_not_dominated")],
     "bounded-exhaustive enumeration of inputs on the real code against a reference model", "exploration",
     "Complete within the stated alphabets and lengths (2 objectives lists of 4-5 vectors, up to 5 objectives shorter). Says nothing about NaN.")

prop("C02", "Hypervolume equals the measure of the dominated region",
     "The computed hypervolume of any finite set of points with respect to a reference point equals the volume of the union of "
     "the boxes spanned by the points strictly better than the reference point, in any number of objectives, for any order, ties, "
     "duplicates or dominated points, for any placement of the reference point, and however often the same calculator was used before. "
     "Computing it does not change the points given.",
     ["inputs"], "every point list on small integer grids in 1-6 dimensions, with several reference points and affine images",
     "No existing test covers it; hand-picked sets miss tie and order dependent failures of the dimension-sweep.",
     ["algorithms/base/hv.py", "metrics/metrics.py"],
     [("dimension sweep", "algorithms/base/hv.py: HyperVolume.compute, hvRecursive, preProcess"), ("metric", "metrics/metrics.py: hypervolume")],
     "bounded-exhaustive enumeration of inputs on the real code against exact cell counting", "exploration",
     "Complete within the listed grids; the oracle counts unit cells exactly.")

prop("C03", "Quality indicators equal their published definitions",
     "For every non-empty result and reference front, generational distance, inverted generational distance, averaged Hausdorff "
     "distance, additive epsilon, extent, spacing and the non-domination ratio equal their definitions, and the dominance indicator "
     "is the share of the joint non-dominated set that the result contributed, between 0 and 1. None of them changes its inputs.",
     ["inputs"], "every multiset of up to 3-4 solution vectors against every small front on grids of 1-4 objectives",
     "The repository tests no indicator except by one end-to-end value.",
     ["metrics/metrics.py", "metrics/metrics_utils.py", "metrics/epsilon.py"],
     [("indicators", "metrics/metrics.py"), ("distances", "metrics/metrics_utils.py")],
     "bounded-exhaustive enumeration of inputs on the real code against reference formulas", "exploration",
     "Complete within the listed grids, tolerance 1e-9. Average Hausdorff is max(GD, IGD); GD and epsilon are taken over the non-dominated part, IGD over the whole result, as documented in the code.")

prop("C04", "No candidate outside the declared search box is ever evaluated or kept",
     "Whatever values the random generator produces, every candidate an algorithm evaluates, keeps in a population or returns has every "
     "coordinate within the problem's declared bounds, for each algorithm alone and inside the island and hierarchical meta-algorithms; "
     "the shared variation operators map parents in the box to children in the box and leave the parents unchanged.",
     ["inputs", "histories", "configurations"],
     "all sequences of random outcomes with at most one or two extreme deviations from several base streams, over algorithms x problems x initial populations",
     "Tests sample one random stream; violations need rare extreme draws (0, the largest float below 1) at particular places.",
     ["algorithms/base/drivertools.py", "algorithms/*/*.py", "evotools/random_tools.py", "evotools/ea_utils.py", "algorithms/HGS/tools.py"],
     [("bounded polynomial mutation and SBX crossover", "algorithms/base/drivertools.py"),
      ("precision trimming", "algorithms/HGS/tools.py: trim_vector"), ("per-algorithm clamping", "algorithms/OMOPSO, NSLS, JGBL, BOGO")],
     "stateless exploration of the real code: every random draw is a choice point, deviation-bounded; complete DFS for operators", "exploration",
     "Complete up to the deviation bound and per-case execution budget reported in the evidence. Hierarchical search with reduced precision is claimed for boxes containing zero (trimming rounds towards zero).")

prop("C05", "Reported cost equals the candidate evaluations actually made",
     "After construction and after every step, an algorithm's reported cost equals the number of candidates it has evaluated (candidates found in a "
     "supplied evaluation archive are free), it never decreases, and the progress message carries the same value. An island model reports the sum of its islands, "
     "and hierarchical search the cost-weighted sum over its tree nodes.",
     ["histories", "configurations"], "every algorithm, alone and inside the meta-algorithms, with no, empty and prefilled archives, over random outcomes up to the deviation bound",
     "One existing test checks two configurations over one random stream.",
     ["algorithms/*/*.py", "algorithms/HGS/classic/ClassicHGS.py", "algorithms/IMGA/IMGA.py", "algorithms/base/driver.py"],
     [("cost counters", "self.cost in every driver"), ("evaluation archive", "algorithms/HGS/tools.py: ResultArchive"), ("step counting", "algorithms/base/driver.py")],
     "stateless exploration of the real code with logged objective calls as the oracle", "exploration",
     "Complete up to the deviation bound and budgets in the evidence. IBEA re-reads objectives while scaling, so it is held to individuals created; ranking of emigrants and node hypervolumes are not charged by design.")

prop("C06", "Every step terminates and results stay usable, with population sizes kept",
     "From any valid start every step of every algorithm terminates, and the returned result is a non-empty, picklable, repeatable list of vectors of the "
     "problem's length that later steps do not alter and whose request does not disturb. Fixed-size algorithms return exactly as many individuals as they were given, "
     "the islands of an island model share all the individuals, and the supplied initial population is left untouched.",
     ["inputs", "histories", "configurations"], "populations with duplicates, identical individuals, corners, grids; plateau objectives; 0, 1, 3 and 8 steps; extreme random outcomes",
     "Tests run default configurations for a few steps; degenerate populations and extreme draws are never exercised.",
     ["algorithms/*/*.py"], [("selection loops", "algorithms/*/*.py"), ("redistribution over islands", "algorithms/IMGA/IMGA.py")],
     "stateless exploration of the real code with hang detection by choice-point horizon and time", "exploration",
     "Complete up to the deviation bound; populations have at least four individuals. A few algorithms' known degenerate random streams (constant zero for the reference-point method) are outside the enumerated streams.")

prop("C07", "Selection never discards a candidate in favour of one it dominates",
     "In every selection, an algorithm keeps only actual candidates (parents or newly evaluated offspring) and never discards one that dominates a kept one; random search keeps exactly the "
     "non-dominated part of all it evaluated, the swarm's archive is mutually non-dominated, and the hypervolume-based algorithm's population hypervolume never decreases. "
     "For the reference-vector algorithm only the first part (no invented candidates) is claimed.",
     ["inputs", "histories"], "all selections reached over algorithms x problems x start populations x random outcomes up to the deviation bound",
     "No test inspects a selection; the defect shows only on ties, duplicates or particular fronts.",
     ["algorithms/*/*.py", "algorithms/base/hv.py"],
     [("environmental selection", "algorithms/NSGAII, SPEA2, IBEA, SMSEMOA, JGBL, NSLS, NSGAIII"), ("archives", "algorithms/OMOPSO, algorithms/BOGO")],
     "stateless exploration of the real code; invariant checked on every selection of every execution", "exploration",
     "Complete up to the deviation bound and budgets in the evidence.")

prop("C08", "A budget-bound run stores for each budget the first state that reached it",
     "A budget-bound run steps its algorithm until the cost reaches the largest budget and no further. For each budget, exactly one result is stored, named after the budget, holding the "
     "population, the objective values and the cost of the algorithm after the first step at which the cost was at least the budget (the state right after construction is no candidate unless a step was made). "
     "The driver is always shut down and the run reported, and after a failure at any point the already completed budgets stay stored and no other is.",
     ["histories", "crash_points"], "every sequence of step costs from a small alphabet x sets of budgets x failure points",
     "The tests run one smoke budget; which step belongs to which budget depends on the whole cost sequence.",
     ["simulation/worker.py", "simulation/factory.py", "algorithms/base/driver.py", "simulation/serialization.py"],
     [("budget worker", "simulation/worker.py: BudgetWorker"), ("budget loop", "algorithms/base/driver.py: BudgetRun")],
     "stateless exploration of the real runner over all cost sequences, with a scripted driver", "exploration",
     "Complete within the alphabet of costs, length and budgets in the evidence. The driver is scripted (its costs are the input); real drivers' costs are C05.")

prop("C09", "A time-bound run stores each sampling slot's latest finished state once",
     "A time-bound run with sampling interval s and timeout t stores exactly one result for each multiple of s up to t, in increasing order; a slot's result is the state after the last step finished by "
     "that time (or, if no step had finished yet, after the first), with its cost and objective values. The run ends and shuts its driver down whatever the durations; if storing fails, no slot is stored twice or with another step's state.",
     ["schedules", "histories"], "every sequence of step durations from an alphabet x (interval, timeout) x clock overhead",
     "The only related test fails on the pinned commit; slot boundaries depend on real time that a test cannot control.",
     ["simulation/worker.py", "algorithms/base/driver.py"],
     [("slot arithmetic", "algorithms/base/driver.py: TimeRun"), ("time worker", "simulation/worker.py: TimeWorker")],
     "stateless exploration of the real runner under a controlled clock", "exploration",
     "Complete within the alphabet of durations and configurations in the evidence; a slot that coincides with the end of a step may report that step or the one before.")

prop("C10", "A batch runs every simulation exactly once whatever happens to the others",
     "Running a batch executes each requested simulation exactly once, in whatever order the queue was shuffled; a simulation that fails (configuration, construction, any step, result, storing) neither "
     "prevents nor changes the others, whose results are all stored in their own directories, and nothing is stored for one that failed before its first result. Every driver made is shut down.",
     ["schedules", "crash_points", "histories"], "every assignment of failure points to the simulations x every order",
     "No test runs a batch with a failing member.",
     ["simulation/run_parallel.py", "simulation/factory.py", "simulation/model.py"],
     [("worker pool", "simulation/run_parallel.py: run_parallel"), ("directory per simulation", "simulation/model.py")],
     "stateless exploration of the real batch runner: all orders x all failure assignments", "exploration",
     "Complete for batches of 2-3 (thorough 4). The batch is run with one worker job, as the pool's mapping is sequential per worker.")

prop("C11", "A crash or I/O fault never leaves a partial result visible as a result",
     "If the process or machine dies, or any file operation fails, at any point of running, storing or evaluating metrics, then afterwards every result found in the store is complete and equal to one that was stored, "
     "a result whose storing was reported stays there, and the metrics computed later equal those of the results present. A fresh run in the same directory works.",
     ["crash_points", "histories"], "every file-system mutation of every history x {process dies, machine dies, that operation fails, all later ones fail} x torn writes",
     "No test injects a fault; a test would have to hit one of hundreds of operations.",
     ["simulation/serializer.py", "simulation/metrics_processor.py", "simulation/worker.py", "simulation/serialization.py"],
     [("storing a result", "simulation/serializer.py: Serializer.store, save_file"), ("metric cache", "simulation/metrics_processor.py: get_metric"),
      ("non-dominated cache", "simulation/metrics_processor.py: filter_non_dominated_in_cache")],
     "exhaustive crash-point and fault enumeration on the real code below a counting libc shim", "fault_enumeration",
     "Complete for the listed histories. A rename is atomic; unsynced data may be lost whole or by half at a machine crash.")

prop("C12", "What was stored is what is found: every result, once, in order, unchanged",
     "After any history of storing results and of foreign files in the store, the readers find exactly the stored results, each once and under the problem, algorithm, simulation and name it was stored with; loading gives back "
     "the same population, objective values and cost; results of one run come in increasing order of their budget (or time), and runs with results of a budget are grouped with no run shared or missing.",
     ["histories"], "breadth-first over the states of the store up to a depth, and every ordered history up to a smaller one",
     "No test reads back the store.",
     ["simulation/serialization.py", "simulation/serializer.py", "simulation/model.py"], [("traversal", "simulation/serialization.py: ResultsExtractor, each_result"), ("names and files", "simulation/serializer.py: Serializer")],
     "explicit-state breadth-first search; every state reached by the real code and compared with a dictionary model", "model_checking",
     "Complete up to the depth in the evidence over the alphabet of stores and foreign files.")

prop("C13", "Metrics of stored results are those of the results as they are now",
     "Whatever was added, evaluated or removed (as whole simulations) before, each metric of a stored result equals the value computed from the stored results alone: cached values of a single result's metrics are right, and the dominance indicator, which is joint, "
     "is the share in the joint non-dominated set of every algorithm's result of the same problem, run and name present now, and of none other; evaluating changes no result and removes no file of others.",
     ["histories"], "every ordered history of additions with every evaluation pattern between them",
     "No test evaluates metrics twice on a changing store.",
     ["simulation/metrics_processor.py", "simulation/serialization.py", "metrics/metrics.py", "statistic/stats.py"],
     [("cached metrics", "simulation/metrics_processor.py: get_metric"), ("joint set cache", "simulation/metrics_processor.py: preload_results_for_problem, filter_non_dominated_in_cache"), ("statistics", "statistic/stats.py")],
     "exhaustive exploration of operation histories on the real store against an independent computation", "exploration",
     "Complete for histories up to the length in the evidence. A stored result is not changed afterwards.")

prop("C14", "What is run is what was asked for: command line, selection, configuration",
     "A command line runs exactly the simulations selected: every known named algorithm and problem (all if none is named) in every repetition, each with its own directory below the one given, with the budgets or times given. "
     "An algorithm's configuration is the merge of its layers, the more specific one winning, nested algorithms separately; every listed algorithm can be constructed and stepped on every listed problem "
     "with that problem's data. Every command does what its name says with the options given.",
     ["configurations"], "all selections from small alphabets, all subsets of configuration layers, all listed problem-algorithm pairs",
     "Tests call one configuration; the layered lookup has hundreds of combinations.",
     ["evogil.py", "simulation/factory.py", "simulation/run_config.py", "simulation/run_parallel.py"],
     [("selection", "simulation/factory.py: resolve_configuration"), ("layers", "simulation/factory.py: prepare"), ("dispatch", "evogil.py: main_worker")],
     "bounded-exhaustive enumeration of configurations through the real parser and factory", "exploration",
     "Complete within the listed alphabets. Distributed variants are prepared but not started here (C17 drives them).")

prop("C15", "Island migration moves individuals along links, losing and copying none",
     "Islands develop independently for exactly one epoch, then on every link of the topology exactly the configured number of migrants moves from an island to its neighbour and nothing else does: after migration every "
     "individual is on exactly one island, unaltered, and island sizes are kept. The initial population is spread evenly over the islands. The torus topology links each island to existing others only, both ways, to at most four, all reachable. "
     "If an island fails, the step fails and nobody migrates.",
     ["schedules", "inputs", "configurations"], "all torus widths and island numbers up to a bound; all choices of migrants up to the deviation bound; all orders of island work up to a preemption bound",
     "The island tests check only the cost and the number of results for one configuration.",
     ["algorithms/IMGA/IMGA.py", "algorithms/IMGA/topology.py", "algorithms/IMGA/message.py", "algorithms/*/message.py"],
     [("epoch and migration", "algorithms/IMGA/IMGA.py: step, migration, Island"), ("torus", "algorithms/IMGA/topology.py: TorusTopology"),
      ("individuals in and out of a driver", "algorithms/*/message.py: *IMGAMessageAdapter")],
     "exhaustive enumeration of topologies; stateless exploration of the real island model under a controlled scheduler and random source", "exploration",
     "Complete for the topologies listed; migrant choices up to one deviation. Islands hold more individuals than they send away.")

prop("C16", "Hierarchical search grows, stops and revives its nodes by its rules",
     "In each metaepoch every living node makes exactly its level's number of steps and no other node makes any. Then a node is stopped and becomes ripe when its hypervolume gain falls below the required ratio, and is stopped as redundant when its centre "
     "is within its level's distance of an earlier living or a ripe node of its level. A node ripe together with all its ancestors releases sprouts from delegates not close to any node of the next level, at most sproutiveness at a time and max_sprouts_no living; "
     "a sprout starts from its delegate with its level's size and settings. When nothing is alive, the ripe nodes are revived and the required ratios halved. The result is the union of the nodes' populations.",
     ["histories", "configurations"], "all developments of the nodes' populations up to the deviation bound, over tree settings and delegate orders",
     "The one existing test runs a few steps and checks the cost; stopping, sprouting and revival depend on long histories.",
     ["algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/HGS.py", "algorithms/HGS/tools.py"],
     [("metaepoch, trimming, sprouting, revival", "algorithms/HGS/classic/ClassicHGS.py: step"), ("node", "algorithms/HGS/classic/ClassicHGS.py: Node")],
     "exploration of a reference model of the tree with every trace replayed on the real code over scripted node drivers", "model_checking",
     "Every explored model history is executed on the implementation and compared after every metaepoch. Complete up to the deviation bound, depth and budgets in the evidence.")

prop("C17", "Distributed hierarchical search follows its rules under any message order",
     "Whatever the order in which messages between the supervisor and the node actors are delivered, every request to the supervisor is answered exactly once, and the search does what its rules say: living nodes make their level's steps in a metaepoch, the cost grows by the "
     "largest weighted cost of a node, nodes without progress become ripe, redundant ones are stopped, ripe ones release sprouts far from the next level's nodes within sproutiveness and max_sprouts_no, ripe nodes are revived when none is alive, and the result is the "
     "union of the nodes' populations.",
     ["schedules", "histories", "configurations"], "all delivery orders within one and two consecutive requests, every slow channel or actor over the whole history",
     "No test runs the actors; their defects depend on message order.",
     ["algorithms/HGS/distributed/actors.py", "algorithms/HGS/distributed/hgs_tasks.py", "algorithms/HGS/distributed/node_tasks.py", "algorithms/HGS/distributed/DistributedHGS.py"],
     [("supervisor tasks", "algorithms/HGS/distributed/hgs_tasks.py"), ("node tasks", "algorithms/HGS/distributed/node_tasks.py"), ("driver", "algorithms/HGS/distributed/DistributedHGS.py: step")],
     "stateless partial-order exploration of message deliveries between the real actors, histories compared with a reference model", "model_checking",
     "Messages are copied, ordered per pair of actors and delivered once, as the transport guarantees. Orders are complete within the windows and budgets in the evidence. Lost messages and crashed actors are not modelled.")
