EF = [("recovery experiment driver", S + "tools/trials_at_fixed_m_n.py"), ("saving of the table", S + "tools/trials_at_fixed_m_n.py")]
prop("P01", "Saved experiment results survive crashes, kills and disk faults",
     "While a recovery experiment runs, the results file named by the caller always holds a complete, well-formed table "
     "with exactly the finished solver/sparsity levels (each finished level saved before the next one starts), or the content it had before the first level was saved. "
     "A crash, kill, failed or torn write, full disk, exception inside a solver, or power loss at any point never damages, truncates or removes what was saved before: "
     "after it the file is one of the complete tables saved so far, and a restarted experiment works normally.",
     ["crash_points", "fault_sequences", "histories"],
     "every disk operation and solver call of every experiment layout as the crash or fault point, with every way the disk may reorder unsynced data",
     "the tests never run an experiment against a failing disk; the bug class shows only if the process dies inside one particular system call",
     [S + "tools/trials_at_fixed_m_n.py"], EF, ["contents of the results file at every disk step, and every image a power loss may leave"],
     level_note="real driver and pandas writer on a simulated disk; stub solvers; crash/torn/short/ENOSPC/EIO/EDQUOT/EMFILE/kill/power loss at seeded points")
prop("P02", "The experiment table is a truthful ledger of the trials that ran",
     "Each row of a recovery experiment's table reports the problem sizes, sparsity level, number of trials, successes, failures, success rate and minimum, maximum and mean iterations of exactly the trials run for that solver and level, in the requested order, nothing lost, duplicated or carried over. "
     "A trial counts as a success exactly when the answer identifies the signal (recovery SNR above 30 dB and more than 75% of the support), and NaN, wrong or empty answers count as failures. "
     "All solvers at a level get the same problems; every trial poses a distinct signal of exactly the requested sparsity, the requested number of distinct dictionaries is used, and other experiments in the same process do not interfere.",
     ["histories", "fault_sequences", "configurations"],
     "every sequence of solver answers, failures and disk faults over every layout of solvers, levels, dictionaries and signals, alone or next to another experiment",
     "the tests run no experiment with solvers of known behaviour, so no row is ever compared with the trials behind it",
     [S + "tools/trials_at_fixed_m_n.py", S + "tools/performance.py"], EF + [("success criterion", S + "tools/performance.py")],
     ["rows of the results file and the requests received by the simulated solvers"],
     level_note="real driver, generators and performance code; stub solvers answer with planned quality/iterations; disk faults and interleaved experiments")
prop("P03", "Reported run times are elapsed monotonic time of the timed trials",
     "The run time reported for a solver and sparsity level is the time that elapsed on a monotonic clock over that level's trials after the first one (the warm-up): every solver call among them counts in full, whether it computes or waits, and nothing of the warm-up, of other levels or solvers, or of saving the results is included. The mean run time is that divided by the number of timed trials, in milliseconds. "
     "Jumps of the wall clock, processor time and slow disks never change, negate or inflate the figures; a level with a single trial reports no time.",
     ["schedules", "fault_sequences", "histories"],
     "every sequence of call durations, clock jumps, stalls and disk delays",
     "wall time in a test is whatever the machine does; a wrong clock or bracket is invisible unless the clock is controlled",
     [S + "tools/trials_at_fixed_m_n.py"], [("timing of trials", S + "tools/trials_at_fixed_m_n.py")], ["runtime columns of the results file"],
     level_note="simulated clock (monotonic, wall with jumps, CPU time) and disk; real driver; stub solvers consume simulated time")
SOLV = [S + "pursuit", S + "cvx", S + "fom", S + "sls", S + "opt", S + "block", S + "cs/cs1bit", S + "cluster"]
SM = [("greedy pursuits", S + "pursuit"), ("convex solvers", S + "cvx"), ("first order methods", S + "fom"),
      ("sparse linear systems", S + "sls"), ("conjugate gradients, projected gradients", S + "opt")]
prop("P06", "Every iterative solver stops within its budget, whatever the operator answers",
     "Every iterative solver returns or raises after a number of iterations and operator requests bounded by its iteration budget (and by its matrix-product or function-call budget where it has one), and reports no more iterations than the budget allows. "
     "This holds even when the operator, objective, projection or data it works with delivers NaN, infinite, zero, huge, stale, sign-flipped or arbitrary values, once or for ever; without such faults it returns a result instead of raising.",
     ["fault_sequences", "inputs", "configurations"],
     "every solver, problem, budget and sequence of wrong operator answers",
     "tests use well-behaved operators; an inner loop that never ends needs a particular wrong answer at a particular request",
     SOLV, SM, ["iterations of the record, number of requests received by the simulated operator, lines executed"],
     level_note="all solvers run for real (eagerly) against a simulated operator party; bounds per solver on requests and lines")
prop("P07", "Reported operator-application counters equal the applications performed",
     "Solvers which report how often they applied the operator and its adjoint (or evaluated the objective, its gradient and the projection) report exactly the number of applications that happened, in the returned record and in every state shown to a tracker. "
     "This holds wherever the solve stops and whatever the operator answered.",
     ["histories", "fault_sequences", "inputs"],
     "every such solver, problem, budget and sequence of operator answers, at every iteration",
     "no test counts operator applications independently; a missed count in a rarely taken branch (line search failure, tau update) changes nothing else",
     [S + "cvx", S + "sls", S + "opt/spg.py"], [("SPGL1, l1-ls, YALL1 counters", S + "cvx"), ("LSQR counters", S + "sls"), ("SPG counters", S + "opt/spg.py")],
     ["n_times/n_trans (f_calls/g_calls) of records and tracker states against the requests received"],
     level_note="real solvers against a counting operator party, with and without value faults")
prop("P08", "Wherever a solve stops, the record it hands back is self-consistent",
     "At whatever iteration a solver stops, the returned record and every state shown to a tracker describe one and the same iterate: the residual is that of the reported coefficients for the caller's data, reported residual norms or energies, objective values, gradients and operator images belong to it, support and coefficients correspond, have the permitted size and expand to the dense form. "
     "It never mixes quantities of different iterations or scalings.",
     ["histories", "inputs", "configurations"],
     "every solver, problem family, scale, starting point and budget, at every iteration",
     "tests look at the final solution of easy problems after convergence, when stale and current quantities agree",
     SOLV, SM, ["fields of returned records and tracker states, recomputed in double precision from the caller's data"],
     level_note="real solvers; budgets cut the solve at seeded points, eager and compiled loops, options and warm starts; the step to the last iterate checked against the solve cut one iteration earlier; oracle recomputes every quantity in float64")
ALL = [S + d for d in ("lop", "opt", "fom", "sls", "cvx", "pursuit", "dict", "data", "cluster", "block", "cs", "geo", "vision", "problems", "tools")]
AM = [("operators", S + "lop"), ("solvers", S + "cvx"), ("greedy pursuits", S + "pursuit"), ("generators and problems", S + "problems"), ("optimisation tools", S + "opt"),
      ("clustering", S + "cluster")]
prop("P04", "A call's result depends only on its arguments, not on other calls",
     "Every public call (operators, projections, proximal operators, solvers, dictionaries, problem generators, clustering, utilities) gives bit-identical results for the same arguments, whatever calls were made before in the process, in whatever order and with whatever sizes, types and parameters, whether it is compiled already or not, and whatever calls other threads make at the same time. "
     "No call modifies the arrays, operators or options its caller passed, and none changes process-wide state (random generators, jax and numpy configuration, warning filters, environment, standard streams).",
     ["histories", "schedules", "configurations"],
     "every call history over the public API in one process, and every line-level interleaving of calls from several threads",
     "each test makes its calls once, in one order, in one thread; a stale cache, a shared buffer or a mutated default shows only in a particular history or interleaving",
     ALL, AM, ["bits of every result, of the caller's arrays and of process-wide state"],
     level_note="about 235 public calls with about 1300 argument sets in shuffled histories over fresh processes (different hash seeds); threads preempted at library lines, also while they share one operator or function object, with overtaking at every line of it")
prop("P05", "An aborted call reports the abort and leaves nothing behind",
     "When a call is aborted part way, by an exception at any line of the library (keyboard interrupt, out of memory, I/O error, any other), during compilation, or by the caller's operator failing at any request, the caller gets that exception, no further operator requests are made, the caller's data and process-wide state are unchanged, and concurrent calls are not affected. "
     "Repeating the call, or making any other call, then gives the same result as if the abort had never happened.",
     ["crash_points", "schedules", "histories"],
     "every line of every public call and every operator request as the point of the abort",
     "tests never abort a call; half-filled caches, buffers and swallowed exceptions show only after an abort at one particular line",
     ALL, AM, ["exception seen by the caller, results of retries and later calls, caller's data, process-wide state"],
     level_note="seeded abort points over the whole catalogue of calls, eagerly at line granularity, while tracing for compilation, on the first use of a function in a fresh process, on an object kept for later uses, and inside the operator party (of solvers and of other calls taking an operator); retries compared bit by bit, also across processes")
prop("P09", "Trackers see every iteration once, in order, with a marked end, and only observe",
     "A tracker passed to a solver is told of every iteration exactly once, in increasing order and without gaps, eagerly or compiled; every notification but the last says that more will follow, the last one says that it is the last, and its state is the one the solver returns. "
     "A tracker never changes the result; an exception it raises reaches the caller and stops the solve; solves nested in trackers or running in other threads do not mix up their notifications. "
     "The built-in trackers report the iterations and values they were told of, at their documented frequency.",
     ["histories", "schedules", "fault_sequences"],
     "every solver accepting a tracker, problem, budget, point of failure and interleaving",
     "the tests pass trackers to a few solvers and ignore what they are told",
     [S + "tracker.py", S + "pursuit", S + "cvx", S + "sls"], [("built-in trackers", S + "tracker.py"), ("tracker argument of pursuits", S + "pursuit"), ("tracker argument of convex solvers", S + "cvx"), ("tracker argument of LSQR", S + "sls")],
     ["notifications received by the simulated tracker against the returned record"],
     level_note="recording/failing/nested/threaded tracker party, eager and compiled solves, built-in trackers")
prop("P10", "Randomness comes from the caller's key and from nothing else",
     "Every generator (dictionaries, sensing operators, sparse signals, subspaces, points, test problems, randomised clustering and operator tests) is a function of the key and parameters passed: the same key gives bit-identical draws in every process, thread, call order and surrounding (global numpy and python random state, clock, hash seed, environment), and the global random generators are neither consulted nor advanced. "
     "Different keys give different draws in every random part of the result, the items of one batch (columns, blocks, subspaces, points) are separate draws, and a recovery experiment poses the same problems every time it is run.",
     ["histories", "schedules", "configurations"],
     "every keyed call, key, history and surrounding",
     "tests call each generator with one key in one process; dependence on ambient state or reuse of a key changes nothing a test asserts",
     [S + d for d in ("dict", "data", "problems", "lop", "cluster", "tools")],
     [("random dictionaries", S + "dict/simple.py"), ("synthetic data", S + "data/synthetic"), ("problems", S + "problems"), ("experiment seeds", S + "tools/trials_at_fixed_m_n.py")],
     ["bits of every draw under planned surroundings and in other processes"],
     level_note="41 keyed entry points plus the experiment driver, surroundings perturbed before every call, results compared across processes with different hash seeds")
prop("P11", "A smaller iteration budget only cuts the same run short",
     "The iterates of a solve do not depend on its iteration budget: a solve with budget k makes exactly the operator requests, in the same order and with the same vectors, and passes through exactly the same states as the first k iterations of the same solve with a larger budget (besides what it requests once, after the last iteration, to complete the record), and returns the k-th of them. "
     "Once a solve stops by itself in fewer iterations than its budget, any larger budget gives the identical record. This holds for whatever the operator answers.",
     ["histories", "fault_sequences", "inputs"],
     "every solver, problem, pair of budgets and sequence of operator answers",
     "tests run each solver with one budget",
     SOLV, SM, ["operator requests, tracker states and returned records of solves which differ in the budget only"],
     level_note="real solvers against a recording operator party, with and without wrong answers; request logs and records compared bit by bit")
NA = "a mathematical identity of pure functions: no schedule, time, I/O, fault or party for it to depend on, so seeded simulation has nothing to decide"
prop("P20", "Adjoints and operator algebra are exact",
     "For every linear operator and every composition of operators, the inner products of Ax with y and of x with the adjoint applied to y agree, and sums, products, scalings, transposes and concatenations act as the corresponding matrices.",
     ["inputs"], "all operators, shapes and vectors", "tests sample a few shapes", [S + "lop"], [("operator constructors", S + "lop")], na=NA)
prop("P21", "Projections and proximal operators return the true minimiser",
     "Every projection returns the nearest point of its set and every proximal operator the minimiser of its problem.",
     ["inputs"], "all inputs and parameters", "tests sample a few inputs", [S + "opt"], [("projections, prox", S + "opt")], na=NA + " (their termination is part of P06)")
prop("P22", "Sparse recovery succeeds under its theoretical conditions",
     "Under the documented conditions (sparsity, incoherence, noise level) each recovery algorithm returns the true support, and convex solvers meet their optimality conditions at convergence.",
     ["inputs"], "all dictionaries and signals meeting the conditions", "tests sample a few problems", [S + "pursuit", S + "cvx"], [("recovery algorithms", S + "pursuit")],
     na="recovery quality is a function of the input problem alone; nothing a schedule or fault sequence could decide")
prop("P23", "Generated dictionaries, signals and clusters have their declared structure",
     "Generated dictionaries have unit-norm atoms or orthonormal rows as declared, generated signals have the declared sparsity, and clustering recovers well-separated groups.",
     ["inputs"], "all sizes and keys", "tests sample a few sizes", [S + "dict", S + "data", S + "cluster"], [("generators", S + "data")], na=NA)
