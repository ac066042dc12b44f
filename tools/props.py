"""Text of the properties (source of properties.jsonl and of MANIFEST.json; see mkdocs.py)."""
P = {}


def prop(id, title, statement, over, qtext, why, files, mech, note, technique, observe=(), state=()):
    P[id] = dict(
        line=dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               **({"observe_at": list(observe)} if observe else {}),
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               hook_needed=None)),
        note=note, technique=technique)


OBS = ["objective function calls", "progress function notifications", "ask/eval/tell boundary", "returned solution object"]
FULL = "all algorithm flavours (plain, separable, active, VD; single run, IPOP, BIPOP), with and without bounds and linear scaling"

prop("C03", "The objective is never evaluated outside of the bounds",
     "When a problem has bounds, every point at which the library calls the objective (or the user's gradient) lies inside the box, exactly, with no tolerance. "
     "This covers the candidates, re-evaluated and initial points, numerical-gradient probes and the candidates handed out by ask, and the user-space best point and mean of the result. "
     "The internal-to-user transform maps every finite internal point into the box.",
     "inputs configurations histories", "every objective, box, step size, algorithm, scaling, option combination and every point of a run",
     "Tests run a handful of boxes and compare the optimum found within a tolerance; a point just outside of the box, or one reached only by a re-evaluation or a gradient probe, goes unnoticed.",
     ["src/pwq_bound_strategy.cc", "include/libcmaes/genopheno.h", "src/esostrategy.cc", "src/cmastrategy.cc"],
     [("piecewise linear/quadratic bound transform", "pwq_bound_strategy.cc"), ("scaling then clamping to the box", "genopheno.h"), ("numerical gradient near a bound", "esostrategy.cc")],
     "oracle: box membership of every argument the monitored objective receives", "runtime monitoring of every objective call against the box, over generated configurations", OBS)

prop("C04", "Internal and user space transforms are mutually consistent",
     "Converting user-space points to internal space and back gives the same points for any combination of bounds, linear scaling and custom transforms, and converting a whole population gives the same result as converting its members one by one. "
     "Without bounds the conversion is the documented affine map; with bounds it is the identity (up to scaling) well inside the box, monotone and non-expanding over the feasible region, reaches both bounds, and is periodic and mirrored outside of it. "
     "The points the objective receives are the transforms of the candidates handed out by ask.",
     "inputs configurations", "every finite point, every box, every scaling/shift, every custom affine transform, populations of any size",
     "Unit tests check a few round trips on fixed boxes; populations above the size at which another code path is taken, asymmetric margins and combinations are not reached.",
     ["include/libcmaes/genopheno.h", "src/pwq_bound_strategy.cc", "include/libcmaes/scaling.h", "include/libcmaes/noboundstrategy.h"],
     [("pheno/geno", "genopheno.h"), ("to_f_representation / to_internal_representation", "pwq_bound_strategy.cc"), ("linScalingStrategy", "scaling.h")],
     "oracle: round trips, pointwise versus population conversion, and a closed description of the transform", "runtime monitoring with a reference model of the transforms, inside and outside of runs", ["transform functions", "ask matrices", "objective arguments"])

prop("C05", "Evaluation and iteration counts are exact",
     "Each generation evaluates every candidate exactly once (and re-evaluates at most as many under uncertainty handling), and the reported number of evaluations always equals the number of objective calls really made, including initial values, gradient probes and re-evaluations. "
     "The iteration counter grows by exactly one per generation and the reported population has the population size in force. "
     "The final result reports the counts of the run it comes from.",
     "inputs configurations histories", "every configuration and every generation of every run and restart, serial and multi-threaded",
     "Tests never compare the reported counts with an independent count of the calls; an off-by-one in one option's accounting changes no test result.",
     ["src/esostrategy.cc", "src/cmastrategy.cc", "src/ipopcmastrategy.cc", "src/bipopcmastrategy.cc"],
     [("eval()", "esostrategy.cc"), ("gradf()", "esostrategy.cc"), ("inc_iter / set_nevals", "cmastrategy.cc")],
     "oracle: an independent count and multiset of the calls between notifications", "runtime monitoring: conservation and exactly-once over the recorded call history", OBS)

prop("C06", "Budgets and user interruption end the search",
     "No generation is started once the iteration or evaluation budget in force is used up, a run without budgets ends by itself within the automatic iteration limit, and no more runs are made than the restart settings allow. "
     "A progress function asking to stop ends the current run at once: in a single run without elitist restarts no further objective call and no further notification follow.",
     "inputs configurations histories", "every budget, objective, algorithm and option combination, and every notification at which the user may ask to stop",
     "Tests use generous budgets and never stop a run from the progress function.",
     ["src/cmastrategy.cc", "src/cmastopcriteria.cc", "src/ipopcmastrategy.cc", "src/bipopcmastrategy.cc", "include/libcmaes/esoptimizer.h"],
     [("stop()", "cmastrategy.cc"), ("maximum evaluations/iterations criteria", "cmastopcriteria.cc"), ("restart loops", "ipopcmastrategy.cc, bipopcmastrategy.cc")],
     "oracle: calls and iterations counted by the monitor against the budget; call cap and CPU-time watchdog for runs that never end", "runtime monitoring of budgets over the recorded call history, with injected user interruptions", OBS)

prop("C07", "The termination status is true, complete and honours the switches",
     "When a run ends by itself, its status names a stopping criterion that is switched on and whose documented condition really holds for the final state, and a run never goes on while a switched-on criterion's condition holds. "
     "Each status has its own message, marked as success, partial success or error accordingly, and the return value of the optimizer signals exactly the error statuses; a run ended by the user's progress function has the neutral status.",
     "inputs configurations histories", "every objective, tolerance, target, set of switches and every generation",
     "Tests assert a status on very few runs; a criterion that fires too early, too late or when switched off changes none of them.",
     ["src/cmastopcriteria.cc", "include/libcmaes/cmastopcriteria.h", "src/cmastrategy.cc", "src/cmasolutions.cc"],
     [("criteria list and switches", "cmastopcriteria.cc"), ("stop()", "cmastrategy.cc"), ("histories of best/median values", "cmasolutions.cc")],
     "oracle: each criterion recomputed from the public state and the monitor's own value histories", "runtime monitoring: recomputation of every stopping criterion at every notification", OBS)

prop("C08", "Reported solutions are faithful to what was evaluated",
     "After each generation the candidates are sorted by value and each carries the value the objective returned for its own point; the best candidate is the best of the generation and the best (worst) solution ever seen is the extreme of all values evaluated so far in the run. "
     "The final result is the state of the last generation, its best value was really returned by the objective for its user-space best point, and with maximization the same holds with signs reversed.",
     "inputs configurations histories", "every objective, algorithm, option combination, generation and restart; serial and multi-threaded; minimization and maximization",
     "Tests only check that the final value is close to a known optimum.",
     ["src/cmasolutions.cc", "src/esostrategy.cc", "src/cmastrategy.cc", "include/libcmaes/candidate.h", "include/libcmaes/cmasolutions.h"],
     [("sort_candidates / update_best_candidates", "cmasolutions"), ("eval()", "esostrategy.cc")],
     "oracle: the monitor's own record of (point, value) pairs", "runtime monitoring: offline check of reported solutions against the recorded evaluation history", OBS)

prop("C09", "A given seed reproduces a run exactly",
     "With a non-zero seed, running the same single-threaded problem twice in one process gives bit for bit the same sequence of objective calls and the same result, whatever other optimizations ran before or in between. "
     "Seeds that differ in their lower 32 bits give different runs.",
     "inputs configurations histories", "every objective, seed, algorithm (single runs and IPOP restarts), option combination, and every history of earlier runs in the process; BIPOP and uncertainty handling are time-seeded by design and excluded",
     "Tests never compare two runs, and state leaking between optimizers shows only with particular histories.",
     ["include/libcmaes/eigenmvn.h", "src/cmastrategy.cc", "src/esostrategy.cc", "src/cmaparameters.cc"],
     [("seeded Gaussian sampler", "eigenmvn.h"), ("seed handling", "parameters.h, cmastrategy.cc")],
     "oracle: hash of the whole call sequence and bitwise comparison of results", "runtime monitoring: differential comparison of recorded call histories", OBS)

for _id, _t, _kind, _eq, _files in (
        ("C10", "Plain and separable updates follow the published equations", "plain and separable", "the published CMA-ES and separable CMA-ES equations", ["src/covarianceupdate.cc", "src/cmaparameters.cc", "src/cmastrategy.cc"]),
        ("C11", "Active covariance updates follow the published equations", "active (full and separable)", "the published active CMA-ES equations, with the negative update bounded so that the covariance stays positive definite", ["src/acovarianceupdate.cc", "src/cmaparameters.cc", "src/cmastrategy.cc"]),
        ("C12", "VD updates follow the published equations", "VD", "the published linear-time VD-CMA equations", ["src/vdcmaupdate.cc", "src/cmaparameters.cc", "src/cmastrategy.cc"])):
    prop(_id, _t,
         "For the %s algorithms, after every generation the mean, the step size and the covariance are those that %s give for the candidates of that generation, their ranking and the state before it. "
         "Runs and restarts start from the given point and step size with identity covariance, use the default strategy parameters for their dimension and population size, and the decomposition used for sampling is never older than lazy updating allows." % (_kind, _eq),
         "inputs configurations histories", "every objective, population size, dimension, number of frozen parameters, restart and generation",
         "Tests only see whether some run gets close to an optimum; CMA-ES still converges on easy problems with wrong constants, signs or weights.",
         _files, [("covariance/mean/step-size update", _files[0]), ("strategy parameter defaults", "cmaparameters.cc")],
         "oracle: an independent implementation of the equations, fed with the candidates the library really used; generations where rounding makes the two incomparable are left out and counted",
         "runtime monitoring: online comparison of every generation with a reference model", OBS)

prop("C13", "Candidates are fresh draws from the current Gaussian",
     "The candidates a population consists of are independent draws from the normal distribution with the current mean, step size and covariance (of the last decomposition), apart from the documented special ones: two-point adaptation points, the gradient candidate and coordinates of fixed parameters. "
     "Asking again without telling gives a new population of the same distribution and does not change the state of the search.",
     "inputs configurations histories", "every state a run can reach: dimension, covariance shape, algorithm flavour, population size, fixed parameters, repeated asks",
     "A biased, scaled, rotated or correlated sampler still finds easy optima; tests never look at the distribution.",
     ["include/libcmaes/eigenmvn.h", "src/cmastrategy.cc"],
     [("multivariate normal sampler", "eigenmvn.h"), ("ask()", "cmastrategy.cc")],
     "oracle: thousands of populations asked from one reached state are whitened with the reported state; moments, cross-correlations, lag correlations and a Kolmogorov-Smirnov distance are compared with thresholds far in the tail (below 1e-12 per run)",
     "runtime monitoring: statistical oracle over recorded samples", ["ask matrices", "returned solution object"])

prop("C14", "The search state stays numerically valid",
     "At every generation the step size is finite and positive, the mean and all candidates are finite, and the covariance is finite, symmetric and positive definite with positive variances; its reported eigenvectors are orthonormal, rebuild the covariance used, and agree with the reported extreme eigenvalues. "
     "This holds for objectives with infinite, huge, tiny, flat or badly conditioned values, as long as the step size stays within 1e-100..1e100 and the variances within 1e-60..1e60. "
     "For the VD flavours it holds without reinjected, gradient or re-evaluated candidates.",
     "inputs configurations histories", "every objective returning non-NaN values, algorithm, option combination and generation; the state after the user lets a run continue beyond a failed stopping criterion is included for the non-VD flavours",
     "Breakdowns appear after hundreds of iterations on particular landscapes; tests stop at the first convergence.",
     ["src/covarianceupdate.cc", "src/acovarianceupdate.cc", "src/vdcmaupdate.cc", "src/cmastrategy.cc", "include/libcmaes/eigenmvn.h"],
     [("covariance updates", "covarianceupdate.cc, acovarianceupdate.cc, vdcmaupdate.cc"), ("eigendecomposition", "eigenmvn.h, cmastrategy.cc")],
     "oracle: own eigendecomposition and finiteness checks at each notification", "runtime monitoring: state invariants checked at every generation", OBS)

prop("C15", "Fixed parameters stay fixed and the others are optimized",
     "A parameter fixed at a value keeps that value in every point the objective or gradient receives, in every candidate, the mean and the result; parameters that are not fixed, or were released again, vary and are optimized.",
     "inputs configurations histories", "every subset of fixed parameters, value, transform, algorithm, restart and option (gradient, re-evaluation, elitism, two-point adaptation)",
     "The tests fix one parameter in one run; the paths that build points elsewhere (gradient probes, re-evaluations, restarts, reinjection) are not covered.",
     ["src/cmastrategy.cc", "src/esostrategy.cc", "include/libcmaes/parameters.h", "src/cmasolutions.cc"],
     [("set_fixed_p / unset_fixed_p", "parameters.h"), ("ask()", "cmastrategy.cc"), ("tell()", "cmastrategy.cc")],
     "oracle: coordinates of every recorded call, candidate and mean against the fixed value", "runtime monitoring of every objective call and state", OBS)

prop("C16", "Only the ranking of values and the relative scale of space matter",
     "Applying a strictly increasing transformation to the objective, or maximizing its opposite, leaves the sequence of evaluated points unchanged. "
     "Scaling the problem, its starting point and step size by a power of two, or changing the linear scaling accordingly, scales every evaluated point exactly; translating the problem and its starting point translates the run.",
     "inputs configurations histories", "every objective, order-preserving transformation, power of two, translation, algorithm (except BIPOP) and option that does not itself depend on values (gradients only under scaling of values and maximization; equal-value and target criteria switched off where they look at absolute values)",
     "Tests run each problem in a single form; a dependence on absolute values or absolute scale is invisible without a transformed twin.",
     ["src/cmastrategy.cc", "src/covarianceupdate.cc", "src/cmastopcriteria.cc", "src/esostrategy.cc", "include/libcmaes/scaling.h"],
     [("ranking-based update", "cmastrategy.cc, cmasolutions.cc"), ("sign handling of maximization", "esostrategy.cc"), ("linear scaling", "scaling.h")],
     "oracle: a twin run of the transformed problem, compared call by call", "runtime monitoring: differential (metamorphic) comparison of recorded call histories", OBS)

prop("C17", "IPOP restarts double the population, start afresh and return the best run",
     "An IPOP search makes at most the set number of runs. Each run starts from the initial point, step size and identity covariance with fresh random points, and has exactly twice the population of the one before, constant within the run. "
     "Further runs are started as long as the evaluation budget, counted over all runs, is not used up and the number of runs is not reached. "
     "The result is the complete final state of the run whose final generation had the best value.",
     "inputs configurations histories", "every objective, population, number of runs, budget, option, bounds and point at which runs end (criteria, budgets or the user)",
     "Tests only check that a restarted search finds the optimum; wrong populations, lost best runs and state carried over are not visible in that.",
     ["src/ipopcmastrategy.cc", "src/cmasolutions.cc", "include/libcmaes/esoptimizer.h"],
     [("optimize() / lambda_inc() / reset_search_state()", "ipopcmastrategy.cc")],
     "oracle: a restart-schedule checker over the recorded notifications of all runs", "runtime monitoring: online checker of the restart trace specification", OBS)

prop("C18", "BIPOP alternates its two regimes as specified and returns the best run",
     "A BIPOP search makes the set number of large-population runs; between them it makes small-population runs as long as these have used fewer evaluations than the large ones. "
     "Large runs double the population of the previous large run and use the user's step size and budget; small runs draw their population between the default and half of the current large one, draw their step size independently of it between 0.02 and 2, evenly on a logarithmic scale, and may use half of the large runs' evaluations. "
     "Every run starts afresh and uses the strategy parameters of its own population. The result is the final state of the run with the best final value.",
     "inputs configurations histories", "every objective, population, number of runs, budget and option; all random choices of populations and step sizes",
     "The schedule depends on evaluation counts and random draws; tests only look at the value reached.",
     ["src/bipopcmastrategy.cc", "src/ipopcmastrategy.cc", "src/cmaparameters.cc"],
     [("optimize() / r1() / r2()", "bipopcmastrategy.cc")],
     "oracle: a restart-schedule checker over the recorded notifications of all runs and the reference update equations", "runtime monitoring: online checker of the restart trace specification", OBS)

prop("C19", "All ways of running a problem make the same search",
     "For a given seed the one-call interface, the optimizer object, a user-written ask/evaluate/tell/stop loop, and naming the algorithm by number or by name all make the same sequence of objective calls and give the same result. "
     "Verbosity, output files, custom plot functions, the presence of a progress function, multi-threaded evaluation and an initial function value do not influence the search (an initial value adds exactly one evaluation).",
     "inputs configurations histories schedules", "every objective, seed, option combination and algorithm (except BIPOP and uncertainty handling, which are time-seeded)",
     "Tests use each interface on its own and never compare two of them.",
     ["include/libcmaes/cmaes.h", "include/libcmaes/esoptimizer.h", "src/cmastrategy.cc", "src/esostrategy.cc", "include/libcmaes/cmaparameters.h"],
     [("cmaes() dispatch", "cmaes.h"), ("ask/eval/tell/stop", "cmastrategy.cc"), ("optimize()", "cmastrategy.cc")],
     "oracle: bitwise comparison of two recorded histories and all notified states", "runtime monitoring: differential comparison of recorded call histories and states", OBS)

prop("C20", "Elitism keeps, reinjects or restarts from the best point as specified",
     "With elitism off the population is exactly what was evaluated. With best-seen (initial) elitism, in each generation in which fewer than half of the candidates are better than the reference point, the worst candidate (never a two-point adaptation point) is replaced by the reference with its true value, and otherwise the population is left alone. "
     "With elitist restarts, a run that lost its best point restarts from that point, and only then. The best solution seen never gets worse.",
     "inputs configurations histories", "every objective (including ties), algorithm, option and generation",
     "Reinjection only matters on particular rankings; tests check that elitist runs end near the optimum.",
     ["src/cmastrategy.cc", "src/cmasolutions.cc", "src/esostrategy.cc", "include/libcmaes/cmasolutions.h"],
     [("reinjection in eval/tell", "cmastrategy.cc, esostrategy.cc"), ("elitist restart", "cmastrategy.cc")],
     "oracle: the population expected from the recorded evaluations", "runtime monitoring: population after each generation against the recorded evaluation history", OBS)

prop("C21", "Uncertainty handling re-evaluates, re-ranks and reacts as specified",
     "With uncertainty handling each generation re-evaluates the documented share of the candidates at (nearly) the same points, ranks candidates by the sum of their ranks in both evaluations, keeps the first values as the candidates' values, and increases the step size by the documented factor exactly when the measured rank change exceeds the acceptance threshold. "
     "On a noise-free objective ranking and step size are as without it.",
     "inputs configurations histories", "every objective with additive or multiplicative noise of any level, population, algorithm and generation",
     "The reaction depends on random noise; tests only check that runs end.",
     ["src/esostrategy.cc", "src/cmastrategy.cc", "src/cmasolutions.cc"],
     [("select_candidates_uh / perform_uh / eval_candidates_uh", "esostrategy.cc")],
     "oracle: ranks, order, uncertainty measure and step-size factor recomputed from the recorded evaluations and the reference update", "runtime monitoring: per-generation recomputation from the recorded evaluation history", OBS)

prop("C22", "Two-point adaptation tests the last move and steers the step size by it",
     "With two-point adaptation, from the second generation on, two candidates lie symmetrically around the mean along the last shift of the mean, at a distance distributed like that of the other candidates. "
     "They stay in the population until it is ranked, and the step size changes exactly as their two ranks imply; before the first comparison it does not change.",
     "inputs configurations histories", "every objective, algorithm, population, bounds, fixed parameters, gradient candidate, elitism and generation",
     "Tests only see whether runs with the option still converge.",
     ["src/cmastrategy.cc", "src/covarianceupdate.cc", "src/cmaparameters.cc"],
     [("TPA points in ask()", "cmastrategy.cc"), ("tpa_update()", "cmastrategy.cc")],
     "oracle: geometry of the asked population, length distribution over repeated asks, and the step size recomputed from the ranks", "runtime monitoring of asked populations and of the step size against a reference model", ["ask matrices", "progress function notifications"])

prop("C23", "Gradient candidate and expected distance to the minimum are correct",
     "With gradients switched on, the first candidate is the point one documented step along the natural gradient from the mean, computed from the user's gradient at the mean or from finite differences that move one free parameter at a time next to the mean; a zero gradient is ignored. "
     "For maximization the step is uphill in the user's objective. "
     "The reported expected distance to the minimum is the documented expression at the final mean when requested, and zero otherwise.",
     "inputs configurations histories", "every smooth objective, user or numerical gradient, transform, algorithm, fixed parameters and generation",
     "A wrong sign, scale or transform of the gradient only makes one candidate useless; the search converges all the same.",
     ["src/esostrategy.cc", "src/cmastrategy.cc", "src/errstats.cc", "include/libcmaes/genopheno.h"],
     [("gradf()", "esostrategy.cc"), ("gradient injection in ask()", "cmastrategy.cc"), ("edm()", "esostrategy.cc, cmastrategy.cc")],
     "oracle: the step recomputed from analytic gradients through the transforms, with the finite-difference error bounded", "runtime monitoring of asked populations and results against a reference computation", ["ask matrices", "gradient function calls", "objective function calls", "returned solution object"])

prop("C24", "Partial optimization, profile likelihood and contours are right",
     "Optimizing with some parameters held evaluates the objective only at points where exactly those parameters have exactly the values given, in any order and in either space, varies all the others inside of the bounds, starts from the point given, and returns a full-dimensional result that it evaluated and that minimizes the objective under that restriction. "
     "A profile likelihood reports for each of its points a value that is the minimum over the other parameters, is centred on the best solution, is stored in the solution object (the latest one, printed with its status), and its interval ends where the objective has risen by the requested amount, a direction in which the partial optimizations fail being reported as such; contour points lie around the optimum near that level and reach the ends of both intervals.",
     "inputs configurations", "every objective, dimension, subset and order of held parameters, transform, algorithm and rise",
     "A wrong coordinate is held only for some subsets or orders; tests hold one or two fixed ones.",
     ["src/errstats.cc", "include/libcmaes/errstats.h", "include/libcmaes/cmaparameters.h", "include/libcmaes/genopheno.h", "include/libcmaes/pwq_bound_strategy.h", "include/libcmaes/scaling.h", "src/cmasolutions.cc"],
     [("optimize_vpk / optimize_pk", "errstats.cc"), ("profile_likelihood", "errstats.cc"), ("contour_points", "errstats.cc"), ("reset_as_fixed / remove_dimensions", "cmasolutions.cc, genopheno.h")],
     "oracle: restricted minima of random quadratics in closed form, recorded objective calls", "runtime monitoring of all objective calls and of the reported statistics against closed-form values", OBS)

prop("C25", "Surrogate-assisted runs train on and report true evaluations only",
     "A surrogate-assisted optimization whose surrogate is switched off behaves exactly like the plain optimization. "
     "With a surrogate, every evaluation is counted, every training point and value is a true evaluation of the run, the training set keeps the newest points up to its size, and the model is trained as often as configured. "
     "Generations ranked by the model call the objective only for the points the scheme prescribes, and the result reported is a point that was truly evaluated. "
     "Reported training and test errors are the ranking errors of the model on the points named, and the user's stopping target still applies.",
     "inputs configurations histories", "every objective, algorithm, bounds, surrogate, size of the training set, exploitation settings, and generation",
     "A surrogate that is never trained, or a predicted value taken for an evaluation, still converges on the test functions.",
     ["include/libcmaes/surrogatestrategy.h", "src/surrogatestrategy.cc", "include/libcmaes/surrogates/rsvm_surr_strategy.hpp", "include/libcmaes/surrogatemodel.h", "src/esostrategy.cc"],
     [("SimpleSurrogateStrategy / ACMSurrogateStrategy", "surrogatestrategy.cc"), ("training set handling", "surrogatestrategy.cc"), ("RSVMSurrogateStrategy", "rsvm_surr_strategy.hpp")],
     "oracle: twin run of the plain strategy, recorded evaluations, a recording surrogate, ranking errors recomputed", "runtime monitoring of recorded evaluations and surrogate calls against a trace specification", ["objective function calls", "calls of the surrogate's training and prediction functions", "progress function notifications", "returned solution object"])

prop("C26", "The ranking SVM trains and predicts as specified on any thread count",
     "Training never moves a coefficient outside of its limits, never lowers the dual objective, and after enough iterations leaves nothing that a single further step could still gain. "
     "Predictions are the weighted kernel differences of the training points, in the encoded space when encoding is on; the reported error is the fraction of wrongly ordered pairs. "
     "An untrained model predicts nothing, predicting does not change the model, and neither training nor prediction depends on the number of threads.",
     "inputs configurations schedules", "every training set, kernel, encoding, number of iterations and thread count",
     "Tests train on one data set and look at one error value.",
     ["include/libcmaes/surrogates/rankingsvm.hpp"],
     [("train / optimize", "rankingsvm.hpp"), ("predict / error / encode", "rankingsvm.hpp")],
     "oracle: kernels, dual objective, predictions and errors recomputed independently", "runtime monitoring of the model's state against an independent implementation, over thread counts", ["the model's coefficients and limits after training", "predictions", "errors"])

prop("C27", "The output file has one faithful line per iteration",
     "With an output file set, the file holds exactly one line per iteration that was not ended by the user, in order and over all restarts: the best value, evaluations, step size, axis ratio, eigenvalues, standard deviations, mean in user space and time, as the solution object showed them at that moment, to 15 digits. "
     "The full format adds a header with dimension and seed per run and the best, median and worst values, extreme eigenvalues and best point seen. "
     "A user's own output function is called instead, once per iteration, after the progress function. Writing the file does not change the run.",
     "inputs configurations histories", "every objective, algorithm, transform, option, number of restarts and way of driving the optimizer",
     "The tests write files and never read them; the plotting scripts are the only readers.",
     ["src/cmastrategy.cc", "src/ipopcmastrategy.cc", "src/bipopcmastrategy.cc", "src/surrogatestrategy.cc", "include/libcmaes/esostrategy.h"],
     [("fpfuncdef_impl / fpfuncdef_full_impl", "cmastrategy.cc"), ("plot()", "cmastrategy.cc"), ("set_plot_func", "esostrategy.h")],
     "oracle: the file parsed back and compared with the snapshots taken at the progress notifications; twin run without a file", "runtime monitoring: recorded snapshots against the lines of the file, twin runs", ["progress function notifications", "user's output function", "the file"])

prop("C28", "Reported statistics describe the search distribution",
     "Standard deviations, errors, full covariance, correlations, eigenvalues and eigenvectors, inverse root, user-space mean and best point, the printed summary and the status message all agree with the search distribution and counters of the same moment, for the plain, separable and VD representations alike. "
     "Different accessors of the same quantity agree, and each way of ending is reported by its own message, errors marked as such.",
     "inputs configurations histories", "every algorithm, transform, option combination, generation and way of ending",
     "Tests check one or two of the statistics on one run with the plain algorithm.",
     ["src/cmasolutions.cc", "include/libcmaes/cmasolutions.h", "include/libcmaes/candidate.h", "src/cmastopcriteria.cc"],
     [("stds/errors/corr/full_cov", "cmasolutions.cc, cmasolutions.h"), ("print()", "cmasolutions.cc"), ("status messages", "cmastopcriteria.cc"), ("update_eigenv", "cmasolutions.cc")],
     "oracle: the statistics recomputed from the distribution", "runtime monitoring of every notification's solution object against recomputed statistics", ["progress function notifications", "returned solution object"])

prop("C29", "Settings are kept, independent of each other and of their order",
     "Every setting reads back as it was made, a copy of the parameters does not change with its original, and the order of independent settings, settings made twice, and settings made through copies or other constructors make no difference to the run. "
     "The first population is distributed around the start point asked for with the step size (or vector of step sizes, in user space) asked for; a start asked for as a range is drawn uniformly from it, anew for every optimizer; defaults for population, step size and seed are the documented ones.",
     "inputs configurations histories", "every sequence of setter calls with every value, both constructors, every algorithm and transform",
     "The number of sequences of settings is unbounded; tests make a few settings in one order and look at convergence.",
     ["src/cmaparameters.cc", "include/libcmaes/cmaparameters.h", "include/libcmaes/parameters.h", "src/cmasolutions.cc"],
     [("setters and getters", "parameters.h, cmaparameters.h"), ("initialize_parameters()", "cmaparameters.cc"), ("vector of initial step sizes", "cmaparameters.h")],
     "oracle: a model of the parameters object, twin runs with permuted and repeated settings, moments of the first population", "runtime monitoring of getters after every setter against a model; twin runs", ["getters", "objective function calls", "ask matrices"])

prop("C30", "Starting from an earlier solution continues from its mean and step size",
     "An optimization given the solution of an earlier one starts at its mean and step size with a fresh distribution, zero counters and a population of the size set, and proceeds exactly like a new optimization started at that point with that step size, whatever algorithm made the solution, for ask/tell, optimize and the high-level call, repeatedly. "
     "Fixed parameters take their fixed values; restarts begin at the best point of the solution.",
     "inputs configurations histories", "every pair of algorithms and options of both runs, transform, chain of runs",
     "Tests warm-start one algorithm from itself once.",
     ["include/libcmaes/esoptimizer.h", "include/libcmaes/cmaes.h", "src/esostrategy.cc", "src/cmasolutions.cc", "src/ipopcmastrategy.cc"],
     [("start from solution", "esostrategy.cc"), ("reset of the solution", "cmasolutions.cc"), ("high-level call", "cmaes.h")],
     "oracle: twin of a new run started there; state at the first notification", "runtime monitoring: first-state checks and twin runs over chains of warm starts", OBS)

prop("C01", "No use of the library makes an invalid memory access, undefined result or leak",
     "Whatever the algorithm, dimension, population, transform, options, restarts, gradient, surrogate, output file, warm start or way of driving the optimizer (optimize, ask/eval/tell, fminsurrogate-like use, copies and assignments of parameters, solutions and optimizers), including runs ended by the user at any point, the library makes no invalid, uninitialised, out-of-lifetime or leaking memory access and no undefined arithmetic or conversion.",
     "inputs configurations histories crash_points", "every configuration, sequence of calls, way of ending",
     "The tests run without instrumentation: a read or write out of bounds goes unnoticed unless it crashes.",
     ["src", "include/libcmaes"],
     [("generation loop", "cmastrategy.cc"), ("evaluation, gradient", "esostrategy.cc"), ("distribution", "cmasolutions.cc"), ("surrogate", "surrogatestrategy.cc, rankingsvm.hpp"), ("likelihood profiles and contours", "errstats.cc"), ("transforms", "genopheno.h, pwq_bound_strategy.cc")],
     "oracle: AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer with library assertions on, and valgrind memcheck for uninitialised reads", "AddressSanitizer + UBSan + LeakSanitizer and valgrind memcheck over hostile drivers and over all the drivers of the other properties", ["every memory access"])

prop("C02", "Parallel evaluation gives the serial result, without races, only when asked for",
     "With multithreaded evaluation on, whatever the number of threads and however long each evaluation takes, every candidate is evaluated exactly once with a point that does not change under the call, evaluations are over before the progress, gradient and output functions run, and the whole run (every generation, the result, the counters) is bit for bit that of the serial run. "
     "With it off the objective is only ever called from the calling thread, one call at a time. "
     "Parallel numerical gradients, transforms of many points, and the surrogate's training and prediction give the same values for any number of threads. None of this has a data race.",
     "schedules inputs configurations", "every number of threads, interleaving, evaluation time, algorithm, transform and option",
     "Tests do not use multithreaded evaluation with more than one interleaving, and cannot see a race that happens to be harmless on the day.",
     ["src/esostrategy.cc", "include/libcmaes/genopheno.h", "include/libcmaes/surrogates/rankingsvm.hpp"],
     [("eval()", "esostrategy.cc"), ("gradf()", "esostrategy.cc"), ("pheno/geno of matrices", "genopheno.h"), ("predict / compute_training_kernel / optimize", "rankingsvm.hpp")],
     "oracle: serial twin, lock-free record of every call; ThreadSanitizer over an OpenMP runtime it can see through", "ThreadSanitizer with an own OpenMP runtime (fork/join/barrier visible, random delays) plus online exactly-once and overlap monitors and serial twins", ["every memory access of the parallel regions", "objective function calls with thread and completion order", "progress function notifications"])

prop("C31", "The Python bindings do exactly what the library does",
     "A run made through the Python module or its interface module, with any transform, algorithm and settings, evaluates exactly the points and returns exactly the result, counters, status, distribution and message of the same run made from C++, and writes the same output file when asked for one; settings read back as set, and setting one changes no other that can be read. "
     "Lists and arrays given out hold the right values, belong to the caller and stay valid when the solution is gone. Objective functions in Python may be evaluated in parallel with the same result, their exceptions (and those of surrogate functions) come back as the Python exceptions they were, and the interpreter survives. "
     "Surrogate training and prediction functions in Python receive the evaluated points (as many as asked for) and true matrices, predictions are used as given and only when exploitation is on, and the counters report true evaluations.",
     "inputs configurations schedules crash_points", "every transform, algorithm, setting, failing call, parallel or serial evaluation",
     "The Python tests run three fixed configurations and look at nothing but the absence of an error.",
     ["python/lcmaes.cc", "python/lcmaes_interface.py", "python/py_boost_function.hpp"],
     [("pcmaes / surrpcmaes", "lcmaes.cc"), ("get_solution_cov / sepcov / xmean", "lcmaes.cc"), ("to_params / pcmaes", "lcmaes_interface.py")],
     "oracle: the library driven from C++ with the same settings, bit for bit; records of the Python callbacks", "runtime monitoring of Python callbacks and results against a C++ twin process, with injected exceptions and parallel evaluation", ["Python objective, training and prediction callbacks", "returned objects and arrays"])

prop("C32", "Exceptions of user functions reach the caller and leave the library usable",
     "An exception thrown at any call of the objective, gradient, progress or output function, in serial or parallel evaluation, reaches the caller of optimize, cmaes or eval unchanged; no further call of that function is made in serial evaluation; nothing before it is different. "
     "With ask/eval/tell a failed evaluation can be repeated any number of times and the run goes on exactly as if nothing had failed. A later run is not affected.",
     "crash_points inputs configurations schedules", "every call of every user function, every algorithm, transform and option, one or several threads",
     "Tests have no failing user function.",
     ["src/esostrategy.cc", "include/libcmaes/esoptimizer.h", "src/cmastrategy.cc"],
     [("eval() / gradf()", "esostrategy.cc"), ("optimize()", "esoptimizer.h, cmastrategy.cc")],
     "oracle: undisturbed twin run", "fault injection at chosen calls of user functions with twin-run monitors (and AddressSanitizer/LeakSanitizer in C01)", OBS)

prop("C33", "Quiet runs write nothing, and the log of the others is true",
     "In quiet mode, the default, an optimization writes nothing to the standard output or error, whatever its algorithm, options and way of ending. "
     "Otherwise it logs its dimension, population and step size, one line per iteration with its number, the evaluations so far, the best value and the step size, each restart with its population, and for each run the one criterion it ended on, which is that of its status.",
     "inputs configurations histories", "every algorithm, transform, option, way of running and way of ending, with the default progress function or the user's",
     "Tests never look at what a run prints; which messages appear depends on how runs end and restart.",
     ["src/cmastrategy.cc", "src/cmastopcriteria.cc", "src/ipopcmastrategy.cc", "src/bipopcmastrategy.cc", "include/libcmaes/llogging.h"],
     [("LOG_IF", "llogging.h"), ("default progress function", "cmastrategy.cc"), ("criteria", "cmastopcriteria.cc")],
     "oracle: captured output against the progress notifications and status of the same run and of its twin", "runtime monitoring of everything written to the standard file descriptors against the recorded states", ["standard output and error", "progress function notifications", "returned solution object"])
