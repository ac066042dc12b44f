ALL = ("api", "gp0", "gp1", "gp2", "gp3")
CHECKS = {}
SURR = (r"SurrogateStrategy<CMAStrategy,(Covariance|ACovariance|VDCMA)Update,GenoPheno<(NoBound|pwqBound)Strategy> *>|"
        r"SurrogateStrategy<(IPOP|BIPOP)CMAStrategy,CovarianceUpdate,GenoPheno<NoBoundStrategy> *>")


def chk(prop, rule, *stages):
    CHECKS[prop] = dict(rule=rule, stages=list(stages))


def st(driver, quick, thorough, variant="plain", **k):
    d = dict(driver=driver, variant=variant, n=dict(quick=quick, thorough=thorough))
    d.update(k)
    return d


chk("C03", "distinct final best points (hash) over bounded configurations", st("c03.cc", 16000, 800000))
chk("C04", "distinct internal points (hash) of user-space points sampled inside, near and on the bounds", st("c04.cc", 8000, 400000))
chk("C05", "distinct (calls, iteration, lambda, algorithm, dimension) tuples at progress notifications", st("c05.cc", 6000, 300000))
chk("C06", "distinct (iteration, evaluations, lambda, algorithm) tuples at which a run was allowed to go on or was ended", st("c06.cc", 6000, 300000))
chk("C07", "distinct (final status, algorithm, iteration, step size)", st("c07.cc", 6000, 200000))
chk("C08", "distinct (best value, iteration) of generations whose candidates were checked against the recorded evaluations", st("c08.cc", 4000, 200000))
chk("C09", "distinct runs (hash of the whole call sequence) that were repeated", st("c09.cc", 4000, 200000))
chk("C10", "distinct (step size, iteration) of generations compared with the independent implementation", st("c10.cc", 4000, 200000))
chk("C11", "distinct (step size, iteration) of generations compared with the independent implementation", st("c11.cc", 4000, 200000))
chk("C12", "distinct (step size, iteration) of generations compared with the independent implementation", st("c12.cc", 3000, 150000))
chk("C13", "distinct (step size, iteration, dimension) states whose sampling distribution was tested", st("c13.cc", 1600, 60000))
chk("C14", "distinct (step size, iteration) of generations whose state was checked", st("c14.cc", 4000, 200000))
chk("C15", "distinct (step size, iteration) of generations with fixed parameters", st("c15.cc", 4000, 200000))
chk("C16", "distinct runs (hash of the whole call sequence) compared with a transformed twin", st("c16.cc", 6000, 300000))
chk("C17", "distinct (population, final step size) of the runs of a restart sequence", st("c17.cc", 4000, 200000))
chk("C18", "distinct (population, initial step size) of the runs of a restart sequence", st("c18.cc", 3000, 150000))
chk("C19", "distinct runs (hash of the whole call sequence) compared with a twin made another way", st("c19.cc", 6000, 300000))
chk("C20", "distinct (step size, iteration, scheme) of generations checked under elitism", st("c20.cc", 6000, 300000))
chk("C21", "distinct (step size, iteration) of generations with re-evaluations", st("c21.cc", 4000, 200000))
chk("C22", "distinct (step size, iteration) of generations with two-point adaptation", st("c22.cc", 4000, 200000))
chk("C23", "distinct (step size, iteration, algorithm) of populations whose gradient candidate was checked", st("c23.cc", 6000, 300000))
chk("C24", "distinct (value, number of held parameters) of partial optimizations, ends of profiled intervals and levels of contour points", st("c24.cc", 3000, 120000))
chk("C25", "distinct (step size, iteration) of generations of surrogate-assisted runs whose training set, ranking and evaluations were checked", st("c25.cc", 1600, 60000, surrogate=SURR))
chk("C26", "distinct predictions of trained ranking SVMs compared with an independent evaluation", st("c26.cc", 6000, 200000))
chk("C27", "distinct (step size, iteration) of lines compared with the state they describe", st("c27.cc", 6000, 150000))
chk("C28", "distinct vectors of reported standard deviations", st("c28.cc", 6000, 150000))
chk("C29", "distinct sequences of settings, runs and first populations", st("c29.cc", 8000, 300000))
chk("C30", "distinct final means of warm-started runs", st("c30.cc", 6000, 150000))
chk("C32", "distinct (failing call, function, state) at which an exception was injected, final states of repeated runs", st("c32.cc", 6000, 200000))
chk("C33", "distinct (status, step size) of runs whose output was captured, (step size, iteration) of logged iterations", st("c33.cc", 6000, 200000))
CRASH = r"(sanitizer|ub|assert|terminate|crash|leak|memcheck|exception)"
# the other drivers again under the address and undefined behaviour sanitizers: here only what these report counts
NASAN = {"c03": 400, "c04": 150, "c05": 250, "c06": 150, "c07": 150, "c08": 250, "c09": 150, "c10": 100, "c11": 100, "c12": 100, "c13": 24, "c14": 150, "c15": 200,
         "c16": 150, "c17": 120, "c18": 80, "c19": 120, "c20": 200, "c21": 150, "c22": 100, "c23": 200, "c24": 48, "c25": 80, "c26": 200, "c27": 150, "c28": 100, "c29": 250, "c30": 150, "c32": 150}
chk("C01", "distinct final states of the runs made under the sanitizers (hostile driver and all of the other checks' drivers)",
    st("c01.cc", 2400, 100000, variant="asan", only=CRASH),
    *[st(d + ".cc", n, n * 40, variant="asan", only=CRASH, **(dict(surrogate=SURR) if d == "c25" else {})) for d, n in sorted(NASAN.items())],
    st("c01.cc", 64, 4000, variant="memcheck", only=CRASH, threads=1))
chk("C02", "distinct interleavings (order in which the threads finished the evaluations of a generation), transformed point sets, SVM predictions",
    st("c02.cc", 4000, 60000),
    st("c02.cc", 800, 20000, variant="tsan", extra=("gomp.cc",)))
PYSURR = r"\bACMSurrogateStrategy<CMAStrategy,CovarianceUpdate,"
chk("C31", "distinct final states of runs made through the Python bindings",
    st("c31.py", 1600, 60000, surrogate=PYSURR, ref="c31ref.cc", threads=4))
