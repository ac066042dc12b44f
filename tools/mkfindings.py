#!/usr/bin/env python3
"""regenerates the 'fixed:' part of KNOWN_FINDINGS.txt from /repo's fix: commits (development helper)"""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # (substring of the commit subject, property)
 ("used the decomposition of an earlier run", "C01"),
 ("corr(i,j) was wrong or infinite", "C28"),
 ("geno() of an unbounded, linearly", "C04"), ("geno() of a matrix", "C04"), ("algorithm names", "C29"), ("set_elitism(0)", "C29"),
 ("set_seed()", "C29"), ("stopping criterion could not be switched", "C07"), ("already frozen parameter", "C15"), ("inconsistent order", "C21"),
 ("outdated mean", "C13"), ("numerical gradient step was limited", "C03"), ("re-evaluated candidates", "C03"), ("initial mean of a fixed", "C15"),
 ("far outside of the bounds", "C03"), ("rounding errors let", "C03"), ("vector of initial step sizes", "C01"), ("expected distance to minimum", "C23"),
 ("restarts lost", "C17"), ("BIPOP never ended", "C06"), ("BIPOP started from", "C30"), ("TOLX compared", "C07"), ("starting from a solution ignored", "C30"),
 ("starting from a separable", "C30"), ("evaluated NaN points when", "C22"), ("elitist restart did not start", "C20"), ("surrogate-assisted optimization applied", "C25"),
 ("full output to file", "C27"), ("initial elitism with ask/tell", "C20"), ("elitist restarts with uncertainty", "C06"), ("elitist restarts read", "C06"),
 ("elitist reinjection", "C20"), ("active update could make", "C11"), ("separable update normalised", "C10"), ("twice applied", "C29"),
 ("wrong sign when maximizing", "C23"), ("gradient candidate of VD-CMA", "C23"), ("points of VD-CMA", "C22"), ("numerical gradient evaluated points", "C15"),
 ("re-evaluations of uncertainty handling moved", "C15"), ("multiplied by the smallest", "C29"), ("reinjecting a solution far", "C14"), ("variance of fixed parameters", "C15"), ("no-effect-axis", "C07"),
 ("removing several dimensions", "C24"), ("optimizing with several fixed", "C24"), ("with all parameters fixed", "C24"), ("profile likelihood used", "C24"),
 ("trained with a missing covariance", "C25"), ("target criterion against the user", "C25"), ("ranking SVM shared", "C02"), ("did not rank the candidates of the generation", "C25"),
 ("before having trained", "C25"), ("cmaes() ignored the initial solutions", "C30"), ("get_solution_sepcov", "C31"), ("solution of another flavor", "C30"),
 ("surrogate test error was not measured", "C25"), ("surrogate error over a single point", "C25"), ("looped forever when the population", "C25"), ("without restarts did not run", "C17"),
 ("ignored an initial solutions object of another", "C30"), ("began at a wrongly scaled point", "C30"), ("kept its history length", "C30"),
 ("did not move its mean to the values of fixed", "C30"), ("kept the two-point adaptation state", "C30"), ("kept its direction", "C30"), ("wrote outside of a population of two", "C01"), ("read missing eigenvectors", "C01"), ("kept the candidate positions of an earlier run", "C01"), ("exception thrown by the objective", "C32"), ("quiet runs with max_iter 0 logged", "C33"), ("covariance arrays of the Python", "C31"), ("eigenvalues() of the Python", "C31"), ("parallel evaluation of a Python", "C31"), ("to_params() of the Python", "C31"), ("second profile likelihood", "C24"), ("stored profiles of another level", "C24"), ("printed confidence intervals", "C24"),
]
try:
    from findings_map import EXTRA
    MAP += EXTRA
except ImportError:
    pass
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "0dd17de..HEAD"], capture_output=True, text=True).stdout
p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
known = [l for l in (open(p).read().split("\n") if os.path.exists(p) else []) if l.startswith("known: ")]
with open(p, "w") as f:
    f.write("# known: property=<id> key=<violation key, a regular expression> <what fails>   (reported as KNOWN-FINDING, not as a violation)\n"
            "# fixed: property=<id> <commit in /repo> <what failed>                         (suppresses nothing)\n")
    for l in known:
        f.write(l + "\n")
    for l in out.splitlines():
        h, s = l.split(" ", 1)
        if not s.startswith("fix:"):
            continue
        m = [q for a, q in MAP if a in s]
        assert m, s
        f.write("fixed: property=%s %s %s\n" % (m[-1], h, s[5:]))
