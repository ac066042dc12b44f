#!/usr/bin/env python3
"""C31: the Python bindings against the library driven from C++ (c31ref), parallel evaluation, exceptions, surrogates, arrays."""
import array, gc, math, os, random, struct, subprocess, sys, threading, types
A = dict(zip(sys.argv[1::2], sys.argv[2::2]))
seed, tier, shard, nshard, n, frm = int(A["--seed"]), A.get("--tier", "quick"), int(A.get("--shard", 0)), int(A.get("--nshard", 1)), int(A.get("--n", 100)), int(A.get("--from", 0))
one = int(A.get("--case", -1))
out = open(A["--out"], "a") if "--out" in A else sys.stdout
scratch = A.get("--scratch", "/tmp")
sys.dont_write_bytecode = True
sys.path[:0] = [A["--module"], A["--python"]]
sys.modules["cma_multiplt"] = types.ModuleType("cma_multiplt")  # plotting needs a display, not used here
import lcmaes
import lcmaes_interface as lci
import numpy as np
ref = subprocess.Popen([A["--ref"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
counters, distinct, samples, evals = {}, set(), [], 0
cur, cfgs, vc = 0, "", {}


def line(*f):
    out.write("\t".join(str(x).replace("\t", " ").replace("\n", " ") for x in f) + "\n")
    out.flush()


def ok(w, k=1):
    global evals
    counters[w] = counters.get(w, 0) + k
    evals += k


def viol(key, detail):
    vc[key] = vc.get(key, 0) + 1
    if vc[key] <= 3:
        line("V", cur, key, str(detail)[:1500], cfgs[:2000])


def chk(c, what, key, detail):
    ok(what)
    if not c:
        viol(key, detail)
    return c


def sphere(x):
    s = 0.0
    for v in x:
        s += v * v
    return s


def shiftq(x):
    s = 0.0
    for i, v in enumerate(x):
        d = v - 1.5 - 0.5 * i
        s += (1 + i) * d * d
    return s + 7


def rot(x):
    s = 0.0
    for i in range(len(x)):
        t = 0.0
        for j in range(i + 1):
            t += x[j] - 0.3
        s += t * t
    return s


def fabsf(x):
    s = 0.0
    for i, v in enumerate(x):
        s += math.fabs(v - 0.1 * i)
    return s


OBJ = {"sphere": sphere, "shiftq": shiftq, "rot": rot, "abs": fabsf, "neg": lambda x: -1000.0 + sphere(x)}
ALGO = ["cmaes", "ipop", "acmaes", "aipop", "sepcmaes", "sepipop", "sepacmaes", "sepaipop", "vdcma", "vdipopcma"]
CODE = dict(cmaes=0, ipop=1, bipop=2, acmaes=3, aipop=4, abipop=5, sepcmaes=6, sepipop=7, sepbipop=8, sepacmaes=9, sepaipop=10, sepabipop=11, vdcma=12, vdipopcma=13, vdbipopcma=14)


def gen(r):
    c = dict(gp=r.randrange(4), obj=r.choice(sorted(OBJ)), seed=r.randrange(1, 10 ** 6), lam=r.choice([-1, -1, r.randrange(5, 30)]))
    algo = r.choice(ALGO)
    n = c["dim"] = r.randrange(7, 11) if algo.startswith("vd") else r.randrange(1, 7)
    c["x0"] = [r.uniform(-3, 3) for _ in range(n)]
    c["sigma"] = r.uniform(0.1, 2)
    c["lb"] = c["ub"] = c["scal"] = c["shift"] = None
    if c["gp"] in (1, 3):
        c["lb"] = [r.uniform(-8, 2) for _ in range(n)]
        c["ub"] = [l + r.uniform(0.5, 10) for l in c["lb"]]
        c["x0"] = [min(max(l + r.random() * (u - l), l), u) for l, u in zip(c["lb"], c["ub"])]
    if c["gp"] == 2:
        c["scal"] = [math.exp(r.uniform(-2, 2)) for _ in range(n)]
        c["shift"] = [r.uniform(-2, 2) for _ in range(n)]
    ops = [("quiet", True), ("str_algo", algo), ("max_iter", r.randrange(2, 25))]
    if r.random() < 0.3:
        ops.append(("max_fevals", r.randrange(10, 600)))
    if r.random() < 0.2:
        ops.append(("ftarget", r.choice([1e-3, 1.0, 7.5, -999.0])))
        if r.random() < 0.3:
            ops.append(("reset_ftarget", None))
    if r.random() < 0.3:
        ops.append(("ftolerance", 10 ** r.uniform(-12, -2)))
    if r.random() < 0.3:
        ops.append(("xtolerance", 10 ** r.uniform(-12, -2)))
    if r.random() < 0.3:
        ops.append(("tpa", r.choice([0, 2])))
    if r.random() < 0.2 and not algo.startswith("vd"):
        ops.append(("gradient", True))
    if r.random() < 0.2:
        ops.append(("edm", True))
    if r.random() < 0.5:
        ops.append(("restarts", r.randrange(1, 3)))
    if r.random() < 0.15 and n > 1:
        for i in r.sample(range(n), r.randrange(1, n)):
            ops.append(("fixed_p", (i, c["x0"][i])))
            if r.random() < 0.2:
                ops.append(("unfixed_p", i))
    if r.random() < 0.1 and algo in ("cmaes", "ipop"):
        ops.insert(2, ("sep", None))
    if r.random() < 0.1 and not algo.startswith("vd"):
        ops.append(("noisy", None))
    if r.random() < 0.3:
        ops.append(("seed", r.randrange(1, 10 ** 6)))
    if r.random() < 0.25:
        ops.append(("fplot", os.path.join(scratch, "trace.dat")))
        if r.random() < 0.4:
            ops.append(("full_fplot", True))
    c["ops"] = ops
    return c


def apply(p, ops):
    for k, v in ops:
        if k == "unfixed_p":
            p.unset_fixed_p(v)
        elif k == "reset_ftarget":
            p.reset_ftarget()
        elif v is None:
            getattr(p, "set_" + k)()
        elif isinstance(v, tuple):
            getattr(p, "set_" + k)(*v)
        else:
            getattr(p, "set_" + k)(v)


def make(c, interface):
    """the parameters object, by the module's functions or by the interface module"""
    gp = None
    if interface:
        kw = {}
        ops = list(c["ops"])
        algo = dict(ops)["str_algo"]
        if c["gp"] in (1, 3):
            kw.update(lbounds=c["lb"], ubounds=c["ub"], scaling=c["gp"] == 3)
        if c["gp"] == 2:
            kw.update(vscaling=c["scal"], vshift=c["shift"])
        first = {k: v for k, v in ops if k in ("quiet", "max_iter", "tpa", "edm", "fplot")}
        first.setdefault("fplot", False)
        p = lci.to_params(c["x0"], c["sigma"], str_algo=algo, seed=c["seed"], **kw, **first)
        apply(p, [o for o in ops if o[0] not in first and o[0] != "str_algo"])
        return p, gp
    lam, sd = c["lam"], c["seed"]
    if c["gp"] == 0:
        p = lcmaes.make_simple_parameters(c["x0"], c["sigma"], lam, sd)
    elif c["gp"] == 1:
        gp = lcmaes.make_genopheno_pwqb(c["lb"], c["ub"], c["dim"])
        p = lcmaes.make_parameters_pwqb(c["x0"], c["sigma"], gp, lam, sd)
    elif c["gp"] == 2:
        gp = lcmaes.make_genopheno_ls(c["scal"], c["shift"])
        p = lcmaes.make_parameters_ls(c["x0"], c["sigma"], gp, lam, sd)
    else:
        gp = lcmaes.make_genopheno_pwqb_ls(c["lb"], c["ub"], c["dim"])
        p = lcmaes.make_parameters_pwqb_ls(c["x0"], c["sigma"], gp, lam, sd)
    apply(p, c["ops"])
    return p, gp


def run(c, p, f, interface):
    ff = lci.to_fitfunc(lambda x: f(x, len(x))) if interface else lcmaes.fitfunc_pbf.from_callable(f)
    if interface:
        return lci.pcmaes(ff, p)
    return [lcmaes.pcmaes, lcmaes.pcmaes_pwqb, lcmaes.pcmaes_ls, lcmaes.pcmaes_pwqb_ls][c["gp"]](ff, p)


def cxx(c, interface):
    """the same, by the C++ library"""
    d = dict(obj=c["obj"], dim=c["dim"], lam=-1 if interface else c["lam"], sigma=c["sigma"].hex(), seed=c["seed"], gp=c["gp"])
    f = os.path.join(scratch, "calls.bin")
    t = ["calls=" + f, "obj=" + c["obj"], "dim=%d" % c["dim"], "lambda=%d" % d["lam"], "sigma=" + c["sigma"].hex(), "seed=%d" % c["seed"], "gp=%d" % c["gp"]]
    for k in ("x0", "lb", "ub", "scal", "shift"):
        if c[k]:
            t.append(k + "=" + ",".join(float(v).hex() for v in c[k]))
    o = []
    for k, v in c["ops"]:
        if v is None:
            o.append(k)
        elif isinstance(v, tuple):
            o.append("%s:%d:%s" % (k, v[0], float(v[1]).hex()))
        elif isinstance(v, str):
            o.append(k + ":" + v)
        else:
            o.append("%s:%s" % (k, float(v).hex()))
    t.append("ops=" + ";".join(o))
    ref.stdin.write("\t".join(t) + "\n")
    ref.stdin.flush()
    l = ref.stdout.readline()
    if not l:
        return None
    r = {}
    for kv in l.rstrip("\n").split("\t"):
        k, v = kv.split("=", 1)
        r[k] = v if k == "msg" else [float.fromhex(x) for x in v.split(",")] if ("x" in v or "," in v or "inf" in v or "nan" in v) else int(v) if v.lstrip("-").isdigit() else v
    for k in ("xmean", "best", "cov", "sepcov", "eig", "pheno"):
        r[k] = r[k] if isinstance(r[k], list) else []
    r["calls"] = open(f, "rb").read()
    return r


def eq(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


def state(s):
    b = s.best_candidate()
    return (s.niter(), s.fevals(), s.run_status(), s.size(), s.sigma(), tuple(lcmaes.get_solution_xmean(s)), tuple(lcmaes.get_candidate_x(b)), b.get_fvalue())


def trace(c):
    """the file written, without its times; None if there is none"""
    f = os.path.join(scratch, "trace.dat")
    if not os.path.exists(f):
        return None
    n, rows = c["dim"], []
    for l in open(f):
        w = l.split()
        if w:
            rows.append((w[0], w[1], "header") if "/" in w else (tuple(w[:9 + 4 * n]) if "full_fplot" in dict(c["ops"]) else tuple(w[:4 + 3 * n])))
    os.unlink(f)
    return rows


GET = dict(max_iter="get_max_iter", ftarget="get_ftarget", seed="get_seed", ftolerance="get_ftolerance", xtolerance="get_xtolerance", quiet="quiet", fplot="get_fplot", gradient="get_gradient", edm="get_edm",
           mt_feval="get_mt_feval", uh="get_uh", tpa="get_tpa", algo="get_algo", lambda_="lambda_", dim="dim")


def settings(r, c):
    """any sequence of settings: each changes what it names and nothing else that can be read"""
    p, gp = make(dict(c, ops=[("quiet", True)]), False)
    have = {k: getattr(p, g)() for k, g in GET.items()}
    for fp, g in ((False, ""), ("", ""), (None, "kept"), (True, "kept"), ("other", "other"), (None, "other")):
        lci.fplot_current = "kept" if g != "other" else lci.fplot_current
        q = lci.to_params(c["x0"], c["sigma"], fplot=fp, ftarget=1e-7, max_iter=7)
        chk((q.get_fplot(), q.get_ftarget(), q.get_max_iter(), q.get_algo()) == (g, 1e-7, 7, CODE["acmaes"]), "settings", "setting:to_params", "fplot=%r: %s" % (fp, (q.get_fplot(), q.get_ftarget(), q.get_max_iter(), q.get_algo())))
    try:
        lci.to_params(c["x0"], c["sigma"], no_such_setting=1)
        viol("setting:unknown", "an unknown setting is accepted")
    except ValueError:
        ok("settings")
    chk(have["dim"] == c["dim"] and (c["lam"] < 0 or have["lambda_"] == c["lam"]) and have["seed"] == c["seed"], "settings", "setting:constructor", have)
    for _ in range(r.randrange(5, 40)):
        k = r.choice(["max_iter", "ftarget", "reset_ftarget", "seed", "ftolerance", "xtolerance", "quiet", "fplot", "gradient", "edm", "mt_feval", "uh", "tpa", "algo", "max_fevals", "restarts", "full_fplot", "fixed_p", "unset_fixed_p", "noisy"])
        v = dict(max_iter=r.randrange(1, 10 ** 6), ftarget=r.choice([-1, 1]) * math.exp(r.uniform(-30, 30)), seed=r.randrange(1, 2 ** 31), ftolerance=10 ** r.uniform(-300, 3), xtolerance=10 ** r.uniform(-300, 3), fplot="f%d" % r.randrange(1000), tpa=r.randrange(3),
                 algo=r.choice(sorted(CODE)), max_fevals=r.randrange(1, 10 ** 6), restarts=r.randrange(0, 10)).get(k, r.random() < 0.5)
        if k == "reset_ftarget":
            p.reset_ftarget()
            have["ftarget"] = -math.inf
        elif k == "algo":
            p.set_str_algo(v)
            have["algo"] = CODE[v]
        elif k == "fixed_p":
            p.set_fixed_p(r.randrange(c["dim"]), r.uniform(-1, 1))
        elif k == "unset_fixed_p":
            p.unset_fixed_p(r.randrange(c["dim"]))
        elif k == "noisy":
            p.set_noisy()
        else:
            getattr(p, "set_" + k)(v)
            if k in have:
                have[k] = v
        now = {k: getattr(p, g)() for k, g in GET.items()}
        bad = {q: (now[q], have[q]) for q in now if now[q] != have[q]}
        if k in ("gradient", "algo", "noisy"):  # may have a say in two-point adaptation, noise in the population
            have["tpa"] = now["tpa"]
            have["lambda_"] = now["lambda_"] if k == "noisy" else have["lambda_"]
            bad = {q: v for q, v in bad.items() if now[q] != have[q]}
        if not chk(not bad, "settings", "setting:" + k, "after setting %s to %s: %s (read, expected)" % (k, v, bad)):
            return
    distinct.add(hash(str(have)) & (2 ** 64 - 1))
    counters["setting_sequences"] = counters.get("setting_sequences", 0) + 1


def twin(r, c):
    interface = r.random() < 0.4
    f = OBJ[c["obj"]]
    calls = array.array("d")
    bad = []

    def fit(x, n):
        if n != len(x) or any(type(v) is not float for v in x):
            bad.append(x)
        calls.extend(x)
        v = f(x)
        x[:] = [7e77] * n  # what the objective does to its argument is its own business
        return v
    trace(c)  # of another run
    p, gp = make(c, interface)
    s = run(c, p, fit, interface)
    t1 = trace(c)
    w = cxx(c, interface)
    t2 = trace(c)
    if w is None:
        return
    chk(t1 == t2 and (t1 is None) == ("fplot" not in dict(c["ops"])), "traces", "differs:trace", "%s from Python, %s from C++" % (t1 and t1[-1:], t2 and t2[-1:]))
    chk(not bad, "argument", "argument", bad[:1])
    ok("calls_compared", len(calls) // c["dim"])
    if calls.tobytes() != w["calls"]:
        viol("calls-differ", "%d calls from Python, %d from C++, or other points" % (len(calls) // c["dim"], len(w["calls"]) // 8 // c["dim"]))
        return
    for k, v in (("niter", s.niter()), ("fevals", s.fevals()), ("status", s.run_status()), ("size", s.size()), ("lambda", p.lambda_()), ("dim", p.dim()), ("algo", p.get_algo())):
        chk(v == w[k], "numbers", "differs:" + k, "%s from Python, %s from C++" % (v, w[k]))
    chk(w["algo"] == CODE[dict(c["ops"])["str_algo"]], "numbers", "algo-code", w["algo"])
    chk(s.run_status_msg() == w["msg"], "message", "differs:message", "%s / %s" % (s.run_status_msg(), w["msg"]))
    b = s.best_candidate()
    for k, v in (("sigma", [s.sigma()]), ("edm", [s.edm()]), ("mineig", [s.min_eigenv()]), ("maxeig", [s.max_eigenv()]), ("fbest", [b.get_fvalue()]),
                 ("xmean", lcmaes.get_solution_xmean(s)), ("best", lcmaes.get_candidate_x(b)), ("eig", s.eigenvalues())):
        chk(eq(v, w[k]), "values", "differs:" + k, "%s from Python, %s from C++" % (v, w[k]))
    if c["gp"] == 1 and gp is not None:
        chk(eq(lcmaes.get_best_candidate_pheno(s, gp), w["pheno"]), "user_space_best", "differs:pheno", lcmaes.get_best_candidate_pheno(s, gp))
    # arrays: right, their own, alive after the solution is gone
    arrs = []
    for k, g, shape in (("cov", lcmaes.get_solution_cov, (c["dim"], c["dim"])), ("sepcov", lcmaes.get_solution_sepcov, (c["dim"],))):
        a = g(s)
        want = w[k]
        if want:
            chk(a.shape == shape and eq(a.flatten(order="F"), want), "arrays", "differs:" + k, "shape %s, %s from Python, %s from C++" % (a.shape, a, want))
            keep = np.array(a)
            a2 = g(s)
            a2 += 1.0
            chk(eq(g(s).flatten(order="F"), want), "array_own_memory", "array-shared:" + k, "writing to the returned array changes the solution")
            arrs.append((k, a, keep))
        else:
            chk(a.size == 0, "arrays_empty", "garbage:" + k, "a solution without this matrix gave %s" % (a,))
    st = state(s)
    del s, b
    gc.collect()
    junk = [np.full(c["dim"] ** 2, 3.0) for _ in range(50)] + [np.full(c["dim"], 3.0) for _ in range(50)]
    for k, a, keep in arrs:
        chk(eq(a.flatten(), keep.flatten()), "array_lifetime", "array-dangling:" + k, "the array changed when its solution object went away")
    del junk
    # settings read back
    for k, v in {k: v for k, v in c["ops"]}.items():
        g = {"max_iter": "get_max_iter", "ftolerance": "get_ftolerance", "xtolerance": "get_xtolerance", "tpa": "get_tpa", "gradient": "get_gradient", "edm": "get_edm", "quiet": "quiet", "seed": "get_seed"}.get(k)
        if g:
            chk(getattr(p, g)() == v, "settings", "setting:" + k, "%s, set to %s" % (getattr(p, g)(), v))
    distinct.add(hash(st) & (2 ** 64 - 1))
    counters["interface_module" if interface else "raw_module"] = counters.get("interface_module" if interface else "raw_module", 0) + 1
    if len(samples) < 4:
        samples.append(str(dict(c, interface=interface, result=st))[:400])


def mt(r, c):
    f = OBJ[c["obj"]]
    res = []
    tids = set()
    for par in (False, True):
        p, gp = make(c, False)
        p.set_mt_feval(par)
        calls = []

        def fit(x, n):
            calls.append(tuple(x))
            if par:
                tids.add(threading.get_ident())
            return f(x)
        s = run(c, p, fit, False)
        res.append((state(s), sorted(calls)))
        chk(p.get_mt_feval() == par, "settings", "setting:mt_feval", par)
    chk(res[0] == res[1], "parallel_equals_serial", "parallel-differs", "%s / %s" % (res[0][0], res[1][0]))
    counters["threads_seen"] = counters.get("threads_seen", 0) + len(tids)
    distinct.add(hash(res[1][0]) & (2 ** 64 - 1))


class Boom(Exception):
    pass


def exc(r, c):
    f = OBJ[c["obj"]]
    k = r.choice([1, r.randrange(1, 10), r.randrange(1, 200)])
    par = r.random() < 0.3
    kind = r.randrange(3)
    cnt = [0]

    def fit(x, n):
        cnt[0] += 1
        if cnt[0] == k:
            if kind == 0:
                raise Boom("call %d" % k)
            if kind == 1:
                return "not a number"
            return {}[x[0]]
        return f(x)
    p, gp = make(c, False)
    p.set_mt_feval(par)
    got = None
    try:
        s = run(c, p, fit, False)
    except Boom as e:
        got = ("boom", str(e))
    except TypeError as e:
        got = ("type", "")
    except KeyError as e:
        got = ("key", "")
    except BaseException as e:
        got = (type(e).__name__, str(e))
    if cnt[0] >= k:
        want = [("boom", "call %d" % k), ("type", ""), ("key", "")][kind]
        chk(got == want, "exceptions", "exception", "the objective's exception came back as %s instead of %s" % (got, want))
        if not par:
            chk(cnt[0] == k, "stops_at_exception", "exception-goes-on", "%d calls, the one that failed was %d" % (cnt[0], k))
    else:
        chk(got is None, "exceptions", "exception-invented", got)
    # and the next run is as if nothing had happened
    c2 = dict(c)
    twin(r, c2)


def surr(r, c):
    c = dict(c, ops=[o for o in c["ops"] if o[0] in ("quiet", "max_fevals")] + [("str_algo", r.choice(["cmaes", "cmaes", "sepcmaes"])), ("max_iter", r.randrange(2, 12))])
    n, f = c["dim"], OBJ[c["obj"]]
    rec, log = {}, dict(train=0, predict=0)
    l = r.randrange(5, 40)
    raises = r.random() < 0.1
    exploit = r.random() < 0.6
    big, want = [0], []

    def fit(x, m):
        v = f(x)
        if want:
            chk(list(x) == want.pop(), "best_predicted_first", "surrogate-prediction", "evaluated %s after predictions that favour another" % list(x))
        rec.setdefault(v, []).append(tuple(x))
        log["calls"] = log.get("calls", 0) + 1
        return v
    p, gp = make(c, False)

    def train(cs, m):
        log["train"] += 1
        m = np.array(m)
        if m.shape not in ((n, n), (n, 1)) or not np.isfinite(m).all():
            viol("surrogate-matrix", "the training function was given a matrix of shape %s" % (m.shape,))
        chk(len(cs) == l, "training_sets", "surrogate-l", "trained on %d points, l is %d" % (len(cs), l))
        if raises and log["train"] == 2:
            raise Boom("train")
        for q in cs:
            ok("training_points")
            if q.get_fvalue() not in rec or len(lcmaes.get_candidate_x(q)) != n:
                viol("surrogate-training-point", "a training point has value %r, which no evaluation returned" % q.get_fvalue())
                break
        return 0

    def predict(cs, m):
        log["predict"] += 1
        ok("predictions", len(cs))
        big[0] = max(big[0], len(cs))
        m = []
        for q in cs:
            q.set_fvalue(sum((v - 0.1) ** 2 for v in lcmaes.get_candidate_x(q)))
            m.append((q.get_fvalue(), lcmaes.get_candidate_x(q)))
        if exploit and c["gp"] == 0 and len(cs) > max(l, p.lambda_()):  # the sample to choose from: the best predicted is evaluated first
            m.sort()
            want[:] = [m[0][1]] if m[0][0] < m[1][0] else []
        return 0
    fn = [lcmaes.surrpcmaes, lcmaes.surrpcmaes_pwqb, lcmaes.surrpcmaes_ls, lcmaes.surrpcmaes_pwqb_ls][c["gp"]]
    try:
        s = fn(lcmaes.fitfunc_pbf.from_callable(fit), lcmaes.csurrfunc_pbf.from_callable(train), lcmaes.surrfunc_pbf.from_callable(predict), p, exploit, l)
    except Boom:
        chk(raises, "exceptions", "exception-invented", "surrogate")
        return
    chk(not (raises and log["train"] >= 2), "exceptions", "exception-lost", "the training function's exception did not come back")
    chk(s.fevals() == log.get("calls", 0), "surrogate_fevals", "surrogate-fevals", "%d reported, %d made" % (s.fevals(), log.get("calls", 0)))
    lam = p.lambda_()
    if not exploit:
        chk(log.get("calls", 0) % lam == 0 and big[0] <= max(l, lam), "surrogate_not_exploited", "surrogate-exploit", "exploit is off, %d evaluations with a population of %d, up to %d points predicted at once" % (log.get("calls", 0), lam, big[0]))
    elif log["train"] > 1:
        chk(big[0] > max(l, lam), "surrogate_exploited", "surrogate-exploit", "exploit is on, trained %d times, at most %d points predicted at once" % (log["train"], big[0]))
    counters["surrogate_runs"] = counters.get("surrogate_runs", 0) + 1
    counters["surrogate_predict_calls"] = counters.get("surrogate_predict_calls", 0) + log["predict"]
    distinct.add(hash(state(s)) & (2 ** 64 - 1))


def case(r):
    global cfgs
    c = gen(r)
    cfgs = str(c)
    line("K", cfgs)
    k = r.random()
    if k < 0.1:
        settings(r, c)
    elif k < 0.6:
        twin(r, c)
    elif k < 0.72:
        mt(r, c)
    elif k < 0.88:
        exc(r, c)
    else:
        surr(r, c)


done = 0
for k in ([one] if one >= 0 else range(frm, n)):
    if one < 0 and k % nshard != shard:
        continue
    cur = k
    line("P", k)
    try:
        case(random.Random(seed * 1000003 + k))
    except Exception as e:
        viol("unexpected:" + type(e).__name__, repr(e))
    done += 1
for k, v in counters.items():
    line("C", k, v)
for h in distinct:
    line("D", "%016x" % h)
for s in samples:
    line("S", s)
line("N", done, evals)
line("E")
out.flush()
os._exit(0)
