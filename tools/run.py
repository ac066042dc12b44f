#!/usr/bin/env python3
"""run.py check <property> [--tier quick|thorough] [--seed N]   run a property's monitors
   run.py replay <file>                                          re-run the case of a replay file
   run.py setup                                                  warm the build cache
Exit 0: held on everything observed (or only known findings); 1: violation or broken build."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

ROOT = B.ROOT
EVID = os.path.join(ROOT, "evidence")
REPLAY = os.path.join(ROOT, "replays")
NSH = 8


def known_findings():
    res = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res


def env_for(variant, opts):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("OMP_") or k.startswith("GOMP_"):
            del e[k]
    e["OMP_NUM_THREADS"] = str(opts.get("threads", 2))
    e["OMP_WAIT_POLICY"] = "passive"
    e["OMP_DYNAMIC"] = "false"
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=1:max_allocation_size_mb=4096" % opts.get("leaks", 1)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:history_size=4:report_signal_unsafe=0:log_path=stderr:suppressions=%s" % os.path.join(ROOT, "tools", "tsan.supp")
    for k, v in opts.get("env", {}).items():
        e[k] = v
    return e


class Acc:
    def __init__(self):
        self.viol = []  # (case, key, detail, cfg, stage)
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.cases = 0
        self.evals = 0
        self.notes = []
        self.lastcfg = ""


def crash_key(stderr):
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|Invalid free|Mismatched free|Source and destination)(.*)", stderr)
    if m:
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (\S+).*?\((\w+\.(?:cc|h|hpp)):\d+\)", stderr[m.start():])
        return "memcheck:%s:%s" % (m.group(1).replace(" ", "-"), fr[0][1] if fr else "unknown")
    m = re.search(r"SUMMARY: (\w+): ([\w-]+) (\S+)", stderr)
    if m:
        loc = os.path.basename(m.group(3).split("(")[0])
        return "sanitizer:%s:%s" % (m.group(2), re.sub(r":\d+(:\d+)?$", "", loc))
    m = re.search(r"([\w./]+):(\d+):\d+: runtime error: (.*)", stderr)
    if m:
        return "ub:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[^a-z]+", "-", m.group(3).lower())[:40])
    m = re.search(r"Assertion [`'](.*?)' failed", stderr)
    if m:
        return "assert:" + re.sub(r"\W+", "-", m.group(1))[:60]
    m = re.search(r"what\(\):\s*(.*)", stderr)
    if m:
        return "terminate:" + re.sub(r"\W+", "-", m.group(1))[:60]
    return None


def parse_out(path, acc, stage):
    last, ended, acc.lastcfg = None, False, ""
    if not os.path.exists(path):
        return None, False
    for l in open(path, errors="replace"):
        f = l.rstrip("\n").split("\t")
        if f[0] == "P" and len(f) > 1:
            last, acc.lastcfg = int(f[1]), ""
        elif f[0] == "K" and len(f) > 1:
            acc.lastcfg = f[1]
        elif f[0] == "V" and len(f) >= 5:
            acc.viol.append((int(f[1]), f[2], f[3], f[4], stage))
        elif f[0] == "C":
            acc.counters[f[1]] = acc.counters.get(f[1], 0) + int(f[2])
        elif f[0] == "D":
            acc.distinct.add(f[1])
        elif f[0] == "S":
            if len(acc.samples) < 12:
                acc.samples.append(f[1])
        elif f[0] == "N":
            acc.cases += int(f[1])
            acc.evals += int(f[2])
        elif f[0] == "E":
            ended = True
    return last, ended


def spec_of(stage):
    return dict(variant=stage.get("variant", "plain"), driver=stage["driver"], surrogate=stage.get("surrogate"),
                units=stage.get("units", ("api", "gp0", "gp1", "gp2", "gp3")), extra=stage.get("extra", ()))


def specs_of(stage):
    """everything a stage needs built: a driver, or for a Python driver the bindings and a reference program"""
    if stage["driver"].endswith(".py"):
        return [dict(variant=stage["variant"], driver="lcmaes.cc", surrogate=stage["surrogate"], pymod=True),
                dict(variant=stage["variant"], driver=stage["ref"])]
    return [spec_of(stage)]


def command_of(stage, exes):
    if stage["driver"].endswith(".py"):
        return ["/usr/bin/python3", os.path.join(B.HARN, stage["driver"]), "--module", os.path.dirname(exes[0]), "--python", os.path.join(B.REPO, "python"), "--ref", exes[1]]
    return [exes[0]]


def run_stage(stage, tier, seed, acc, tmp, deadline):
    """stage: dict(driver, variant, n={quick,thorough}, ...)"""
    variant = stage.get("variant", "plain")
    base = command_of(stage, B.build_many(specs_of(stage)))
    env = env_for(variant, stage)
    n = stage["n"][tier]
    nsh = stage.get("shards", NSH)
    procs = []
    prefix = []
    if variant == "tsan":  # the detector needs a predictable address space; without it (or on an unknown runtime call) it cannot decide
        if shutil.which("setarch") and subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0:
            prefix = ["setarch", "-R"]
        pr = subprocess.run(prefix + base + ["--n", "0"], capture_output=True, text=True, env=env, cwd=tmp)
        if pr.returncode:
            acc.notes.append("the race detector does not start here: " + pr.stderr[-200:].replace("\n", " "))
            return
    if variant == "memcheck":
        prefix = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--leak-check=no",
                  "--suppressions=" + os.path.join(ROOT, "tools", "valgrind.supp")]
    only = stage.get("only")
    nviol = len(acc.viol)

    def start(k, frm):
        out = os.path.join(tmp, "%s-%s-%d-%d.out" % (stage["driver"], variant, k, frm))
        err = os.path.join(tmp, "%s-%s-%d-%d.err" % (stage["driver"], variant, k, frm))
        scr = os.path.join(tmp, "s%d" % k)
        os.makedirs(scr, exist_ok=True)
        cmd = prefix + base + ["--seed", str(seed), "--tier", tier, "--shard", str(k), "--nshard", str(nsh), "--n", str(n),
                        "--from", str(frm), "--out", out, "--scratch", scr]
        e = dict(env)
        if variant == "tsan":
            e["TSAN_OPTIONS"] = e["TSAN_OPTIONS"].replace("log_path=stderr", "log_path=" + out + ".tsan")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(err, "w"), stdin=subprocess.DEVNULL, env=e, cwd=scr)
        return dict(p=p, k=k, out=out, err=err, t=time.time(), cmd=cmd)

    live = [start(k, 0) for k in range(nsh)]
    crashes = 0
    while live:
        for s in list(live):
            rc = s["p"].poll()
            if rc is None:
                if time.time() > deadline:
                    s["p"].kill()
                    s["p"].wait()
                    live.remove(s)
                    parse_out(s["out"], acc, stage)
                    acc.notes.append("stage %s shard %d stopped at the time limit (not counted as a violation)" % (stage["driver"], s["k"]))
                continue
            live.remove(s)
            last, ended = parse_out(s["out"], acc, stage)
            if variant == "tsan":
                for f in glob.glob(s["out"] + ".tsan*"):
                    tsan_reports(open(f, errors="replace").read(), acc, stage)
            if ended and (rc == 0 or (variant == "asan" and "LeakSanitizer has encountered a fatal error" in open(s["err"], errors="replace").read())):
                continue
            if ended and rc == 99 and variant == "asan":  # leak report at exit
                err = open(s["err"], errors="replace").read()
                if "LeakSanitizer has encountered a fatal error" in err:
                    acc.notes.append("leak detection is not possible here")
                    continue
                acc.viol.append((last if last is not None else -1, "leak:" + leak_key(err), err[:1500].replace("\n", " "), "", stage))
                continue
            err = open(s["err"], errors="replace").read()
            if rc != 77:
                if rc == -9:
                    acc.notes.append("stage %s shard %d was killed by the system (not counted as a violation)" % (stage["driver"], s["k"]))
                    continue
                key = crash_key(err) or ("crash:signal%d" % -rc if rc < 0 else "crash:exit%d" % rc)
                acc.viol.append((last if last is not None else -1, key, err[-1500:].replace("\n", " "), acc.lastcfg, stage))
            crashes += 1
            if last is not None and crashes < 12 and last + 1 < n:
                live.append(start(s["k"], last + 1))
        time.sleep(0.02)
    if only:  # this stage decides only on some kinds of violation; the others have a check of their own
        acc.viol[nviol:] = [v for v in acc.viol[nviol:] if re.match(only, v[1])]


def leak_key(err):
    m = re.findall(r"#\d+ \S+ in ([\w:~<>, ]+?)[ (].*?(/repo/\S+?):\d+", err)
    return re.sub(r"\W+", "-", m[0][0])[:50] if m else "unknown"


def tsan_reports(txt, acc, stage):
    for rep in txt.split("=================="):
        if "WARNING: ThreadSanitizer" not in rep:
            continue
        m = re.search(r"SUMMARY: ThreadSanitizer: ([\w -]+?) (\S+) in (.*)", rep)
        key = "tsan:race"
        if m:
            key = "tsan:%s:%s:%s" % (m.group(1).replace(" ", "-"), re.sub(r":\d+(:\d+)?$", "", os.path.basename(m.group(2))), re.sub(r"[^\w:]+", "_", m.group(3))[:60])
        acc.viol.append((-1, key, rep[:2500].replace("\n", " "), "", stage))


def check(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    acc = Acc()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    limit = 820 if tier == "quick" else 6 * 3600
    built = True
    stages = [st for st in spec["stages"] if st["n"].get(tier)]
    try:
        try:
            B.build_many([sp for st in stages for sp in specs_of(st)])
        except B.BuildError as e:
            print("BUILD FAILED: %s" % e)
            built, stages = False, []
        for st in stages:
            try:
                run_stage(st, tier, seed, acc, tmp, t0 + limit)
            except B.BuildError as e:
                print("BUILD FAILED: %s" % e)
                built = False
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if not built:
        return 1
    known = [k for k in known_findings() if k[0] == prop]
    seen_known, new = {}, {}
    for case, key, detail, cfg, st in acc.viol:
        hit = [k for k in known if re.fullmatch(k[1], key)]
        if hit:
            seen_known[hit[0]] = seen_known.get(hit[0], 0) + 1
        else:
            new.setdefault(key, []).append((case, detail, cfg, st))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=acc.evals, distinct_nontrivial=len(acc.distinct), rule=spec["rule"],
                            samples=acc.samples or ["(none)"], cases=acc.cases, monitored_events=acc.counters, notes=acc.notes),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rc = 0
    for key, items in sorted(new.items()):
        os.makedirs(REPLAY, exist_ok=True)
        path = os.path.join(REPLAY, "%s-%s.json" % (prop, re.sub(r"[^\w.-]+", "_", key)[:80]))
        case, detail, cfg, st = items[0]
        with open(path, "w") as f:
            json.dump(dict(property=prop, key=key, case=case, seed=seed, tier=tier, driver=st["driver"], variant=st.get("variant", "plain"),
                           detail=detail, config=cfg, occurrences=len(items)), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s (case %s, %d occurrence(s)): %s" % (key, case, len(items), detail[:600]))
        if cfg:
            print("  config: %s" % cfg[:600])
        rc = 1
    for nme in acc.notes:
        print("NOTE: " + nme)
    print("%s %s seed=%d: %d cases, %d checks evaluated, %d distinct states, %d violation kind(s), %.1fs" %
          (prop, tier, seed, acc.cases, acc.evals, len(acc.distinct), len(new), time.time() - t0))
    B.prune()
    return rc


def replay(path):
    r = json.load(open(path))
    st = [s for s in CHECKS[r["property"]]["stages"] if s["driver"] == r["driver"] and s.get("variant", "plain") == r["variant"]][0]
    base = command_of(st, B.build_many(specs_of(st)))
    scr = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        p = subprocess.run(base + ["--seed", str(r["seed"]), "--tier", r["tier"], "--case", str(r["case"]), "--scratch", scr], env=env_for(r["variant"], st), cwd=scr)
        return p.returncode
    finally:
        shutil.rmtree(scr, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == "replay":
        sys.exit(replay(a[1]))
    if a[0] == "setup":
        B.build_many([sp for spec in CHECKS.values() for st in spec["stages"] for sp in specs_of(st)])
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a[1]
    i = 2
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        i += 2
    sys.exit(check(prop, tier, seed))


if __name__ == "__main__":
    main()
