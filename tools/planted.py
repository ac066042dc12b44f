#!/usr/bin/env python3
"""planted.py new ID            take /repo's uncommitted diff as seeded/ID/patch.diff and undo it
   planted.py test ID... [--notest] [--check C03,C04]   confirm a planted bug and run its property's check
(development helper; no check uses it)"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout[-2000:]


def demo(i):
    tmp = "/tmp/demo-%s" % i
    sh("rm -rf %s; cp -r %s/%s %s; rm -f %s/*.diff %s/meta.json" % (tmp, S, i, tmp, tmp, tmp))
    r = sh("timeout 300 bash %s/demo.sh" % tmp, cwd="/repo")
    sh("rm -rf %s" % tmp)
    return r.returncode, (r.stdout + r.stderr)[-400:].strip()


def tests():
    sh("bash /opt/vp/test.sh /tmp/planted.json")
    o = json.load(open("/tmp/planted.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    want = b.get("stable") or b.get("passed") or b.get("tests") or b
    want = set(x if isinstance(x, str) else x.get("id") for x in want)
    return sorted(want - set(o["passed"]))


def main():
    a = sys.argv[1:]
    if a[0] == "new":
        d = os.path.join(S, a[1])
        os.makedirs(d, exist_ok=True)
        r = sh("git -C /repo diff")
        assert r.stdout.strip()
        open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
        sh("git -C /repo checkout -- .")
        return
    ids = [x for x in a[1:] if not x.startswith("--") and not x.startswith("C")]
    checks = None
    if "--check" in a:
        checks = a[a.index("--check") + 1].split(",")
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip()
    clean = {}
    build()
    for i in ids:
        clean[i] = demo(i)
    for i in ids:
        p = os.path.join(S, i, "patch.diff")
        meta = json.load(open(os.path.join(S, i, "meta.json")))
        r = sh("git -C /repo apply %s" % p)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr)
            continue
        try:
            ok, log = build()
            if not ok:
                print(i, "BUILD FAILS", log)
                continue
            dm = demo(i)
            miss = [] if "--notest" in a else tests()
            res = []
            for c in checks or [meta["property"]]:
                t = time.time()
                r = sh("python3 %s/tools/run.py check %s --tier quick" % (ROOT, c), env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                res.append("%s:%s(%.0fs)%s" % (c, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % c in r.stdout else "missed rc=%d" % r.returncode, time.time() - t,
                                           " " + "; ".join(l.strip()[:110] for l in r.stdout.splitlines() if l.startswith("  ") and not l.startswith("  config"))[:250]))
        finally:
            sh("git -C /repo checkout -- .")
        print("%s [%s] demo clean=%s patched=%s tests_missing=%s | %s" % (i, meta["property"], clean[i] if clean[i][0] else 0, dm, miss, " ".join(res)), flush=True)
    build()


main()
