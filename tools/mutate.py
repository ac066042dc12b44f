#!/usr/bin/env python3
"""Mutation survey (development aid, not part of any check): mutates a scratch copy of /repo and reports which
mutants no quick check notices.   mutate.py N SEED [file regex] [--out FILE]
Needs a copy of /repo in $VERIF_REPO (not /repo itself) and its own $VERIF_BUILD."""
import os, random, re, subprocess, sys, time, glob, json, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import run as R
from checks import CHECKS
assert B.REPO != "/repo"
SKIP = re.compile(r"^\s*(//|\*|/\*|#|LOG|std::cerr|std::cout)|HAVE_DEBUG|static_assert|^\s*template|^\s*typedef|^\s*\\|EASYLOG|^\s*$|CMAES_EXPORT|^\s*using |^\s*friend|operator")
FILES = [f for f in glob.glob(B.REPO + "/src/*.cc") + glob.glob(B.REPO + "/include/libcmaes/*.h") + glob.glob(B.REPO + "/include/libcmaes/surrogates/*.hpp")
         if not re.search(r"llogging|libcmaes_config|eo_matrix|surrcmaes|surrogates/rsvm", f)]
def variants(l):
    out = []
    def sub(rx, rep):
        for m in re.finditer(rx, l):
            out.append(l[:m.start()] + (rep(m) if callable(rep) else rep) + l[m.end():])
    code = l.split("//")[0]
    if "<<" in code or ">>" in code: return []
    if not re.search(r"template|<\w+(,\w+)*>|->|std::(vector|pair|map|numeric|function)<|Eigen::\w+<", code):
        sub(r"(?<![<>=!-])<(?![<=])", "<="); sub(r"(?<![<>=-])>(?![>=])", ">=")
    sub(r"<=", "<"); sub(r">=", ">"); sub(r"==", "!="); sub(r"!=", "==")
    sub(r"&&", "||"); sub(r"\|\|", "&&")
    sub(r"(?<=[\w)\]])\s*\+(?![+=])\s*(?=[\w(])", " - "); sub(r"(?<=[\w)\]])\s*-(?![-=>])\s*(?=[\w(])", " + ")
    sub(r"(?<=[\w)\]])\s*\*\s*(?=[\w(])(?!\w+[;,)])", " / "); sub(r"(?<=[\w)\]])\s*/(?!/)\s*(?=[\w(])", " * ")
    sub(r"\+=", "-="); sub(r"-=", "+="); sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
    sub(r"std::min\b", "std::max"); sub(r"std::max\b", "std::min"); sub(r"minCoeff", "maxCoeff"); sub(r"maxCoeff", "minCoeff"); sub(r"\bfabs\b|\babs\b", "+")
    sub(r"(?<![\w.])(\d+\.\d+)(?![\w.])", lambda m: str(float(m.group(1)) * 1.5 + (0.5 if float(m.group(1)) == 0 else 0)))
    sub(r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1))
    m = re.match(r"^(\s*)(else )?if\s*\((.*)\)\s*(\{)?$", code.rstrip())
    if m: out.append("%s%sif (!(%s)) %s" % (m.group(1), m.group(2) or "", m.group(3), m.group(4) or ""))
    if re.match(r"^\s*[\w.\[\]()>,*&:-]+(\s*[-+*/]?=\s*|\(|\+\+).*;\s*$", code) and not re.match(r"^\s*(return|const|int|double|bool|dVec|dMat|auto|std::|Candidate|else|for|if)\b", code):
        out.append(re.match(r"\s*", l).group(0) + ";")
    return [o for o in set(out) if o != l]
n, seed = int(sys.argv[1]), int(sys.argv[2])
rx = sys.argv[3] if len(sys.argv) > 3 and not sys.argv[3].startswith("--") else "."
outf = sys.argv[sys.argv.index("--out") + 1] if "--out" in sys.argv else "/tmp/mutants.txt"
rnd = random.Random(seed)
pool = []
for f in sorted(FILES):
    if not re.search(rx, f): continue
    com = False
    for i, l in enumerate(open(f).read().split("\n")):
        if "/*" in l and "*/" not in l: com = True
        if com:
            if "*/" in l: com = False
            continue
        if SKIP.search(l): continue
        for v in sorted(variants(l)): pool.append((f, i, v))
# one mutant per line, lines at random
rnd.shuffle(pool)
seen, todo = set(), []
for p in pool:
    if (p[0], p[1]) not in seen:
        seen.add((p[0], p[1])); todo.append(p)
print("%d mutants of %d lines; running %d" % (len(pool), len(seen), min(n, len(todo))), flush=True)
ORDER = os.environ.get("MUT_ORDER", "C10 C08 C05 C19 C29 C28 C30 C20 C22 C23 C07 C15 C03 C06 C09 C11 C12 C14 C16 C17 C18 C21 C24 C25 C26 C27 C04 C13 C02 C31 C32 C33").split()
def one(f, i, v):
    orig = open(f).read()
    ls = orig.split("\n"); old = ls[i]; ls[i] = v
    open(f, "w").write("\n".join(ls))
    try:
        stages = [(p, s) for p in ORDER for s in CHECKS[p]["stages"] if s.get("variant", "plain") == "plain" and not s.get("only")]
        try: B.build_many([q for p, s in stages for q in R.specs_of(s)])
        except B.BuildError as e: return "nocompile", ""
        for p, s in stages:
            acc = R.Acc(); tmp = tempfile.mkdtemp(prefix="verif-mut-")
            try: R.run_stage(s, "quick", 1, acc, tmp, time.time() + 300)
            finally: shutil.rmtree(tmp, ignore_errors=True)
            if acc.viol: return "killed", p + " " + acc.viol[0][1]
            if any("time limit" in x for x in acc.notes): return "timeout", p
        return "SURVIVED", ""
    finally:
        open(f, "w").write(orig)
t = time.time()
for k, (f, i, v) in enumerate(todo[:n]):
    old = open(f).read().split("\n")[i]
    st, why = one(f, i, v)
    with open(outf, "a") as o: o.write("%s\t%s:%d\t%s\t=>\t%s\t%s\n" % (st, os.path.relpath(f, B.REPO), i + 1, old.strip(), v.strip(), why))
    if k % 5 == 4: B.prune(5.0)
