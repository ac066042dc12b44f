"""Builds libcmaes (from /repo's current working tree) and the monitors in several instrumented
variants.  Objects are cached under /verif/build by the hash of everything that can influence
them, so a changed header or source is always recompiled."""
import glob, hashlib, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(ROOT, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
EIGEN = "/usr/include/eigen3"
JOBS = 8

VARIANTS = {
    "plain": dict(cc="g++", flags="-O1 -DNDEBUG -g0 -fopenmp", ld="-fopenmp"),
    "asan": dict(cc="g++", flags="-O1 -g1 -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=all "
                 "-fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS",
                 ld="-fopenmp -fsanitize=address,undefined"),
    "memcheck": dict(cc="g++", flags="-O1 -DNDEBUG -g1 -fopenmp -fno-omit-frame-pointer", ld="-fopenmp"),
    "tsan": dict(cc="g++", flags="-O1 -g1 -fopenmp -fsanitize=thread -DNDEBUG", ld="-fsanitize=thread"),
}
COMMON = "-std=c++17 -w -fPIC"

# number of pieces a library source is split into (each piece keeps a part of the explicit
# instantiations); purely a compile-time optimisation, any other source is compiled whole.
SPLIT = {"cmastrategy.cc": 2}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def sh(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def _write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and _read(path) == data:
        return
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


def gen_headers():
    g = os.path.join(BUILD, "gen")
    src = _read(os.path.join(REPO, "include/libcmaes/libcmaes_config.h.cmake.in")).decode()
    out = []
    for l in src.splitlines():
        m = re.match(r"#cmakedefine\s+(\w+)(.*)", l)
        if m:
            l = "/* #undef %s */" % m.group(1) if m.group(1) == "HAVE_BOOST_PYTHON" else "#define %s%s" % (m.group(1), m.group(2))
        out.append(re.sub(r"@\w+@", "0.9.5", l))
    _write_if_changed(os.path.join(g, "libcmaes/libcmaes_config.h"), "\n".join(out) + "\n")
    _write_if_changed(os.path.join(g, "libcmaes/cmaes_export.h"),
                      "#pragma once\n#define CMAES_EXPORT\n#define CMAES_NO_EXPORT\n#define CMAES_DEPRECATED\n")
    return g


def headers_hash():
    h = []
    for p in sorted(glob.glob(os.path.join(REPO, "include/**/*"), recursive=True)):
        if os.path.isfile(p):
            h += [os.path.relpath(p, REPO), _read(p)]
    return sh(*h)


def _cc_id(cc):
    return subprocess.run([cc, "--version"], capture_output=True, text=True).stdout.split("\n")[0]


def _pieces(name, text):
    """split the explicit instantiations of a source over several pieces"""
    k = SPLIT.get(name, 1)
    if k <= 1:
        return [text]
    lines = text.split("\n")
    idx = [i for i, l in enumerate(lines) if re.match(r"^\s*template\s+class\b[^;{]*;\s*$", l)]
    if len(idx) < k:
        return [text]
    res = []
    for part in range(k):
        keep = set(idx[part * len(idx) // k:(part + 1) * len(idx) // k])
        res.append("\n".join(l if (i not in idx or i in keep) else "" for i, l in enumerate(lines)))
    return res


def _filter_surrogate(text, keep_re):
    lines = text.split("\n")
    idx = [i for i, l in enumerate(lines) if re.match(r"^\s*template\s+class\b[^;{]*;\s*$", l)]
    kept = [i for i in idx if re.search(keep_re, lines[i])]
    if not kept:
        return [text]
    k = min(4, len(kept))
    res = []
    for part in range(k):
        keep = set(kept[part::k])
        res.append("\n".join(l if (i not in idx or i in keep) else "" for i, l in enumerate(lines)))
    return res


def compile_job(variant, src_text, src_name, key_extra, incdirs, defs, cwd_hint):
    v = VARIANTS[variant]
    cmd = [v["cc"]] + v["flags"].split() + COMMON.split() + ["-D" + d for d in defs] + ["-I" + i for i in incdirs]
    cmd += ["-isystem", EIGEN]
    key = sh(_cc_id(v["cc"]), " ".join(cmd), src_text, src_name, *key_extra)[:32]
    odir = os.path.join(BUILD, variant, "obj")
    os.makedirs(odir, exist_ok=True)
    obj = os.path.join(odir, "%s-%s.o" % (src_name.replace("/", "_"), key))
    return obj, cmd


def _run_compile(obj, cmd, src_text, src_name, orig):
    if os.path.exists(obj):
        os.utime(obj)
        return 0.0
    t = time.time()
    tmp = "%s.%d.%d" % (obj, os.getpid(), threading.get_ident())
    srcp = tmp + ".cc"
    with open(srcp, "w") as f:
        f.write('#line 1 "%s"\n' % orig + src_text)
    try:
        r = subprocess.run(cmd + ["-c", srcp, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src_name, r.stderr[-3000:]))
        os.replace(tmp, obj)
    finally:
        for p in (srcp, tmp):
            if os.path.exists(p):
                os.unlink(p)
    return time.time() - t


# compile weights, for scheduling the slow ones first
W = {"surrogatestrategy.cc": 60, "cmastrategy.cc": 20, "run_gp.cc": 15, "errstats.cc": 12, "surr.cc": 30}


def _python():
    """include directories and libraries for extension modules of the system's Python"""
    code = "import sys,sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());print('%d%d'%sys.version_info[:2])"
    inc, npi, ver = subprocess.run(["/usr/bin/python3", "-c", code], capture_output=True, text=True).stdout.split()
    return [inc, npi], ["-lboost_python" + ver]


def _plan(variant, driver, surrogate=None, units=("api", "gp0", "gp1", "gp2", "gp3"), extra=(), pymod=False):
    gen = gen_headers()
    hh = headers_hash()
    gh = sh(*[_read(p) for p in sorted(glob.glob(os.path.join(gen, "libcmaes/*")))])
    hdrs = [_read(p) for p in sorted(glob.glob(os.path.join(HARN, "*.hh")))]
    inc = [gen, os.path.join(REPO, "include"), HARN]
    jobs = []  # (weight, obj, cmd, text, name, orig)
    srcs = sorted(glob.glob(os.path.join(REPO, "src/*.cc")))
    for p in srcs:
        name = os.path.basename(p)
        text = _read(p).decode()
        if "surrog" in name:
            if surrogate is None:
                continue
            pieces = _filter_surrogate(text, surrogate)
        else:
            pieces = _pieces(name, text)
        for n, t in enumerate(pieces):
            nm = "%s_%d" % (name, n) if len(pieces) > 1 else name
            obj, cmd = compile_job(variant, t, nm, [hh, gh], inc, [], None)
            jobs.append((W.get(name, 5), obj, cmd, t, nm, p))
    if pymod:  # the Python bindings, an extension module
        units, extra = (), ()
        text = _read(os.path.join(REPO, "python/lcmaes.cc")).decode()
        pys = [_read(q) for q in sorted(glob.glob(os.path.join(REPO, "python/*.hpp")))]
        obj, cmd = compile_job(variant, text, "lcmaes.cc", [hh, gh] + pys, inc + _python()[0] + [os.path.join(REPO, "python")], [], None)
        jobs.append((20, obj, cmd, text, "lcmaes.cc", os.path.join(REPO, "python/lcmaes.cc")))
    hs = []
    for u in units:
        if u.startswith("gp"):
            hs.append(("run_gp.cc", ["GPN=" + u[2:]]))
        else:
            hs.append((u + ".cc", []))
    if not pymod:
        hs.append((driver, []))
    hs += [(e, []) for e in extra]
    for name, defs in hs:
        p = os.path.join(HARN, name)
        t = _read(p).decode()
        nm = name + "".join("_" + d for d in defs)
        obj, cmd = compile_job(variant, t, nm, [hh, gh] + hdrs, inc, defs, None)
        jobs.append((W.get(name, 8), obj, cmd, t, nm, p))
    objs = sorted(set(j[1] for j in jobs))
    v = VARIANTS[variant]
    key = sh(v["ld"], driver, *objs)[:32]
    exe = os.path.join(BUILD, variant, "%s-%s" % (os.path.splitext(driver)[0], key))
    if pymod:
        exe = os.path.join(BUILD, variant, "py-" + key, "lcmaes.so")
    return jobs, objs, exe


def _link(variant, objs, exe):
    if os.path.exists(exe):
        os.utime(exe)
        return
    v = VARIANTS[variant]
    tmp = exe + ".%d" % os.getpid()
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    more = ["-shared"] + _python()[1] if exe.endswith(".so") else []
    r = subprocess.run([v["cc"]] + objs + v["ld"].split() + more + ["-Wl,--allow-multiple-definition", "-lpthread", "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (os.path.basename(exe), r.stderr[-3000:]))
    os.replace(tmp, exe)


def build_many(specs, verbose=False):
    """specs: dicts with the arguments of build(); returns the executables' paths, all compiled in one pool"""
    plans = [_plan(**s) for s in specs]
    jobs, seen = [], set()
    for pl in plans:
        for j in pl[0]:
            if j[1] not in seen:
                seen.add(j[1])
                jobs.append(j)
    jobs.sort(key=lambda j: -j[0])
    times = {}
    err = None
    with ThreadPoolExecutor(JOBS) as ex:
        for j, f in [(j, ex.submit(_run_compile, *j[1:])) for j in jobs]:
            try:
                times[j[4]] = f.result()
            except BuildError as e:
                err = err or e
        if err:
            raise err
        for f in [ex.submit(_link, s["variant"], pl[1], pl[2]) for s, pl in zip(specs, plans)]:
            f.result()
    if verbose:
        for k, t in sorted(times.items(), key=lambda kv: -kv[1]):
            if t:
                print("  %6.1fs %s" % (t, k), file=sys.stderr)
    return [pl[2] for pl in plans]


def build(variant, driver, surrogate=None, units=("api", "gp0", "gp1", "gp2", "gp3"), verbose=False, extra=()):
    """returns the path of an executable made of the library, the run_gp units and harness/<driver>.
    surrogate: None (library without surrogate code) or a regex of the instantiations to keep"""
    return build_many([dict(variant=variant, driver=driver, surrogate=surrogate, units=units, extra=extra)], verbose)[0]


def prune(max_gb=6.0):
    """keep the cache small: drop the least recently used objects"""
    fs = []
    for d, _, ns in os.walk(BUILD):
        for n in ns:
            p = os.path.join(d, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            fs.append((st.st_mtime, st.st_size, p))
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= max_gb * 1e9:
            break
        if "/gen/" in p:
            continue
        try:
            os.unlink(p)
            tot -= s
        except OSError:
            pass


if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1], sys.argv[2], verbose=True, surrogate=sys.argv[3] if len(sys.argv) > 3 else None), time.time() - t)
