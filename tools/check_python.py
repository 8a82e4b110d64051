"""C26-C28: the Python module, built from the working tree, with and without sanitizers."""
import os, re, sysconfig
from lib import *

RULES = {
    "C26": "each case is one operator applied to random boundary-shaped values in one of the forms BigInteger/BigInteger, BigInteger/int, int/BigInteger; result value, result type and both operands are compared with Python integers; "
           "non-trivial: distinct and some value outside 32 bits",
    "C27": "each case sends one value through every conversion of the module (int, str, bytes, to_array with all flags, float, index, deepcopy, hash, dictionary keys, queries, logs) and one buffer (contiguous, strided, reversed, read-only) "
           "through the constructor; non-trivial: distinct and outside 32 bits",
    "C28": "each case calls a random method, constructor or operator with arguments of arbitrary types and values under AddressSanitizer/UBSan and in the plain build, checking reference counts; leak loops repeat each kind of call (successful and failing) "
           "and watch the heap; non-trivial: distinct and some value outside 32 bits",
}
PYFLAGS = {
    "py": ("g++", "-O2 -fPIC", "-O1 -fPIC -fvisibility=hidden"),
    "pyasan": ("clang++", "-O1 -fPIC -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all",
               "-O0 -fPIC -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=all -shared-libasan"),
}


def py_paths():
    rc, o = run([VENV, "-c", "import pybind11, sysconfig; print(pybind11.get_include()); print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"])
    l = o.strip().split("\n")
    if rc != 0 or len(l) != 3:
        raise CheckError("no pybind11: " + o)
    return l


def shadow_tree():
    """Copies of the bindings and headers with the generated version header in the place CMake puts it."""
    files = [f for f in glob.glob(REPO + "/bindings/python/**/*", recursive=True) + glob.glob(REPO + "/include/**/*", recursive=True)
             if os.path.isfile(f) and not f.endswith("version.h") and re.search(r"\.(cpp|cc|h|hpp|inc|ipp)$", f)]
    key = sha(*[x for f in sorted(files) for x in (os.path.relpath(f, REPO), file_bytes(f))])
    d = os.path.join(CACHE, "pytree_" + key)
    if not os.path.exists(d + "/.done"):
        for f in files:
            t = os.path.join(d, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(f, t)
        os.makedirs(d + "/include/public/bigintegercpp", exist_ok=True)
        shutil.copyfile(gen_include() + "/bigintegercpp/version.h", d + "/include/public/bigintegercpp/version.h")
        open(d + "/.done", "w").close()
    return d, key


def build_modules(names):
    os.makedirs(CACHE + "/obj", exist_ok=True)
    os.makedirs(CACHE + "/bin", exist_ok=True)
    pb, pyinc, suffix = py_paths()
    tree, key = shadow_tree()
    srcs = [f for f in glob.glob(tree + "/bindings/python/*.cpp")]
    jobs = {}
    for n in names:
        cxx, lf, bf = PYFLAGS[n]
        jobs[n] = [(cxx, bf, s, key, [tree + "/include/public", tree + "/include", pb, pyinc]) for s in srcs]
        jobs[n] += [(cxx, lf, s, tree_key(), REPO_INC()) for s in lib_sources()]
    flat = [j for n in names for j in jobs[n]]
    flat.sort(key=lambda j: -os.path.getsize(j[2]) * (2 if "sanitize" in j[1] else 1) * (20 if "bindings" in j[2] else 1))
    with ThreadPoolExecutor(NCPU) as ex:
        objs = dict(zip(map(str, flat), ex.map(compile_obj, flat)))
    res = {}
    for n in names:
        cxx, lf, bf = PYFLAGS[n]
        o = [objs[str(j)] for j in jobs[n]]
        so = os.path.join(CACHE, "bin", "%s_%s%s" % (n, sha(*o), suffix))
        if not os.path.exists(so):
            rc, out = run([cxx] + bf.split() + ["-shared"] + o + ["-o", so + ".tmp"])
            if rc != 0:
                raise CheckError("cannot link the module\n" + out[-3000:])
            os.replace(so + ".tmp", so)
        res[n] = so
    log("built modules", ", ".join(names))
    return res


def asan_runtime():
    rc, o = run(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"])
    p = o.strip()
    if not os.path.isabs(p):
        rc, o = run(["clang++", "-print-file-name=libclang_rt.asan.so"])
        p = o.strip()
    if not os.path.exists(p):
        raise CheckError("no shared AddressSanitizer runtime")
    return p


def main(prop):
    rep = Report(prop, "exploration", RULES[prop])
    rep.assumptions = ["Python's integers compute the expected values correctly", "the Python 3.12 interpreter of the build environment stands for the supported versions"]
    mods = build_modules(["py", "pyasan"])
    rt = asan_runtime()
    f = 1 if TIER == "quick" else 20
    jobs = []
    mode = {"C26": "ops", "C27": "conv", "C28": "robust"}[prop]
    nf, na = {"C26": (200000, 80000), "C27": (30000, 14000), "C28": (60000, 40000)}[prop]
    for i in range(NCPU):
        jobs.append(("pyasan", mode, i, na * f))
        jobs.append(("py", mode, 100 + i, nf * f))
    if prop == "C28":
        jobs = [("py", "leak", 200 + i, 1 * f) for i in range(NCPU)] + [("pyasan", "leak", 300 + i, 1 * f) for i in range(NCPU // 2)] + [("py", "threads", 400 + i, 40 * f) for i in range(3)] + [("pyasan", "threads", 410 + i, 15 * f) for i in range(2)] + jobs

    bad = []

    def once(j, tag=""):
        v, m, i, n = j
        if len(bad) >= 3 and not tag:  # enough to report
            return j, None, None, None, (None, "skipped")
        d = os.path.join(rep.scratch, "%s_%s_%d%s" % (v, m, i, tag))
        os.makedirs(d, exist_ok=True)
        cmd = [VENV, "-X", "faulthandler", VERIF + "/py/pyrig.py", "--module", mods[v], "--mode", m, "--seed", str(SEED), "--index", str(i), "--cases", str(n), "--out", d, "--consts", consts_file()]
        env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
        if v == "pyasan" or m == "leak":
            env["PYTHONMALLOC"] = "malloc"
        if v == "pyasan":
            env.update(LD_PRELOAD=rt, ASAN_OPTIONS="detect_leaks=0:handle_abort=0:allocator_may_return_null=1:quarantine_size_mb=%d" % (1 if m == "leak" else 64), UBSAN_OPTIONS="print_stacktrace=1")
        r = run(cmd, 250 if TIER == "quick" else 7200, env)
        if r[0] != 0:
            bad.append(j)
        return j, d, cmd, env, r
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(once, jobs))
    for j, d, cmd, env, (rc, out) in res:
        v, m, i, n = j
        if rc == 0 and "PYRIG-OK" in out:
            s = json.load(open(d + "/stats_%d.json" % i))
            rep.evaluations += s["evaluations"]
            rep.nontrivial += s["distinct_nontrivial"]
            for k in ("leak_loops", "refcount_checks", "buffers"):
                if s[k]:
                    rep.add(k, s[k])
            for name in ("ops", "exceptions"):
                t = rep.cov.setdefault({"ops": "calls_per_operation", "exceptions": "exceptions_observed"}[name], {})
                for k, c in s[name].items():
                    t[k] = t.get(k, 0) + c
            for x in s["samples"]:
                rep.sample(x)
            continue
        if len(rep.violations) >= (1 if "Timeout (0:01:30)!" in out else 2) or out == "skipped":
            continue
        case = ""
        try:
            case = open(d + "/case_%d.txt" % i, "rb").read().split(b"\0")[0].decode("utf-8", "replace").strip()
        except OSError:
            pass
        if rc == 1 and "PYRIG-VIOL" not in out and "Traceback" in out and "Sanitizer" not in out:
            # an exception nobody expected: of the module in a place where none may come, or of the harness
            pass
        _, d2, _, _, (rc2, out2) = once(j, "_again")
        m1 = re.search(r"PYRIG-VIOL kind=(\S+) ([^\n]*)|ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion [^\n]*|terminate called[^\n]*|Fatal Python error[^\n]*|\n(\w*(?:Error|Exception)[^\n]*)\s*$", out)
        kind = m1.group(1) if m1 and m1.group(1) else "hang" if rc is None or "Timeout (0:01:30)!" in out else "crash"
        text = "%s build, %s: %s | case: %s" % (v, m, (m1.group(0).strip() if m1 else "exit status %s" % rc)[:1500], case[:1500])
        if rc2 == 0:
            rep.inconclusive.append("not reproduced: " + text)
            continue
        replay = rep.new_replay("kind %s\nvariant %s\nmode %s\nseed %d\nindex %d\ncases %d\ncase %s\n%s\n%s\n" % (kind, v, m, SEED, i, n, case, text, out[-8000:]))
        rep.violate("python/%s/%s" % (m, kind), text, replay)
    return rep.finish()
