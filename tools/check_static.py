"""C25: the library used while other translation units are initialised and destroyed."""
import os, re
from lib import *

INST = "-O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
CONFIGS = {  # name: compiler, flags, linking
    "gcc-O2": ("g++", "-O2 -fPIC"),
    "gcc-O0": ("g++", "-O0 -fPIC"),
    "gcc-O3-release": ("g++", "-O3 -DNDEBUG -fPIC"),
    "clang-O2": ("clang++", "-O2 -fPIC"),
    "clang-asan": ("clang++", INST + " -fPIC"),
}
LINKS = ["early-first", "library-first", "shared", "both-shared"]
EXPECT = ["priority-constructor", "static-constructor", "main", "static-destructor", "atexit", "priority-destructor"]


def build(name):
    cxx, fl = CONFIGS[name]
    os.makedirs(CACHE + "/obj", exist_ok=True)
    os.makedirs(CACHE + "/bin", exist_ok=True)
    d = VERIF + "/statics/"
    hk = sha(tree_key(), file_bytes(d + "phase.h"))
    lib = [(cxx, fl, s, tree_key(), REPO_INC()) for s in lib_sources()]
    mine = [(cxx, fl, d + x, hk, REPO_INC()) for x in ("phase.cpp", "early.cpp", "main.cpp")]
    return lib, mine


def main():
    rep = Report("C25", "exploration", "every run is a process in which the same seeded calls are made in six phases of its life (a prioritised and an ordinary static constructor, main, static destructors "
                 "and an atexit handler) and compared with each other, and objects created in one phase are inspected in all later ones; compiler, optimisation and link order vary; "
                 "evaluations counts calls made outside main, non-trivial are those of distinct (configuration, link order, seed, phase)")
    rep.assumptions = ["the GNU/Linux start-up and exit order", "a run in which all phases agree with main is right if main is right (decided by the other checks)"]
    jobs = {n: build(n) for n in CONFIGS}
    flat = [j for n in CONFIGS for part in jobs[n] for j in part]
    flat.sort(key=lambda j: -os.path.getsize(j[2]) * (2 if "sanitize" in j[1] else 1))
    with ThreadPoolExecutor(NCPU) as ex:
        objs = dict(zip(map(str, flat), ex.map(compile_obj, flat)))
    exes = {}

    def link(nl):
        n, l = nl
        cxx, fl = CONFIGS[n]
        lib = [objs[str(j)] for j in jobs[n][0]]
        phase, early, mn = [objs[str(j)] for j in jobs[n][1]]
        exe = os.path.join(rep.scratch, "st_%s_%s" % (n, l))
        base = [cxx] + fl.split()
        if l == "early-first":
            cmds = [base + [early, phase] + lib + [mn, "-o", exe]]
        elif l == "library-first":
            cmds = [base + lib + [mn, phase, early, "-o", exe]]
        elif l == "shared":
            so = exe + "_lib.so"
            cmds = [base + ["-shared"] + lib + ["-o", so], base + [early, phase, mn, so, "-Wl,-rpath," + rep.scratch, "-o", exe]]
        else:  # the user of the library is a shared object too
            so, us = exe + "_lib.so", exe + "_user.so"
            cmds = [base + ["-shared"] + lib + ["-o", so], base + ["-shared", early, phase, so, "-Wl,-rpath," + rep.scratch, "-o", us],
                    base + [mn, us, so, "-Wl,-rpath," + rep.scratch, "-o", exe]]
        for c in cmds:
            rc, o = run(c)
            if rc != 0:
                raise CheckError("cannot link %s\n%s" % (nl, o[-3000:]))
        return nl, exe
    pairs = [(n, l) for n in CONFIGS for l in LINKS]
    with ThreadPoolExecutor(NCPU) as ex:
        exes = dict(ex.map(link, pairs))
    log("built", len(exes), "programs")
    nseeds, cases = (4, 6000) if TIER == "quick" else (60, 20000)
    todo = [(p, s) for p in pairs for s in range(nseeds)]

    def once(t):
        (n, l), s = t
        env = {"STATICS_SEED": str(SEED * 7919 + s), "STATICS_CASES": str(cases if "asan" not in n and n != "gcc-O0" else cases // 3),
               "ASAN_OPTIONS": "detect_leaks=0:check_initialization_order=1:handle_abort=1", "UBSAN_OPTIONS": "print_stacktrace=1"}
        if rep.cov.get("stopped"):  # enough seen
            return t, env, (0, "skipped")
        r = run([exes[(n, l)]], 60 if TIER == "quick" else 400, env)
        if r[0] != 0:
            rep.cov["stopped"] = 1
        return t, env, r
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(once, todo))
    for t, env, (rc, out) in res:
        (n, l), s = t
        ph = re.findall(r"^PHASE (\S+) calls=(\d+)", out, re.M)
        if rc == 0 and "MAIN-DONE" in out and sorted(p for p, _ in ph) == sorted(EXPECT):
            k = sum(int(c) for p, c in ph if p != "main")
            rep.evaluations += k
            rep.nontrivial += len(ph) - 1
            rep.add("phases_compared", len(ph))
            rep.sample("%s, %s, seed %s: %s" % (n, l, env["STATICS_SEED"], ", ".join(p for p, _ in ph)))
            continue
        if out == "skipped" or len(rep.violations) >= 3:
            continue
        rep.cov.pop("stopped", None)
        _, _, (rc2, out2) = once(t)
        rep.cov.pop("stopped", None)
        if rc2 == 0:
            rep.inconclusive.append("not reproduced: %s %s\n%s" % (n, l, out[-1500:]))
            continue
        m = re.search(r"STATIC-VIOL[^\n]*|ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*|terminate called[^\n]*", out)
        text = "%s, %s: %s" % (n, l, m.group(0) if m else ("no end" if rc is None else "exit status %s" % rc) + " after phases %s" % [p for p, _ in ph])
        replay = rep.new_replay("config %s\nlink %s\nseed %s\ncases %s\n%s\n%s\n" % (n, l, env["STATICS_SEED"], env["STATICS_CASES"], text, out[-6000:]))
        rep.violate("static/%s" % l, text, replay)
    rep.cov["configurations"] = ["%s/%s" % p for p in pairs]
    return rep.finish()
