#!/usr/bin/env python3
"""check.py <property>: decides one property by monitored execution; see DESIGN.md."""
import sys, os, re, subprocess, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

RULE = ("cases are drawn by a seeded generator from boundary-shaped operands (word patterns, carry chains, algorithm-switch lengths taken from the integer "
        "literals of the sources, related and aliased operands); a case is non-trivial when an operand lies outside the 32-bit small representation "
        "(or the call takes no big operand) and it was not drawn before in its worker")
ASSUME = ["GMP computes the expected value correctly", "the compiler and the sanitizer runtimes are correct",
          "operand lengths beyond those in the histogram behave like the ones observed"]

# cases per worker: property -> (fast quick, asan quick, thorough factor)
SINGLE = {
    "C01": (700000, 200000), "C02": (70000, 25000), "C03": (500000, 150000), "C04": (400000, 120000), "C05": (50000, 25000), "C06": (260000, 100000),
    "C07": (600000, 200000), "C08": (500000, 200000), "C09": (500000, 200000), "C10": (500000, 200000), "C11": (500000, 200000), "C12": (240000, 60000),
    "C13": (2000000, 600000), "C14": (1000000, 300000), "C15": (1600000, 500000), "C16": (900000, 400000),
}
# cases per worker of the long runs (operands, exponents and texts far beyond every algorithm switch): fast; asan runs a sixth
LONG = {"C01": 30000, "C02": 15000, "C03": 60000, "C04": 4000, "C05": 3000, "C06": 15000, "C07": 30000, "C08": 25000, "C09": 25000, "C10": 25000, "C11": 40000,
        "C12": 1800, "C16": 60000}
# properties that also run on values of 2^31 bits, where counts of bits leave 32 bits
EXTREME = ("C01", "C02", "C03", "C06", "C07", "C08", "C09", "C10", "C11", "C14", "C15", "C16", "C17")
# properties of operations that take quadratic time: values of 65536 words and more, where counts of words leave 16 bits
WIDE = ("C02", "C03", "C04", "C05", "C06", "C12")


def scale(n):
    return n if TIER == "quick" else n * 8


def seeds(k=0):
    return SEED * 1000003 + k


def thorough_tail(rig, jobs_of, rounds=6):
    """thorough tier: more rounds of the same workload with fresh seeds"""
    for r in range(1, rounds if TIER == "thorough" else 1):
        if rig.rep.violations:
            return
        rig.run_all(jobs_of(r))


def check_single(prop):
    rep = Report(prop, "exploration", RULE)
    rep.assumptions = ASSUME
    exes = build_rigs(["asan", "fast"] + (["ndebug"] if TIER == "thorough" else []))
    rig = Rig(rep, exes)
    nf, na = SINGLE[prop]

    def jobs(r):
        j = [dict(variant="asan", mode="single", index=i, cases=scale(na), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="fast", mode="single", index=100 + i, cases=scale(nf), seed=seeds(r)) for i in range(NCPU)]
        if prop in LONG:
            j += [dict(variant="fast", mode="long", index=300 + i, cases=scale(LONG[prop]), seed=seeds(r)) for i in range(NCPU)]
            j += [dict(variant="asan", mode="long", index=400 + i, cases=scale(LONG[prop]) // 6, seed=seeds(r)) for i in range(NCPU)]
        if TIER == "thorough":
            j += [dict(variant="ndebug", mode="single", index=200 + i, cases=scale(nf), seed=seeds(r)) for i in range(NCPU)]
        return j
    first = jobs(0)
    if prop in EXTREME:
        first.insert(0, dict(variant="fast", mode="extreme", index=900, cases=1, seed=SEED))
    if prop in WIDE:
        first.insert(0, dict(variant="fast", mode="wide", index=920, cases=1, seed=SEED))
    rig.run_all(first)
    thorough_tail(rig, jobs)
    return rep.finish()


def check_history(prop):  # C17
    rep = Report(prop, "exploration", "each case is a seeded history of 20 to 400 random API calls over six live objects whose values, equality, order, hash, encodings and text are "
                 "compared with GMP shadows and with freshly constructed objects after every call; every history is distinct by seed and has at least 20 steps")
    rep.assumptions = ASSUME
    rig = Rig(rep, build_rigs(["asan", "fast"]))

    def jobs(r):
        j = [dict(variant="asan", mode="prog", index=i, cases=scale(1200), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="fast", mode="prog", index=100 + i, cases=scale(12000), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="fast", mode="single", index=200 + i, cases=scale(150000), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="fast", mode="long", index=400 + i, cases=scale(5000), seed=seeds(r)) for i in range(NCPU)]
        return j
    rig.run_all([dict(variant="fast", mode="extreme", index=900, cases=1, seed=SEED)] + jobs(0))
    thorough_tail(rig, jobs)
    return rep.finish()


def check_alias(prop):  # C18
    rep = Report(prop, "exploration", RULE + "; here every call has aliased operands or an aliased output parameter, plus alias-heavy histories over shared pools")
    rep.assumptions = ASSUME
    rig = Rig(rep, build_rigs(["asan", "fast"]))

    def jobs(r):
        j = [dict(variant="asan", mode="single", index=i, cases=scale(180000), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="fast", mode="single", index=100 + i, cases=scale(500000), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="asan", mode="progalias", index=200 + i, cases=scale(1000), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="fast", mode="progalias", index=300 + i, cases=scale(14000), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="fast", mode="long", index=400 + i, cases=scale(5000), seed=seeds(r)) for i in range(NCPU)]
        return j
    rig.run_all(jobs(0))
    thorough_tail(rig, jobs)
    return rep.finish()


def check_memory(prop):  # C19
    rep = Report(prop, "exploration", RULE + "; observed by AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions, an allocation ledger (leaks) and valgrind memcheck (uninitialised reads)")
    rep.assumptions = ASSUME + ["valgrind observes the gcc -O2 build; reads of uninitialised memory optimised away by gcc are not seen"]
    rig = Rig(rep, build_rigs(["asan", "fast"]))
    vg = ["valgrind", "-q", "--error-exitcode=78", "--leak-check=no", "--undef-value-errors=yes", "--track-origins=no", "--expensive-definedness-checks=yes"]

    def jobs(r):
        j = [dict(variant="fast", mode="single", index=500 + i, cases=scale(3500), seed=seeds(r), prefix=vg) for i in range(NCPU // 2)]
        j += [dict(variant="fast", mode="prog", index=520 + i, cases=scale(30), seed=seeds(r), prefix=vg) for i in range(NCPU // 2)]
        j += [dict(variant="asan", mode="single", index=i, cases=scale(280000), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="asan", mode="prog", index=100 + i, cases=scale(1300), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="asan", mode="errors", index=200 + i, cases=scale(10000), seed=seeds(r)) for i in range(NCPU // 2)]
        j += [dict(variant="asan", mode="long", index=300 + i, cases=scale(5000), seed=seeds(r)) for i in range(NCPU)]
        return j
    rig.run_all(jobs(0))
    rep.cov["valgrind_runs"] = NCPU
    thorough_tail(rig, jobs)
    return rep.finish()


def check_errors(prop):  # C20
    rep = Report(prop, "exploration", "each case is a call with an argument outside the domain of the operation (zero divisor or modulus, negative exponent, out-of-range conversion, "
                 "unsigned encoding of a negative, non-finite double) over every operand-length class, followed by use of all its objects; non-trivial as for the value checks")
    rep.assumptions = ASSUME
    rig = Rig(rep, build_rigs(["asan", "fast", "ndebug"]))

    def jobs(r):
        j = [dict(variant="asan", mode="errors", index=i, cases=scale(50000), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="fast", mode="errors", index=100 + i, cases=scale(100000), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="ndebug", mode="errors", index=200 + i, cases=scale(100000), seed=seeds(r)) for i in range(NCPU)]
        return j
    rig.run_all(jobs(0))
    thorough_tail(rig, jobs)
    return rep.finish()


def check_fault(prop):  # C21
    rep = Report(prop, "fault_enumeration", "for each drawn call, the allocations it makes are counted in an undisturbed run, then the call is repeated with the k-th allocation failing, "
                 "for every k up to 40 and evenly spread k beyond; evaluations counts calls, fault_points the injected failures; non-trivial as for the value checks")
    rep.assumptions = ASSUME + ["every allocation of the library goes through operator new (malloc is not called directly)"]
    rig = Rig(rep, build_rigs(["asan", "fast"]))

    def jobs(r):
        j = [dict(variant="asan", mode="fault", index=i, cases=scale(14000), seed=seeds(r)) for i in range(NCPU)]
        j += [dict(variant="fast", mode="fault", index=100 + i, cases=scale(70000), seed=seeds(r)) for i in range(NCPU)]
        return j
    rig.run_all(jobs(0))
    thorough_tail(rig, jobs)
    return rep.finish()


def check_threads(prop):  # C22
    rep = Report(prop, "exploration", "each worker is a fresh process in which six threads execute overlapping, differently ordered lists of calls over shared read-only operands (assignment targets are "
                 "thread-private); ThreadSanitizer watches for races and every result is compared with a single-threaded execution; non-trivial as for the value checks")
    rep.assumptions = ["ThreadSanitizer's happens-before analysis reports every race of the observed executions"] + ASSUME
    rig = Rig(rep, build_rigs(["tsan"]))
    nproc, cases = (240, 1500) if TIER == "quick" else (600, 1500)
    jobs = [dict(variant="tsan", mode="threads", index=i, cases=cases if i % 3 else 60, seed=seeds(i)) for i in range(nproc)]
    rig.run_all(jobs, max(2, NCPU // 3))
    rep.cov["processes"] = nproc
    return rep.finish()


def check_steps(prop):  # C24
    rep = Report(prop, "exploration", RULE + "; each call runs in a build that counts executed basic blocks and allocated bytes and is stopped when it exceeds the polynomial bound of its operation")
    rep.assumptions = ["basic blocks executed in the clang -O1 build measure work up to a constant factor", "the constants of the bounds are about ten times the largest count observed"]
    rig = Rig(rep, build_rigs(["steps"]))

    def jobs(r):
        return [dict(variant="steps", mode="steps", index=i, cases=scale(900000), seed=seeds(r)) for i in range(NCPU)]
    rig.run_all(jobs(0))
    thorough_tail(rig, jobs)
    return rep.finish()


def check_digest(prop):  # C23
    rep = Report(prop, "exploration", RULE + "; every build configuration executes the same seeded call sequence and logs a digest of each outcome (results, hashes, errors, objects afterwards); the logs are compared line by line")
    rep.assumptions = ["differences between compilers other than gcc 13 and clang 18 on x86-64 are not observed"]
    names = [n for n in VARIANTS if n.startswith("d_")]
    exes = build_rigs(names)
    rig = Rig(rep, exes)
    workers = 4 if TIER == "quick" else NCPU
    cases = scale(200000)
    bad = {}
    for rnd in range(1 if TIER == "quick" else 4):
        jobs = [dict(variant=n, mode="digest", index=i, cases=cases, seed=seeds(rnd), prop=prop) for n in names for i in range(workers)]
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda j: rig.worker(**j), jobs))
        by = {(w["variant"], w["index"]): w for w in res}
        for i in range(workers):
            logs = {}
            for n in names:
                w = by[(n, i)]
                p = os.path.join(w["dir"], "digest_%d.txt" % i)
                lines = open(p).read().split("\n") if os.path.exists(p) else []
                done = w["rc"] == 0 and "RIG-OK" in w["out"]
                if w["rc"] is None or w["rc"] == 70:
                    rep.inconclusive.append("%s: %s" % (n, w["out"][-500:]))
                logs[n] = (lines[:-1], done, w)
            # the outcome of the majority is the reference
            ends = {n: (len(l) if not d else -1) for n, (l, d, w) in logs.items()}
            finished = [n for n in names if logs[n][1]]
            crashed = [n for n in names if not logs[n][1]]
            if finished and not rnd and not i:
                rig.absorb(logs[finished[0]][2])
                rep.cov.pop("evaluations_per_build", None)
            elif finished:
                rig.absorb(logs[finished[0]][2])
                rep.cov.pop("evaluations_per_build", None)
            rep.add("outcomes_compared", sum(len(logs[n][0]) for n in finished))
            if crashed and finished:
                n = crashed[0]
                w = logs[n][2]
                c = parse_case(w["case"])
                bad.setdefault(("crash", c.get("op", "-")), (n, w, "the build %s ends at call %d (%s %s) while %s does not: %s" % (n, len(logs[n][0]), c.get("op", ""), c.get("kind", ""), finished[0], w["out"][-300:])))
            elif crashed:  # every configuration ends: only a difference of the place is this property's business
                places = {n: parse_case(logs[n][2]["case"]) for n in crashed}
                keys = {(p.get("op"), p.get("z0"), p.get("z1"), p.get("i")) for p in places.values()}
                if len(keys) > 1:
                    bad.setdefault(("crash", "-"), (crashed[0], logs[crashed[0]][2], "the builds end at different calls: %s" % {n: p.get("op") for n, p in places.items()}))
                continue
            if not finished:
                continue
            for k in range(min(len(logs[n][0]) for n in finished)):
                vals = {}
                for n in finished:
                    vals.setdefault(logs[n][0][k], []).append(n)
                if len(vals) > 1:
                    groups = sorted(vals.values(), key=len)
                    op = logs[finished[0]][0][k].split()[-1]
                    bad.setdefault(("digest", op), (groups[0][0], logs[groups[0][0]][2], "call %d (%s) of worker %d has a different outcome in %s than in %s" % (k, op, i, groups[0], groups[-1])))
                    break
    rep.cov["build_configurations"] = {n: " ".join(VARIANTS[n][:2]) for n in names}
    for (kind, op), (n, w, text) in bad.items():
        # observed again?
        w2 = rig.worker(variant=n, mode="digest", index=w["index"], cases=w["cases"], seed=w["seed"])
        p = os.path.join(w["dir"], "digest_%d.txt" % w["index"])
        same = os.path.exists(p)
        replay = rep.new_replay("kind %s\nop %s\nprop %s\nwmode digest\nwseed %d\nwindex %d\nwcases %d\nvariant %s\ndetail %s\n" % (kind, op, prop, w["seed"], w["index"], w["cases"], n, text.replace("\n", " ")))
        rep.violate("%s/%s" % (op, kind), text, replay)
    return rep.finish()


def main():
    prop = sys.argv[1]
    try:
        consts_file()
        if prop in SINGLE:
            rc = check_single(prop)
        elif prop in ("C25",):
            import check_static
            rc = check_static.main()
        elif prop in ("C26", "C27", "C28"):
            import check_python
            rc = check_python.main(prop)
        else:
            rc = {"C17": check_history, "C18": check_alias, "C19": check_memory, "C20": check_errors, "C21": check_fault, "C22": check_threads,
                  "C23": check_digest, "C24": check_steps}[prop](prop)
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        rc = 3
    except BaseException:  # a failure of the check is not a verdict
        import traceback
        traceback.print_exc()
        rc = 3
    sys.exit(rc)


if __name__ == "__main__":
    main()
