#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = "online monitor comparing every call of the real library with GMP, under ASan/UBSan/libstdc++ assertions and in the plain gcc -O2 build"
T = {
    "C17": ("online monitor over random call histories: six live objects against GMP shadows and against freshly built twins after every call, ASan/UBSan and plain builds", ""),
    "C18": ("online monitor of calls with aliased operands and outputs, operand snapshots compared after every call, ASan/UBSan and plain builds", ""),
    "C19": ("AddressSanitizer, UndefinedBehaviorSanitizer, container-overflow annotations, libstdc++ assertions, allocation ledger and valgrind memcheck over calls, histories and error paths of the whole API", ""),
    "C20": ("runtime monitor of error outcomes (type, operands and outputs afterwards) over out-of-domain calls in sanitized, plain and NDEBUG builds", ""),
    "C21": ("fault injection at every allocation of each drawn call with an allocation ledger, object snapshots and ASan/UBSan", ""),
    "C22": ("ThreadSanitizer over six-thread overlapping executions in fresh processes, results compared with a single-threaded execution", ""),
    "C23": ("differential monitoring: outcome logs of the same calls from 13 compiler configurations compared line by line", ""),
    "C24": ("runtime monitor counting executed basic blocks (SanitizerCoverage) and allocated bytes of every call against a polynomial budget", ""),
    "C25": ("runtime monitor of the library in six phases of the life of a process (static construction to exit handlers), over compilers and link orders", ""),
    "C26": ("online monitor of the built Python module with Python's own integers as oracle, plain and ASan/UBSan builds", ""),
    "C27": ("online monitor of the built Python module's conversions and buffers with Python's own integers as oracle, plain and ASan/UBSan builds", ""),
    "C28": ("AddressSanitizer/UBSan, reference-count and heap-growth monitors over random misuse of the built Python module", ""),
}
NOTE = ("The property held on every execution observed; operands reach a few hundred words (occasionally more) and are biased to the boundaries of the algorithms. Trusts GMP, the compilers and the sanitizer "
        "runtimes; says nothing about inputs that were not run.")
NOTES = {
    "C21": "For every drawn call, every allocation point up to 40 (and a spread beyond) was made to fail and the aftermath observed; which calls are drawn is sampled. Trusts that the library allocates through operator new.",
    "C22": "ThreadSanitizer reports races of the executions it saw, by happens-before, so one interleaving of two conflicting accesses is enough; accesses no workload reached are not covered.",
    "C23": "Agreement was observed between gcc 13 and clang 18 configurations on x86-64 only.",
    "C24": "The budgets are polynomial in the operand lengths with constants about ten times the largest count observed; slower growth than the budget is not seen.",
    "C25": "GNU/Linux start-up order, gcc and clang, static and shared linking; agreement of each phase with main, whose correctness the other checks decide.",
    "C26": "As the C++ checks, through the binding built from the working tree for Python 3.12; trusts Python's integers.",
    "C27": "As the C++ checks, through the binding built from the working tree for Python 3.12; trusts Python's integers.",
    "C28": "No misuse that was run crashed, leaked or disturbed reference counts; Python 3.12 and pybind11 as installed.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T.get(i, (ORACLE,))[0], "level": "fault_enumeration" if i == "C21" else "exploration",
                   "level_note": NOTES.get(i, NOTE)})
m = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed at the public interface, by sanitizers and by interposed allocation. Checks build the working tree into /verif/.cache."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
