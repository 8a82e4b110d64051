"""Building variants of the code under test, running workers, reporting: shared by every check."""
import os, sys, re, json, glob, time, hashlib, shutil, subprocess, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RIG_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
OUT = os.path.join(VERIF, "out")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
NCPU = max(2, min(8, os.cpu_count() or 2))
VENV = "/opt/vp/venv/bin/python"
T0 = time.time()


class CheckError(Exception):
    """The check itself could not decide (build failure, inconclusive observation): neither 0 nor 1."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------------ building
def lib_sources():
    """The sources the library is made of: the list in CMakeLists.txt if it can be read, else every .cpp under src."""
    try:
        text = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = re.search(r"set\(bigintegercpp_SOURCES(.*?)\)\s", text, re.S)
        s = [os.path.join(REPO, x) for x in re.findall(r"\$\{CMAKE_CURRENT_SOURCE_DIR\}/(\S+?\.(?:cpp|cc|cxx))", m.group(1))]
        if s and all(os.path.exists(x) for x in s):
            return s
    except Exception:
        pass
    return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))


def headers():
    return sorted(x for x in glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/src/**/*.h*", recursive=True)
                  if os.path.isfile(x) and not x.endswith("/version.h"))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def file_bytes(f):
    with open(f, "rb") as fh:
        return fh.read()


_state = {}


def tree_key():
    """Content of everything a translation unit of the library can include."""
    if "tree" not in _state:
        _state["tree"] = sha(*[x for f in headers() for x in (os.path.relpath(f, REPO), file_bytes(f))])
    return _state["tree"]


def gen_include():
    """A private include directory with the generated version header (CMake would write it into the source tree)."""
    d = os.path.join(CACHE, "gen")
    if "gen" not in _state:
        os.makedirs(d + "/bigintegercpp", exist_ok=True)
        t = open(REPO + "/include/version.h.in").read() if os.path.exists(REPO + "/include/version.h.in") else \
            '#pragma once\nstatic constexpr auto BIGINTEGERCPP_VERSION = "${PROJECT_VERSION}";\n'
        t = t.replace("${PROJECT_VERSION}", "1.3").replace("@PROJECT_VERSION@", "1.3")
        write_if_changed(d + "/bigintegercpp/version.h", t)
        _state["gen"] = d
    return d


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    tmp = path + ".%d.tmp" % os.getpid()
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def run(cmd, timeout=600, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace")


CLANG_ONLY = ("-fsanitize-coverage=inline-8bit-counters", "-shared-libasan")
GCC_FLAGS = {"-fsanitize-coverage=trace-pc-guard": "-fsanitize-coverage=trace-pc", "-fno-sanitize=vptr,function": "-fno-sanitize=vptr"}


def compile_obj(job):
    cxx, flags, src, extra_key, incs = job
    key = sha(cxx, flags, file_bytes(src), os.path.basename(src), extra_key, " ".join(incs))
    obj = os.path.join(CACHE, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = [cxx, "-std=c++17", "-g"] + flags.split() + ["-I" + x for x in incs] + ["-c", src, "-o", tmp]
    rc, o = run(cmd, 800)
    if rc != 0 and cxx == "clang++":  # the project is built with gcc: what only gcc accepts is monitored too
        fl = [GCC_FLAGS.get(x, x) for x in flags.split() if x not in CLANG_ONLY]
        cmd2 = ["g++", "-std=c++17", "-g"] + fl + ["-I" + x for x in incs] + ["-c", src, "-o", tmp]
        if run(cmd2, 800)[0] == 0:
            log("only g++ compiles", os.path.basename(src))
            rc = 0
    if rc != 0:
        raise CheckError("cannot compile %s\n%s\n%s" % (src, " ".join(cmd), o[-4000:]))
    os.replace(tmp, obj)
    return obj


REPO_INC = lambda: [REPO + "/include", REPO + "/include/public", gen_include()]
RIG_SRC = lambda: sorted(glob.glob(VERIF + "/rig/*.cpp"))

SAN_LIB = "-O1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR=1 -ftrivial-auto-var-init=pattern"
VARIANTS = {  # name: (compiler, library flags, rig flags)
    "fast": ("g++", "-O2", "-O1"),
    "asan": ("clang++", SAN_LIB + " -fsanitize-coverage=inline-8bit-counters -DRIG_COV", "-O1 -fsanitize=address -D_GLIBCXX_SANITIZE_VECTOR=1 -DRIG_COV"),
    "tsan": ("clang++", "-O1 -fsanitize=thread", "-O1 -fsanitize=thread -DRIG_NO_ALLOC"),
    "steps": ("clang++", "-O1 -fsanitize-coverage=trace-pc-guard", "-O1 -DRIG_STEPS"),
    "ndebug": ("g++", "-O3 -DNDEBUG", "-O1"),
    # build configurations compared by C23 (the rig objects are the same for each compiler)
    "d_gcc_O0": ("g++", "-O0", "-O1"),
    "d_gcc_O1": ("g++", "-O1 -fPIC", "-O1"),
    "d_gcc_O2": ("g++", "-O2", "-O1"),
    "d_gcc_O3_rel": ("g++", "-O3 -DNDEBUG", "-O1"),
    "d_gcc_O2_uchar": ("g++", "-O2 -funsigned-char", "-O1"),
    "d_gcc_Os_rel_uchar": ("g++", "-Os -DNDEBUG -funsigned-char", "-O1"),
    "d_gcc_O3_native": ("g++", "-O3 -DNDEBUG -march=x86-64-v2 -fwhole-program-off", "-O1"),
    "d_clang_O0": ("clang++", "-O0", "-O1"),
    "d_clang_O2": ("clang++", "-O2", "-O1"),
    "d_clang_O3_rel": ("clang++", "-O3 -DNDEBUG", "-O1"),
    "d_clang_O2_uchar": ("clang++", "-O2 -funsigned-char", "-O1"),
    "d_gcc_O2_shared": ("g++", "-O2 -fPIC", "-O1"),
    "d_gcc_O3_rel_shared": ("g++", "-O3 -DNDEBUG -fPIC", "-O1"),
}
VARIANTS["d_gcc_O3_native"] = ("g++", "-O3 -DNDEBUG -ftree-vectorize -fstrict-aliasing", "-O1")
ENVS = {
    "asan": {"ASAN_OPTIONS": "detect_leaks=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "print_stacktrace=1"},
    "tsan": {"TSAN_OPTIONS": "exitcode=78:halt_on_error=1:second_deadlock_stack=1"},
}


def build_rigs(names):
    """Builds the monitored executable in the given variants, all translation units in parallel."""
    os.makedirs(CACHE + "/obj", exist_ok=True)
    os.makedirs(CACHE + "/bin", exist_ok=True)
    rig_key = sha(tree_key(), *[x for f in sorted(glob.glob(VERIF + "/rig/*.h")) for x in (os.path.basename(f), file_bytes(f))])
    jobs = {}
    for n in names:
        cxx, lf, hf = VARIANTS[n]
        lst = [(cxx, lf, s, tree_key(), REPO_INC()) for s in lib_sources()]
        # one compiler builds the harness of every configuration that is compared: its evaluation order must not matter
        lst += [("g++" if n.startswith("d_") else cxx, hf + " -Wall", s, rig_key, REPO_INC()) for s in RIG_SRC()]
        jobs[n] = lst
    flat = []
    seen = set()
    for n in names:
        for j in jobs[n]:
            if str(j) not in seen:
                seen.add(str(j))
                flat.append(j)
    flat.sort(key=lambda j: -os.path.getsize(j[2]) * (2 if "sanitize" in j[1] else 1))
    with ThreadPoolExecutor(NCPU) as ex:
        objs = dict(zip([str(j) for j in flat], ex.map(compile_obj, flat)))

    def link(n):
        cxx, lf, hf = VARIANTS[n]
        cxx = "g++" if n.startswith("d_") else cxx
        nl = len(lib_sources())
        o = [objs[str(j)] for j in jobs[n]]
        exe = os.path.join(CACHE, "bin", "rig_%s_%s" % (n, sha(*o)))
        if os.path.exists(exe):
            return n, exe
        lflags = hf.split()
        if "fsanitize=address" in lf:
            lflags += ["-fsanitize=undefined"]
        if n.endswith("_shared"):
            so = exe + ".so"
            rc, out = run([cxx, "-shared", "-o", so] + o[:nl])
            if rc == 0:
                rc, out = run([cxx] + lflags + o[nl:] + [so, "-Wl,-rpath," + CACHE + "/bin", "-o", exe + ".tmp", "-lgmpxx", "-lgmp", "-lpthread"])
        else:
            rc, out = run([cxx] + lflags + o + ["-o", exe + ".tmp", "-lgmpxx", "-lgmp", "-lpthread"])
        if rc != 0:
            raise CheckError("cannot link %s\n%s" % (n, out[-4000:]))
        os.replace(exe + ".tmp", exe)
        return n, exe
    with ThreadPoolExecutor(NCPU) as ex:
        r = dict(ex.map(link, names))
    log("built", ", ".join(names))
    return r


_consts = None


def consts_file():
    """Integer literals of the sources under test: they steer operand lengths and values in the workloads."""
    global _consts
    if _consts:
        return _consts
    vals = set()
    for f in lib_sources() + headers():
        t = open(f, errors="replace").read()
        t = re.sub(r"/\*.*?\*/|//[^\n]*", " ", t, flags=re.S)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)(?![\w.])", t):
            v = int(m.group(1), 16) if m.group(1)[:2].lower() == "0x" else int(m.group(1), 10)
            if v < 1 << 64:
                vals.add(v)
    p = os.path.join(CACHE, "consts_%s.txt" % sha(*sorted(vals)))
    os.makedirs(CACHE, exist_ok=True)
    write_if_changed(p, "\n".join(str(v) for v in sorted(vals)) + "\n")
    _consts = p
    return p


# ------------------------------------------------------------------------------------------------ known findings
def load_findings():
    res = []
    try:
        for line in open(VERIF + "/known_findings.txt"):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m:
                res.append(m.groups())
    except OSError:
        pass
    return res


# ------------------------------------------------------------------------------------------------ reporting
class Report:
    def __init__(self, prop, level, rule):
        self.prop, self.level, self.rule = prop, level, rule
        self.evaluations = 0
        self.nontrivial = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.inconclusive = []
        self.dir = os.path.join(OUT, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.scratch = tempfile.mkdtemp(prefix="rig_%s_" % prop)
        atexit.register(shutil.rmtree, self.scratch, True)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=8):
        if len(self.samples) < limit and s not in self.samples:
            self.samples.append(s[:900])

    def violate(self, key, text, replay):
        """key identifies the defect (operation and kind), replay the file with the failing input."""
        for p, k, desc in load_findings():
            if p == self.prop and k == key:
                if key not in self.known:
                    self.known.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, desc), flush=True)
                return
        self.violations.append((key, text, replay))

    def new_replay(self, text, suffix=".txt"):
        p = os.path.join(self.dir, "replay_%d%s" % (len(os.listdir(self.dir)), suffix))
        with open(p, "w") as f:
            f.write(text)
        return p

    def finish(self):
        cov = {"evaluations": int(self.evaluations), "distinct_nontrivial": int(self.nontrivial), "rule": self.rule, "samples": self.samples or ["none"]}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        for k, t, r in self.violations[:10]:
            print("%s: %s" % (k, t[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, r), flush=True)
        log("evaluations=%d nontrivial=%d violations=%d" % (self.evaluations, self.nontrivial, len(self.violations)))
        if self.violations:
            return 1
        if self.inconclusive:
            for t in self.inconclusive:
                print("INCONCLUSIVE: " + t[:3000])
            return 2
        return 0


# ------------------------------------------------------------------------------------------------ rig workers
def parse_case(path):
    d = {}
    try:
        for line in open(path, errors="replace"):
            k, _, v = line.rstrip("\n").partition(" ")
            d[k] = v
    except OSError:
        pass
    return d


SYMBOL = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|Assertion [^\n]*|terminate called[^\n]*|== (?:Invalid|Conditional|Use of|Jump)[^\n]*)")


REPORT = re.compile(r"WARNING: ThreadSanitizer: |ERROR: AddressSanitizer: |runtime error: |RIG-VIOL ")


class Rig:
    """Runs rig workers and turns their endings into verdicts."""

    def __init__(self, rep, exes):
        self.rep, self.exes = rep, exes
        self.edge = {}

    def worker(self, variant, mode, index, cases, seed=None, prop=None, prefix=None, timeout=None, tier=None):
        rep = self.rep
        d = os.path.join(rep.scratch, "%s_%s_%d" % (variant, mode, index))
        os.makedirs(d, exist_ok=True)
        seed = SEED if seed is None else seed
        cmd = (prefix or []) + [self.exes[variant], "--mode", mode, "--prop", prop or rep.prop, "--seed", str(seed), "--index", str(index), "--workers", str(NCPU),
                                "--cases", str(cases), "--tier", str(int(TIER == "thorough") if tier is None else tier), "--out", d, "--consts", consts_file()]
        if timeout is None:
            timeout = 120 if mode == "threads" else 300 if TIER == "quick" else 6 * 3600
        rc, out = run(cmd, timeout, ENVS.get(variant))
        return dict(variant=variant, mode=mode, index=index, cases=cases, cmd=cmd, rc=rc, out=out, dir=d, seed=seed, env=ENVS.get(variant), timeout=timeout,
                    case=os.path.join(d, "case_%d.txt" % index), stats=os.path.join(d, "stats_%d.json" % index))

    def run_all(self, jobs, parallel=None):
        """jobs: dicts of arguments of worker(). Returns the finished workers after recording statistics and verdicts."""
        failed = []

        def one(j):
            if len(failed) >= (6 if j["mode"] != "threads" else 3) and not load_findings():  # enough to report: the others would only tell the same again
                return None
            w = self.worker(**j)
            if w["rc"] is None and REPORT.search(w["out"]):  # it reported, then could not end (races damage the runtime's own locks)
                w["rc"] = 78
            if w["rc"] not in (0, 70, None):
                failed.append(w)
            return w
        with ThreadPoolExecutor(parallel or NCPU) as ex:
            res = [w for w in ex.map(one, jobs) if w]
        for w in res:
            self.verdict(w)
        return res

    def verdict(self, w):
        rep = self.rep
        if w["rc"] == 0 and "RIG-OK" in w["out"]:
            self.absorb(w)
            return
        if w["rc"] is None:
            rep.inconclusive.append("a worker did not finish in %s s: %s" % (w["timeout"], " ".join(w["cmd"])))
            return
        if w["rc"] == 70 or (w["rc"] is not None and w["rc"] > 0 and w["rc"] not in (77, 78, 79, 1, 66) and "RIG-VIOL" not in w["out"] and "Sanitizer" not in w["out"]):
            rep.inconclusive.append("worker failed (%s): %s\n%s" % (w["rc"], " ".join(w["cmd"]), w["out"][-1500:]))
            return
        c = parse_case(w["case"])
        if len(rep.violations) >= (1 if c.get("kind") == "hang" else 3):
            return
        what = SYMBOL.search(w["out"])
        kind = c.get("kind", "killed" if w["rc"] < 0 else "crash")
        text = "%s build, %s: %s%s" % (w["variant"], kind, c.get("detail", ""), (" | " + what.group(1)) if what else "")
        key = "%s/%s" % (c.get("op", "-"), kind)
        body = (open(w["case"], errors="replace").read() if os.path.exists(w["case"]) else "kind %s\nprop %s\nwmode %s\nwseed %d\nwindex %d\nwcases %d\n" % (
            kind, rep.prop, w["mode"], w["seed"], w["index"], w["cases"])) + "variant %s\n" % w["variant"]
        replay = rep.new_replay(body)
        with open(replay + ".log", "w") as f:
            f.write(" ".join(w["cmd"]) + "\n" + w["out"][-20000:])
        # confirm: the case alone, else the whole worker again
        if w["mode"] in ("threads",):
            ok = True  # a race report names two unsynchronised accesses that happened; it needs no second run
        else:
            ok = False
            if c.get("mode") in ("single", "fault", "steps", "prog", "progalias") and c.get("op"):
                d2 = os.path.join(w["dir"], "confirm")
                os.makedirs(d2, exist_ok=True)
                pre = w["cmd"][:w["cmd"].index(self.exes[w["variant"]])]
                rc, out = run(pre + [self.exes[w["variant"]], "--replay", replay, "--out", d2], 400, w["env"])
                ok = rc is not None and not (rc == 0 and "RIG-OK" in out) and rc != 70
            if not ok:
                rc, out = run(w["cmd"], w["timeout"], w["env"])
                ok = rc is not None and rc != 70 and not (rc == 0 and "RIG-OK" in out)
        if ok:
            rep.violate(key, text, replay)
        else:
            rep.inconclusive.append("not reproduced: " + text)

    def absorb(self, w):
        rep = self.rep
        try:
            s = json.load(open(w["stats"]))
        except Exception as e:
            rep.inconclusive.append("no statistics from %s: %s" % (" ".join(w["cmd"]), e))
            return
        rep.evaluations += s["evaluations"]
        rep.nontrivial += s["distinct_nontrivial"]
        rep.add("library_steps_monitored", s["steps"]) if s["steps"] else None
        for k in ("errors_observed", "alias_cases", "value_checks", "fault_points"):
            if s[k]:
                rep.add(k, s[k])
        oc = rep.cov.setdefault("calls_per_operation", {})
        for k, v in s["op_count"].items():
            oc[k] = oc.get(k, 0) + v
        h = rep.cov.setdefault("longest_operand_words_histogram", {})
        for name, v in zip(["0", "1", "2", "3-4", "5-8", "9-16", "17-31", "32-64", "65-128", "129-256", ">256"], s["len_hist"]):
            if v:
                h[name] = h.get(name, 0) + v
        per = rep.cov.setdefault("evaluations_per_build", {})
        per[w["variant"]] = per.get(w["variant"], 0) + s["evaluations"]
        for x in s["samples"]:
            rep.sample(x)
        ex = rep.cov.setdefault("measurements", {}) if s["extra"] else None
        for k, v in s["extra"].items():
            ex[k] = max(ex.get(k, 0), v)
        if s.get("edge_map"):
            m = int(s["edge_map"], 2)
            self.edge["n"] = s["edges"]
            self.edge["m"] = self.edge.get("m", 0) | m
            rep.cov["library_edges_executed"] = bin(self.edge["m"]).count("1")
            rep.cov["library_edges_total"] = s["edges"]
