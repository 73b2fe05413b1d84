"""Shared machinery of the checks: building binaries from /repo's working tree, running jobs, evidence, verdicts."""
import hashlib, json, os, re, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

PYTHON = sys.executable
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "OpenMps")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
CORES = 8

CONFIG = {  # build options of the code under test
    "def": "", "d3": "-DCFG_3D", "nospp": "-DCFG_NOSPP", "nohl": "-DCFG_NOHL", "nohs": "-DCFG_NOHS", "noecs": "-DCFG_NOECS",
    "nods": "-DCFG_NODS", "gc": "-DCFG_GC", "exp": "-DCFG_EXP", "cg": "-DCFG_CG", "novcl": "-DCFG_NOVCL",
    "gc3": "-DCFG_3D -DCFG_GC", "expnoecs": "-DCFG_EXP -DCFG_NOECS", "expnospp": "-DCFG_EXP -DCFG_NOSPP",
    "off": "-DCFG_NOSPP -DCFG_NOHL -DCFG_NOHS -DCFG_NOECS -DCFG_NODS",
    "off3": "-DCFG_3D -DCFG_NOSPP -DCFG_NOHL -DCFG_NOHS -DCFG_NOECS",
    "exp3": "-DCFG_3D -DCFG_EXP", "nospp3": "-DCFG_3D -DCFG_NOSPP", "nohl3": "-DCFG_3D -DCFG_NOHL", "cg3": "-DCFG_3D -DCFG_CG", "novcl3": "-DCFG_3D -DCFG_NOVCL",
}
GCC = "g++ -std=c++17 -w"
CLANG = "clang++-18 -std=c++17 -w"
APPF = "-stdlib=libc++ -O1 -fopenmp=libomp"
SAN = "-g1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
FLAVOUR = {  # kind -> (compiler, flags, source)
    "mon": (GCC, "-O1 -fopenmp", "mon.cpp"),
    "monseq": (GCC, "-O1", "mon.cpp"),  # built without OpenMP
    "monasan": (CLANG, "-O1 -DSANITIZED -D_GLIBCXX_ASSERTIONS " + SAN, "mon.cpp"),
    "monasanomp": (GCC, "-O1 -fopenmp -DSANITIZED -D_GLIBCXX_ASSERTIONS -g1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all", "mon.cpp"),
    "montsan": (CLANG, "-O1 -g1 -DSANITIZED -fopenmp=libomp -fsanitize=thread -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib", "mon.cpp"),
    "monvg": (GCC, "-O1 -g -DSANITIZED", "mon.cpp"),
    "app": (CLANG, APPF, "APP"),
    "drive": (CLANG, APPF, "drive.cpp"),
    "appasan": (CLANG, "-stdlib=libc++ -O1 -fopenmp=libomp -D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_DEBUG " + SAN, "APP"),
}

ERRORS = ("errors", "one_sided_errors", "unsolved", "skipped", "history_errors", "crowded")

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(d0 for d0 in ds if d0 != "test")
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

class HarnessError(Exception):
    pass

def build(wanted):
    """wanted: list of (kind, config). Returns {(kind, config): path}; rebuilds whatever is not up to date."""
    os.makedirs(BUILD, exist_ok=True)
    base = tree_hash([SRC, HARNESS])
    out, todo = {}, []
    for kind, cfg in dict.fromkeys(wanted):
        comp, flags, src = FLAVOUR[kind]
        opts = CONFIG[cfg]
        if src == "APP":
            cmd = f"{comp} {flags} {opts} -I{SRC} -include {HARNESS}/cfg.hpp {SRC}/Main.cpp"
        else:
            cmd = f"{comp} {flags} {opts} -I{SRC} -include array {HARNESS}/{src}"
        key = hashlib.sha256((base + cmd).encode()).hexdigest()[:16]
        path = os.path.join(BUILD, f"{kind}-{cfg}-{key}")
        out[(kind, cfg)] = path
        if not os.path.exists(path):
            todo.append((cmd, path, kind, cfg))
    def one(t):
        cmd, path, kind, cfg = t
        tmp = f"{path}.tmp{os.getpid()}"
        r = subprocess.run(f"{cmd} -o {tmp}", shell=True, capture_output=True, text=True)
        if r.returncode != 0:
            raise HarnessError(f"build of {kind}/{cfg} failed:\n{cmd}\n{r.stderr[:3000]}")
        # binaries of older trees
        for f in os.listdir(BUILD):
            if f.startswith(f"{kind}-{cfg}-") and ".tmp" not in f and os.path.join(BUILD, f) != path:
                try: os.remove(os.path.join(BUILD, f))
                except OSError: pass
        os.rename(tmp, path)
    if todo:
        # long compilations first
        todo.sort(key=lambda t: (0 if "san" in t[2] else 1))
        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(one, todo))
    return out

ENV = dict(os.environ, OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false",
           ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=0:exitcode=77",
           TSAN_OPTIONS="ignore_noninstrumented_modules=1:exitcode=66:halt_on_error=0")
ENV.pop("LD_PRELOAD", None)

def call(argv, timeout, env=None, cwd=None, inp=None, binary=False):
    """Returns (rc, stdout, stderr); rc is None on timeout (SIGTERM first, so that the monitor can say where it was)."""
    e = dict(ENV); e.update(env or {})
    p = subprocess.Popen(argv, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
    def end(sig):
        try: os.killpg(p.pid, sig)
        except (ProcessLookupError, PermissionError): pass
    try:
        o, er = p.communicate(inp, timeout=timeout); rc = p.returncode
    except subprocess.TimeoutExpired:
        end(signal.SIGTERM)
        try: o, er = p.communicate(timeout=5)
        except subprocess.TimeoutExpired:
            end(signal.SIGKILL); o, er = p.communicate()
        rc = None
    return rc, (o if binary else o.decode("utf-8", "replace")), er.decode("utf-8", "replace")

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.stats = {}        # "mode" -> {counter: value}
        self.hashes = set()    # distinct non-trivial cases
        self.evaluations = 0
        self.samples = []
        self.violations = []   # (key, text, replay dict)
        self.rules = []
        self.assumptions = []
        self.notes = {}
        self.known = load_known(pid)
        self.known_hit = {}

    # --- results
    def stat(self, group, k, v=1):
        with self.lock:
            g = self.stats.setdefault(group, {})
            if k.startswith("max."): g[k] = max(g.get(k, v), v)
            else: g[k] = g.get(k, 0) + v
    def case(self, key, nontrivial=True):
        with self.lock:
            self.evaluations += 1
            if nontrivial: self.hashes.add(key)
    def sample(self, s, limit=12):
        with self.lock:
            if len(self.samples) < limit: self.samples.append(s[:600])
    def violation(self, key, text, replay):
        with self.lock:
            for k in self.known:
                if k == key:
                    self.known_hit.setdefault(k, text); return
            self.violations.append((key, text, replay))

    # --- monitor jobs
    def run_jobs(self, jobs):
        """jobs: dicts kind, cfg, mode, seed, first, count, threads, timeout, (env)"""
        bins = build([(j["kind"], j["cfg"]) for j in jobs])
        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(lambda j: self.run_job(j, bins[(j["kind"], j["cfg"])]), jobs))

    def argv(self, j, path):
        a = [path, j["mode"], str(j["seed"]), str(j["first"]), str(j["count"]), str(j["threads"])]
        if j["kind"] == "monvg": a = ["valgrind", "-q", "--error-exitcode=78", "--leak-check=no", "--track-origins=no"] + a
        return a

    def run_job(self, j, path, again=True):
        rc, o, er = call(self.argv(j, path), j.get("timeout", 240), j.get("env"))
        group = f"{j['kind']}/{j['cfg']}/{j['mode']}"
        ended, died = False, None
        for line in o.splitlines():
            if line.startswith("S "):
                _, k, v = line.split(" ", 2); v = float(v)
                self.stat(group, k, v)
                if k == "cases": 
                    with self.lock: self.evaluations += int(v)
            elif line.startswith("H "):
                with self.lock: self.hashes.add((j["cfg"], j["mode"], line[2:]))
            elif line.startswith("X "): self.sample(f"[{j['cfg']}/{j['mode']}] {line[2:]}")
            elif line.startswith("V "):
                head, _, detail = line[2:].partition(" | ")
                m = re.match(r"(N\d\d) (\S+) case=(-?\d+)", head)
                if not m: raise HarnessError("bad violation line: " + line)
                p, key, case = m.group(1), m.group(2), int(m.group(3))
                if p != self.pid: self.stat(group, "other." + p); continue
                self.violation(key, f"[{j['cfg']}/{j['mode']}] {detail}", dict(job=dict(j, first=case, count=1), message=detail))
            elif line.startswith("K "): died = int(line[2:])
            elif line == "END": ended = True
        if self.sanitizer(j, rc, er): return
        if not ended or rc != 0:
            if again:
                # once more, alone on the failing case if it is known, to tell an outside disturbance from a real failure
                k = dict(j)
                if died is not None: k.update(first=died, count=1)
                return self.run_job(k, path, again=False)
            why = "did not end within the time limit" if rc is None else f"ended abnormally (status {rc})"
            if rc == 3: raise HarnessError(f"{group}: unknown mode")
            tail = " / ".join([l for l in er.splitlines() if l.strip()][-3:])[:300]
            case = died if died is not None else j["first"]
            self.violation("abnormal-end", f"[{j['cfg']}/{j['mode']}] the run {why} in case {case}: {tail}", dict(job=dict(j, first=case, count=1), message=why + " " + tail))

    def sanitizer(self, j, rc, er):
        if j["kind"] in ("mon", "monseq"): return False
        m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*|WARNING: ThreadSanitizer: .*)", er)
        if j["kind"] == "monvg" and rc == 78: m = re.search(r"==\d+== (.*)", er)
        if not m: return False
        where = re.findall(r"((?:Computer|Grid|Environment|Particle|Vector|Main|stov|Timer|ComputingCondition)\.[hc]pp:\d+)", er)
        self.violation("sanitizer", f"[{j['kind']}/{j['cfg']}/{j['mode']}] {m.group(1)[:200]} at {' '.join(dict.fromkeys(where[:4]))}", dict(job=j, message=er[:4000]))
        return True

    # --- verdict
    def rates(self):
        """steps that cannot be computed are legitimate but rare; a build in which they are not rare breaks the property
        (nothing is left of it), and so does a check that observed nothing"""
        for g, d in sorted(self.stats.items()):
            mode = g.split("/")[-1]; cases = d.get("cases", 0)
            if mode in ("fail", "hostile", "solver", "race", "threadsbig") or cases < 100: continue
            for k in ERRORS:
                v = d.get(k, 0)
                if v > 25 and v > (0.15 if k != "one_sided_errors" else 0.06) * cases:
                    self.violation("errors", f"[{g}] {int(v)} of {int(cases)} cases end with \"{k}\": what is nearly always computed without error now fails", dict(job=dict(kind=g.split("/")[0], cfg=g.split("/")[1], mode=mode, seed=self.seed, first=0, count=100, threads=1), message=k))
        if not self.violations and not self.hashes: raise HarnessError(f"{self.pid}: nothing was observed")

    def finish(self, level="exploration"):
        self.rates()
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.hashes), "rule": " ".join(self.rules),
               "samples": self.samples[:12] or ["(none)"], "observed": {}}
        tot = {}
        for g, d in self.stats.items():
            mode = g.split("/")[-1]
            for k, v in d.items():
                t = tot.setdefault(mode, {})
                if k.startswith("max."): t[k] = max(t.get(k, v), v)
                else: t[k] = t.get(k, 0) + v
        cov["observed"] = {m: {k: (int(v) if v == int(v) and abs(v) < 1e15 else v) for k, v in sorted(d.items())} for m, d in sorted(tot.items())}
        cov["builds"] = sorted({"/".join(g.split("/")[:2]) for g in self.stats if "/" in g})
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if os.environ.get("VERIF_GROUPS"):
            for g, d in sorted(self.stats.items()): print("#", g, {k: v for k, v in d.items() if k in ERRORS or k == "cases"})
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        for k in self.known:
            if k in self.known_hit: print(f"KNOWN-FINDING: property={self.pid} {k}: {self.known_hit[k][:200]}")
        if self.violations:
            os.makedirs(REPLAY, exist_ok=True)
            done = set()
            for key, text, rep in self.violations:
                if key in done or len(done) >= 5: continue
                done.add(key)
                p = os.path.join(REPLAY, f"{self.pid}-{re.sub('[^A-Za-z0-9_-]', '_', key)}.json")
                with open(p, "w") as f: json.dump(dict(rep, property=self.pid, key=key, text=text), f, indent=1)
                print(f"VIOLATION property={self.pid} replay={p}")
                print("  " + key + ": " + text[:700])
            return 1
        print(f"{self.pid} held: {self.evaluations} evaluations, {len(self.hashes)} distinct non-trivial, {ev['wall_s']} s")
        return 0

def load_known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+)", l)
            if m and m.group(1) == pid: out.append(m.group(2))
    except FileNotFoundError: pass
    return out
