"""Program-level checks: generated XML input -> the real program -> its frames and progress lines, judged against
a library-driven run of the same input (harness/drive.cpp) and against the input itself."""
import array, json, math, os, random, re, shutil, struct, tempfile
from concurrent.futures import ThreadPoolExecutor
import vlib

FLUID, WALL, DUMMY, DISABLED = 0, 1, 2, 3
DIMS = {"def": 2, "d3": 3, "nospp": 2, "exp": 2, "novcl": 2, "exp3": 3, "nospp3": 3, "cg": 2, "gc": 2, "nods": 2}

def cols(D): return ["Type", "x", "y", "z", "u", "v", "w", "p", "n"] if D == 3 else ["Type", "x", "z", "u", "w", "p", "n"]

class Case:
    """One input: parameters in p, rows [type, x.., u.., p, n] as floats."""
    def __init__(self, D):
        self.D = D; self.p = {}; self.rows = []; self.tag = ""
    def describe(self):
        return f"{self.tag} D={self.D} n={len(self.rows)} " + " ".join(f"{k}={v:.6g}" for k, v in self.p.items() if not k.startswith(("min", "max")))

AX = {2: ["X", "Z"], 3: ["X", "Y", "Z"]}

def lattice(r, c, kind):
    D = c.D; l0 = c.p["l_0"]; U = math.sqrt(9.8 * l0)
    rows = []
    def add(t, x, u=None): rows.append([t] + list(x) + list(u or [0.0] * D) + [0.0, 0.0])
    if kind == "tank":
        w, h = r.randint(3, 6), r.randint(2, 4); dep = r.randint(2, 3) if D == 3 else 1
        fw = r.randint(1, w)
        rngs = [range(-2, w + 2)] + ([range(-2, dep + 2)] if D == 3 else []) + [range(-2, h + 2)]
        import itertools
        for q in itertools.product(*rngs):
            i, k = q[0], q[-1]; j = q[1] if D == 3 else 0
            d = max(-i, i - w + 1, -k, -j if D == 3 else 0, j - dep + 1 if D == 3 else 0)
            x = [l0 * v for v in q]
            if d <= 0:
                if i < fw and k < h: add(FLUID, x)
            elif d == 1: add(WALL, x)
            elif d == 2: add(DUMMY, x)
    elif kind == "scatter":
        m = r.randint(1, 30 if D == 2 else 25); L = max(3.0, (m ** (1.0 / D)) * 1.3)
        for _ in range(m):
            for _ in range(50):
                x = [r.uniform(0, L) * l0 for _ in range(D)]
                if all(math.dist(x, q[1:1 + D]) > 0.55 * l0 for q in rows): break
            else: continue
            add(r.choice([FLUID] * 6 + [WALL, WALL, DUMMY, DISABLED]), x, [r.uniform(-1, 1) * U for _ in range(D)])
    elif kind == "fall":
        m = r.randint(2, 4); gap = r.uniform(0.5, 3)
        for i in range(m):
            for k in range(m):
                x = [i * l0] + ([0.0] if D == 3 else []) + [(k + gap) * l0]
                add(FLUID, x)
        for i in range(-2, m + 2):
            for k, t in ((-1, WALL), (-2, DUMMY)):
                add(t, [i * l0] + ([0.0] if D == 3 else []) + [k * l0])
    for q in rows:
        if q[0] == WALL or q[0] == DUMMY: q[1 + D:1 + 2 * D] = [0.0] * D
    r.shuffle(rows)
    return rows

def make(r, D, kinds=("tank", "scatter", "fall"), frames=None):
    c = Case(D); p = c.p
    p["l_0"] = r.choice([0.1, 0.01, 1.0, 0.025, math.exp(r.uniform(-5, 1))])
    l0 = p["l_0"]; T = math.sqrt(l0 / 9.8)
    kind = r.choice(kinds); c.tag = kind
    p["minStepCountPerOutput"] = r.choice([1, 2, 3, 5, 10, r.randint(1, 25)])
    iv = r.choice([T * r.uniform(0.05, 0.5), 2 ** math.floor(math.log2(T * 0.3)), float("%.1g" % (T * r.uniform(0.1, 0.5)))])
    p["outputInterval"] = iv
    nf = frames or r.choice([1, 2, 3, 4, 7])
    start = r.choice([0, 0, 1, 2, 5, 37, 1000]) 
    p["startTime"] = start * iv if r.random() < 0.8 else iv * r.uniform(0, 6)
    off = r.random()
    p["endTime"] = p["startTime"] + iv * (nf if off < 0.6 else nf - r.uniform(0.1, 0.9) if off < 0.95 else 0)
    p["eps"] = 10 ** -r.uniform(5, 10)
    p["courant"] = r.choice([0.1, r.uniform(0.02, 0.4)])
    p["g"] = r.choice([9.8, 9.8, 0.0, r.uniform(1, 20)])
    p["rho"] = r.choice([1000.0, 998.2, 10 ** r.uniform(0, 4)])
    p["nu"] = r.choice([1e-6, 0.0, l0 * l0 / T * 10 ** r.uniform(-3, -1)])
    p["r_eByl_0"] = r.choice([2.4, 2.1, r.uniform(1.6, 3.1 if D == 2 else 2.2)])
    p["surfaceRatio"] = r.choice([0.97, r.uniform(0.8, 0.99)])
    p["c"] = 10 * math.sqrt(9.8 * l0)
    c.rows = lattice(r, c, kind)
    if not c.rows: c.rows = [[FLUID] + [0.0] * (2 * D) + [0.0, 0.0]]
    shift = [r.choice([0.0, r.uniform(-50, 50)]) * l0 for _ in range(D)]
    for q in c.rows:
        for d in range(D): q[1 + d] += shift[d]
        if r.random() < 0.3:
            q[1 + 2 * D] = r.choice([0.0, r.uniform(0, 1) * p["rho"] * 9.8 * l0]); q[2 + 2 * D] = r.uniform(0, 10)
    for d, a in enumerate(AX[D]):
        lo = min(q[1 + d] for q in c.rows); hi = max(q[1 + d] for q in c.rows)
        ml, mh = (r.choice([3.0, r.uniform(0.05, 5)]), r.choice([3.0, r.uniform(0.05, 5)]))
        if r.random() < 0.1: ml = -0.5  # someone is outside from the start
        p["min" + a] = lo - ml * l0; p["max" + a] = max(hi + mh * l0, lo + 0.1 * l0)
        p["max" + a] = max(p["max" + a], p["min" + a] + l0)
    return c

def g17(v): return repr(float(v))

def num(r, v):
    """v in one of many spellings that stand for exactly the same double"""
    s = repr(float(v))
    k = r.random()
    if k < 0.5: return s
    if math.isfinite(v) and v == int(v) and abs(v) < 1e6 and k < 0.7: return r.choice([str(int(v)), str(int(v)) + ".", "%+d" % int(v), "%.3f" % v, str(int(v)) + "e0"])
    if k < 0.8: return "%.17e" % v
    if k < 0.9: return ("%.17E" % v)
    return ("+" if not s.startswith("-") else "") + s

def table(c, r=None):
    """(text, values): the particle table; with r in a random layout"""
    names = cols(c.D); order = list(range(len(names)))
    plain = r is None
    if not plain: r.shuffle(order)
    sp = (lambda: "") if plain else (lambda: r.choice(["", "", " ", "  ", "\t", " \t "]))
    sep = (lambda: ", ") if plain else (lambda: sp() + "," + sp())
    def blank(): return "" if plain or r.random() > 0.15 else "\n"
    lines = "" if plain else "\n" * r.randint(0, 3)
    if plain: lines = "\n"
    join = lambda items: sp() + items[0] + "".join(sep() + i for i in items[1:]) + sp()
    lines += join([names[k] for k in order]) + "\n"
    for q in c.rows:
        items = []
        for k in order:
            if k == 0: items.append(str(int(q[0])))
            else: items.append(repr(float(q[k])) if plain else num(r, q[k]))
        lines += blank() + join(items) + "\n"
    if not plain and r.random() < 0.3: lines = lines.rstrip("\n") + r.choice(["", "\n\n\n", "\n \n"])
    return lines

COND = ["startTime", "endTime", "outputInterval", "eps"]
def envkeys(D): return ["l_0", "minStepCountPerOutput", "courant", "g", "rho", "nu", "r_eByl_0", "surfaceRatio", "c"] + ["min" + a for a in AX[D]] + ["max" + a for a in AX[D]]

def xml(c, csv, r=None, drop=None, text=None, ptype=' type="csv"'):
    """the input as XML; with r in random spelling: order, comments, blanks around values, quotes, empty elements, unknown elements, CDATA"""
    val = lambda k: str(int(c.p[k])) if k == "minStepCountPerOutput" else repr(float(c.p[k])) if r is None else num(r, c.p[k]).lstrip("+")
    style = r.random() < 0.5 if r else False
    def elem(k):
        v = text[k] if text and k in text else val(k)
        if not style: return f'<{k} value="{v}"/>'
        if k != "minStepCountPerOutput" and r.random() < 0.15: v = r.choice([" ", "  "]) * r.randint(0, 1) + v + r.choice(["", " "])
        if r.random() < 0.05: v = "".join(f"&#{ord(ch)};" if r.random() < 0.5 else ch for ch in v)
        q = r.choice(['"', '"', "'"])
        a = [f"value={q}{v}{q}"] + ([r.choice(['unit="m"', "note='x'", 'values="7"', 'Value="3"'])] if r.random() < 0.1 else [])
        r.shuffle(a)
        sp = r.choice([" ", " ", "\n\t", "  "])
        return f"<{k}{sp}{' '.join(a)}{r.choice(['', ' '])}/>" if r.random() < 0.8 else f"<{k}{sp}{' '.join(a)}>{r.choice(['', ' ', '5'])}</{k}>"
    def block(keys):
        keys = [k for k in keys if k != drop]
        if r: r.shuffle(keys)
        return "".join(elem(k) + ("" if r is None or r.random() < .8 else r.choice(["\n\t<!-- note -->", "\n", "<unknown value='1'/>", " <!-- <g value=\"1\"/> -->\n"])) for k in keys)
    if style and csv is not None:
        how = r.random()
        if how < 0.4: csv = f"<![CDATA[{csv}]]>"
    if style and ptype == ' type="csv"': ptype = r.choice([ptype, " type='csv'", ' name="all" type="csv"', ' type="csv" version=\'1\'', '\n\ttype="csv" ', ' Type="x" type="csv" types="y"'])
    parts = [f"<condition>{block(COND)}</condition>", f"<environment>{block(envkeys(c.D))}</environment>", f"<particles{ptype}>{csv}</particles>" if csv is not None else ""]
    if r: r.shuffle(parts)
    if style and r.random() < 0.2: parts.insert(r.randint(0, len(parts)), "<comment type='csv'>Type, x\n0, 1</comment>")
    head = '<?xml version="1.0" encoding="UTF-8"?>\n'
    if style: head = r.choice([head, "", "\ufeff" + head, '<?xml version="1.0"?>\n<!-- input -->\n'])
    return head + r.choice(["<openmps>\n", "<openmps version='1'>"] if style else ["<openmps>\n"]) + "\n".join(parts) + "\n</openmps>\n" if r else head + "<openmps>\n" + "\n".join(parts) + "\n</openmps>\n"

def drive_input(c, steps=3000):
    p = c.p; D = c.D
    iv = p["outputInterval"]
    n = end_count(p)
    v = [p["eps"], iv, p["l_0"], int(p["minStepCountPerOutput"]), p["courant"], p["g"], p["rho"], p["nu"], p["r_eByl_0"], p["surfaceRatio"], p["c"]]
    v += [p["min" + a] for a in AX[D]] + [p["max" + a] for a in AX[D]] + [len(c.rows)]
    lines = [" ".join(repr(x) for x in v)]
    lines += [" ".join(repr(x) for x in q) for q in c.rows]
    lines += [f"{n * iv!r} {steps}"]
    return "\n".join(lines) + "\n"

def count_interval(t, iv):
    k = max(0.0, t / iv); n = round(k)
    return int(n) if abs(k - n) <= 1e-9 * max(1.0, n) else int(math.ceil(k))
def ambiguous(t, iv):  # so close to a multiple that rounding decides
    k = t / iv; n = round(k); d = abs(k - n)
    return 1e-11 * max(1, n) < d < 1e-7 * max(1, n)
def end_count(p): return count_interval(p["endTime"] - p["startTime"], p["outputInterval"])

class Step:
    __slots__ = ("t", "live", "vals")
    def __init__(s, t, live, vals): s.t, s.live, s.vals = t, live, vals

def parse_drive(raw, c):
    a = array.array("d"); a.frombytes(raw[:len(raw) // 8 * 8])
    w = 2 * c.D + 3; n = len(c.rows); i = 0; steps = []; err = None
    while i < len(a):
        if a[i] == 1: steps.append(Step(a[i + 1], int(a[i + 2]), a[i + 3:i + 3 + n * w])); i += 3 + n * w
        else:
            m = int(a[i + 2]); err = (a[i + 1], bytes(int(x) for x in a[i + 3:i + 3 + m]).decode("utf-8", "replace")); i += 3 + m
    return steps, err

class RunResult: pass

def run_app(binary, text, timeout=120, threads=1, name="in.xml", env=None, keep=False, stale=None):
    """stale: contents of result/ before the run (frames of an earlier run)"""
    d = tempfile.mkdtemp(prefix="openmps-", dir="/tmp")
    try:
        if stale is not None:
            os.mkdir(os.path.join(d, "result"))
            for f, t in stale.items():
                with open(os.path.join(d, "result", f), "w") as h: h.write(t)
        if text is not None:
            with open(os.path.join(d, name), "w", encoding="utf-8") as f: f.write(text)
        e = {"OMP_NUM_THREADS": str(threads)}; e.update(env or {})
        rc, o, er = vlib.call([binary, name], timeout, e, cwd=d)
        R = RunResult(); R.rc, R.out, R.err = rc, o, er
        R.frames = {}; R.extra = []
        res = os.path.join(d, "result")
        if os.path.isdir(res):
            for f in sorted(os.listdir(res)):
                m = re.fullmatch(r"particles_(\d{5,})\.csv", f)
                with open(os.path.join(res, f), "r", errors="replace") as h: t = h.read()
                if m: R.frames[int(m.group(1))] = t
                else: R.extra.append(f)
        return R
    finally:
        shutil.rmtree(d, ignore_errors=True)

class Bad(Exception):
    def __init__(self, pid, key, msg): super().__init__(msg); self.pid, self.key, self.msg = pid, key, msg

def parse_frame(pid, no, text, c):
    lines = text.split("\n")
    head = [h.strip() for h in lines[0].split(",")]
    if head != cols(c.D): raise Bad(pid, "frame-header", f"frame {no}: header is {lines[0]!r}")
    if lines[-1] != "": raise Bad(pid, "frame-incomplete", f"frame {no} does not end with a complete line")
    rows = [l.split(",") for l in lines[1:-1]]
    if len(rows) != len(c.rows): raise Bad(pid, "frame-rows", f"frame {no} has {len(rows)} rows for {len(c.rows)} particles")
    out = []
    for i, q in enumerate(rows):
        if len(q) != len(head): raise Bad(pid, "frame-row-length", f"frame {no} row {i}: {q}")
        try: out.append([float(v) for v in q])
        except ValueError: raise Bad(pid, "frame-number", f"frame {no} row {i}: {q}")
    return out

def same6(a, b):
    if a == b: return True
    if math.isnan(a) and math.isnan(b): return True
    if math.isinf(a) or math.isinf(b): return False
    return abs(a - b) <= 6e-6 * max(abs(a), abs(b)) or abs(a - b) < 1e-306

def cmp_rows(rows, vals, w):
    """first difference between a frame and a state, or None"""
    for i, q in enumerate(rows):
        for k in range(w):
            if not same6(q[k], vals[i * w + k]): return i, k, q[k], vals[i * w + k]
    return None

LINE = re.compile(r"^#(\d+): t=\s*(\S+) \(\s*(\d+)\),\s*(\d+) particles, @ \d\d/\d\d \d\d:\d\d:\d\d \(\s*\S+\)\s*$")

def progress(out): return [(int(m.group(1)), float(m.group(2)), int(m.group(3)), int(m.group(4))) for m in map(LINE.match, out.split("\n")) if m]

def flat(rows): return [v for q in rows for v in q]

def initial_type_ok(c): return True

def drive(binary, c, threads=1, steps=3000):
    rc, raw, er = vlib.call([binary], 120, {"OMP_NUM_THREADS": str(threads)}, inp=drive_input(c, steps).encode(), binary=True)
    if rc != 0: return None, None
    return parse_drive(raw, c)

def judge_run(pid, c, R, steps, err, chk):
    """N17 (and N19 for failing runs): every frame and progress line of the run R against the library-driven steps"""
    p = c.p; iv = p["outputInterval"]; st = p["startTime"]; w = 2 * c.D + 3
    off = count_interval(st, iv); total = end_count(p)
    if R.rc is None: raise Bad(pid, "hang", "the program did not end")
    if R.rc != 0: raise Bad(pid, "exit", f"the program ended with status {R.rc}: {R.err[-200:]}")
    prog = progress(R.out)
    # which frames the steps reach
    last_ok = len(steps) - 1
    frames = [(0, 0, 0)]  # (interval, first candidate step, last candidate step)
    failed_at = None
    s = 0; nominal = 0.0
    for k in range(1, total + 1):
        nominal = k * iv; tol = 1e-9 * max(nominal, iv)
        lo = s
        while lo <= last_ok and steps[lo].t < nominal - tol: lo += 1
        if lo > last_ok: failed_at = k; break
        hi = lo
        while hi <= last_ok and steps[hi].t < nominal + tol: hi += 1
        frames.append((k, lo, min(hi, last_ok))); s = lo
    if failed_at is not None and err is None: raise vlib.HarnessError("library-driven run too short: " + c.describe())
    got = sorted(R.frames)
    if err is not None and len(frames) > 1 and frames[-1][1] == last_ok and steps[last_ok].t < frames[-1][0] * iv * (1 + 1e-9) and got == [off + k for k, _, _ in frames[:-1]]:
        frames.pop()  # rounding decides whether the failing step still belongs to the interval before
    expect = [off + k for k, _, _ in frames]
    if got != expect: raise Bad(pid, "frame-numbers", f"frames {got[:6]}..{got[-1:]} ({len(got)}), expected {expect[:1]}..{expect[-1:]} ({len(expect)}): start {st} end {p['endTime']} interval {iv}")
    if [q[0] for q in prog] != expect: raise Bad(pid, "progress-numbers", f"progress lines {[q[0] for q in prog]}, expected {expect}")
    it = 0
    for (k, lo, hi), (no, t, iteration, live) in zip(frames, prog):
        rows = parse_frame(pid, no, R.frames[no], c)
        diff = None
        for s in range(lo, hi + 1):
            diff = cmp_rows(rows, steps[s].vals, w)
            if diff is None and iteration == s: break
            if diff is None: diff = (-1, 0, iteration, s)
        if diff is not None:
            i, q, a, b = diff
            if i < 0: raise Bad(pid, "progress-steps", f"frame {no}: progress line says step {int(a)}, the frame shows the state after step {int(b)}")
            # does it show another step?
            other = [s for s in range(len(steps)) if cmp_rows(rows, steps[s].vals, w) is None]
            raise Bad(pid, "frame-content", f"frame {no} (nominal time {k * iv:.6g}, steps {lo}..{hi}) row {i} column {cols(c.D)[q]}: {a!r} but the state has {b!r}" + (f"; the frame shows step {other[0]} at t={steps[other[0]].t:.6g}" if other else ""))
        tt = steps[s].t + st
        if abs(t - tt) > 6e-5 + 1e-9 * abs(tt): raise Bad(pid, "progress-time", f"frame {no}: progress line says t={t}, the state is at t={tt:.6f}")
        if live != steps[s].live: raise Bad(pid, "progress-live", f"frame {no}: progress line says {live} particles, {steps[s].live} are live")
        if iteration < p["minStepCountPerOutput"] * k: raise Bad(pid, "too-few-steps", f"frame {no}: {iteration} steps for {k} intervals of at least {int(p['minStepCountPerOutput'])} steps")
        chk.stat("app/judge", "frames"); chk.stat("app/judge", "rows", len(rows)); 
        if hi > lo: chk.stat("app/judge", "rounding_ties")
    chk.stat("app/judge", "steps", len(steps) - 1)
    return failed_at

# ------------------------------------------------------------------ the checks
def pool(chk, cfgs, kinds, count, fn, seed):
    """runs fn(cfg, index, rng) for every config and index"""
    jobs = [(cfg, i) for cfg in cfgs for i in range(count[cfg] if isinstance(count, dict) else count)]
    def one(j):
        cfg, i = j
        r = random.Random(f"{chk.pid}/{seed}/{cfg}/{i}")
        try: fn(cfg, i, r)
        except Bad as b:
            if b.pid == chk.pid: chk.violation(b.key, f"[{cfg} case {i}] {b.msg}", dict(app=dict(cfg=cfg, index=i, seed=seed), message=b.msg))
            else: chk.stat("app/" + cfg, "other." + b.pid)
    with ThreadPoolExecutor(vlib.CORES) as ex: list(ex.map(one, jobs))

def n17(chk, bins, cfgs, count, seed):
    def one(cfg, i, r):
        c = make(r, DIMS[cfg])
        if ambiguous(c.p["startTime"], c.p["outputInterval"]) or ambiguous(c.p["endTime"] - c.p["startTime"], c.p["outputInterval"]): return
        threads = r.choice([1, 1, 2])
        steps, err = drive(bins[("drive", cfg)], c, threads)
        if steps is None: chk.stat("app/" + cfg, "drive_failed"); return
        if tie_at_end(c, steps, err): return
        stale = None
        failing = err is not None and len(steps) > 0 and fails_early(c, steps)
        if not failing and r.random() < 0.4:  # the result of an earlier run with the same numbers is there
            off = count_interval(c.p["startTime"], c.p["outputInterval"]); stale = {}
            for k in range(off, off + end_count(c.p) + 1):
                if r.random() < 0.8: stale[f"particles_{k:05d}.csv"] = r.choice(["", "x\n", "1, 2, 3\n" * 5, (",".join(cols(c.D)) + "\n" + "7, 7, 7, 7, 7, 7, 7\n" * (3 * len(c.rows) + 9))])
            chk.stat("app/n17", "runs_over_old_frames")
        R = run_app(bins[("app", cfg)], xml(c, table(c)), threads=threads, stale=stale)
        if failing: judge_run("N19", c, R, steps, err, chk); chk.stat("app/n17", "failing_runs"); return
        judge_run("N17", c, R, steps, err, chk)
        chk.case((cfg, c.describe()), len(R.frames) > 1)
        chk.stat("app/n17", "runs"); chk.stat("app/n17", "runs_" + c.tag)
        if c.p["startTime"] > 0: chk.stat("app/n17", "runs_with_start_time")
        if i < 2: chk.sample(f"[{cfg}] {c.describe()} -> frames {sorted(R.frames)[:3]}..{max(R.frames)}")
    pool(chk, cfgs, None, count, one, seed)

def tie_at_end(c, steps, err): # whether the failing step belongs to the run at all is decided by rounding
    e = end_count(c.p) * c.p["outputInterval"]
    return err is not None and e * (1 - 1e-9) <= steps[-1].t < e * (1 + 1e-9)
def fails_early(c, steps): return steps[-1].t < end_count(c.p) * c.p["outputInterval"] * (1 + 1e-9)

def n16(chk, bins, cfgs, count, seed):
    def one(cfg, i, r):
        D = DIMS[cfg]
        c = make(r, D, frames=r.choice([1, 1, 2]))
        for q in c.rows:  # values that identify their column
            if r.random() < 0.5: q[1 + 2 * D] = r.choice([-1, 1]) * 10 ** r.uniform(-20, 8); q[2 + 2 * D] = 10 ** r.uniform(-5, 5)
        if r.random() < 0.6: valid(cfg, i, r, c)
        else: malformed(cfg, i, r, c)
    def valid(cfg, i, r, c):
        D = c.D; w = 2 * D + 3
        text = xml(c, table(c, r), r)
        R = run_app(bins[("app", cfg)], text)
        if ambiguous(c.p["startTime"], c.p["outputInterval"]): return
        off = count_interval(c.p["startTime"], c.p["outputInterval"])
        if off not in R.frames: raise Bad("N16", "rejected", f"a well-formed input gave no initial frame (status {R.rc}): {R.err[-200:]} {c.describe()}")
        try: rows = parse_frame("N16", off, R.frames[off], c)
        except Bad as b: raise Bad("N16", "initial-" + b.key, b.msg)
        d = cmp_rows(rows, flat(c.rows), w)
        if d: raise Bad("N16", "loaded-value", f"row {d[0]} column {cols(D)[d[1]]}: loaded as {d[2]!r}, the file says {d[3]!r}")
        m = re.search(r"^(\d+) particles$", R.out, re.M)
        if m and int(m.group(1)) != len(c.rows): raise Bad("N16", "row-count", f"{m.group(1)} particles reported for {len(c.rows)} rows")
        # every configuration value governs its own quantity: same frames as a library run set up with those values
        steps, err = drive(bins[("drive", cfg)], c)
        if steps is None or fails_early(c, steps) or tie_at_end(c, steps, err): chk.stat("app/n16", "failing_runs"); return
        tmp = vlib.Check.__new__(vlib.Check); tmp.stat = lambda *a: None
        try: judge_run("N16", c, R, steps, err, tmp)
        except Bad as b: raise Bad("N16", "configuration", b.msg)
        chk.case((cfg, text), True); chk.stat("app/n16", "faithful"); chk.stat("app/n16", "rows", len(rows))
        if i < 3: chk.sample(f"[{cfg}] {c.describe()} loaded as written, header layout {text[text.find('Type') - 20:][:60]!r}")
    def malformed(cfg, i, r, c):
        D = c.D; names = cols(D)
        kinds = ["drop-column", "unknown-column", "rename-column", "short-row", "not-a-number", "empty-field", "no-table", "empty-table", "no-type", "missing-parameter", "bad-parameter", "truncated", "no-file", "header-only-blank"]
        k = r.choice(kinds); text = None
        lines = table(c).strip("\n").split("\n"); grid = [[v.strip() for v in l.split(",")] for l in lines]
        if k != "drop-column" or True:
            order = list(range(len(names))); r.shuffle(order)
            if r.random() < 0.6: grid = [[g[o] for o in order] for g in grid]
        what = ""
        if k == "drop-column":
            j = r.randrange(len(names)); what = grid[0][j]; grid = [g[:j] + g[j + 1:] for g in grid]
        elif k == "unknown-column":
            what = r.choice(["q", "X", "type", "xx", "rho", "y" if D == 2 else "t", "v" if D == 2 else "a"]); j = r.randint(0, len(names))
            grid = [g[:j] + [what if a == 0 else "1"] + g[j:] for a, g in enumerate(grid)]
        elif k == "rename-column":
            j = r.randrange(len(names)); what = grid[0][j]; grid[0][j] = what.swapcase() if r.random() < 0.5 else what + "_"
        elif k == "short-row":
            a = r.randrange(1, len(grid)); n = r.randint(1, len(names) - 1); what = f"row {a} has {n}"; grid[a] = grid[a][:n]
        elif k in ("not-a-number", "empty-field"):
            a = r.randrange(1, len(grid)); j = r.randrange(len(names)); what = f"row {a} column {grid[0][j]}"
            grid[a][j] = "" if k == "empty-field" else r.choice(["abc", "-", "x1", "--1", "_", "e5", "#"])
        csv = "\n" + "\n".join(",".join(g) for g in grid) + "\n"
        name = "in.xml"
        if k == "no-table": text = xml(c, None)
        elif k == "empty-table": text = xml(c, r.choice(["", "\n", "\n\n"]))
        elif k == "header-only-blank": text = xml(c, "\n" + "\n".join(",".join(g) for g in grid[1:]) + "\n")  # no header at all
        elif k == "no-type": text = xml(c, csv, ptype=r.choice(["", ' type="binary"', ' type=""', ' type="CSV"']))
        elif k in ("missing-parameter", "bad-parameter"):
            keys = COND + envkeys(D)
            keys = [q for q in keys if not (q == "surfaceRatio" and "nospp" not in cfg) and not (q == "c" and "exp" not in cfg) and not (q == "eps" and "exp" in cfg)]
            what = r.choice(keys)
            text = xml(c, csv, drop=what) if k == "missing-parameter" else xml(c, csv, text={what: r.choice(["", "abc", "1,5", "1.5x", "--1", "0x"])})
        elif k == "truncated":
            text = xml(c, csv); text = text[:r.randint(10, len(text) - 12)]
        elif k == "no-file": text = None
        else: text = xml(c, csv)
        R = run_app(bins[("app", cfg)], text, timeout=60)
        if R.rc is None: raise Bad("N16", "malformed-hang", f"{k} {what}: the program did not end")
        if R.rc == 0: raise Bad("N16", "malformed-accepted", f"{k} {what}: accepted (status 0, {len(R.frames)} frames) {c.describe()}")
        if R.frames: raise Bad("N16", "malformed-result", f"{k} {what}: status {R.rc}, but {len(R.frames)} frames were written")
        chk.case((cfg, text), True); chk.stat("app/n16", "rejected"); chk.stat("app/n16", "rejected_" + k)
        if i < 8: chk.sample(f"[{cfg}] {k} {what}: rejected with status {R.rc}")
    pool(chk, cfgs, None, count, one, seed)

def n18(chk, bins, cfgs, count, seed):
    def one(cfg, i, r):
        D = DIMS[cfg]; w = 2 * D + 3
        c = make(r, D, frames=r.choice([2, 3, 4]))
        iv = c.p["outputInterval"]; c.p["startTime"] = iv * r.choice([0, 0, 1, 3, 50]); c.p["endTime"] = c.p["startTime"] + iv * r.choice([2, 3, 4])
        tiny = r.random() < 0.25
        for q in c.rows:
            k = r.random()
            if k < 0.2: q[1 + 2 * D] = r.choice([1e-300, -3.4567e-12, 1.23456789e22, -0.0, 5.0, 1e-310 if tiny else 1e-307]); q[2 + 2 * D] = r.choice([0.0, 123456.789, 1e-5])
            elif k < 0.3 and tiny and q[0] == FLUID: q[1 + D] = r.choice([1e-310, -2e-320, 1e-300])
        R1 = run_app(bins[("app", cfg)], xml(c, table(c)))
        if R1.rc != 0 or len(R1.frames) < 1: chk.stat("app/n18", "no_first_run"); return
        nos = sorted(R1.frames); k = r.choice(nos); off = nos[0]
        c2 = Case(D); c2.p = dict(c.p); c2.tag = c.tag + "-continued"
        c2.p["startTime"] = c.p["startTime"] + (k - off) * iv
        if r.random() < 0.5: c2.p["startTime"] = float("%.13g" % c2.p["startTime"])
        c2.rows = [[int(float(q[0]))] + [float(v) for v in q[1:]] for q in ([v.strip() for v in l.split(",")] for l in R1.frames[k].strip().split("\n")[1:])]
        if any(not math.isfinite(v) for q in c2.rows for v in q): chk.stat("app/n18", "not_finite"); return
        R2 = run_app(bins[("app", cfg)], xml(c2, ("\n" if r.random() < 0.5 else "") + R1.frames[k]))
        sub = any(0 < abs(v) < 2.3e-308 for q in c2.rows for v in q)
        if R2.rc != 0 and not R2.frames: raise Bad("N18", "frame-not-accepted" + ("-subnormal" if sub else ""), f"frame {k} is refused as an input (status {R2.rc}): {R2.err[-200:]}")
        if k not in R2.frames: raise Bad("N18", "frame-number", f"continued from frame {k} (start time {c2.p['startTime']}), the first frame is {sorted(R2.frames)[:1]}")
        if min(R2.frames) != k: raise Bad("N18", "frame-number", f"continued from frame {k}, the first frame is {min(R2.frames)}")
        if R2.frames[k] != R1.frames[k]:
            a, b = R1.frames[k].split("\n"), R2.frames[k].split("\n")
            j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), -1)
            raise Bad("N18", "frame-differs", f"frame {k} comes back changed: line {j}: {a[j]!r} became {b[j]!r}")
        chk.stat("app/n18", "restarts")
        if sub: chk.stat("app/n18", "frames_with_subnormals")
        # the continued run is the run of exactly that state ...
        steps, err = drive(bins[("drive", cfg)], c2)
        if steps is None or tie_at_end(c, steps, err): return
        if not fails_early(c2, steps):
            tmp = vlib.Check.__new__(vlib.Check); tmp.stat = lambda *a: None
            try: judge_run("N18", c2, R2, steps, err, tmp)
            except Bad as b: raise Bad("N18", "continued-" + b.key, b.msg)
            chk.stat("app/n18", "continued_runs")
            # ... and follows the original one: same frame numbers to the end
            if R1.rc == 0 and "ERROR" not in R1.out and sorted(R2.frames) != [q for q in nos if q >= k]:
                raise Bad("N18", "continued-frames", f"original frames {nos}, continued from {k}: {sorted(R2.frames)}")
            # first common frame after the restart: the state was rounded to 6 digits, so follow it as far as a perturbed library run allows
            if k + 1 in R1.frames and k + 1 in R2.frames:
                a = parse_frame("N18", k + 1, R1.frames[k + 1], c); b = parse_frame("N18", k + 1, R2.frames[k + 1], c)
                l0 = c.p["l_0"]; dmax = max(max(abs(x[1 + d] - y[1 + d]) for d in range(D)) for x, y in zip(a, b)) / l0
                far = max(abs(q[1 + d]) for q in c2.rows for d in range(D)) / l0
                chk.stat("app/n18", "followed"); chk.stat("app/n18", "max.deviation_after_one_interval", dmax)
                # time-step choices of both runs agree unless limited by the velocity, so the states stay within a small fraction of the spacing
                if dmax > 0.1 + 1e-4 * far: chk.stat("app/n18", "diverged")
        chk.case((cfg, c2.describe(), k), True)
        if i < 3: chk.sample(f"[{cfg}] {c.describe()} continued from frame {k}: identical, frames {sorted(R2.frames)[:4]}")
    pool(chk, cfgs, None, count, one, seed)

def n19(chk, bins, cfgs, count, seed):
    def one(cfg, i, r):
        D = DIMS[cfg]
        c = make(r, D, kinds=("fall", "fall", "tank", "scatter"), frames=r.choice([2, 3, 5, 8]))
        iv = c.p["outputInterval"]; c.p["startTime"] = iv * r.choice([0, 0, 2, 11]); c.p["endTime"] = c.p["startTime"] + iv * r.choice([2, 3, 5, 8])
        l0 = c.p["l_0"]; U = math.sqrt(9.8 * l0)
        how = r.choice(["eps", "eps", "eps", "crowd"] if "exp" not in cfg else ["crowd"])
        if how == "eps": 
            c.p["eps"] = 10 ** -r.uniform(17.5, 40); c.p["g"] = 9.8
            if c.tag == "fall" and r.random() < 0.7: # falls freely for a while before it meets the floor
                up = l0 * (c.p["r_eByl_0"] + r.uniform(0.2, 1.5))
                for q in c.rows:
                    if q[0] == FLUID: q[D] += up
                c.p["max" + AX[D][-1]] += up; c.p["endTime"] = c.p["startTime"] + iv * r.choice([8, 15, 25])
            if c.p["r_eByl_0"] < 1.9: c.p["r_eByl_0"] = 2.1
        else:
            # more particles in one place than a search cell can hold
            NL = c.p["r_eByl_0"] * (1 + 4 * c.p["courant"]) * l0; need = int((math.ceil(NL / l0) + 1) ** D * 2.5) + 20
            x = list(r.choice(c.rows)[1:1 + D]); t = r.choice([FLUID, FLUID, WALL, DUMMY]); c.tag += "+crowd"
            for _ in range(need): c.rows.append([t] + [v + l0 * r.uniform(-0.1, 0.1) for v in x] + [0.0] * D + [0.0, 0.0])
            r.shuffle(c.rows)
        steps, err = drive(bins[("drive", cfg)], c, steps=1500)
        if steps is None: chk.stat("app/n19", "drive_failed"); return
        if err is None or steps[-1].t >= end_count(c.p) * iv * (1 - 1e-9): chk.stat("app/n19", "no_failure"); return
        R = run_app(bins[("app", cfg)], xml(c, table(c)))
        if R.rc is None: raise Bad("N19", "hang", "the program did not end after a failing step")
        if R.rc != 0: raise Bad("N19", "not-reported", f"a failing step ({err[1][:60]}) ended the program with status {R.rc}: {R.err[-150:]}")
        m = re.search(r"^(.*ERROR.*)\n#(\d+): t=(\S+) \((\d+)\)\n(.*)$", R.out, re.M)
        if not m: raise Bad("N19", "no-report", f"no error report for a failing step ({err[1][:60]}): ...{R.out[-200:]!r}")
        judge_run("N19", c, R, steps, err, chk)
        st = c.p["startTime"]; off = count_interval(st, iv); nfr = max(R.frames)
        t, it, cause = float(m.group(3)), int(m.group(4)), m.group(5)
        tt = steps[-1].t + st
        if abs(t - tt) > 1e-5 * abs(tt) + 1e-12: raise Bad("N19", "report-time", f"report says t={t}, the last completed step ended at {tt:.8g}")
        if it != len(steps) - 1: raise Bad("N19", "report-step", f"report says {it} steps, {len(steps) - 1} were completed")
        if int(m.group(2)) != nfr + 1: raise Bad("N19", "report-frame", f"report names frame {m.group(2)}, the last one written is {nfr}")
        if not cause.strip(): raise Bad("N19", "report-cause", "the report names no cause")
        if cause.strip() != err[1].strip().split("\n")[0]: raise Bad("N19", "report-cause", f"the report says {cause!r}, the library error is {err[1][:80]!r}")
        if progress(R.out[m.end():]): raise Bad("N19", "continued", "progress lines after the error report")
        chk.case((cfg, c.describe()), True); chk.stat("app/n19", "failing_runs"); chk.stat("app/n19", "failing_" + how); chk.stat("app/n19", "failed_in_first_step" if len(steps) == 1 else "failed_later")
        if i < 4: chk.sample(f"[{cfg}] {c.describe()} fails after step {len(steps) - 1}: {cause}")
    pool(chk, cfgs, None, count, one, seed)

def n15(chk, bins, cfgs, count, seed):
    """hostile and malformed input files to the program built with sanitizers"""
    def one(cfg, i, r):
        D = DIMS[cfg]
        c = make(r, D, frames=r.choice([1, 2]))
        l0 = c.p["l_0"]; far = [0.0, -0.0, 1e300, -1e300, 1e-320, float("inf"), float("-inf"), float("nan"), 1e18, -1e10, 2.0 ** 31, 2.0 ** 63]
        what = r.choice(["hostile-values", "hostile-values", "many-in-one-place", "odd-times", "bytes", "structure", "valid"])
        for q in c.rows:
            if what == "hostile-values" and r.random() < 0.3:
                j = r.randrange(1, len(q)); q[j] = r.choice(far)
        if what == "many-in-one-place":
            m = r.choice([2, 20, 200]); x = [c.p["min" + a] + r.uniform(0, 1) * (c.p["max" + a] - c.p["min" + a]) for a in AX[D]]
            for _ in range(m): c.rows.append([r.choice([0, 0, 1, 2])] + [v + r.choice([0, l0 * 1e-3 * r.random()]) for v in x] + [0.0] * D + [0.0, 0.0])
        if what == "odd-times":
            iv = c.p["outputInterval"]; c.p["startTime"] = r.choice([-5 * iv, 0, 1e-12, 3.5 * iv, 1e7 * iv, iv * 2.0 ** r.randint(20, 62), iv * 10.0 ** r.randint(5, 15)]); c.p["endTime"] = c.p["startTime"] + r.choice([-1, 0, 1e-15, 0.5, 2]) * iv
        csv = table(c, r if r.random() < 0.5 else None)
        if what == "hostile-values": csv = csv.replace("nan", r.choice(["nan", "NAN", "1e999", "nan"]))
        text = xml(c, csv)
        if what == "structure":
            lines = csv.split("\n"); k = r.randrange(len(lines))
            lines[k] = r.choice(["", ",", ",,,,,,,,", lines[k] + ",", lines[k] + ", 1, 2, 3", lines[k][:len(lines[k]) // 2], "abc", lines[k].replace(",", ";"), "\t", "9" * 400, "7,1,1,1,1,1,1,1,1", "-1" + lines[k][1:], "99999999999" + lines[k][1:]])
            if r.random() < 0.2: lines = lines[:k]
            text = xml(c, "\n".join(lines), drop=r.choice([None, None, None, "rho", "minX"]))
        if what == "bytes":
            b = list(text)
            for _ in range(r.choice([1, 1, 3, 20])):
                k = r.randrange(len(b)); f = r.random()
                if f < 0.4: b[k] = chr(r.choice([0, 9, 10, 13, 32, 34, 38, 44, 45, 46, 48, 57, 60, 62, 65, 101, 127]))
                elif f < 0.7: b[k] = ""
                else: b[k] = b[k] * r.choice([2, 5])
            text = "".join(b)
            # flipped configuration values may ask for absurd resources; only the particle table and the structure are hostile
            head = xml(c, "@@").split("@@")[0]
            if not text.startswith(head): 
                k = text.find("Type")
                text = head + text[k if k >= 0 else 0:]
        R = run_app(bins[("appasan", cfg)], text, timeout=60, threads=r.choice([1, 2]))
        m = re.search(r"(runtime error: .*|ERROR: AddressSanitizer: .*|Assertion .* failed|libc\+\+ Hardening.*|assertion .* failed.*)", R.err)
        if m:
            where = re.findall(r"((?:Computer|Grid|Environment|Particle|Vector|Main|stov|Timer|ComputingCondition)\.[hc]pp:\d+)", R.err)
            raise Bad("N15", "program-undefined", f"{what}: {m.group(1)[:250]} at {' '.join(dict.fromkeys(where[:4]))}")
        if R.rc is None: chk.stat("app/n15", "slow"); return
        if R.rc not in (0, 1, -6, 134): raise Bad("N15", "program-crash", f"{what}: status {R.rc}: {R.err[-200:]}")
        if R.rc == -6 and "terminat" not in R.err: raise Bad("N15", "program-abort", f"{what}: aborted without a reported error: {R.err[-200:]}")
        chk.case((cfg, text), True); chk.stat("app/n15", what); chk.stat("app/n15", "computed" if R.rc == 0 else "stopped_with_error")
        if "ERROR" in R.out: chk.stat("app/n15", "error_reports")
        if i < 4: chk.sample(f"[{cfg}] {what}: status {R.rc}, {len(R.frames)} frames")
    pool(chk, cfgs, None, count, one, seed)

# ------------------------------------------------------------------ the shipped inputs
def dam_reference(t):
    """front position Z/L over t sqrt(2g/L) of a column twice as high as wide (Benchmark/DamBreak/*.csv)"""
    tab = [(0, 1), (0.4, 1.09), (0.7, 1.26), (0.95, 1.47), (1.2, 1.71), (1.45, 1.98), (1.7, 2.25), (1.95, 2.52), (2.2, 2.80), (2.45, 3.10), (2.7, 3.40), (2.9, 3.65)]
    for (a, u), (b, v) in zip(tab, tab[1:]):
        if t <= b: return u + (v - u) * (t - a) / (b - a)
    return tab[-1][1]

def shipped(rel): return os.path.join(vlib.REPO, "Benchmark", rel)

def generated(rel, edits):
    """the XML a shipped generator makes after edits {name in its tables: value}"""
    src = open(shipped(rel)).read()
    for k, v in edits.items():
        src, n = re.subn(r'(^\t"%s":\s*)[^,#\n]+' % k, lambda m: m.group(1) + repr(v), src, flags=re.M)
        if n != 1: continue  # the generator names it otherwise: its own preset is run
    d = tempfile.mkdtemp(prefix="openmps-", dir="/tmp")
    try:
        with open(os.path.join(d, "generate.py"), "w") as f: f.write(src)
        rc, o, er = vlib.call([vlib.PYTHON, "generate.py"], 60, cwd=d)
        if rc != 0: raise vlib.HarnessError(f"{rel}: {er[-200:]}")
        return open(os.path.join(d, "test.xml")).read()
    finally: shutil.rmtree(d, ignore_errors=True)

def parse_xml(text, D):
    import xml.etree.ElementTree as ET
    root = ET.fromstring(text); c = Case(D)
    for sec in ("condition", "environment"):
        for e in root.find(sec): c.p[e.tag] = float(e.get("value"))
    lines = [l.strip() for l in root.find("particles").text.split("\n") if l.strip()]
    head = [h.strip() for h in lines[0].split(",")]; pos = [head.index(k) for k in cols(D)]
    for l in lines[1:]:
        q = l.split(","); c.rows.append([float(q[k]) for k in pos])
    return c

def set_time(text, interval, end, extra=""):
    for k, v in (("outputInterval", interval), ("endTime", end)):
        if v is not None: text, n = re.subn(r'(<%s value=")[^"]*(")' % k, lambda m: m.group(1) + repr(v) + m.group(2), text, count=1)
    return text if not extra else text.replace("</environment>", extra + "</environment>", 1)

def n28(chk, bins, cfgs, count, seed):
    def one(cfg, i, r):
        D = 2; exp = "exp" in cfg
        sound = '<c value="%r"/>' % (10 * math.sqrt(9.8 * 0.6)) if exp else ""
        kinds = ["drop"] if cfg == "cg" else ["sample", "koshizuka", "zhou", "static", "zhou", "static", "koshizuka"]
        what = kinds[(i + (2 if cfg == "novcl" else 1 if cfg == "exp" else 0)) % len(kinds)]; noarg = False; L = None
        if what == "sample":
            text = open(shipped("Sample/Sample.xml"), encoding="utf-8-sig").read(); noarg = i < len(kinds)
            text = set_time(text, None, 0.05 if exp else 0.14, sound and "") ; L = 0.146
            if exp: sound = ""
        elif what == "koshizuka":
            l0 = r.choice([0.0105, 0.0115, 0.0125, 0.0135]); text = set_time(generated("DamBreak/generate_koshizukaoka1996.py", {"l_0": l0}), r.choice([0.005, 0.01]), 0.05 if exp else 0.17, sound); L = 0.146
        elif what == "zhou":
            l0 = r.choice([0.06, 0.075, 0.1]); text = set_time(generated("DamBreak/generate_zhouetal1999.py", {"l_0": l0}), r.choice([0.01, 0.02]), 0.2 if exp else 0.8, sound)
        elif what == "static":
            w, h = r.randint(5, 12), r.randint(6, 14); text = set_time(generated("StaticPressure/generate.py", {"width": w, "height": h, "wall": h + r.randint(3, 8)}), None, r.choice([0.003, 0.005]), sound)
        else:
            w = r.randint(4, 7); text = set_time(generated("CentralGravity/generate.py", {"width": w, "height": r.randint(4, 7), "areaSize": r.choice([2, 3])}), None, 0.1)
        c = parse_xml(text, D); c.tag = what
        fluid = [q for q in c.rows if q[0] == FLUID]; l0 = c.p["l_0"]; iv = c.p["outputInterval"]; n = end_count(c.p)
        threads = r.choice([1, 2])
        if noarg:
            d = tempfile.mkdtemp(prefix="openmps-", dir="/tmp")
            try:
                wd = os.path.join(d, "src", "OpenMps"); os.makedirs(wd); os.makedirs(os.path.join(d, "Benchmark", "Sample"))
                with open(os.path.join(d, "Benchmark", "Sample", "Sample.xml"), "w") as f: f.write(text)
                rc, o, er = vlib.call([bins[("app", cfg)]], 300, {"OMP_NUM_THREADS": "2"}, cwd=wd)
                R = RunResult(); R.rc, R.out, R.err, R.frames = rc, o, er, {}
                res = os.path.join(wd, "result")
                for f in sorted(os.listdir(res)) if os.path.isdir(res) else []:
                    m = re.fullmatch(r"particles_(\d{5,})\.csv", f)
                    if m: R.frames[int(m.group(1))] = open(os.path.join(res, f), errors="replace").read()
            finally: shutil.rmtree(d, ignore_errors=True)
        else: R = run_app(bins[("app", cfg)], text, timeout=300, threads=threads)
        if R.rc is None: raise Bad("N28", "hang", f"{what}: the program did not end")
        if R.rc != 0: raise Bad("N28", "exit", f"{what}: status {R.rc}: {R.err[-200:]}")
        if "ERROR" in R.out: raise Bad("N28", "failed", f"{what}: the run reports an error: {R.out[-150:]!r}")
        if R.out.rstrip().split("\n")[-1].strip() != "finished": raise Bad("N28", "unfinished", f"{what}: the last line is {R.out[-80:]!r}")
        if sorted(R.frames) != list(range(n + 1)): raise Bad("N28", "frames", f"{what}: frames {sorted(R.frames)[:3]}..{sorted(R.frames)[-1:]}, expected 0..{n}")
        if [(q[0], q[3]) for q in progress(R.out)] != [(k, len(c.rows)) for k in range(n + 1)]: raise Bad("N28", "progress", f"{what}: progress lines do not name every frame with {len(c.rows)} particles")
        lo, hi = min(q[1] for q in c.rows if q[0] == WALL) if what != "drop" else 0, max(q[1] for q in c.rows if q[0] == WALL) if what != "drop" else 0
        bottom = min(q[2] for q in c.rows if q[0] == WALL) if what != "drop" else 0
        first = None
        for k in range(n + 1):
            rows = parse_frame("N28", k, R.frames[k], c)
            for j, (q, q0) in enumerate(zip(rows, c.rows)):
                if q[0] != q0[0]: raise Bad("N28", "type", f"{what}: particle {j} changed type from {q0[0]} to {q[0]} by frame {k}")
                if not all(math.isfinite(v) for v in q): raise Bad("N28", "nonfinite", f"{what}: particle {j} not finite in frame {k}")
                if k == 0 and not all(same6(a, b) for a, b in zip(q, q0)): raise Bad("N28", "initial", f"{what}: initial frame row {j} is {q}, the table has {q0}")
                if what == "drop": continue
                if q[0] == FLUID and not (lo <= q[1] <= hi and q[2] >= bottom): raise Bad("N28", "leak", f"{what}: fluid particle {j} outside the container in frame {k}: {q[1]:.5g}, {q[2]:.5g}")
                if q[0] != FLUID and not (same6(q[1], q0[1]) and same6(q[2], q0[2]) and q[3] == 0 and q[4] == 0): raise Bad("N28", "wall-moved", f"{what}: wall particle {j} moved by frame {k}")
            if L and not exp:
                t = progress(R.out)[k][1]; T = t * math.sqrt(2 * 9.8 / L); z = (max(q[1] for q in rows if q[0] == FLUID) + l0) / L
                if T > 0.4 and abs(z - dam_reference(T)) > 0.2 + 0.1 * T: raise Bad("N28", "front", f"{what}: the front is at {z:.3f} column widths at t sqrt(2g/L) = {T:.2f}, the reference at {dam_reference(T):.3f}")
                chk.stat("app/n28", "fronts_compared")
            if what == "static" and k == n and not exp:
                top = max(q[2] for q in c.rows if q[0] == FLUID)
                if max(abs(q[2] - q0[2]) for q, q0 in zip(rows, c.rows)) > 0.6 * l0: raise Bad("N28", "not-still", f"{what}: still water moved by more than half a spacing")
            chk.stat("app/n28", "frames"); chk.stat("app/n28", "rows", len(rows))
        moved = max(math.dist(a[1:3], b[1:3]) for a, b in zip(rows, c.rows)) / l0
        if what in ("sample", "koshizuka", "zhou") and not moved > 1: raise Bad("N28", "no-motion", f"{what}: nothing moved by more than {moved:.3f} spacings")
        chk.case((cfg, text), True); chk.stat("app/n28", what); chk.stat("app/n28", "without_argument", int(noarg))
        if i < 6: chk.sample(f"[{cfg}] {what}{' (no argument)' if noarg else ''} n={len(c.rows)} l0={l0} frames {n + 1} largest motion {moved:.2f} l0")
    pool(chk, cfgs, None, count, one, seed)
