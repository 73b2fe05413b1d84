#!/usr/bin/env python3
"""vrun.py <property id> [--replay file] | --setup : decides one property on /repo's current tree (see DESIGN.md)."""
import json, os, sys
import vlib, appcheck
from vlib import Check, HarnessError

IMPL = ["def", "d3", "nospp", "nohl", "nohs", "noecs", "nods", "gc", "cg", "novcl", "gc3", "off", "off3"]  # builds with an implicit pressure
EXPL = ["exp", "expnoecs", "expnospp", "exp3"]
ALL = IMPL + EXPL

# property -> list of (mode, {config: cases}) ; cases are those of the quick tier
def plan(pid):
    def m(mode, cfgs, n, kind="mon", heavy=None, **kw): return dict(mode=mode, cfgs=cfgs, n=n, kind=kind, **kw)
    P = {
        "N01": [m("grid", ["def", "d3", "novcl"], 9000), m("search", ["def", "d3", "nohl", "exp", "nospp", "nods"], 5000)],
        "N02": [m("n0", ["def", "d3", "nohl", "nospp", "exp"], 1500), m("density", ["def", "d3", "nospp", "nohl", "exp", "expnospp", "off3", "nospp3"], 1800)],
        "N03": [m("explicit", ["def", "d3", "nohl", "nohl3", "cg", "cg3", "exp", "off", "exp3"], 2500), m("explicitphys", ["def", "d3", "nohl", "nohl3", "cg"], 3000)],
        "N04": [m("assembly", ["def", "d3", "nospp", "nohl", "nohs", "noecs", "novcl", "off", "off3", "nospp3", "nohl3"], 2200)],
        "N05": [m("solver", ["def", "novcl", "d3"], 4000), m("solverstep", ["def", "novcl", "d3", "nospp", "nohl", "off"], 1000)],
        "N06": [m("implicit", ["def", "d3", "gc", "gc3", "nospp", "off", "off3", "exp", "exp3", "expnoecs", "nospp3"], 2200)],
        "N07": [m("momentum", ["def", "d3", "nospp", "nohl", "off", "off3", "exp", "expnospp", "novcl"], 1800)],
        "N08": [m("step", ["def", "d3", "nospp", "nohl", "nohs", "noecs", "nods", "gc", "exp", "expnoecs", "cg", "novcl", "off", "off3", "gc3", "exp3"], 900),
                m("fresh", ["def", "d3", "nospp", "nohs", "noecs", "gc", "exp", "novcl", "off"], 500)],
        "N09": [m("dt", ["def", "d3", "exp", "exp3", "nospp", "novcl"], 6000)],
        "N10": [m("walls", ["def", "d3", "exp", "nospp", "gc", "novcl"], 2000)],
        "N11": [m("types", ["def", "d3", "exp", "nospp", "novcl"], 1500), m("disabled", ["def", "d3", "exp", "nospp", "gc", "nohl", "novcl"], 1200)],
        "N12": [m("frames", ["def", "d3", "nospp", "nohl", "gc", "gc3", "exp", "novcl", "off", "off3"], 1500)],
        "N13": [m("groups", ["def", "d3", "nospp", "nohl", "exp", "novcl", "off", "gc"], 1800)],
        "N14": [m("race", ["def", "d3", "novcl", "exp", "gc", "nospp"], 64, kind="montsan", shard=8),
                m("threads", ["def", "d3", "nospp", "exp", "gc", "novcl", "off"], 420, shard=60),
                m("threadsbig", ["def", "d3", "exp", "gc"], 6, shard=1)],
        "N15": [m("hostile", ["def", "d3", "exp", "nospp", "gc3", "novcl"], 900, kind="monasan", shard=100), m("hostile", ["def", "d3"], 300, kind="monasanomp", shard=100),
                m("hostile", ["def", "d3"], 12, kind="monvg", shard=3)],
        "N19": [m("fail", ["def", "d3", "nospp", "exp", "novcl", "off"], 1500)],
        "N20": [m("invert", ["gc", "gc3"], 30000)],
        "N21": [m("tank", ["def"], 24, shard=1), m("tank", ["d3"], 6, shard=1), m("tank", ["nospp", "gc", "exp", "noecs", "nohl"], 3, shard=1), m("tank", ["exp3", "novcl"], 1, shard=1)],
        "N22": [m("portions", ["def", "d3", "nospp", "exp", "gc", "novcl", "nohl", "off"], 1000)],
        "N29": [m("several", ["def", "d3", "nospp", "exp", "gc", "novcl", "nohl", "cg"], 600), m("after", ["def", "d3", "nospp", "exp", "novcl", "gc"], 400), m("several", ["def", "d3", "novcl"], 60, kind="montsan", shard=15)],
        "N30": [m("volume", ["def"], 20, shard=1), m("volume", ["d3"], 6, shard=1), m("volume", ["nospp", "gc", "noecs", "nods", "nohl", "exp"], 4, shard=1), m("volume", ["novcl"], 1, shard=1)],
        "N26": [m("dam", ["exp"], 1, shard=1), m("dam", ["novcl"], 1, shard=1), m("dam", ["def"], 10, shard=1), m("dam", ["nospp", "gc", "nods"], 2, shard=1)],
        "N27": [m("drop", ["cg"], 32, shard=2), m("drop", ["cg3"], 4, shard=1)],
        "N24": [m("repulse", ["def", "d3", "nospp", "exp", "gc", "novcl", "nods"], 3000), m("push", ["def", "d3", "nospp", "exp", "exp3", "gc", "noecs", "nods"], 2500)],
        "N25": [m("still", ["def"], 32, shard=2), m("still", ["d3"], 8, shard=1), m("still", ["nospp", "gc", "noecs", "nods"], 5, shard=1), m("still", ["novcl"], 2, shard=1)],
    }
    return P.get(pid, [])

APP = {  # program-level part: config -> runs (quick)
    "N15": {"def": 220, "d3": 120},
    "N16": {"def": 1200, "d3": 700, "nospp": 300, "exp": 300},
    "N17": {"def": 800, "d3": 300, "nospp": 160, "exp": 160},
    "N18": {"def": 700, "d3": 360, "nospp": 120, "exp": 160},
    "N19": {"def": 600, "d3": 160, "nospp": 120, "exp": 60},
    "N28": {"exp": 2, "novcl": 1, "def": 8, "nospp": 4, "cg": 3},
}

RULES = {
    "mon": "Library cases: scene (arrangement, types, motion, parameters) generated from (seed, case number) by harness/gen.hpp; evaluated in every listed build; non-trivial = the oracle made at least one comparison that is not trivially true (interacting pair, matrix entry, moved particle, compared step, refused system ...); distinct = different build, mode and scene description.",
    "app": "Program cases: XML input generated from (seed, build, index) by appcheck.py, run by the real program in a scratch directory, judged on frames, progress lines and exit status; non-trivial as stated per check (more than the initial frame, a rejection, a failing step, a restart); distinct = different build and input.",
    "dump": "Build comparison: the same generated scenes run in each build; non-trivial = a step computed in both builds whose sensitivity to a 1e-13 perturbation is below the limit; distinct = different pair of builds, scene and step.",
}

ASSUME = {
    "N01": ["distances within 1e-9 of the neighbour distance are not judged"],
    "N02": ["pairs within 1e-9 of the influence radius are not judged"],
}

def jobs_for(pid, tier, seed):
    out = []
    rounds = 1 if tier == "quick" else 10
    for p in plan(pid):
        shard = p.get("shard") or max(50, p["n"] // 4)
        for rnd in range(rounds):
            for cfg in p["cfgs"]:
                done = 0; k = 0
                while done < p["n"]:
                    c = min(shard, p["n"] - done)
                    out.append(dict(kind=p["kind"], cfg=cfg, mode=p["mode"], seed=seed + 1000 * rnd, first=done, count=c,
                                    threads=3 if k % 4 == 3 and p["kind"] in ("mon", "monasanomp") and p["mode"] not in ("threads", "threadsbig") else 1, timeout=400))
                    done += c; k += 1
    # long jobs first
    out.sort(key=lambda j: 0 if j["mode"] in ("threadsbig", "tank", "still", "dam", "drop", "race", "volume") or j["kind"] == "monvg" else 1)
    return out

def n23(chk, tier, seed):
    import struct
    builds = [("mon", "def"), ("mon", "novcl"), ("monseq", "def"), ("monseq", "novcl")]
    b3 = [("mon", "d3"), ("mon", "novcl3"), ("monseq", "d3"), ("monseq", "novcl3")]
    bins = vlib.build(builds + b3)
    chk.rules.append(RULES["dump"])
    from concurrent.futures import ThreadPoolExecutor
    per, n = 100, (1600 if tier == "quick" else 16000)
    def chunk(job):
        fam, first = job
        res = []
        for kind, cfg in fam:
            argv = [bins[(kind, cfg)], "dump", str(seed), str(first), str(per), "2" if kind == "mon" and (first // per) % 4 == 3 else "1"]
            for attempt in (0, 1):
                rc, o, er = vlib.call(argv, 400)
                if rc == 0 and "\nEND" in "\n" + o: break
            else:
                chk.violation("abnormal-end", f"[{kind}/{cfg}] run of cases {first}..{first + per} ended with {rc}: {er[-200:]}", dict(job=dict(kind=kind, cfg=cfg, mode="dump", seed=seed, first=first, count=per, threads=1), message=er[-500:])); return
            d = {}
            for l in o.splitlines():
                if l.startswith("D "):
                    q = l.split(" "); d[(int(q[1]), int(q[2]))] = q[3:]
                elif l.startswith("X ") and (kind, cfg) == fam[0]: chk.sample(l[2:])
            res.append(((kind, cfg), d))
        D = 3 if fam is b3 else 2
        (rk, rd) = res[0]
        for (k, d) in res[1:]:
            dead = set()
            for key in sorted(rd):
                if key[0] in dead: continue
                a, b = rd[key], d.get(key)
                chk.case(None, False)
                if b is None or a[0] != "ok" or b[0] != "ok":
                    if b is not None and a[0] != b[0] and key[1] == 0: chk.stat("app/dump", "one_sided_errors")
                    dead.add(key[0]); continue
                sens = max(float(a[1]), float(b[1]))
                if not sens < 1e-6: dead.add(key[0]); chk.stat("app/dump", "sensitive"); continue
                tol = 2e-8 * 10 + 1000 * sens
                da, db = float(a[2]), float(b[2])
                sc = [float(v) for v in a[3:7]]
                rep = dict(job=dict(kind=k[0], cfg=k[1], mode="dump", seed=seed, first=key[0], count=1, threads=1), message="")
                name = f"{rk[0]}/{rk[1]} and {k[0]}/{k[1]} case {key[0]} step {key[1]}"
                if abs(da - db) > 1e-6 * abs(da): chk.violation("dt-differs", f"{name}: time steps {da} and {db}", rep); dead.add(key[0]); continue
                w = 3 + 2 * D; va, vb = a[7:], b[7:]
                if len(va) != len(vb): chk.violation("size-differs", f"{name}: {len(va) // w} and {len(vb) // w} particles", rep); dead.add(key[0]); continue
                bad = None
                for i in range(len(va) // w):
                    pa, pb = va[i * w:(i + 1) * w], vb[i * w:(i + 1) * w]
                    if pa[0] != pb[0]: bad = (i, "type", pa[0], pb[0]); break
                    for e in range(D):
                        for off, s, nm in ((1 + 2 * e, sc[0], "position"), (2 + 2 * e, sc[1], "velocity")):
                            if not abs(float(pa[off]) - float(pb[off])) <= tol * s: bad = (i, nm, pa[off], pb[off])
                    for off, s, nm in ((1 + 2 * D, sc[2], "pressure"), (2 + 2 * D, sc[3], "density")):
                        if not abs(float(pa[off]) - float(pb[off])) <= tol * s: bad = (i, nm, pa[off], pb[off])
                    if bad: break
                if bad:
                    if float(a[1]) > 1e-9 and False: continue
                    chk.violation("builds-differ", f"{name}: particle {bad[0]} {bad[1]} {bad[2]} vs {bad[3]} (sensitivity {sens:.1e})", rep); dead.add(key[0]); continue
                chk.case((rk, k, key), True); chk.stat("app/dump", "compared_states"); chk.stat("app/dump", "compared_particles", len(va) // w)
    jobs = [(f, k) for k in range(0, n, per) for f in (builds, b3)]
    with ThreadPoolExecutor(vlib.CORES) as ex: list(ex.map(chunk, jobs))
    chk.notes["builds"] = [f"{k}/{c}" for k, c in builds + b3]

def run(pid, tier, seed):
    chk = Check(pid, tier, seed)
    chk.assumptions = ASSUME.get(pid, [])
    if pid == "N23": n23(chk, tier, seed)
    jobs = jobs_for(pid, tier, seed)
    apps = APP.get(pid, {})
    kinds = {"N15": ["appasan"]}.get(pid, ["app", "drive"]) if apps else []
    bins = vlib.build([(j["kind"], j["cfg"]) for j in jobs] + [(k, c) for c in apps for k in kinds])
    if jobs:
        chk.rules.append(RULES["mon"]); chk.run_jobs(jobs)
    if apps:
        chk.rules.append(RULES["app"])
        scale = 1 if tier == "quick" else 10
        fn = getattr(appcheck, pid.lower())
        fn(chk, bins, list(apps), {c: n * scale for c, n in apps.items()}, seed)
    return chk.finish()

def replay(path):
    d = json.load(open(path)); print(json.dumps(d, indent=1)[:3000])
    chk = Check(d["property"], "quick", 0)
    if "job" in d:
        j = d["job"]; bins = vlib.build([(j["kind"], j["cfg"])])
        argv = chk.argv(j, bins[(j["kind"], j["cfg"])]); print(" ".join(argv))
        rc, o, er = vlib.call(argv, 600); print(o[-3000:], er[-3000:], "status", rc)
    elif "app" in d:
        a = d["app"]; pid = d["property"]
        kinds = {"N15": ["appasan"]}.get(pid, ["app", "drive"])
        bins = vlib.build([(k, a["cfg"]) for k in kinds])
        class One(dict):
            pass
        old = appcheck.pool
        def only(chk, cfgs, kk, count, fn, seed):
            import random
            try: fn(a["cfg"], a["index"], random.Random(f"{pid}/{a['seed']}/{a['cfg']}/{a['index']}"))
            except appcheck.Bad as b: print("REPRODUCED", b.pid, b.key, b.msg)
        appcheck.pool = only
        getattr(appcheck, pid.lower())(chk, bins, [a["cfg"]], 1, a["seed"])

def setup():
    """everything the quick checks need, for the tree as it is"""
    want = []
    for pid in [f"N{i:02d}" for i in range(1, 31)]:
        want += [(j["kind"], j["cfg"]) for j in jobs_for(pid, "quick", 1)]
        kinds = {"N15": ["appasan"]}.get(pid, ["app", "drive"])
        want += [(k, c) for c in APP.get(pid, {}) for k in kinds]
    want += [(k, c) for k in ("mon", "monseq") for c in ("def", "novcl", "d3", "novcl3")]
    vlib.build(want)

if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup": setup(); sys.exit(0)
        if sys.argv[1] == "--replay": replay(sys.argv[2]); sys.exit(0)
        sys.exit(run(sys.argv[1], ("thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")), int(os.environ.get("VERIF_SEED", "1"))))
    except HarnessError as e:
        print("harness error:", e); sys.exit(2)
