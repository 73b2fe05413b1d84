#!/usr/bin/env python3
"""mutate.py FILE SEED COUNT [first-line last-line]: random small changes to src/OpenMps/FILE, each in a scratch copy, screened with short runs of the
library modes in builds that see the change (Main.cpp/stov.hpp: program checks); prints the survivors, which are then judged by hand."""
import os, random, re, shutil, subprocess, sys, json, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, V)
import vlib
SRC = "/repo/src/OpenMps"; W = f"/tmp/mutate{os.getpid()}"
MODES = ["step", "density", "implicit", "assembly", "explicit", "search", "dt", "walls", "types", "fresh", "push", "repulse", "momentum", "disabled", "frames", "groups", "portions", "solver", "solverstep", "grid", "n0", "explicitphys", "fail", "several", "invert"]
CFGS = ["def", "d3", "nospp", "gc", "exp", "nohl", "noecs", "nods", "nohs", "novcl", "off3", "gc3", "seq"]
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=!\-])<(?![<=a-zA-Z])", "<="), (r"(?<![<>=!\-])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<![+\w(\[,=])\s\+\s", " - "), (r"\s-\s", " + "), (r"\s\*\s", " / "), (r"\s/\s", " * "),
       (r"std::max", "std::min"), (r"std::min", "std::max"), (r"!(?=[a-zA-Z(])", ""), (r"\+=", "-="), (r"-=", "+="), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\b3\b", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bWall\b", "Dummy"), (r"\bDummy\b", "Wall"), (r"\bDisabled\b", "Dummy"), (r"\bIncompressibleNewton\b", "Wall"), (r"\.X\(\)", ".U()"), (r"\.U\(\)", ".X()"), (r"\bdt\b", "(2*dt)"), (r"\bn0\b", "(1.01*n0)"), (r"\br_e\b", "(1.01*r_e)"), (r"\brho\b", "(1.01*rho)"), (r"\bnu\b", "(1.01*nu)"), (r"\bj\b", "i"), (r"\bi\b", "(i/2)"), (r"AXIS_X", "AXIS_Z"), (r"AXIS_Z", "AXIS_X"), (r"AXIS_Y", "AXIS_X"), ("DELETE", "")]
def mutants(name, seed, count, lo, hi):
    t = open(f"{SRC}/{name}", encoding="utf-8", newline="").read().split("\n"); r = random.Random(seed); out = []; seen = set()
    while len(out) < count:
        k = r.randrange(lo, min(hi, len(t))); l = t[k]; s = l.strip()
        if not s or s.startswith(("//", "#", "/*", "*", "template", "using", "namespace", "{", "}", "include")): continue
        code, _, com = l.partition("//")
        o, n = r.choice(OPS)
        if o == "DELETE":
            if not s.endswith(";") or s.startswith(("const", "auto", "return", "static", "double", "using", "break")): continue
            new = "\t;"; 
        else:
            m = list(re.finditer(o, code))
            if not m: continue
            q = r.choice(m); new = code[:q.start()] + n + code[q.end():]
        if (k, new) in seen or new == code: continue
        seen.add((k, new)); tt = list(t); tt[k] = new + ("//" + com if _ else "")
        out.append((k + 1, l.strip(), new.strip(), "\n".join(tt)))
    return out
def ppsum(d, cfg):
    opts = "-fopenmp" if cfg != "seq" else ""
    return hash(sh(f"g++ -std=c++17 -E -P -w {opts} {vlib.CONFIG.get(cfg, '')} -I{d} -include {V}/harness/cfg.hpp -x c++ {d}/Computer.hpp").stdout)
clean = {}
def lib(name, k, m):
    d = f"{W}/{k}"; shutil.rmtree(d, ignore_errors=True); shutil.copytree(SRC, d, ignore=shutil.ignore_patterns("test"))
    open(f"{d}/{name}", "w", encoding="utf-8", newline="").write(m[3])
    used = 0
    for cfg in CFGS:
        if used >= 2: break
        if ppsum(d, cfg) == clean[cfg]: continue
        used += 1
        opts = "-fopenmp" if cfg != "seq" else ""
        r = sh(f"g++ -std=c++17 -w -O1 {opts} {vlib.CONFIG.get(cfg, '')} -I{d} -include array {V}/harness/mon.cpp -o {d}/mon")
        if r.returncode: return "nobuild", cfg
        for mode in MODES:
            if mode == "invert" and "gc" not in cfg: continue
            n = {"several": 60, "n0": 300, "grid": 1500, "search": 600}.get(mode, 250)
            try: r = subprocess.run([f"{d}/mon", mode, "4", "0", str(n), "1"], capture_output=True, text=True, errors="replace", timeout=90, env=vlib.ENV)
            except subprocess.TimeoutExpired: return "caught", f"{cfg} {mode} timeout"
            if r.returncode or "\nV " in "\n" + r.stdout: return "caught", f"{cfg} {mode}"
    return ("SURVIVED" if used else "same"), str(used)
def app(name, k, m):
    d = f"{W}/{k}"; shutil.rmtree(d, ignore_errors=True); shutil.copytree(SRC, d + "/src/OpenMps", ignore=shutil.ignore_patterns("test")); shutil.copytree("/repo/Benchmark", d + "/Benchmark")
    open(f"{d}/src/OpenMps/{name}", "w", encoding="utf-8", newline="").write(m[3])
    v = f"{d}/v"; os.makedirs(v); sh(f"cp -a {V}/*.py {V}/harness {V}/*.json* {V}/known-findings.txt {v}/")
    for pid in ("N16", "N17", "N18", "N19", "N28", "N15"):
        r = sh(f"python3 vrun.py {pid}", cwd=v, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"), timeout=1500)
        if "build of" in r.stdout: return "nobuild", pid
        if r.returncode: return "caught", f"{pid} rc {r.returncode} {r.stdout.splitlines()[1][:80] if len(r.stdout.splitlines()) > 1 else ''}"
    return "SURVIVED", ""
if __name__ == "__main__":
    name, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); lo, hi = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (0, 10 ** 6)
    ms = mutants(name, seed, count, lo, hi); os.makedirs(W)
    isapp = name in ("Main.cpp", "stov.hpp", "ComputingCondition.hpp")
    if not isapp:
        with ThreadPoolExecutor(8) as ex:
            for c, h in zip(CFGS, ex.map(lambda c: ppsum(SRC, c), CFGS)): clean[c] = h
    def go(a):
        k, m = a
        try: q = (app if isapp else lib)(name, k, m)
        except Exception as e: q = ("ERROR", repr(e)[:200])
        shutil.rmtree(f"{W}/{k}", ignore_errors=True)
        print(f"{q[0]:9s} {q[1]:24s} {name}:{m[0]}: {m[1][:110]}  ==>  {m[2][:110]}", flush=True)
        return q[0]
    with ThreadPoolExecutor(2 if isapp else 8) as ex: rs = list(ex.map(go, enumerate(ms)))
    print({q: rs.count(q) for q in set(rs)})
    shutil.rmtree(W, ignore_errors=True)
