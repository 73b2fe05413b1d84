#!/usr/bin/env python3
"""quiet.py [--tests] [NAME[:Nxx,...]]...: applies each behaviour-preserving change of tools/refactor/ to a copy of /repo, (--tests: builds it and runs
the stable tests) and runs every check (or those named) against it: all must exit 0."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
import mkseeds
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
args = [a for a in sys.argv[1:] if not a.startswith("-")]
names = args or sorted(f[:-5] for f in os.listdir(f"{HERE}/refactor"))
work = f"/tmp/quiet{os.getpid()}"; bad = 0
try:
    os.makedirs(work)
    for a in names:
        name, _, ids = a.partition(":")
        if "--tests" in sys.argv:
            mkseeds.WORK = work; d, v = mkseeds.fresh("t")
            assert sh(f"git apply {HERE}/refactor/{name}.diff", cwd=d).returncode == 0, name
            sh(f"rm -rf {d}/_build"); r = sh(f"bash {v}/build.sh", cwd=d); assert r.returncode == 0, (r.stdout + r.stderr)[-3000:]
            sh(f"bash {v}/test.sh {v}/out.json", cwd=d); o = json.load(open(f"{v}/out.json")); print(name, "tests", {k: len(x) for k, x in o.items() if isinstance(x, list)}, flush=True)
            shutil.rmtree(d); shutil.rmtree(v)
        sh(f"rsync -a --exclude build --exclude seeded --exclude .git --exclude replay --exclude evidence {V}/ {work}/v/ || (mkdir -p {work}/v; cp -a {V}/*.py {V}/harness {V}/*.json* {V}/known-findings.txt {work}/v/)")
        sh(f"cp -a /repo {work}/r")
        r = sh(f"git apply {HERE}/refactor/{name}.diff", cwd=f"{work}/r")
        if r.returncode: print(name, "does not apply", r.stderr); bad = 1; continue
        for pid in (ids.split(",") if ids else [f"N{i:02d}" for i in range(1, 26)]):
            t = time.time()
            r = sh(f"python3 vrun.py {pid}", cwd=f"{work}/v", env=dict(os.environ, VERIF_REPO=f"{work}/r", VERIF_SEED="1", VERIF_TIER="quick"))
            if r.returncode: bad = 1
            print(f"{name} {pid} {'quiet' if r.returncode == 0 else 'ALARM rc %d' % r.returncode} {time.time() - t:4.0f}s", "" if r.returncode == 0 else (r.stdout + r.stderr)[-1500:], flush=True)
        shutil.rmtree(f"{work}/r"); shutil.rmtree(f"{work}/v")
finally:
    shutil.rmtree(work, ignore_errors=True)
sys.exit(bad)
