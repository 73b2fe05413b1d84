#!/usr/bin/env python3
"""catch.py [-q] [id...]: runs the property's check against each planted change, from a copy of /verif and of /repo; results in tools/caught.json.
An id may be written id:Nxx to run another property's check."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); SEED = os.path.join(V, "seeded"); RES = os.path.join(HERE, "caught.json")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
work = f"/tmp/catch{os.getpid()}"
args = [a for a in sys.argv[1:] if not a.startswith("-")]
res = json.load(open(RES)) if os.path.exists(RES) else {}
ids = args or [d for d in sorted(os.listdir(SEED)) if d not in res]
try:
    os.makedirs(work)
    sh(f"rsync -a --exclude build --exclude seeded --exclude .git --exclude replay --exclude evidence {V}/ {work}/v/ || cp -a {V}/*.py {V}/harness {V}/*.json* {V}/known-findings.txt {work}/v/")
    for i in ids:
        i, _, pid = i.partition(":")
        pid = pid or json.load(open(f"{SEED}/{i}/meta.json"))["property"]
        sh(f"cp -a /repo {work}/r")
        r = sh(f"git apply {SEED}/{i}/patch.diff", cwd=f"{work}/r")
        if r.returncode: print(i, "does not apply", r.stderr); shutil.rmtree(f"{work}/r"); continue
        t = time.time()
        r = sh(f"python3 vrun.py {pid}", cwd=f"{work}/v", env=dict(os.environ, VERIF_REPO=f"{work}/r", VERIF_SEED="1", VERIF_TIER="quick"))
        keys = sorted({l.split("replay=")[0][:160] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violation" in l][:3]
        ok = r.returncode == 1 and any(f"property={pid}" in k for k in keys)
        print(f"{i:20s} {pid} {'CAUGHT' if ok else 'missed' if r.returncode == 0 else 'rc %s' % r.returncode} {time.time() - t:5.0f}s  {' | '.join(r.stdout.splitlines()[:2])[:250]} {r.stderr[-200:]}", flush=True)
        if pid == json.load(open(f"{SEED}/{i}/meta.json"))["property"]:
            res[i] = dict(property=pid, caught=ok, rc=r.returncode); json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
        shutil.rmtree(f"{work}/r")
finally:
    shutil.rmtree(work, ignore_errors=True)
