#!/usr/bin/env python3
"""mkseeds.py [--try] [id...]: writes /verif/seeded/<id>/ from tools/seeds/*.py; --try confirms each in a scratch copy of /repo
(builds, passes the stable tests, demonstration passes without and fails with the change) and drops those that do not."""
import importlib.util, glob, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); SD = os.path.join(HERE, "seeds"); OUT = os.path.join(os.path.dirname(HERE), "seeded")
WORK = f"/tmp/seedwork{os.getpid()}"
def bugs():
    all = []
    for f in sorted(glob.glob(os.path.join(SD, "bugs*.py"))):
        s = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); all += m.B
    ids = [b["id"] for b in all]; assert len(ids) == len(set(ids)), "duplicate id"
    return all
def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors="replace"); return r.returncode, r.stdout + r.stderr
def fresh(k):
    d = f"{WORK}/{k}"
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(WORK, exist_ok=True)
    sh(f"cp -a /repo {d}")
    v = f"{WORK}/vp{k}"; shutil.rmtree(v, ignore_errors=True); os.makedirs(v)
    for f in ("common.sh", "build.sh", "test.sh", "results.py"):
        t = open(f"/opt/vp/{f}").read().replace("/repo", d).replace("/opt/vp", v); open(f"{v}/{f}", "w").write(t)
    return d, v
def files(b, out):
    os.makedirs(out, exist_ok=True)
    meta = dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"])
    json.dump(meta, open(f"{out}/meta.json", "w"), indent=1)
    if b["cpp"]:
        open(f"{out}/demo.cpp", "w").write('#include "demo.hpp"\n' + b["cpp"] + "\n"); shutil.copy(f"{SD}/demo.hpp", out)
        omp = "-fopenmp" if b["omp"] else ""
        sh_ = f'''#!/bin/bash
# cwd: the repository. Compiles demo.cpp against the sources and runs it.
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export OMP_WAIT_POLICY=passive
g++ -std=c++17 -O1 -w {omp} {b["flags"]} -I"$PWD/src/OpenMps" -I"$here" "$here/demo.cpp" -o "$tmp/demo" || exit 3
timeout 200 "$tmp/demo"
'''
    else:
        shutil.copy(f"{SD}/app.py", out); open(f"{out}/demo.py", "w").write("from app import *\n" + b["py"] + "\n")
        sh_ = '''#!/bin/bash
# cwd: the repository, after the build. Runs the built program in scratch directories.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 timeout 200 python3 "$here/demo.py"
'''
    open(f"{out}/demo.sh", "w").write(sh_); os.chmod(f"{out}/demo.sh", 0o755)
def edit(b, root):
    for file, edits in ([(b["file"], b["edits"])] if isinstance(b["file"], str) else b["file"]):
        p = f"{root}/{file}"; t = open(p, encoding="utf-8", newline="").read()
        for o, n in edits:
            if t.count(o) != 1: return f"{b['id']}: text found {t.count(o)} times in {file}: {o[:70]!r}"
            t = t.replace(o, n)
        open(p, "w", encoding="utf-8", newline="").write(t)
    return None
def one(b, k, attempt):
    out = f"{OUT}/{b['id']}"; tmp = f"{WORK}/out-{b['id']}"; shutil.rmtree(tmp, ignore_errors=True)
    files(b, tmp)
    d, v = fresh(k)
    rc0, o0 = sh(f"{tmp}/demo.sh", cwd=d)
    e = edit(b, d)
    if e: return b["id"], "EDIT " + e
    rc, diff = sh("git diff", cwd=d); open(f"{tmp}/patch.diff", "w").write(diff)
    if attempt:
        if rc0 != 0: return b["id"], f"demo fails on the clean tree ({rc0}): {o0[-600:]}"
        # the recorded dependencies name /repo, so only a build from nothing notices changed headers
        if any("Main" not in f for f, _ in ([(b["file"], 0)] if isinstance(b["file"], str) else b["file"])): sh(f"rm -rf {d}/_build")
        rc, o = sh(f"bash {v}/build.sh", cwd=d)
        if rc: return b["id"], "does not build: " + o[-1500:]
        rc, o = sh(f"bash {v}/test.sh {v}/out.json", cwd=d)
        r = json.load(open(f"{v}/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base.get("tests"); missing = [t for t in stable if t not in r["passed"]]
        if missing: return b["id"], f"tests fail: {missing[:4]}"
        rc1, o1 = sh(f"{tmp}/demo.sh", cwd=d)
        if rc1 == 0: return b["id"], "demo does not notice the change"
        msg = f"ok (demo {rc1}: {o1.strip()[-100:]})"
    else: msg = "written"
    shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out, ignore=shutil.ignore_patterns("__pycache__"))
    return b["id"], msg
if __name__ == "__main__":
    a = sys.argv[1:]; attempt = "--try" in a; want = [x for x in a if x != "--try"]
    bs = [b for b in bugs() if (b["id"] in want if want else (not attempt or not os.path.exists(f"{OUT}/{b['id']}/patch.diff")))]
    import queue; slots = queue.Queue(); [slots.put(k) for k in range(4)]
    def go(b):
        k = slots.get()
        try: return one(b, k, attempt)
        finally: slots.put(k)
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(go, bs): print(f"{i:22s} {m}", flush=True)
    shutil.rmtree(WORK, ignore_errors=True)
