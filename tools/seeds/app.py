"""Shared helper of the demonstrations that run the built program: run(rows, **parameters) in a scratch directory."""
import glob, os, shutil, subprocess, sys, tempfile
APP = os.path.join(os.getcwd(), "_build", "app", "OpenMps")
PAR = dict(startTime=0, endTime=0.02, outputInterval=0.01, eps=1e-10, l_0=0.1, minStepCountPerOutput=2, courant=0.1, g=9.8, rho=1000, nu=1e-6,
           r_eByl_0=2.4, surfaceRatio=0.95, c=20, minX=-1, minZ=-1, maxX=3, maxZ=3)
COND = ("startTime", "endTime", "outputInterval", "eps")
def xml(table, **par):
    p = dict(PAR, **par)
    a = "".join(f'<{k} value="{v}"/>' for k, v in p.items() if k in COND)
    b = "".join(f'<{k} value="{v}"/>' for k, v in p.items() if k not in COND)
    return f'<?xml version="1.0"?><openmps><condition>{a}</condition><environment>{b}</environment><particles type="csv"><![CDATA[{table}]]></particles></openmps>'
HEAD = "Type, x, z, u, w, p, n"
def table(rows, head=HEAD): return "\n" + head + "\n" + "\n".join(", ".join(repr(v) if isinstance(v, float) else str(v) for v in r) for r in rows) + "\n"
class Out: pass
def run(text, timeout=60, keep=None):
    d = tempfile.mkdtemp()
    try:
        open(os.path.join(d, "in.xml"), "w").write(text)
        r = subprocess.run([APP, "in.xml"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=dict(os.environ, OMP_NUM_THREADS="2"))
        o = Out(); o.rc = r.returncode; o.out = r.stdout; o.err = r.stderr; o.frames = {}
        for f in sorted(glob.glob(os.path.join(d, "result", "*.csv"))): o.frames[os.path.basename(f)] = open(f).read()
        return o
    finally: shutil.rmtree(d)
def rows(csv): return [[float(v) for v in l.split(",")] for l in csv.strip().split("\n")[1:]]
def frame(n): return f"particles_{n:05d}.csv"
def check(ok, msg):
    if not ok: print("FAILED:", msg); sys.exit(1)
