"""Which lines of /repo do the checks reach?  cov.py [CHECK...]

Builds with --coverage (gcc), runs the checks one after another, and prints
for every source file the lines no check executed.
"""
import os
import re
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = sys.argv[1:] or ["C%02d" % i for i in range(1, 26)]
env = dict(os.environ, VERIF_CFLAGS="--coverage")
os.environ["VERIF_CFLAGS"] = "--coverage"
sys.path.insert(0, V + "/lib")
import build
for c in checks:
    r = subprocess.run(["./check", c], cwd=V, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    print(r.stdout.decode(errors="replace").strip()[-200:], flush=True)
hit = {}
for fl in ("plain", "asan"):
    try:
        d, objs = build.objects(fl)
    except build.BuildError:
        continue
    t = tempfile.mkdtemp()
    for o in objs:
        g = o[:-2] + ".gcda"
        if not os.path.exists(g):
            continue
        subprocess.run(["gcov", "-o", d, g], cwd=t, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    for f in os.listdir(t):
        for l in open(os.path.join(t, f), errors="replace"):
            m = re.match(r"\s*([^:]+):\s*(\d+):(.*)", l)
            if not m or m.group(2) == "0":
                continue
            n = m.group(1).strip().rstrip("*")
            if n == "-":
                continue
            k = (f[:-5], int(m.group(2)))
            h = hit.setdefault(k, [0, m.group(3)])
            if n[0].isdigit():
                h[0] += int(n)
    subprocess.run(["rm", "-r", t])
files = sorted({k[0] for k in hit})
for f in files:
    ls = [(k[1], h) for k, h in hit.items() if k[0] == f]
    miss = sorted(x for x in ls if not x[1][0])
    print("== %s: %d of %d lines" % (f, len(ls) - len(miss), len(ls)))
    for n, h in miss:
        print("%6d: %s" % (n, h[1]))
