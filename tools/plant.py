"""Tries a planted bug: plant.py ID [CHECK...] [--all]

Applies /verif/seeded/ID/patch.diff in /repo, builds, runs the tests and the
demonstration, runs the named checks (or the property's own), undoes it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, **k):
    if cmd[-1] == "/opt/vp/build.sh":
        shutil.rmtree("/repo/_build", ignore_errors=True)
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **k)


def demo(d):
    t = tempfile.mkdtemp(prefix="demo")
    for f in os.listdir(d):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            continue
        shutil.copy(os.path.join(d, f), t)
    try:
        r = sh(["bash", os.path.join(t, "demo.sh")], cwd=R, timeout=300)
        return r.returncode, r.stdout.decode(errors="replace")[-500:]
    finally:
        shutil.rmtree(t)


def main():
    pid = sys.argv[1]
    d = os.path.join(V, "seeded", pid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    checks = [a for a in sys.argv[2:] if not a.startswith("-")]
    if "--all" in sys.argv:
        m = json.load(open(os.path.join(V, "MANIFEST.json")))
        checks = [c["property"] for c in m["checks"]]
    checks = checks or [meta["property"]]
    if sh(["git", "-C", R, "status", "--porcelain", "-uno"]).stdout:
        sys.exit("/repo is not clean")
    base = set(json.load(open("/opt/vp/BASELINE.json")).get(
        "passed", [])) if "--tests" in sys.argv or True else set()
    sh(["bash", "/opt/vp/build.sh"])
    rc, out = demo(d)
    if rc:
        print("DEMO FAILS on the unchanged tree:", rc, out)
    r = sh(["git", "-C", R, "apply", os.path.join(d, "patch.diff")])
    if r.returncode:
        sys.exit("patch does not apply: " + r.stdout.decode())
    try:
        r = sh(["bash", "/opt/vp/build.sh"])
        if r.returncode:
            sys.exit("does not build: " + r.stdout.decode()[-2000:])
        sh(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
        t = json.load(open("/tmp/plant.json"))
        print("tests: %d passed, %d failed %s" % (
            len(t["passed"]), len(t["failed"]), t["failed"][:3]))
        rc, out = demo(d)
        print("demo with the patch: %d %s" % (rc, out.strip()[-200:]))
        if not rc:
            print("DEMO PASSES with the patch")
        for c in checks:
            r = sh([os.path.join(V, "check"), c], cwd=V)
            o = r.stdout.decode(errors="replace")
            hit = r.returncode == 1 and "VIOLATION property=" + c in o
            print("%s: %s" % (c, "CAUGHT" if hit else
                              "missed (exit %d)" % r.returncode))
            print("    " + o.strip()[-700:].replace("\n", "\n    "))
    finally:
        sh(["git", "-C", R, "checkout", "--", "."])
        sh(["bash", "/opt/vp/build.sh"])


main()
