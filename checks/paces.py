"""Two stores of the same big object at the same time, at different paces."""
import array
import fcntl
import os
import random
import subprocess
import termios
import time

from core import Stop, Outcome
from hist import Hist, sha, HANG


def gen_paces(rng, conf):
    """gap: how many seconds later the other one began"""
    conf["max"] = rng.randint(6000, 15000)
    conf.pop("rmime", 0)
    conf.pop("mmime", 0)
    return {"conf": conf, "paces": {
        "size": int(conf["max"] * rng.uniform(2.5, 6)),
        "seed": rng.randrange(1 << 30), "gap": rng.choice([1, 3, 60, 86400])}}


def feed(p, data):
    """Waits until it was read."""
    fd = p.stdin.fileno()
    os.write(fd, data)
    n = array.array("i", [1])
    t = time.time() + 20
    while n[0] and time.time() < t and p.poll() is None:
        fcntl.ioctl(fd, termios.FIONREAD, n)
        time.sleep(.0005)


def both(h, size, seed, gap):
    """-> the contents, if both were stored, else None"""
    a = h.a
    rng = random.Random(seed)
    body = rng.randbytes(size)
    ps = []
    try:
        for k in (0, 1):
            e = dict(a.env)
            e["VERIF_TIME"] = "%d" % (1700000000 + k * gap)
            ps.append(subprocess.Popen(
                [a.binary, "-c", a.cfgfn, "store", "-"], env=e, cwd=a.dir,
                stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                stderr=subprocess.PIPE))
        pos = [0, 0]
        # cut in different places, but the same length
        same = rng.choice([0, 300, 700, 1500, 2000, 3000, 4096])
        while min(pos) < size:
            for k in (0, 1):
                n = same
                if not same or pos[k] < 3000:
                    n = rng.choice([1, 50, 700, 1500, 3000])
                if pos[k] < size and ps[k].poll() is None:
                    feed(ps[k], body[pos[k]:pos[k] + n])
                pos[k] += n
        for p in ps:
            p.stdin.close()
        for p in ps:
            p.stdin = None
        rs = [p.communicate(timeout=HANG) for p in ps]
        rc = [p.returncode for p in ps]
    except (OSError, subprocess.TimeoutExpired):
        return None
    finally:
        for p in ps:
            if p.returncode is None:
                p.kill()
                p.communicate()
    oid = sha(body)[:a.idsize]
    if any(rc) or any(not r[0].decode("latin1").strip().endswith(oid)
                      for r in rs):
        return None
    h.o.label("two stores at once")
    return body


def run_paces(chk, case, box, what):
    h = Hist(box, case["conf"], chk.bins["plain"], tags=None)
    c = case["paces"]
    try:
        body = both(h, c["size"], c["seed"], c["gap"])
        if body is None:
            return h.o
        a = h.a
        oid = sha(body)[:a.idsize]
        for f in os.listdir(a.sdir):
            if f.startswith("index.") or f == "_.cache":
                os.unlink(os.path.join(a.sdir, f))
        r = a.run("reindex")
        w = "after two stores of the same object at the same time, " \
            "begun %s, (size %d seed %d), " % (
                "in the same second" if not c["gap"] else
                "%d seconds apart" % c["gap"], c["size"], c["seed"])
        if not r.ok:
            h.bad(chk.pid, w + "reindex failed: %s" % r)
        if what == "get":
            r = a.run("get", "-q", oid)
            if r.out != body or not r.ok:
                h.bad(chk.pid, w + "and reindex, get failed: %s" % r)
        else:
            r = a.run("audit")
            if not r.ok or b"ERROR" in r.out:
                h.bad(chk.pid, w + "audit reports errors: %s" % r)
        h.o.nontrivial = True
    except Stop:
        pass
    return h.o
