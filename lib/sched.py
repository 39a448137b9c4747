"""Runs several processes under a schedule of their file operations."""
import os
import select
import subprocess
import time

from fault import NoTrace


class Hung(Exception):
    pass


class Proc:
    """One process, stopped before its first file operation."""

    def __init__(self, a, ftrace, argv, env=None, inp=None):
        self.r1, w1 = os.pipe()
        r2, self.w2 = os.pipe()
        os.set_inheritable(w1, True)
        os.set_inheritable(r2, True)
        e = a.env
        if env:
            e = dict(e)
            e.update(env)
        self.outf = open(a.tmpname(), "w+b")
        self.errf = open(a.tmpname(), "w+b")
        self.argv = argv
        if inp is not None:
            self.inf = open(a.tmpname(), "w+b")
            self.inf.write(inp)
            self.inf.seek(0)
        else:
            self.inf = open("/dev/null", "rb")
        self.p = subprocess.Popen(
            [ftrace, "-r", a.sdir, "-x", "%d,%d" % (r2, w1), "--",
             a.binary, "-c", a.cfgfn] + argv,
            stdin=self.inf, stdout=self.outf, stderr=self.errf,
            env=e, cwd=a.dir, pass_fds=(r2, w1))
        os.close(w1)
        os.close(r2)
        self.buf = b""
        self.at = None          # the operation it is stopped before
        self.running = True     # waiting for it to get anywhere
        self.done = False
        self.count = 0
        self.log = []
        self.rc = None
        self.timeout = 10

    def fill(self, timeout):
        """-> a line or None"""
        end = time.time() + timeout
        while b"\n" not in self.buf:
            t = end - time.time()
            if t < 0:
                return None
            if not select.select([self.r1], [], [], t)[0]:
                return None
            d = os.read(self.r1, 4096)
            if not d:
                return b"X eof"
            self.buf += d
        ln, _, self.buf = self.buf.partition(b"\n")
        return ln

    def settle(self, timeout=None):
        """Waits until it stops, ends, or seems to wait for another one."""
        end = time.time() + (self.timeout if timeout is None else timeout)
        blk = self.at is not None and self.at[2] == "L"
        while self.running:
            t = end - time.time()
            if blk:
                t = min(t, .03)
            ln = self.fill(max(t, 0))
            if ln is None:
                if blk or timeout is not None:
                    return False
                raise Hung()
            p = ln.decode("latin1").split(" ", 4)
            if p[0] == "S":
                self.at = (int(p[1]), p[2], p[3], p[4] if len(p) > 4 else "")
                self.log.append(self.at)
                self.running = False
            elif p[0] == "D":
                blk = False
                if self.log:
                    self.log[-1] = self.log[-1] + (p[2],)
            elif p[0] == "X":
                self.running = False
                self.done = True
                self.at = None
                self.p.wait()
                self.rc = self.p.returncode
                if self.rc == 250 and not self.log:
                    raise NoTrace(11, "cannot trace")
        return True

    def go(self):
        """Lets it do the operation it is stopped before."""
        self.count += 1
        self.running = True
        os.write(self.w2, b"g\n")
        return self.settle()

    def free(self):
        self.running = True
        try:
            os.write(self.w2, b"r\n")
        except OSError:
            pass

    def finish(self):
        """-> (exit status, stdout, stderr)"""
        for fd in (self.r1, self.w2):
            os.close(fd)
        res = []
        for f in (self.outf, self.errf):
            f.seek(0)
            res.append(f.read())
            f.close()
        self.inf.close()
        return self.rc, res[0], res[1]

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
            self.rc = -9


def run_schedule(procs, sched):
    """sched: list of (process, number of operations or None for all).

    -> what really happened, as such a list without None.
    """
    did = []

    def step(i):
        p = procs[i]
        if p.done:
            return False
        if p.running:
            # it was waiting for another one
            if not p.settle(.002):
                return False
            if p.done:
                return True
        ok = p.go()
        if did and did[-1][0] == i:
            did[-1][1] += 1
        else:
            did.append([i, 1])
        return ok

    def others(i):
        """Somebody else has to go on first."""
        for j in range(len(procs)):
            if j != i and not procs[j].done and step(j):
                return True
        return False

    try:
        for p in procs:
            p.settle()
        for i, n in sched + [[j, None] for j in range(len(procs))]:
            k = 0
            stuck = 0
            while not procs[i].done and (n is None or k < n):
                if step(i):
                    stuck = 0
                    k += 1
                    continue
                if procs[i].done:
                    break
                if not others(i):
                    stuck += 1
                    if stuck > 300:
                        raise Hung()
                    time.sleep(.01)
        return did
    except Hung:
        for p in procs:
            p.kill()
        raise
