"""Runner for the property checks: generation, parallel execution, shrinking,
replay, evidence.

A check is a module in /verif/checks with a class Check (see Base below).
Cases are JSON values, produced by gen() from a random.Random seeded with
(VERIF_SEED, property, case number) alone, so that a run is a pure function of
the code and the seed; run() executes one case against the real programs and
returns an Outcome.
"""
import copy
import errno
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "KNOWN-FINDINGS.txt")
REPLAYS = os.path.join(VERIF, "replays")

# How long a command which normally takes milliseconds may take before we
# call it hung.
HANG = 60


class Outcome:
    def __init__(self):
        self.viol = []          # [(message)]
        self.labels = {}        # name -> count
        self.nontrivial = False
        self.steps = 0

    def bad(self, msg):
        self.viol.append(str(msg)[:1500])

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n


class Stop(Exception):
    """Raised to end a case early (after a violation)."""


class Base:
    pid = None
    technique = "stateful property-based testing against a reference model"
    level = "exploration"
    level_note = ""
    rule = ""
    assumptions = []
    flavours = ("plain",)
    use_ftrace = False
    # number of cases, time cap in seconds
    quick = (3000, 60)
    thorough = (100000, 1500)
    min_cases = 1
    workers = 8
    shrink_s = 60

    def prepare(self):
        """Builds what is needed, before the workers are forked."""
        self.bins = {f: build.binary(f) for f in self.flavours}
        if self.use_ftrace:
            self.ftrace = build.tool("ftrace")

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, case, box):
        raise NotImplementedError

    def shrinks(self, case):
        """Yields simpler cases (besides dropping operations)."""
        return ()

    def canon(self, case):
        return json.dumps(case, sort_keys=True)


# --------------------------------------------------------------------------

def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 2 << 30:
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def rng_for(seed, pid, i):
    return random.Random("%s/%s/%s" % (seed, pid, i))


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    h = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(resource.RLIMIT_FSIZE, (
        1 << 30 if h == resource.RLIM_INFINITY else min(1 << 30, h), h))


ENVIRONMENT_ERRNOS = (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE,
                      errno.EAGAIN)


class EnvironmentTrouble(Exception):
    pass


def run_case(chk, case, base):
    """Runs one case in a fresh scratch directory."""
    box = tempfile.mkdtemp(prefix="c", dir=base)
    try:
        try:
            o = chk.run(case, box)
        except (MemoryError, KeyboardInterrupt):
            raise
        except OSError as e:
            if e.errno in ENVIRONMENT_ERRNOS:
                raise EnvironmentTrouble(repr(e))
            o = Outcome()
            o.bad("the check could not make sense of what it saw: " +
                  traceback.format_exc()[-1200:])
        except Exception:
            o = Outcome()
            o.bad("the check could not make sense of what it saw: " +
                  traceback.format_exc()[-1200:])
        return o
    finally:
        try:
            subprocess.run(["chmod", "-R", "u+rwX", box],
                           stderr=subprocess.DEVNULL)
        except OSError:
            pass
        shutil.rmtree(box, ignore_errors=True)


def worker(chk, seed, tier, w, nw, ncases, deadline, base, wfd):
    limits()
    signal.signal(signal.SIGTERM, lambda *a: os._exit(0))
    out = os.fdopen(wfd, "wb", buffering=0)
    i = w
    try:
        while i < ncases and time.time() < deadline:
            case = chk.gen(rng_for(seed, chk.pid, i), i, tier)
            t0 = time.time()
            o = run_case(chk, case, base)
            rec = (i, o.viol, o.labels, o.nontrivial, o.steps,
                   hashlib.sha256(chk.canon(case).encode()).digest()[:12],
                   time.time() - t0)
            b = pickle.dumps(rec)
            out.write(len(b).to_bytes(4, "big") + b)
            i += nw
    except BaseException:
        b = pickle.dumps(("error", traceback.format_exc()))
        out.write(len(b).to_bytes(4, "big") + b)
    finally:
        out.close()
        os._exit(0)


def campaign(chk, seed, tier, ncases, cap, base, want=3):
    """Runs the cases on all workers; returns (records, failures, error)."""
    import select
    deadline = time.time() + cap
    procs = []
    fds = {}
    nw = min(chk.workers, max(1, ncases))
    sys.stdout.flush()
    for w in range(nw):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            worker(chk, seed, tier, w, nw, ncases, deadline, base, wf)
        os.close(wf)
        procs.append(pid)
        fds[r] = b""
    recs, fails, error = [], [], None
    t_fail = None
    while fds:
        rl, _, _ = select.select(list(fds), [], [], 1.0)
        for r in rl:
            d = os.read(r, 1 << 16)
            if not d:
                os.close(r)
                del fds[r]
                continue
            fds[r] += d
            while len(fds[r]) >= 4:
                n = int.from_bytes(fds[r][:4], "big")
                if len(fds[r]) < 4 + n:
                    break
                rec = pickle.loads(fds[r][4:4 + n])
                fds[r] = fds[r][4 + n:]
                if rec[0] == "error":
                    error = rec[1]
                else:
                    recs.append(rec)
                    if rec[1]:
                        fails.append(rec)
                        t_fail = t_fail or time.time()
        if error:
            break
        if fails and (len(fails) >= want or time.time() > t_fail + 10):
            break
        if time.time() > deadline + 3 * HANG + 60:
            break
    for p in procs:
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    for r in fds:
        os.close(r)
    return recs, fails, error


# --------------------------------------------------------------------------

def oplists(case):
    """The paths of the lists in a case which may be shortened."""
    return [k for k in ("ops", "parts", "items") if
            isinstance(case, dict) and isinstance(case.get(k), list)]


def ddmin_candidates(case):
    for k in oplists(case):
        n = len(case[k])
        size = n // 2
        while size >= 1:
            for s in range(0, n, size):
                c = copy.copy(case)
                c[k] = case[k][:s] + case[k][s + size:]
                if len(c[k]) < n:
                    yield c
            size //= 2


def simpler_values(v):
    """Generic value simplifications."""
    if isinstance(v, bool):
        if v:
            yield False
    elif isinstance(v, int):
        for c in (0, 1, v // 2, v - 1):
            if 0 <= c < v:
                yield c
    elif isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i in range(len(v)):
            for s in simpler_values(v[i]):
                yield v[:i] + [s] + v[i + 1:]
    elif isinstance(v, dict):
        for k in v:
            for s in simpler_values(v[k]):
                d = dict(v)
                d[k] = s
                yield d


def shrink(chk, case, base, budget):
    end = time.time() + budget
    best = case
    tried = set()
    progress = True
    n = 0
    while progress and time.time() < end:
        progress = False
        for gen in (ddmin_candidates(best), chk.shrinks(best)):
            for c in gen:
                if time.time() > end:
                    break
                key = chk.canon(c)
                if key in tried:
                    continue
                tried.add(key)
                n += 1
                try:
                    o = run_case(chk, c, base)
                except EnvironmentTrouble:
                    continue
                if o.viol:
                    best = c
                    progress = True
                    break
            if progress:
                break
    return best, n


def known_findings(pid):
    res = []
    try:
        for ln in open(KNOWN):
            ln = ln.rstrip("\n")
            if not ln.startswith("known: property=%s " % pid):
                continue
            res.append(ln.split(" ", 2)[2])
    except OSError:
        pass
    return res


def is_known(known, viol):
    """All messages of a case are known findings (regular expressions)."""
    import re
    hit = set()
    for v in viol:
        for k in known:
            rx = k.split(" :: ")[0]
            if re.search(rx, v):
                hit.add(k)
                break
        else:
            return None
    return hit


def save_replay(chk, seed, i, case, viol):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256(chk.canon(case).encode()).hexdigest()[:12]
    fn = os.path.join(REPLAYS, "%s-%s.json" % (chk.pid, h))
    with open(fn, "w") as f:
        json.dump({"property": chk.pid, "seed": seed, "case_no": i,
                   "violation": viol, "case": case}, f, indent=1)
        f.write("\n")
    return fn


def brief(case, limit=1600):
    s = json.dumps(case, sort_keys=True)
    if len(s) > limit:
        s = s[:limit] + "...(%d more)" % (len(s) - limit)
        return s
    return case


def write_evidence(chk, tier, seed, d):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    fn = os.path.join(ev, chk.pid + ".json")
    with open(fn + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.rename(fn + ".tmp", fn)


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--show", action="store_true")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(
        os.environ.get("VERIF_SEED", "1") or 1)
    chk = importlib.import_module(a.prop.lower()).Check()
    try:
        chk.prepare()
    except build.BuildError as e:
        print("cannot build:", e, file=sys.stderr)
        return 2
    base = tempfile.mkdtemp(prefix="aav-%s-" % chk.pid, dir=scratch_root())
    os.chmod(base, 0o755)

    def cleanup(*_):
        subprocess.run(["chmod", "-R", "u+rwX", base],
                       stderr=subprocess.DEVNULL)
        shutil.rmtree(base, ignore_errors=True)

    def onterm(*_):
        cleanup()
        os._exit(3)
    signal.signal(signal.SIGTERM, onterm)
    signal.signal(signal.SIGINT, onterm)
    try:
        if a.replay or a.case is not None:
            limits()
            if a.replay:
                r = json.load(open(a.replay))
                case = r["case"]
            else:
                case = chk.gen(rng_for(seed, chk.pid, a.case), a.case, tier)
            if a.show:
                print(json.dumps(case, indent=1))
            o = run_case(chk, case, base)
            print("labels:", o.labels, "nontrivial:", o.nontrivial)
            for v in o.viol:
                print("-", v)
            if o.viol:
                fn = a.replay or save_replay(chk, seed, a.case, case, o.viol)
                print("VIOLATION property=%s replay=%s" % (chk.pid, fn))
                return 1
            return 0
        return search(chk, a, tier, seed, base, t0)
    except EnvironmentTrouble as e:
        print("environment trouble:", e, file=sys.stderr)
        return 2
    finally:
        cleanup()


def search(chk, a, tier, seed, base, t0):
    ncases, cap = getattr(chk, tier)
    if a.cases is not None:
        ncases = a.cases
    cap = a.time or float(os.environ.get("VERIF_BUDGET", 0) or 0) or cap
    known = known_findings(chk.pid)
    known_hit = set()
    flaky = []
    recs_all = []
    confirmed = None
    skip = set()
    rounds = 0
    left = cap
    while True:
        rounds += 1
        ts = time.time()
        recs, fails, error = campaign(chk, seed if rounds == 1 else
                                      "%s.%d" % (seed, rounds),
                                      tier, ncases, left, base)
        left -= time.time() - ts
        if error:
            print(error, file=sys.stderr)
            return 2
        recs_all += recs
        sd = seed if rounds == 1 else "%s.%d" % (seed, rounds)
        again = False
        for rec in sorted(fails, key=lambda r: r[6]):
            i = rec[0]
            case = chk.gen(rng_for(sd, chk.pid, i), i, tier)
            k = is_known(known, rec[1])
            if k is not None:
                known_hit |= k
                again = True
                continue
            nbad = 0
            for _ in range(3):
                o = run_case(chk, case, base)
                if o.viol and is_known(known, o.viol) is None:
                    nbad += 1
                if nbad >= 2:
                    break
            if nbad >= 2:
                confirmed = (i, case, rec[1])
                break
            flaky.append((i, rec[1]))
            again = True
        if confirmed or not again or rounds >= 6 or left < 5:
            break
    status = 0
    if confirmed:
        i, case, viol = confirmed
        n = 0
        if not a.no_shrink:
            case, n = shrink(chk, case, base, chk.shrink_s)
        o = run_case(chk, case, base)
        if not o.viol:
            o = run_case(chk, case, base)
        viol = o.viol or viol
        fn = save_replay(chk, seed, i, case, viol)
        for v in viol[:10]:
            print("  " + v.replace("\n", "\n    "))
        print("  shrunk in %d steps from case %d" % (n, i))
        print("VIOLATION property=%s replay=%s" % (chk.pid, fn))
        status = 1
    for k in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (chk.pid, k))
    labels = {}
    nontriv = set()
    steps = 0
    for r in recs_all:
        for k, v in r[2].items():
            labels[k] = labels.get(k, 0) + v
        steps += r[4]
        if r[3]:
            nontriv.add(r[5])
    samples = []
    for r in [r for r in recs_all if r[3]][:3] or recs_all[:2]:
        samples.append(brief(chk.gen(rng_for(seed, chk.pid, r[0]),
                                     r[0], tier)))
    d = {
        "property": chk.pid, "tier": tier, "seed": seed, "level": chk.level,
        "coverage": {
            "evaluations": len(recs_all),
            "distinct_nontrivial": len(nontriv),
            "rule": chk.rule,
            "samples": samples or ["none"],
            "operations_executed": steps,
            "labels": dict(sorted(labels.items())),
            "planned_cases": ncases,
            "exhaustive": False,
        },
        "assumptions": list(chk.assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if confirmed else 0,
    }
    if flaky:
        d["coverage"]["not_reproducible"] = [
            {"case": i, "first": v[0][:300]} for i, v in flaky[:5]]
    write_evidence(chk, tier, seed, d)
    print("%s %s: %d cases, %d distinct non-trivial, %d operations, %.1fs%s" %
          (chk.pid, tier, len(recs_all), len(nontriv), steps,
           time.time() - t0,
           ", %d not reproducible" % len(flaky) if flaky else ""))
    if not recs_all and not confirmed:
        print("no case was completed", file=sys.stderr)
        return 2
    return status


if __name__ == "__main__":
    sys.exit(main())
