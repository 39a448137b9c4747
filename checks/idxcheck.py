"""Index files made of generated records: housekeeping and lookups."""
import bisect
import os
import random

import warc
from core import Base, Outcome, Stop
from fault import FaultHist
from hist import Archive

FLAGS = (2, 4, 8, 0x34, 0x10, 0x50, 0x38, 0x74)
HEX = "0123456789abcdef"


def recs(spec, base):
    """spec: [distribution, number, seed] -> list of packed records; base
    are those made before, for duplicates."""
    dist, n, seed = spec
    r = random.Random("%s/%s/%s" % (dist, n, seed))
    out = []
    pre = "%024x" % r.getrandbits(96)
    for i in range(n):
        if dist == "uni":
            k = "%024x" % r.getrandbits(96)
        elif dist == "clu":         # all with the same few first digits
            d = 1 + seed % 9
            k = pre[:d] + ("%024x" % r.getrandbits(96))[d:]
        elif dist == "some":        # some clusters
            c = r.randrange(1 + seed % 7)
            k = ("%02x%02x" % (c * 37 % 256, seed % 256)) + (
                "%024x" % r.getrandbits(96))[4:]
        elif dist == "low":
            k = "%04x" % r.randrange(0, 0x4300) + (
                "%024x" % r.getrandbits(96))[4:]
        elif dist == "odd":         # every other bucket of 32 or more empty
            b = 5 + seed % 3
            k = "%024x" % (r.getrandbits(96) | 1 << (96 - b))
        elif dist == "high":
            k = "ff" + ("%024x" % r.getrandbits(96))[2:]
        elif dist == "edge":        # near the edges of buckets
            b = r.randrange(256) << 88
            k = "%024x" % ((b + r.choice([-1, 0, 1, -(1 << 40), 1 << 40]))
                           % (1 << 96))
        elif dist == "asc":
            k = "%024x" % (((seed * 7919 + i) << 64) % (1 << 96))
        elif dist == "ext":
            k = r.choice(["0" * 24, "f" * 24, "0" * 23 + "1", "8" + "0" * 23])
        elif dist == "key" and base:    # known keys with other positions
            k = warc.rec_tuple(r.choice(base))[0]
        elif dist == "dup" and base:    # the same records again
            out.append(r.choice(base))
            continue
        elif dist == "same":        # one record many times
            out.append(warc.rec_pack(pre, 4, seed % 99, 1000))
            continue
        else:
            k = "%024x" % r.getrandbits(96)
        f = r.choice(FLAGS)
        out.append(warc.rec_pack(
            k, f, r.choice([0, 1, r.randrange(1000), 0xffffffff
                            if r.random() < .02 else 5]),
            r.choice([0, 500, r.randrange(1 << 20), r.getrandbits(40)]),
            "%08x" % r.getrandbits(32) if f & 0x10 else "00000000"))
    return out


def parse_dump(out):
    got = []
    for ln in out.decode("latin1").splitlines():
        w = ln.split()
        got.append((w[0], int(w[1], 16), int(w[2]), int(w[3]), w[4]))
    return got


class IdxHist:
    def __init__(self, box, case, binary, tag):
        conf = {"sort": case.get("sort"), "bits": case.get("bits", 128)}
        self.a = Archive(box, conf, binary)
        self.o = Outcome()
        self.tag = tag
        self.all = []           # packed records
        self.app = []           # those in the appendix
        self.hks = 0

    def fn(self, s):
        return os.path.join(self.a.sdir, "index." + s)

    def bad(self, msg):
        self.o.bad("[%s] %s" % (self.tag, msg))
        raise Stop()

    def write(self, s, rr, mode="ab"):
        with open(self.fn(s), mode) as f:
            f.write(b"".join(rr))

    def op_append(self, op):
        rr = recs(op["r"], self.all)
        self.write("appendix", rr)
        self.all += rr
        self.app += rr
        self.o.label("records", len(rr))

    def op_left(self, op):
        """What an interrupted round leaves behind."""
        how = op["how"]
        if os.path.exists(self.fn("housekeep")):
            return
        if how == "link" and os.path.exists(self.fn("appendix")):
            os.link(self.fn("appendix"), self.fn("housekeep"))
        elif how == "snap" and os.path.exists(self.fn("appendix")):
            os.rename(self.fn("appendix"), self.fn("housekeep"))
        elif how == "merged" and os.path.exists(self.fn("appendix")):
            with open(self.fn("appendix"), "rb") as f:
                d = f.read()
            self.op_hk({})
            with open(self.fn("housekeep"), "wb") as f:
                f.write(d)
        elif how == "half":         # a part of the records merged
            if not os.path.exists(self.fn("appendix")):
                return
            with open(self.fn("appendix"), "rb") as f:
                d = f.read()
            n = len(d) // 32 * op.get("p", 50) // 100 * 32
            with open(self.fn("appendix"), "wb") as f:
                f.write(d[:n])
            self.all, keep = self.all[:], self.all
            x = {bytes(d[i:i + 32]) for i in range(n, len(d), 32)}
            y = {bytes(d[i:i + 32]) for i in range(0, n, 32)}
            s = {e for e in self.sorted_recs()}
            self.all = [r for r in keep if r not in x or r in y or r in s]
            self.op_hk({})
            with open(self.fn("housekeep"), "wb") as f:
                f.write(d)
            self.all = keep
        elif how == "tmp":
            with open(self.fn("tmp.%d" % op.get("p", 1)), "wb") as f:
                f.write(b"rubbish")
            return
        else:
            return
        self.o.label("interrupted:" + how)

    def sorted_recs(self):
        r = warc.read_index_file(self.fn("sorted"), True) or []
        return [warc.rec_pack(*e) for e in r]

    def entries(self):
        return [e for _, e in warc.read_index(self.a.sdir)]

    def op_hk(self, op):
        want = {warc.rec_tuple(r) for r in self.all}
        had = any(os.path.exists(self.fn(s))
                  for s in ("appendix", "housekeep"))
        r = self.a.run("housekeeping")
        if r.crashed or not r.ok:
            self.bad("housekeeping failed: %s" % r)
        self.o.label("housekeeping")
        self.hks += 1
        try:
            ents = warc.read_index(self.a.sdir)
        except warc.Bad as e:
            self.bad("index after housekeeping: %s" % e)
        if {f for f, _ in ents} - {"sorted"}:
            self.bad("entries left outside of the sorted index")
        for s in ("hold", "housekeep"):
            if os.path.exists(self.fn(s)):
                self.bad("housekeeping left index.%s behind" % s)
        for f in os.listdir(self.a.sdir):
            if f.startswith("index.tmp.") and \
                    os.path.getsize(os.path.join(self.a.sdir, f)) != 7:
                self.bad("housekeeping left %s behind" % f)
        l = [e for _, e in ents]
        if not had and not l and not want:
            return
        if set(l) != want:
            self.bad("housekeeping changed the set of %d entries: lost %s, "
                     "new %s" % (len(want), sorted(want - set(l))[:3],
                                 sorted(set(l) - want)[:3]))
        if len(l) != len(set(l)):
            self.bad("housekeeping left %d duplicates" %
                     (len(l) - len(set(l))))
        if any(warc.rec_pack(*l[i]) > warc.rec_pack(*l[i + 1])
               for i in range(len(l) - 1)):
            self.bad("the index is not sorted")
        self.all = [warc.rec_pack(*e) for e in l]
        self.app = []

    def op_held(self, op):
        with open(self.fn("hold"), "wb"):
            pass
        before = self.a.snapshot()
        r = self.a.run("housekeeping")
        if r.crashed:
            self.bad("housekeeping under a hold: %s" % r)
        if self.a.snapshot() != before:
            self.bad("housekeeping disturbed a round in progress")
        os.unlink(self.fn("hold"))
        self.o.label("held")

    def op_look(self, op):
        """keys: [which, digits, delta, upper]"""
        ents = self.entries()
        dup = len(set(ents)) != len(ents)
        ents.sort()
        args, pats = [], []
        for w, n, delta, up in op["keys"]:
            k = ents[w % len(ents)][0] if ents else "0" * 24
            if w % 97 == 13:        # somewhere
                k = "%024x" % random.Random(w).getrandbits(96)
            s = k[:n]
            if n and delta:
                v = int(s, 16) + delta
                if 0 <= v < 16 ** n:
                    s = "%0*x" % (n, v)
            if not s:
                continue
            pats.append(s)
            args.append(s.upper() if up else s)
        if op.get("every") and ents:
            # every one, or those furthest from an even distribution
            ks = sorted({e[0] for e in ents})
            if len(ks) > 200:
                rng = random.Random(op["every"])
                ext = {}
                for i, e in enumerate(ents):
                    top = int(e[0][:6], 16)
                    u = i - (top * len(ents) >> 24)
                    for d in range(8):
                        g = (d, top >> (24 - d))
                        if g not in ext:
                            ext[g] = [u, e[0], u, e[0]]
                        if u < ext[g][0]:
                            ext[g][:2] = [u, e[0]]
                        if u > ext[g][2]:
                            ext[g][2:] = [u, e[0]]
                ext = sorted({x for v in ext.values() for x in v[1::2]})
                ks = rng.sample(ext, min(150, len(ext))) + rng.sample(ks, 50)
            pats = args = ks
            self.o.label("lookup:every")
        x, bit = [], 0xffffffff
        if op.get("type"):
            x = ["-t", op["type"]]
            bit = {"metadata": 8, "resource": 4, "warcinfo": 2}[op["type"]]
        want = []
        if not pats:
            want = list(ents)
        for s in pats:
            i = bisect.bisect_left(ents, (s,))
            while i < len(ents) and ents[i][0].startswith(s):
                want.append(ents[i])
                i += 1
        if op.get("type"):
            want = [e for e in want if e[1] & bit]
        if not os.path.isdir(self.a.sdir):
            return
        r = self.a.run("dumpindex", *x, *args)
        if r.crashed or not r.ok:
            self.bad("dumpindex %s failed: %s" % (args, str(r)[-600:]))
        self.o.label("lookup")
        self.o.label("lookup:hits", len(want))
        try:
            got = parse_dump(r.out)
        except (ValueError, IndexError):
            self.bad("dumpindex output cannot be parsed: %r" % r.out[:300])
        if sorted(got) != sorted(want):
            if dup and sorted(set(got)) == sorted(set(want)) and \
                    os.path.exists(self.fn("housekeep")):
                return
            self.bad("dumpindex %s reports %d entries, there are %d: %s" %
                     (" ".join(args), len(got), len(want),
                      sorted(set(want) ^ set(got))[:3]))

    def op_all(self, op):
        self.op_look({"keys": []})

    def play(self, ops):
        try:
            for op in ops:
                self.o.steps += 1
                getattr(self, "op_" + op["op"])(op)
        except Stop:
            pass
        return self.o


class IdxFault(IdxHist):
    """Housekeeping of, and lookups in, such an index are killed or suffer
    from faults at each of their file operations."""
    hang = 20

    def __init__(self, box, case, binary, tag, ftrace):
        IdxHist.__init__(self, box, case, binary, tag)
        self.box = box
        self.ftrace = ftrace
        self.logfn = os.path.join(box, "ftrace.log")
        self.where = ""

    traced = FaultHist.traced
    snap = FaultHist.snap
    restore = FaultHist.restore
    key = staticmethod(FaultHist.key)

    def bad(self, msg):
        self.o.bad("[%s] %s%s" % (self.tag, self.where, msg))
        raise Stop()

    def complete(self, want):
        try:
            ents = [e for _, e in warc.read_index(self.a.sdir)]
        except warc.Bad as e:
            self.bad("the index is damaged: %s" % e)
        if set(ents) != want:
            self.bad("of %d entries %d are lost, %d new: %s" % (
                len(want), len(want - set(ents)), len(set(ents) - want),
                sorted(want ^ set(ents))[:2]))
        return ents

    def found(self, want, op):
        """Lookups still find all."""
        pats = [""]
        l = sorted(want)
        for w, n, delta, up in op["keys"]:
            pats.append(l[w % len(l)][0][:n])
        for s in pats:
            r = self.a.run(*(["dumpindex"] + ([s] if s else [])))
            if r.crashed or not r.ok:
                self.bad("dumpindex %s failed: %s" % (s, str(r)[-400:]))
            if set(parse_dump(r.out)) != {e for e in want
                                          if e[0].startswith(s)}:
                self.bad("dumpindex %s reports other entries: %d" %
                         (s, len(set(parse_dump(r.out)))))

    def again(self, want):
        """The operator removes what is stale and does it again."""
        for f in os.listdir(self.a.sdir):
            if f == "index.hold" or f.startswith("index.tmp."):
                os.unlink(os.path.join(self.a.sdir, f))
        keep, self.all = self.all, [warc.rec_pack(*e) for e in want]
        w, self.where = self.where, self.where + "afterwards: "
        self.op_hk({})
        self.all, self.where = keep, w

    def op_crash(self, op):
        want = {warc.rec_tuple(r) for r in self.all}
        if not want:
            return

        def run():
            return self.a.run("housekeeping", timeout=self.hang)
        self.again_clean()
        s0 = self.snap()
        r, log = self.traced(run)
        if r.crashed or not r.ok:
            self.bad("housekeeping failed: %s" % r)
        self.complete(want)
        points = [x[0] for x in log if x[2] in "M" and
                  not x[3].startswith("-")]
        todo = ["%d:kill" % k for k in points]
        if points:
            todo.append("%d:killafter" % points[-1])
        if len(todo) > 40:
            todo = todo[:6] + random.Random("ic%d" % op["go"]).sample(
                todo[6:-6], 28) + todo[-6:]
        self.o.label("crashed:housekeeping")
        seen = set()
        for spec in todo:
            self.restore(s0)
            r, lg = self.traced(run, [spec])
            self.where = "housekeeping of %d entries, %s: " % (
                len(want), spec)
            if r.rc not in (137, -9):
                self.o.label("not reached")
                continue
            self.o.label("crash points")
            k = self.key(self.snap())
            if k in seen:
                continue
            seen.add(k)
            self.o.label("distinct states")
            self.o.steps += 1
            self.complete(want)
            self.found(want, op)
            self.again(want)
        self.where = ""
        self.restore(s0)

    def again_clean(self):
        for f in os.listdir(self.a.sdir):
            if f == "index.hold" or f.startswith("index.tmp."):
                os.unlink(os.path.join(self.a.sdir, f))

    def op_fault(self, op):
        from c16 import describe, faults_for
        want = {warc.rec_tuple(r) for r in self.all}
        if not want:
            return
        look = op.get("look")
        if look:
            l = sorted(want)
            args = ["dumpindex"] + [l[w % len(l)][0][:n]
                                    for w, n, _, _ in op["keys"]]
        else:
            args = ["housekeeping"]

        def run():
            return self.a.run(*args, timeout=self.hang)
        self.again_clean()
        s0 = self.snap()
        r0, log = self.traced(run)
        if r0.crashed or not r0.ok:
            self.bad("%s failed: %s" % (args, r0))
        ref = sorted(self.complete(want))
        todo = [(x[0], x[1], s) for x in log if x[4] != "stdout"
                for s in faults_for(x[1], x[2], x[3], x[4], False)]
        if op.get("only"):
            todo = [x for x in todo if [x[0], x[2]] in op["only"]]
        elif len(todo) > op["runs"]:
            todo = sorted(random.Random("if%d" % op["go"]).sample(
                todo, op["runs"]))
        self.o.label("faults:" + args[0])
        for k, name, spec in todo:
            self.restore(s0)
            self.where = "%s of %d entries, %s for %s (operation %d): " % (
                args[0], len(want), describe(spec), name, k)
            r, lg = self.traced(run, ["%d:%s" % (k, spec)])
            self.o.label("faults")
            self.o.steps += 1
            if r.hung:
                self.bad("does not end")
            if r.sanitizer or r.rc in (128 + 11, 128 + 7, 128 + 8, 128 + 4,
                                       -11, -7, -8, -4):
                self.bad("crashed: %s" % r)
            self.o.label("in spite of fault" if r.rc == 0 else
                         "failed with fault")
            got = self.complete(want)
            if r.rc == 0 and look and r.out != r0.out:
                self.bad("success, but other output: %d bytes, not %d" %
                         (len(r.out), len(r0.out)))
            if r.rc == 0 and not look:
                for s in ("appendix", "housekeep"):
                    if os.path.exists(self.fn(s)):
                        self.bad("success, but there is still index.%s" % s)
                if sorted(got) != ref:
                    self.bad("success, but there are duplicates")
            if not look:
                self.found(want, op)
                self.again(want)
        self.where = ""
        self.restore(s0)


def gen_idxfault(rng, kind, runs=30):
    """A history of index files with faults."""
    case = gen_idx(rng, False, 1, 4, 0)
    case["ops"] = [o for o in case["ops"] if o["op"] not in (
        "look", "all", "held")]
    if case["ops"] and case["ops"][-1]["op"] == "hk" and rng.random() < .9:
        case["ops"].pop()
    case["ops"].insert(0, {"op": "append", "r": [
        rng.choice(["uni", "uni", "clu", "some"]),
        rng.choice([1, 5, 127, 128, 129, rng.randint(100, 600),
                    rng.randint(100, 3000)]), rng.randrange(1000)]})
    if rng.random() < .7:
        case["ops"].insert(1, {"op": "hk"})
    case["ops"].append(gen_append(rng, False))
    op = {"op": kind, "go": rng.randrange(1000), "keys": gen_keys(rng, 2)}
    if kind == "fault":
        op["runs"] = runs
        if rng.random() < .3:
            op["look"] = 1
    case["ops"].append(op)
    return case


def gen_keys(rng, n):
    ks = []
    for _ in range(n):
        ks.append([rng.randrange(1 << 20) if rng.random() < .8 else
                   rng.choice([0, 1, 2, -1, -2]),
                   rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 12, 16, 23, 24,
                               24, 24]),
                   rng.choice([0, 0, 0, 0, 1, -1, 2, -3]),
                   int(rng.random() < .2)])
    return ks


def gen_look(rng):
    op = {"op": "look", "keys": gen_keys(rng, rng.choice([1, 1, 2, 4]))}
    if rng.random() < .15:
        op["type"] = rng.choice(["metadata", "resource", "warcinfo"])
    if rng.random() < .1:
        op["keys"] = []
    if rng.random() < .25:
        op["every"] = rng.randint(1, 1000)
    return op


def gen_append(rng, big):
    d = rng.choice(["uni", "uni", "clu", "some", "low", "high", "edge", "asc",
                    "ext", "key", "dup", "dup", "same"])
    if big:
        n = rng.choice([16384, 16385, 20000, 33000, rng.randint(1000, 70000),
                        rng.randint(1000, 70000)])
        if rng.random() < .1:
            n = rng.randint(130000, 200000)
        if d in ("ext", "same"):
            n = min(n, 3000)
        if rng.random() < .2:
            d, n = "odd", rng.randint(65536, 140000)
    else:
        n = rng.choice([1, 1, 2, 3, rng.randint(1, 40), rng.randint(1, 40),
                        127, 128, 129, 256, 257, rng.randint(1, 3000)])
    return {"op": "append", "r": [d, n, rng.randrange(1000)]}


def gen_idx(rng, big, lo, hi, looks):
    case = {"ops": []}
    case["bits"] = rng.choice([128, 128, 64, 256])
    n = rng.randint(lo, hi)
    for i in range(n):
        x = rng.random()
        if i == 0 or x < .3:
            case["ops"].append(gen_append(rng, big))
        elif x < .55:
            case["ops"].append({"op": "hk"})
        elif x < .63:
            case["ops"].append({"op": "left", "how": rng.choice(
                ["link", "snap", "snap", "merged", "half", "tmp"]),
                "p": rng.randrange(1, 100)})
        elif x < .66:
            case["ops"].append({"op": "held"})
        for _ in range(looks if rng.random() < .7 else 0):
            case["ops"].append(gen_look(rng))
    tot = sum(o["r"][1] for o in case["ops"] if o["op"] == "append")
    s = [None, None, "10M"]
    if tot < 6000:
        s += ["4k", "4k", "4100", "4096", str(rng.randint(4096, 40000))]
    if tot < 50000:
        s += ["64k", str(rng.randint(40000, 400000)), "1M"]
    case["sort"] = rng.choice(s)
    case["ops"].append({"op": "hk"})
    for _ in range(1 + looks):
        case["ops"].append(gen_look(rng))
    if any(o["op"] == "append" and o["r"][0] == "odd" for o in case["ops"]):
        for _ in range(4):
            case["ops"].append({"op": "look", "keys": [
                [rng.randrange(1 << 20), rng.choice([1, 1, 2]), 0, 0]]})
    case["ops"].append({"op": "all"})
    return case


def idx_shrinks(case):
    for i, op in enumerate(case["ops"]):
        if op["op"] == "append":
            d, n, s = op["r"]
            for m in (1, 10, n // 4, n // 2, n * 3 // 4, n * 9 // 10, n - 1):
                if 0 < m < n:
                    yield dict(case, ops=case["ops"][:i] + [
                        {"op": "append", "r": [d, m, s]}] +
                        case["ops"][i + 1:])
            if d != "uni":
                yield dict(case, ops=case["ops"][:i] + [
                    {"op": "append", "r": ["uni", n, s]}] +
                    case["ops"][i + 1:])
        if op["op"] != "append" and len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
        if op["op"] == "look":
            for k in range(len(op["keys"])):
                if len(op["keys"]) > 1:
                    yield dict(case, ops=case["ops"][:i] + [dict(
                        op, keys=op["keys"][:k] + op["keys"][k + 1:])] +
                        case["ops"][i + 1:])
    if case.get("sort"):
        yield {k: v for k, v in case.items() if k != "sort"}


def run_idx(chk, case, box):
    h = IdxHist(box, case, chk.bins[case.get("flavour", "plain")], chk.pid)
    return h, h.play(case["ops"])


def run_idxfault(chk, case, box):
    h = IdxFault(box, case, chk.bins["plain"], chk.pid, chk.ftrace)
    h.play(case["ops"])
    return h, h.o
