"""C16: I/O errors."""
import errno
import os
import random

import gen
import idxcheck
import warc
from c15 import clip, gen_what
from fault import FaultHist
from histcheck import HistCheck

QUICK_RUNS = 60
THOROUGH_RUNS = 400

E = errno


def faults_for(name, cls, ret, tgt, full):
    """[spec without number] of what may happen to an operation."""
    try:
        n = int(ret)
    except ValueError:
        n = 0
    if n < 0:
        return []

    def err(*l):
        r = []
        for e in l:
            r += ["err=%d" % e, "err=%d:P" % e]
        return r
    if name == "open":
        if cls == "M":
            return err(E.EMFILE, E.EIO, E.ENOSPC, E.EACCES) + \
                ["err=%d" % E.EROFS, "full=0"]
        return err(E.EMFILE, E.EIO, E.ENFILE) + ["err=%d" % E.EACCES]
    if name in ("read", "pread", "readv", "preadv"):
        r = err(E.EIO)
        if n > 1:
            r += ["short=1", "short=%d" % (n // 2), "short=%d" % (n - 1)]
        return r
    if name in ("write", "pwrite", "writev", "pwritev"):
        r = err(E.ENOSPC, E.EIO) + ["err=%d" % E.EDQUOT,
                                    "err=%d" % E.EFBIG]
        for k in {1, n // 2, n - 1}:
            if 0 < k < n:
                r.append("short=%d" % k)
                if tgt != "stdout":
                    r.append("full=%d" % k)
        if tgt != "stdout":
            r.append("full=0")
        return r
    if name in ("stat", "fstat", "lstat", "access"):
        return err(E.EIO)
    if name == "close":
        return ["err=%d" % E.EIO, "err=%d" % E.ENOSPC]
    if name == "mmap":
        return err(E.ENOMEM)
    if name in ("flock", "fcntl"):
        return err(E.ENOLCK)
    if name == "lseek":
        return []       # these do not fail for files
    if name in ("fsync", "fdatasync", "getdents"):
        return err(E.EIO)
    if name in ("link", "symlink", "mkdir", "rename"):
        return err(E.EIO, E.ENOSPC, E.EACCES) + ["full=0"]
    return err(E.EIO) + ["err=%d" % E.EACCES]


class IOHist(FaultHist):
    pid = "C16"
    runs = QUICK_RUNS
    hang = 10

    def expected_ok(self, w, r, r0, oid, st0, st, odat):
        """It says that it succeeded."""
        k = w["op"]
        if k == "store":
            if r.out.strip().lower() != r0.out.strip().lower() and \
                    not self.nostdout:
                self.bad(self.pid, "success, but printed %r instead of %r" %
                         (r.out, r0.out))
        elif k == "get":
            if r.out != r0.out:
                self.bad(self.pid, "success, but %d bytes on stdout, not %d, "
                         "or others" % (len(r.out), len(r0.out)))
            if "o" in w.get("o", ""):
                b = odat
                if b != self.want:
                    self.bad(self.pid, "success, but %d bytes in the file, "
                             "not %d, or others" % (len(b), len(self.want)))
        elif k == "read":
            if r.out != r0.out and not (
                    w["which"] == "cgi" and b"\nStatus: 501" in r.out):
                self.bad(self.pid, "success, but the output is another: "
                         "%d bytes, not %d" % (len(r.out), len(r0.out)))
            if odat != self.want:
                self.bad(self.pid, "success, but the file is another")
        elif k in ("hk", "reindex"):
            if st[0] != st0[0]:
                self.bad(self.pid, "success, but the index is not what it "
                         "becomes without the fault: %s missing, %s too "
                         "much" % (sorted(st0[0] - st[0])[:3],
                                   sorted(st[0] - st0[0])[:3]))
            if k == "hk" and st[1] - st0[1]:
                self.bad(self.pid, "success, but not housekept: %s" %
                         (st[1] - st0[1]))

    def prepare_what(self, w):
        if w["op"] != "read":
            return FaultHist.prepare_what(self, w)
        a = self.a
        oid = self.pick(w.get("k", 0))
        if oid is None:
            return None, None, None
        k = w["which"]
        inp, env = b"", None
        fns = [a.silo_fn(n) for n in sorted(self.silo_data)]
        if k == "byid":
            args = ["byid", "-e", oid]
        elif k == "dumpindex":
            args = ["dumpindex"] + ([oid[:w["n"] % 12]] if w["n"] % 12
                                    else [])
        elif k == "audit":
            args = ["audit", "-i", "ignore-metadata-record-id"] + fns
        elif k == "rebuild":
            args = ["rebuild"] + fns
        elif k == "cgi":
            args = ["cgi"]
            env = {"GATEWAY_INTERFACE": "CGI/1.1", "REQUEST_METHOD": "GET",
                   "PATH_INFO": "/" + oid}
            if w["n"] % 2:
                env["HTTP_ACCEPT_ENCODING"] = "gzip"
        else:
            rng = random.Random("fl%d" % w["n"])
            ids = [self.pick(rng.randrange(100)) if rng.random() < .6 else
                   "%0*x" % (a.idsize, rng.getrandbits(4 * a.idsize))
                   for _ in range(rng.randint(1, 6))]
            inp = "".join(i + "\n" for i in ids).encode()
            args = ["filter"] + [x for x in ("-v", "-s", "-r")
                                 if rng.random() < .4]
            if "-v" in args and "-r" in args:
                args.remove("-r")
            if rng.random() < .4:
                with open(self.infile, "wb") as f:
                    f.write(inp)
                args.append(self.infile)
            if rng.random() < .4:
                args[1:1] = ["-o", self.outfile]
        return lambda: a.run(*args, inp=inp, env=env, timeout=self.hang), \
            None, oid

    def state(self):
        try:
            es = {e for _, e in warc.read_index(self.a.sdir)}
        except warc.Bad as e:
            self.bad(self.pid, "the index is damaged: %s" % e)
        fs = {f for f in ("index.appendix", "index.housekeep")
              if os.path.exists(os.path.join(self.a.sdir, f))}
        return es, fs

    def op_fault(self, op):
        self.enter()
        w = op["what"]
        run, ob, oid = self.prepare_what(w)
        if w["op"] in ("store", "get", "read") and oid is None:
            return
        reads = w["op"] in ("get", "read")
        self.pre_what(w)
        full = w["op"] == "reindex" and w.get("mode") == "full"
        std = bool(op.get("std"))
        s0 = self.snap()
        pre = dict(self.silo_data)
        pents = self.state()[0]
        self.where = "%s: " % w["op"]
        self.nostdout = False
        if w["op"] == "get":
            self.check_get(self.objs[oid])
        if reads:
            self.clean_out()
        r0, log = self.traced(run, std=std)
        if r0.crashed or (not r0.ok and w["op"] != "mksilo"):
            self.bad("", "failed without a fault: %s" % r0)
        if reads:
            self.want = self.outdata()
        st0 = self.state()
        f0 = self.key(self.snap())
        self.o.label("faults:" + w["op"])
        if ob is not None:
            self.maybe[ob.id] = ob
        todo = []
        for k, name, cls, ret, tgt in log:
            for s in faults_for(name, cls, ret, tgt, full):
                todo.append((k, name, tgt, s))
        rng = random.Random("io%d" % op.get("go", 0))
        if op.get("only") is not None:
            todo = [x for x in todo if [x[0], x[3]] in op["only"]]
        elif len(todo) > self.runs:
            # at least one for each operation, then more of them
            rng.shuffle(todo)
            have, a, b = set(), [], []
            for x in todo:
                if x[0] in have:
                    b.append(x)
                else:
                    have.add(x[0])
                    a.append(x)
            todo = (a + b)[:self.runs]
            todo.sort()
        keep = None
        seen = set()
        for k, name, tgt, spec in todo:
            self.restore(s0)
            if reads:
                self.clean_out()
            self.nostdout = tgt == "stdout"
            r, lg = self.traced(run, ["%d:%s" % (k, spec)], std)
            self.where = "%s, %s (%s) for %s %s (operation %d): " % (
                w["op"], spec, describe(spec), name,
                tgt.replace(self.a.dir, ""), k)
            self.o.label("faults")
            self.o.steps += 1
            if r.hung:
                self.bad(self.pid, "does not end")
            if r.sanitizer or r.rc in (128 + 11, 128 + 7, 128 + 8, 128 + 4):
                self.bad(self.pid, "crashed: %s" % r)
            if r.rc == 0:
                self.o.label("in spite of fault")
            else:
                self.o.label("failed with fault")
            odat = self.outdata() if reads else b""
            s1 = self.snap()
            if r.rc == 0:
                if reads and tgt == "stdout" and \
                        spec.startswith("err") and r.out != r0.out:
                    self.bad(self.pid, "success, although stdout failed")
                if w["op"] != "mksilo":
                    self.expected_ok(w, r, r0, oid, st0, self.state(),
                                     odat)
            elif w["op"] == "get" and "o" not in w.get("o", "") and \
                    "z" not in w.get("o", "") and \
                    not r0.out.startswith(r.out):
                self.bad(self.pid, "failed, but delivers something else")
            key = (self.key(s1), r.rc == 0)
            if key in seen or key == (f0, True) or \
                    (reads and s1 == s0):
                continue
            seen.add(key)
            self.o.label("distinct states")
            if keep is None or rng.random() < .2:
                keep = s1
            self.judge(w, run, ob, oid, pre, pents, full, r)
        self.where = "after the faults: "
        self.restore(keep if keep is not None else s0)
        if op.get("redo") or keep is None or full:
            self.judge_redo(run, w, ob, oid)
        elif ob is not None and self.check_maybe(ob):
            self.settle(ob)
        self.load()

    def outdata(self):
        """What the operation has written, but for the archive."""
        b = b""
        if os.path.exists(self.outfile):
            with open(self.outfile, "rb") as f:
                b = f.read()
        for n in sorted(self.silo_data):
            fn = self.a.silo_fn(n) + "_"
            if os.path.exists(fn):
                with open(fn, "rb") as f:
                    b += f.read()
                os.unlink(fn)
        return b

    def clean_out(self):
        if os.path.exists(self.outfile):
            os.unlink(self.outfile)

    def judge(self, w, run, ob, oid, pre, pents, full, r):
        recs = self.check_silos(pre)
        ents = self.check_entries(recs)
        done = None
        if not full or r.rc == 0:
            self.check_must()
        if w["op"] == "store":
            for key, flags, silo, off, cont in ents - pents:
                if flags & 2 or (flags & 0x10 and not flags & 0x20):
                    continue
                if key != (oid + "0" * 24)[:24]:
                    self.bad(self.pid, "the index has a new object %s, "
                             "stored was %s" % (key, oid))
            if r.rc == 0:
                if ob is not None:
                    done = ob
                    self.settle(ob)
                self.check_get(self.objs[oid])
        for x in list(self.maybe.values()):
            self.check_maybe(x)
        self.judge_redo(run, w, ob, oid)
        recs = self.check_silos(pre)
        ents = self.check_entries(recs)
        self.check_hk(ents)
        self.check_must()
        if w["op"] in ("reindex",) or self.o.steps % 5 == 0:
            self.check_reindex("after a fault")
        self.unsettle(ob if ob is not None else done)
        if ob is not None:
            self.maybe[ob.id] = ob
            ob.t1 = 1 << 40


def describe(spec):
    if spec.startswith("err="):
        e = spec[4:].split(":")
        return os.strerror(int(e[0])) + (", again and again" if len(e) > 1
                                         else "")
    if spec.startswith("full="):
        return "no space after %s bytes" % spec[5:]
    return "only %s bytes" % spec[6:]


def gen_fwhat(rng, conf):
    if rng.random() < .25:
        return {"op": "get", "k": rng.randrange(1000), "o": gen.wchoice(
            rng, [(4, ""), (2, "o"), (1, "z"), (.5, "q"), (.5, "oz"),
                  (.3, "n")])}
    if rng.random() < .2:
        return {"op": "read", "k": rng.randrange(1000),
                "n": rng.randrange(1000), "which": rng.choice(
                    ["byid", "dumpindex", "audit", "rebuild", "cgi",
                     "filter", "filter"])}
    w = gen_what(rng, conf)
    while w["op"] == "mksilo" and rng.random() < .7:
        w = gen_what(rng, conf)
    if "c" in w:
        clip(w, conf, 3)
    return w


class Check(HistCheck):
    pid = "C16"
    use_ftrace = True
    technique = "fault injection at every file operation over generated " \
        "histories (stateful property-based testing)"
    rule = "A case is a generated history in which one or two operations " \
        "(store, get, housekeeping, reindex, mksilo) are run again and " \
        "again, each time with another fault at one of their file " \
        "operations: an error, the same error from then on, a short " \
        "transfer, or a disk which is full from then on.  One of six does so " \
        "with housekeeping of, and dumpindex in, generated index files.  " \
        "Non-trivial: at " \
        "least ten faults, of which one made the operation fail, with two " \
        "objects in the archive."
    weights = {"store": 8, "again": .5, "hk": 1, "reindex": .3,
               "mksilo": .2, "maxsize": .2}

    def run(self, case, box):
        if "conf" in case:
            return HistCheck.run(self, case, box)
        h, o = idxcheck.run_idxfault(self, case, box)
        o.nontrivial = o.labels.get("faults", 0) >= 10 and \
            o.labels.get("failed with fault", 0) >= 1
        return o

    def gen(self, rng, i, tier):
        if i % 6 == 4:
            return idxcheck.gen_idxfault(rng, "fault",
                                         30 if tier == "quick" else 200)
        conf = gen.gen_conf(rng, small=rng.random() < .8)
        n = rng.randint(1, 5 if tier == "quick" else 10)
        ops = gen.gen_ops(rng, conf, self.weights, n, 1)
        for op in ops:
            clip(op, conf, 4)
        for _ in range(gen.wchoice(rng, [(3, 1), (2, 2)])):
            ops.append({"op": "fault", "what": gen_fwhat(rng, conf),
                        "go": rng.randrange(1000),
                        "redo": int(rng.random() < .3)})
            if rng.random() < .4:
                ops[-1]["std"] = 1
            if rng.random() < .3:
                ops.append({"op": "light", "what": gen_what(rng, conf)})
            if rng.random() < .2:
                ops.append({"op": "unhold"})
        return {"conf": conf, "ops": ops, "tz": rng.choice(self.tz),
                "runs": QUICK_RUNS if tier == "quick" else THOROUGH_RUNS}

    def make(self, case, box):
        h = IOHist(box, case.get("conf", {}),
                   self.bins[case.get("flavour", "plain")],
                   tags=self.tags, env={"TZ": case.get("tz", "UTC")},
                   ftrace=self.ftrace)
        h.runs = case.get("runs", QUICK_RUNS)
        return h

    def interesting(self, h):
        return h.o.labels.get("faults", 0) >= 10 and \
            h.o.labels.get("failed with fault", 0) >= 1 and len(h.objs) >= 2

    def shrinks(self, case):
        if "conf" not in case:
            yield from idxcheck.idx_shrinks(case)
            return
        for c in HistCheck.shrinks(self, case):
            yield c
        ops = case["ops"]
        for i, op in enumerate(ops):
            if "what" in op and "c" in op["what"]:
                for c in gen.content_shrinks(op["what"]["c"]):
                    yield dict(case, ops=ops[:i] + [dict(op, what=dict(
                        op["what"], c=c))] + ops[i + 1:])
                for k in ("mime", "via", "dash", "chunks", "expl", "t"):
                    if k in op["what"]:
                        d = dict(op["what"])
                        del d[k]
                        yield dict(case, ops=ops[:i] + [dict(
                            op, what=d)] + ops[i + 1:])
