"""Histories in which operations are killed, or their file operations fail.

The operations before the first such one are played by Hist with its strict
model.  From then on there is only the set of the objects which must be
retrievable, and of those which may be or not, because the store of them was
interrupted.
"""
import hashlib
import os
import shutil

import warc
from hist import Hist, Stop, sha


class NoTrace(OSError):
    pass


class FaultHist(Hist):
    pid = "C15"
    hang = 30

    def __init__(self, *a, ftrace=None, **kw):
        Hist.__init__(self, *a, **kw)
        self.ftrace = ftrace
        self.where = ""
        self.must = None
        self.maybe = {}
        self.logfn = os.path.join(self.box, "ftrace.log")

    # -- reporting ---------------------------------------------------------

    def bad(self, tags, msg, stop=True):
        if self.must is None:
            # the prelude is the business of other checks
            if stop:
                raise Stop()
            return
        self.o.bad("[%s] %s%s" % (self.pid, self.where, msg))
        if stop:
            raise Stop()

    def context_tags(self, tags):
        return set()

    # -- the archive as it is ------------------------------------------------

    def enter(self):
        """From here on the simple model."""
        if self.must is None:
            self.sync()
            self.must = set(self.objs)
            self.order = [i for i in self.order if i in self.must]
        self.load()

    def load(self):
        """What derived contents are made from."""
        self.silo_data, self.silo_recs = {}, {}
        for n, fn in self.a.silos().items():
            with open(fn, "rb") as f:
                self.silo_data[n] = f.read()
            try:
                self.silo_recs[n] = warc.parse_silo(self.silo_data[n])
            except warc.Bad as e:
                self.bad(self.pid, "silo %d: %s" % (n, e))

    def snap(self):
        return self.a.snapshot()

    def restore(self, snap):
        s = self.a.sdir
        for d, dn, fn in os.walk(s):
            for f in fn:
                p = os.path.join(d, f)
                if os.path.relpath(p, s) not in snap:
                    os.unlink(p)
        for k, (b, mode) in snap.items():
            p = os.path.join(s, k)
            try:
                with open(p, "rb") as f:
                    if f.read() == b and \
                            os.stat(p).st_mode & 0o7777 == mode:
                        continue
            except OSError:
                pass
            # a new file: it may be a link
            if os.path.exists(p):
                os.unlink(p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
            os.chmod(p, mode)
        for d, dn, fn in os.walk(s, topdown=False):
            if d != s and not os.listdir(d):
                os.rmdir(d)

    @staticmethod
    def key(snap):
        """What of a snapshot matters: the contents of holds do not."""
        h = hashlib.sha256()
        for k in sorted(snap):
            b, mode = snap[k]
            if k.endswith("hold") or k.startswith("index.tmp"):
                b = b""
                if k.startswith("index.tmp"):
                    k = "index.tmp"
            h.update(repr((k, mode, sha(b))).encode())
        return h.hexdigest()

    # -- running something -----------------------------------------------------

    def prepare_what(self, w):
        """-> (function which runs it, object or None)"""
        a = self.a
        k = w["op"]
        if k == "store":
            w = dict(w)
            argv, body, oid, ob, why = self.store_args(w)
            if oid in self.maybe:
                # as it was tried before
                w["mime"] = self.maybe[oid].mime
                argv, body, oid, ob, why = self.store_args(w)
                ob = self.maybe[oid]
            if oid in self.must:
                ob = None
            if ob is not None:
                ob.t0 = ob.t0 or self.clock()[0]
                ob.t1 = 1 << 40
            return lambda: self.do_run_store(argv, body, w), ob, \
                None if why else oid
        if k == "hk":
            return lambda: a.run("housekeeping", timeout=self.hang), None, None
        if k == "reindex":
            return lambda: a.run("reindex", timeout=self.hang), None, None
        if k == "mksilo":
            n = w["n"]
            return lambda: a.run("mksilo", str(n), timeout=self.hang), \
                None, None
        if k == "get":
            oid = self.pick(w["k"])
            args = ["get"] + ["-" + c for c in "nqz" if c in w.get("o", "")]
            if "o" in w.get("o", ""):
                args += ["-o", self.outfile]
            return lambda: a.run(*args, oid, timeout=self.hang), None, oid
        raise ValueError(w)

    def pre_what(self, w):
        if w["op"] == "reindex" and w.get("mode") == "full":
            for f in ("index.appendix", "index.sorted", "index.housekeep",
                      "_.cache"):
                p = os.path.join(self.a.sdir, f)
                if os.path.exists(p):
                    os.unlink(p)

    def traced(self, fn, specs=(), std=False):
        """Runs fn with the tracer; the result has the log."""
        a = self.a
        wrap = [self.ftrace, "-r", self.box, "-l", self.logfn]
        if std:
            wrap.append("-s")
        for s in specs:
            wrap += ["-f", s]
        a.wrap = wrap + ["--"]
        try:
            r = fn()
        finally:
            a.wrap = ()
        log = []
        try:
            with open(self.logfn, encoding="latin1") as f:
                for ln in f:
                    p = ln.rstrip("\n").split(" ", 4)
                    if len(p) == 5 and p[0].isdigit():
                        log.append((int(p[0]), p[1], p[2], p[3], p[4]))
        except OSError:
            pass
        if r.rc == 250 and not log:
            raise NoTrace(11, "cannot trace: " + str(r))
        return r, log

    # -- judging -----------------------------------------------------------------

    def check_silos(self, pre):
        """Sound, and what was there is still there -> {(silo, off): rec}"""
        a = self.a
        recs = {}
        silos = a.silos()
        for n, b in pre.items():
            if n not in silos:
                self.bad(self.pid, "silo %d is gone" % n)
        for n, fn in silos.items():
            with open(fn, "rb") as f:
                d = f.read()
            if not d.startswith(pre.get(n, b"")):
                self.bad(self.pid, "what was in silo %d has changed" % n)
            try:
                for r in warc.parse_silo(d):
                    if r.errs:
                        self.bad(self.pid, "record at %d in silo %d: %s" %
                                 (r.off, n, r.errs))
                    recs[(n, r.off)] = r
            except warc.Bad as e:
                self.bad(self.pid, "silo %d is damaged: %s" % (n, e))
            if not d:
                self.bad(self.pid, "silo %d is empty" % n)
            if len(d) > self.max_seen:
                self.bad(self.pid, "silo %d is bigger than allowed" % n)
        for p in a.strays:
            b = os.path.basename(p)
            if not (b.endswith("hold") or b == "index.housekeep" or
                    b.startswith("index.tmp.")):
                self.bad(self.pid, "there is a file %s" % p)
        return recs

    def check_entries(self, recs):
        """The index refers to nothing but records."""
        try:
            ents = warc.read_index(self.a.sdir)
        except warc.Bad as e:
            self.bad(self.pid, "the index is damaged: %s" % e)
        for fn, (key, flags, silo, off, cont) in ents:
            r = recs.get((silo, off))
            if r is None:
                self.bad(self.pid, "the index (%s) refers to silo %d offset "
                         "%d, where no record is" % (fn, silo, off))
            i = r.get("WARC-Record-ID").rsplit("/", 1)[1][:-1].lower()
            if (i + "0" * 24)[:24] != key:
                self.bad(self.pid, "the index (%s) has %s at silo %d offset "
                         "%d, where %s is" % (fn, key, silo, off, i))
        return {e for _, e in ents}

    def check_must(self, o=""):
        for oid in self.order:
            self.check_get(self.objs[oid], o=o)

    def check_maybe(self, ob):
        """Whole, or not there."""
        r = self.a.run("get", "-q", ob.id, timeout=self.hang)
        if r.hung or r.sanitizer:
            self.bad(self.pid, "get: %s" % r)
        if r.ok:
            if r.out != ob.body:
                self.bad(self.pid, "get of the object which was being stored "
                         "delivers %d bytes which are not its %d" %
                         (len(r.out), len(ob.body)))
            self.o.label("interrupted object: there")
            return True
        if r.out and not ob.body.startswith(r.out):
            self.bad(self.pid, "get of the object which was being stored "
                     "delivers something else")
        if r.out:
            self.bad(self.pid, "get of the object which was being stored "
                     "delivers a part of it: %d of %d bytes" %
                     (len(r.out), len(ob.body)))
        self.o.label("interrupted object: not there")
        return False

    def rm(self, *names):
        for f in names:
            p = os.path.join(self.a.sdir, f)
            if os.path.exists(p):
                os.unlink(p)

    def expect(self, r, what):
        if r.crashed or not r.ok:
            self.bad(self.pid, "%s failed: %s" % (what, r))

    def check_reindex(self, w=""):
        """Everything in the silos can be found again."""
        self.rm("index.appendix", "index.sorted", "index.housekeep",
                "_.cache")
        self.expect(self.a.run("reindex", timeout=self.hang),
                    "reindex " + w)
        self.check_must()
        for ob in self.maybe.values():
            self.check_maybe(ob)

    def check_hk(self, ents):
        """Housekeeping does what it should once the hold is gone."""
        self.rm("index.hold")
        r = self.a.run("housekeeping", timeout=self.hang)
        self.expect(r, "housekeeping afterwards")
        try:
            now = {e for _, e in warc.read_index(self.a.sdir)}
        except warc.Bad as e:
            self.bad(self.pid, "after housekeeping the index is damaged: %s" %
                     e)
        if ents - now:
            self.bad(self.pid, "housekeeping afterwards lost entries: %s" %
                     sorted(ents - now)[:3])
        if now - ents:
            self.bad(self.pid, "housekeeping afterwards made up entries: %s" %
                     sorted(now - ents)[:3])
        self.rm_tmp()

    def rm_tmp(self):
        for f in os.listdir(self.a.sdir):
            if f.startswith("index.tmp."):
                os.unlink(os.path.join(self.a.sdir, f))

    def settle(self, ob):
        """The store of it has succeeded."""
        if ob is None:
            return
        ob.t1 = self.clock()[1]
        self.maybe.pop(ob.id, None)
        self.objs[ob.id] = ob
        if ob.id not in self.must:
            self.must.add(ob.id)
            self.order.append(ob.id)

    def unsettle(self, ob):
        if ob is not None and ob.id in self.must:
            self.must.remove(ob.id)
            self.order.remove(ob.id)

    def judge_redo(self, run, w, ob, oid):
        """The operation succeeds when done again."""
        if w["op"] == "store":
            r = run()
            self.expect(r, "the store done again")
            if not r.out.rstrip(b"\n").lower().endswith(
                    oid.encode()) or not r.out.endswith(b"\n"):
                self.bad(self.pid, "the store done again printed %r, the "
                         "identifier is %s" % (r.out, oid))
            self.settle(ob)
            self.check_get(self.objs[oid])
        elif w["op"] == "mksilo":
            # there may be a stale hold, or it is there already
            r = run()
            if r.crashed:
                self.bad(self.pid, "mksilo done again failed: %s" % r)
        elif w["op"] == "hk":
            r = run()
            self.expect(r, "housekeeping done again")
        elif w["op"] == "reindex":
            r = run()
            self.expect(r, "reindex done again")
        elif w["op"] == "get":
            self.check_get(self.objs[oid], o=w.get("o", ""))

    # -- what histories consist of -----------------------------------------------

    def op_light(self, op):
        """An operation nothing happens to."""
        self.enter()
        w = op["what"]
        run, ob, oid = self.prepare_what(w)
        if w["op"] == "store" and oid is None:
            return
        self.where = "%s: " % w["op"]
        self.pre_what(w)
        pre = dict(self.silo_data)
        self.judge_redo(run, w, ob, oid)
        self.check_entries(self.check_silos(pre))
        self.load()

    def op_unhold(self, op):
        """The operator removes the stale holds."""
        self.enter()
        for d, dn, fn in os.walk(self.a.sdir):
            for f in fn:
                if f.endswith("hold"):
                    os.unlink(os.path.join(d, f))
        self.rm_tmp()

    def final(self, get=True, o=""):
        if self.must is None:
            Hist.final(self, get, o)
            return
        self.where = "in the end: "
        self.check_entries(self.check_silos({}))
        self.check_must()
