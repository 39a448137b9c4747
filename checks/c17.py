"""C17: several processes at a time."""
import os
import random

import gen
import warc
from c15 import clip
from fault import FaultHist
from histcheck import HistCheck
from sched import Hung, Proc, run_schedule

ONE = 90        # points of preemption per ordered pair
TWO = 40


class ParHist(FaultHist):
    pid = "C17"

    def start(self, w, i):
        """-> (argv, environment, judge(rc, out, err), object)"""
        a = self.a
        k = w["op"]
        if k == "store":
            argv, body, oid, ob, why = self.store_args(w)
            if why:
                return None
            fn = os.path.join(self.box, "in%d" % i)
            with open(fn, "wb") as f:
                f.write(body)

            def j(rc, out, err):
                if rc != 0:
                    return "store failed: %s" % err[-300:]
                if not out.rstrip(b"\n").lower().endswith(oid.encode()):
                    return "store printed %r, the identifier is %s" % (out,
                                                                       oid)
            return ["store"] + argv + [fn], j, \
                ob if oid not in self.must else None
        if k == "hk":
            def j(rc, out, err):
                if rc != 0:
                    return "housekeeping failed: %s" % err[-300:]
            return ["housekeeping"], j, None
        if k == "mksilo":
            n = w["n"]

            def j(rc, out, err):
                if rc not in (0, 1, 2):
                    return "mksilo: exit status %s" % rc
                # somebody else may have tried that number
                if (rc == 0 or not self.stores) and n not in a.silos():
                    return "mksilo: there is no silo %d" % n
            return ["mksilo", str(n)], j, None
        if k in ("get", "cgi"):
            ob = None
            if w.get("new") is not None and self.coming:
                ob = self.coming[w["new"] % len(self.coming)]
            new = ob is not None
            if ob is None:
                if not self.order:
                    return None
                ob = self.objs[self.pick(w["k"])]
            opt = ["-z"] if "z" in w.get("o", "") else []

            def j(rc, out, err):
                if rc != 0:
                    if new and rc == 1 and not out:
                        return None
                    return "get failed: %s" % err[-300:]
                if opt:
                    try:
                        out, end, _ = warc.gz_member(out, 0, 1 << 30)
                    except warc.Bad as e:
                        return "get -z: %s" % e
                if out != ob.body:
                    return "get delivered %d bytes which are not the %d" % (
                        len(out), len(ob.body))
                if new:
                    self.o.label("got while being stored")
            return ["get", "-q"] + opt + [ob.id], j, None
        if not self.order:
            return None
        if k == "byid":
            oid = self.pick(w["k"])

            def j(rc, out, err):
                if rc != 0:
                    return "byid failed: %s" % err[-300:]
                if oid.encode() not in out.lower():
                    return "byid does not show %s" % oid
            return ["byid", "-e", oid], j, None
        if k == "dumpindex":
            want = {e[0] for e in self.pents}

            def j(rc, out, err):
                if rc != 0:
                    return "dumpindex failed: %s" % err[-300:]
                have = {ln.split()[0].decode().lower()
                        for ln in out.splitlines() if ln.strip()}
                if want - have:
                    return "dumpindex misses %s" % sorted(want - have)[:3]
            return ["dumpindex"], j, None
        if k == "filter":
            rng = random.Random("f%d" % w["k"])
            ids = [self.pick(rng.randrange(1000)) for _ in range(3)]
            bad = ["%0*x" % (a.idsize, rng.getrandbits(4 * a.idsize))
                   for _ in range(2)]
            ls = ids + [b for b in bad if b[:24] not in
                        {e[0] for e in self.pents}]
            rng.shuffle(ls)
            fn = os.path.join(self.box, "in%d" % i)
            with open(fn, "w") as f:
                f.write("".join(x + "\n" for x in ls))

            def j(rc, out, err):
                if rc != 0:
                    return "filter failed: %s" % err[-300:]
                exp = "".join("%d %s\n" % (x in ids, x) for x in ls)
                if out.decode("latin1") != exp:
                    return "filter says %r, expected %r" % (out, exp)
            return ["filter", "-v"] + (["-s"] if w.get("s") else []) + [fn], \
                j, None
        raise ValueError(w)

    def once(self, s0, ws, sched):
        """Runs all of them -> what really happened"""
        self.restore(s0)
        args = self.pargs
        procs = []
        try:
            for ar in args:
                procs.append(Proc(self.a, self.ftrace, ar[0]))
            did = run_schedule(procs, sched)
        except Hung:
            self.bad(self.pid, "they do not end: " + self.desc(ws, procs))
        finally:
            for p in procs:
                p.kill()
        self.last = [len(p.log) for p in procs]
        self.logs = [p.log for p in procs]
        self.where = "%s, schedule %s: " % (self.desc(ws, procs), did)
        self.o.steps += 1
        self.o.label("schedules")
        res = [p.finish() for p in procs]
        for ar, (rc, out, err) in zip(args, res):
            if b"Sanitizer" in err:
                self.bad(self.pid, err[-2000:].decode("latin1"))
            m = ar[1](rc, out, err)
            if m:
                self.bad(self.pid, m)
        return did

    def desc(self, ws, procs):
        r = []
        for w, p in zip(ws, procs):
            at = ""
            if p.at is not None:
                at = " (at %s %s)" % (p.at[1],
                                      p.at[3].replace(self.a.dir, ""))
            r.append(w["op"] + at)
        return " | ".join(r)

    def judge(self, pre, obs):
        recs = self.check_silos(pre)
        if [p for p in self.a.strays if not p.endswith(".housekeep")]:
            self.bad(self.pid, "files left behind: %s" % self.a.strays)
        ents = self.check_entries(recs)
        self.silo_recs = {}
        for (n, off), r in sorted(recs.items()):
            self.silo_recs.setdefault(n, []).append(r)
        want = set(self.expected_index())
        dup = {x.id for x in obs} if self.dups else set()
        if dup:
            want = {e[:4] for e in want}
            ents = {e[:4] for e in ents}
        if ents != want:
            self.bad(self.pid, "the index does not agree with the silos: "
                     "missing %s, too much %s" %
                     (sorted(want - ents)[:3], sorted(ents - want)[:3]))
        wi = {}
        for (n, off), r in recs.items():
            if r.type == "warcinfo" and off != 0:
                self.bad(self.pid, "two warcinfo records in silo %d" % n)
            rid = r.get("WARC-Record-ID")
            if r.type != "warcinfo" and r.segno is None:
                wi.setdefault(rid, []).append((n, off))
        for ob in obs:
            self.check_get(ob)

    def op_par(self, op):
        self.enter()
        ws = op["what"]
        s0 = self.snap()
        pre = dict(self.silo_data)
        self.pents = {e for _, e in warc.read_index(self.a.sdir)}
        self.coming = []
        obs = {}
        self.dups = False
        for w in ws:
            if w["op"] == "store":
                argv, body, oid, ob, why = self.store_args(w)
                if why:
                    return
                if oid in obs:
                    self.dups = True
                if oid not in self.must:
                    if oid in obs:
                        # as the first one
                        w["mime"] = obs[oid].mime
                        continue
                    ob.t0, ob.t1 = 0, 1 << 40
                    obs[oid] = ob
                    self.coming.append(ob)
        obs = list(obs.values())
        self.stores = any(w["op"] == "store" for w in ws)
        # once, contents can be made from what is in the archive
        self.pargs = [self.start(w, i) for i, w in enumerate(ws)]
        if None in self.pargs:
            return
        rng = random.Random("pr%d" % op.get("go", 0))
        self.o.label("par:" + "+".join(sorted(w["op"] for w in ws)))
        # alone, one after the other, to know how long they are
        scheds = []
        n = len(ws)
        mode = op.get("mode", "one")
        if "sched" in op:
            scheds = [op["sched"]]
        else:
            self.once(s0, ws, [])
            self.judge(pre, obs)
            last = self.last
            logs = self.logs
            if mode == "one":
                for a, b in ((0, 1), (1, 0)):
                    pts = [k for k in range(1, last[a])]
                    if len(pts) > op.get("max", ONE):
                        pts = sorted(rng.sample(pts, op.get("max", ONE)))
                    scheds += [[[a, k], [b, None]] for k in pts]
            elif mode == "two":
                for _ in range(op.get("max", TWO)):
                    a = rng.randrange(n)
                    b = (a + rng.randrange(1, n)) % n
                    x = [[a, rng.randint(1, max(1, last[a] - 1))],
                         [b, rng.randint(1, max(1, last[b] - 1))]]
                    if rng.random() < .5:
                        x.append([a, rng.randint(1, max(1, last[a]))])
                    elif n > 2:
                        x.append([rng.randrange(n), None])
                    scheds.append(x)
            else:
                for _ in range(op.get("max", TWO)):
                    x = []
                    m = rng.choice([1, 2, 3, 5, 10, 30])
                    for _ in range(rng.randint(5, 60)):
                        x.append([rng.randrange(n), rng.randint(1, m)])
                    scheds.append(x)
        seen = set()
        for sc in scheds:
            self.once(s0, ws, sc)
            key = self.key(self.snap())
            if key in seen:
                continue
            seen.add(key)
            self.o.label("distinct states")
            self.judge(pre, obs)
            if rng.random() < .1:
                self.where += "afterwards: "
                self.check_must()
                self.check_hk({e for _, e in
                               warc.read_index(self.a.sdir)})
                self.check_must()
        for ob in obs:
            self.settle(ob)
            ob.t0, ob.t1 = 0, 1 << 40
        self.where = "after the processes: "
        self.check_must()
        self.load()


def gen_pwhat(rng, conf, i):
    k = gen.wchoice(rng, [(6, "store"), (3, "hk"), (2.5, "get"),
                          (.7, "mksilo"), (1, "byid"), (1, "filter"),
                          (.5, "dumpindex")])
    if k == "store":
        op = gen.gen_store(rng, conf, .3, .1)
        clip(op, conf, 3)
        for x in ("force", "fform", "via", "dash", "chunks", "badref"):
            op.pop(x, 0)
        return op
    if k == "hk":
        return {"op": "hk"}
    if k == "mksilo":
        return {"op": "mksilo", "n": rng.randrange(8)}
    if k == "get":
        w = {"op": "get", "k": rng.randrange(1000),
             "o": "z" if rng.random() < .2 else ""}
        if rng.random() < .4:
            w["new"] = rng.randrange(4)
        return w
    return {"op": k, "k": rng.randrange(1000), "s": int(rng.random() < .3)}


class Check(HistCheck):
    pid = "C17"
    use_ftrace = True
    technique = "systematic and random scheduling of real processes at " \
        "their file operations over generated histories"
    rule = "A case is a generated history followed by two to four " \
        "processes which run at the same time, stopped and resumed at their " \
        "file operations: with one preemption at each of them, with two or " \
        "three preemptions, or with a random schedule.  Every schedule " \
        "starts from the same archive.  Non-trivial: at least ten " \
        "schedules, one of the processes changes something."
    weights = {"store": 8, "again": .5, "hk": 1, "reindex": .2,
               "mksilo": .2, "maxsize": .2}
    shrink_s = 120

    def gen(self, rng, i, tier):
        conf = gen.gen_conf(rng, small=rng.random() < .8)
        n = rng.randint(1, 5 if tier == "quick" else 10)
        ops = gen.gen_ops(rng, conf, self.weights, n, 1)
        for op in ops:
            clip(op, conf, 4)
        mode = gen.wchoice(rng, [(4, "one"), (3, "two"), (2, "rand")])
        m = 2 if mode == "one" else rng.randint(2, 4)
        ws = [gen_pwhat(rng, conf, j) for j in range(m)]
        if not any(w["op"] in ("store", "hk", "mksilo") for w in ws):
            ws[0] = gen_pwhat(rng, conf, 0)
            while ws[0]["op"] not in ("store", "hk"):
                ws[0] = gen_pwhat(rng, conf, 0)
        if i % 12 == 6:
            # the first ones of all, which make the directories
            ops = []
            ws = [w for w in ws if w["op"] in ("store", "mksilo", "hk")]
            while len([w for w in ws if w["op"] != "hk"]) < 2:
                w = gen_pwhat(rng, conf, 0)
                if w["op"] in ("store", "mksilo"):
                    ws.append(w)
            for w in ws:
                if w["op"] == "store":
                    for x in ("t", "tspell", "ref", "rform"):
                        w.pop(x, 0)
        elif i % 12 == 9:
            n = rng.choice([100, 200, 10000, 123400])
            ws += [{"op": "mksilo", "n": n + rng.randrange(2)}
                   for _ in range(2)]
        st = [w for w in ws if w["op"] == "store"]
        if len(st) > 1 and rng.random() < .15 and "b" not in [
                p[0] for p in st[0]["c"]]:
            st[1].clear()
            st[1].update(st[0])
        ops.append({"op": "par", "what": ws, "mode": mode,
                    "go": rng.randrange(1000),
                    "max": (25 if tier == "quick" else 150)})
        return {"conf": conf, "ops": ops, "tz": rng.choice(self.tz)}

    def make(self, case, box):
        return ParHist(box, case.get("conf", {}),
                       self.bins[case.get("flavour", "plain")],
                       tags=self.tags, env={"TZ": case.get("tz", "UTC")},
                       ftrace=self.ftrace)

    def interesting(self, h):
        return h.o.labels.get("schedules", 0) >= 10

    def shrinks(self, case):
        for c in HistCheck.shrinks(self, case):
            yield c
        ops = case["ops"]
        for i, op in enumerate(ops):
            if op["op"] != "par":
                continue
            for j in range(len(op["what"])):
                if len(op["what"]) > 2:
                    w = op["what"][:j] + op["what"][j + 1:]
                    yield dict(case, ops=ops[:i] + [dict(
                        op, what=w, mode="one", max=ONE)] + ops[i + 1:])
            for j, w in enumerate(op["what"]):
                alts = []
                if "c" in w:
                    alts = [dict(w, c=c) for c in gen.content_shrinks(w["c"])]
                for k in ("mime", "expl", "t", "o", "new", "s"):
                    if k in w:
                        d = dict(w)
                        del d[k]
                        alts.append(d)
                for d in alts:
                    yield dict(case, ops=ops[:i] + [dict(
                        op, what=op["what"][:j] + [d] +
                        op["what"][j + 1:])] + ops[i + 1:])
