"""C15: crashes."""
import random

import gen
from core import Base
from fault import FaultHist
import idxcheck
from histcheck import HistCheck


MAXPOINTS = 70


class CrashHist(FaultHist):
    pid = "C15"

    def op_crash(self, op):
        """Kills the operation at each of its points."""
        self.enter()
        w = op["what"]
        run, ob, oid = self.prepare_what(w)
        if w["op"] == "store" and oid is None:
            return
        self.pre_what(w)
        full = w["op"] == "reindex" and w.get("mode") == "full"
        s0 = self.snap()
        pre = dict(self.silo_data)
        self.where = "%s: " % w["op"]
        r, log = self.traced(run)
        if r.crashed or (not r.ok and w["op"] != "mksilo"):
            self.bad("", "failed without a crash: %s" % r)
        points = [k for k, name, cls, ret, tgt in log
                  if cls in "M" and not ret.startswith("-")]
        self.o.label("crashed:" + w["op"])
        if ob is not None:
            self.maybe[ob.id] = ob
        keep = None
        seen = set()
        if points:
            go = points[op.get("go", 0) % (len(points))]
            specs = ["%d:kill" % k for k in points]
            specs.append("%d:killafter" % points[-1])
            todo = list(zip(points + points[-1:], specs))
            if len(todo) > MAXPOINTS:
                # the file operations of one more segment are like the others
                rng = random.Random("pt%d" % op.get("go", 0))
                todo = [x for x in todo if x[0] == go] + \
                    todo[:5] + todo[-10:] + \
                    rng.sample(todo[5:-10], MAXPOINTS - 16)
                self.o.label("points sampled")
            for k, spec in todo:
                self.restore(s0)
                run2 = run
                r, lg = self.traced(run2, [spec])
                name, tgt = [(x[1], x[4]) for x in log if x[0] == k][0]
                self.where = "%s killed %s %s %s (operation %d): " % (
                    w["op"], "after" if "after" in spec else "before",
                    name, tgt.replace(self.a.dir, ""), k)
                if r.rc not in (137, -9):
                    # it did other things this time
                    self.o.label("not reached")
                    continue
                self.o.label("crash points")
                s1 = self.snap()
                key = self.key(s1)
                if key in seen:
                    if k == go and "after" not in spec:
                        keep = s1
                    continue
                seen.add(key)
                self.o.label("distinct states")
                self.judge(w, run, ob, oid, pre, full,
                           op.get("remax", 0))
                self.restore(s1)
                self.o.steps += 1
                self.check_reindex("after a crash")
                if k == go and "after" not in spec:
                    keep = s1
        self.where = "after the crashes: "
        if keep is None:
            self.restore(s0)
        else:
            self.restore(keep)
        if op.get("redo") or keep is None or full:
            self.judge_redo(run, w, ob, oid)
        elif ob is not None and self.check_maybe(ob):
            # it will remain there
            self.settle(ob)
        self.load()

    def judge(self, w, run, ob, oid, pre, full, remax):
        recs = self.check_silos(pre)
        ents = self.check_entries(recs)
        if not full:
            self.check_must()
        for x in self.maybe.values():
            self.check_maybe(x)
        old = self.a.max
        if remax:
            # cut in other places
            self.a.set_max(old + remax)
            self.max_seen = max(self.max_seen, old + remax)
        self.judge_redo(run, w, ob, oid)
        recs = self.check_silos(pre)
        ents = self.check_entries(recs)
        self.check_hk(ents)
        self.check_must()
        if remax:
            self.check_reindex("after it was done again")
            self.a.set_max(old)
        self.unsettle(ob)
        if ob is not None:
            self.maybe[ob.id] = ob
            ob.t1 = 1 << 40


def clip(op, conf, n=7):
    """Not too many segments."""
    lim = n * gen.maxof(conf)
    for p in op.get("c", []) if isinstance(op.get("c"), list) else []:
        if p[0] not in "bzp" and p[1] > lim:
            p[1] = lim - p[1] % 1000


def gen_what(rng, conf):
    k = gen.wchoice(rng, [(6, "store"), (3, "hk"), (1.5, "reindex"),
                          (.7, "mksilo")])
    if k == "store":
        if rng.random() < .1:
            return gen.gen_again(rng)
        op = gen.gen_store(rng, conf, .35, .1)
        clip(op, conf)
        op.pop("force", 0)
        op.pop("fform", 0)
        return op
    if k == "reindex":
        return {"op": "reindex", "mode": rng.choice(["full", "again"])}
    if k == "mksilo":
        return {"op": "mksilo", "n": gen.wchoice(
            rng, [(1, rng.randrange(6)), (1, rng.randrange(30)),
                  (1, rng.randrange(100, 20000))])}
    return {"op": "hk"}


class Check(HistCheck):
    pid = "C15"
    use_ftrace = True
    technique = "fault injection with exhaustive crash points over generated "\
        "histories (stateful property-based testing)"
    rule = "A case is a generated history in which one to three operations " \
        "(store, housekeeping, reindex, mksilo) are killed before each, and " \
        "after the last, of their file operations which change something; " \
        "every distinct state this leaves is judged.  One of eight does so " \
        "with housekeeping of generated index files.  Non-trivial: at " \
        "least five distinct states with two objects in the archive."
    weights = {"store": 8, "again": .5, "hk": 1, "reindex": .3,
               "mksilo": .2, "maxsize": .2}

    def run(self, case, box):
        if "conf" in case:
            return HistCheck.run(self, case, box)
        h, o = idxcheck.run_idxfault(self, case, box)
        o.nontrivial = o.labels.get("distinct states", 0) >= 5
        return o

    def gen(self, rng, i, tier):
        if i % 8 == 5:
            return idxcheck.gen_idxfault(rng, "crash")
        conf = gen.gen_conf(rng, small=rng.random() < .7)
        n = rng.randint(1, 6 if tier == "quick" else 12)
        ops = gen.gen_ops(rng, conf, self.weights, n, 1)
        for op in ops:
            clip(op, conf)
        for _ in range(gen.wchoice(rng, [(3, 1), (2, 2), (1, 3)])):
            ops.append({"op": "crash", "what": gen_what(rng, conf),
                        "go": rng.randrange(100),
                        "redo": int(rng.random() < .3)})
            if conf["max"] and rng.random() < .4:
                ops[-1]["remax"] = rng.choice([1, 5, rng.randint(1, 40),
                                               rng.randint(1, 3000)])
            if rng.random() < .4:
                ops.append({"op": "light", "what": gen_what(rng, conf)})
            if rng.random() < .2:
                ops.append({"op": "unhold"})
        case = {"conf": conf, "ops": ops, "tz": rng.choice(self.tz)}
        return case

    def make(self, case, box):
        return CrashHist(box, case.get("conf", {}),
                         self.bins[case.get("flavour", "plain")],
                         tags=self.tags, env={"TZ": case.get("tz", "UTC")},
                         ftrace=self.ftrace)

    def interesting(self, h):
        return h.o.labels.get("distinct states", 0) >= 5 and \
            len(h.objs) >= 2

    def shrinks(self, case):
        if "conf" not in case:
            yield from idxcheck.idx_shrinks(case)
            return
        for c in HistCheck.shrinks(self, case):
            yield c
        ops = case["ops"]
        for i, op in enumerate(ops):
            if "what" in op and "c" in op["what"]:
                for c in gen.content_shrinks(op["what"]["c"]):
                    yield dict(case, ops=ops[:i] + [dict(op, what=dict(
                        op["what"], c=c))] + ops[i + 1:])
                for k in ("mime", "via", "dash", "chunks", "expl", "t"):
                    if k in op["what"]:
                        d = dict(op["what"])
                        del d[k]
                        yield dict(case, ops=ops[:i] + [dict(
                            op, what=d)] + ops[i + 1:])
