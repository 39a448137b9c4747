import os
import random

import damage
import gen
import warc
from core import Stop
from histcheck import HistCheck
from paces import gen_paces, run_paces


class Check(HistCheck):
    pid = "C13"
    tags = {"C13"}
    technique = ("stateful property-based testing: audits in generated "
                 "histories, and generated damage judged by an independent "
                 "reader of the silos")
    rule = ("Half of the cases are histories with audits, which must find "
            "exactly the records there are and no error; in the other half "
            "one record of the archive a history produced is damaged, with "
            "valid framing or by changing bytes, and audit must say so "
            "whenever an independent reader finds fault. Some archives "
            "have a big object stored twice, after an interruption or at "
            "the same time. Non-trivial: an "
            "audit of at least two objects, or a damage which counts.")
    weights = {"store": 6, "audit": 3, "hk": .3, "reindex": .2, "mksilo": .6,
               "maxsize": 1, "ro": .3, "again": .3, "rebuild": .2}
    genkw = {"lo": 3, "hi": 11, "big": .45, "derived": .25}

    def decorate(self, case, rng, i):
        case["ops"].append({"op": "audit", "args": rng.randrange(2),
                            "rel": rng.randrange(2), "s": i})
        if i % 12 == 4:
            case["twice"] = [rng.choice([1, 7, 40, 300, 3000, 0, -60]),
                             rng.randrange(1 << 30), rng.randrange(2)]
            for op in case["ops"]:
                op.pop("force", 0)
                op.pop("fform", 0)
        if i % 2:
            for op in case["ops"]:
                if "force" in op:
                    del op["force"]
            case["ops"] = [op for op in case["ops"]
                           if op["op"] in ("store", "maxsize", "mksilo")]
            case["damage"] = [rng.choice(damage.SEMANTIC)
                              if rng.random() < .6 else
                              "raw:" + rng.choice(damage.RAW),
                              rng.randrange(1 << 30), rng.randrange(3)]

    def gen(self, rng, i, tier):
        if i % 60 == 18:
            return gen_paces(rng, gen.gen_conf(rng))
        return HistCheck.gen(self, rng, i, tier)

    def shrinks(self, case):
        return [] if "paces" in case else HistCheck.shrinks(self, case)

    def run(self, case, box):
        if "paces" in case:
            return run_paces(self, case, box, "audit")
        h = self.make(case, box)
        h.play(case["ops"])
        h.o.nontrivial = h.o.labels.get("audit", 0) >= 1 and \
            len(h.objs) >= 2
        if "twice" in case and not h.o.viol:
            try:
                self.twice(h, *case["twice"])
            except Stop:
                pass
        if h.o.viol or "damage" not in case:
            return h.o
        h.o.nontrivial = False
        try:
            self.damage(h, case["damage"])
        except Stop:
            pass
        return h.o

    def twice(self, h, delta, seed, shuf):
        """A big object was stored again, after the first store of it was
        interrupted when its last segments were there, which may have been
        cut in other places."""
        a = h.a
        rng = random.Random(seed)
        h.sync()
        m = rng.randint(6000, 20000)
        a.set_max(m)
        argv, body, oid, ob, why = h.store_args(
            {"op": "store", "c": [["r", int(m * rng.uniform(2.2, 5)), seed]],
             "via": "file"})
        if oid is None or oid in h.objs:
            return

        def silos():
            return set(a.silos())

        s0 = silos()
        if s0 - h.reachable():
            return
        r = a.run("store", *argv, inp=body)
        if not r.ok:
            return
        new = sorted(silos() - s0)
        if len(new) < 3:
            return
        for n in new[:rng.randint(1, len(new) - 1)]:
            os.unlink(a.silo_fn(n))
        for f in os.listdir(a.sdir):
            if f.startswith("index.") or f == "_.cache":
                os.unlink(os.path.join(a.sdir, f))
        if not a.run("reindex").ok:
            return
        a.set_max(m + delta)
        # the date tells the attempts apart
        h.op_clock({"t": h.clock()[1] + 1 + seed % 100})
        if not a.run("store", *argv, inp=body).ok:
            return
        args = []
        if shuf:
            args = [a.silo_fn(n) for n in sorted(silos())]
            rng.shuffle(args)
        r = a.run("audit", *args)
        h.o.label("stored twice")
        if r.crashed or not r.ok or b"ERROR" in r.out or any(
                int(x.split()[2]) for x in damage_counts(r.out)):
            h.bad("C13", "audit reports errors in a sound archive, where a "
                  "big object was stored again after an interruption: %s" % r.out.decode("latin1"))

    def damage(self, h, dam):
        how, seed, sel = dam
        args = []
        a = h.a
        rng = random.Random(seed)
        if not h.silo_recs:
            return
        nums = sorted(h.silo_data)
        if how.startswith("raw:"):
            n = rng.choice(nums)
            d = damage.raw(h.silo_data[n], how[4:], rng)
            why = damage.unsound(d)
            if why is None:
                h.o.label("harmless")
                return
            with open(a.silo_fn(n), "wb") as f:
                f.write(d)
            conc = {n}
            for r in h.silo_recs[n]:
                if r.segno is not None:
                    conc = set(nums)
            what = "%s of silo %d (%s)" % (how, n, why)
        else:
            conc = damage.semantic(h, how, rng)
            if not conc:
                return
            what = how
            conc = set(conc)
            if seed % 3 == 0 and (
                    damage.damaged_type[0] != "metadata" or how not in (
                        "id", "bodydigest", "alldigest", "rebody", "newid",
                        "meta", "swap")):
                args = ["-i", "ignore-metadata-record-id"]
        h.o.label("damage:" + how)
        h.o.nontrivial = True
        exist = [n for n in nums if os.path.exists(a.silo_fn(n))]
        if sel == 0 or set(exist) - h.reachable():
            l = [a.silo_fn(n) for n in exist if n in conc]
            rng.shuffle(l)
            args += l
        elif sel == 1:
            l = [a.silo_fn(n) for n in exist]
            rng.shuffle(l)
            args += l
        r = a.run("audit", *args)
        if r.hung or r.sanitizer:
            h.bad("C13", "audit after %s: %s" % (what, r))
        out = (r.out + r.err).lower()
        bad = any(int(m.split()[2]) for m in
                  damage_counts(r.out))
        if r.rc == 0 and b"error" not in out and b"pending" not in out and \
                not bad:
            h.bad("C13", "audit does not report the damage: %s; %s" %
                  (what, r))


def damage_counts(out):
    import re
    return re.findall(rb"^\d+ good \d+ bad", out, re.M)
