"""Common part of the checks which run histories."""
import random

import gen
from core import Base, Outcome
from hist import Hist


class HistCheck(Base):
    tags = None
    weights = {}
    genkw = {}
    asan_share = 0.04
    clock_share = 0.03
    twins_share = 0.0
    flavours = ("plain", "asan")
    tz = ("UTC", "AAA-13", "BBB11", "CCC-5:30")

    def gen(self, rng, i, tier):
        kw = dict(self.genkw)
        if tier == "thorough":
            kw["hi"] = int(kw.get("hi", 14) * 1.6)
        case = gen.gen_case(rng, self.weights, **kw)
        self.decorate(case, rng, i)
        if "rmime" not in case["conf"]:
            for op in case["ops"]:
                if "mime" in op and rng.random() < .015:
                    op["mime"] = gen.long_mime(rng)
        if rng.random() < self.asan_share:
            case["flavour"] = "asan"
        case["tz"] = rng.choice(self.tz)
        self.huge(case, rng, i)
        self.many(case, rng, i)
        if rng.random() < self.twins_share:
            ops = case["ops"]
            n = rng.randrange(1, max(2, len(ops)))
            ops[n:n] = gen.gen_twins(rng, case["conf"])
        if rng.random() < self.clock_share:
            ops = case["ops"]
            for _ in range(rng.randint(1, 3)):
                ops.insert(rng.randrange(len(ops) // 2 + 1),
                           gen.gen_clock(rng))
        return case

    def huge(self, case, rng, i):
        """Now and then an object of more than 16 MB."""
        if i % 500 == 13:
            c = [["z", (1 << 24) + rng.randint(-3, 9000000),
                  rng.randrange(256)]]
        elif i % 500 == 261:
            c = [["r", (1 << 24) + rng.randint(-6000, 600000), rng.randrange(9)]]
            case["conf"]["max"] = None
        else:
            return
        ops = case["ops"]
        case.pop("flavour", None)
        n = rng.randrange(min(3, len(ops) + 1))
        case["ops"] = ops[:n] + [
            {"op": "store", "c": c, "via": rng.choice(["file", "pipe"])},
            {"op": "get", "k": n, "o": rng.choice(["", "o", "n"])},
            {"op": "get", "k": n, "o": rng.choice(["z", "oz"])}] + \
            ops[n:n + 4]

    def many(self, case, rng, i):
        """Now and then many silos, but few descriptors."""
        if i % 260 != 77:
            return
        case["nofile"] = 64
        m = case["conf"]["max"] = rng.randint(5000, 7000)
        ops = case["ops"]
        case["ops"] = ops[:2] + [
            {"op": "store", "c": [["r", m * rng.randint(80, 100), i]]},
            {"op": "get", "k": 0, "o": ""}, {"op": "get", "k": 1, "o": "z"}]
        x = [op for op in ops[2:] if op["op"] not in (
            "store", "maxsize", "clock", "ro", "cache")][:3]
        if i % 520 == 77:
            x += [{"op": "audit", "args": 1, "s": i}, {"op": "getall"}]
        else:
            x += [{"op": "reindex", "s": i}, {"op": "hk"}]
        case["ops"] += x

    def decorate(self, case, rng, i):
        pass

    def make(self, case, box):
        h = Hist(box, case.get("conf", {}),
                 self.bins[case.get("flavour", "plain")],
                 tags=self.tags, env={"TZ": case.get("tz", "UTC")})
        if "nofile" in case:
            h.a.nofile = case["nofile"]
        return h

    def run(self, case, box):
        h = self.make(case, box)
        h.play(case["ops"])
        h.o.nontrivial = self.interesting(h)
        return h.o

    def interesting(self, h):
        return len(h.objs) >= 2

    def shrinks(self, case):
        for k in ("flavour", "tz"):
            if k in case and case[k] not in ("plain", "UTC"):
                c = dict(case)
                del c[k]
                yield c
        for c in gen.hist_shrinks(case):
            yield c
