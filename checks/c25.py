import gen
from histcheck import HistCheck

EDGES = [0, 1, 2, 9, 10, 99, 100, 101, 110, 199, 200, 999, 1000, 1001, 9900,
         9999, 10000, 10001, 10099, 10100, 19999, 123456, 990000, 999999,
         1000000, 1000001, 1010101, 12345678, 99999999, 100000000, 100000001,
         1234567890, 2147483647, 2147483648, 4294967294]
BASES = ["%08u.warc.gz", "%u", "s%u.gz", "%x", "%05x.gz", "%o_", "a%%b%03u",
         "a%5u.warc.gz", "%d", "%03d.w", "%X.gz", "%.4u.gz", "1%u", "%u1",
         "%u.hold.gz"]


def number(rng):
    x = rng.random()
    if x < .4:
        return rng.choice(EDGES)
    if x < .6:
        return rng.randrange(1 << rng.randint(1, 32)) % 4294967295
    if x < .8:
        # one and two digits of base 100 changed
        n = 0
        for _ in range(rng.randint(1, 5)):
            n = n * 100 + rng.choice([0, 1, 9, 10, 50, 99,
                                      rng.randrange(100)])
        return n % 4294967295
    return rng.randrange(130)


class Check(HistCheck):
    pid = "C25"
    tags = {"C25"}
    technique = ("property-based testing with generated silo numbers and name "
                 "patterns, against the documented rule for paths")
    rule = ("A case is a history in which silos with generated numbers of up "
            "to 32 bits are made by mksilo and store, objects are stored in "
            "and fetched from them, and audit, rebuild and reindex without "
            "arguments have to visit exactly those below the first missing "
            "directory. Non-trivial: at least four silos with different "
            "numbers.")
    weights = {"mk": 8, "at": 4, "store": 1, "visit": 2.5, "dirs": 1,
               "hk": .2, "getall": .3, "audit": .3, "taken": 1.5,
               "over": .7}
    genkw = {"lo": 6, "hi": 22, "big": .1, "derived": .05}

    def gen(self, rng, i, tier):
        conf = gen.gen_conf(rng)
        conf["max"] = rng.choice([8000, 15360, 60000, None])
        conf["base"] = rng.choice(BASES)
        w = [(v, k) for k, v in self.weights.items()]
        ops = [gen.gen_store(rng, conf, .1, .05)]
        seen = [0]
        for _ in range(rng.randint(6, 22 if tier == "quick" else 40)):
            k = gen.wchoice(rng, w)
            if k == "mk" or k == "taken":
                n = number(rng) if k == "mk" else rng.choice(seen)
                if "d" in conf["base"] and "%" in conf["base"] and \
                        n > 2147483647:
                    n >>= 2
                seen.append(n)
                op = {"op": "mksilo", "n": n}
                if rng.random() < .2:
                    op["spell"] = rng.choice(["0x%x", "0%o", "0x%08X"])
            elif k == "at":
                op = gen.gen_store(rng, conf, .1, .05)
                op["op"] = "at"
                op["n"] = number(rng)
                if conf["base"].endswith("d.w") or conf["base"] == "%d":
                    op["n"] &= 0x7fffffff
                seen.append(op["n"])
            elif k == "over":
                op = {"op": "bad", "args": ["mksilo", "0"], "k": 0}
                op["args"][1] = rng.choice(["%d", "%d", "0x%x", "0%o"]) % (
                    rng.choice([1, 1, 1, 2, 3, 1 << 31, 1 << 32]) *
                    (1 << 32) + number(rng))
            elif k == "visit":
                op = {"op": "visit", "what": rng.choice(
                    ["audit", "rebuild", "reindex"])}
            elif k == "dirs":
                op = {"op": "dirs", "n": rng.choice(
                    [100, 101, 200, 1000, 5000, 9900, 9999, 10000, 10100,
                     11000, rng.randrange(12000)])}
            else:
                op = gen.GENS[k](rng, conf, {})
            ops.append(op)
        case = {"conf": conf, "ops": ops, "tz": "UTC"}
        if rng.random() < self.asan_share:
            case["flavour"] = "asan"
        return case

    def interesting(self, h):
        return len(h.silo_data) >= 4
