import gen
import hole
import idxcheck
from histcheck import HistCheck


class Check(HistCheck):
    pid = "C10"
    tags = {"C10"}
    rule = ("Two of three cases look up partial identifiers (present, absent, "
            "one above and below present ones, of 1 to 24 digits) in index "
            "files made of generated records in all states of housekeeping; "
            "the others use byid and dumpindex in histories of stores, and "
            "refused arguments. Non-trivial: at least three lookups, one of "
            "which finds something.")
    weights = {"store": 6, "byid": 9, "hk": 1.5, "reindex": .3, "mksilo": .3,
               "bad": 1}
    genkw = {"lo": 5, "hi": 16, "big": .2, "small": True}

    def gen(self, rng, i, tier):
        if i % 150 == 37:
            return hole.gen_hole(rng)
        if i % 3 == 2:
            return HistCheck.gen(self, rng, i, tier)
        big = i % 21 == 0
        case = idxcheck.gen_idx(rng, big, 1, 2 if big else 6, 3)
        if rng.random() < .03 and not big:
            case["flavour"] = "asan"
        return case

    def decorate(self, case, rng, i):
        for op in case["ops"]:
            if op["op"] == "bad":
                op.update({"args": rng.choice([
                    ["byid", "x"], ["byid", "12g4"], ["dumpindex", "zz"],
                    ["dumpindex", "12", "0x12"], ["byid", "12 34"],
                    ["dumpindex", "-t", "rubbish"],
                    ["dumpindex", "-1"], ["byid", "ab", "%PFXq"]])})

    def run(self, case, box):
        if "hole" in case:
            return hole.run_hole(self, case, box)
        if "conf" in case:
            return HistCheck.run(self, case, box)
        h, o = idxcheck.run_idx(self, case, box)
        o.nontrivial = o.labels.get("lookup", 0) >= 3 and \
            o.labels.get("lookup:hits", 0) >= 1
        return o

    def interesting(self, h):
        return h.o.labels.get("lookup", 0) >= 3 and \
            h.o.labels.get("lookup:hits", 0) >= 1

    def shrinks(self, case):
        return HistCheck.shrinks(self, case) if "conf" in case else \
            idxcheck.idx_shrinks(case)
