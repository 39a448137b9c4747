import gen
import idxcheck
from histcheck import HistCheck


class Check(HistCheck):
    pid = "C09"
    quick = (3000, 90)
    tags = {"C09"}
    rule = ("Four of five cases write generated records (uniform, clustered, "
            "at bucket edges, equal keys, duplicates, up to 200000) to the "
            "index appendix, with generated sort sizes and states left by "
            "interrupted rounds, and compare the index files after "
            "housekeeping, and lookups, with the set of records; the others "
            "are histories of stores with housekeeping. Non-trivial: a "
            "housekeeping of at least two records.")
    weights = {"store": 6, "hk": 5, "get": 1, "byid": 2, "reindex": .5,
               "filter": .3, "again": .5}
    genkw = {"lo": 4, "hi": 14, "big": .25}

    def gen(self, rng, i, tier):
        if i % 5 == 4:
            return HistCheck.gen(self, rng, i, tier)
        big = i % 30 == 0
        case = idxcheck.gen_idx(rng, big, 1, 3 if big else 8, 1)
        if rng.random() < .03 and not big:
            case["flavour"] = "asan"
        return case

    def run(self, case, box):
        if "conf" in case:
            return HistCheck.run(self, case, box)
        h, o = idxcheck.run_idx(self, case, box)
        o.nontrivial = o.labels.get("housekeeping", 0) >= 1 and \
            o.labels.get("records", 0) >= 2
        return o

    def interesting(self, h):
        return "hk" in h.since and len(h.objs) >= 1

    def shrinks(self, case):
        return HistCheck.shrinks(self, case) if "conf" in case else \
            idxcheck.idx_shrinks(case)
