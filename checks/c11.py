import gen
from histcheck import HistCheck
from paces import gen_paces, run_paces

# stores begun within the same second, see KNOWN-FINDINGS.txt
SAME = {"conf": {"prefix": "http://x/", "bits": 128, "base": "%u.w",
                 "max": 13577},
        "paces": {"size": 68067, "seed": 8, "gap": 0}}
# and five seconds apart, which used to fail
APART = {"conf": dict(SAME["conf"]), "paces": dict(SAME["paces"], gap=5)}


class Check(HistCheck):
    pid = "C11"
    tags = {"C11"}
    rule = ("A case is a history with gaps, segmented objects and forced "
            "identifiers, in which the index is deleted and rebuilt from "
            "the silos in all kinds of order and grouping; the result is "
            "compared with the entries an independent reader of the silos "
            "calls for. Non-trivial: at least one reindex over at least "
            "two silos or two objects. ")
    weights = {'store': 6, 'again': 0.5, 'get': 0.5, 'hk': 1, 'reindex': 4, 'cache': 0.4, 'ro': 0.3, 'mksilo': 1.2, 'maxsize': 0.7, 'byid': 0.3}
    genkw = {'lo': 5, 'hi': 13, 'derived': 0.25, 'big': 0.4}

    twins_share = 0.1

    def gen(self, rng, i, tier):
        if i == 5:
            return SAME
        if i == 6:
            return APART
        if i % 60 == 17:
            return gen_paces(rng, gen.gen_conf(rng))
        return HistCheck.gen(self, rng, i, tier)

    def run(self, case, box):
        if "paces" in case:
            return run_paces(self, case, box, "get")
        return HistCheck.run(self, case, box)

    def shrinks(self, case):
        if "paces" in case:
            return []
        return HistCheck.shrinks(self, case)

    def interesting(self, h):
        return "reindex" in h.since and len(h.objs) + len(h.silo_recs) >= 3
