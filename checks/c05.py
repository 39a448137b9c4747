import hole
from histcheck import HistCheck


class Check(HistCheck):
    pid = "C05"
    tags = {"C05"}
    rule = ("A case is a history of stores under changing size limits, "
            "write protection and states of the cache file, all silo "
            "bytes compared before and after each operation. Non-trivial: "
            "something was appended to an existing silo, or protection, "
            "size limit or cache changed between stores. ")
    weights = {'store': 9, 'again': 0.5, 'hk': 0.3, 'reindex': 0.3, 'cache': 2, 'ro': 1.5, 'rw': 0.6, 'maxsize': 1.5, 'mksilo': 0.8, 'audit': 0.2, 'get': 0.3, 'rebuild': 0.2}
    genkw = {'lo': 5, 'hi': 18, 'big': 0.2}

    def interesting(self, h):
        return h.o.labels.get("store:appended", 0) >= 1 or len(h.since & {"cache", "ro", "maxsize"}) >= 1

    def gen(self, rng, i, tier):
        if i % 150 == 37:
            return hole.gen_hole(rng)
        return HistCheck.gen(self, rng, i, tier)

    def run(self, case, box):
        if "hole" in case:
            return hole.run_hole(self, case, box)
        return HistCheck.run(self, case, box)
