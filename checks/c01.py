import hole
from histcheck import HistCheck


class Check(HistCheck):
    pid = "C01"
    tags = {"C01"}
    rule = ("A case is a configuration and a history of 4-14 (thorough: "
            "-22) operations; everything stored is retrieved and all "
            "files are compared with the reference model at the end. Non- "
            "trivial: at least two objects were stored and retrieved. ")
    weights = {'store': 8, 'again': 1, 'get': 3, 'getall': 0.5, 'hk': 1.5, 'reindex': 1, 'cache': 0.7, 'ro': 0.4, 'rw': 0.2, 'maxsize': 0.5, 'mksilo': 0.4, 'audit': 0.3, 'filter': 0.2, 'byid': 0.3, 'cgi': 0.2, 'rebuild': 0.3}
    genkw = {'lo': 4, 'hi': 14}
    twins_share = 0.03

    def interesting(self, h):
        return len(h.objs) >= 2 and h.o.labels.get("get", 0) >= 2

    def gen(self, rng, i, tier):
        if i % 150 == 37:
            return hole.gen_hole(rng)
        return HistCheck.gen(self, rng, i, tier)

    def run(self, case, box):
        if "hole" in case:
            return hole.run_hole(self, case, box)
        return HistCheck.run(self, case, box)
