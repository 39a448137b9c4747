import hole
from histcheck import HistCheck


class Check(HistCheck):
    pid = "C12"
    tags = {"C12"}
    rule = ("A case is a history with filter runs over generated lists "
            "(present, absent, differing in one digit, repeated, in any "
            "spelling, from several files) and the output is compared "
            "line by line with the model. Non-trivial: at least four "
            "lines filtered with at least one object present. ")
    weights = {'store': 5, 'filter': 7, 'hk': 1.2, 'reindex': 0.3, 'maxsize': 0.3}
    genkw = {'lo': 4, 'hi': 14, 'big': 0.1}
    twins_share = 0.03

    def interesting(self, h):
        return h.o.labels.get("filter:lines", 0) >= 4 and len(h.objs) >= 1

    def gen(self, rng, i, tier):
        if i % 150 == 37:
            return hole.gen_hole(rng)
        return HistCheck.gen(self, rng, i, tier)

    def run(self, case, box):
        if "hole" in case:
            return hole.run_hole(self, case, box)
        return HistCheck.run(self, case, box)
