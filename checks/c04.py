from histcheck import HistCheck


class Check(HistCheck):
    pid = "C04"
    tags = {"C04"}
    rule = ("A case is a configuration and a history; every silo byte is "
            "parsed by an independent WARC/gzip reader after each "
            "operation and compared with the objects stored. Non-trivial: "
            "at least three records besides the warcinfo. ")
    clock_share = 0.3
    weights = {'store': 9, 'again': 0.7, 'hk': 0.5, 'reindex': 0.3, 'cache': 0.7, 'ro': 0.3, 'maxsize': 0.8, 'mksilo': 0.6, 'rebuild': 0.3}
    genkw = {'lo': 4, 'hi': 16}

    def interesting(self, h):
        return sum(len(r) - 1 for r in h.silo_recs.values()) >= 3
