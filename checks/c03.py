from histcheck import HistCheck


class Check(HistCheck):
    pid = "C03"
    tags = {"C03"}
    rule = ("A case is a history with repeated stores of the same "
            "identifier by other ways, and stores of contents which equal "
            "segments or warcinfo records; the whole archive is compared "
            "before and after. Non-trivial: at least one store of an "
            "identifier already present, or colliding with a segment or "
            "warcinfo record. ")
    weights = {'store': 4, 'again': 6, 'get': 2, 'hk': 1.2, 'reindex': 0.8, 'cache': 0.8, 'ro': 0.3, 'maxsize': 0.6, 'rebuild': 0.2}
    genkw = {'lo': 5, 'hi': 14, 'derived': 0.4, 'meta': 0.3}
    twins_share = 0.03

    def interesting(self, h):
        return h.o.labels.get("store:again", 0) + h.o.labels.get("store:collides", 0) >= 1
