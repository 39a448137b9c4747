from histcheck import HistCheck


class Check(HistCheck):
    pid = "C08"
    tags = {"C08"}
    rule = ("A case is a configuration and a history of stores and gets "
            "with all option combinations; each header shown is compared "
            "with the model (identifier, type, mime-type, reference, "
            "digest, length, UTC date in varied time zones). Non-trivial: "
            "at least three headers were compared, one of them of a "
            "metadata or segmented object. ")
    clock_share = 0.5
    weights = {'store': 6, 'again': 1, 'get': 7, 'getall': 0.5, 'hk': 0.8, 'reindex': 0.5, 'rebuild': 0.3, 'maxsize': 0.3}
    genkw = {'lo': 5, 'hi': 14, 'meta': 0.4}
    twins_share = 0.03

    def interesting(self, h):
        return h.o.labels.get("get", 0) >= 3 and h.o.labels.get("store:metadata", 0) + h.o.labels.get("store:segmented", 0) >= 1
