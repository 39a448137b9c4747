from histcheck import HistCheck


class Check(HistCheck):
    pid = "C02"
    tags = {"C02"}
    rule = ("A case is a configuration (identifier length 64-256 bits, "
            "prefix) and a history of stores and gets; every identifier "
            "printed, in a header or in a record is compared with one "
            "computed independently. Non-trivial: at least one metadata "
            "object and one resource were stored, or an identifier was "
            "used in another spelling. ")
    weights = {'store': 8, 'again': 2, 'get': 4, 'hk': 0.7, 'maxsize': 0.5, 'cache': 0.3, 'reindex': 0.3}
    genkw = {'lo': 4, 'hi': 14, 'meta': 0.5}

    def interesting(self, h):
        return h.o.labels.get("store:metadata", 0) >= 1 and h.o.labels.get("store:resource", 0) >= 1
