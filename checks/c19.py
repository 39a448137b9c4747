from histcheck import HistCheck


class Check(HistCheck):
    pid = "C19"
    tags = {"C19"}
    technique = ("stateful property-based testing: CGI requests in generated "
                 "histories against the reference model")
    rule = ("A case is a history with CGI requests for stored objects (all "
            "spellings of the path, many Accept-Encoding headers) and "
            "requests which must be refused or answered with an error. Non-"
            "trivial: at least one object was delivered and one request "
            "not.")
    weights = {"store": 5, "cgi": 8, "cgibad": 6, "hk": .5, "reindex": .3,
               "again": .3, "maxsize": .4, "mksilo": .3}
    genkw = {"lo": 5, "hi": 16, "big": .35, "derived": .2}

    def decorate(self, case, rng, i):
        import gen
        if i % 5 == 0:
            case["conf"]["max"] = rng.randint(5200, 9000)
        case["ops"].append(gen.gen_cgi(rng))

    def interesting(self, h):
        return h.o.labels.get("cgi", 0) >= 1 and (
            h.o.labels.get("cgi:error", 0) +
            h.o.labels.get("cgi:refused", 0)) >= 1
