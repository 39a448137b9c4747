from histcheck import HistCheck


class Check(HistCheck):
    pid = "C06"
    tags = {"C06"}
    rule = ("A case is a configuration with a small or medium silo size "
            "and a history with many objects around and above that size, "
            "of all kinds of compressibility; segments, their headers, "
            "index entries and sizes are checked and all is retrieved. "
            "Non-trivial: at least one segmented object. ")
    weights = {'store': 9, 'again': 0.8, 'get': 3, 'hk': 1, 'reindex': 0.5, 'cache': 0.4, 'maxsize': 0.5}
    genkw = {'lo': 2, 'hi': 8, 'segm': True, 'big': 0.7, 'meta': 0.15, 'first': 1}
    twins_share = 0.08

    def interesting(self, h):
        return h.o.labels.get("store:segmented", 0) >= 1
