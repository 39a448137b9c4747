import gen
from histcheck import HistCheck


class Check(HistCheck):
    pid = "C23"
    tags = {"C23"}
    technique = ("property-based testing with generated invalid requests and "
                 "byte-for-byte comparison of the archive")
    rule = ("A case is a history into which requests which must be refused "
            "and requests which only read are put; the whole archive "
            "directory is compared before and after each. Non-trivial: at "
            "least three requests were refused or only read.")
    weights = {"store": 2.5, "bad": 10, "read": 4, "hk": .5, "mksilo": .5,
               "maxsize": .3, "ro": .2, "reindex": .2}
    genkw = {"lo": 8, "hi": 22, "big": .25, "derived": .15}

    def decorate(self, case, rng, i):
        if i % 3 == 0:
            c = case["conf"]
            c["rmime"] = rng.choice([
                ["application/octet-stream", "text/plain"], ["text/plain"],
                ["application/octet-stream", "x/y zz"]])
            c["mmime"] = rng.choice([["text/plain"], ["*"],
                                     ["application/octet-stream"]])
            for op in case["ops"]:
                if op["op"] == "store":
                    l = c["rmime"] if op.get("t") != "metadata" else \
                        c["mmime"]
                    op["mime"] = rng.choice(l).split()[0]
                    if op["mime"] == "*":
                        op["mime"] = "a/b"
                    if rng.random() < .25:
                        op["mime"] = rng.choice(
                            ["forbidden/type", "text", "text/plainx", "zz",
                             "", "image/png"])

    def interesting(self, h):
        return h.o.labels.get("refused", 0) + \
            h.o.labels.get("read-only", 0) >= 3
