import gen
from histcheck import HistCheck


class Check(HistCheck):
    pid = "C18"
    tags = {"C18"}
    rule = ("A case is a history in which the silos are rebuilt, compared "
            "record by record with the originals, and in half the cases "
            "put in their place and everything retrieved and audited. "
            "Silos which are cut off must be refused, and records with the "
            "digest field of an early version are repaired. "
            "Non-trivial: a rebuild of at least two objects. ")
    weights = {'store': 7, 'again': 0.5, 'get': 0.3, 'hk': 0.5, 'rebuild': 3, 'maxsize': 0.4, 'ro': 0.2, 'mksilo': 0.3}
    genkw = {'lo': 3, 'hi': 10, 'big': 0.45}
    twins_share = 0.04

    def decorate(self, case, rng, i):
        if i % 5 == 1:
            case["ops"].append({"op": "rbold", "s": i})
        if i % 5 == 3:
            for k in range(3):
                case["ops"].append({"op": "rbcut", "s": i * 9 + k})
        if i % 3:
            return
        # records which lie across the reads of the rebuilding
        case["conf"]["max"] = rng.choice([200000, 400000, 1 << 20, None])
        ops = []
        for _ in range(rng.randint(2, 6)):
            ops.append({"op": "store", "c": gen.gen_edge(rng)})
            for _ in range(rng.randint(1, 3)):
                ops.append({"op": "store", "c": [
                    ["rt"[rng.randrange(2)], rng.randint(1, 400),
                     rng.randrange(100000)]]})
        case["ops"] = ops + case["ops"][3:] + [
            {"op": "rebuild", "replace": rng.randrange(2), "args": 0,
             "s": 0}]

    def interesting(self, h):
        return h.o.labels.get("rebuild", 0) >= 1 and len(h.objs) >= 2
