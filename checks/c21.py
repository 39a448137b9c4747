import time

import gen
import hist
import proto
from core import HANG
from hist import Hist, Obj, sha
from histcheck import HistCheck


class SHist(Hist):
    """Histories with sessions of the stevedore."""

    def ids(self, spec):
        """An identifier to ask for: [kind, k, length, upper]"""
        kind, k = spec[0], spec[1]
        if kind == "in" and self.order:
            d = self.order[k % len(self.order)]
            ob = self.objs[d]
            full = sha(ob.body) if ob.type == "resource" else d
            if full[:self.a.idsize] != d:
                full = d
        elif kind == "near" and self.order:
            d = self.order[k % len(self.order)]
            p = k % 16
            full = d[:p] + "%x" % (int(d[p], 16) ^ 1) + d[p + 1:]
        elif kind == "now" and self.coming:
            full = self.coming[k % len(self.coming)]
        elif kind == "lo":
            full = "0" * 64
        elif kind == "hi":
            full = "f" * 64
        else:
            full = sha(b"q%d" % k)
        n = min(64, self.a.idsize + spec[2]) if spec[2] >= 0 else 64
        full = (full + sha(full.encode()))[:n]
        return full

    def known(self, i):
        """Is it in the archive, as the index sees it?"""
        return i[:self.kl] in self.keys

    def op_session(self, op):
        a = self.a
        self.kl = min(24, a.idsize)
        self.sync()
        objs = {}                   # new ones, by identifier
        answers = []                # for data, in order
        manswers = []               # for metadata
        items = op["items"]
        # what is going to be stored, to ask for it in time and before
        self.coming = []
        bodies = {}
        for n, it in enumerate(items):
            if it["k"] == "data":
                b = self.resolve(it["c"])[:it.get("cap", 400000)] or b"x"
                bodies[n] = b
                self.coming.append(sha(b))
        self.keys = {k[:self.kl] for k in self.objs}
        maybe = set()               # being stored: answers may be either
        t0 = int(time.time())
        s = proto.Session([a.binary, "-c", a.cfgfn, "stevedore"], a.env,
                          a.dir, HANG)
        waiting = []                # filter requests, None ends a batch
        sent = {"d": 0, "m": 0, "e": 0, "x": 0}
        lock = op.get("lock", 1)
        cut = op.get("cut")
        pause = op.get("pause", 0) * 0.0003
        stream = b""

        def counts():
            return (sum(1 for c, b in s.msgs if c == proto.DATA),
                    sum(1 for c, b in s.msgs if c == proto.META),
                    sum(1 for c, b in s.msgs if c == proto.FILTER and not b))

        def done():
            d, m, e = counts()
            return d >= sent["d"] and m >= sent["m"] and e >= sent["e"]

        def frames(cmd, body, sizes, cls, end=True):
            out, o, k = b"", 0, 0
            while o < len(body):
                n = sizes[k % len(sizes)]
                out += proto.frame(cmd, body[o:o + n], cls)
                o += n
                k += 1
            return out + (proto.frame(cmd, b"", cls) if end else b"")

        def store(body, typ, mime, ref):
            if typ == "resource":
                oid = sha(body)[:a.idsize]
            else:
                oid = self.meta_id(ref, body)
            if oid not in self.objs and oid not in objs:
                ob = Obj(oid, typ, body, mime, ref, t0, t0)
                ob.idspell = oid
                objs[oid] = ob
            return oid

        for n, it in enumerate(items):
            k = it["k"]
            b = b""
            if k == "filter":
                for spec in it["ids"]:
                    i = self.ids(spec)
                    waiting.append((i, True if self.known(i) else
                                    None if i[:self.kl] in maybe or
                                    (not lock or not it.get("end", 1)) and
                                    any(c[:self.kl] == i[:self.kl] for c in self.coming)
                                    else False))
                    b += proto.frame(proto.FILTER, i.encode(), it.get("cls"))
                if it.get("end", 1):
                    waiting.append(None)
                    sent["e"] += 1
                    b += proto.frame(proto.FILTER, b"", it.get("cls"))
                self.o.label("filter:requests", len(it["ids"]))
            elif k == "data":
                body = bodies[n]
                oid = store(body, "resource", "application/octet-stream",
                            None)
                answers.append(oid)
                sent["d"] += 1
                b = self.weave(frames(proto.DATA, body, it["sizes"],
                                      it.get("cls"), False),
                               proto.frame(proto.DATA, b"", it.get("cls")),
                               it, waiting, maybe, sent)
                maybe.add(oid[:self.kl])
                self.o.label("data")
            elif k == "meta":
                body = self.resolve(it["c"])[:200000] or b"x"
                rid = self.pick(it["ref"])
                if it["ref"] % 3 == 0 and answers:
                    rid = answers[it["ref"] % len(answers)]
                if rid is None:
                    continue
                full = rid
                if rid in self.objs and self.objs[rid].type == "resource":
                    full = sha(self.objs[rid].body)
                elif rid in objs:
                    full = sha(objs[rid].body)
                if it.get("short") or full[:a.idsize] != rid:
                    full = rid
                oid = store(body, "metadata", "application/json",
                            a.prefix + rid)
                manswers.append(oid)
                sent["m"] += 1
                b = proto.frame(proto.META, full.encode(), it.get("cls")) + \
                    frames(proto.META, body, it["sizes"], it.get("cls"))
                if it.get("mix"):
                    b = self.mix(it, b, body, full, store, answers, sent,
                                 frames)
                maybe.add(oid[:self.kl])
                self.o.label("meta")
            elif k == "unknown":
                b = proto.frame(4 + it["cmd"] % 4, bytes(it["n"]),
                                it.get("cls"))
                sent["x"] += 1
                self.o.label("unknown message")
            self.o.steps += 1
            if lock:
                s.pump(b, done, cut, pause)
                if s.hung or not s.out_open:
                    break
                if done():
                    for x in maybe:
                        self.keys.add(x[:self.kl])
                    maybe.clear()
            else:
                stream += b
        if stream and not s.hung:
            s.pump(stream, None, cut, pause)
        rc = s.finish()
        t1 = int(time.time())
        if s.hung:
            self.bad("C21", "the stevedore hangs; got %s" %
                     self.show(s.msgs))
        if rc:
            self.bad("C21", "the stevedore ended with %d: %r" %
                     (rc, s.err[-600:]))
        if s.parser.buf:
            self.bad("C21", "output ends within a message: %r" %
                     bytes(s.parser.buf[:60]))
        # the answers
        gd = [b for c, b in s.msgs if c == proto.DATA]
        gm = [b for c, b in s.msgs if c == proto.META]
        want = [(a.prefix + i).encode() for i in answers]
        if gd != want:
            self.bad("C21", "answers to data: %s, expected %s" %
                     (gd[:5], want[:5]))
        want = sorted((a.prefix + i).encode() for i in manswers)
        if sorted(gm) != want:
            self.bad("C21", "answers to metadata: %s, expected %s" %
                     (sorted(gm)[:5], want[:5]))
        self.judge_filter([b for c, b in s.msgs if c == proto.FILTER],
                          waiting)
        other = [c for c, b in s.msgs if c > 3]
        if other:
            self.bad("C21", "answers with commands %s" % other)
        for ob in objs.values():
            ob.t0, ob.t1 = t0, t1
            self.objs[ob.id] = ob
            self.order.append(ob.id)
        self.sync(tags={"C21"})
        for ob in objs.values():
            for n in self.silo_recs:
                for r in self.silo_recs[n]:
                    if r.segno is not None and r.get(
                            "WARC-Record-ID").lower().endswith(ob.id + ">"):
                        ob.segmented = True
                        self.o.label("segmented")
            self.check_get(ob)

    def weave(self, head, tail, it, waiting, maybe, sent):
        """Puts filter requests between the messages of an object."""
        b = head
        for spec in it.get("between", ()):
            i = self.ids(spec)
            waiting.append((i, True if self.known(i) else
                            None if any(c[:self.kl] == i[:self.kl] for c in
                                        self.coming) or i[:self.kl] in maybe
                            else False))
            b += proto.frame(proto.FILTER, i.encode())
        if it.get("between"):
            waiting.append(None)
            sent["e"] += 1
            b += proto.frame(proto.FILTER, b"")
            self.o.label("filter within data")
        return b + tail

    def mix(self, it, b, body, full, store, answers, sent, frames):
        """Messages of metadata and of data in turns."""
        data = self.resolve(it["mix"][0])[:100000] or b"x"
        answers.append(store(data, "resource", "application/octet-stream",
                             None))
        sent["d"] += 1
        self.o.label("data within metadata")

        def one(cmd, x):
            h = len(x) // 2
            return [proto.frame(cmd, y) for y in (x[:h], x[h:]) if y] + \
                [proto.frame(cmd, b"")]
        m = [proto.frame(proto.META, full.encode())] + one(proto.META, body)
        d = one(proto.DATA, data)
        out = b""
        for c in it["mix"][1]:
            l = m if c else d
            if l:
                out += l.pop(0)
        return out + b"".join(m + d if it["mix"][2] else d + m)

    def show(self, msgs):
        return [(c, b[:70]) for c, b in msgs][:12]

    def judge_filter(self, got, waiting):
        """Follows the answers as a client does."""
        w = list(waiting)
        counted = 0
        clean = True
        batch = 0

        def pop(why):
            nonlocal batch
            if not w or w[0] is None:
                self.bad("C21", "%s, but nothing is waiting for an answer; "
                         "answers %s" % (why, got[:8]))
            i, known = w.pop(0)
            batch += 1
            if known is False:
                self.bad("C21", "%s passes over %s, which is missing" %
                         (why, i))
        for b in got:
            if not b:
                while w and w[0] is not None:
                    pop("the end of a batch")
                if not w:
                    self.bad("C21", "too many ends of batches")
                w.pop(0)
                if clean and counted != batch:
                    self.bad("C21", "%d answered, of %d requests, none of "
                             "them missing" % (counted, batch))
                counted, clean, batch = 0, True, 0
            elif len(b) == 4:
                n = int.from_bytes(b, "big")
                counted += n
                for _ in range(n):
                    pop("an answer of %d" % n)
            else:
                clean = False
                try:
                    s = b.decode("ascii")
                except UnicodeDecodeError:
                    self.bad("C21", "answer to filter %r" % b)
                if len(s) != self.a.idsize:
                    self.bad("C21", "answer to filter %r has %d characters" %
                             (s, len(s)))
                while True:
                    if not w or w[0] is None:
                        self.bad("C21", "%s is reported missing and was not "
                                 "asked for (or present, or reported before)"
                                 % s)
                    if w[0][0].startswith(s) and w[0][1] is not True:
                        w.pop(0)
                        batch += 1
                        break
                    if w[0][0].startswith(s):
                        self.bad("C21", "%s is reported missing and is "
                                 "stored" % s)
                    pop("the report of %s" % s)
        while w:
            if w[0] is None:
                self.bad("C21", "the end of a batch is not answered")
            pop("the end of the session")


def gen_ids(rng, n):
    return [[gen.wchoice(rng, [(4, "in"), (3, "out"), (2, "near"),
                               (1, "now"), (.2, "lo"), (.2, "hi")]),
             rng.randrange(1000),
             rng.choice([-1, -1, -1, 0, 0, 1, rng.randrange(64)])]
            for _ in range(n)]


SIZES = [1, 2, 31, 32, 33, 255, 256, 257, 8191, 8192, 8193, 65535, 65536,
         131072, 131073]


def gen_sizes(rng):
    if rng.random() < .5:
        return [131072]
    return [rng.choice(SIZES + [rng.randint(1, 20000)] * 6)
            for _ in range(rng.randint(1, 5))]


def gen_session(rng, conf, big):
    items = []
    for _ in range(rng.randint(1, 7)):
        k = gen.wchoice(rng, [(4, "data"), (4, "filter"), (2, "meta"),
                              (.7, "unknown")])
        it = {"k": k}
        if rng.random() < .3:
            it["cls"] = rng.randrange(3)
        if k == "filter":
            it["ids"] = gen_ids(rng, gen.wchoice(rng, [
                (5, rng.randint(1, 8)), (3, rng.randint(5, 60)),
                (.4, rng.randint(100, 800)), (.3, 0)]))
            if big and rng.random() < .3:
                it["ids"] = gen_ids(rng, rng.randint(2000, 6000))
            it["end"] = int(rng.random() < .8)
        elif k == "data":
            it["c"] = gen.gen_content(rng, conf, .25)
            it["sizes"] = gen_sizes(rng)
            if rng.random() < .3:
                # small ones which come to exactly these lengths
                it["c"] = [["r", rng.choice(SIZES[:8]), rng.randrange(9999)]]
            if rng.random() < .15:
                it["between"] = gen_ids(rng, rng.randint(1, 5))
            if rng.random() < .1:
                it["c"] = {"of": rng.randrange(20)}
        elif k == "meta":
            it["c"] = [["t", rng.choice([rng.randint(1, 3000),
                                         rng.choice(SIZES[:10])]),
                        rng.randrange(10000)]]
            if rng.random() < .15:
                it["c"] = gen.gen_content(rng, conf, .3)
            it["ref"] = rng.randrange(30)
            it["sizes"] = gen_sizes(rng)
            it["short"] = rng.randrange(2)
            if rng.random() < .25:
                it["mix"] = [gen.gen_content(rng, conf, .1),
                             [rng.randrange(2) for _ in range(6)],
                             rng.randrange(2)]
        else:
            it["cmd"] = rng.randrange(4)
            it["n"] = rng.choice([0, 1, 32, 255, 256, 8191, 8192, 8193,
                                  20000, rng.randrange(40000)])
        items.append(it)
    op = {"op": "session", "items": items, "lock": int(rng.random() < .6)}
    if rng.random() < .6:
        op["cut"] = [rng.choice([1, 1, 2, 3, 5, 33, 100, 4096,
                                 rng.randint(1, 9000)])
                     for _ in range(rng.randint(1, 60))]
        op["pause"] = rng.randrange(3)
    return op


class Check(HistCheck):
    pid = "C21"
    technique = ("model-based stateful testing of the protocol with generated "
                 "message sequences")
    rule = ("A case is a history in which stevedore processes are sent "
            "generated sequences of filter, data, metadata and unknown "
            "messages, in generated pieces and either waiting for the "
            "answers or not; the answers are compared with a model and all "
            "objects retrieved. Non-trivial: at least two messages which "
            "have to be answered, and an object stored by a session.")
    weights = {"store": 2, "hk": .7, "reindex": .2, "audit": .2}
    genkw = {}
    quick = (3000, 60)

    def gen(self, rng, i, tier):
        conf = gen.gen_conf(rng)
        if conf.get("rmime") != ["*"] and "rmime" in conf:
            conf["mmime"] = ["application/json", "text/plain",
                             "application/octet-stream"]
        if rng.random() < .3:
            # answers of 31 to 33 and about 255 bytes
            n = rng.choice([31, 32, 33, 254, 255, 256, 257, 400]) - \
                (conf["bits"] or 128) // 4
            if 12 < n < 800:
                conf["prefix"] = ("http://e/" + "p" * 1000)[:n - 1] + "/"
        ops = []
        for _ in range(rng.randint(0, 3)):
            ops.append(gen.gen_store(rng, conf, .2))
        for _ in range(rng.randint(1, 3)):
            ops.append(gen_session(rng, conf, i % 40 == 0))
            for _ in range(rng.choice([0, 0, 1, 2])):
                ops += gen.gen_ops(rng, conf, self.weights, 1, 0)
        case = {"conf": conf, "ops": ops, "tz": rng.choice(self.tz)}
        if rng.random() < self.asan_share:
            case["flavour"] = "asan"
        return case

    def make(self, case, box):
        return SHist(box, case.get("conf", {}),
                     self.bins[case.get("flavour", "plain")],
                     tags=self.tags, env={"TZ": case.get("tz", "UTC")})

    def interesting(self, h):
        l = h.o.labels
        return l.get("data", 0) + l.get("meta", 0) + \
            l.get("filter:requests", 0) >= 2 and l.get("data", 0) + \
            l.get("meta", 0) > 0

    def shrinks(self, case):
        ops = case["ops"]
        for i, op in enumerate(ops):
            if op["op"] != "session":
                continue

            def put(o):
                return dict(case, ops=ops[:i] + [o] + ops[i + 1:])
            its = op["items"]
            for j in range(len(its)):
                yield put(dict(op, items=its[:j] + its[j + 1:]))
            for k in ("cut", "pause"):
                if k in op:
                    d = dict(op)
                    del d[k]
                    yield put(d)
            for j, it in enumerate(its):
                def pit(x):
                    return put(dict(op, items=its[:j] + [x] + its[j + 1:]))
                if len(it.get("ids", ())) > 1:
                    h = len(it["ids"]) // 2
                    yield pit(dict(it, ids=it["ids"][:h]))
                    yield pit(dict(it, ids=it["ids"][h:]))
                for k in ("between", "cls", "mix"):
                    if k in it:
                        d = dict(it)
                        del d[k]
                        yield pit(d)
                if "sizes" in it and it["sizes"] != [131072]:
                    yield pit(dict(it, sizes=[131072]))
                if "c" in it:
                    for c in gen.content_shrinks(it["c"]):
                        yield pit(dict(it, c=c))
        for c in HistCheck.shrinks(self, case):
            yield c
