import os
import random

import damage
import gen
import warc
from core import Stop
from histcheck import HistCheck

KINDS = ("silo", "silo", "silo", "sem", "sem", "index", "index", "idxrec",
         "idxswap", "cache", "rmsilo", "rmindex", "swapsilo", "empty")


def key_of(oid):
    return (oid + "0" * 24)[:24].lower()


class Check(HistCheck):
    pid = "C14"
    tags = {"C14"}
    technique = ("fault injection with generated damage to the files of "
                 "archives produced by generated histories")
    rule = ("A case is a history, after which one to three damages (bytes "
            "changed, zeroed, inserted, deleted, exchanged, truncated; records "
            "re-encoded with something changed; index records changed or "
            "exchanged; files removed or exchanged) are made, and then every "
            "object is fetched. Non-trivial: at least two objects, and at "
            "least one get failed or had its record or index entry damaged.")
    weights = {"store": 8, "hk": 1, "maxsize": .6, "mksilo": .2, "again": .2}
    genkw = {"lo": 2, "hi": 8, "big": .35, "derived": .25}

    def decorate(self, case, rng, i):
        case["items"] = [[rng.choice(KINDS), rng.randrange(1 << 30)]
                         for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        case["form"] = rng.choice(["", "", "o", "q"])

    def run(self, case, box):
        h = self.make(case, box)
        try:
            for op in case["ops"]:
                h.o.steps += 1
                getattr(h, "op_" + op["op"])(op)
            self.damage(h, case)
        except Stop:
            pass
        return h.o

    def damage(self, h, case):
        a = h.a
        if not h.objs:
            return
        before = {n: open(a.silo_fn(n), "rb").read() for n in h.silo_data}
        idxdam = False
        for kind, seed in case["items"]:
            rng = random.Random(seed)
            nums = [n for n in sorted(h.silo_data)
                    if os.path.exists(a.silo_fn(n))]
            if not nums:
                break
            n = rng.choice(nums)
            fn = a.silo_fn(n)
            h.o.label("damage:" + kind)
            if kind == "silo":
                with open(fn, "rb") as f:
                    d = f.read()
                # mostly in a record which is not the warcinfo
                lo = 0
                if len(h.silo_recs[n]) > 1 and rng.random() < .8:
                    lo = min(len(d), h.silo_recs[n][1].off)
                d = damage.raw(d, rng.choice(damage.RAW), rng, lo)
                with open(fn, "wb") as f:
                    f.write(d)
            elif kind == "sem":
                # a consistent forgery is not damage
                damage.semantic(h, rng.choice([
                    x for x in damage.SEMANTIC
                    if x not in ("bodydigest", "alldigest", "rebody",
                                 "newid", "meta")]), rng)
            elif kind == "rmsilo":
                os.unlink(fn)
            elif kind == "swapsilo":
                m = rng.choice(nums)
                if m != n:
                    os.rename(fn, fn + "_t")
                    os.rename(a.silo_fn(m), fn)
                    os.rename(fn + "_t", a.silo_fn(m))
            elif kind == "empty":
                with open(fn, "wb"):
                    pass
            elif kind == "cache":
                with open(os.path.join(a.sdir, "_.cache"), "wb") as f:
                    f.write(rng.randbytes(rng.choice([0, 3, 8, 8, 20])))
            else:
                idxdam |= self.index(h, kind, rng)
        self.fetch(h, case, before, idxdam)

    def index(self, h, kind, rng):
        a = h.a
        l = [f for f in ("appendix", "sorted") if
             os.path.exists(os.path.join(a.sdir, "index." + f)) and
             os.path.getsize(os.path.join(a.sdir, "index." + f))]
        if not l:
            return False
        w = rng.choice(l)
        fn = os.path.join(a.sdir, "index." + w)
        if kind == "rmindex":
            os.unlink(fn)
            return True
        with open(fn, "rb") as f:
            d = f.read()
        lo = (1 << (d[2] + 3)) if w == "sorted" and len(d) > 8 and \
            rng.random() < .8 else 0
        if kind == "index":
            d = damage.raw(d, rng.choice(damage.RAW), rng, lo)
        elif lo or w == "appendix":
            n = (len(d) - lo) // 32
            if n < 1:
                return False
            p = lo + 32 * rng.randrange(n)
            q = lo + 32 * rng.randrange(n)
            if kind == "idxswap":   # the positions of two entries
                x, y = d[p + 12:p + 32], d[q + 12:q + 32]
                b = bytearray(d)
                b[p + 12:p + 32] = y
                b[q + 12:q + 32] = x
                d = bytes(b)
            else:
                b = bytearray(d)
                f = rng.choice([(0, 12), (12, 4), (15, 1), (16, 4), (20, 8),
                                (28, 4)])
                r = b[p + f[0]:p + f[0] + f[1]]
                x = rng.choice(["rand", "zero", "one", "other"])
                if x == "rand":
                    r = rng.randbytes(f[1])
                elif x == "zero":
                    r = bytes(f[1])
                elif x == "one":
                    r = ((int.from_bytes(r, "big") + 1) %
                         (1 << 8 * f[1])).to_bytes(f[1], "big")
                else:
                    r = b[q + f[0]:q + f[0] + f[1]]
                b[p + f[0]:p + f[0] + f[1]] = r
                d = bytes(b)
        with open(fn, "wb") as f:
            f.write(d)
        return True

    def fetch(self, h, case, before, idxdam):
        a = h.a
        # the records whose bytes are all there at their place
        hurt = set()
        for n in before:
            try:
                with open(a.silo_fn(n), "rb") as f:
                    d = f.read()
            except OSError:
                d = b""
            for r in h.silo_recs[n]:
                if d[r.off:r.end] != before[n][r.off:r.end]:
                    rid = r.get("WARC-Record-ID").rsplit("/", 1)[1][:-1]
                    hurt.add(key_of(rid))
                    o = r.get("WARC-Segment-Origin-ID")
                    if o:
                        hurt.add(key_of(o.rsplit("/", 1)[1][:-1]))
        cont = {k[:8] for k in hurt}
        bad = ok = 0
        for oid in h.order:
            ob = h.objs[oid]
            args = ["get"]
            if case["form"]:
                if "o" in case["form"]:
                    if os.path.exists(h.outfile):
                        os.unlink(h.outfile)
                    args += ["-o", h.outfile]
                else:
                    args.append("-q")
            r = a.run(*args, oid)
            h.o.label("get")
            if r.hung:
                h.bad("C14", "get in a damaged archive hangs: %s" % r)
            touched = idxdam or key_of(oid) in hurt
            if ob.segmented and not touched:
                segs = [x for l in h.silo_recs.values() for x in l
                        if (x.get("WARC-Segment-Origin-ID") or "")
                        .lower().endswith("/" + oid + ">")]
                touched = any(x.get("WARC-Record-ID").rsplit("/", 1)[1][:8]
                              .lower() in cont for x in segs)
            if r.rc == 0:
                body = r.out
                if "o" in case["form"]:
                    with open(h.outfile, "rb") as f:
                        body = f.read()
                if body != ob.body:
                    h.bad("C14", "after %s get of %s exits successfully with "
                          "%d bytes which are not the %d stored" %
                          (case["items"], oid, len(body), ob.len))
                ok += 1
            else:
                bad += 1
                if not touched:
                    h.bad("C14", "after %s get of %s, which was not touched, "
                          "fails: %s" % (case["items"], oid, r))
                h.o.label("get:failed")
            if touched:
                h.o.label("get:touched")
        h.o.nontrivial = len(h.objs) >= 2 and \
            h.o.labels.get("get:touched", 0) >= 1
