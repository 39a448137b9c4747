import random
import struct
import subprocess
import zlib

import build
import gen
import warc
from core import HANG, Outcome
from hist import part
from histcheck import HistCheck


def member(body, level, end, wbits=-15, mem=8):
    """A member as SegJob makes them: byte-aligned before the last block."""
    c = zlib.compressobj(level, zlib.DEFLATED, wbits, mem)
    d = c.compress(body)
    if end == "empty":
        d += c.flush(zlib.Z_SYNC_FLUSH) + b"\1\0\0\xff\xff"
    elif end == "full":
        d += c.flush(zlib.Z_FULL_FLUSH) + c.flush(zlib.Z_FINISH)
    else:
        d += c.flush(zlib.Z_SYNC_FLUSH) + c.flush(zlib.Z_FINISH)
    t = struct.pack("<II", zlib.crc32(body), len(body) & 0xffffffff)
    h = bytes.fromhex("1f8b0804000000000203" "0c00" "41610800")
    n = len(h) + 8 + len(d) + len(t)
    return h + struct.pack("<Q", n) + d + t


MB16 = 1 << 24


def giant_member(n, tail):
    """A member of n times 16 MB of zeros and some bytes -> (bytes, length)"""
    z = bytes(MB16)
    c = zlib.compressobj(9, zlib.DEFLATED, -15)
    d = (c.compress(z) + c.flush(zlib.Z_FULL_FLUSH)) * n
    d += c.compress(tail) + c.flush(zlib.Z_SYNC_FLUSH) + c.flush()
    crc = 0
    for _ in range(n):
        crc = zlib.crc32(z, crc)
    ln = n * MB16 + len(tail)
    t = struct.pack("<II", zlib.crc32(tail, crc), ln & 0xffffffff)
    h = bytes.fromhex("1f8b0804000000000203" "0c00" "41610800")
    return h + struct.pack("<Q", len(h) + 8 + len(d) + len(t)) + d + t, ln


class Check(HistCheck):
    pid = "C07"
    tags = {"C07"}
    technique = ("property-based testing: histories with compressed delivery "
                 "against an independent gzip reader, and generated member "
                 "sequences in generated pieces through gzip_stitch")
    rule = ("Three of four cases are histories with a small or tuned silo "
            "size in which objects, most of them segmented, are delivered "
            "with -z and decompressed independently; the others feed "
            "generated gzip members in generated pieces to the joining code. "
            "Non-trivial: a segmented object was delivered compressed, or at "
            "least two members were joined.")
    weights = {"store": 6, "getz": 6, "get": .5, "hk": .5, "reindex": .3,
               "maxsize": .5}
    genkw = {"lo": 2, "hi": 7, "segm": True, "big": .75, "meta": .1,
             "first": 1}
    twins_share = 0.05

    def prepare(self):
        HistCheck.prepare(self)
        self.h = {}
        for f in ("plain", "asan"):
            try:
                self.h[f] = build.harness("stitch.c", f)
            except build.BuildError as e:
                print("no harness for gzip_stitch:", str(e)[-300:])

    def gen(self, rng, i, tier):
        if i == 3 or i % 4000 == 4 * rng.randrange(1000) + 3:
            # more than 4 GB
            n = 256 + rng.choice([-1, 0, 0, 1])
            k = rng.randint(1, n - 1)
            return {"giant": [k, n - k], "tail": rng.randint(0, 300)}
        if i % 4 == 3:
            items = []
            for _ in range(rng.choice([1, 2, 2, 3, 5, 12])):
                n = rng.choice([1, 2, 3, 10, rng.randint(1, 300),
                                rng.randint(1, 5000), rng.randint(1, 200000)])
                items.append([[rng.choice("rrzpthm"), n,
                               rng.randrange(10000)], rng.choice(
                                   [1, 6, 9, 9, 9, 0]),
                              rng.choice(["finish", "finish", "empty",
                                          "full"]),
                              rng.choice(["one", "tail", "few", "many",
                                          "pages"]), rng.randrange(10000)])
            return {"items": items, "flavour": rng.choice(["plain", "asan"])}
        case = HistCheck.gen(self, rng, i, tier)
        if i % 16 == 0:
            # compressed lengths around the size of the read buffer
            n = rng.choice([1, 1, 1, 2, 3])
            case["conf"]["max"] = 131072 * n + 900
            ops = [{"op": "store", "c": [["r", 131072 * n + 50000, i]]}]
            for j in range(rng.randint(2, 4)):
                ops.append({"op": "tune", "n": 131072 * n,
                            "d": rng.randint(-3, 40)})
                ops.append({"op": "store", "c": [
                    ["r", 131072 * n * 2 + rng.randint(0, 90000),
                     i + j + 1]]})
                ops.append({"op": "get", "k": j + 1, "o": "z"})
            case["ops"] = ops
        return case

    def decorate(self, case, rng, i):
        case["ops"].append({"op": "getall", "o": "z"})

    def giant(self, case):
        """Joined members of some 4 GB: is the result right?"""
        o = Outcome()
        if "plain" not in self.h:
            o.label("no harness")
            return o
        inp, total = b"", 0
        for k in case["giant"]:
            m, n = giant_member(k, part(["r", case["tail"], k]))
            inp += b"%d 24\n" % len(m) + m
            total += n
            o.label("members")
        r = subprocess.run([self.h["plain"]], input=inp,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=10 * HANG)
        o.steps = len(case["giant"])
        o.nontrivial = True
        if r.returncode:
            o.bad("joining failed with %s: %r" % (r.returncode,
                                                  r.stderr[-500:]))
            return o
        z = zlib.decompressobj(31)
        n, inp = 0, r.stdout
        try:
            while not z.eof:
                x = z.decompress(inp, MB16)
                if not x and not z.unconsumed_tail:
                    break
                n += len(x)
                inp = z.unconsumed_tail
        except zlib.error as e:
            o.bad("joined members of %d bytes: %s" % (total, e))
            return o
        if not z.eof or n != total or z.unused_data:
            o.bad("joined members decompress to %d bytes, not %d" % (n, total))
        return o

    def run(self, case, box):
        if "giant" in case:
            return self.giant(case)
        if "items" not in case:
            return HistCheck.run(self, case, box)
        o = Outcome()
        f = case.get("flavour", "plain")
        if f not in self.h:
            o.label("no harness")
            return o
        body, inp = b"", b""
        for p, level, end, cut, s in case["items"]:
            b = part(p)
            if not b:
                continue
            body += b
            m = member(b, level, end)
            rng = random.Random(s)
            n = len(m)
            pcs = []
            if cut == "tail" and n > 40:
                a = rng.randint(max(24, n - 16), n - 1)
                pcs = [a]
                while sum(pcs) < n - 1 and rng.random() < .6:
                    pcs.append(rng.randint(1, n - sum(pcs)))
            elif cut == "few":
                pcs = [rng.randint(24, n) for _ in range(1)] + [
                    rng.randint(1, 1 + n // 3) for _ in range(8)]
            elif cut == "many":
                pcs = [24] + [rng.choice([1, 1, 2, 3, 7, 100])
                              for _ in range(min(n, 20000))]
            elif cut == "pages":
                pcs = [4096] * (n // 4096)
            inp += b"%d %s\n" % (n, b" ".join(b"%d" % x for x in pcs)) + m
            o.label("members")
        if not body:
            return o
        r = subprocess.run([self.h[f]], input=inp, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=HANG,
                           env={"ASAN_OPTIONS": "detect_leaks=0"})
        o.steps = len(case["items"])
        o.nontrivial = o.labels.get("members", 0) >= 2
        if r.returncode:
            o.bad("joining failed with %s: %r" % (r.returncode,
                                                   r.stderr[-500:]))
            return o
        try:
            un, end, _ = warc.gz_member(r.stdout, 0, 1 << 30)
        except warc.Bad as e:
            o.bad("joined members: %s" % e)
            return o
        if end != len(r.stdout):
            o.bad("%d bytes after the joined member" % (len(r.stdout) - end))
        if un != body:
            o.bad("joined members decompress to something else")
        return o

    def shrinks(self, case):
        if "giant" in case:
            if case["tail"]:
                yield dict(case, tail=0)
            if len(case["giant"]) > 1:
                yield dict(case, giant=case["giant"][:1])
            return
        if "items" in case:
            for k, it in enumerate(case["items"]):
                for n in (1, 100, it[0][1] // 2):
                    if 0 < n < it[0][1]:
                        yield dict(case, items=case["items"][:k] + [
                            [[it[0][0], n, it[0][2]]] + it[1:]] +
                            case["items"][k + 1:])
                if it[3] != "one":
                    yield dict(case, items=case["items"][:k] + [
                        it[:3] + ["one", 0]] + case["items"][k + 1:])
            return
        for c in HistCheck.shrinks(self, case):
            yield c

    def interesting(self, h):
        return h.o.labels.get("get:z:segmented", 0) >= 1
