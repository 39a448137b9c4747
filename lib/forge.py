"""Archives made by hand, without AardWARC, so that the same bytes come out
every time, and hostile changes of their silos, indices and other files."""
import hashlib
import os
import struct
import zlib

import warc

SEP = bytes.fromhex("1f8b0800200119660203e3e5e2e5020044"
                    "15c28b04000000")
DATE = "2024-02-29T12:34:56Z"


def sha(b):
    return hashlib.sha256(b).hexdigest()


def deflate(data, level=9, sync=True):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    d = c.compress(data)
    if sync:
        d += c.flush(zlib.Z_SYNC_FLUSH)
    return d + c.flush()


def member(data, level=9, aa=None, body=None, flags=4, extra=None, xfl=2,
           magic=b"\x1f\x8b\x08", tail=None, sync=True):
    """A gzip member with an Aa field; anything about it can be wrong."""
    d = deflate(data, level, sync) if body is None else body
    if tail is None:
        tail = struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)
    h = magic + bytes([flags, 0, 0, 0, 0, xfl, 3])
    if extra is None:
        n = len(h) + 14 + len(d) + len(tail)
        if aa is None:
            aa = n
        elif isinstance(aa, str):   # relative
            aa = n + int(aa)
        extra = b"\x0c\0Aa\x08\0" + struct.pack("<Q", aa & (1 << 64) - 1)
    return h + extra + d + tail


class Rec:
    """A record to be."""

    def __init__(self, fields, body, flag, cont="0" * 8):
        self.fields = fields        # [(name, value)], bytes
        self.body = body
        self.flag = flag
        self.cont = cont
        self.version = b"WARC/1.1"
        self.hkw = {}
        self.bkw = {}
        self.sep = SEP
        self.text = None
        self.off = 0

    def id(self):
        for n, v in self.fields:
            if n == b"WARC-Record-ID":
                return v.rsplit(b"/", 1)[-1].rstrip(b">").decode("latin1")
        return ""

    def header(self):
        if self.text is not None:
            return self.text
        return self.version + b"\r\n" + b"".join(
            n + b": " + v + b"\r\n" for n, v in self.fields) + b"\r\n"

    def encode(self):
        return member(self.header(), **self.hkw) + \
            member(self.body, **self.bkw) + self.sep


def record(prefix, idsize, typ, body, mime=b"text/plain", ref=None, seg=None,
           origin=None, total=None, payload=None):
    d = sha(body)
    if typ == "metadata":
        rid = hashlib.sha256(b"<%s>\n%s\n" % (ref, d.encode())).hexdigest()
    elif seg == 1:
        rid = payload
    else:
        rid = d
    b = [(b"WARC-Record-ID", b"<%s%s>" % (prefix, rid[:idsize].encode())),
         (b"Content-Length", b"%d" % len(body)),
         (b"Content-Type", mime),
         (b"WARC-Block-Digest", b"sha256:" + d.encode()),
         (b"WARC-Date", DATE.encode())]
    flag = {"warcinfo": 2, "resource": 4, "metadata": 8}.get(typ, 0)
    if typ == "warcinfo":
        b.append((b"WARC-Filename", mime))
        b[2] = (b"Content-Type", b"application/warc-fields")
    if seg:
        flag |= 0x10
    if seg == 1:
        flag |= 0x20
        b.append((b"WARC-Payload-Digest", b"sha256:" + payload.encode()))
    if ref is not None:
        b.append((b"WARC-Refers-To", b"<%s>" % ref))
    if seg:
        b.append((b"WARC-Segment-Number", b"%d" % seg))
        if seg > 1:
            b.append((b"WARC-Segment-Origin-ID",
                      b"<%s%s>" % (prefix, origin[:idsize].encode())))
        if total is not None:
            flag |= 0x40
            b.append((b"WARC-Segment-Total-Length", b"%d" % total))
    b.append((b"WARC-Type", typ.encode()))
    if typ != "warcinfo":
        b.append((b"z", b"_" * (len(body) % 131)))
    return Rec(b, body, flag)


class Forge:
    """A small archive: self.silos is {number: [Rec]}."""

    def __init__(self, rng, prefix="http://ex.org/a/", idsize=32,
                 base="%08u.warc.gz"):
        self.rng = rng
        self.prefix = prefix
        self.p = prefix.encode()
        self.idsize = idsize
        self.base = base
        self.silos = {}
        self.ids = []
        ns = rng.choice([1, 1, 2, 3])
        for n in range(ns):
            self.info(n)
            for _ in range(rng.choice([1, 1, 2, 3])):
                self.obj(n)
        if rng.random() < .5:
            self.segmented(rng.choice([2, 2, 3, 4]))

    def info(self, n):
        body = b"title: %d\r\nformat: WARC file version 1.1\r\n" % n
        self.silos.setdefault(n, []).append(
            record(self.p, self.idsize, "warcinfo", body,
                   (self.base % n).encode()))

    def content(self):
        rng = self.rng
        n = rng.choice([1, 10, 100, 500, 3000, 5000, 70000])
        x = rng.randrange(4)
        if x == 0:
            return bytes([rng.randrange(256)]) * n
        if x == 1:
            return (b"word%d " % rng.randrange(100)) * (n // 6 + 1)
        return rng.randbytes(n)

    def obj(self, n):
        rng = self.rng
        if self.ids and rng.random() < .3:
            r = record(self.p, self.idsize, "metadata", self.content(),
                       ref=self.p + rng.choice(self.ids).encode())
        else:
            r = record(self.p, self.idsize, "resource", self.content())
        self.silos[n].append(r)
        self.ids.append(r.id())

    def segmented(self, k):
        rng = self.rng
        parts = [self.content() for _ in range(k)]
        whole = b"".join(parts)
        pd = sha(whole)
        n = max(self.silos)
        prev = None
        for i, b in enumerate(parts):
            last = i == k - 1
            r = record(self.p, self.idsize,
                       "continuation" if i else "resource", b, seg=i + 1,
                       origin=pd, total=len(whole) if last else None,
                       payload=pd)
            if i and rng.random() < .8:
                n += 1
                self.info(n)
            self.silos[n].append(r)
            if prev is not None:
                prev.cont = r.id()[:8]
            prev = r
        self.ids.append(pd[:self.idsize])

    def recs(self):
        return [r for n in sorted(self.silos) for r in self.silos[n]]

    def layout(self):
        """{number: bytes}, setting the offsets."""
        res = {}
        for n in sorted(self.silos):
            b = b""
            for r in self.silos[n]:
                r.off = len(b)
                b += r.encode()
            res[n] = b
        return res

    def entries(self):
        res = []
        for n in sorted(self.silos):
            for r in self.silos[n]:
                i = r.id()
                if len(i) < 16 or i.strip("0123456789abcdefABCDEF"):
                    i = sha(i.encode("latin1"))
                res.append(entry(i, r.flag, n, r.off, r.cont))
        return res


def entry(i, flag, silo, off, cont="0" * 8):
    try:
        k = bytes.fromhex((i + "0" * 24)[:24])
        c = bytes.fromhex((cont + "0" * 8)[:8])
    except ValueError:
        k, c = bytes(12), bytes(4)
    return k + struct.pack(">IIQ", flag & 0xffffffff, silo & 0xffffffff,
                           off & (1 << 64) - 1) + c


def sorted_index(entries, bb=2):
    ent = sorted(set(entries))
    nb = 1 << bb
    nrec = len(ent)
    b = [1 << 31] * nb
    for n, e in enumerate(ent):
        u = int.from_bytes(e[:8], "big")
        k = u >> (64 - bb)
        u = ((u >> 40) * nrec) >> 24
        if k > 0 and u + b[k] > n:
            b[k] = n - u
    b[0] = 0x4161 << 48 | bb << 40 | nrec
    return b"".join(struct.pack(">Q", x & (1 << 64) - 1) for x in b) + \
        b"".join(ent)


# -- hostility ----------------------------------------------------------------

NUMS = [b"", b"0", b"1", b"2", b"3", b"4294967296", b"4294967297", b"-1",
        b"9223372036854775807", b"9223372036854775808",
        b"18446744073709551615", b"99999999999999999999999", b"0x10", b" 5",
        b"5 ", b"1e3", b"8191", b"8192", b"8193", b"65535", b"65536"]


def number(rng, true=None):
    if true is not None and rng.random() < .3:
        return b"%d" % max(0, true + rng.choice([-1, 1, 2, -2, 13, -13, 24,
                                                 100, -100, 4096, 1 << 32]))
    return rng.choice(NUMS)


def string(rng, b):
    """Another string for b."""
    x = rng.randrange(16)
    if x == 0:
        return b""
    if x == 1:
        return b[:rng.randrange(len(b) + 1)]
    if x == 2:
        return b[rng.randrange(len(b) + 1):]
    if x == 3:
        return b + rng.choice([b">", b"<", b"/", b"\0", b" ", b"\n", b"\r",
                               b"\xff", b":", b"%s%n", b"0", b"f" * 40])
    if x == 4:
        return b.upper()
    if x == 5:
        return b * rng.choice([2, 3, 5, 20])
    if x == 6:
        return rng.choice([b"A", b"\0", b"%s", b"/", b"f"]) * rng.choice(
            [1, 7, 31, 32, 33, 63, 64, 65, 66, 127, 255, 256, 512, 1023,
             1024, 2000, 4000, 8191])
    if x == 7:
        return rng.randbytes(rng.choice([1, 10, 100, 3000])).hex().encode()
    if x == 8 and b:
        p = rng.randrange(len(b))
        return b[:p] + bytes([rng.randrange(256)]) + b[p + 1:]
    if x == 9 and b:
        p = rng.randrange(len(b))
        return b[:p] + b[p + 1:]
    if x == 10:
        p = rng.randrange(len(b) + 1)
        return b[:p] + rng.choice([b"/", b">", b":", b" ", b"\0", b"\xc3\xa6",
                                   b"g", b"\r", b"\n", b"\t"]) + b[p:]
    if x == 11:
        return b.replace(b"<", b"").replace(b">", b"")
    if x == 12:
        return b"<" + b + b">"
    if x == 13:
        return b.replace(b":", b"")
    if x == 14 and b.startswith(b"<"):      # a short identifier
        h, _, t = b.rpartition(b"/")
        return h + b"/" + t[:rng.randrange(len(t) + 1)] + rng.choice(
            [b"", b">", b">"])
    return number(rng)


AAS = [0, 1, 12, 13, 17, 18, 22, 23, 24, 25, 26, 30, 36, 37, 38, 40, 255,
       4096, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1,
       (1 << 63) - 24, (1 << 63) - 25, "-1", "1", "-13", "13", "-12", "-24",
       "24", "-100", "100000", "-5000"]

EXTRA = [(b"X-Extra", b"v"), (b"WARC-Segment-Number", b"1"),
         (b"WARC-Segment-Number", b"2"), (b"WARC-Segment-Number", b"0"),
         (b"WARC-Segment-Total-Length", b"10"),
         (b"WARC-Record-ID", b"<http://ex.org/a/%s>" % (b"0" * 32)),
         (b"WARC-record-digest", b"sha256:" + b"1" * 64),
         (b"Content-Length-GZIP", b"100"), (b"warc-record-id", b"<x/y>"),
         (b"WARC-Payload-Digest", b"sha256:0"), (b"", b"empty"),
         (b"WARC-Segment-Origin-ID", b"<x>"),
         (b"WARC-Refers-To", b"x")]

TYPES = [b"warcinfo", b"resource", b"metadata", b"continuation", b"", b"x",
         b"request", b"Resource"]


def spoil_record(rng, r):
    """Makes something about a record wrong; returns what."""
    x = rng.choice(["field", "field", "field", "field", "del", "extra", "num",
                    "num", "aa", "aa", "aa", "gzip", "text", "long", "edge",
                    "body", "sep", "type", "legacy", "dup", "bodygz"])
    if x == "field":
        i = rng.randrange(len(r.fields))
        if rng.random() < .6:
            c = [k for k, f in enumerate(r.fields) if f[0] in (
                b"WARC-Record-ID", b"WARC-Segment-Origin-ID",
                b"WARC-Refers-To", b"WARC-Block-Digest",
                b"WARC-Payload-Digest")]
            i = rng.choice(c or [i])
        n, v = r.fields[i]
        if rng.random() < .1:
            r.fields[i] = (string(rng, n), v)
        else:
            r.fields[i] = (n, string(rng, v))
        x += ":" + n.decode("latin1")
    elif x == "del":
        i = rng.randrange(len(r.fields))
        x += ":" + r.fields.pop(i)[0].decode("latin1")
    elif x == "dup":
        r.fields.insert(rng.randrange(len(r.fields) + 1),
                        rng.choice(r.fields))
    elif x == "extra":
        r.fields.insert(rng.randrange(len(r.fields) + 1), rng.choice(EXTRA))
    elif x == "num":
        c = [k for k, f in enumerate(r.fields) if f[0] in (
            b"Content-Length", b"WARC-Segment-Number",
            b"WARC-Segment-Total-Length")]
        if c:
            i = rng.choice(c)
            n, v = r.fields[i]
            r.fields[i] = (n, number(rng, int(v) if v.isdigit() else None))
    elif x == "aa":
        kw = r.bkw if rng.random() < .85 else r.hkw
        kw["aa"] = rng.choice(AAS)
    elif x == "gzip":
        kw = r.bkw if rng.random() < .5 else r.hkw
        y = rng.randrange(6)
        if y == 0:
            kw["flags"] = rng.choice([0, 1, 2, 8, 16, 12, 20, 28, 31, 255])
        elif y == 1:
            kw["extra"] = rng.choice([
                b"", b"\0\0", b"\x0c\0", b"\xff\xff", b"\x0c\0Aa\x08\0",
                b"\x04\0Aa\0\0", b"\x10\0XX\0\0Aa\x08\0" + bytes(8),
                b"\x18\0Aa\x08\0" + struct.pack("<Q", 60) + b"Aa\x08\0" +
                bytes(8)])
        elif y == 2:
            kw["xfl"] = rng.choice([0, 4, 255])
        elif y == 3:
            kw["magic"] = rng.choice([b"\x1f\x8b\x07", b"\x78\x9c",
                                      b"\x78\xbb\0\0\0\1", b"\x1f\x8b",
                                      b"PK\3", b""])
        elif y == 4:
            kw["tail"] = rng.choice([b"", bytes(8), b"\xff" * 8, bytes(4),
                                     bytes(30)])
        else:
            kw["body"] = rng.choice([
                b"", b"\3\0", b"\1\0\0\xff\xff", rng.randbytes(50),
                b"\0\0\0\xff\xff" * rng.choice([1, 100, 2000]),
                deflate(b"A" * 3000000),
                b"\1\x10\0\xef\xff" + bytes(16), b"\7", b"\4\xff"])
    elif x == "bodygz":
        r.bkw["sync"] = rng.random() < .3
        r.bkw["level"] = rng.choice([0, 1, 6])
    elif x == "text":
        t = r.header()
        y = rng.randrange(10)
        if y == 0:
            t = t[:rng.randrange(len(t))]
        elif y == 1:
            t = t.replace(b"\r\n", b"\n")
        elif y == 2:
            t = t.replace(b"\n", b"")
        elif y == 3:
            t = b"WARC/1.0" + t[8:]
        elif y == 4:
            t = t.replace(b": ", rng.choice([b":", b" ", b"", b" : "]))
        elif y == 5:
            t += rng.choice([b"x", b"\0", b"\r\n", t, b"\r"])
        elif y == 6:
            p = rng.randrange(len(t))
            t = t[:p] + b"\0" + t[p:]
        elif y == 7:
            t = t[:10] + b"X: y\r\n" * rng.choice([1, 10, 600, 2000]) + t[10:]
        elif y == 8:
            l = t[:-2].split(b"\r\n")
            rng.shuffle(l)
            t = b"\r\n".join(l) + b"\r\n"
        else:
            t = rng.choice([b"", b"\r\n", b"WARC/1.1\r\n", b"WARC/1.1\r\n\r\n",
                            b"WARC/1.1\r\nWARC-Record-ID: <",
                            b"WARC/1.1\r\nWARC-Record-ID: <x>\r\n\r\n", b"W"])
        r.text = t
    elif x == "long":
        # the header, unpacked, at the end of a page
        page = rng.choice([4096, 4096, 4096, 8192, 1024, 65536])
        want = page + rng.choice([-2, -1, 0, 1, 2, 30, 3])
        n = want - len(r.header()) - len(b"zz: \r\n")
        if n > 0:
            r.fields.append((b"zz", b"_" * n))
    elif x == "edge":
        # the packed header reaches to the end of the page
        want = 4096 + rng.choice([-40, -24, -23, -22, -20, -18, -17, -16, -15,
                                  -12, -8, -1, 0, 1, 8, 40])
        lo, hi = 0, 3600
        txt = rng.randbytes(3600).hex().encode()
        del lo, hi
        r.fields.append((b"zz", b""))
        base = len(r.header())
        n = min(len(txt), 4094 - base)
        r.hkw["level"] = 0
        cur = len(member(r.header(), **r.hkw))
        # stored: one byte is one byte
        if want - cur > 0:
            r.fields[-1] = (b"zz", txt[:min(n, want - cur)])
    elif x == "body":
        y = rng.randrange(5)
        if y == 0:
            r.body = b""
        elif y == 1:
            r.body += r.body
        elif y == 2:
            r.body = bytes(rng.choice([409600, 409599, 409601, 131072,
                                       1 << 20]))
        elif y == 3:
            r.body = r.body[:len(r.body) // 2]
        else:
            r.body = rng.randbytes(rng.choice([4095, 8191, 8192, 8193, 65536,
                                               131071]))
        if rng.random() < .5:
            r.fields = [(n, b"%d" % len(r.body) if n == b"Content-Length"
                         else v) for n, v in r.fields]
    elif x == "sep":
        r.sep = rng.choice([b"", SEP[:10], SEP + SEP, bytes(24),
                            member(b"\r\n\r\n"), member(b""), SEP[:-1],
                            member(b"\r\n\r\nX"), b"\r\n\r\n"])
    elif x == "type":
        r.fields = [(n, rng.choice(TYPES) if n == b"WARC-Type" else v)
                    for n, v in r.fields]
    elif x == "legacy":
        r.fields.insert(rng.randrange(1, len(r.fields) + 1), (
            b"WARC-record-digest", b"sha256:" + b"0" * 64))
        if rng.random() < .7:
            n = rng.choice([0, 1, 100, 8191, 8192, 8193, 8300, 70000])
            r.body = rng.randbytes(n)
            r.fields = [(a, b"%d" % n if a == b"Content-Length" else v)
                        for a, v in r.fields]
    return x


def mangle(rng, d):
    """A few raw changes of bytes."""
    d = bytearray(d)
    for _ in range(rng.choice([1, 1, 2, 5, 20])):
        if not d:
            break
        p = rng.randrange(len(d))
        x = rng.randrange(9)
        if x < 3:
            d[p] ^= 1 << rng.randrange(8)
        elif x == 3:
            d[p] = rng.choice([0, 255, 127, 128, rng.randrange(256)])
        elif x == 4:
            del d[p:p + rng.choice([1, 2, 8, 100])]
        elif x == 5:
            d[p:p] = rng.randbytes(rng.choice([1, 2, 8, 100]))
        elif x == 6:
            d = d[:p]
        elif x == 7:
            n = rng.choice([1, 4, 8, 32, 500])
            q = rng.randrange(len(d))
            d[p:p + n] = d[q:q + n]
        else:
            q = d.find(b"\x1f\x8b\x08", p)
            if q >= 0:
                q += rng.randrange(26)
                if q < len(d):
                    d[q] = rng.choice([0, 1, 255, 128, d[q] ^ 4])
    return bytes(d)


OFFS = [0, 1, 23, 24, 100, 4096, 1 << 31, 1 << 32, (1 << 62), (1 << 63) - 1,
        1 << 63, (1 << 64) - 1]


def spoil_entries(rng, ents, nsilos):
    """Hostile index entries."""
    ents = list(ents)
    for _ in range(rng.choice([1, 2, 4, 10])):
        i = rng.randrange(len(ents))
        e = ents[i]
        k, (f, s, o), c = e[:12], struct.unpack(">IIQ", e[12:28]), e[28:]
        x = rng.randrange(8)
        if x == 0:
            f = rng.choice([0, 2, 4, 8, 0x10, 0x30, 0x34, 0x70, 0x74, 0x50,
                            0xffffffff, f ^ (1 << rng.randrange(8))])
        elif x == 1:
            s = rng.choice([0, 1, 2, 99, 100, 9999, 10000, 1 << 31,
                            0xffffffff, s + 1])
        elif x == 2:
            o = rng.choice(OFFS + [struct.unpack(">Q", rng.choice(ents)[20:28])
                                   [0]] * 4 + [o + 1, max(0, o - 1)])
        elif x == 3:
            c = rng.choice([rng.choice(ents)[:4], rng.randbytes(4), bytes(4),
                            k[:4]])
        elif x == 4:
            k = rng.choice([rng.choice(ents)[:12], bytes(12), b"\xff" * 12,
                            rng.randbytes(12)])
        elif x == 5:            # a ring of segments
            f = rng.choice([0x30, 0x34, 0x10, 0x14])
            c = rng.choice(ents)[:4]
        elif x == 6:
            ents.append(e)
            continue
        else:
            e2 = rng.choice(ents)
            f, s, o = struct.unpack(">IIQ", e2[12:28])
        ents[i] = k + struct.pack(">IIQ", f & 0xffffffff, s & 0xffffffff,
                                  o & (1 << 64) - 1) + c
    return ents


def spoil_sorted(rng, ents):
    """A hostile sorted index file."""
    x = rng.randrange(7)
    d = bytearray(sorted_index(ents, rng.choice([2, 2, 2, 3, 5, 9])))
    if x == 0:
        d[2] = rng.choice([0, 1, 3, 4, 8, 16, 28, 29, 31, 32, 40, 58, 59, 60,
                           61, 62, 63, 64, 65, 127, 128, 255])
    elif x == 1:
        d[3:8] = rng.choice([bytes(5), b"\xff" * 5, b"\0\0\0\0\1",
                             b"\x80\0\0\0\0", rng.randbytes(5)])
    elif x == 2:
        for k in range(1, min(1 << d[2], len(d) // 8)):
            if rng.random() < .5:
                d[8 * k:8 * k + 8] = struct.pack(">Q", rng.choice([
                    0, 1, 5, 1 << 31, (1 << 31) - 1, 1 << 62, 1 << 63,
                    (1 << 64) - 1, (1 << 64) - 3, (1 << 63) - 1, 1 << 59,
                    (1 << 58) - 1]))
    elif x == 3:
        d = d[:rng.randrange(len(d) + 1)]
    elif x == 4:
        n = 1 << (d[2] + 3)
        l = [d[i:i + 32] for i in range(n, len(d), 32)]
        rng.shuffle(l)
        d[n:] = b"".join(l)
    elif x == 5:
        d[0:2] = rng.choice([b"\0\0", b"aA", b"\xff\xff"])
    return bytes(d)


def write(sdir, n, base, data):
    fn = os.path.join(sdir, warc.silo_path(n) + base % n)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, "wb") as f:
        f.write(data)
    return fn
